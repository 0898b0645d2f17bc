From ab59462a19b08d5f4913077c53484c898351788f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:42:23 +0000
Subject: [PATCH 001/245] fix: CommonTime addition refuses results outside its
 range

The add functions and operators document InvalidRequest on over-/under-flow,
but the result of normalize() was ignored and an out-of-range time was kept.
---
 core/lib/TimeHandling/CommonTime.cpp | 17 +++++++++++++++--
 core/lib/TimeHandling/CommonTime.hpp |  1 +
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/CommonTime.cpp b/core/lib/TimeHandling/CommonTime.cpp
index 48de893..ed6ae84 100644
--- a/core/lib/TimeHandling/CommonTime.cpp
+++ b/core/lib/TimeHandling/CommonTime.cpp
@@ -430,11 +430,24 @@ namespace gpstk
                          long msod,
                          double fsod )
    {
+      const long   oldDay( m_day ), oldMsod( m_msod );
+      const double oldFsod( m_fsod );
+
       m_day  += days;
       m_msod += msod;
       m_fsod += fsod;
 
-      return normalize();
+      if( !normalize() )
+      {
+            // leave this object as it was
+         m_day  = oldDay;
+         m_msod = oldMsod;
+         m_fsod = oldFsod;
+         InvalidRequest ir( "Addition results in a time outside the range"
+                            " CommonTime can represent" );
+         GPSTK_THROW( ir );
+      }
+      return true;
    }
 
    bool CommonTime::normalize()
@@ -477,7 +490,7 @@ namespace gpstk
          m_fsod -= static_cast<double>(0.999);
 
       return ( ( m_day >= BEGIN_LIMIT_JDAY ) &&
-               ( m_day <  END_LIMIT_JDAY   ) );
+               ( m_day <= END_LIMIT_JDAY   ) );
    }
 
    std::ostream& operator<<(std::ostream& o, const CommonTime& ct)
diff --git a/core/lib/TimeHandling/CommonTime.hpp b/core/lib/TimeHandling/CommonTime.hpp
index ca7c9b9..7f40465 100644
--- a/core/lib/TimeHandling/CommonTime.hpp
+++ b/core/lib/TimeHandling/CommonTime.hpp
@@ -386,6 +386,7 @@ namespace gpstk
           * @param msod the number of milliseconds to add
           * @param fsod the number of fractional seconds to add
           * @return the result of calling the normalize() function
+          * @throw InvalidRequest on over-/under-flow (this is unchanged)
           */
       bool add( long days,
                 long msod,
-- 
2.43.0


From 43b93f5df283634dc157a50196e65b47640c773b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 002/245] fix: convertSODtoTime handles any negative seconds of
 day

A negative value was converted to unsigned long, so times a day or more
before midnight came out as garbage hours and minutes.
---
 core/lib/TimeHandling/TimeConverters.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/core/lib/TimeHandling/TimeConverters.cpp b/core/lib/TimeHandling/TimeConverters.cpp
index 2d3f8c9..c2f465f 100644
--- a/core/lib/TimeHandling/TimeConverters.cpp
+++ b/core/lib/TimeHandling/TimeConverters.cpp
@@ -152,14 +152,9 @@ namespace gpstk
                           double& sec )
    {
          // Get us to within one day.
-      if (sod < 0)
+      if (sod < 0 || sod >= SEC_PER_DAY)
       {
-         sod += (1 +
-                 static_cast<unsigned long>(sod / SEC_PER_DAY)) * SEC_PER_DAY ;
-      }
-      else if (sod >= SEC_PER_DAY)
-      {
-         sod -= static_cast<unsigned long>(sod / SEC_PER_DAY) * SEC_PER_DAY ;
+         sod -= floor(sod / SEC_PER_DAY) * SEC_PER_DAY;
       }
 
       double temp;               // variable to hold the integer part of sod
-- 
2.43.0


From 67cfc5fc293df855742243a2ee64dcd134d2d77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:35 +0000
Subject: [PATCH 003/245] fix: CivilTime::isValid accepts valid fractional
 seconds

Comparing the round-tripped seconds to within 4*DBL_EPSILON called most
times with a fraction invalid (e.g. 00:01:00.999).
---
 core/lib/TimeHandling/CivilTime.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/core/lib/TimeHandling/CivilTime.cpp b/core/lib/TimeHandling/CivilTime.cpp
index 1a251a8..3fca186 100644
--- a/core/lib/TimeHandling/CivilTime.cpp
+++ b/core/lib/TimeHandling/CivilTime.cpp
@@ -263,11 +263,15 @@ namespace gpstk
    {
       CivilTime temp;
       temp.convertFromCommonTime( convertToCommonTime() );
-      if( *this == temp )
-      {
-         return true;
-      }
-      return false;
+         // The round trip goes through seconds of day, which rounds the
+         // seconds by up to ~1e-11; anything larger means that some field
+         // was out of range.
+      return ( year   == temp.year    &&
+               month  == temp.month   &&
+               day    == temp.day     &&
+               hour   == temp.hour    &&
+               minute == temp.minute  &&
+               fabs(second - temp.second) < 1e-9 );
    }
 
    void CivilTime::reset()
-- 
2.43.0


From b43292b3e891348e3915a8a25918a0a80da76b15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 004/245] fix: Week::MAXWEEK depends on the week class, not on
 the first caller

---
 core/lib/TimeHandling/Week.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/Week.hpp b/core/lib/TimeHandling/Week.hpp
index 40a73e2..014b386 100644
--- a/core/lib/TimeHandling/Week.hpp
+++ b/core/lib/TimeHandling/Week.hpp
@@ -114,8 +114,8 @@ namespace gpstk
           * from CommonTime would work. */
       int MAXWEEK(void) const
       {
-         static const int mw=(CommonTime::END_LIMIT_JDAY - MJD_JDAY - MJDEpoch()) / 7;
-         return mw;
+            // not static: MJDEpoch() depends on the derived class
+         return (CommonTime::END_LIMIT_JDAY - MJD_JDAY - MJDEpoch()) / 7;
       }
 
          /// Constructor.
-- 
2.43.0


From 73db3a35b3eee7ad1de0bdb5474259f87c76cfb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:12 +0000
Subject: [PATCH 005/245] fix: fit interval across week end in EngEphemeris and
 Rinex3NavData

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 6 +++---
 core/lib/GNSSEph/EngEphemeris.cpp              | 8 ++++----
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 72cfb7f..2e86011 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -600,8 +600,8 @@ namespace gpstk
       short fitHours = getLegacyFitInterval(ee.IODC, ee.fitint);
       long beginFitSOW = Toe - (fitHours/2)*3600.0;
       long endFitSOW = Toe + (fitHours/2)*3600.0;
-      short beginFitWk = ee.weeknum;
-      short endFitWk = ee.weeknum;
+      short beginFitWk = epochWeek;
+      short endFitWk = epochWeek;
 
       if (beginFitSOW < 0)
       {
@@ -612,7 +612,7 @@ namespace gpstk
                                           TimeSystem::GPS);
       if (endFitSOW >= FULLWEEK)
       {
-         endFitSOW += FULLWEEK;
+         endFitSOW -= FULLWEEK;
          endFitWk++;
       }
 
diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 0522e5b..5076a95 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -1080,7 +1080,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
@@ -1210,8 +1210,8 @@ namespace gpstk
          short fitHours = getLegacyFitInterval(IODC, fitint);
          long beginFitSOW = toe - (fitHours/2)*3600.0;
          long endFitSOW = toe + (fitHours/2)*3600.0;
-         short beginFitWk = weeknum;
-         short endFitWk = weeknum;
+         short beginFitWk = toeWeek;
+         short endFitWk = toeWeek;
          if (beginFitSOW < 0)
          {
             beginFitSOW += FULLWEEK;
@@ -1221,7 +1221,7 @@ namespace gpstk
                                              TimeSystem::GPS);
          if (endFitSOW >= FULLWEEK)
          {
-            endFitSOW += FULLWEEK;
+            endFitSOW -= FULLWEEK;
             endFitWk++;
          }
          CommonTime endFit = GPSWeekSecond(endFitWk, endFitSOW,
-- 
2.43.0


From 4ac98fbce6b8547b9598c658ad88d67cb3031567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 006/245] fix: BrcKeplerOrbit assigns Toe to the week nearest
 transmission

---
 core/lib/GNSSEph/BrcKeplerOrbit.cpp | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/core/lib/GNSSEph/BrcKeplerOrbit.cpp b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
index 86eee77..e2173c9 100644
--- a/core/lib/GNSSEph/BrcKeplerOrbit.cpp
+++ b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
@@ -216,6 +216,7 @@ namespace gpstk
          GPSTK_THROW(exc);
       }
 
+      double Txmit = ficked[2];     // Time of week from handover word
       Crs    = ficked[6];
       dn     = ficked[7];
       M0     = ficked[8];
@@ -225,13 +226,13 @@ namespace gpstk
       Ahalf  = ficked[12];
       A      = Ahalf*Ahalf;
       double ToeSOW = ficked[13];
-/*
-  double diff = Txmit - ToeSOW;
-  if (diff > HALFWEEK)          // NOTE: This USED to be in DayTime, but DayTime is going away.  Where is it now?
-  weeknum++;                 // Convert week # of transmission to week # of epoch time when Toc is forward across a week boundary
-  else if (diff < -HALFWEEK)
-  weeknum--;                 // Convert week # of transmission to week # of epoch time when Toc is back across a week boundary
-*/
+         // weeknum is the week of transmission; move to the week of Toe
+         // when Toe is across a week boundary
+      double diff = Txmit - ToeSOW;
+      if (diff > HALFWEEK)
+         weeknum++;
+      else if (diff < -HALFWEEK)
+         weeknum--;
       Toe = GPSWeekSecond(weeknum, ToeSOW, TimeSystem::GPS);
       short fiti = static_cast<short>(ficked[14]);
       short fitHours = getLegacyFitInterval(iodc, fiti);
-- 
2.43.0


From 6ec691418521e21a1a963d806c373e9ca7bbea1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:31 +0000
Subject: [PATCH 007/245] fix: RinexNavData transmit time in the week after Toe

---
 core/lib/FileHandling/RINEX/RinexNavData.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/FileHandling/RINEX/RinexNavData.cpp b/core/lib/FileHandling/RINEX/RinexNavData.cpp
index 40bc576..6e7476f 100644
--- a/core/lib/FileHandling/RINEX/RinexNavData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexNavData.cpp
@@ -491,6 +491,12 @@ namespace gpstk
          long properXmit = fixSF1xmitSOW(sf1XmitTime+FULLWEEK);
          rv = GPSWeekSecond(toeWeek-1, properXmit, TimeSystem::GPS);
       }
+      else if (sf1XmitTime >= FULLWEEK)
+      {
+            // As above, but transmitted in the week after the Toe week.
+         long properXmit = fixSF1xmitSOW(sf1XmitTime-FULLWEEK);
+         rv = GPSWeekSecond(toeWeek+1, properXmit, TimeSystem::GPS);
+      }
       else
       {
             // If the transmit time is >= 0, make sure that we have
-- 
2.43.0


From c82743c141341728512804911fe79889af1aa918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:35 +0000
Subject: [PATCH 008/245] fix: Rinex3NavData transmit week across a week
 boundary

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 2e86011..514159e 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -738,6 +738,7 @@ namespace gpstk
       long sowToc = static_cast<GPSWeekSecond>(time).sow;
       if (sowToc%3600==0)
       {
+         adjWeeknum = static_cast<GPSWeekSecond>(time).week;
          adjXmitTime = sowToc - (gpse.fitint/2 * 3600);
          if (adjXmitTime<0)
          {
@@ -861,6 +862,7 @@ namespace gpstk
       gale.health = GalEphemeris::deriveHealth(HS,DVS,SISA);
 
       week = static_cast<GALWeekSecond>(gale.ctToe).getWeek();
+      if (dt < -HALFWEEK) week--; else if (dt > HALFWEEK) week++;
       gale.transmitTime = GALWeekSecond(week, static_cast<double>(xmitTime),
                                        TimeSystem::GAL);
       gale.adjustValidity();
@@ -907,6 +909,7 @@ namespace gpstk
 
 //      bdse.HOWtime = xmitTime;
       week = static_cast<BDSWeekSecond>(bdse.ctToe).getWeek();
+      if (dt < -HALFWEEK) week--; else if (dt > HALFWEEK) week++;
       bdse.transmitTime = BDSWeekSecond(week, static_cast<double>(xmitTime),
                                        TimeSystem::BDT);
       bdse.adjustValidity();
@@ -958,6 +961,7 @@ namespace gpstk
 
 //      qzse.HOWtime = xmitTime;
       week = static_cast<QZSWeekSecond>(qzse.ctToe).getWeek();
+      if (dt < -HALFWEEK) week--; else if (dt > HALFWEEK) week++;
       qzse.transmitTime = QZSWeekSecond(week, static_cast<double>(xmitTime),
                                           TimeSystem::QZS);
       qzse.beginValid = qzse.transmitTime;
-- 
2.43.0


From 735c94fda391882a5febaaa98dd92efc0dbf1403 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 009/245] fix: TimeSystemCorrection GLGP, BDGP and QZGP follow
 their A0,A1 definitions

---
 core/lib/RefTime/TimeSystemCorr.cpp | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/lib/RefTime/TimeSystemCorr.cpp b/core/lib/RefTime/TimeSystemCorr.cpp
index 427d331..7ae31bc 100644
--- a/core/lib/RefTime/TimeSystemCorr.cpp
+++ b/core/lib/RefTime/TimeSystemCorr.cpp
@@ -369,10 +369,11 @@ namespace gpstk
                GPSTK_THROW(e);
             }
 
+               // A0 = -TauGPS
             if(fromTS == TimeSystem::GLO)             // GLO => GPS
-               corr = A0;
-            else                                      // GPS => GLO
                corr = -A0;
+            else                                      // GPS => GLO
+               corr = A0;
 
             break;
 
@@ -382,10 +383,16 @@ namespace gpstk
                GPSTK_THROW(e);
             }
 
+               // dt = fromTime - refTime
+            gpsws = GPSWeekSecond(refWeek,refSOW);
+            refTime = gpsws.convertToCommonTime();
+            refTime.setTimeSystem(fromTS);
+            dt = ct - refTime;
+
             if(fromTS == TimeSystem::QZS)             // QZS => GPS
-               corr = 0.0;    // TD?
+               corr = -A0-A1*dt;
             else                                      // GPS => QZS
-               corr = 0.0;    // TD?
+               corr = A0+A1*dt;
 
             break;
 
@@ -440,9 +447,9 @@ namespace gpstk
             dt = ct - refTime;
 
             if(fromTS == TimeSystem::BDT)             // BDT => GPS
-               corr = A0;
+               corr = -A0-A1*dt;
             else                                      // GPS => BDT
-               corr = -A0;
+               corr = A0+A1*dt;
 
             break;
 
-- 
2.43.0


From 72b93ab9401fb70f935cd1578ab5c867ca2b728c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 010/245] fix: expandTimeCorrMap derives GPGA with the sign
 Correction() uses

---
 core/lib/GNSSEph/Rinex3EphemerisStore.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/Rinex3EphemerisStore.hpp b/core/lib/GNSSEph/Rinex3EphemerisStore.hpp
index 60481e8..a27eb18 100644
--- a/core/lib/GNSSEph/Rinex3EphemerisStore.hpp
+++ b/core/lib/GNSSEph/Rinex3EphemerisStore.hpp
@@ -380,8 +380,8 @@ namespace gpstk
                && mapTimeCorr.find(std::string("GPGA")) == mapTimeCorr.end())
             {
                TimeSystemCorrection tc("GPGA");
-               tc.A0 = jt->second.A0 - it->second.A0;
-               tc.A1 = jt->second.A1 - it->second.A1;
+               tc.A0 = it->second.A0 - jt->second.A0;
+               tc.A1 = it->second.A1 - jt->second.A1;
                tc.refYr = it->second.refYr;           // take ref time from GAL
                tc.refMon = it->second.refMon;
                tc.refDay = it->second.refDay;
-- 
2.43.0


From 875180dfbb42f585ba7ed2e8a5e4a74e3bde93da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 011/245] fix: getLeapSeconds keeps the fraction of the day
 before 1972

---
 core/lib/RefTime/TimeSystem.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/RefTime/TimeSystem.cpp b/core/lib/RefTime/TimeSystem.cpp
index 78d8f44..428bdf8 100644
--- a/core/lib/RefTime/TimeSystem.cpp
+++ b/core/lib/RefTime/TimeSystem.cpp
@@ -150,7 +150,7 @@ namespace gpstk
                // rec.month >= month
                // watch out - cannot use CommonTime here
             int iday(static_cast<int>(day));
-            double dday(static_cast<double>(iday-int(day)));
+            double dday(static_cast<double>(day-iday));
             if (iday == 0)
             {
                iday = 1;
-- 
2.43.0


From 9cb935ffef30ffcafec2499b1e243d4161489b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 012/245] fix: OrbSysGpsL_56 applies the leap second at the end
 of day DN

---
 ext/lib/GNSSEph/OrbSysGpsL_56.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ext/lib/GNSSEph/OrbSysGpsL_56.cpp b/ext/lib/GNSSEph/OrbSysGpsL_56.cpp
index 9b06d24..9ec218d 100644
--- a/ext/lib/GNSSEph/OrbSysGpsL_56.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsL_56.cpp
@@ -252,12 +252,14 @@ namespace gpstk
 
          // compute offset between user's time and
          // leap second time of effectivity.
-      double diff = ctLSF - ct;
+         // ctLSF is the start of the (UTC) day at whose end the leap
+         // second becomes effective.
+      double diff = (ctLSF + SEC_PER_DAY + dtLSF) - ct;
       double diffAbs = fabs(diff);
 
          // Case a: WN-sub-LSF/DN is not in the past.
          // That is to say, it is >= the current time.
-      if (diff>=0)
+      if (diff>0)
       {
          retVal = (double) dtLS + dtUTC;
       }
-- 
2.43.0


From b98e9da707d172017a0b89abeb5224efb7dd5ba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 013/245] fix: EphTime built from a GNSS time is labelled UTC
 after conversion to UTC

---
 ext/lib/Geomatics/EphTime.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ext/lib/Geomatics/EphTime.hpp b/ext/lib/Geomatics/EphTime.hpp
index ffbce7d..78910b3 100644
--- a/ext/lib/Geomatics/EphTime.hpp
+++ b/ext/lib/Geomatics/EphTime.hpp
@@ -180,6 +180,7 @@ namespace gpstk
             double dt = gpstk::getTimeSystemCorrection(sys, TimeSystem::UTC,
                                     civt.year, civt.month, civt.day);
             ct += dt;
+            ct.setTimeSystem(TimeSystem::UTC);
          }
 
          MJD ctmjd;
-- 
2.43.0


From 5e4fce6f8df1a4f361afc0965dde44312d1bde66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:47 +0000
Subject: [PATCH 014/245] fix: EphTime::asGPSString seconds of week counted
 from the week's start

---
 ext/lib/Geomatics/EphTime.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/EphTime.hpp b/ext/lib/Geomatics/EphTime.hpp
index 78910b3..f342f07 100644
--- a/ext/lib/Geomatics/EphTime.hpp
+++ b/ext/lib/Geomatics/EphTime.hpp
@@ -219,7 +219,7 @@ namespace gpstk
       {
          std::ostringstream oss;
          int wk((iMJD-GPS_EPOCH_MJD)/7);
-         double sow((iMJD-wk*7)*SEC_PER_DAY + dSOD);
+         double sow((iMJD-GPS_EPOCH_MJD-wk*7)*SEC_PER_DAY + dSOD);
          if(sow >= FULLWEEK) { sow -= FULLWEEK; wk++; }
          oss << wk << " " << std::fixed << std::setprecision(prec) << sow;
          return oss.str();
-- 
2.43.0


From a6f23b8993b181a9e6932d186075061e3a2b2535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 015/245] fix: OrbSysGpsC_33 uses the leap second transition
 formula only within six hours of it

---
 ext/lib/GNSSEph/OrbSysGpsC_33.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ext/lib/GNSSEph/OrbSysGpsC_33.cpp b/ext/lib/GNSSEph/OrbSysGpsC_33.cpp
index c86f299..9ce86ff 100644
--- a/ext/lib/GNSSEph/OrbSysGpsC_33.cpp
+++ b/ext/lib/GNSSEph/OrbSysGpsC_33.cpp
@@ -218,19 +218,20 @@ namespace gpstk
       double diff = (ctLSF + SEC_PER_DAY) - ct;
       double diffAbs = fabs(diff);
       double SEC_PER_HALF_DAY = SEC_PER_DAY / 2.0;
+      double SIX_HOURS = SEC_PER_DAY / 4.0;
 
       //cout << " diff, diffAbs : " << diff << ", " << diffAbs << endl;
 
          // Case a: Effectivity is NOT in the past and is more than
          //         six hours in the future
-      if (diff>0 && diffAbs>SEC_PER_HALF_DAY)
+      if (diff>0 && diffAbs>SIX_HOURS)
       {
          //cout << "Case a" << endl;
          retVal = (double) dtLS + dtUTC;
       }
-         // Case c: Effectivity is in the past and more than a
-         // half-day in the past.
-      else if (diff<0 && diffAbs>SEC_PER_HALF_DAY)
+         // Case c: Effectivity is in the past and more than
+         // six hours in the past.
+      else if (diff<0 && diffAbs>SIX_HOURS)
       {
          //cout << "Case c" << endl;
          retVal = (double) dtLSF + dtUTC;
-- 
2.43.0


From 8824f9d908af6cf40952fef99ac6d04458b0b377 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:15 +0000
Subject: [PATCH 016/245] fix: TimeTag::getInfo took the '-' flag or a bare
 precision for a field width

---
 core/lib/TimeHandling/TimeTag.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/TimeTag.cpp b/core/lib/TimeHandling/TimeTag.cpp
index 1d656f0..25d21aa 100644
--- a/core/lib/TimeHandling/TimeTag.cpp
+++ b/core/lib/TimeHandling/TimeTag.cpp
@@ -106,12 +106,17 @@ namespace gpstk
                          << "f:\"" << f << "\"" << std::endl
                          << "s:\"" << s << "\"" << std::endl;
 
+            long width = 0;
             if( !isalpha( f[0] ) )
             {
                // If the format string is %03f, get '3' as the field length.
                // This is where we have a specified field length so we should
-               // not throw away any more characters
-               fieldLength = asInt( f );
+               // not throw away any more characters.
+               // A leading '-' is the left-justify flag, and a precision
+               // alone (%.3f) does not specify a field length.
+               width = asInt( f );
+               if (width < 0)
+                  width = -width;
 
                // remove everything else up to the next character
                // (in "%03f", that would be 'f')
@@ -121,6 +126,11 @@ namespace gpstk
                if ( f.empty() )
                   break;
             }
+
+            if ( width > 0 )
+            {
+               fieldLength = width;
+            }
             else
             {
                // When there is no field width specified, there must be a
-- 
2.43.0


From d8cc83a59c42c965c2679e2fe6b2438d9e0d7b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 017/245] fix: mixedScanTime ignored the values of BDS,
 Galileo, QZSS and IRNSS week codes

---
 core/lib/TimeHandling/TimeString.cpp | 47 +++++++++++++++++++++++-----
 1 file changed, 39 insertions(+), 8 deletions(-)

diff --git a/core/lib/TimeHandling/TimeString.cpp b/core/lib/TimeHandling/TimeString.cpp
index aa52bdd..6b9cb62 100644
--- a/core/lib/TimeHandling/TimeString.cpp
+++ b/core/lib/TimeHandling/TimeString.cpp
@@ -672,14 +672,45 @@ namespace gpstk
                   iepoch = asInt(itr->second);
                   break;
 
-               case 'D': hfullweek = hbdsfw = true; break;
-               case 'e': hweek = hbdsw = true; break;
-               case 'L': hfullweek = hgalfw = true; break;
-               case 'l': hweek = hgalw = true; break;
-               case 'I': hfullweek = hqzsfw = true; break;
-               case 'i': hweek = hqzsw = true; break;
-               case 'O': hfullweek = hirnfw = true; break;
-               case 'o': hweek = hirnw = true; break;
+               case 'D':
+                  hfullweek = hbdsfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'e':
+                  hweek = hbdsw = true;
+                  iweek = asInt(itr->second);
+                  break;
+
+               case 'L':
+                  hfullweek = hgalfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'l':
+                  hweek = hgalw = true;
+                  iweek = asInt(itr->second);
+                  break;
+
+               case 'h':
+                  hfullweek = hqzsfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'i':
+                  hweek = hqzsw = true;
+                  iweek = asInt(itr->second);
+                  break;
+
+               case 'O':
+                  hfullweek = hirnfw = true;
+                  ifullweek = asInt(itr->second);
+                  break;
+
+               case 'o':
+                  hweek = hirnw = true;
+                  iweek = asInt(itr->second);
+                  break;
 
                default:
                      // do nothing
-- 
2.43.0


From b327364e479d42e9e6edf7e039d45d49ffa38a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 018/245] fix: scanTime lost the weekday when given by name

---
 core/lib/TimeHandling/TimeString.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/TimeString.cpp b/core/lib/TimeHandling/TimeString.cpp
index 6b9cb62..d1f0882 100644
--- a/core/lib/TimeHandling/TimeString.cpp
+++ b/core/lib/TimeHandling/TimeString.cpp
@@ -362,7 +362,7 @@ namespace gpstk
             ptt->setFromInfo(info);
             if( hdow && !hsow )
             {
-               ptt->sow = asInt( info['w'] ) * SEC_PER_DAY;
+               ptt->sow = idow * SEC_PER_DAY;
                if( hsod )
                {
                   ptt->sow += asDouble( info['s'] );
-- 
2.43.0


From fe9f66b38b26caf479022e0fe17712006eb76695 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 019/245] fix: scanTime misread a seconds of day rounded up to
 86400 as the start of the day

---
 core/lib/TimeHandling/TimeString.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/TimeString.cpp b/core/lib/TimeHandling/TimeString.cpp
index d1f0882..ccd83dc 100644
--- a/core/lib/TimeHandling/TimeString.cpp
+++ b/core/lib/TimeHandling/TimeString.cpp
@@ -318,8 +318,13 @@ namespace gpstk
                tt.setFromInfo( info );
                if( hsod )
                {
-                  convertSODtoTime( asDouble( info['s'] ), 
-                                    tt.hour, tt.minute, tt.second );
+                     // not converted to hour, minute and second because a
+                     // rounded 86400.0 must carry into the next day
+                  tt.hour = tt.minute = 0;
+                  tt.second = 0.0;
+                  t = tt.convertToCommonTime();
+                  t += asDouble( info['s'] );
+                  return;
                }
                t = tt.convertToCommonTime();
                return;
-- 
2.43.0


From dd5c89d07e4dcecd48505bf4a270f1e077c4a5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 020/245] fix: QZSWeekSecond parsed the time system name as an
 integer

---
 core/lib/TimeHandling/QZSWeekSecond.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/QZSWeekSecond.hpp b/core/lib/TimeHandling/QZSWeekSecond.hpp
index 4ced809..95677ff 100644
--- a/core/lib/TimeHandling/QZSWeekSecond.hpp
+++ b/core/lib/TimeHandling/QZSWeekSecond.hpp
@@ -189,7 +189,7 @@ namespace gpstk
                   sow = gpstk::StringUtils::asDouble( i->second );
                   break;
                case 'P':
-                  timeSystem = static_cast<TimeSystem>(gpstk::StringUtils::asInt( i->second ));
+                  timeSystem = gpstk::StringUtils::asTimeSystem(i->second);
                   break;
                default:
                      // do nothing
-- 
2.43.0


From 61ffedd94952821887c0c7b3efd4bbb4165e8d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:23 +0000
Subject: [PATCH 021/245] fix: week/second times dropped the seconds of week
 when the weekday is also given

---
 core/lib/TimeHandling/BDSWeekSecond.hpp | 6 +++++-
 core/lib/TimeHandling/GALWeekSecond.hpp | 6 +++++-
 core/lib/TimeHandling/GPSWeekSecond.hpp | 6 +++++-
 core/lib/TimeHandling/IRNWeekSecond.hpp | 6 +++++-
 core/lib/TimeHandling/QZSWeekSecond.hpp | 6 +++++-
 5 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/core/lib/TimeHandling/BDSWeekSecond.hpp b/core/lib/TimeHandling/BDSWeekSecond.hpp
index 7f236d1..d6f168f 100644
--- a/core/lib/TimeHandling/BDSWeekSecond.hpp
+++ b/core/lib/TimeHandling/BDSWeekSecond.hpp
@@ -185,7 +185,11 @@ namespace gpstk
                   setModWeek( gpstk::StringUtils::asInt( i->second ) );
                   break;
                case 'w':
-                  sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                     // seconds of week, when present, already include the day
+                  if (info.find('g') == info.end())
+                  {
+                     sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                  }
                   break;
                case 'g':
                   sow = gpstk::StringUtils::asDouble( i->second );
diff --git a/core/lib/TimeHandling/GALWeekSecond.hpp b/core/lib/TimeHandling/GALWeekSecond.hpp
index 7275710..65aa39c 100644
--- a/core/lib/TimeHandling/GALWeekSecond.hpp
+++ b/core/lib/TimeHandling/GALWeekSecond.hpp
@@ -183,7 +183,11 @@ namespace gpstk
                   setModWeek( gpstk::StringUtils::asInt( i->second ) );
                   break;
                case 'w':
-                  sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                     // seconds of week, when present, already include the day
+                  if (info.find('g') == info.end())
+                  {
+                     sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                  }
                   break;
                case 'g':
                   sow = gpstk::StringUtils::asDouble( i->second );
diff --git a/core/lib/TimeHandling/GPSWeekSecond.hpp b/core/lib/TimeHandling/GPSWeekSecond.hpp
index ca915a2..9a1accf 100644
--- a/core/lib/TimeHandling/GPSWeekSecond.hpp
+++ b/core/lib/TimeHandling/GPSWeekSecond.hpp
@@ -213,7 +213,11 @@ namespace gpstk
                   setModWeek( gpstk::StringUtils::asInt( i->second ) );
                   break;
                case 'w':
-                  sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                     // seconds of week, when present, already include the day
+                  if (info.find('g') == info.end())
+                  {
+                     sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                  }
                   break;
                case 'g':
                   sow = gpstk::StringUtils::asDouble( i->second );
diff --git a/core/lib/TimeHandling/IRNWeekSecond.hpp b/core/lib/TimeHandling/IRNWeekSecond.hpp
index 903cbf2..79e272e 100755
--- a/core/lib/TimeHandling/IRNWeekSecond.hpp
+++ b/core/lib/TimeHandling/IRNWeekSecond.hpp
@@ -185,7 +185,11 @@ namespace gpstk
                   setModWeek( gpstk::StringUtils::asInt( i->second ) );
                   break;
                case 'w':
-                  sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                     // seconds of week, when present, already include the day
+                  if (info.find('g') == info.end())
+                  {
+                     sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                  }
                   break;
                case 'g':
                   sow = gpstk::StringUtils::asDouble( i->second );
diff --git a/core/lib/TimeHandling/QZSWeekSecond.hpp b/core/lib/TimeHandling/QZSWeekSecond.hpp
index 95677ff..d8068f2 100644
--- a/core/lib/TimeHandling/QZSWeekSecond.hpp
+++ b/core/lib/TimeHandling/QZSWeekSecond.hpp
@@ -183,7 +183,11 @@ namespace gpstk
                   setModWeek( gpstk::StringUtils::asInt( i->second ) );
                   break;
                case 'w':
-                  sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                     // seconds of week, when present, already include the day
+                  if (info.find('g') == info.end())
+                  {
+                     sow = static_cast<double>(gpstk::StringUtils::asInt(i->second))*SEC_PER_DAY;
+                  }
                   break;
                case 'g':
                   sow = gpstk::StringUtils::asDouble( i->second );
-- 
2.43.0


From c679ab86ee9842e63b61262e1130e952556cfd0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 022/245] fix: TimeRange::operator< gave no order between an
 open start and a later closed start

---
 core/lib/TimeHandling/TimeRange.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/lib/TimeHandling/TimeRange.cpp b/core/lib/TimeHandling/TimeRange.cpp
index 89f3e02..971b379 100644
--- a/core/lib/TimeHandling/TimeRange.cpp
+++ b/core/lib/TimeHandling/TimeRange.cpp
@@ -194,6 +194,15 @@ namespace gpstk
         {
           return true; 
         }
+     }
+        // Left is NOT inclusive but right IS, so left must begin
+        // strictly before right.
+     else
+     {
+        if (start<right.start)
+        {
+          return true;
+        }
      }
      return false;
    }
-- 
2.43.0


From 01e7fbc5195d7219e306fbc8b82f58c6f89e5eb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:29 +0000
Subject: [PATCH 023/245] fix: mixedScanTime rolled month or year over when the
 previous day does not exist in the new month or year

---
 core/lib/TimeHandling/TimeString.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/TimeHandling/TimeString.cpp b/core/lib/TimeHandling/TimeString.cpp
index ccd83dc..84e533d 100644
--- a/core/lib/TimeHandling/TimeString.cpp
+++ b/core/lib/TimeHandling/TimeString.cpp
@@ -752,6 +752,9 @@ namespace gpstk
          {
             YDSTime tt(ct);
             tt.year = iyear;
+               // a day yet to be read must not roll over into another year
+            if( (hmonth && hday) || hdoy )
+               tt.doy = 1;
             ct = tt.convertToCommonTime();
          }
  
@@ -759,6 +762,9 @@ namespace gpstk
          {
             CivilTime tt(ct);
             tt.month = imonth;
+               // a day yet to be read must not roll over into another month
+            if( hday )
+               tt.day = 1;
             ct = tt.convertToCommonTime();
          }
 
-- 
2.43.0


From e5dc4c70be7485c888420d9614549ae88a230d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 024/245] fix: PackedNavBits::rawBitInput kept the old bits of
 a non-empty buffer

---
 core/lib/GNSSEph/PackedNavBits.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 4881b75..cc1e0d8 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -991,6 +991,7 @@ namespace gpstk
          //  That is to say, []# of 32 bits words] = ((inBits-1)/32) + 1;
       int numWordsExpected = (( bitsExpected-1)/32) + 1; 
       int bitsRead = 0;
+      bits_used = 0;  // replace whatever was here before
          // debug
       //cout << "bitsExpected, numWordsExpected : " << bitsExpected << ", " << numWordsExpected << endl; 
       for (int i = 0; i<numWordsExpected; ++i)
-- 
2.43.0


From 645d630f7fbe1676100c713dcdaacba86f7eaac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 025/245] fix: PackedNavBits comparisons looked at unused bits,
 and before the start of an empty buffer

---
 core/lib/GNSSEph/PackedNavBits.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index cc1e0d8..047cd45 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -637,13 +637,13 @@ namespace gpstk
          // happen.  In the context of NavFilter, data SHOULD be
          // from the same system, therefore, the same length should 
          // always be true.
-      if (bits.size()!=right.bits.size())
+      if (bits_used!=right.bits_used)
       {
-         if (bits.size()<right.bits.size()) return true;
+         if (bits_used<right.bits_used) return true;
          return false;
       }
 
-      for (int i=0;i<bits.size();i++)
+      for (int i=0;i<bits_used;i++)
       {
          if (bits[i]==false && right.bits[i]==true)
          //if (bits[i]<right.bits[i])
@@ -939,15 +939,16 @@ namespace gpstk
    {
          // If the two objects don't have the same number of bits,
          // don't even try to compare them. 
-      if (bits.size()!=right.bits.size()) return false; 
+      if (bits_used!=right.bits_used) return false; 
+      if (bits_used==0) return true;
 
       short startBit = startBitA;
       short endBit = endBitA; 
          // Check for nonsense arguments
       if (endBit==-1 ||
-          endBit>=int(bits.size())) endBit = bits.size()-1;
+          endBit>=bits_used) endBit = bits_used-1;
       if (startBit<0) startBit=0;
-      if (startBit>=int(bits.size())) startBit = bits.size()-1;
+      if (startBit>=bits_used) startBit = bits_used-1;
 
       for (int i=startBit;i<=endBit;i++)
       {
-- 
2.43.0


From 85d6cb3d780c8a1f7e63a862a49d36668d995b19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 026/245] fix: PackedNavBits wrote past the end of its bit
 vector

---
 core/lib/GNSSEph/PackedNavBits.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 047cd45..170b894 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -605,6 +605,8 @@ namespace gpstk
       size_t ndx = bits_used;
       uint64_t mask = 0x0000000000000001L;
       mask <<= (numBits-1);
+      if (bits.size() < ndx + numBits)
+         bits.resize(ndx + numBits);
 
       for (int i=0; i<numBits; ++i)
       {
-- 
2.43.0


From 57fc1c01accfd4577a403d3da63bc9a45faaae46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 027/245] fix: PackedNavBits::addPackedNavBits read out of
 bounds when appending an object to itself

---
 core/lib/GNSSEph/PackedNavBits.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 170b894..9b82fbd 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -591,10 +591,11 @@ namespace gpstk
    void PackedNavBits::addPackedNavBits(const PackedNavBits& right)
    {
       int old_bits_used = bits_used;
-      bits_used += right.bits_used;
+      int right_bits_used = right.bits_used; // right may be this object
+      bits_used += right_bits_used;
       bits.resize(bits_used);
       
-      for (int i=0;i<right.bits_used;i++)
+      for (int i=0;i<right_bits_used;i++)
       {
          bits[i+old_bits_used] = right.bits[i];
       }
-- 
2.43.0


From 0d923b0784e04c7fa60fef3c1b975fcea3748db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 028/245] fix: PackedNavBits::asString put a blank in front of
 the text

---
 core/lib/GNSSEph/PackedNavBits.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 9b82fbd..771990e 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -332,7 +332,7 @@ namespace gpstk
    std::string PackedNavBits::asString(const int startBit, const int numChars) const 
    {
       int CHAR_SIZE = 8;
-      string out = " ";
+      string out;
       int currentStart = startBit;
       for (int i = 0; i < numChars; ++i)
       {
-- 
2.43.0


From ebbd294e4b0c397124492e7a57970ebdc2359c0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:13:15 +0000
Subject: [PATCH 029/245] fix: PackedNavBits accepted over-range values for
 wide fields and far out-of-range doubles

---
 core/lib/GNSSEph/PackedNavBits.cpp | 46 +++++++++++++++++++-----------
 1 file changed, 30 insertions(+), 16 deletions(-)

diff --git a/core/lib/GNSSEph/PackedNavBits.cpp b/core/lib/GNSSEph/PackedNavBits.cpp
index 771990e..e09fb7c 100644
--- a/core/lib/GNSSEph/PackedNavBits.cpp
+++ b/core/lib/GNSSEph/PackedNavBits.cpp
@@ -54,6 +54,15 @@
 namespace gpstk
 {
    using namespace std;
+
+      /// Largest value that fits in numBits bits (1-64).  Integer arithmetic
+      /// because a double can't hold 2^n - 1 beyond 53 bits.
+   static uint64_t maxUnsigned(int numBits)
+   {
+      if (numBits >= 64) return ~static_cast<uint64_t>(0);
+      return (static_cast<uint64_t>(1) << numBits) - 1;
+   }
+
    PackedNavBits::PackedNavBits()
                  : transmitTime(CommonTime::BEGINNING_OF_TIME),
                    parityStatus(psUnknown),
@@ -469,8 +478,7 @@ namespace gpstk
       uint64_t out = (uint64_t) value;
       out /= scale;
 
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1; 
-      if ( out > test )
+      if ( out > maxUnsigned(numBits) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
@@ -488,8 +496,8 @@ namespace gpstk
       out = (int64_t) value;
       out /= scale;
 
-      int64_t test = pow(static_cast<double>(2),numBits-1) - 1; 
-      if ( ( out > test ) || ( out < -( test + 1 ) ) )
+      int64_t test = (int64_t) maxUnsigned(numBits-1);
+      if ( ( out > test ) || ( out < -test - 1 ) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
@@ -500,15 +508,16 @@ namespace gpstk
    void PackedNavBits::addUnsignedDouble( const double value, const int numBits,
                                           const int power2 ) 
    {
-      uint64_t out = (uint64_t) ScaleValue(value, power2);
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1;
-      if ( out > test )
+         // Check the range before converting, as the conversion of a value
+         // that is out of range is undefined.
+      double scaled = ScaleValue(value, power2);
+      if ( !( scaled > -1.0 && scaled < ldexp(1.0, numBits) ) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
       }
 
-      addUint64_t( out, numBits ); 
+      addUint64_t( (uint64_t) scaled, numBits ); 
    } 
 
    void PackedNavBits::addSignedDouble( const double value, const int numBits,
@@ -519,13 +528,16 @@ namespace gpstk
          uint64_t u_out;
          int64_t out;
       };
-      out = (int64_t) ScaleValue(value, power2);
-      int64_t test = pow(static_cast<double>(2),numBits-1) - 1; 
-      if ( ( out > test ) || ( out < -( test + 1 ) ) )
+         // Check the range before converting, as the conversion of a value
+         // that is out of range is undefined.
+      double scaled = trunc(ScaleValue(value, power2));
+      double limit = ldexp(1.0, numBits-1);
+      if ( !( scaled >= -limit && scaled < limit ) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
       }
+      out = (int64_t) scaled;
       addUint64_t( u_out, numBits ); 
    }
 
@@ -538,13 +550,16 @@ namespace gpstk
          int64_t out;
       };
       double temp = Radians/PI;
-      out = (int64_t) ScaleValue(temp, power2);
-      int64_t test = pow(static_cast<double>(2), numBits-1) - 1; 
-      if ( ( out > test ) || ( out < -( test + 1 ) ) )
+         // Check the range before converting, as the conversion of a value
+         // that is out of range is undefined.
+      double scaled = trunc(ScaleValue(temp, power2));
+      double limit = ldexp(1.0, numBits-1);
+      if ( !( scaled >= -limit && scaled < limit ) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
       }
+      out = (int64_t) scaled;
       addUint64_t( u_out, numBits );
    }
 
@@ -725,8 +740,7 @@ namespace gpstk
       uint64_t out = (uint64_t) value;
       out /= scale;
 
-      uint64_t test = pow(static_cast<double>(2),numBits) - 1; 
-      if ( out > test )
+      if ( out > maxUnsigned(numBits) )
       {
          InvalidParameter exc("Scaled value too large for specifed bit length");
          GPSTK_THROW(exc);
-- 
2.43.0


From 115fb8666b0200b82a3a56204138c33c3f376c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 030/245] fix: EngNav::getSubframePattern indexed out of bounds
 for page IDs 33-50

---
 core/lib/GNSSEph/EngNav.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index cabdac8..6bbf6d9 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -507,6 +507,8 @@ namespace gpstk
       svid  = static_cast<short>( itemp );
       if ( svid <= 32 )
          iret = 4;            /* PRN orbit data */
+      else if ( svid < 51 )
+         iret = 0;            /* not a valid page */
       else
          iret = patId[svid-51];  /* look up pat id for almanac overhead
                                     information */
-- 
2.43.0


From 9aa245a7b0656066231b75388219f014380b65c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:48 +0000
Subject: [PATCH 031/245] fix: EngNav::subframeConvert returned all zeros until
 an EngNav object had been created

---
 core/lib/GNSSEph/EngNav.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 6bbf6d9..6fc4723 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -380,6 +380,10 @@ namespace gpstk
       short patId = -2, i = 2;
       struct DecodeQuant *p=NULL;
 
+         // The constructor fills the conversion tables, and there may not
+         // have been an object yet.
+      static const EngNav initTables;
+
       for (i=0; i< 20; i++)
          output[i] = 0.0L;
 
-- 
2.43.0


From 0be371d672a1b5b826271e357b829b6b37041eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:49 +0000
Subject: [PATCH 032/245] fix: EngNav::zcount2page gave page 25 instead of 10
 for the last subframe of the week

---
 core/lib/GNSSEph/EngNav.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index 6fc4723..f88afd1 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -624,6 +624,10 @@ namespace gpstk
             page = ((mod500 - 12) / 20) + 1;
             break;
          case 5:
+               // The HOW of the last subframe of the week is zero, and
+               // the pages restart each week.
+            if (zcount == 0)
+               mod500 = 403200 % 500;
             page = (mod500 > 0) ? ((mod500 - 16) / 20) + 1 : 25;
             break;
          default:
-- 
2.43.0


From 5c726430208ee37dfd863fba0cb57a37d5c92cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 033/245] fix: EngNav::fixParity kept old parity bits, and
 solved the non-information bits of inverted words wrong

---
 core/lib/GNSSEph/EngNav.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/EngNav.cpp b/core/lib/GNSSEph/EngNav.cpp
index f88afd1..cb689b6 100644
--- a/core/lib/GNSSEph/EngNav.cpp
+++ b/core/lib/GNSSEph/EngNav.cpp
@@ -694,18 +694,22 @@ namespace gpstk
                                  0x1763E680L, 0x2BB1F340L, 0x0B7A89C0L };
 
       uint32_t D = 0;
-      uint32_t d = sfword;
+      uint32_t d = sfword & 0xffffffc0; // discard any existing parity
       uint32_t D29 = getd29(psfword);
       uint32_t D30 = getd30(psfword);
 
       if (nib)
       {
             // make sure the non-information bits are zero to start with.
-         d &= 0xffffff00;
+            // The parity equations apply to the upright data.
+         uint32_t inv = (D30 && !knownUpright) ? 0xffffff00 : 0;
+         d = (d & 0xffffff00) ^ inv;
          if ((D30 + BinUtils::countBits(bmask[4] & d)) % 2)
             d |= 0x00000040;
          if ((D29 + BinUtils::countBits(bmask[5] & d)) % 2)
             d |= 0x00000080;
+         if (inv)
+            d ^= 0xffffffc0;
       }
 
       D = computeParity(d, psfword, knownUpright);
-- 
2.43.0


From c5ed071bbb608a906b50d3109c97b66fb70113f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:48 +0000
Subject: [PATCH 034/245] fix: EngEphemeris::addIncompleteSF1Thru3 ignored the
 transmit time, giving epochs a week early

---
 core/lib/GNSSEph/EngEphemeris.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/lib/GNSSEph/EngEphemeris.cpp b/core/lib/GNSSEph/EngEphemeris.cpp
index 5076a95..dc51881 100644
--- a/core/lib/GNSSEph/EngEphemeris.cpp
+++ b/core/lib/GNSSEph/EngEphemeris.cpp
@@ -218,25 +218,25 @@ namespace gpstk
          //   :18/:48 for SF 3
          // This method hasn't a clue about the accuracy of the SOW
          // input by the user, but it WILL enforce this relationship.
-         //long frameCount = sf1TransmitSOW / 30;
-         //long SF1HOWTime = (frameCount * 30) + 6;
+         // The HOW count is in units of 6 seconds, in the 17 MSBs of the word.
+      uint32_t sf1HOWCount = (sf1TransmitSOW / 30) * 5 + 1;
 
          // Convert subframe 1 parameters
       subframeStore[0][0] = sf1Lead[0];
-      subframeStore[0][1] = sf1Lead[1];
+      subframeStore[0][1] = sf1Lead[1] | (sf1HOWCount << 13);
       int i;
       for (i=0; i<8; ++i) subframeStore[0][i+2] = sf1[i];
       haveSubframe[0] = true;
 
          // Convert subframe 2 parameters
       subframeStore[1][0] = sf2Lead[0];
-      subframeStore[1][1] = sf2Lead[1];
+      subframeStore[1][1] = sf2Lead[1] | ((sf1HOWCount+1) << 13);
       for (i=0; i<8; ++i) subframeStore[1][i+2] = sf2[i];
       haveSubframe[1] = true;
 
          // Convert subframe 3 parameters
       subframeStore[2][0] = sf3Lead[0];
-      subframeStore[2][1] = sf3Lead[1];
+      subframeStore[2][1] = sf3Lead[1] | ((sf1HOWCount+2) << 13);
       for (i=0; i<8; ++i) subframeStore[2][i+2] = sf3[i];
       haveSubframe[2] = true;
 
-- 
2.43.0


From 5601accd7aeae8c396f6a30afa6cb4e7b0e6aecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 035/245] fix: RinexSatID prints the Mixed system it accepts as
 'M'

---
 core/lib/GNSSCore/RinexSatID.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/GNSSCore/RinexSatID.cpp b/core/lib/GNSSCore/RinexSatID.cpp
index e6009c8..e6b85cf 100644
--- a/core/lib/GNSSCore/RinexSatID.cpp
+++ b/core/lib/GNSSCore/RinexSatID.cpp
@@ -71,6 +71,7 @@ namespace gpstk
          case SatelliteSystem::QZSS:    return 'J';
          case SatelliteSystem::BeiDou:  return 'C';
          case SatelliteSystem::IRNSS:   return 'I';
+         case SatelliteSystem::Mixed:   return 'M';
          default:                       return '?';
       }
    }
-- 
2.43.0


From bf64223a3b866213636538df99548e2233bcbca7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:11 +0000
Subject: [PATCH 036/245] fix: NavTypeIterator visits every navigation message
 type

---
 core/lib/GNSSEph/NavType.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/NavType.hpp b/core/lib/GNSSEph/NavType.hpp
index f9030dc..0365cac 100644
--- a/core/lib/GNSSEph/NavType.hpp
+++ b/core/lib/GNSSEph/NavType.hpp
@@ -75,7 +75,7 @@ namespace gpstk
 
       /** Define an iterator so C++11 can do things like
        * for (NavType i : NavTypeIterator()) */
-   typedef EnumIterator<NavType, NavType::Unknown, NavType::Last> NavTypeIterator;
+   typedef EnumIterator<NavType, NavType::GPSLNAV, NavType::Last> NavTypeIterator;
 
    namespace StringUtils
    {
-- 
2.43.0


From 939b0ed2796514c7deda91c626858f347fb7b869 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 037/245] fix: floatFormat moves the decimal point without
 scaling the value

---
 core/lib/Utilities/StringUtils.cpp | 45 ++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.cpp b/core/lib/Utilities/StringUtils.cpp
index d95505f..7a0023a 100644
--- a/core/lib/Utilities/StringUtils.cpp
+++ b/core/lib/Utilities/StringUtils.cpp
@@ -214,6 +214,8 @@ namespace gpstk
          std::ostringstream oss;
          std::string rv;
          std::string::size_type pos;
+            // amount to add to the exponent due to shifting the decimal point
+         int expAdd = 0;
          switch (sign)
          {
             case FFSign::NegOnly:
@@ -230,27 +232,31 @@ namespace gpstk
          switch (lead)
          {
             case FFLead::Zero:
-                  // because we're shifting the decimal point, we multiply by 10
                   // mantissa-2 because we're adding a digit that
                   // isn't present in std c++ iostream.
-               oss << std::scientific << std::setprecision(mantissa-2)
-                   << (d*10);
+               oss << std::scientific << std::showpoint
+                   << std::setprecision(mantissa-2) << d;
                rv = oss.str();
                   // move the decimal
                pos = rv.find('.');
+               if (pos == std::string::npos)
+                  break; // not a finite number
                rv[pos] = rv[pos-1];
                rv[pos-1] = '.';
                rv.insert(pos-1, 1, '0');
+               expAdd = 1;
                break;
             case FFLead::Decimal:
-                  // because we're shifting the decimal point, we multiply by 10
-               oss << std::scientific << std::setprecision(mantissa-1)
-                   << (d*10);
+               oss << std::scientific << std::showpoint
+                   << std::setprecision(mantissa-1) << d;
                rv = oss.str();
                   // move the decimal
                pos = rv.find('.');
+               if (pos == std::string::npos)
+                  break; // not a finite number
                rv[pos] = rv[pos-1];
                rv[pos-1] = '.';
+               expAdd = 1;
                break;
             case FFLead::NonZero:
                   // This is the default behavior for C++ iostream.
@@ -258,13 +264,28 @@ namespace gpstk
                rv = oss.str();
                break;
          }
-            // change the exponent size if needed
          pos = rv.find('e');
-         unsigned currentExpSize = rv.length() - (pos+2);
-         if (currentExpSize < exponent)
-            rv.insert(pos+2, exponent - currentExpSize, '0');
-            // change exponent character
-         rv[pos] = expChar;
+         if (pos != std::string::npos)
+         {
+               // The exponent is adjusted here rather than by
+               // multiplying the value by 10, which would be inexact
+               // and could overflow.
+            if ((expAdd != 0) && (d != 0))
+            {
+               int expVal = asInt(rv.substr(pos+1)) + expAdd;
+               std::string expStr = asString(expVal < 0 ? -expVal : expVal);
+               if (expStr.length() < 2)
+                  expStr.insert(0, 1, '0');
+               rv.replace(pos+1, std::string::npos,
+                          (expVal < 0 ? "-" : "+") + expStr);
+            }
+               // change the exponent size if needed
+            unsigned currentExpSize = rv.length() - (pos+2);
+            if (currentExpSize < exponent)
+               rv.insert(pos+2, exponent - currentExpSize, '0');
+               // change exponent character
+            rv[pos] = expChar;
+         }
             // fill according to alignment request
          if (rv.length() < width)
          {
-- 
2.43.0


From 78d93f9d6da7f3be3fa1d9862dcb54d3929bbbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 038/245] fix: floatFormat does not put a space before the sign
 of negative zero

---
 core/lib/Utilities/StringUtils.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/Utilities/StringUtils.cpp b/core/lib/Utilities/StringUtils.cpp
index 7a0023a..1dea406 100644
--- a/core/lib/Utilities/StringUtils.cpp
+++ b/core/lib/Utilities/StringUtils.cpp
@@ -41,6 +41,7 @@
  * Implementation of GPSTK string utility functions.
  */
 
+#include <cmath>
 #include "StringUtils.hpp"
 
 /* The DEBUG_COL macro is used to help debug issues with column
@@ -222,7 +223,7 @@ namespace gpstk
                   // default behavior for iostream
                break;
             case FFSign::NegSpace:
-               if (d >= 0)
+               if ((d >= 0) && !std::signbit(d))
                   oss << " ";
                break;
             case FFSign::NegPos:
-- 
2.43.0


From 5c6035b84bd47c103ddf4426cb79ca250f655dc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 039/245] fix: FormattedDouble reads its exponent letter in
 either case

---
 core/lib/Utilities/FormattedDouble.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/FormattedDouble.cpp b/core/lib/Utilities/FormattedDouble.cpp
index 997feba..6c2e3ec 100644
--- a/core/lib/Utilities/FormattedDouble.cpp
+++ b/core/lib/Utilities/FormattedDouble.cpp
@@ -81,7 +81,9 @@ namespace gpstk
             // we need to do some tweaking.
             // have to make a copy to modify
          std::string copy(s);
-         std::string::size_type pos = copy.find(exponentChar);
+         const char expChars[] = {(char)tolower(exponentChar),
+                                  (char)toupper(exponentChar), 0};
+         std::string::size_type pos = copy.find_first_of(expChars);
          if (pos != std::string::npos)
          {
             copy[pos] = 'e'; // change exponent character to a readable one
@@ -120,7 +122,9 @@ namespace gpstk
             // we need to do some tweaking.
          std::string str;
          s >> str;
-         std::string::size_type pos = str.find(d.exponentChar);
+         const char expChars[] = {(char)tolower(d.exponentChar),
+                                  (char)toupper(d.exponentChar), 0};
+         std::string::size_type pos = str.find_first_of(expChars);
          if (pos != std::string::npos)
          {
             str[pos] = 'e'; // change exponent character to a readable one
-- 
2.43.0


From 15c60ca5cf91d222be25bd5430e162d9f36c903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 040/245] fix: FormattedDouble postfix operators return the
 previous value

---
 core/lib/Utilities/FormattedDouble.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/FormattedDouble.hpp b/core/lib/Utilities/FormattedDouble.hpp
index 13ea207..b2338fc 100644
--- a/core/lib/Utilities/FormattedDouble.hpp
+++ b/core/lib/Utilities/FormattedDouble.hpp
@@ -157,13 +157,13 @@ namespace gpstk
       { val++; return *this; }
          /// Increment the value (postfix).
       FormattedDouble operator++(int)
-      { val++; return *this; }
+      { FormattedDouble rv(*this); val++; return rv; }
          /// Decrement the value (prefix).
       FormattedDouble& operator--()
       { val--; return *this; }
          /// Decrement the value (postfix).
       FormattedDouble operator--(int)
-      { val--; return *this; }
+      { FormattedDouble rv(*this); val--; return rv; }
 
          /// Copy assignment
       FormattedDouble& operator=(const FormattedDouble& right) = default;
-- 
2.43.0


From 1d74ba588b0bfa9fdb796a97827ea9a49685025b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 041/245] fix: sci2for keeps every digit of an exponent wider
 than requested

---
 core/lib/Utilities/StringUtils.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 19266eb..1509eac 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2615,7 +2615,11 @@ namespace gpstk
                }
                else
                   aStr += "+";
-               aStr += rightJustify(asString(iexp),expLen,'0');
+                  // never drop digits of the exponent
+               exp = asString(iexp);
+               if (exp.length() < expLen)
+                  exp = rightJustify(exp,expLen,'0');
+               aStr += exp;
 
             }
 
-- 
2.43.0


From 80f604384be8d151d6f7b919ae41110bf8174368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:31 +0000
Subject: [PATCH 042/245] fix: doubleToScientific accepts short lengths and
 keeps every exponent digit

---
 core/lib/Utilities/StringUtils.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 1509eac..0d36cad 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2516,9 +2516,9 @@ namespace gpstk
          std::string::size_type leng = (length > 0 ? length : 1);
 
             // i will be minimum length required with prec==1: force leng if necessary
-         size_t i = (int(leng) - int(elen) - 4);
-         if(showPlus) i--;
-         if(i > 0 && leng < i) leng = std::string::size_type(i);
+         std::string::size_type i = elen + 5;
+         if(showPlus) i++;
+         if(leng < i) leng = i;
 
             // set up the stream for writing
          std::stringstream ss;
@@ -2536,8 +2536,9 @@ namespace gpstk
          str1 = str1.substr(pos+2);          // str1 = exponent only
 
             // make the exponent length elen
-         str2 += StringUtils::rightJustify(
-            StringUtils::asString(StringUtils::asInt(str1)),elen,'0');
+         str1 = StringUtils::asString(StringUtils::asInt(str1));
+         if(str1.length() < elen) str1 = StringUtils::rightJustify(str1,elen,'0');
+         str2 += str1;
 
             // pad if necessary
          if(str2.length() < leng) str2 = StringUtils::rightJustify(str2,leng);
-- 
2.43.0


From 8a9fe7867d8940272822c5c85131018d29428b47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 043/245] fix: StringUtils::words and firstWord return an empty
 string when there is no such word

---
 core/lib/Utilities/StringUtils.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 0d36cad..bf5176a 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2125,11 +2125,11 @@ namespace gpstk
       {
          try
          {
-               // return s if there are no delimiters
+               // return an empty string if there are no words
             std::string::size_type pos = s.find_first_not_of(delimiter);
             if (pos == std::string::npos)
             {
-               return s;
+               return std::string();
             }
                // find the end delimiter (if any) and return the string
             std::string::size_type endPos = s.find(delimiter, pos);
@@ -2195,7 +2195,7 @@ namespace gpstk
                return "";
                
             std::string::size_type wordNum = 0;
-            std::string::size_type pos = 0, startPos = 0;
+            std::string::size_type pos = 0, startPos = std::string::npos;
 
             std::string toReturn;
 
@@ -2216,8 +2216,12 @@ namespace gpstk
                wordNum++;
             }
 
+               // there is no word number firstWord
+            if (startPos == std::string::npos)
+               return "";
+
             if (pos == std::string::npos)
-               return ((wordNum >= firstWord) ? s.substr(startPos) : "");
+               return s.substr(startPos);
                
             return s.substr(startPos, pos-startPos);
          }
-- 
2.43.0


From d0b67e71c710b8e1a5d74b2111b6e82ad1496138 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 044/245] fix: x2d removes the hexadecimal number it converted
 from the string

---
 core/lib/Utilities/StringUtils.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index bf5176a..fcdbfbc 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1777,7 +1777,6 @@ namespace gpstk
          }
       }
 
-         /// @todo detecting 0 isn't quite right...
          // hex to decimal
       inline std::string& x2d(std::string& s)
       {
@@ -1788,17 +1787,18 @@ namespace gpstk
                // ex. ' 0x003' -> '3'
             stripLeading(s);
             stripLeading(s, "0x", 1);
-            stripLeading(s, "0");
 
-               // make the stringstream, get the integer, and
-               // remove it from the string
-            std::istringstream strstr(s);
-            int i = 0;
+               // get the integer from the leading hex digits and
+               // remove those digits from the string
+            std::string::size_type pos =
+               s.find_first_not_of("0123456789abcdefABCDEF");
+            unsigned int i = 0;
+            std::istringstream strstr(s.substr(0, pos));
             strstr >> std::hex >> i;
-            stripLeading(s, asString<int>(asInt(s)), 1);
+            s.erase(0, pos);
 
                // append the decimal to the existing string
-            s.insert(0,asString<int>(i));
+            s.insert(0,asString<unsigned int>(i));
             return s;
          }
          catch(StringException &e)
-- 
2.43.0


From 4fa524212ffc202e17af60f9b91ebdb82b304dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 045/245] fix: StringUtils::translate pads when there are no
 output characters

---
 core/lib/Utilities/StringUtils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index fcdbfbc..342061c 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1491,7 +1491,7 @@ namespace gpstk
          {
                // figure out which char we found;
             inpos = inputChars.find(rv[aspos]);
-            if (outputChars.length()-1 < inpos)
+            if (outputChars.length() <= inpos)
                toc = pad;
             else
                toc = outputChars[inpos];
-- 
2.43.0


From 179930bb1a9b436c265e651fc17bf868246f53c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 046/245] fix: StringUtils::replaceAll returns when the old
 string is empty

---
 core/lib/Utilities/StringUtils.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 342061c..0188e9a 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1837,6 +1837,10 @@ namespace gpstk
       {
          try
          {
+               // nothing to search for
+            if (oldString.empty())
+               return s;
+
             int spot = s.find(oldString, 0);
             while (spot != (int)std::string::npos)
             {
-- 
2.43.0


From a2308e73c7d34c4f5bc299773a6fc9fa6ddec594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 047/245] fix: StringUtils::subString works with its default
 length

---
 core/lib/Utilities/StringUtils.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 0188e9a..8cf8b06 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2081,6 +2081,9 @@ namespace gpstk
                return std::string(length, pad);
             }
             std::string temp = s.substr(startPos, length);
+               // there is nothing to pad when taking the rest of the string
+            if (length == std::string::npos)
+               return temp;
             return leftJustify(temp, length, pad);
          }
          catch(StringException &e)
-- 
2.43.0


From e9b67f9332ccdbd899f492a5aa2b7d2ec11b4775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 048/245] fix: string to number conversions of blank strings
 return zero instead of an uninitialised value

---
 core/lib/Utilities/StringUtils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 8cf8b06..e878b77 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1623,7 +1623,7 @@ namespace gpstk
          try
          {
             std::istringstream is(s);
-            float f;
+            float f = 0;
             is >> f;
             return f;
          }
@@ -1639,7 +1639,7 @@ namespace gpstk
          try
          {
             std::istringstream is(s);
-            long double x;
+            long double x = 0;
             is >> x;
             return x;
          }
@@ -1656,7 +1656,7 @@ namespace gpstk
          try
          {
             std::istringstream is(s);
-            X x;
+            X x = X();
             is >> x;
             return x;
          }
@@ -1762,7 +1762,7 @@ namespace gpstk
                // make the stringstream, get the integer, and
                // remove it from the string
             std::istringstream iss(s);
-            unsigned int ui;
+            unsigned int ui = 0;
             iss >> std::hex >> ui;
             return ui;
          }
-- 
2.43.0


From 8a769a8f31ee5793b0be61d1cd612cc13eb182c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:08 +0000
Subject: [PATCH 049/245] fix: StringUtils::removeWords removes nothing when
 asked for zero words

---
 core/lib/Utilities/StringUtils.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index e878b77..8fb55f8 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -2428,7 +2428,10 @@ namespace gpstk
          {
             std::string::size_type rmStart = std::string::npos;
             std::string::size_type rmCount = std::string::npos;
-            
+
+            if (wordsToReplace == 0)
+               return s;
+
                // Find start of word 0
             std::string::size_type sPos = s.find_first_not_of(delimiter);
 
-- 
2.43.0


From af06e54c4c8a72a8766ce3ab216883b38544866d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:22 +0000
Subject: [PATCH 050/245] fix: HexDumpDataConfig::computeLineSize matches what
 hexDumpData prints

---
 core/lib/Utilities/HexDumpDataConfig.cpp | 32 +++++++++---------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/core/lib/Utilities/HexDumpDataConfig.cpp b/core/lib/Utilities/HexDumpDataConfig.cpp
index f5a90a3..6cd7418 100644
--- a/core/lib/Utilities/HexDumpDataConfig.cpp
+++ b/core/lib/Utilities/HexDumpDataConfig.cpp
@@ -146,34 +146,26 @@ namespace gpstk
          {
                // number of characters used by index
             linesize += this->idxDigits + this->indexSep.length();
-            if (this->showBaseIndex)
-               linesize += 2; // "0x"
+            linesize += baseIndex().length(); // "0x"
          }
             // 2 characters per byte for data
          linesize += bytesThisLine * 2;
-         if (this->showBaseData)
+         if (this->showBaseData && this->groupBy)
          {
-               // 2 characters per group 1 for base/radix "0x"
-            linesize += (bytesThisLine / this->groupBy) * 2;
-               // extra radix and groupSep for incomplete group
-            if (bytesThisLine % this->groupBy)
-            {
-               linesize += 2;
-               w1++;
-            }
+               // 2 characters per group 1 for base/radix "0x",
+               // including an incomplete group
+            linesize += ((bytesThisLine + this->groupBy - 1) / this->groupBy) * 2;
          }
-         if (this->group2By)
+         if (this->group2By && bytesThisLine)
          {
-            w2 += ((bytesThisLine / this->group2By) -
-                      // no group 2 separator at the end of the line
-                   ((bytesThisLine % this->group2By) == 0 ? 1 : 0));
+               // no group 2 separator at the end of the line
+            w2 = (bytesThisLine - 1) / this->group2By;
          }
-         if (this->groupBy)
+         if (this->groupBy && bytesThisLine)
          {
-               // number of group 1's minus the number of group 2
-               // separators already computed and -1 for no separator
-               // at the end of the line
-            w1 += (bytesThisLine / this->groupBy) - w2 - 1;
+               // number of group 1 separators (none at the end of the
+               // line), less those replaced by group 2 separators
+            w1 = (bytesThisLine - 1) / this->groupBy - w2;
          }
          if (this->groupBy > 0)
          {
-- 
2.43.0


From 3b45702d129bd28e9a16079e0ef2a2972f94fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 051/245] fix: GPSEphemerisStore::rationalize handles
 consecutive uploads and near-search stores

---
 core/lib/GNSSEph/GPSEphemerisStore.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/lib/GNSSEph/GPSEphemerisStore.cpp b/core/lib/GNSSEph/GPSEphemerisStore.cpp
index de44b09..e9ef908 100644
--- a/core/lib/GNSSEph/GPSEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GPSEphemerisStore.cpp
@@ -76,7 +76,6 @@ namespace gpstk
 
          // Scan the map for this SV looking for uploads.  Uploads are identifed by
          // Toe values that are offset from an even hour.
-         OrbitEph* oePrev = 0;
          for (ei = table.begin(); ei != table.end(); ei++)
          {
             currentIsOffset = false;      // start with this assumption
@@ -145,9 +144,10 @@ namespace gpstk
                   if (!begin)
                   {
                      //cout << "*** Adjusting endValid Times" << endl;
-                     TimeOrbitEphTable::iterator ri;
-                     // We KNOW it exists in the map
-                     ri = table.find(oePrev->beginValid);
+                     // The previous entry may have been adjusted
+                     // above so that its key no longer matches its
+                     // beginValid.
+                     TimeOrbitEphTable::iterator ri = eiPrev;
                      bool done = false;
                      while (!done)
                      {
@@ -175,7 +175,7 @@ namespace gpstk
 
                // Update condition flags for next loop
             previousIsOffset = currentIsOffset;
-            oePrev = oe;           // May need this for next loop.
+            eiPrev = ei;           // May need this for next loop.
             begin = false;
             //cout << "Bottom of For loop.  currentIsOffset: " << currentIsOffset <<
             //        ", previousIsOffset: " << previousIsOffset << endl;
-- 
2.43.0


From f9dd378b844a9f75bc89995b4af20764159c4be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 052/245] fix: GPSEphemerisStore::rationalize skips emptied
 satellites and keeps the time limits of all satellites

---
 core/lib/GNSSEph/GPSEphemerisStore.cpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/core/lib/GNSSEph/GPSEphemerisStore.cpp b/core/lib/GNSSEph/GPSEphemerisStore.cpp
index e9ef908..b174445 100644
--- a/core/lib/GNSSEph/GPSEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GPSEphemerisStore.cpp
@@ -61,10 +61,19 @@ namespace gpstk
    // ordering has been determined.
    void GPSEphemerisStore::rationalize(void)
    {
+      // the time limits are those of all the satellites
+      initialTime = CommonTime::END_OF_TIME;
+      initialTime.setTimeSystem(timeSystem);
+      finalTime = CommonTime::BEGINNING_OF_TIME;
+      finalTime.setTimeSystem(timeSystem);
+
       // loop over satellites
       SatTableMap::iterator it;
       for (it = satTables.begin(); it != satTables.end(); it++) {
          TimeOrbitEphTable& table = it->second;
+            // edit() may have removed all the elements of a satellite
+         if (table.empty())
+            continue;
          TimeOrbitEphTable::iterator ei;
          TimeOrbitEphTable::iterator eiPrev;
          bool begin = true;
@@ -205,7 +214,7 @@ namespace gpstk
             while (ei!=table.end())
             {
               OrbitEph* oe = ei->second;
-              if (ei->first!=oe->beginValid)
+              if (strictMethod && (ei->first!=oe->beginValid))
               {
                  OrbitEph* oeAdj= oe->clone();       // Adjustment was done in
                                                    // first loop above.
@@ -225,10 +234,8 @@ namespace gpstk
 
            // Well, not quite done.  We need to update the initial/final
            // times of the map.
-        const TimeOrbitEphTable::iterator Cei = table.begin( );
-        initialTime = Cei->second->beginValid;
-        const TimeOrbitEphTable::reverse_iterator rCei = table.rbegin();
-        finalTime   = rCei->second->endValid;
+        for (ei = table.begin(); ei != table.end(); ei++)
+           updateTimeLimits(ei->second);
 
       } // end outer for-loop
    }
-- 
2.43.0


From 3f1b23f59115b09f440869e565323f908ee5fac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 053/245] fix: OrbElemStore::rationalize skips emptied
 satellites and keeps the time limits of all satellites

---
 core/lib/GNSSEph/OrbElemStore.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSEph/OrbElemStore.cpp b/core/lib/GNSSEph/OrbElemStore.cpp
index 86bd7c6..a49bb2d 100644
--- a/core/lib/GNSSEph/OrbElemStore.cpp
+++ b/core/lib/GNSSEph/OrbElemStore.cpp
@@ -806,10 +806,19 @@ namespace gpstk
           GPSTK_THROW(e);
       }
 
+         // the time limits are those of all the satellites
+      initialTime = CommonTime::END_OF_TIME;
+      initialTime.setTimeSystem(timeSysForStore);
+      finalTime = CommonTime::BEGINNING_OF_TIME;
+      finalTime.setTimeSystem(timeSysForStore);
+
       UBEMap::iterator it;
       for (it = ube.begin(); it != ube.end(); it++)
       {
          OrbElemMap& em = it->second;
+            // edit() may have removed all the elements of a satellite
+         if (em.empty())
+            continue;
          OrbElemMap::iterator ei;
   	     OrbElemMap::iterator eiPrev;
          bool begin = true;
@@ -1022,10 +1031,8 @@ namespace gpstk
 
            // Well, not quite done.  We need to update the initial/final 
            // times of the map.
-        const OrbElemMap::iterator Cei = em.begin( );
-        initialTime = Cei->second->beginValid;
-        const OrbElemMap::reverse_iterator rCei = em.rbegin();
-        finalTime   = rCei->second->endValid;
+        for (ei = em.begin(); ei != em.end(); ei++)
+           updateInitialFinal(ei->second);
 
       } // end outer for-loop
       //cout << "Exiting OrbElem.rationalize()" << endl; 
-- 
2.43.0


From ae2a8c825ad846182fc7dcac704f7357a08e43c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:06 +0000
Subject: [PATCH 054/245] fix: OrbitEphStore keeps the earliest transmission of
 an ephemeris in near-search stores too

---
 core/lib/GNSSEph/OrbitEphStore.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/lib/GNSSEph/OrbitEphStore.cpp b/core/lib/GNSSEph/OrbitEphStore.cpp
index 956e817..f0c5971 100644
--- a/core/lib/GNSSEph/OrbitEphStore.cpp
+++ b/core/lib/GNSSEph/OrbitEphStore.cpp
@@ -280,6 +280,15 @@ namespace gpstk
          if(it != toet.end()) {
             // is a duplicate found in the table?
             if(it->second->ctToe == eph->ctToe) {
+               // keep the one with the earliest transmit time
+               if (eph->beginValid < it->second->beginValid)
+               {
+                  delete it->second;
+                  ret = eph->clone();
+                  it->second = ret;
+                  updateTimeLimits(ret);
+                  return ret;
+               }
                message = string("duplicate Toe");
                return ret;
             }
-- 
2.43.0


From 260041232bfefa7f966f09ec5e8d7d6d8d10a4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 055/245] fix: Rinex3EphemerisStore time limits of a satellite
 come from its own store

---
 core/lib/GNSSEph/Rinex3EphemerisStore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
index 5d3c3e6..abc6b5a 100644
--- a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
@@ -518,8 +518,10 @@ namespace gpstk
             case SatelliteSystem::BeiDou:
             case SatelliteSystem::QZSS:
                retTime = ORBstore.getInitialTime(sat);
+               break;
             case SatelliteSystem::Glonass:
                retTime = GLOstore.getInitialTime(sat);
+               break;
             //case SatelliteSystem::Geosync:
                //retTime = GEOstore.getInitialTime(sat);
             default:
@@ -551,8 +553,10 @@ namespace gpstk
             case SatelliteSystem::BeiDou:
             case SatelliteSystem::QZSS:
                retTime = ORBstore.getFinalTime(sat);
+               break;
             case SatelliteSystem::Glonass:
                retTime = GLOstore.getFinalTime(sat);
+               break;
             //case SatelliteSystem::Geosync:
                //retTime = GEOstore.getFinalTime(sat);
             default:
-- 
2.43.0


From cf2a4766473de434c4648e0f13419c314f4a5fbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:23 +0000
Subject: [PATCH 056/245] fix: Rinex3EphemerisStore::addToList honours the
 requested satellite

---
 core/lib/GNSSEph/Rinex3EphemerisStore.cpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
index abc6b5a..36af12e 100644
--- a/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/Rinex3EphemerisStore.cpp
@@ -592,7 +592,10 @@ namespace gpstk
          list<OrbitEph*>::const_iterator it;
          for(it=OElist.begin(); it != OElist.end(); ++it) {
             OrbitEph *ptr = *it;
-            if((ptr->satID).system == SatelliteSystem::GPS && keepGPS) {
+            if(!keepAll && sysSat.id != -1 && ptr->satID.id != sysSat.id) {
+                  // not the requested satellite
+            }
+            else if((ptr->satID).system == SatelliteSystem::GPS && keepGPS) {
                GPSEphemeris *sysptr = dynamic_cast<GPSEphemeris*>(ptr);
                theList.push_back(Rinex3NavData(*sysptr));
                n++;
@@ -617,11 +620,16 @@ namespace gpstk
       }
       if(keepGLO) {
          list<GloEphemeris> GLOlist;
-         n += GLOstore.addToList(GLOlist);
+         GLOstore.addToList(GLOlist);
 
          list<GloEphemeris>::const_iterator it;
-         for(it=GLOlist.begin(); it != GLOlist.end(); ++it)
-            theList.push_back(Rinex3NavData(*it));
+         for(it=GLOlist.begin(); it != GLOlist.end(); ++it) {
+            Rinex3NavData rnd(*it);
+            if(!keepAll && sysSat.id != -1 && rnd.sat.id != sysSat.id)
+               continue;
+            theList.push_back(rnd);
+            n++;
+         }
       }
       /*
       if(keepGEO) {
-- 
2.43.0


From cb55b666d38c24deecd7939718898532de7e293e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:39 +0000
Subject: [PATCH 057/245] fix: OrbitEphStore::findNearOrbitEph finds a valid
 ephemeris beyond an invalid neighbour

---
 core/lib/GNSSEph/OrbitEphStore.cpp | 79 ++++++++----------------------
 1 file changed, 21 insertions(+), 58 deletions(-)

diff --git a/core/lib/GNSSEph/OrbitEphStore.cpp b/core/lib/GNSSEph/OrbitEphStore.cpp
index f0c5971..b8a34e9 100644
--- a/core/lib/GNSSEph/OrbitEphStore.cpp
+++ b/core/lib/GNSSEph/OrbitEphStore.cpp
@@ -553,73 +553,36 @@ namespace gpstk
       if(itNext != table.end())               // exact match
          return itNext->second;
 
-      // Three cases:
-      // 1. t is within a gap within the store
-      // 2. t is before all OrbitEph in the store
-      // 3. t is after all OrbitEph in the store
+      // Work outward from t, considering the OrbitEph objects in order
+      // of how close their Toe is to t, until one is found with a fit
+      // interval that covers the time of interest.
 
       // lower_bound returns the first element with key >= t
       itNext = table.lower_bound(t);
-      if(itNext == table.begin())             // Test for case 2
+      TimeOrbitEphTable::const_iterator itPrior = itNext;
+      while(itNext != table.end() || itPrior != table.begin())
       {
-            // Verify the first item in the table has a fit interval that
-            // covers the time of interest.   If not, then there are no
-            // data sets available that cover the time of interest, so return
-            // NULL. 
-         if (itNext->second->isValid(t))
-            return itNext->second;
-         else 
-            return NULL;
-      }
+         bool usePrior = (itNext == table.end());
+         if(!usePrior && itPrior != table.begin())
+         {
+            TimeOrbitEphTable::const_iterator itLast = itPrior;
+            --itLast;
+            double diffToNext = itNext->second->ctToe - t;
+            double diffFromLast = t - itLast->second->ctToe;
+            usePrior = (diffToNext > diffFromLast);
+         }
 
-       // Test for case 3
-      if(itNext == table.end()) 
-      {
-         TimeOrbitEphTable::const_reverse_iterator rit = table.rbegin();
-            // Verify the last item in the table has a fit interval that
-            // covers the time of interest.   If not, then there are no
-            // data sets available that cover the time of interest, so return
-            // NULL. 
-         if (rit->second->isValid(t))
-            return rit->second;
+         TimeOrbitEphTable::const_iterator itSelect;
+         if(usePrior)
+            itSelect = --itPrior;
          else
-            return NULL; 
-      }
+            itSelect = itNext++;
 
-      // case 1: it is not the beginning, so safe to decrement
-      CommonTime nextTOE = itNext->second->ctToe;
-      TimeOrbitEphTable::const_iterator itPrior = itNext;
-      itPrior--;
-      CommonTime lastTOE = itPrior->second->ctToe;
-      double diffToNext = nextTOE - t;
-      double diffFromLast = t - lastTOE;
-
-         // Determine which is closer to Toe and assign temporary
-         // pointers accordingly.  
-      TimeOrbitEphTable::const_iterator itSelect;
-      TimeOrbitEphTable::const_iterator itUnSelect;
-      if(diffToNext > diffFromLast)
-      {
-         itSelect = itPrior;
-         itUnSelect = itNext;
-      }
-      else
-      {
-         itSelect = itNext;
-         itUnSelect = itPrior;
+         if(itSelect->second->isValid(t))
+            return itSelect->second;
       }
 
-         // If the selected item is valid return it.
-         // If not, check to see if the unselected item is valid; if so return that one. 
-         // Otherwise, there is no data set with a valid fit interval. 
-      if (itSelect->second->isValid(t))
-      {
-         return itSelect->second;
-      }
-      else if (itUnSelect->second->isValid(t))
-      {
-         return itUnSelect->second;
-      }
+      // there is no data set with a valid fit interval
       return NULL;
    }
 
-- 
2.43.0


From a7d7dbfc908ddc20fdb65597c8b39dbf7c6bb0be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 058/245] fix: Stats::operator+= on an accumulator emptied by
 Subtract ignores the old sums

---
 core/lib/Math/Stats.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/Math/Stats.hpp b/core/lib/Math/Stats.hpp
index a9e3f45..69d51df 100644
--- a/core/lib/Math/Stats.hpp
+++ b/core/lib/Math/Stats.hpp
@@ -220,6 +220,7 @@ namespace gpstk
       {
          if(S.n == 0)
             return *this;
+         if(n == 0) { *this = S; return *this; }
          if(!setScale) { setScale=true; scale = S.scale; }
          // TD what if both have !setScale?
          if((n == 0) || (S.min < min)) min=S.min;
-- 
2.43.0


From 422c3d4754bb940e877464679c0f3c93490c3ded Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 059/245] fix: Stats and TwoSampleStats Load() of too little
 data no longer reads past the end

---
 core/lib/Math/Stats.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Stats.hpp b/core/lib/Math/Stats.hpp
index 69d51df..83d5deb 100644
--- a/core/lib/Math/Stats.hpp
+++ b/core/lib/Math/Stats.hpp
@@ -269,7 +269,7 @@ namespace gpstk
       /// NB zero-fill rather than throwing
       void Load(const std::vector<unsigned int>& vuint, const std::vector<T>& vT)
       {
-         if(vuint.size() < 2 || vT.size() < 4) {
+         if(vuint.size() < 2 || vT.size() < 5) {
             n = 0;
             setScale = false;
             scale = T(0);
@@ -982,7 +982,7 @@ namespace gpstk
          std::vector<double> vt2;
          if(vuint.size() < 5 || vT.size() < 11) {
             vuint.clear();
-            for(i=0; i<5; i++) vT.push_back(T(0));
+            for(i=0; i<5; i++) vuint.push_back(0);
             vT.clear();
             for(i=0; i<11; i++) vT.push_back(T(0));
          }
-- 
2.43.0


From 1871e15c51389e602794b1fefc013c629d590356 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 060/245] fix: WtdStats::WtsSum is zero, not indeterminate,
 without data

---
 core/lib/Math/Stats.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/Math/Stats.hpp b/core/lib/Math/Stats.hpp
index 83d5deb..58f655a 100644
--- a/core/lib/Math/Stats.hpp
+++ b/core/lib/Math/Stats.hpp
@@ -821,7 +821,8 @@ namespace gpstk
       }
 
       /// return normalization = sum of weights
-      inline T WtsSum(void) const { return WtNorm; }     // WtdStats
+      inline T WtsSum(void) const
+         { if(SeqStats<T>::n == 0) return T(); return WtNorm; }     // WtdStats
 
    protected:
       T WtNorm;               ///< Normalization constant = sum weights
-- 
2.43.0


From caca4b84d397bcb835fe58442bcd3c710ed23c0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 061/245] fix: BivarStats keeps its scale when the first
 non-zero value is one

---
 core/lib/Math/BivarStats.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/BivarStats.hpp b/core/lib/Math/BivarStats.hpp
index 1641484..b30e3a0 100644
--- a/core/lib/Math/BivarStats.hpp
+++ b/core/lib/Math/BivarStats.hpp
@@ -213,8 +213,9 @@ namespace gpstk
 
       if (scaled)
       {
-         if (scaleX==T(1) && x!=T()) scaleX=ABS(x);
-         if (scaleY==T(1) && y!=T()) scaleY=ABS(y);
+            // set the scale at the first non-zero value only
+         if (sumX2==T(0) && x!=T()) scaleX=ABS(x);
+         if (sumY2==T(0) && y!=T()) scaleY=ABS(y);
          T tx(x/scaleX);
          T ty(y/scaleY);
          sumX += tx;
-- 
2.43.0


From 039c0b37ed19c6f6f1980ceb605c795209a5089a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:34 +0000
Subject: [PATCH 062/245] fix: BivarStats::subtract(vector of pairs) compiles
 and advances its index

---
 core/lib/Math/BivarStats.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/BivarStats.hpp b/core/lib/Math/BivarStats.hpp
index b30e3a0..84d47c2 100644
--- a/core/lib/Math/BivarStats.hpp
+++ b/core/lib/Math/BivarStats.hpp
@@ -313,7 +313,7 @@ namespace gpstk
    void BivarStats<T>::subtract(const std::vector< std::pair<T, T> >& d)
    {
       size_t max( d.size() );
-      for (size_t i=0; i<max; d++)
+      for (size_t i=0; i<max; i++)
          subtract(d[i].first, d[i].second);
    }
 
-- 
2.43.0


From 389117cf894de7f3e09bfbaa04321db28bab68ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 063/245] fix: BivarStats::operator+= with an empty operand
 does not use indeterminate sums

---
 core/lib/Math/BivarStats.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/lib/Math/BivarStats.hpp b/core/lib/Math/BivarStats.hpp
index 84d47c2..af95fff 100644
--- a/core/lib/Math/BivarStats.hpp
+++ b/core/lib/Math/BivarStats.hpp
@@ -420,7 +420,12 @@ namespace gpstk
    template<class T>
    BivarStats<T>& BivarStats<T>::operator+=(BivarStats<T>& S)
    {
-      if(ns + S.ns == 0) return *this;
+      if(S.ns == 0) return *this;
+      if(ns == 0)
+      {
+         *this = S;
+         return *this;
+      }
       xMin = std::min(xMin, S.xMin);
       xMax = std::max(xMax, S.xMax);
       yMin = std::min(yMin, S.yMin);
-- 
2.43.0


From 6ac4ac76edb3bd103b25ddab4966f70dbc2b3cbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:46 +0000
Subject: [PATCH 064/245] fix: PowerSum moments of a sample of exactly the
 moment's order are not zero

---
 core/lib/Math/PowerSum.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/PowerSum.cpp b/core/lib/Math/PowerSum.cpp
index 65ec95c..3d0516c 100644
--- a/core/lib/Math/PowerSum.cpp
+++ b/core/lib/Math/PowerSum.cpp
@@ -82,7 +82,7 @@ namespace gpstk
    /// computing the central moments from the power sums.
    double PowerSum::moment(int i) const throw()
    {
-      if ( i > order || i >= n)
+      if ( i > order || i > n)
          return 0;
 
       double m=0;
-- 
2.43.0


From cedce18eb09b46d3de21d986d7c4b0eda22e486c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:33 +0000
Subject: [PATCH 065/245] fix: WtdStats Add and Subtract of std::vectors
 compile

---
 core/lib/Math/Stats.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Stats.hpp b/core/lib/Math/Stats.hpp
index 58f655a..a5ea5a1 100644
--- a/core/lib/Math/Stats.hpp
+++ b/core/lib/Math/Stats.hpp
@@ -691,7 +691,7 @@ namespace gpstk
       inline void Add(std::vector<T>& X, std::vector<T>& W)    // WtdStats
       {
          for(size_t i=0; i<(X.size()>W.size() ? W.size():X.size()); i++)
-            Add(X(i),W(i));
+            Add(X[i],W[i]);
       }
 
       /// remove a gpstk::Vector<T> of samples, with weights
@@ -711,7 +711,7 @@ namespace gpstk
       inline void Subtract(std::vector<T>& X, std::vector<T>& W)     // WtdStats
       {
          size_t i, nn(X.size() > W.size() ? W.size() : X.size());
-         for(i=0; i<nn; i++) Subtract(X(i),W(i));
+         for(i=0; i<nn; i++) Subtract(X[i],W[i]);
       }
 
       // combine two objects -------------------------------------------
-- 
2.43.0


From 8b268c7c7b15f3e782366b0f9bbfe27ea3b4c44f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 066/245] fix: Stats loaded from a dump of zeros have a usable
 scale

---
 core/lib/Math/Stats.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Stats.hpp b/core/lib/Math/Stats.hpp
index a5ea5a1..c8bd689 100644
--- a/core/lib/Math/Stats.hpp
+++ b/core/lib/Math/Stats.hpp
@@ -279,7 +279,7 @@ namespace gpstk
          else {
             n = vuint[0];
             setScale = (vuint[1] != 0);
-            scale = vT[0];
+            scale = (setScale ? vT[0] : T(1));
             min = vT[1]; max = vT[2];
             sum = vT[3]; sum2 = vT[4];
          }
-- 
2.43.0


From e7846c1f48bcda1896a7edb723f419c6c71fd93f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:58 +0000
Subject: [PATCH 067/245] fix: operator-= of Stats, SeqStats and WtdStats with
 an emptied operand changes nothing

---
 core/lib/Math/Stats.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/Math/Stats.hpp b/core/lib/Math/Stats.hpp
index c8bd689..4924246 100644
--- a/core/lib/Math/Stats.hpp
+++ b/core/lib/Math/Stats.hpp
@@ -237,6 +237,7 @@ namespace gpstk
       /// NB. Minimum() and Maximum() may no longer be valid.
       Stats<T>& operator-=(const Stats<T>& S)
       {
+         if(S.n == 0) return *this;
          if(n <= S.n) { Reset(); return *this; }
          sum -= S.scale*S.sum/scale;
          sum2 -= (S.scale/scale)*(S.scale/scale)*S.sum2;
@@ -488,6 +489,7 @@ namespace gpstk
       /// NB. Minimum() and Maximum() may no longer be valid.
       SeqStats<T>& operator-=(const SeqStats<T>& S)
       {
+         if(S.n == 0) return *this;
          if(n <= S.n) { n=0; return *this; }
 
          T newave = T(n)*ave - T(S.n)*S.ave;
@@ -745,6 +747,7 @@ namespace gpstk
       /// NB. Minimum() and Maximum() may no longer be valid.
       WtdStats<T>& operator-=(const WtdStats<T>& S)
       {
+         if(S.n == 0) return *this;
          if(SeqStats<T>::n <= S.n) { SeqStats<T>::n=0; return *this; }
 
          T newave = WtNorm*SeqStats<T>::ave - S.WtNorm*S.ave;
-- 
2.43.0


From 87f45c58d753c8b68d4e07990b4232b0ebd9a1fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 068/245] fix: a final -- on a command line is not an excess
 argument

---
 core/lib/CommandLine/CommandOptionParser.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/CommandLine/CommandOptionParser.cpp b/core/lib/CommandLine/CommandOptionParser.cpp
index 6b90e2b..9d7378f 100644
--- a/core/lib/CommandLine/CommandOptionParser.cpp
+++ b/core/lib/CommandLine/CommandOptionParser.cpp
@@ -210,7 +210,7 @@ namespace gpstk
          if ((cha = getopt_long(argc, argv, shortOptString.c_str(),
                                 optArray, &optionIndex)) == -1)
          {
-            if (!trailing)
+            if (!trailing && (optind < argc))
                errorStrings.push_back("Excess arguments");
             break;
          }
-- 
2.43.0


From 048e32eaa46a6495946a2192cdc1d0850dab440c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 069/245] fix: ambiguous abbreviations of long options are
 errors, not the first option that matches

---
 core/lib/CommandLine/CommandOptionParser.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/core/lib/CommandLine/CommandOptionParser.cpp b/core/lib/CommandLine/CommandOptionParser.cpp
index 9d7378f..4399ed4 100644
--- a/core/lib/CommandLine/CommandOptionParser.cpp
+++ b/core/lib/CommandLine/CommandOptionParser.cpp
@@ -172,6 +172,9 @@ namespace gpstk
                   resizeOptionArray(optArray, optArraySize);
                   optArray[optArraySize - 1] = 
                      optionVec[index]->toGetoptLongOption();
+                     // distinct values let getopt_long detect
+                     // ambiguous abbreviations
+                  optArray[optArraySize - 1].val = 255 + optArraySize;
                   com[optionVec[index]->longOpt] = optionVec[index];
                }
 
@@ -228,7 +231,7 @@ namespace gpstk
                // error string
             string errorArg;
                // for a character option error
-            if (optopt != 0)
+            if ((optopt != 0) && (optopt < 256))
                errorArg = string(1, (char)optopt);
                // for a getopt_long error
             else
@@ -241,10 +244,10 @@ namespace gpstk
             string thisOption;
 
                // determine whether it found the short or long version
-            if (cha != 0)
+            if (cha < 256)
                thisOption = string(1,(char)cha);
             else
-               thisOption = string(optArray[optionIndex].name);
+               thisOption = string(optArray[cha - 256].name);
                
                // try to find the option in our option map
             map<string, CommandOption*>::iterator itr = com.find(thisOption);
-- 
2.43.0


From 8f112fc3e951c70f0eb23751d8b30c002a0d26f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 070/245] fix: a one-letter long option is not confused with
 another option's short form

---
 core/lib/CommandLine/CommandOptionParser.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/lib/CommandLine/CommandOptionParser.cpp b/core/lib/CommandLine/CommandOptionParser.cpp
index 4399ed4..7d06046 100644
--- a/core/lib/CommandLine/CommandOptionParser.cpp
+++ b/core/lib/CommandLine/CommandOptionParser.cpp
@@ -175,7 +175,7 @@ namespace gpstk
                      // distinct values let getopt_long detect
                      // ambiguous abbreviations
                   optArray[optArraySize - 1].val = 255 + optArraySize;
-                  com[optionVec[index]->longOpt] = optionVec[index];
+                  com["--" + optionVec[index]->longOpt] = optionVec[index];
                }
 
                   // keep track of whether or not there are required or
@@ -250,7 +250,8 @@ namespace gpstk
                thisOption = string(optArray[cha - 256].name);
                
                // try to find the option in our option map
-            map<string, CommandOption*>::iterator itr = com.find(thisOption);
+            map<string, CommandOption*>::iterator itr =
+               com.find((cha < 256) ? thisOption : ("--" + thisOption));
 
             if (itr != com.end())
             {
-- 
2.43.0


From ee9e54fea45feff0ce7ecfdbca58ec5715b647df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:30 +0000
Subject: [PATCH 071/245] fix: a sign or point without digits is not a number
 string

---
 core/lib/Utilities/StringUtils.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/lib/Utilities/StringUtils.hpp b/core/lib/Utilities/StringUtils.hpp
index 8fb55f8..8932d1f 100644
--- a/core/lib/Utilities/StringUtils.hpp
+++ b/core/lib/Utilities/StringUtils.hpp
@@ -1865,6 +1865,8 @@ namespace gpstk
          std::string::size_type index = 0;
          if((s[0] == '-') || (s[0] == '+'))
             index++;
+         if (index == s.size())
+            return false;
          for( ; index < s.size(); index++)
             if (!isdigit(s[index]))
                return false;
@@ -1877,7 +1879,7 @@ namespace gpstk
             return false;
 
          std::string::size_type index = 0;
-         bool sawdot = false;
+         bool sawdot = false, sawdigit = false;
          if((s[0] == '-') || (s[0] == '+'))
             index++;
          for( ; index < s.size(); index++)
@@ -1890,8 +1892,9 @@ namespace gpstk
             }
             else if (!isdigit(s[index]))
                return false;
+            else sawdigit = true;
          }
-         return true;
+         return sawdigit;
       }
 
       inline bool isScientificString(const std::string& s)
-- 
2.43.0


From a148ef9c67686d604b022c6109dbe61509ee72b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:43 +0000
Subject: [PATCH 072/245] fix: CommandLine does not carry pending -f or ignore
 states from one command line to the next

---
 core/lib/CommandLine/CommandLine.cpp | 4 +---
 core/lib/CommandLine/CommandLine.hpp | 5 ++++-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/core/lib/CommandLine/CommandLine.cpp b/core/lib/CommandLine/CommandLine.cpp
index 9ff7292..f2718de 100644
--- a/core/lib/CommandLine/CommandLine.cpp
+++ b/core/lib/CommandLine/CommandLine.cpp
@@ -92,6 +92,7 @@ try {
 
    // preliminaries ------------------------------------------------------
    helponly = foundErrors = false;
+   found_cfg_file = ignore_opts = ignore_once = false;
    Usage = string();
    Errors = string();
    Unrecog.clear();
@@ -483,9 +484,6 @@ void CommandLine::PreProcessArgs(const char *in_arg, vector<string>& Args,
    string& Errors)
 {
 try {
-   static bool found_cfg_file=false;
-   static bool ignore_opts=false;              // ignore args for now...
-   static bool ignore_once=false;              // ignore one argument
    int i,k;
    string msg,sarg(in_arg);
 
diff --git a/core/lib/CommandLine/CommandLine.hpp b/core/lib/CommandLine/CommandLine.hpp
index aa88a9d..376c39d 100644
--- a/core/lib/CommandLine/CommandLine.hpp
+++ b/core/lib/CommandLine/CommandLine.hpp
@@ -119,6 +119,8 @@ private:
    // -------------- member data ------------------------------------------
    // first two for internal use only
    bool help,verbose,helponly,foundErrors,requireOneArg;
+   /// state of PreProcessArgs while it goes through one list of arguments
+   bool found_cfg_file,ignore_opts,ignore_once;
    int debug;        // NB default is -1
 
    int syntaxPageBuilt;       // 0 c'tor, 1 Usage: ..., 2 prgm descript, 3 complete
@@ -148,7 +150,8 @@ public:
    // -------------- member functions -------------------------------------
    // constructor
    CommandLine(void)
-      : help(false),debug(-1),verbose(false),requireOneArg(true),syntaxPageBuilt(0)
+      : help(false),debug(-1),verbose(false),requireOneArg(true),syntaxPageBuilt(0),
+        found_cfg_file(false),ignore_opts(false),ignore_once(false)
          { }
 
    // destructor
-- 
2.43.0


From b74c749dc791c5e858d511adba47c7bad040cc43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 073/245] fix: Vector::front() returns the first element, not
 the last

---
 core/lib/Math/Vector/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Vector/Vector.hpp b/core/lib/Math/Vector/Vector.hpp
index 468366d..ca6fae4 100644
--- a/core/lib/Math/Vector/Vector.hpp
+++ b/core/lib/Math/Vector/Vector.hpp
@@ -198,9 +198,9 @@ namespace gpstk
          /// STL const iterator end
       const_iterator end() const { return v + s; }
          /// STL front
-      value_type front() { return v[s-1]; }
+      value_type front() { return v[0]; }
          /// STL const front
-      const_reference front() const { return v[s-1];}
+      const_reference front() const { return v[0];}
          /// STL empty
       bool empty() const { return size() == 0; }
          /// STL size
-- 
2.43.0


From 37e6cdaa1be3b9a5b4110df55ea681b8ea22d9ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 074/245] fix: Vector::toStdVector() read the vector it was
 filling

---
 core/lib/Math/Vector/Vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/Math/Vector/Vector.hpp b/core/lib/Math/Vector/Vector.hpp
index ca6fae4..12dc54e 100644
--- a/core/lib/Math/Vector/Vector.hpp
+++ b/core/lib/Math/Vector/Vector.hpp
@@ -287,10 +287,10 @@ namespace gpstk
          // convert the gpstk vector to std vector
       std::vector<T> toStdVector()
       {
-         std::vector<T> v;
+         std::vector<T> toReturn;
          for(size_t i = 0; i < s; i++)
-            v.push_back(v[i] );
-         return v;
+            toReturn.push_back(v[i]);
+         return toReturn;
       }
 
       inline Vector& operator<<(const Vector& b)
-- 
2.43.0


From 2f050fe55185689a8f0351e47e04abd695e6e140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 075/245] fix: vector slices name the inherited range check so
 that they compile

---
 core/lib/Math/Vector/Vector.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Vector/Vector.hpp b/core/lib/Math/Vector/Vector.hpp
index 12dc54e..da51a5e 100644
--- a/core/lib/Math/Vector/Vector.hpp
+++ b/core/lib/Math/Vector/Vector.hpp
@@ -395,7 +395,7 @@ namespace gpstk
          /// Makes a slice of the vector with the given std::slice.
       VectorSlice(Vector<T>& vv, const std::slice& ss)
             : v(&vv), s(ss)
-      { vecSliceCheck(vv.size()); }
+      { this->vecSliceCheck(vv.size()); }
 
          /// Assign the elements of this slice from another vector.
       template <class V>
@@ -461,7 +461,7 @@ namespace gpstk
          /// Uses the given slice and vector.
       ConstVectorSlice(const Vector<T>& vv, const std::slice& ss)
             : v(&vv), s(ss)
-      { vecSliceCheck(vv.size()); }
+      { this->vecSliceCheck(vv.size()); }
 
          /// Returns a const version of the i'th slice element.
       T operator[] (size_t i) const
-- 
2.43.0


From 4ff24bc060ed739f66b40f2086fdb5308f0ca0a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 076/245] fix: cross() refuses a pair when either vector is not
 of size 3

---
 core/lib/Math/Vector/VectorOperators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Vector/VectorOperators.hpp b/core/lib/Math/Vector/VectorOperators.hpp
index a3865d0..018b82a 100644
--- a/core/lib/Math/Vector/VectorOperators.hpp
+++ b/core/lib/Math/Vector/VectorOperators.hpp
@@ -167,7 +167,7 @@ namespace gpstk
    Vector<T> cross(const ConstVectorBase<T, BaseClass>& l, 
                    const ConstVectorBase<T, BaseClass2>& r)
    { 
-      if ((l.size() != 3) && (r.size() != 3))
+      if ((l.size() != 3) || (r.size() != 3))
       {
          VectorException e("Cross product requires vectors of size 3");
          GPSTK_THROW(e);
-- 
2.43.0


From ceb31a2d21b710ecd661a5f8ac6e3ad35048f3a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 077/245] fix: const Matrix::col() starts its slice at the
 requested row

---
 core/lib/Math/Matrix/MatrixImplementation.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Matrix/MatrixImplementation.hpp b/core/lib/Math/Matrix/MatrixImplementation.hpp
index e52b097..f5e8dda 100644
--- a/core/lib/Math/Matrix/MatrixImplementation.hpp
+++ b/core/lib/Math/Matrix/MatrixImplementation.hpp
@@ -128,7 +128,7 @@ namespace gpstk
                                          size_t rowNum) const
    {
       return ConstMatrixColSlice<T>(*this, colNum,
-                                    std::slice(colNum * r + rowNum, r - rowNum, 1));
+                                    std::slice(rowNum, r - rowNum, 1));
    }
 
    template <class T>
-- 
2.43.0


From dd5eb67383d294107ef441263857ed7dd5522d28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 078/245] fix: Vector && Matrix and Vector || Matrix copied the
 matrix off by one

---
 core/lib/Math/Matrix/MatrixOperators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixOperators.hpp b/core/lib/Math/Matrix/MatrixOperators.hpp
index 03644a1..5eecc8c 100644
--- a/core/lib/Math/Matrix/MatrixOperators.hpp
+++ b/core/lib/Math/Matrix/MatrixOperators.hpp
@@ -136,7 +136,7 @@ namespace gpstk
 
       for (rows = 1; rows < b.rows()+1; rows++)
          for (cols = 0; cols < b.cols(); cols++)
-            toReturn(rows, cols) = b(rows, cols);
+            toReturn(rows, cols) = b(rows-1, cols);
 
       return toReturn;
    }
@@ -224,7 +224,7 @@ namespace gpstk
 
       for (cols = 1; cols < r.cols()+1; cols++)
          for (rows = 0; rows < r.rows(); rows++)
-            toReturn(rows, cols) = r(rows, cols);
+            toReturn(rows, cols) = r(rows, cols-1);
 
       return toReturn;
    }
-- 
2.43.0


From 5cd0d6856adee67b0656b12c257525fbae32a302 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 079/245] fix: give CommandOptionWithCommonTimeArg.hpp its own
 include guard

---
 core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp b/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp
index 5b80a5b..af14e67 100644
--- a/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp
+++ b/core/lib/CommandLine/CommandOptionWithCommonTimeArg.hpp
@@ -41,8 +41,8 @@
  * Command line options with time arguments
  */
 
-#ifndef COMMANDOPTIONWITHTIMEARG_HPP
-#define COMMANDOPTIONWITHTIMEARG_HPP
+#ifndef COMMANDOPTIONWITHCOMMONTIMEARG_HPP
+#define COMMANDOPTIONWITHCOMMONTIMEARG_HPP
 
 #include "CommandOption.hpp"
 #include "CommonTime.hpp"
-- 
2.43.0


From 86ed1c29c19bffc1b55dfe2b632911ab82bd72b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 080/245] fix: normCol() sums over columns as documented, not
 over rows

---
 core/lib/Math/Matrix/MatrixBaseOperators.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixBaseOperators.hpp b/core/lib/Math/Matrix/MatrixBaseOperators.hpp
index 19ec466..7629820 100644
--- a/core/lib/Math/Matrix/MatrixBaseOperators.hpp
+++ b/core/lib/Math/Matrix/MatrixBaseOperators.hpp
@@ -132,10 +132,10 @@ namespace gpstk
    {
       T sum(0), tempSum;
       size_t i,j;
-      for (i = 0; i < m.rows(); i++)
+      for (j = 0; j < m.cols(); j++)
       {
          tempSum = T(0);
-         for (j = 0; j < m.cols(); j++)
+         for (i = 0; i < m.rows(); i++)
             tempSum += ABS(m(i,j));
          if (tempSum > sum)
             sum = tempSum;
-- 
2.43.0


From 320f0db96736d45c51e41584df278804eb322f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 081/245] fix: SVD of the zero matrix no longer divides zero by
 zero

---
 core/lib/Math/Matrix/MatrixFunctors.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixFunctors.hpp b/core/lib/Math/Matrix/MatrixFunctors.hpp
index 9ee0845..b3175f3 100644
--- a/core/lib/Math/Matrix/MatrixFunctors.hpp
+++ b/core/lib/Math/Matrix/MatrixFunctors.hpp
@@ -210,7 +210,7 @@ namespace gpstk
                bool flag = true;
                for(l = k; ; l--) {
                   nm = l - 1;
-                  if (ABS(B[l])/MAX(ABS(B[l]),anorm) < eps) {
+                  if (ABS(B[l]) <= eps*MAX(ABS(B[l]),anorm)) {
                      flag = false;
                      break;
                   }
@@ -218,7 +218,7 @@ namespace gpstk
                      MatrixException e("SVD algorithm has nm==-1");
                      GPSTK_THROW(e);
                   }
-                  if (ABS(S[nm])/MAX(ABS(S[nm]),anorm) < eps) break;
+                  if (ABS(S[nm]) <= eps*MAX(ABS(S[nm]),anorm)) break;
                   if(l == 0) break; // since l is unsigned...
                }
                if (flag) {
@@ -227,7 +227,7 @@ namespace gpstk
                   for(i = l; i <= k; i++) {
                      f = s * B[i];
                      B[i] = c * B[i];
-                     if (ABS(f)/MAX(ABS(f),anorm) < eps) break;
+                     if (ABS(f) <= eps*MAX(ABS(f),anorm)) break;
                      g = S[i];
                      h = RSS(f,g);
                      S[i] = h;
-- 
2.43.0


From c67f8b1b6c368c7021543ce61029557062cb9556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:11 +0000
Subject: [PATCH 082/245] fix: Householder also clears the last column of a
 tall matrix

---
 core/lib/Math/Matrix/MatrixFunctors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Matrix/MatrixFunctors.hpp b/core/lib/Math/Matrix/MatrixFunctors.hpp
index b3175f3..e370047 100644
--- a/core/lib/Math/Matrix/MatrixFunctors.hpp
+++ b/core/lib/Math/Matrix/MatrixFunctors.hpp
@@ -771,7 +771,7 @@ namespace gpstk
 
             // loop over cols
          const T EPS(1.e-200);
-         for(j=0; (j<A.cols()-1 && j<A.rows()-1); j++) {
+         for(j=0; (j<A.cols() && j+1<A.rows()); j++) {
             sum = T(0);
                // loop over rows at diagonal and below
             for(i=j; i<A.rows(); i++) {
-- 
2.43.0


From 7a533fecc0c9cc88257242aa32b8e1061941485e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:14 +0000
Subject: [PATCH 083/245] fix: SVD::backSub() of a tall matrix read past the
 end of the solution

---
 core/lib/Math/Matrix/MatrixFunctors.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixFunctors.hpp b/core/lib/Math/Matrix/MatrixFunctors.hpp
index e370047..45b14be 100644
--- a/core/lib/Math/Matrix/MatrixFunctors.hpp
+++ b/core/lib/Math/Matrix/MatrixFunctors.hpp
@@ -359,16 +359,22 @@ namespace gpstk
             MatrixException e("SVD::BackSub called with unequal dimensions");
             GPSTK_THROW(e);
          }
+         if(b.size() < V.rows())
+         {
+            MatrixException e("SVD::BackSub: solution is longer than the input");
+            GPSTK_THROW(e);
+         }
    
          size_t i, n=V.cols(), m=U.rows();
          Matrix<T> W(n,m,T(0));    // build the 'inverse singular values' matrix
          for(i=0; i<S.size(); i++) W(i,i)=(S(i)==T(0)?T(0):T(1)/S(i));
-         Vector<T> Y;
+         Vector<T> Y, X(m,T(0));
          Y = V*W*transpose(U)*b;
+         for(i=0; i<n; i++) X(i) = Y(i);  // b keeps its length
             //b = Y;
             // this fails because operator= is not defined for the base class
             // (op= not inherited); use assignFrom instead
-         b.assignFrom(Y);
+         b.assignFrom(X);
 
       }  // end SVD::backSub
 
-- 
2.43.0


From 094f7b442254c7c14fde2c1c6ef676aee44a75cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 084/245] fix: inverse() pivots, so that a tiny diagonal
 element does not ruin the result

---
 core/lib/Math/Matrix/MatrixOperators.hpp | 25 ++++++++++--------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixOperators.hpp b/core/lib/Math/Matrix/MatrixOperators.hpp
index 5eecc8c..13788a4 100644
--- a/core/lib/Math/Matrix/MatrixOperators.hpp
+++ b/core/lib/Math/Matrix/MatrixOperators.hpp
@@ -543,23 +543,18 @@ namespace gpstk
 
       for (r = 0; r < m.rows(); r++)
       {
-            // if m(r,r) is zero, find another row
-            // to add to it...
-         if (toReturn(r,r) == 0)
+            // bring the row with the largest element in this column up
+         j = r;
+         for (t = r+1; t < m.rows(); t++)
+            if (ABS(toReturn(t,r)) > ABS(toReturn(j,r)))
+               j = t;
+         if (toReturn(j,r) == 0)
          {
-            t = r+1;
-            while ( (t < m.rows()) && (toReturn(t,r) == 0) )
-               t++;
-
-            if (t == m.rows())
-            {
-               SingularMatrixException e("Singular matrix");
-               GPSTK_THROW(e);
-            }
-
-            for (j = r; j < toReturn.cols(); j++)
-               toReturn(r,j) += (toReturn(t,j) / toReturn(t,r));
+            SingularMatrixException e("Singular matrix");
+            GPSTK_THROW(e);
          }
+         if (j != r)
+            toReturn.swapRows(r,j);
 
             // scale this row's (r,r)'th element to 1
          temp = toReturn(r,r);
-- 
2.43.0


From 99d5b104f6c274892c17afc368a593e6dae69eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:25 +0000
Subject: [PATCH 085/245] fix: scalar - Matrix and scalar / Matrix kept the
 operands the wrong way round

---
 core/lib/Math/Matrix/MatrixOperators.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/core/lib/Math/Matrix/MatrixOperators.hpp b/core/lib/Math/Matrix/MatrixOperators.hpp
index 13788a4..2fcff95 100644
--- a/core/lib/Math/Matrix/MatrixOperators.hpp
+++ b/core/lib/Math/Matrix/MatrixOperators.hpp
@@ -984,12 +984,16 @@ namespace gpstk
       return temp /= d;
    }
 
-      /// Divides all the elements of m by d.
+      /// Divides d by each of the elements of m.
    template <class T, class BaseClass>
    inline Matrix<T> operator/ (const T d, const ConstMatrixBase<T, BaseClass>& m)
    {
       Matrix<T> temp(m);
-      return temp /= d;
+      size_t i, j;
+      for (i = 0; i < temp.rows(); i++)
+         for (j = 0; j < temp.cols(); j++)
+            temp(i,j) = d / temp(i,j);
+      return temp;
    }
 
       /// Adds all the elements of m by d.
@@ -1016,12 +1020,16 @@ namespace gpstk
       return temp -= d;
    }
 
-      /// Subtracts all the elements of m by d.
+      /// Subtracts each of the elements of m from d.
    template <class T, class BaseClass>
    inline Matrix<T> operator- (const T d, const ConstMatrixBase<T, BaseClass>& m)
    {
       Matrix<T> temp(m);
-      return temp -= d;
+      size_t i, j;
+      for (i = 0; i < temp.rows(); i++)
+         for (j = 0; j < temp.cols(); j++)
+            temp(i,j) = d - temp(i,j);
+      return temp;
    }
 
       //@}
-- 
2.43.0


From 29a732803cf7c81d40cb7dffa24270991e707fda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:10:37 +0000
Subject: [PATCH 086/245] fix: SVD of a wide rank-deficient matrix kept a zero
 column in U

---
 core/lib/Math/Matrix/MatrixFunctors.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Matrix/MatrixFunctors.hpp b/core/lib/Math/Matrix/MatrixFunctors.hpp
index 45b14be..f674140 100644
--- a/core/lib/Math/Matrix/MatrixFunctors.hpp
+++ b/core/lib/Math/Matrix/MatrixFunctors.hpp
@@ -317,7 +317,7 @@ namespace gpstk
                int kk = i-1;  // not size_t ~ unsigned
                while(kk >= 0) {
                   svj = S[kk];
-                  if(sv < svj) break;
+                  if(sv <= svj) break;
                   S[kk+1] = svj;
                      // exchange columns kk and kk+1 in U and V
                   U.swapCols(kk,kk+1);
-- 
2.43.0


From 9672713db090f45336585d2d10707e791bb5496f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 087/245] fix: CodeBuffer::getBit returns a single bit where
 unsigned long has 64 bits

---
 ext/lib/CodeGen/CodeBuffer.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/ext/lib/CodeGen/CodeBuffer.hpp b/ext/lib/CodeGen/CodeBuffer.hpp
index 571ceb8..086d561 100644
--- a/ext/lib/CodeGen/CodeBuffer.hpp
+++ b/ext/lib/CodeGen/CodeBuffer.hpp
@@ -155,10 +155,10 @@ namespace gpstk
       long bitNum = i - (bNdx * MAX_BIT);
       iret = buffer[bNdx];
    
-      // Shift LEFT to clear off msbs
-      iret <<= bitNum;
-      // Then shift RIGHT to clear off lsbs
-      iret >>= (MAX_BIT-1);
+      // Shift RIGHT to clear off lsbs
+      iret >>= (MAX_BIT-1-bitNum);
+      // Then mask off the msbs (an unsigned long may exceed MAX_BIT bits)
+      iret &= 1UL;
    
       return iret;
    }
-- 
2.43.0


From d253c3f3bfef8695ee2428dfecc13f981b8ffafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:20:53 +0000
Subject: [PATCH 088/245] fix: SVPCodeGen rounds its initial time back to a 4
 Z-count boundary

---
 ext/lib/CodeGen/SVPCodeGen.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ext/lib/CodeGen/SVPCodeGen.cpp b/ext/lib/CodeGen/SVPCodeGen.cpp
index bb9da3a..187285c 100644
--- a/ext/lib/CodeGen/SVPCodeGen.cpp
+++ b/ext/lib/CodeGen/SVPCodeGen.cpp
@@ -53,7 +53,10 @@ namespace gpstk
          gpstk::Exception e("Must provide a prn between 0 and 210");
          GPSTK_THROW(e);
       }
-      currentZTime = dt;
+         // Round back to the 4 Z-count boundary code generation requires
+      GPSWeekZcount z(dt);
+      z.zcount -= z.zcount % 4;
+      currentZTime = z;
       PRNID = SVPRNID;
    }
 
-- 
2.43.0


From 0f5039fb54ad04ac97f70f4b1f3f685b303deb26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:58 +0000
Subject: [PATCH 089/245] fix: PolyFit with fewer data points than coefficients
 is singular

---
 core/lib/Math/PolyFit.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/Math/PolyFit.hpp b/core/lib/Math/PolyFit.hpp
index 793bc51..40fdf4a 100644
--- a/core/lib/Math/PolyFit.hpp
+++ b/core/lib/Math/PolyFit.hpp
@@ -228,6 +228,8 @@ namespace gpstk
       inline void Solve(void)
       {
          if(Inverted) return;
+         // fewer data than coefficients; roundoff may hide the singularity
+         if(Npts < n_) { Singular=true; return; }
          try { Cov=inverse(InfMatrix); }
          catch (gpstk::Exception& e) { Singular=true; return; }
          Singular = false;
-- 
2.43.0


From 8ca8d42c1833465745eaa5952ab03fc9b0cd0575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 090/245] fix: Triple::toStdVector returns the three elements

---
 core/lib/Math/Triple.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/Math/Triple.cpp b/core/lib/Math/Triple.cpp
index a08109e..a805894 100644
--- a/core/lib/Math/Triple.cpp
+++ b/core/lib/Math/Triple.cpp
@@ -99,7 +99,7 @@ namespace gpstk
    std::vector<double> Triple::toStdVector()
    {
       std::vector<double> toReturn;
-      //for(int i=0;i<3;i++) toReturn.push_back(theArray[i]);
+      for(int i=0;i<3;i++) toReturn.push_back(theArray[i]);
       return toReturn;
    }
 
-- 
2.43.0


From dcfc452e471268ad8569d5b64fcb1508713644d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 091/245] fix: Position normalizes longitudes below -360
 degrees

---
 core/lib/GNSSCore/Position.cpp | 53 +++++++++++-----------------------
 1 file changed, 17 insertions(+), 36 deletions(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 8f674db..8a7b13e 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -57,6 +57,14 @@ namespace gpstk
    using namespace std;
    using namespace StringUtils;
 
+      // Bring an angle in degrees into the range [0,360)
+   static double normalizeLongitude(double lon)
+   {
+      if(lon < 0 || lon >= 360)
+         lon -= 360*::floor(lon/360);
+      return lon;
+   }
+
    // ----------- Part  1: coordinate systems --------------------------------
       // Labels for coordinate systems supported by Position
    static const char *SystemNames[] = {
@@ -513,10 +521,7 @@ namespace gpstk
       theArray[0] = lat;
 
       theArray[1] = lon;
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] = normalizeLongitude(theArray[1]);
 
       theArray[2] = ht;
 
@@ -555,10 +560,7 @@ namespace gpstk
       theArray[1] = lon;
       theArray[2] = rad;
 
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] = normalizeLongitude(theArray[1]);
       system = Geocentric;
 
       return *this;
@@ -591,10 +593,7 @@ namespace gpstk
       theArray[1] = phi;
       theArray[2] = rad;
 
-      if(theArray[1] < 0)
-         theArray[1] += 360*(1+(unsigned long)(theArray[1]/360));
-      else if(theArray[1] >= 360)
-         theArray[1] -= 360*(unsigned long)(theArray[1]/360);
+      theArray[1] = normalizeLongitude(theArray[1]);
       system = Spherical;
 
       return *this;
@@ -809,19 +808,13 @@ namespace gpstk
                case 'L':
                case 'l':
                   lon = asDouble(toBeRemoved);
-                  if(lon < 0)
-                     lon += 360*(1+(unsigned long)(lon/360));
-                  else if(lon >= 360)
-                     lon -= 360*(unsigned long)(lon/360);
+                  lon = normalizeLongitude(lon);
                   hlon = true;
                   break;
                case 'w':
                case 'W':
                   lon = 360.0 - asDouble(toBeRemoved);
-                  if(lon < 0)
-                     lon += 360*(1+(unsigned long)(lon/360));
-                  else if(lon >= 360)
-                     lon -= 360*(unsigned long)(lon/360);
+                  lon = normalizeLongitude(lon);
                   hlon = true;
                   break;
           //%t   theta() (degrees)
@@ -848,18 +841,12 @@ namespace gpstk
           //%P   phi() (radians)
                case 'p':
                   phi = asDouble(toBeRemoved);
-                  if(phi < 0)
-                     phi += 360*(1+(unsigned long)(phi/360));
-                  else if(phi >= 360)
-                     phi -= 360*(unsigned long)(phi/360);
+                  phi = normalizeLongitude(phi);
                   hphi = true;
                   break;
                case 'P':
                   phi = asDouble(toBeRemoved) * RAD_TO_DEG;
-                  if(phi < 0)
-                     phi += 360*(1+(unsigned long)(phi/360));
-                  else if(phi >= 360)
-                     phi -= 360*(unsigned long)(phi/360);
+                  phi = normalizeLongitude(phi);
                   hphi = true;
                   break;
           //%r   radius() meters
@@ -1542,10 +1529,7 @@ namespace gpstk
                                     + StringUtils::asString(a));
             GPSTK_THROW(ge);
          }
-         if(bb < 0)
-            bb += 360*(1+(unsigned long)(bb/360));
-         else if(bb >= 360)
-            bb -= 360*(unsigned long)(bb/360);
+         bb = normalizeLongitude(bb);
       }
       if(s==Geocentric || s==Spherical)
       {
@@ -1564,10 +1548,7 @@ namespace gpstk
                                     + StringUtils::asString(a));
             GPSTK_THROW(ge);
          }
-         if(bb < 0)
-            bb += 360*(1+(unsigned long)(bb/360));
-         else if(bb >= 360)
-            bb -= 360*(unsigned long)(bb/360);
+         bb = normalizeLongitude(bb);
       }
 
       theArray[0] = a;
-- 
2.43.0


From 53ed5e2f7c062e51d9b0d3094e5e9e9c38f224e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 092/245] fix: Position constructed from an invalid Triple
 throws as documented

---
 core/lib/GNSSCore/Position.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 8a7b13e..9972441 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -154,6 +154,7 @@ namespace gpstk
          initialize(a,b,c,s,ell,frame);
       }
       catch(GeometryException& ge) {
+         GPSTK_RETHROW(ge);
       }
    }
 
-- 
2.43.0


From c29fdd35617cf65445c123e46191b0f4228a8558 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 093/245] fix: Position::setToString accepts theta in radians
 over its whole range

---
 core/lib/GNSSCore/Position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 9972441..954d30b 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -831,7 +831,7 @@ namespace gpstk
                   break;
                case 'T':
                   theta = asDouble(toBeRemoved) * RAD_TO_DEG;
-                  if(theta > 90. || theta < -90.) {
+                  if(theta > 180. || theta < 0.) {
                      InvalidRequest f("Invalid theta for setTostring: "
                                                 + toBeRemoved);
                      GPSTK_THROW(f);
-- 
2.43.0


From 7b891d275039ea733d0803587cd7ecbdbb34ba17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 094/245] fix: Cartesian to spherical conversion keeps
 precision near the poles

---
 core/lib/GNSSCore/Position.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 954d30b..1a23635 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1060,7 +1060,7 @@ namespace gpstk
          tpr[1] = 0;
          return;
       }
-      tpr[0] = ::acos(xyz[2]/tpr[2]);
+      tpr[0] = ::atan2(RSS(xyz[0],xyz[1]),xyz[2]);
       tpr[0] *= RAD_TO_DEG;
       if(RSS(xyz[0],xyz[1]) < Position::POSITION_TOLERANCE/5) {       // pole
          tpr[1] = 0;
-- 
2.43.0


From ea37c61618e1ee3a74431c5f7d19912e3e9c555c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 095/245] fix: geodetic height keeps precision near the poles

---
 core/lib/GNSSCore/Position.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 1a23635..f5f6ecd 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1099,7 +1099,8 @@ namespace gpstk
          slat = ::sin(llh[0]);
          N = A / SQRT(1.0 - eccSq*slat*slat);
          htold = llh[2];
-         llh[2] = p/::cos(llh[0]) - N;
+         llh[2] = p*::cos(llh[0]) + xyz[2]*slat
+                     - A*SQRT(1.0 - eccSq*slat*slat);
          latold = llh[0];
          llh[0] = ::atan2(xyz[2], p*(1.0-eccSq*(N/(N+llh[2]))));
          if(::fabs(llh[0]-latold) < 1.0e-9 && fabs(llh[2]-htold) < 1.0e-9 * A) break;
@@ -1194,7 +1195,8 @@ namespace gpstk
          slat = ::sin(llh[0]);
          N = A / SQRT(1.0 - eccSq*slat*slat);
          htold = llh[2];
-         llh[2] = p/::cos(llh[0]) - N;
+         llh[2] = p*::cos(llh[0]) + sl*llr[2]*slat
+                     - A*SQRT(1.0 - eccSq*slat*slat);
          latold = llh[0];
          llh[0] = ::atan2(sl, cl*(1.0-eccSq*(N/(N+llh[2]))));
          if(fabs(llh[0]-latold) < 1.0e-9 && ::fabs(llh[2]-htold) < 1.0e-9 * A) break;
-- 
2.43.0


From 7fcea7216b95b97abf082c3971d180f6cea4b48d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 096/245] fix: geodetic to geocentric conversion does not
 collapse points near the pole

---
 core/lib/GNSSCore/Position.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index f5f6ecd..ca7ec8b 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1228,16 +1228,16 @@ namespace gpstk
          llr[0] = llr[1] = llr[2] = 0;
          return;
       }
-      if(1-::fabs(slat) < 1.e-10) {             // at the pole
+      double clat = ::cos(llh[0]*DEG_TO_RAD);
+      if(clat < 1.e-10) {                       // at the pole
          if(slat < 0) llr[0] = -90;
          else         llr[0] =  90;
          llr[1] = 0.0;
          return;
       }
-      // theta
-      llr[0] = ::acos((N*(1-eccSq)+llh[2])*slat/llr[2]);
+      // latitude
+      llr[0] = ::atan2((N*(1-eccSq)+llh[2])*slat, (N+llh[2])*clat);
       llr[0] *= RAD_TO_DEG;
-      llr[0] = 90 - llr[0];
    }
 
    // ----------- Part 11: operator<< and other useful functions -------------
-- 
2.43.0


From cac17d763a21005673bd9ff3c4d264b43912238a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 097/245] fix: the origin in geodetic coordinates is latitude
 0, height -A as documented

---
 core/lib/GNSSCore/Position.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index ca7ec8b..955390d 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1087,7 +1087,12 @@ namespace gpstk
    {
       double p,slat,N,htold,latold;
       p = SQRT(xyz[0]*xyz[0]+xyz[1]*xyz[1]);
-      if(p < Position::POSITION_TOLERANCE/5) {  // pole or origin
+      if(RSS(p,xyz[2]) <= Position::POSITION_TOLERANCE/5) {  // origin
+         llh[0] = llh[1] = 0;
+         llh[2] = -A;
+         return;
+      }
+      if(p < Position::POSITION_TOLERANCE/5) {  // pole
          llh[0] = (xyz[2] > 0 ? 90.0: -90.0);
          llh[1] = 0;                            // lon undefined, really
          llh[2] = ::fabs(xyz[2]) - A*SQRT(1.0-eccSq);
-- 
2.43.0


From d9206e71a86e9c3cbd2d645c67ff045380363e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 098/245] fix: elevationGeodetic of a target at the zenith or
 nadir is not NaN

---
 core/lib/GNSSCore/Position.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index 955390d..b39d9d1 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1355,6 +1355,9 @@ namespace gpstk
       localUp = z.dot(kVector);
       // Let's get cos(z), being z the angle with respect to local vertical (Up);
       cosUp = localUp/z.mag();
+      // correct round off error
+      if (cosUp > 1.0) cosUp = 1.0;
+      else if (cosUp < -1.0) cosUp = -1.0;
 
       return 90.0 - ((::acos(cosUp))*RAD_TO_DEG);
    }
-- 
2.43.0


From 75f13a76d8e46e460c09e16f5b4fdf1b86eadb5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:15 +0000
Subject: [PATCH 099/245] fix: ionospheric pierce points at high latitude and
 across longitude zero

---
 core/lib/GNSSCore/Position.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index b39d9d1..cf2981c 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1469,12 +1469,16 @@ namespace gpstk
       double p = PI/2.0 - el - ::asin(AEarth*::cos(el)/(AEarth+ionoht));
       double lat = Rx.theArray[0] * DEG_TO_RAD;
       double az = azim * DEG_TO_RAD;
-      IPP.theArray[0] = std::asin(std::sin(lat)*std::cos(p) + std::cos(lat)*std::sin(p)*std::cos(az));
-      IPP.theArray[1] = Rx.theArray[1]*DEG_TO_RAD
-         + ::asin(::sin(p)*::sin(az)/::cos(IPP.theArray[0]));
+      // components of the pierce point direction: in the receiver meridian
+      // plane (equatorial), east, and along the axis of the Earth
+      double mer = std::cos(lat)*std::cos(p) - std::sin(lat)*std::sin(p)*std::cos(az);
+      double east = std::sin(p)*std::sin(az);
+      double pol = std::sin(lat)*std::cos(p) + std::cos(lat)*std::sin(p)*std::cos(az);
+      IPP.theArray[0] = std::atan2(pol, RSS(mer,east));
+      IPP.theArray[1] = Rx.theArray[1]*DEG_TO_RAD + std::atan2(east, mer);
 
       IPP.theArray[0] *= RAD_TO_DEG;
-      IPP.theArray[1] *= RAD_TO_DEG;
+      IPP.theArray[1] = normalizeLongitude(IPP.theArray[1] * RAD_TO_DEG);
       IPP.theArray[2] = AEarth + ionoht;
 
       // transform back
-- 
2.43.0


From ffffda146911fa76ea24e9e52472405fa3734a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:04 +0000
Subject: [PATCH 100/245] fix: geodetic height is computed as before away from
 the poles

---
 core/lib/GNSSCore/Position.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSCore/Position.cpp b/core/lib/GNSSCore/Position.cpp
index cf2981c..d21d7ca 100644
--- a/core/lib/GNSSCore/Position.cpp
+++ b/core/lib/GNSSCore/Position.cpp
@@ -1104,8 +1104,11 @@ namespace gpstk
          slat = ::sin(llh[0]);
          N = A / SQRT(1.0 - eccSq*slat*slat);
          htold = llh[2];
-         llh[2] = p*::cos(llh[0]) + xyz[2]*slat
-                     - A*SQRT(1.0 - eccSq*slat*slat);
+         if(::fabs(slat) > 0.99)    // near the pole p and cos(lat) vanish
+            llh[2] = p*::cos(llh[0]) + xyz[2]*slat
+                        - A*SQRT(1.0 - eccSq*slat*slat);
+         else
+            llh[2] = p/::cos(llh[0]) - N;
          latold = llh[0];
          llh[0] = ::atan2(xyz[2], p*(1.0-eccSq*(N/(N+llh[2]))));
          if(::fabs(llh[0]-latold) < 1.0e-9 && fabs(llh[2]-htold) < 1.0e-9 * A) break;
@@ -1200,8 +1203,11 @@ namespace gpstk
          slat = ::sin(llh[0]);
          N = A / SQRT(1.0 - eccSq*slat*slat);
          htold = llh[2];
-         llh[2] = p*::cos(llh[0]) + sl*llr[2]*slat
-                     - A*SQRT(1.0 - eccSq*slat*slat);
+         if(::fabs(slat) > 0.99)    // near the pole p and cos(lat) vanish
+            llh[2] = p*::cos(llh[0]) + sl*llr[2]*slat
+                        - A*SQRT(1.0 - eccSq*slat*slat);
+         else
+            llh[2] = p/::cos(llh[0]) - N;
          latold = llh[0];
          llh[0] = ::atan2(sl, cl*(1.0-eccSq*(N/(N+llh[2]))));
          if(fabs(llh[0]-latold) < 1.0e-9 && ::fabs(llh[2]-htold) < 1.0e-9 * A) break;
-- 
2.43.0


From 8e0e41909ad5b1d6733aad406e0d7bf9340862d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 101/245] fix: SatPass::SSI(i,type1,type2) finds the types it
 has

---
 ext/lib/Geomatics/SatPass.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index bcfb9d1..5674c0b 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -851,9 +851,9 @@ unsigned short SatPass::SSI(unsigned int i, string type1, string type2)
       GPSTK_THROW(e);
    }
    map<string, unsigned int>::const_iterator it;
-   if((it = indexForLabel.find(type1)) == indexForLabel.end())
+   if((it = indexForLabel.find(type1)) != indexForLabel.end())
       return spdvector[i].ssi[it->second];
-   else if((it = indexForLabel.find(type2)) == indexForLabel.end())
+   else if((it = indexForLabel.find(type2)) != indexForLabel.end())
       return spdvector[i].ssi[it->second];
    else {
       Exception e("Invalid obs types in SSI() " + type1 + " " + type2);
-- 
2.43.0


From 8a7ee5cc10d533d3c53494752b54b7bd26c1b097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 102/245] fix: SatPass::trimAfter removes the data at the given
 time, not after the next epoch

---
 ext/lib/Geomatics/SatPass.cpp | 23 ++++++++---------------
 1 file changed, 8 insertions(+), 15 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index 5674c0b..458b100 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -224,22 +224,15 @@ try {
    if(ttag <= firstTime) return -1;
    if(ttag >= lastTime) return 1;
 
-   // find the count for this time limit
-   int count = countForTime(ttag);
-   //if(count == -1) return 1;            // 4/16/13
-   if(count < 0) return -1;
-
-   unsigned int i, j, n(0);                     // count for ngood
-   for(i=0; i<spdvector.size(); i++) {
-      if(spdvector[i].ndt >= static_cast<unsigned int>(count)) { j=i; break; }
-      if(spdvector[i].flag != SatPass::BAD) n++;
-   }
-   if(j > -1) {
-      spdvector.resize(j+1);
-      lastTime = time(j);
-      ngood = n;
+   unsigned int j, n(0);                        // count for ngood
+   for(j=0; j<spdvector.size(); j++) {
+      if(time(j) >= ttag) break;
+      if(spdvector[j].flag != SatPass::BAD) n++;
    }
-   else return 1;                      // also should never happen ... handled above
+   if(j == 0) return -1;
+   spdvector.resize(j);
+   lastTime = time(j-1);
+   ngood = n;
 
    return 0;
 }
-- 
2.43.0


From c0d4a208d17bd4ae7bff83bed592cf9e942de822 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 103/245] fix: SatPass::decimate of short passes, of references
 after the pass and of passes left without data

---
 ext/lib/Geomatics/SatPass.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index 458b100..365afad 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -926,12 +926,13 @@ void SatPass::decimate(const int N, Epoch refTime)
 {
 try {
    if(N <= 1) return;
-   if(spdvector.size() < N) { dt = N*dt; return; }
+   if(spdvector.size() == 0) { dt = N*dt; return; }
    if(refTime == CommonTime::BEGINNING_OF_TIME) refTime = firstTime;
 
    // find new firstTime = time(nstart)
-   int i,j,nstart=int(0.5+(firstTime-refTime)/dt);
-   nstart = nstart % N;
+   int i,j,nstart;
+   // keep the count within the range of int when refTime is far from the data
+   nstart = int(::fmod(::floor(0.5+(firstTime-refTime)/dt), double(N)));
    while(nstart < 0) nstart += N;
    if(nstart > 0) nstart = N-nstart;
 
@@ -957,7 +958,7 @@ try {
    }
 
    dt = N*dt;
-   firstTime = newfirstTime;
+   if(j > 0) firstTime = newfirstTime;
    spdvector.resize(j); // trim
 }
 catch(Exception& e) { GPSTK_RETHROW(e); }
-- 
2.43.0


From 5cda69adc6bee1f7f9152d03ed5310ea3ec3fcc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 104/245] fix: SatPass::split at a gap, at the first count, and
 the last time of the new pass

---
 ext/lib/Geomatics/SatPass.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index 365afad..554c8d3 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -884,7 +884,7 @@ bool SatPass::includesTime(const Epoch& tt) const throw()
 // return true if successful.
 bool SatPass::split(int N, SatPass &newSP) {
 try {
-   int i,j,n,oldgood,ilast;
+   int i,j,n,nkeep;
    Epoch tt;
 
    newSP = SatPass(sat, dt);                       // create new SatPass
@@ -892,20 +892,19 @@ try {
    newSP.indexForLabel = indexForLabel;
    newSP.labelForIndex = labelForIndex;
 
-   oldgood = ngood;
-   ngood = ilast = 0;
+   ngood = 0;
+   nkeep = 0;
    for(i=0; i<spdvector.size(); i++) {             // loop over all data
       n = spdvector[i].ndt;
       tt = time(i);
       if(n < N) {                                     // keep in this SatPass
          if(spdvector[i].flag != BAD) ngood++;
-         ilast = i;
+         nkeep = i+1;
       }
       else {                                          // copy out data into new SP
-         if(n == N) {
-            newSP.ngood = oldgood-ngood;
-            newSP.firstTime = newSP.lastTime = tt;
-         }
+         if(newSP.spdvector.size() == 0) newSP.firstTime = tt;
+         newSP.lastTime = tt;
+         if(spdvector[i].flag != BAD) newSP.ngood++;
          j = newSP.countForTime(tt);
          spdvector[i].ndt = j;
          spdvector[i].toffset = tt - newSP.firstTime - j*dt;
@@ -914,8 +913,8 @@ try {
    }
 
    // now trim this SatPass
-   spdvector.resize(ilast+1);
-   lastTime = time(ilast);
+   spdvector.resize(nkeep);
+   if(nkeep > 0) lastTime = time(nkeep-1);
 
    return true;
 }
-- 
2.43.0


From 347b5fe5b9feaede603c1caf7219d0abc8ed0612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 105/245] fix: SatPass::renameObstypes ends when a type is
 absent and keeps its map iterator valid

---
 ext/lib/Geomatics/SatPass.hpp | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.hpp b/ext/lib/Geomatics/SatPass.hpp
index 554cf5d..b18c8dd 100644
--- a/ext/lib/Geomatics/SatPass.hpp
+++ b/ext/lib/Geomatics/SatPass.hpp
@@ -486,7 +486,7 @@ public:
       std::map<std::string, std::string>::const_iterator it = subst.begin();
       std::map<unsigned int,std::string>::iterator jt;
       while(it != subst.end()) {
-         if(indexForLabel.find(it->first) == indexForLabel.end()) continue;
+         if(indexForLabel.find(it->first) == indexForLabel.end()) { ++it; continue; }
 
          i = indexForLabel[it->first];
          indexForLabel.insert(
@@ -495,10 +495,7 @@ public:
 
          for(jt=labelForIndex.begin(); jt!=labelForIndex.end(); ++jt) {
             if(jt->second != it->first) continue;
-            i = jt->first;        
-            labelForIndex.erase(i);
-            labelForIndex.insert(
-               std::map<unsigned int,std::string>::value_type(i,it->second));
+            jt->second = it->second;
          }
 
          ++it;
-- 
2.43.0


From adc461c45c4e30c45c5659c145d00b8f2f96798f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 106/245] fix: first and last time of an empty SatPass do not
 terminate the program

---
 ext/lib/Geomatics/SatPass.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index 554c8d3..f8bdf19 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -797,10 +797,18 @@ unsigned int SatPass::getCount(unsigned int i) const
 }
 
 // @return the earliest time (full, including toffset) in this SatPass data
-Epoch SatPass::getFirstTime(void) const throw() { return time(0); }
+Epoch SatPass::getFirstTime(void) const throw()
+{
+   if(spdvector.size() == 0) return CommonTime::END_OF_TIME;
+   return time(0);
+}
 
 // @return the latest time (full, including toffset) in this SatPass data
-Epoch SatPass::getLastTime(void) const throw() { return time(spdvector.size()-1); }
+Epoch SatPass::getLastTime(void) const throw()
+{
+   if(spdvector.size() == 0) return CommonTime::BEGINNING_OF_TIME;
+   return time(spdvector.size()-1);
+}
 
 // these allow you to get e.g. P1 or C1. NB return double not double& as above: rvalue
 double SatPass::data(unsigned int i, string type1, string type2) const
-- 
2.43.0


From 6d7f8f4036a37164f8049d1257458573cee64af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 107/245] fix: SatPass good times count every flag but BAD;
 clear resets the number of good points

---
 ext/lib/Geomatics/SatPass.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.hpp b/ext/lib/Geomatics/SatPass.hpp
index b18c8dd..c472037 100644
--- a/ext/lib/Geomatics/SatPass.hpp
+++ b/ext/lib/Geomatics/SatPass.hpp
@@ -377,7 +377,7 @@ public:
 
    /// @return the earliest time of good data in this SatPass data
    Epoch getFirstGoodTime(void) const throw() {
-      for(int j=0; j<spdvector.size(); j++) if(spdvector[j].flag & OK) {
+      for(int j=0; j<spdvector.size(); j++) if(spdvector[j].flag != BAD) {
          return time(j);
       }
       return CommonTime::END_OF_TIME;
@@ -385,7 +385,7 @@ public:
 
    /// @return the latest time of good data in this SatPass data
    Epoch getLastGoodTime(void) const throw() {
-      for(int j=spdvector.size()-1; j>=0; j--) if(spdvector[j].flag & OK) {
+      for(int j=spdvector.size()-1; j>=0; j--) if(spdvector[j].flag != BAD) {
          return time(j);
       }
       return CommonTime::BEGINNING_OF_TIME;
@@ -455,7 +455,7 @@ public:
 
    // -------------------------------- utils ---------------------------------
    /// clear the data (but not the obs types) from the arrays
-   void clear(void) throw() { spdvector.clear(); }
+   void clear(void) throw() { spdvector.clear(); ngood = 0; }
 
    /// compute the timetag associated with index i in the data array
    /// @param  i   index of the data of interest
-- 
2.43.0


From 6dd719709a08c527a1dc1d6c03f3b0e00d42b9e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 108/245] fix: SatPass smoothed pseudorange includes the
 integer bias and is in meters

---
 ext/lib/Geomatics/SatPass.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/SatPass.cpp b/ext/lib/Geomatics/SatPass.cpp
index f8bdf19..bd861a6 100644
--- a/ext/lib/Geomatics/SatPass.cpp
+++ b/ext/lib/Geomatics/SatPass.cpp
@@ -529,11 +529,11 @@ try {
          // compute the debiased phase, with real bias
          if(freq==1) {
             spdvector[i].data[indexForLabel[(useC1 ? "C1" : "P1")]]
-                        = spdvector[i].data[indexForLabel["L1"]] - RB;
+                        = wl*(spdvector[i].data[indexForLabel["L1"]] - dLB0 - RB);
          }
          else if(freq==2) {
             spdvector[i].data[indexForLabel[(useC2 ? "C2" : "P2")]]
-                        = spdvector[i].data[indexForLabel["L2"]] - RB;
+                        = wl*(spdvector[i].data[indexForLabel["L2"]] - dLB0 - RB);
          }
       }
 
@@ -667,8 +667,9 @@ try {
       // replace the pseudorange with the smoothed pseudorange
       if(smoothPR) {
          // compute the debiased phase, with real bias
-         dbL1 = spdvector[i].data[indexForLabel["L1"]] - RB1;
-         dbL2 = spdvector[i].data[indexForLabel["L2"]] - RB2;
+         // NB RB1,2 do not include the integers removed at the first point
+         dbL1 = spdvector[i].data[indexForLabel["L1"]] - dLB10 - RB1;
+         dbL2 = spdvector[i].data[indexForLabel["L2"]] - dLB20 - RB2;
 
          spdvector[i].data[indexForLabel[(useC1 ? "C1" : "P1")]]
                                                 = D11*wl1*dbL1 + D12*wl2*dbL2;
-- 
2.43.0


From 4e0864e42c0c5f1b1c28c429a2f67dc98dbc73aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 109/245] fix: SatPassIterator in reverse starts at the latest
 epoch of all passes; empty passes are skipped

---
 ext/lib/Geomatics/SatPassIterator.cpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/SatPassIterator.cpp b/ext/lib/Geomatics/SatPassIterator.cpp
index f574978..f4b7a41 100644
--- a/ext/lib/Geomatics/SatPassIterator.cpp
+++ b/ext/lib/Geomatics/SatPassIterator.cpp
@@ -116,10 +116,15 @@ void SatPassIterator::reset(bool rev, bool dbug) throw()
          // ignore passes with negative Status
          if(SPList[i].Status < 0) break;
 
+         // ignore passes without data
+         if(SPList[i].size() == 0) break;
+
          // define latest epoch when time reversed
-         if(timeReverse && currentN == 0)
-            currentN = int((SPList[i].firstTime - FirstTime)/DT + 0.5)
+         if(timeReverse) {
+            int lastN = int((SPList[i].firstTime - FirstTime)/DT + 0.5)
                                  + SPList[i].spdvector[SPList[i].size()-1].ndt;
+            if(lastN > currentN) currentN = lastN;
+         }
 
          // (re)build the maps
          if(listIndex.find(SPList[i].sat) == listIndex.end()) {
@@ -221,7 +226,8 @@ int SatPassIterator::next(map<unsigned int, unsigned int>& indexMap)
                      << " " << SPList[k].firstTime.printf("%4F %10.3g");
                   bool found(false);
                   for(;;) {
-                     if(SPList[k].Status < 0)      // bad pass
+                     if(SPList[k].Status < 0 ||    // bad pass
+                        SPList[k].size() == 0)     // or nothing in it
                         break;
                      if(SPList[k].sat != sat)      // wrong sat
                         break;
-- 
2.43.0


From b568b27b3a1dace654a4bbcdfe955d615d84c4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:31 +0000
Subject: [PATCH 110/245] fix: SatPassIterator goes on after a rejected pass
 and throws, not loops, when time tags are out of order

---
 ext/lib/Geomatics/SatPassIterator.cpp | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SatPassIterator.cpp b/ext/lib/Geomatics/SatPassIterator.cpp
index f4b7a41..049be4c 100644
--- a/ext/lib/Geomatics/SatPassIterator.cpp
+++ b/ext/lib/Geomatics/SatPassIterator.cpp
@@ -196,13 +196,32 @@ int SatPassIterator::next(map<unsigned int, unsigned int>& indexMap)
          if(debug) LOG(INFO) << "Loop over listIndex: " << sat << " " << i <<" "<< j;
 
          if(SPList[i].Status < 0) {
+            // go on to the next pass for this sat, if there is one
+            indexStatus[i] = 1;
+            k = i + (timeReverse ? -1 : 1);
+            for( ; k>=0 && k<int(SPList.size()); (timeReverse ? k-- : k++))
+               if(SPList[k].Status >= 0 && SPList[k].size() > 0
+                           && SPList[k].sat == sat && indexStatus[k] <= 0) break;
+            if(k>=0 && k<int(SPList.size())) {
+               indexStatus[k] = 0;
+               kt->second = k;
+               dataIndex[sat] = (timeReverse ? SPList[k].size()-1 : 0);
+               countOffset[sat] = int((SPList[k].firstTime-FirstTime)/DT + 0.5);
+               continue;
+            }
             listIndex.erase(kt++);  // erasing a map - do exactly this and no more
             if(debug) LOG(INFO) << " Erase this pass for bad status: index "
                << i << " sat " << sat << " size is now " << listIndex.size();
             continue;
          }
 
-         if(countOffset[sat] + SPList[i].spdvector[j].ndt == currentN) {
+         k = countOffset[sat] + SPList[i].spdvector[j].ndt;
+         if((!timeReverse && k < currentN) || (timeReverse && k > currentN)) {
+            Exception e("Time tags out of order for satellite " + asString(sat));
+            GPSTK_THROW(e);
+         }
+
+         if(k == currentN) {
             // found active sat at this count - add to map
             nextIndexMap[i] = j;
             numsvs++;
-- 
2.43.0


From a369aa5630794fdf35c0d98edef3fe309f6a4df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:01:08 +0000
Subject: [PATCH 111/245] fix: SatPass::index of times a step before the pass
 is -1

---
 ext/lib/Geomatics/SatPass.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SatPass.hpp b/ext/lib/Geomatics/SatPass.hpp
index c472037..750c069 100644
--- a/ext/lib/Geomatics/SatPass.hpp
+++ b/ext/lib/Geomatics/SatPass.hpp
@@ -46,6 +46,7 @@
 #include <vector>
 #include <map>
 #include <ostream>
+#include <cmath>
 
 #include "Epoch.hpp"
 #include "RinexSatID.hpp"
@@ -720,7 +721,7 @@ protected:
    /// @throw Exception
    int countForTime(const Epoch& tt) const
    {
-      return int((tt-firstTime)/dt + 0.5);
+      return int(std::floor((tt-firstTime)/dt + 0.5));
    }
 
 }; // end class SatPass
-- 
2.43.0


From ec555bbc2e191854c0bbdcd421c22765a2658879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 112/245] fix: PositionSatStore getPosition, getVelocity and
 getAcceleration return the matching record at a tabulated time

---
 core/lib/GNSSEph/PositionSatStore.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/core/lib/GNSSEph/PositionSatStore.cpp b/core/lib/GNSSEph/PositionSatStore.cpp
index 484a4c1..778f7c6 100644
--- a/core/lib/GNSSEph/PositionSatStore.cpp
+++ b/core/lib/GNSSEph/PositionSatStore.cpp
@@ -204,7 +204,6 @@ namespace gpstk
 
          if(getTableInterval(sat, ttag, Nhalf, it1, it2, true)) {
             // exact match
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Pos;
          }
@@ -249,7 +248,6 @@ namespace gpstk
 
          bool isExact(getTableInterval(sat, ttag, Nhalf, it1, it2, haveVelocity));
          if(isExact && haveVelocity) {
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Vel;
          }
@@ -309,7 +307,6 @@ namespace gpstk
          bool isExact(getTableInterval(sat,ttag,Nhalf,it1,it2,haveAcceleration));
          if(isExact && haveAcceleration) {
             // exact match, and have acceleration data
-            for(unsigned int i=0; i<Nhalf; i++) ++it1;
             PositionRecord rec(it1->second);
             return rec.Acc;
          }
-- 
2.43.0


From ac5af9d7aed05db609873b97bf7ece2cef3bf686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 113/245] fix: TabularSatStore checks gap and interval also in
 the first interval of the table

---
 core/lib/GNSSEph/TabularSatStore.hpp | 16 +++++++---------
 1 file changed, 7 insertions(+), 9 deletions(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index a5992b5..11754fd 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -289,17 +289,15 @@ namespace gpstk
                // move it1 down by one
             if(--it1 == dtable.begin())
             {
-                  // if an interval of only 2
-               if(nhalf==1)
+                  // an interval of only 2 is all right
+               if(nhalf != 1)
                {
-                  ++(it2 = it1);
-                  return exactMatch;
+                  InvalidRequest e("Inadequate data before(2) requested time"
+                                   " for satellite " +
+                                   gpstk::StringUtils::asString(sat) +
+                                   printTime(ttag,fmt));
+                  GPSTK_THROW(e);
                }
-               InvalidRequest e("Inadequate data before(2) requested time for"
-                                " satellite " +
-                                gpstk::StringUtils::asString(sat) +
-                                printTime(ttag,fmt));
-               GPSTK_THROW(e);
             }
 
                //LOG(INFO) << "OK, have interval " << printTime(it1->first,"%F/%g") <<
-- 
2.43.0


From a621f437e2b7df4b68e7803e73f6788ad55374e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 114/245] fix: ClockSatStore interpolates accelerations
 linearly with their own slope

---
 core/lib/GNSSEph/ClockSatStore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index 0231f78..4df5a04 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -161,8 +161,8 @@ namespace gpstk
             }
             else {
                // linear interpolation
-               slope = (drifts[Nhi]-drifts[Nlow]) /
-                                   (times[Nhi]-times[Nlow]);            // sec/sec^2
+               slope = (accels[Nhi]-accels[Nlow]) /
+                                   (times[Nhi]-times[Nlow]);            // sec/sec^3
                rec.accel = accels[Nlow] + slope*(dt-times[Nlow]);       // sec/sec^2
             }
 
-- 
2.43.0


From 2fb2d9608c5e7ea7c635e99f7f15153f5a693df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 115/245] fix: ClockSatStore::getClockDrift interpolates the
 drifts, not the biases

---
 core/lib/GNSSEph/ClockSatStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index 4df5a04..f26f65d 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -274,7 +274,7 @@ namespace gpstk
             if(isExact && ABS(kt->first-ttag) < 1.e-8) Nhi=n;
             times.push_back(kt->first - ttag0);    // sec
             if(haveClockDrift)
-               drifts.push_back(kt->second.bias);  // sec/sec
+               drifts.push_back(kt->second.drift); // sec/sec
             else
                biases.push_back(kt->second.bias);  // sec
             if(kt == it2) break;
-- 
2.43.0


From a472bd3c6c7e8163a0773f71d35533234d2c4cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 116/245] fix: ClockSatStore stays inside a two-point interval
 at its first epoch

---
 core/lib/GNSSEph/ClockSatStore.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/ClockSatStore.cpp b/core/lib/GNSSEph/ClockSatStore.cpp
index f26f65d..b9342e8 100644
--- a/core/lib/GNSSEph/ClockSatStore.cpp
+++ b/core/lib/GNSSEph/ClockSatStore.cpp
@@ -106,7 +106,8 @@ namespace gpstk
             ++n;
          };
 
-         if(isExact && Nmatch == (int)(Nhalf-1)) { Nlow++; Nhi++; }
+         if(isExact && Nmatch == (int)(Nhalf-1) && Nhi+1 < times.size())
+            { Nlow++; Nhi++; }
 
          // interpolate
          rec.accel = rec.sig_accel = 0.0;              // defaults
@@ -282,7 +283,7 @@ namespace gpstk
             ++n;
          };
 
-         if(isExact && Nhi == (int)(Nhalf-1)) Nhi++;
+         if(isExact && (Nhi == (int)(Nhalf-1) || Nhi == 0)) Nhi++;
 
          // interpolate
          double drift, dt(ttag-ttag0), err, slope;
-- 
2.43.0


From 3e099e947886ebb002aea9fb180dba6be40c82c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 117/245] fix: TabularSatStore::edit removes all data before
 tmin and the satellites left without data

---
 core/lib/GNSSEph/TabularSatStore.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index 11754fd..4077c2e 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -653,7 +653,7 @@ namespace gpstk
       {
             // loop over satellites
          typename SatTable::iterator it;
-         for(it=tables.begin(); it!=tables.end(); it++)
+         for(it=tables.begin(); it!=tables.end(); )
          {
                //sat = it->first;
             DataTable& dtab(it->second);
@@ -668,8 +668,13 @@ namespace gpstk
                // delete everything before tmin
                // jt points to the earliest time >= tmin
             jt = dtab.lower_bound(tmin);
-            if(jt != dtab.begin() && --jt != dtab.begin())
-               dtab.erase(dtab.begin(),jt);
+            dtab.erase(dtab.begin(),jt);
+
+               // a satellite without data is no longer in the store
+            if(dtab.empty())
+               tables.erase(it++);
+            else
+               ++it;
          }
       }
 
-- 
2.43.0


From ba709dcdef559cbe5dce5e81918028d17d4d8249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 118/245] fix: TabularSatStore::nomTimeStep of a single record
 is 0, not uninitialised

---
 core/lib/GNSSEph/TabularSatStore.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index 4077c2e..8f8eb03 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -897,7 +897,7 @@ namespace gpstk
             // save the most frequent N step sizes
          static const int N=3;
          int i,ndt[N]={0,0,0};
-         double dt[N],del;
+         double dt[N]={0.0,0.0,0.0},del;
 
             // loop over the table
          typename DataTable::const_iterator jt(it->second.begin());
-- 
2.43.0


From 86039f640b4029c6355d6c46bd4e3eb657ca6db5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 119/245] fix: SP3EphemerisStore keeps EP and EV sigmas with
 their own record

---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index 129b662..0567b30 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -435,7 +435,7 @@ namespace gpstk
 
                         haveP = true;
                      }
-                     if (data.correlationFlag)
+                     if (goNext && data.correlationFlag)
                      {
                            // EP
                            //cout << "EP record: "; data.dump(cout); cout << endl;
@@ -487,7 +487,7 @@ namespace gpstk
 
                         haveV = true;
                      }
-                     if (data.correlationFlag)
+                     if (goNext && data.correlationFlag)
                      {
                            // EV
                            //cout << "EV record: "; data.dump(cout); cout << endl;
-- 
2.43.0


From 165383d5a1a801690079a347b823bdf6b38bfd5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:49 +0000
Subject: [PATCH 120/245] fix: SP3EphemerisStore forgets a rejected record
 before it reads the next

---
 core/lib/GNSSEph/SP3EphemerisStore.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/lib/GNSSEph/SP3EphemerisStore.cpp b/core/lib/GNSSEph/SP3EphemerisStore.cpp
index 0567b30..c82b78c 100644
--- a/core/lib/GNSSEph/SP3EphemerisStore.cpp
+++ b/core/lib/GNSSEph/SP3EphemerisStore.cpp
@@ -528,13 +528,13 @@ namespace gpstk
                       prec.Pos[2]==0.0))
                   {
                         //cout << "Bad position" << endl;
-                     haveP = haveV = haveEV = haveEP = false; // bad position record
+                     ; // bad position record
                   }
                   else if(fillClockStore && rejectBadClockFlag
                           && (fabs(crec.bias) >= 999999.))
                   {
                         //cout << "Bad clock" << endl;
-                     haveP = haveV = haveEV = haveEP = false; // bad clock record
+                     ; // bad clock record
                   }
                   else
                   {
@@ -543,14 +543,14 @@ namespace gpstk
                         posStore.addPositionRecord(sat,ttag,prec);
                      if(fillClockStore && (!rejectPredClockFlag || !predC))
                         clkStore.addClockRecord(sat,ttag,crec);
-
-                        // prepare for next
-                     haveP = haveV = haveEP = haveEV = predP = predC = false;
-                     prec.Pos = prec.Vel = prec.sigPos = prec.sigVel = Triple(0,0,0);
-                     if(fillClockStore)
-                        crec.bias = crec.drift = crec.sig_bias = crec.sig_drift = 0.0;
                   }
 
+                     // prepare for next, whether or not the record was stored
+                  haveP = haveV = haveEP = haveEV = predP = predC = false;
+                  prec.Pos = prec.Vel = prec.sigPos = prec.sigVel = Triple(0,0,0);
+                  if(fillClockStore)
+                     crec.bias = crec.drift = crec.sig_bias = crec.sig_drift = 0.0;
+
                   goNext = true;
 
                }  // end while loop (loop twice)
-- 
2.43.0


From c409bf2b92a2f2a06a5c5dfe78c8474d74068969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:08 +0000
Subject: [PATCH 121/245] fix: TabularSatStore checks gap and interval also at
 the first epoch of the table

---
 core/lib/GNSSEph/TabularSatStore.hpp | 17 ++++++++---------
 1 file changed, 8 insertions(+), 9 deletions(-)

diff --git a/core/lib/GNSSEph/TabularSatStore.hpp b/core/lib/GNSSEph/TabularSatStore.hpp
index 8f8eb03..ea32ecb 100644
--- a/core/lib/GNSSEph/TabularSatStore.hpp
+++ b/core/lib/GNSSEph/TabularSatStore.hpp
@@ -274,20 +274,19 @@ namespace gpstk
             {
                   // at table begin but its an exact match && an
                   // interval of only 2
-               if(exactMatch && nhalf==1)
+               if(!exactMatch || nhalf!=1)
                {
-                  ++(it2 = it1);
-                  return exactMatch;
+                  InvalidRequest e("Inadequate data before(1) requested time"
+                                   " for satellite " +
+                                   gpstk::StringUtils::asString(sat) +
+                                   printTime(ttag,fmt));
+                  GPSTK_THROW(e);
                }
-               InvalidRequest e("Inadequate data before(1) requested time for"
-                                " satellite " +
-                                gpstk::StringUtils::asString(sat) +
-                                printTime(ttag,fmt));
-               GPSTK_THROW(e);
+               ++it2;
             }
 
                // move it1 down by one
-            if(--it1 == dtable.begin())
+            else if(--it1 == dtable.begin())
             {
                   // an interval of only 2 is all right
                if(nhalf != 1)
-- 
2.43.0


From 3e90bbb948eb8f34105573b5d13d1918a7f10d3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:54 +0000
Subject: [PATCH 122/245] fix: MGFZI refuses the smallest long long like every
 other overflow

---
 core/lib/FileHandling/Binex/BinexData.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index a211aa1..2561b29 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -381,7 +381,8 @@ namespace gpstk
    BinexData::MGFZI::MGFZI(long long ll)
    {
       value = ll;
-      long long absValue = llabs(ll);
+         // the smallest long long has no absolute value
+      long long absValue = (ll < MIN_VALUE) ? MAX_VALUE + 1 : llabs(ll);
 
       if (absValue < 16LL)
       {
-- 
2.43.0


From 1a4087f2c00b824d79af9eb27cfa7d187643877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:54 +0000
Subject: [PATCH 123/245] fix: MGFZI::read decodes the bytes it read, in either
 byte order

---
 core/lib/FileHandling/Binex/BinexData.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 2561b29..d850b8b 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -816,9 +816,14 @@ namespace gpstk
 
          // Read the flags byte
       strm.read((char*)&buffer[0], 1);
+      if (!strm.good() )
+      {
+         FFStreamError err("Error reading BINEX MGFZI");
+         GPSTK_THROW(err);
+      }
 
          // Isolate sign and byte-length flags
-      flags = reverseBytes
+      flags = (reverseBytes != littleEndian)
             ? buffer[0] & 0x0f
             : (buffer[0] >> 4) & 0x0f;
 
@@ -856,7 +861,7 @@ namespace gpstk
 
          // Decode the entire buffer
       std::string  tmp((const char*)&buffer[0], size);
-      decode(tmp, size, littleEndian);
+      decode(tmp, 0, littleEndian);
 
       return size;
    }
-- 
2.43.0


From a1d19f819d13886e36ab497a059c48ee89600d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:54 +0000
Subject: [PATCH 124/245] fix: MGFZI::encode stores the byte of a "no value"

---
 core/lib/FileHandling/Binex/BinexData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index d850b8b..0798ac7 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -794,10 +794,10 @@ namespace gpstk
          default:
                // If the byte count is 0, store "no value"
             result    = 1;
-            buffer[0] = (char)0x80;
+            buffer[0] = (char)(littleEndian ? 0x08 : 0x80);
             break;
       } // switch
-      outBuffer.replace(offset, size, buffer, size);
+      outBuffer.replace(offset, result, buffer, result);
       return result;
    }
 
-- 
2.43.0


From f17a31ad0d1ef2efc0e9f9a01b84387eb5369fdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:54 +0000
Subject: [PATCH 125/245] fix: MGFZI::decode consumes the byte of a "no value"

---
 core/lib/FileHandling/Binex/BinexData.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 0798ac7..11f9da2 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -487,8 +487,9 @@ namespace gpstk
             if (sign == -1 && absValue == 0)
             {
                // "-0" reserved for "no data" indicator
-               size = 0;
-               // todo - throw
+               size  = 0;
+               value = 0;
+               return 1;
             }
             else
             {
-- 
2.43.0


From 3fdfe3c3a07f44766a6940b2bb80d952b001c404 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 126/245] fix: MGFZI::write writes the byte of a "no value"

---
 core/lib/FileHandling/Binex/BinexData.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 11f9da2..20bed4d 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -878,14 +878,14 @@ namespace gpstk
       bool          littleEndian) const
    {
       std::string  buffer;
-      encode(buffer, 0, littleEndian);
+      size_t result = encode(buffer, 0, littleEndian);
       if (outBuffer)
       {
             // Store the as-written bytes
          //memcpy(outBuffer, buffer, bufferSize);
          if (offset <= outBuffer->size() )
          {
-            outBuffer->replace(offset, size, buffer);
+            outBuffer->replace(offset, result, buffer);
          }
          else
          {
@@ -899,13 +899,13 @@ namespace gpstk
       {
          reverseBuffer(buffer);
       }
-      strm.write(buffer.data(), size);
+      strm.write(buffer.data(), result);
       if (!strm.good() )
       {
          FFStreamError err("Error writing BINEX MGFZI");
          GPSTK_THROW(err);
       }
-      return size;
+      return result;
    }
 
 
-- 
2.43.0


From 27ff78ec028aae51947e9641e3e6114165ce4a9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:55 +0000
Subject: [PATCH 127/245] fix: MGFZI::read returns the number of bytes read for
 a "no value"

---
 core/lib/FileHandling/Binex/BinexData.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 20bed4d..1a65e1c 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -862,9 +862,7 @@ namespace gpstk
 
          // Decode the entire buffer
       std::string  tmp((const char*)&buffer[0], size);
-      decode(tmp, 0, littleEndian);
-
-      return size;
+      return decode(tmp, 0, littleEndian);
    }
 
 
-- 
2.43.0


From a05e8171859cd4d5bfebfa7f6fcae38f719dfd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 128/245] fix: UBNXI::decode refuses a truncated buffer instead
 of reading past it

---
 core/lib/FileHandling/Binex/BinexData.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 1a65e1c..8ccefc7 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -131,6 +131,11 @@ namespace gpstk
       bool more = true;
       for (size = 0, value = 0L; (size < MAX_BYTES) && more; size++)
       {
+         if (offset + size >= inBuffer.size() )
+         {
+            FFStreamError err("BINEX UBNXI input buffer is truncated");
+            GPSTK_THROW(err);
+         }
          unsigned char mask = (size < 3) ? 0x7f : 0xff;
          if (littleEndian)
          {
-- 
2.43.0


From 592d32e0df85b14b1ff46cd94d518f8246af090c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 129/245] fix: BinexData::reverseBuffer reverses every byte
 asked for

---
 core/lib/FileHandling/Binex/BinexData.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 8ccefc7..2fc7b9e 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1692,26 +1692,29 @@ namespace gpstk
       if (n < 2)
          return;  // Nothing to do
 
-      if (offset >= buffer.size() )
+      if (offset > buffer.size() )
       {
          FFStreamError err("Invalid offset reversing BINEX data buffer");
          GPSTK_THROW(err);
       }
-      size_t back = (n == std::string::npos) ? buffer.size() - 1: offset + n;
-      if (back >= buffer.size() )
+      if (n == std::string::npos)
+      {
+         n = buffer.size() - offset;
+      }
+      size_t back = offset + n;
+      if (back > buffer.size() )
       {
          FFStreamError err("Invalid size reversing BINEX data buffer");
          GPSTK_THROW(err);
       }
-      --back;
       unsigned char tmp;
-      while (offset < back)
+      while (offset + 1 < back)
       {
+         --back;
          tmp            = buffer[offset];
          buffer[offset] = buffer[back];
          buffer[back]   = tmp;
          ++offset;
-         --back;
       }
    }
 
-- 
2.43.0


From 22ebd4965ff2ceda3771890db18d8d89dd3d67bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 130/245] fix: BinexData::getRecord consumes the tail of a
 reverse readable record

---
 core/lib/FileHandling/Binex/BinexData.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 2fc7b9e..bddd0dc 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1353,6 +1353,25 @@ namespace gpstk
                FFStreamError err("Bad BINEX CRC");
                GPSTK_THROW(err);
             }
+
+            if (syncByte & eReverseReadable)
+            {
+                  // Consume the trailing record length and sync byte
+               UBNXI recLen(1 + crcBuf.size() + msgLen + crcLen);
+               std::string expectedTail;
+               recLen.encode(expectedTail, 0, littleEndian);
+               reverseBuffer(expectedTail);
+               expectedTail.append(1, expectedSyncByte);
+
+               char tail[5];
+               strm.read(tail, expectedTail.size());
+               if (!strm.good() || expectedTail.compare(0, std::string::npos,
+                                                        tail, strm.gcount()) )
+               {
+                  FFStreamError err("Bad BINEX record tail");
+                  GPSTK_THROW(err);
+               }
+            }
          }
          else if (isTailSyncByteValid(syncBuf, expectedSyncByte) )
          {
-- 
2.43.0


From f9061db406aa0c8838b9a7578d5edf2b09c1c884 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 131/245] fix: BinexData::getRecord reads reversed records

---
 core/lib/FileHandling/Binex/BinexData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index bddd0dc..5002ed3 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1391,9 +1391,9 @@ namespace gpstk
                GPSTK_THROW(err);
             }
             std::string revRecBuf( (char*)&revRecVec[0], revRecSize);
-            reverseBuffer(revRecBuf, revRecSize);
+            reverseBuffer(revRecBuf);
 
-            if (revRecBuf[0] != expectedSyncByte)
+            if ((SyncByte)revRecBuf[0] != expectedSyncByte)
             {
                FFStreamError err("BINEX head/tail synchronization byte mismatch");
                GPSTK_THROW(err);
-- 
2.43.0


From b84ee196ff58db3c41e7cd4baa0918d487fc57e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 132/245] fix: BinexData::getRecord refuses a reversed record
 of no bytes

---
 core/lib/FileHandling/Binex/BinexData.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 5002ed3..1e8e47f 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1383,6 +1383,11 @@ namespace gpstk
             unsigned long revRecSize = (unsigned long)b;
 
                // Read the entire remainder of the record into memory
+            if (revRecSize < 1)
+            {
+               FFStreamError err("Invalid BINEX reverse record length");
+               GPSTK_THROW(err);
+            }
             std::vector<char>  revRecVec(revRecSize);
             strm.read( (char*)&revRecVec[0], revRecSize);
             if (!strm.good() || ((unsigned long)strm.gcount() != revRecSize) )
-- 
2.43.0


From 045a6df37c6fe8248ae36516c7143cdbe5ab47a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 133/245] fix: BinexData constructor reports an invalid record
 ID instead of terminating

---
 core/lib/FileHandling/Binex/BinexData.cpp | 1 -
 core/lib/FileHandling/Binex/BinexData.hpp | 3 +--
 2 files changed, 1 insertion(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 1e8e47f..f372941 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -934,7 +934,6 @@ namespace gpstk
    // -------------------------------------------------------------------------
    BinexData::BinexData(RecordID recordID,
                         SyncByte recordFlags)
-      throw()
    {
       setRecordFlags(recordFlags);
       setRecordID(recordID);
diff --git a/core/lib/FileHandling/Binex/BinexData.hpp b/core/lib/FileHandling/Binex/BinexData.hpp
index 66cf630..8cd1b7b 100644
--- a/core/lib/FileHandling/Binex/BinexData.hpp
+++ b/core/lib/FileHandling/Binex/BinexData.hpp
@@ -489,8 +489,7 @@ namespace gpstk
           * Convenience constructor
           */
       BinexData(RecordID recordID,
-                SyncByte recordFlags = DEFAULT_RECORD_FLAGS)
-         throw();
+                SyncByte recordFlags = DEFAULT_RECORD_FLAGS);
 
          /**
           * Copies another BinexData object.
-- 
2.43.0


From 711ac0f75ea3ab224e620558aa1daf411a44d0e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 134/245] fix: BinexData::getRecord does not index the buffer
 of an empty message

---
 core/lib/FileHandling/Binex/BinexData.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index f372941..02735bb 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1328,13 +1328,13 @@ namespace gpstk
                // The vector's memory will be reclaimed in all exit conditions
                // since the vector is allocated on the stack.
             std::vector<char>  msgBuf(msgLen);
-            strm.read((char*)&msgBuf[0], msgLen);
+            strm.read(msgBuf.data(), msgLen);
             if (!strm.good() || ((unsigned long)strm.gcount() != msgLen) )
             {
                FFStreamError err("Incomplete BINEX record message");
                GPSTK_THROW(err);
             }
-            msg.assign((char*)&msgBuf[0], msgLen);
+            msg.assign(msgBuf.data(), msgLen);
 
                // Check CRC - first calculate expected, then read actual,
                // then compare.
-- 
2.43.0


From a16fac9bbcb751c7f03bbe6d9485badc6bf1cdf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 135/245] fix: BinexData::getRecord reports the end of a stream
 that does not throw

---
 core/lib/FileHandling/Binex/BinexData.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 02735bb..1c51817 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1288,6 +1288,16 @@ namespace gpstk
       {
          stpos = endpos = strm.tellg();
          strm.read((char*)&syncBuf, 1);  // Read synchronization byte
+         if (strm.gcount() != 1)
+         {
+               // the stream does not throw by itself
+            EndOfFile err("EOF encountered");
+            GPSTK_THROW(err);
+         }
+      }
+      catch (EndOfFile &e)
+      {
+         GPSTK_RETHROW(e);
       }
       catch (std::exception &e)
       {
-- 
2.43.0


From 5adc8071709ea7040925f119094308c008c34e81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 136/245] fix: BinexData::extractMessageData uses only the
 bytes asked for

---
 core/lib/FileHandling/Binex/BinexData.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.hpp b/core/lib/FileHandling/Binex/BinexData.hpp
index 8cd1b7b..e00db08 100644
--- a/core/lib/FileHandling/Binex/BinexData.hpp
+++ b/core/lib/FileHandling/Binex/BinexData.hpp
@@ -852,10 +852,13 @@ namespace gpstk
             GPSTK_THROW(ip);
          }
          bool littleEndian  = ( (syncByte & eBigEndian) == 0) ? true : false;
+            // The message may hold fewer bytes than the type does
+         std::string bytes(msg, offset, size);
+         bytes.insert(littleEndian ? size : 0, sizeof(T) - size, '\0');
          if (littleEndian)
-            data = BinUtils::decodeVarLE<T>(msg, offset);
+            data = BinUtils::decodeVarLE<T>(bytes);
          else
-            data = BinUtils::decodeVar<T>(msg, offset);
+            data = BinUtils::decodeVar<T>(bytes);
          offset += size;
 
       } // BinexData::extractMessageData()
-- 
2.43.0


From 888467116d833195083b22849d90b202fe06b732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:38 +0000
Subject: [PATCH 137/245] fix: BinexData::dump writes to the stream it is given

---
 core/lib/FileHandling/Binex/BinexData.cpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 1c51817..498fc16 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -1754,16 +1754,16 @@ namespace gpstk
    // -------------------------------------------------------------------------
    void BinexData::dump(ostream& s) const
    {
-      std::cout << "RecordID:    " << recID     << std::endl;
-      std::cout << "SyncByte:    " << (unsigned short)syncByte << std::endl;
-      std::cout << "MessageLen:  " << msg.size() << std::endl;
-      std::cout << "MessageData: " << std::endl;
+      s << "RecordID:    " << recID     << std::endl;
+      s << "SyncByte:    " << (unsigned short)syncByte << std::endl;
+      s << "MessageLen:  " << msg.size() << std::endl;
+      s << "MessageData: " << std::endl;
       for (size_t i = 0; i < msg.size(); i++)
       {
-         unsigned short s = msg[i];
-         std::cout << s << " ";
+         unsigned short v = (unsigned char)msg[i];
+         s << v << " ";
       }
-      std::cout << std::endl;
+      s << std::endl;
    }
 
 
-- 
2.43.0


From 3f35b7954fb06a2c4250ed3f02f5d3c67c5dd422 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:10:39 +0000
Subject: [PATCH 138/245] fix: MGFZI::encode stores the value 8 in big endian
 order

---
 core/lib/FileHandling/Binex/BinexData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/Binex/BinexData.cpp b/core/lib/FileHandling/Binex/BinexData.cpp
index 498fc16..07ebd0c 100644
--- a/core/lib/FileHandling/Binex/BinexData.cpp
+++ b/core/lib/FileHandling/Binex/BinexData.cpp
@@ -656,7 +656,7 @@ namespace gpstk
             {
                uc = (signBit << 3) | (0xf0 & ( (unsigned char)absValue << 4) );
             }
-            if (uc == 0x08)
+            if (uc == (littleEndian ? 0x08 : 0x80))
             {
                   // A valid value has been rounded to "-0"; convert to "+0".
                uc = 0x00;
-- 
2.43.0


From 8c67faa7d7144fa0694f0c28ba319918006048f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 139/245] fix: HelmertTransform refuses vectors of fewer than
 three elements

---
 core/lib/RefTime/HelmertTransform.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/RefTime/HelmertTransform.hpp b/core/lib/RefTime/HelmertTransform.hpp
index 25f9bc8..ed2c5fd 100644
--- a/core/lib/RefTime/HelmertTransform.hpp
+++ b/core/lib/RefTime/HelmertTransform.hpp
@@ -106,7 +106,7 @@ namespace gpstk
       void transform(const Vector<double>& vec, const ReferenceFrame& frame,
                      Vector<double>& result)
       {
-         if(vec.size() > 3) {
+         if(vec.size() != 3) {
             InvalidRequest e("Input Vector is not of length 3");
             GPSTK_THROW(e);
          }
-- 
2.43.0


From f5b2a35909d78caabf39d3dfa13cc9983c84a943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 140/245] fix: HelmertTransform of an Xvt records the frame of
 the result

---
 core/lib/RefTime/HelmertTransform.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/RefTime/HelmertTransform.hpp b/core/lib/RefTime/HelmertTransform.hpp
index ed2c5fd..bfc7a3f 100644
--- a/core/lib/RefTime/HelmertTransform.hpp
+++ b/core/lib/RefTime/HelmertTransform.hpp
@@ -154,6 +154,7 @@ namespace gpstk
             result.x[0] = res[0];
             result.x[1] = res[1];
             result.x[2] = res[2];
+            result.frame = res.getReferenceFrame();
          }
          catch(Exception& e) { GPSTK_RETHROW(e); }
       }
-- 
2.43.0


From a4773f6b13f00871955f38c05a462c2fac84c72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:12:57 +0000
Subject: [PATCH 141/245] fix: HelmertTransform of an Xvt transforms the
 velocity too

---
 core/lib/RefTime/HelmertTransform.hpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/core/lib/RefTime/HelmertTransform.hpp b/core/lib/RefTime/HelmertTransform.hpp
index bfc7a3f..061e822 100644
--- a/core/lib/RefTime/HelmertTransform.hpp
+++ b/core/lib/RefTime/HelmertTransform.hpp
@@ -150,7 +150,19 @@ namespace gpstk
             Position pos(xvt.x, Position::Cartesian), res;
             pos.setReferenceFrame(xvt.frame);
             transform(pos, res);
+
+               // the velocity is rotated and scaled, but not translated
+            Vector<double> vel(3), rvel;
+            for(int i=0; i<3; i++)
+               vel(i) = xvt.v[i];
+            if(xvt.frame == fromFrame)
+               rvel = Rotation*vel + Scale*vel;
+            else
+               rvel = transpose(Rotation) * (vel - Scale*vel);
+
             result = xvt;
+            for(int i=0; i<3; i++)
+               result.v[i] = rvel(i);
             result.x[0] = res[0];
             result.x[1] = res[1];
             result.x[2] = res[2];
-- 
2.43.0


From 606fc879994a4ad865e128e7f7818f457661117c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 142/245] fix: ORDEpoch::applyClockModel lets the exceptions of
 the model out instead of terminating

---
 core/lib/ClockModel/ORDEpoch.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/ClockModel/ORDEpoch.hpp b/core/lib/ClockModel/ORDEpoch.hpp
index ce50612..5f028a8 100644
--- a/core/lib/ClockModel/ORDEpoch.hpp
+++ b/core/lib/ClockModel/ORDEpoch.hpp
@@ -72,7 +72,7 @@ namespace gpstk
          return *this;
       }
    
-      ORDEpoch& applyClockModel(const ClockModel& cm) throw()
+      ORDEpoch& applyClockModel(const ClockModel& cm)
       {
          if (cm.isOffsetValid(time))
          {
-- 
2.43.0


From 6040367e605d6dc2a3e845865342d2898181ea0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:02 +0000
Subject: [PATCH 143/245] fix: LinearClockModel::dump of a model without epochs

---
 core/lib/ClockModel/LinearClockModel.cpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/lib/ClockModel/LinearClockModel.cpp b/core/lib/ClockModel/LinearClockModel.cpp
index 5b09d21..779d88f 100644
--- a/core/lib/ClockModel/LinearClockModel.cpp
+++ b/core/lib/ClockModel/LinearClockModel.cpp
@@ -162,10 +162,13 @@ namespace gpstk
            << endl;
 
          map<CommonTime,SvStatusMap>::const_iterator e = prnStatus.find(endTime);
-         const SvStatusMap& statusMap = e->second;
-         SvStatusMap::const_iterator i;
-         for ( i=statusMap.begin(); i!= statusMap.end(); i++)
-            s << i->first << "/" << i->second << " ";
+         if (e != prnStatus.end())
+         {
+            const SvStatusMap& statusMap = e->second;
+            SvStatusMap::const_iterator i;
+            for ( i=statusMap.begin(); i!= statusMap.end(); i++)
+               s << i->first << "/" << i->second << " ";
+         }
          s << endl;
       }
    }
-- 
2.43.0


From 450fe93a77bb9f7a3f259a0eb6c4452a958779cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 144/245] fix: FileSpec::newSpec forgets the fields of the
 previous specification

---
 core/lib/FileDirProc/FileSpec.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 8712092..a5bef03 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -411,6 +411,7 @@ namespace gpstk
       try
       {
          fileSpecList.clear();
+         fileSpecSet.clear();
          fileSpecString.clear();
 
          fileSpecString = fileSpec;
-- 
2.43.0


From 842191ec14b70579138047bcd8827b358f589cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 145/245] fix: FileSpec::sortList compares the file names, not
 the paths

---
 core/lib/FileDirProc/FileSpec.cpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index a5bef03..8161ad0 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -73,7 +73,10 @@ namespace gpstk
       const
    {
          // This sort operator compares all fields in the order
-         // defined in the FileSpecType enum.
+         // defined in the FileSpecType enum.  Only the file names are
+         // compared, not the directories they're in.
+      std::string lname(l.substr(l.rfind(slash) + 1));
+      std::string rname(r.substr(r.rfind(slash) + 1));
       for(FileSpecType fst = FileSpecType(unknown+1); fst < end; fst++)
       {
          if (fileSpec.hasField(fst))
@@ -84,8 +87,10 @@ namespace gpstk
                std::string::size_type numCh = fileSpec.fileSpecList[i].numCh;
                if (fileSpec.fileSpecList[i].type == fst)
                {
-                  std::string lsub(l.substr(offset, numCh));
-                  std::string rsub(r.substr(offset, numCh));
+                  std::string lsub(
+                     lname.substr(std::min(offset, lname.size()), numCh));
+                  std::string rsub(
+                     rname.substr(std::min(offset, rname.size()), numCh));
                   if (((sortDir == ascending) && (lsub < rsub)) ||
                       ((sortDir == descending) && (lsub > rsub)))
                   {
-- 
2.43.0


From 2dc0967829bd4c360bba378d3ef28d3dda68e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 146/245] fix: FileSpec::sortList keeps the latest version of
 each file in either sort order

---
 core/lib/FileDirProc/FileSpec.cpp | 78 +++++++++++++------------------
 1 file changed, 33 insertions(+), 45 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 8161ad0..373c590 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -333,63 +333,51 @@ namespace gpstk
       FileSpecSort q(*this, fsst);
       stable_sort(fileList.begin(), fileList.end(), q);
 
-         // to filter out versions, generate a list of the version FSEs first
-         // and copy the file list.  then make a map of the file name without
-         // the version field to the name with the version field. since its
-         // sorted, the highest version will be the last one set and the map
-         // will only have the latest versions...
-         // 
+         // to filter out versions, go through the sorted list and find
+         // the highest version of each file, i.e. of each name without
+         // the version field, in each directory.  Then keep only the
+         // files with the highest version, in the sorted order.
+         //
          // ex.  a1a a2a a3a a4a a5a     file spec: a%1va
-         // copyOfFileList after versions removed:  aa aa aa aa aa
-         // versionMap[aa] = a1a then a2a, a3a, a4a, and finally a5a
-         // 
+         // names after versions removed:  aa aa aa aa aa
+         // versionMap[aa] = 5, so only a5a is kept
+         //
          // note that this only handles 1 version field right now, not that
          // it couldnt do more but it gets very difficult...
 
-         // filter out older versions here
       if (hasField(version))
       {
-            // copy the file list
-         vector<string> copyOfFileList = fileList;
-
-            // find all the version elements in this file spec
+            // find the (first) version element in this file spec
          vector<FileSpecElement>::const_iterator itr = fileSpecList.begin();
-         vector<FileSpecElement> versionVec;
-         while (itr != fileSpecList.end())
-         {
-            if ((*itr).type == version)
-               versionVec.push_back(*itr);
+         while ((*itr).type != version)
             itr++;
-         }
-            // remove the version fields from the copied list, but only for the
-            // last directory/file entry in this name
-         vector<string>::size_type index;
-         for (index = 0; index < copyOfFileList.size(); index++)
+            // separate the version fields from the names
+         vector<pair<string,string> > nameVer;
+         map<string, string> versionMap;
+         for (vector<string>::size_type i = 0; i < fileList.size(); i++)
          {
-            string::size_type slashpos = copyOfFileList[index].rfind(slash);
-            if (slashpos != string::npos)
-               copyOfFileList[index].erase(0, slashpos + 1);
-            copyOfFileList[index].erase(versionVec[0].offset,
-                                        versionVec[0].numCh);
+            string name(fileList[i]), ver;
+            string::size_type pos = name.rfind(slash) + 1 + (*itr).offset;
+            if (pos < name.size())
+            {
+               ver = name.substr(pos, (*itr).numCh);
+               name.erase(pos, (*itr).numCh);
+            }
+            nameVer.push_back(make_pair(name, ver));
+            string& highest(versionMap[name]);
+            highest = std::max(highest, ver);
          }
-
-            // now make one more pass on the copied list. whenever two strings
-            // match, go to the original list and compare the version numbers.
-            // erase the lower version. 
-
-            // FIX: this will only compare the first version field encountered.
-            // it could be changed to do more, but it's not essential now...
-         map<string, string> versionMap;
-         for (index = 0; index < copyOfFileList.size(); index++)
-            versionMap[copyOfFileList[index]] = fileList[index];
-
-         fileList.erase(fileList.begin(), fileList.end());
-         map<string, string>::iterator mapitr = versionMap.begin();
-         while (mapitr != versionMap.end())
+         vector<string> latest;
+         for (vector<string>::size_type i = 0; i < fileList.size(); i++)
          {
-            fileList.push_back((*mapitr).second);
-            mapitr++;
+            map<string,string>::iterator vmi = versionMap.find(nameVer[i].first);
+            if ((vmi != versionMap.end()) && (vmi->second == nameVer[i].second))
+            {
+               latest.push_back(fileList[i]);
+               versionMap.erase(vmi);
+            }
          }
+         fileList = latest;
       }
    }
 
-- 
2.43.0


From de6e5c52b0a78d16bdff492a4df85698b1c29bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 147/245] fix: FileSpec::extractField of a name that is too
 short throws FileSpecException

---
 core/lib/FileDirProc/FileSpec.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 373c590..f8647c2 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -236,6 +236,12 @@ namespace gpstk
             // found it - get the substring and return
          if ((*itr).type == fst)
          {
+            if ((*itr).offset > filename.size())
+            {
+               FileSpecException fse("File name doesn't have the field: " +
+                                     convertFileSpecType(fst));
+               GPSTK_THROW(fse);
+            }
             return filename.substr((*itr).offset, (*itr).numCh);
          }
 
-- 
2.43.0


From ef157205e5d8adfe45be1d37a7fa06c5cf05cbe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 148/245] fix: FileSpecFind uses the width of the selected
 value for %t

---
 core/lib/FileDirProc/FileSpecFind.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 44694f8..7297c57 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -256,7 +256,7 @@ namespace gpstk
          selLen = 1;
       }
       string selTok = gpstk::FileSpec::convertFileSpecType(fsSel);
-      string selLenS = gpstk::StringUtils::asString(textLen);
+      string selLenS = gpstk::StringUtils::asString(selLen);
          // Just change the arbitrary text token to the value we have,
          // since there's at most one value to match.
       gpstk::StringUtils::change(spec, "%"+textTok, dummyFSTS[fsType]);
-- 
2.43.0


From d93be9116faa7c553b5a11304f45d282973574b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 149/245] fix: FileSpecFind checks the times of file specs
 without a directory

---
 core/lib/FileDirProc/FileSpecFind.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 7297c57..31c5a89 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -498,8 +498,7 @@ namespace gpstk
       string::size_type stokpos = spec.find('%', pos);
          // find the beginning of the remaining path (subdirectory or
          // file within the directory starting at stokpos)
-      string::size_type stoppos = min(
-         stokpos, spec.find_last_of(PATH_SEP_STRING, stokpos));
+      string::size_type stoppos = spec.find_last_of(PATH_SEP_STRING, stokpos);
          // srest is the first character of the "rest" of the path
          // i.e. lower depths in the tree.
       string::size_type srest =
@@ -524,7 +523,8 @@ namespace gpstk
          // check upper level directories against the filter, or time
          // range if there are no time-related spec types at this
          // level, as they will have already been checked.
-      string currentSpec = thisSpec.substr(stoppos+1);
+      string currentSpec = thisSpec.substr(
+         stoppos == string::npos ? 0 : stoppos+1);
       FileSpec currentSpecScanner(currentSpec);
       bool checkTime = currentSpecScanner.hasTimeField();
 
-- 
2.43.0


From 07771eaccfbab09c5e4dc6e9c0cf4ae47d0f8a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 150/245] fix: FileSpecFind finds the last file and directory
 that start before the end time

---
 core/lib/FileDirProc/FileSpecFind.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/lib/FileDirProc/FileSpecFind.cpp b/core/lib/FileDirProc/FileSpecFind.cpp
index 31c5a89..050ddcc 100644
--- a/core/lib/FileDirProc/FileSpecFind.cpp
+++ b/core/lib/FileDirProc/FileSpecFind.cpp
@@ -543,6 +543,12 @@ namespace gpstk
             // by adding 1/10th of a second to "to" if from and to are the same
          if (toTimeMatch == fromTimeMatch)
             toTimeMatch += 0.1;
+            // When "to" isn't on a boundary of the granularity at this
+            // level, the last file/directory starts before "to".
+         gpstk::CommonTime toTimeCheck(toTimeMatch);
+         toTimeCheck.setTimeSystem(toTime.getTimeSystem());
+         if (toTimeCheck < toTime)
+            toTimeMatch += 0.1;
       }
 
          // Find all the files that match the pattern at this level.
-- 
2.43.0


From 9664c425dd4b49ca6a8ca83987f9c536f966de98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:26:51 +0000
Subject: [PATCH 151/245] fix: FileHunter searches the previous year when the
 chunk starts in it

---
 core/lib/FileDirProc/FileHunter.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileHunter.cpp b/core/lib/FileDirProc/FileHunter.cpp
index 93a0ef1..503fed6 100644
--- a/core/lib/FileDirProc/FileHunter.cpp
+++ b/core/lib/FileDirProc/FileHunter.cpp
@@ -198,7 +198,7 @@ namespace gpstk
 
          // Set min and max years for progressive coarse time filtering
       int minY, maxY;
-      YDSTime tmpStart(start);
+      YDSTime tmpStart(exStart);
       YDSTime tmpEnd(end);
       minY = tmpStart.year;
       maxY = tmpEnd.year;
-- 
2.43.0


From d8a8a6bbf588aee7614c9e5952252d5fe2da42d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:13 +0000
Subject: [PATCH 152/245] fix: FileSpec::sortList with directories in the file
 spec

---
 core/lib/FileDirProc/FileSpec.cpp | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index f8647c2..5c2b0e6 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -74,9 +74,14 @@ namespace gpstk
    {
          // This sort operator compares all fields in the order
          // defined in the FileSpecType enum.  Only the file names are
-         // compared, not the directories they're in.
-      std::string lname(l.substr(l.rfind(slash) + 1));
-      std::string rname(r.substr(r.rfind(slash) + 1));
+         // compared, not the directories they're in, unless the
+         // directories are part of the file spec.
+      std::string lname(l), rname(r);
+      if (fileSpec.fileSpecString.find(slash) == std::string::npos)
+      {
+         lname.erase(0, l.rfind(slash) + 1);
+         rname.erase(0, r.rfind(slash) + 1);
+      }
       for(FileSpecType fst = FileSpecType(unknown+1); fst < end; fst++)
       {
          if (fileSpec.hasField(fst))
@@ -363,7 +368,9 @@ namespace gpstk
          for (vector<string>::size_type i = 0; i < fileList.size(); i++)
          {
             string name(fileList[i]), ver;
-            string::size_type pos = name.rfind(slash) + 1 + (*itr).offset;
+            string::size_type pos = (*itr).offset;
+            if (fileSpecString.find(slash) == string::npos)
+               pos += name.rfind(slash) + 1;
             if (pos < name.size())
             {
                ver = name.substr(pos, (*itr).numCh);
-- 
2.43.0


From 039eca2c31e1c646e8e03c7971dbd0aeb3d965b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 153/245] fix: FileSpec handles the left-justified field widths
 it accepts

---
 core/lib/FileDirProc/FileSpec.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 5c2b0e6..249ec38 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -492,6 +492,9 @@ namespace gpstk
                   numChs = 4;
                fs.erase(0,1);
                
+                  // a negative width means left-justified
+               if (numChs < 0)
+                  numChs = -numChs;
                FileSpecElement fse(numChs, offset, fst, atom);
                fileSpecList.push_back(fse);
                fileSpecSet.insert(fst);
-- 
2.43.0


From aa6b524b3fa645c68c57d6b7927b99c3dea6277d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 154/245] fix: FileSpec::toString of seconds and MJD fits the
 width of the field

---
 core/lib/FileDirProc/FileSpec.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 249ec38..6149f26 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -325,6 +325,26 @@ namespace gpstk
                   rightJustify((*fstsItr).second, (*fslItr).numCh, '0');
             }
          }
+         else if (((*fslItr).type == fsecond) || ((*fslItr).type == gpssecond) ||
+                  ((*fslItr).type == mjd) || ((*fslItr).type == doysecond))
+         {
+               // These are printed with a fraction of seven characters.
+               // If the field is too narrow for it, truncate to
+               // whole numbers, otherwise the name wouldn't match
+               // the file spec.
+            string value = printTime(dt, (*fslItr).field);
+            string::size_type width = (*fslItr).numCh;
+            if (value.size() > width)
+            {
+               string wide((*fslItr).field);
+               string::size_type wpos = wide.find_first_not_of("%0");
+               wide = wide.substr(0, wpos) + asString(width + 7) +
+                  wide.substr(wide.size() - 1);
+               value = printTime(dt, wide);
+               value.erase(value.size() - 7);
+            }
+            toReturn += value;
+         }
          else
          {
             toReturn += (*fslItr).field;
-- 
2.43.0


From 6961138af60cf3244e031cd4e997cc3fc4114db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 155/245] fix: FileSpec::extractCommonTime reads %Y as four
 characters

---
 core/lib/FileDirProc/FileSpec.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileDirProc/FileSpec.cpp b/core/lib/FileDirProc/FileSpec.cpp
index 6149f26..c76b11f 100644
--- a/core/lib/FileDirProc/FileSpec.cpp
+++ b/core/lib/FileDirProc/FileSpec.cpp
@@ -266,7 +266,10 @@ namespace gpstk
       try
       {
          CommonTime dt;
-         mixedScanTime(dt, filename, fileSpecString);
+            // %Y has a width of four characters in a FileSpec
+         string format(fileSpecString);
+         change(format, "%Y", "%4Y");
+         mixedScanTime(dt, filename, format);
          return dt;
       }
       catch(Exception& exc)
-- 
2.43.0


From 1c47ba3a3f5e1cad6e7a97ec96db52176c252c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:21 +0000
Subject: [PATCH 156/245] fix: FileHunter::find accepts times in any time
 system

---
 core/lib/FileDirProc/FileHunter.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/FileDirProc/FileHunter.cpp b/core/lib/FileDirProc/FileHunter.cpp
index 503fed6..92344f0 100644
--- a/core/lib/FileDirProc/FileHunter.cpp
+++ b/core/lib/FileDirProc/FileHunter.cpp
@@ -292,6 +292,8 @@ namespace gpstk
          for (unsigned i = 0; i < toReturn.size(); i++)
          {
             CommonTime fileTime = fullSpec.extractCommonTime(toReturn[i]);
+               // the file names don't tell the time system
+            fileTime.setTimeSystem(start.getTimeSystem());
             if ((fileTime >= exStart) && (fileTime <= end))
             {
                filtered.push_back(toReturn[i]);
-- 
2.43.0


From c4e896a99d90e63b3df0953f6295d8487f6b03da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 157/245] fix: SimplePRSolution ignores satellites of
 disallowed systems instead of writing out of bounds

---
 core/lib/PosSol/PRSolution.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index d0931d2..fc25336 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -247,8 +247,10 @@ namespace gpstk
             iMC = Matrix<double>(Nsvs,Nsvs,0.0);
             for(n=0,i=0; i<Sats.size(); i++) {
                if(Sats[i].id <= 0) continue;
+               if(vectorindex(currGNSS, Sats[i].system) == -1) continue;
                for(k=0,j=0; j<Sats.size(); j++) {
                   if(Sats[j].id <= 0) continue;
+                  if(vectorindex(currGNSS, Sats[j].system) == -1) continue;
                   iMC(n,k) = invMC(i,j);
                   ++k;
                }
@@ -301,8 +303,9 @@ namespace gpstk
 
             // loop over satellites, computing partials matrix
             for(n=0,i=0; i<Sats.size(); i++) {
-               // ignore marked satellites
+               // ignore marked satellites and disallowed systems
                if(Sats[i].id <= 0) continue;
+               if(vectorindex(currGNSS, Sats[i].system) == -1) continue;
 
                // ------------ ephemeris
                // rho is time of flight (sec)
@@ -445,6 +448,7 @@ namespace gpstk
          Slopes = 0.0;
          if(iret == 0) for(j=0,i=0; i<Sats.size(); i++) {
             if(Sats[i].id <= 0) continue;
+            if(vectorindex(currGNSS, Sats[i].system) == -1) continue;
 
             // NB when one (few) sats have their own clock, PG(j,j) = 1 (nearly 1)
             // and slope is inf (large)
-- 
2.43.0


From 54957346e1403e87c0860824edbe15f7536a42d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 158/245] fix: SimplePRSolution computes the slopes of the
 satellites after one with an undefined slope

---
 core/lib/PosSol/PRSolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index fc25336..1ed308a 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -452,7 +452,7 @@ namespace gpstk
 
             // NB when one (few) sats have their own clock, PG(j,j) = 1 (nearly 1)
             // and slope is inf (large)
-            if(::fabs(1.0-PG(j,j)) < 1.e-8) continue;
+            if(::fabs(1.0-PG(j,j)) < 1.e-8) { j++; continue; }
 
             for(int k=0; k<dim; k++) Slopes(j) += G(k,j)*G(k,j); // TD dim=4 here?
             Slopes(j) = SQRT(Slopes(j)*double(n-dim)/(1.0-PG(j,j)));
-- 
2.43.0


From 267c65d3578a188c55ad1117845eecc13a600875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 159/245] fix: SimplePRSolution does not read clocks beyond the
 a priori solution

---
 core/lib/PosSol/PRSolution.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index 1ed308a..e5d35f9 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -283,7 +283,8 @@ namespace gpstk
             for(i=0; i<3; i++) localAPSol[i] = APSolution[i];
             for(i=0; i<currGNSS.size(); i++) {
                k = vectorindex(allowedGNSS,currGNSS[i]);
-               localAPSol[3+i] = (k == -1 ? 0.0 : APSolution[3+k]);
+               localAPSol[3+i] = (k == -1 || size_t(3+k) >= APSolution.size()
+                                  ? 0.0 : APSolution[3+k]);
             }
             //LOG(INFO) << " apriori solution (" << APSolution.size() << ") is [ "
             //   << fixed << setprecision(3) << APSolution << " ]";
-- 
2.43.0


From 70bd610e48db34ccb3165d4a2f856fc8e907e8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 160/245] fix: PRSolution::updateAPSolution does not read
 clocks beyond the a priori solution

---
 core/lib/PosSol/PRSolution.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lib/PosSol/PRSolution.hpp b/core/lib/PosSol/PRSolution.hpp
index e9eca4d..eceadb5 100644
--- a/core/lib/PosSol/PRSolution.hpp
+++ b/core/lib/PosSol/PRSolution.hpp
@@ -583,7 +583,10 @@ namespace gpstk
             S(i) = (fixedAPriori ? fixedAPrioriPos[i] : Sol(i));
          for(i=0; i<allowedGNSS.size(); i++) {
             k = vectorindex(dataGNSS,allowedGNSS[i]);
-            S(3+i) = (k == -1 ? APSolution[3+i] : Sol[3+k]);
+            if(k != -1)
+               S(3+i) = Sol[3+k];
+            else if(3+i < APSolution.size())
+               S(3+i) = APSolution[3+i];
          }
 
          APSolution = S;
-- 
2.43.0


From 59145cb9e747610021ed2d25bca6e8a0c6ab31eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 161/245] fix: PRSolution initializes the degrees of freedom

---
 core/lib/PosSol/PRSolution.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/PosSol/PRSolution.hpp b/core/lib/PosSol/PRSolution.hpp
index eceadb5..e57f602 100644
--- a/core/lib/PosSol/PRSolution.hpp
+++ b/core/lib/PosSol/PRSolution.hpp
@@ -222,7 +222,7 @@ namespace gpstk
                       ConvergenceLimit(3.e-7),
                       hasMemory(true),
                       fixedAPriori(false),
-                      nsol(0), ndata(0), APV(0.0),
+                      nsol(0), ndata(0), ndof(0), APV(0.0),
                       Valid(false)
          {
             was.reset();
-- 
2.43.0


From 8645d804d21af0d3bdf4dd1f2a5063f010c85717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 162/245] fix: SimplePRSolution reports a singular problem

---
 core/lib/PosSol/PRSolution.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index e5d35f9..c6425d0 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -274,8 +274,9 @@ namespace gpstk
 
          // prepare for iteration loop
          // iterate at least twice so that trop model gets evaluated
+         const double svTol(1.e-8);       // tolerance for the inversion
          int n_iterate(0), niter_limit(niterLimit < 2 ? 2 : niterLimit);
-         double converge(0.0);
+         double converge(0.0),bigSV(0.0),smallSV(0.0);
 
          // start with solution = apriori, cut down to match current dimension
          Vector<double> localAPSol(dim,0.0);
@@ -403,7 +404,7 @@ namespace gpstk
 
             // invert using SVD
             try {
-               Covariance = inverseSVD(Covariance);
+               Covariance = inverseSVD(Covariance, bigSV, smallSV, svTol);
             }
             catch(SingularMatrixException& sme) { return -2; }
             LOG(DEBUG) << "InvCov (" << Covariance.rows() << "x" << Covariance.cols()
@@ -441,6 +442,9 @@ namespace gpstk
          } while(1);    // end iteration loop
          LOG(DEBUG) << "Out of iteration loop";
 
+         // singular values were edited, so the solution is meaningless
+         if(smallSV < svTol*bigSV) return -2;
+
          if(TropFlag) LOG(DEBUG) << "Trop correction not applied at time "
                                  << printTime(T,timfmt);
 
-- 
2.43.0


From 75af72c1c6851660b3bab403fb87a1f44bb4cc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:38 +0000
Subject: [PATCH 163/245] fix: a PRSolution that did not converge is not valid

---
 core/lib/PosSol/PRSolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index c6425d0..2cf4539 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -483,7 +483,7 @@ namespace gpstk
          Partials = P;
          NIterations = n_iterate;
          Convergence = converge;
-         Valid = true;
+         Valid = (iret == 0);
 
          return iret;
       
-- 
2.43.0


From 062c315b2bc425774686c227a67bc916d3e757c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 164/245] fix: PRSolution accepts a solution with zero
 residuals

---
 core/lib/PosSol/PRSolution.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/PosSol/PRSolution.cpp b/core/lib/PosSol/PRSolution.cpp
index 2cf4539..fb7a582 100644
--- a/core/lib/PosSol/PRSolution.cpp
+++ b/core/lib/PosSol/PRSolution.cpp
@@ -692,7 +692,7 @@ namespace gpstk
             } while(Combo.Next() != -1);  // get the next combinations and repeat
 
             // end of the stage
-            if(BestRMS > 0.0 && BestRMS < RMSLimit) {          // success
+            if(BestRMS >= 0.0 && BestRMS < RMSLimit) {          // success
                LOG(DEBUG) << " RAIM: Success in the RAIM loop";
                iret = 0;
                break;
-- 
2.43.0


From b8a37298d214185bf5d6fbeb3c6abb9b105d9396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:45 +0000
Subject: [PATCH 165/245] fix: Bancroft needs four satellites also without
 input tests

---
 ext/lib/PosSol/Bancroft.cpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/ext/lib/PosSol/Bancroft.cpp b/ext/lib/PosSol/Bancroft.cpp
index e13260e..45389ac 100644
--- a/ext/lib/PosSol/Bancroft.cpp
+++ b/ext/lib/PosSol/Bancroft.cpp
@@ -114,12 +114,8 @@ namespace gpstk
 
             }
 
-               // Let's redefine "N" and check if we have enough data rows
-               // left in a single step
-            if( (N = B.rows()) < 4 )
-            {
-               return -1;  // We need at least 4 data rows
-            }
+               // Let's redefine "N"
+            N = B.rows();
 
          }  // End of 'if( testInput )...'
          else
@@ -129,6 +125,12 @@ namespace gpstk
             B = Data;
          }
 
+            // Check if we have enough data rows
+         if( N < 4 )
+         {
+            return -1;  // We need at least 4 data rows
+         }
+
 
          Matrix<double> BT=transpose(B);
          Matrix<double> BTBI(4,4), M(4,4,0.0);
-- 
2.43.0


From ada8a97110032e5b2c79dd5bb507b648307d7078 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 166/245] fix: satellite clock drift is the derivative of the
 clock bias

---
 core/lib/GNSSEph/BrcClockCorrection.cpp | 2 +-
 core/lib/GNSSEph/OrbElem.cpp            | 2 +-
 core/lib/GNSSEph/OrbitEph.cpp           | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/BrcClockCorrection.cpp b/core/lib/GNSSEph/BrcClockCorrection.cpp
index 2e88b50..e95f5e2 100644
--- a/core/lib/GNSSEph/BrcClockCorrection.cpp
+++ b/core/lib/GNSSEph/BrcClockCorrection.cpp
@@ -242,7 +242,7 @@ namespace gpstk
    {
       double drift,elaptc;
       elaptc = t - getEpochTime();
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbElem.cpp b/core/lib/GNSSEph/OrbElem.cpp
index fea9ded..be9e95f 100644
--- a/core/lib/GNSSEph/OrbElem.cpp
+++ b/core/lib/GNSSEph/OrbElem.cpp
@@ -167,7 +167,7 @@ namespace gpstk
       }
       double drift,elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 56d9c73..2be9fa6 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -106,7 +106,7 @@ namespace gpstk
 
       double drift, elaptc;
       elaptc = t - ctToc;
-      drift = af1 + elaptc * af2;
+      drift = af1 + 2.0 * elaptc * af2;
       return drift;
    }
 
-- 
2.43.0


From 601866cac679e3e7bb9c9b724ee598a247a66134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 167/245] fix: OrbitEph::svXvt is virtual, so stores use the
 BeiDou GEO algorithm

---
 core/lib/GNSSEph/OrbitEph.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/OrbitEph.hpp b/core/lib/GNSSEph/OrbitEph.hpp
index 637f8a3..020e383 100644
--- a/core/lib/GNSSEph/OrbitEph.hpp
+++ b/core/lib/GNSSEph/OrbitEph.hpp
@@ -126,7 +126,7 @@ namespace gpstk
           * Adot and dndot variables are appropriately set to 0.0 by the 
           * LNAV loaders.) 
           * @throw Invalid Request if the required data has not been stored. */
-      Xvt svXvt(const CommonTime& t) const;
+      virtual Xvt svXvt(const CommonTime& t) const;
 
          /** Compute satellite relativity correction (sec) at the given time
           * @throw Invalid Request if the required data has not been stored. */
-- 
2.43.0


From 2862217a7774323bcf73a5e818230c4bcb2191d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 168/245] fix: OrbitEph::svRelativity includes the rate of the
 mean motion correction

---
 core/lib/GNSSEph/OrbitEph.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 2be9fa6..8e357fe 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -275,9 +275,9 @@ namespace gpstk
 
       // Compute A at time of interest
       double Ak = A + Adot*elapte;                 // LNAV: Adot==0
-      //double dnA = dn + 0.5*dndot*elapte;          // LNAV: dndot==0
+      double dnA = dn + 0.5*dndot*elapte;          // LNAV: dndot==0
       double Ahalf = SQRT(A);
-      double amm = (sqrtgm / (A*Ahalf)) + dn;      // Eqn specifies A0 not Ak
+      double amm = (sqrtgm / (A*Ahalf)) + dnA;     // Eqn specifies A0 not Ak
       double meana,F,G,delea;
 
       meana = M0 + elapte * amm;
-- 
2.43.0


From 8987d1a32e222851f69a788c897c7f3e97f401d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 169/245] fix: OrbitEph uses the physical constants of BeiDou
 and Galileo

---
 core/lib/GNSSEph/OrbitEph.cpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/core/lib/GNSSEph/OrbitEph.cpp b/core/lib/GNSSEph/OrbitEph.cpp
index 8e357fe..6d6ca89 100644
--- a/core/lib/GNSSEph/OrbitEph.cpp
+++ b/core/lib/GNSSEph/OrbitEph.cpp
@@ -56,6 +56,7 @@
 #include "QZSWeekSecond.hpp"
 #include "GPSEllipsoid.hpp"
 #include "CGCS2000Ellipsoid.hpp"
+#include "GalileoEllipsoid.hpp"
 #include "TimeString.hpp"
 
 using namespace std;
@@ -133,8 +134,18 @@ namespace gpstk
       double xef,yef,zef,dek,dlk,div,domk,duv,drv;
       double dxp,dyp,vxef,vyef,vzef;
 
-      GPSEllipsoid ell;
-      double sqrtgm = SQRT(ell.gm());
+      // The physical constants depend on the system
+      GPSEllipsoid gell;
+      CGCS2000Ellipsoid bell;
+      GalileoEllipsoid eell;
+      EllipsoidModel *ell;
+      if (satID.system==SatelliteSystem::BeiDou)
+         ell = &bell;
+      else if (satID.system==SatelliteSystem::Galileo)
+         ell = &eell;
+      else
+         ell = &gell;
+      double sqrtgm = SQRT(ell->gm());
       double twoPI = 2.0e0 * PI;
       double lecc;            // eccentricity
       double tdrinc;          // dt inclination
@@ -206,8 +217,8 @@ namespace gpstk
       AINC = i0 + tdrinc * elapte  +  di;
 
       //  Longitude of ascending node (ANLON)
-      ANLON = OMEGA0 + (OMEGAdot - ell.angVelocity()) *
-              elapte - ell.angVelocity() * ToeSOW;
+      ANLON = OMEGA0 + (OMEGAdot - ell->angVelocity()) *
+              elapte - ell->angVelocity() * ToeSOW;
 
       // In plane location
       cosu = ::cos(U);
@@ -233,7 +244,7 @@ namespace gpstk
       dek = amm / G;
       dlk = amm * q / (G*G);
       div = tdrinc - 2.0e0 * dlk * (Cic  * s2al - Cis * c2al);
-      domk = OMEGAdot - ell.angVelocity();
+      domk = OMEGAdot - ell->angVelocity();
       duv = dlk*(1.e0+ 2.e0 * (Cus*c2al - Cuc*s2al));
       drv = Ak * lecc * dek * sinea - 2.e0 * dlk * (Crc * s2al - Crs * c2al) +
          Adot * G;
@@ -264,9 +275,12 @@ namespace gpstk
 
       GPSEllipsoid gell;
       CGCS2000Ellipsoid bell;
+      GalileoEllipsoid eell;
       EllipsoidModel *ell;
       if (satID.system==SatelliteSystem::BeiDou)
          ell = &bell;
+      else if (satID.system==SatelliteSystem::Galileo)
+         ell = &eell;
       else
          ell = &gell;
       double twoPI  = 2.0 * PI;
-- 
2.43.0


From 69b7c67f1a5df1c9122bfbb03b70c8ef86b6ade4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 170/245] fix: OrbElem uses the physical constants of Galileo

---
 core/lib/GNSSEph/OrbElem.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/GNSSEph/OrbElem.cpp b/core/lib/GNSSEph/OrbElem.cpp
index be9e95f..c11054e 100644
--- a/core/lib/GNSSEph/OrbElem.cpp
+++ b/core/lib/GNSSEph/OrbElem.cpp
@@ -43,6 +43,7 @@
 #include "OrbElem.hpp"
 #include "StringUtils.hpp"
 #include "CGCS2000Ellipsoid.hpp"
+#include "GalileoEllipsoid.hpp"
 #include "EllipsoidModel.hpp"
 #include "GPSEllipsoid.hpp"
 #include "YDSTime.hpp"
@@ -211,6 +212,8 @@ namespace gpstk
       EllipsoidModel *ell;
       if (satID.system==SatelliteSystem::BeiDou)
          ell = new CGCS2000Ellipsoid();
+      else if (satID.system==SatelliteSystem::Galileo)
+         ell = new GalileoEllipsoid();
       else
          ell = new GPSEllipsoid();
 
@@ -357,6 +360,8 @@ namespace gpstk
       EllipsoidModel *ell;
       if (satID.system==SatelliteSystem::BeiDou)
          ell = new CGCS2000Ellipsoid();
+      else if (satID.system==SatelliteSystem::Galileo)
+         ell = new GalileoEllipsoid();
       else
          ell = new GPSEllipsoid();
 
-- 
2.43.0


From 63b0557c15b2be099121ffd1f4daf98cffe57002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 171/245] fix: GloEphemeris::svClockBias computes the
 relativity correction in meters

---
 core/lib/GNSSEph/GloEphemeris.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/lib/GNSSEph/GloEphemeris.cpp b/core/lib/GNSSEph/GloEphemeris.cpp
index 3ce1885..727ccec 100644
--- a/core/lib/GNSSEph/GloEphemeris.cpp
+++ b/core/lib/GNSSEph/GloEphemeris.cpp
@@ -280,8 +280,11 @@ namespace gpstk
 
          // Auxiliar object
       Xvt sv;
-      sv.x = x;
-      sv.v = v;
+      for (int i = 0; i < 3; i++)
+      {
+         sv.x[i] = x[i]*1.e3;   // m
+         sv.v[i] = v[i]*1.e3;   // m/sec
+      }
 
          // In the GLONASS system, 'clkbias' already includes the relativistic
          // correction, therefore we must substract the late from the former.
-- 
2.43.0


From 466c6f990216469d11e7704bd5747c4dc7645a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:41:06 +0000
Subject: [PATCH 172/245] fix: BrcKeplerOrbit::svXvt evaluates the rates of the
 semi-major axis and mean motion correction

---
 core/lib/GNSSEph/BrcKeplerOrbit.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/lib/GNSSEph/BrcKeplerOrbit.cpp b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
index e2173c9..1d2ff01 100644
--- a/core/lib/GNSSEph/BrcKeplerOrbit.cpp
+++ b/core/lib/GNSSEph/BrcKeplerOrbit.cpp
@@ -340,7 +340,9 @@ namespace gpstk
          //elapte = t - orbEp;
 
          // Compute mean motion
-      amm  = (sqrtgm / (A*Ahalf)) + dn;
+      double Ak = A + Adot * elapte;
+      double dnA = dn + 0.5 * dndot * elapte;
+      amm  = (sqrtgm / (A*Ahalf)) + dnA;
 
 
          // In-plane angles
@@ -392,7 +394,7 @@ namespace gpstk
 
          // U = updated argument of lat, R = radius, AINC = inclination
       U    = alat + du;
-      R    = A*G  + dr;
+      R    = Ak*G  + dr;
       AINC = i0 + tdrinc * elapte  +  di;
 
          //  Longitude of ascending node (ANLON)
@@ -428,7 +430,7 @@ namespace gpstk
          ( Cic  * s2al - Cis * c2al );
       domk = OMEGAdot - ell.angVelocity();
       duv = dlk*(1.e0+ 2.e0 * (Cus*c2al - Cuc*s2al) );
-      drv = A * lecc * dek * sinea - 2.e0 * dlk *
+      drv = Ak * lecc * dek * sinea - 2.e0 * dlk *
          ( Crc * s2al - Crs * c2al ) + Adot * G;
 
       dxp = drv*cosu - R*sinu*duv;
-- 
2.43.0


From 9df76db548bc284b2902b9009be622905a1328c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:36:22 +0000
Subject: [PATCH 173/245] fix: AlmOrbit::svXvt sets the clock drift

---
 core/lib/GNSSEph/AlmOrbit.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/GNSSEph/AlmOrbit.cpp b/core/lib/GNSSEph/AlmOrbit.cpp
index 4bb8120..b927657 100644
--- a/core/lib/GNSSEph/AlmOrbit.cpp
+++ b/core/lib/GNSSEph/AlmOrbit.cpp
@@ -121,6 +121,7 @@ namespace gpstk
          /* compute clock corrections (no relativistic correction computed) */
       dtc = AF0 + elapt * AF1;
       sv.clkbias = dtc;
+      sv.clkdrift = AF1;
 
          /* compute the true anomaly */
       q = ::sqrt (1.0e0 - ecc * ecc);
-- 
2.43.0


From 29928ad0e400f0da701bee749bcc1ec344f08237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:04 +0000
Subject: [PATCH 174/245] fix: Rinex3NavData from RinexNavData copies Cuc

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 514159e..81cf1e8 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -83,6 +83,7 @@ namespace gpstk
       Tgd2 = 0.0;
 
       // perturbations
+      Cuc = rnd.Cuc;
       Cus = rnd.Cus;
       Crc = rnd.Crc;
       Crs = rnd.Crs;
-- 
2.43.0


From 422f6af5aa4b445b5db8dd61ec6f1eeb3c8c8b27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:42:04 +0000
Subject: [PATCH 175/245] fix: Rinex3NavData casts use Toe as the epoch of the
 orbit

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 81cf1e8..51ce401 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -652,7 +652,12 @@ namespace gpstk
          sat.fromString(satSys + StringUtils::asString(PRNID));
          oeptr->satID = SatID(sat);
          //obsID = ?? ObsID obsID; // Defines carrier and tracking code
+         // time is Toc; Toe is within half a week of it
          oeptr->ctToe = time;
+         double dToe = Toe - static_cast<GPSWeekSecond>(time).sow;
+         if (dToe < -HALFWEEK) dToe += FULLWEEK;
+         else if (dToe > HALFWEEK) dToe -= FULLWEEK;
+         oeptr->ctToe += dToe;
 
          // clock model
          oeptr->af0 = af0;
-- 
2.43.0


From 26d978cb93b32f54ce2363c1955b82582f8ee6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:00 +0000
Subject: [PATCH 176/245] fix: Rinex3NavData to QZSEphemeris adds the PRN
 offset only once

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 51ce401..b576a52 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -958,7 +958,6 @@ namespace gpstk
       qzse.ctToc.setTimeSystem(TimeSystem::QZS);
 
       // now load the QZSS-specific parts
-      qzse.satID = SatID(qzse.satID.id + 192, SatelliteSystem::QZSS);
       qzse.IODC = IODC;
       qzse.IODE = IODE;
       qzse.health = health;
-- 
2.43.0


From 149739e6ecb806cd970c3a7ed30015aec6dd1ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:00 +0000
Subject: [PATCH 177/245] fix: Rinex3NavData from QZSEphemeris keeps the PRN in
 sat

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index b576a52..85198d2 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -207,8 +207,9 @@ namespace gpstk
       xmitTime = static_cast<QZSWeekSecond>(qzseph.transmitTime).getSOW();
       weeknum = static_cast<QZSWeekSecond>(qzseph.transmitTime).getWeek();
 
-      PRNID -= 192;                    // RINEX stores PRN minus 192
-      sat = RinexSatID(PRNID,SatelliteSystem::QZSS);
+      sat = RinexSatID(qzseph.satID.id,SatelliteSystem::QZSS);
+         // RINEX stores PRN minus 192 (or 100)
+      PRNID = StringUtils::asInt(sat.toString().substr(1));
       IODC = qzseph.IODC;
       IODE = qzseph.IODE;
       health = qzseph.health;
-- 
2.43.0


From c04145da13fa5c3eb8c6a761d594123b31a8bcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 178/245] fix: Rinex3ObsHeader marks the zero direction records
 it reads as valid

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index ed8030d..4fc53ff 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -1172,14 +1172,14 @@ namespace gpstk
       else if(label == hsAntennaZeroDirAzi)
       {
          antennaZeroDirAzi = asDouble(line.substr(0,14));
-         valid |= validAntennaBsightXYZ;
+         valid |= validAntennaZeroDirAzi;
       }
       else if(label == hsAntennaZeroDirXYZ)
       {
          antennaZeroDirXYZ[0] = asDouble(line.substr( 0,14));
          antennaZeroDirXYZ[1] = asDouble(line.substr(14,14));
          antennaZeroDirXYZ[2] = asDouble(line.substr(28,14));
-         valid |= validAntennaBsightXYZ;
+         valid |= validAntennaZeroDirXYZ;
       }
       else if(label == hsCenterOfMass)
       {
-- 
2.43.0


From 44d565dcd6072211aaa93c9780aa031d5aeb0902 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 179/245] fix: Rinex3ObsHeader pads full scale factor lines to
 column 60

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 4fc53ff..94d2c1d 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -831,8 +831,7 @@ namespace gpstk
                   line += string(1, ' ');
                   line += rightJustify(obsTypes[j], 3);
                }
-               int space = 60 - 10 - 4*(count % maxObsPerLine);
-               line += string(space, ' ');
+               line += string(60 - line.size(), ' ');
                line += hsSystemScaleFac;
                strm << line << endl;
                strm.lineNumber++;
-- 
2.43.0


From f9df72ef4416db5acf8587eb51c20d3fa1c04f4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 180/245] fix: Rinex3ObsHeader continues scale factor records
 of several factors

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 94d2c1d..f54bc94 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -1344,7 +1344,14 @@ namespace gpstk
             factor     = factorPrev;
             numObs     = numObsPrev;
 
-            startPosition = sysSfacMap[satSysTemp].size();
+               // only the types of this factor; there may be other factors
+            ScaleFacMap::const_iterator sit;
+            for(sit = sysSfacMap[satSysTemp].begin();
+                sit != sysSfacMap[satSysTemp].end(); sit++)
+            {
+               if(sit->second == factor)
+                  startPosition++;
+            }
          }
 
             // 0/blank numObs means factor applies to all obs types
@@ -1354,7 +1361,7 @@ namespace gpstk
 
          ScaleFacMap tempSfacMap = sysSfacMap[satSysTemp];
          for(i = startPosition;
-             (i < numObs) && ((i % maxObsPerLine) < maxObsPerLine); i++)
+             (i < numObs) && (i < startPosition + maxObsPerLine); i++)
          {
             int position = 4*(i % maxObsPerLine) + 10 + 1;
             RinexObsID tempType(satSysTemp+strip(line.substr(position,3)),
-- 
2.43.0


From e8cf70b4e91e34ca9e9e50e206189ba26e04d1fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 181/245] fix: Rinex3ObsData reads event header records in the
 version of the file

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 78836cb..61b0880 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -569,6 +569,7 @@ namespace gpstk
       else if(rod.numSVs > 0)
       {
          rod.auxHeader.clear();
+         rod.auxHeader.version = strm.header.version;
          for(int i=0; i<rod.numSVs; i++)
          {
             strm.formattedGetLine(line);
@@ -699,6 +700,7 @@ namespace gpstk
       else if(numSVs > 0)
       {
          auxHeader.clear();
+         auxHeader.version = strm.header.version;
          for(int i = 0; i < numSVs; i++)
          {
             strm.formattedGetLine(line);
-- 
2.43.0


From 7ec8c7d9751b53a31d77a0972c325389c16a0832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 182/245] fix: Rinex3ObsData writes the flag and count of
 version 2 events without a time

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 61b0880..466b975 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -83,10 +83,10 @@ namespace gpstk
          line += string(1, ' ');
          line += rightJustify(asString<short>(civTime.minute),2);
          line += rightJustify(asString(civTime.second, 7),11);
-         line += string(2, ' ');
-         line += rightJustify(asString<short>(rod.epochFlag), 1);
-         line += rightJustify(asString<short>(rod.numSVs), 3);
       }
+      line += string(2, ' ');
+      line += rightJustify(asString<short>(rod.epochFlag), 1);
+      line += rightJustify(asString<short>(rod.numSVs), 3);
 
          // write satellite ids to 'line'
       const size_t maxPrnsPerLine = 12;
-- 
2.43.0


From 87725b7c68e672004aa37ecda769dc47363acc61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 183/245] fix: Rinex3ObsHeader counts every header record it
 writes

---
 .../FileHandling/RINEX3/Rinex3ObsHeader.cpp   | 61 ++++++++++++++++---
 1 file changed, 52 insertions(+), 9 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index f54bc94..840e9de 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -292,6 +292,7 @@ namespace gpstk
       if(valid & validVersion          ) n++;
       if(valid & validRunBy            ) n++;
       if(valid & validComment          ) n += commentList.size();
+      n += R2DisambiguityMap.size();
       if(valid & validMarkerName       ) n++;
       if(valid & validMarkerNumber     ) n++;
       if(version >= 3 && (valid & validMarkerType)) n++;
@@ -308,28 +309,70 @@ namespace gpstk
       if(version >= 3 && (valid & validCenterOfMass)) n++;
       if(version < 3 && (valid & validNumObs) && R2ObsTypes.size() != 0)
          n += 1 + (R2ObsTypes.size()-1)/9;
-      if(version >= 3 && (valid & validSystemNumObs) && numObs != 0)
-         n += 1 + (numObs-1)/9;
+      if(version >= 3 && (valid & validSystemNumObs))
+      {
+         map<string,unsigned> obsCount;
+         RinexObsMap dummy;
+         remapObsTypes(dummy, obsCount);
+         for(const auto& i : mapObsTypes)
+         {
+            unsigned count = obsCount[i.first];
+            n += (count == 0 ? 1 : 1 + (count-1)/13);
+         }
+      }
       if(version < 3 && (valid & validWaveFact))
       {
          n++;
-         if(extraWaveFactList.size() != 0) n += extraWaveFactList.size();
+         for(const auto& i : extraWaveFactList)
+            n += (i.satList.size()+6)/7;
       }
       if(version >= 3 && (valid & validSigStrengthUnit)) n++;
       if(valid & validInterval         ) n++;
       if(valid & validFirstTime        ) n++;
       if(valid & validLastTime         ) n++;
       if(valid & validReceiverOffset   ) n++;
-      if(version >= 3 && (valid & validSystemDCBSapplied)) n++;
-      if(version >= 3 && (valid & validSystemPCVSapplied)) n++;
-      if(version >= 3 && (valid & validSystemScaleFac)) n++;
-      if(version >= 3.01 && (valid & validSystemPhaseShift)) n++;        // one per system at least
-      if(version >= 3.01 && (valid & validGlonassSlotFreqNo)) n++;  // TODO: continuation lines...
+      if(version >= 3 && (valid & validSystemDCBSapplied)) n += infoDCBS.size();
+      if(version >= 3 && (valid & validSystemPCVSapplied)) n += infoPCVS.size();
+      if(version >= 3 && (valid & validSystemScaleFac))
+      {
+         for(const auto& i : sysSfacMap)
+         {
+            map<int,unsigned> count;
+            for(const auto& j : i.second)
+               count[j.second]++;
+            for(int j = 1; j <= 1000; j *= 10)
+               n += (count[j]+11)/12;
+         }
+      }
+      if(version >= 3.01 && (valid & validSystemPhaseShift))
+      {
+         for(const auto& i : sysPhaseShift)
+         {
+            if(i.second.empty()) n++;
+            for(const auto& j : i.second)
+            {
+               if(j.first.type != ObservationType::Phase)
+                  continue;
+               if(j.second.begin()->first.id == -1)
+                  n++;
+               else
+                  n += (j.second.size()+9)/10;
+            }
+         }
+      }
+      if(version >= 3.01 && (valid & validGlonassSlotFreqNo))
+         n += (glonassFreqNo.size()+7)/8;
       if(version >= 3.02 && (valid & validGlonassCodPhsBias)) n++;
       if(valid & validLeapSeconds      ) n++;
       if(valid & validNumSats          ) n++;
       if(valid & validPrnObs           )
-         n += numObsForSat.size() * (1+numObsForSat.begin()->second.size()/9);
+      {
+         for(const auto& i : numObsForSat)
+         {
+            size_t count = (version >= 3 ? i.second.size() : R2ObsTypes.size());
+            n += (count == 0 ? 1 : 1 + (count-1)/9);
+         }
+      }
       if(validEoH                      ) n++;
 
       return n;
-- 
2.43.0


From 6973248b2c5428ec7e3ed00bd44eb3b87e0f4569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 184/245] fix: RinexObsHeader counts every PRN / # OF OBS
 record it writes

---
 core/lib/FileHandling/RINEX/RinexObsHeader.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
index 37a71f1..1610191 100644
--- a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
@@ -208,7 +208,10 @@ namespace gpstk
       if(valid & RinexObsHeader::commentValid) n += commentList.size();
       if(valid & RinexObsHeader::numSatsValid) n++;
       if(valid & RinexObsHeader::prnObsValid)
-         n += numObsForSat.size() * (1+numObsForSat.begin()->second.size()/9);
+      {
+         for(const auto& i : numObsForSat)
+            n += (i.second.empty() ? 1 : 1 + (i.second.size()-1)/9);
+      }
       if(valid & RinexObsHeader::endValid) n++;
       return n;
    }
-- 
2.43.0


From b9275d760454c0a52eb941dde76443836db7f8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:14:41 +0000
Subject: [PATCH 185/245] fix: RinexObsHeader reads PRN / # OF OBS over more
 than two lines

---
 core/lib/FileHandling/RINEX/RinexObsHeader.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
index 1610191..2930cd2 100644
--- a/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexObsHeader.cpp
@@ -713,9 +713,10 @@ namespace gpstk
          if ((lastPRN.id != -1) &&
              (numObsForSat[lastPRN].size() != obsTypeList.size()))
          {
-            for(int i = numObsForSat[lastPRN].size();
+            int first = numObsForSat[lastPRN].size();
+            for(int i = first;
                 (i < int(obsTypeList.size())) &&
-                   ( (i % maxObsPerLine) < maxObsPerLine); i++)
+                   (i < first + maxObsPerLine); i++)
             {
                numObsForSat[lastPRN].push_back(asInt(line.substr((i%maxObsPerLine)*6+6,6)));
             }
-- 
2.43.0


From cc3c3c9ad01415154398093944991043cfc9fb6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:15:52 +0000
Subject: [PATCH 186/245] fix: Rinex3ObsData keeps the epoch columns of events
 without a time

---
 core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
index 466b975..156e1dd 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsData.cpp
@@ -790,7 +790,7 @@ namespace gpstk
    string Rinex3ObsData::writeTime(const CommonTime& ct) const
    {
       if(ct == CommonTime::BEGINNING_OF_TIME)
-         return string(26, ' ');
+         return string(28, ' ');
 
       CivilTime civtime(ct);
       string line;
-- 
2.43.0


From 7348ebf84c5b6b37fcd59f528a9b1550daf10b45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 187/245] fix: Rinex3NavData reads transmit times past the end
 of the week of Toe

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 85198d2..29abb77 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -1515,6 +1515,11 @@ namespace gpstk
             {
                xmitTime += (long)FULLWEEK;
             }
+            // xmitTime past the end of the week is in the week after Toe
+            while(xmitTime >= FULLWEEK)
+            {
+               xmitTime -= (long)FULLWEEK;
+            }
    
             // In RINEX *files*, weeknum is the week of TOE.
             // Internally (Rinex3NavData), weeknum is week of transmission
-- 
2.43.0


From 095d7bab9bf3b14ce36b7976ac14f1ea3bd1ccc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 188/245] fix: Rinex3NavData writes the second of day of
 version 2 GLONASS frame times

---
 core/lib/FileHandling/RINEX3/Rinex3NavData.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
index 29abb77..cc1c55b 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavData.cpp
@@ -1050,7 +1050,15 @@ namespace gpstk
 
       if (satSys == "R" || satSys == "S")
       {
-         strm << TauN << GammaN << RNDouble(MFtime);
+            // version 2 GLONASS has the second of day, see getPRNEpoch()
+         if (satSys == "R" && strm.header.version < 3)
+         {
+            strm << TauN << GammaN << RNDouble(MFtime % 86400);
+         }
+         else
+         {
+            strm << TauN << GammaN << RNDouble(MFtime);
+         }
       }
       else if (satSys == "G" || satSys == "E" || satSys == "J" || satSys == "C")
       {
-- 
2.43.0


From 1b364bb362a1a504c6b7cda5b75a2e1dc91bb08b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 189/245] fix: Rinex3NavHeader keeps the file type of version 2
 GLONASS and SBAS files

---
 core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index 708f7d5..378164a 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -242,7 +242,6 @@ namespace gpstk
                                   fileType);
                   GPSTK_THROW(e);
                }
-               fileType = "N: GPS NAV DATA";
             }
             valid |= validVersion;
          }
@@ -815,7 +814,7 @@ namespace gpstk
                if(sat.system == SatelliteSystem::GPS)
                   fileType = "N: GPS NAV DATA";
                else if(sat.system == SatelliteSystem::Glonass)
-                  fileType = "G: GLO NAV DATA)";
+                  fileType = "G: GLO NAV DATA";
                else if(sat.system == SatelliteSystem::Geosync)
                   fileType = "H: GEO NAV DATA";
                else 
-- 
2.43.0


From 737eec7ffbb1dd8ea9f065cc1b3e5ab94ee9cb7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 190/245] fix: SEM and Yuma weeks move by a whole 1024-week
 cycle

---
 ext/lib/FileHandling/SEM/SEMHeader.cpp | 4 ++--
 ext/lib/FileHandling/Yuma/YumaData.cpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/ext/lib/FileHandling/SEM/SEMHeader.cpp b/ext/lib/FileHandling/SEM/SEMHeader.cpp
index bf5118b..97f6404 100644
--- a/ext/lib/FileHandling/SEM/SEMHeader.cpp
+++ b/ext/lib/FileHandling/SEM/SEMHeader.cpp
@@ -118,9 +118,9 @@ namespace gpstk
          week += (nearFullWeek / 1024) * 1024;
          short diff = nearFullWeek - week;
          if (diff > 512)
-            week += 512;
+            week += 1024;
          else if(diff < -512)
-            week -= 512;
+            week -= 1024;
       }
 
       strm.header = *this;
diff --git a/ext/lib/FileHandling/Yuma/YumaData.cpp b/ext/lib/FileHandling/Yuma/YumaData.cpp
index 5c53540..7476d9a 100644
--- a/ext/lib/FileHandling/Yuma/YumaData.cpp
+++ b/ext/lib/FileHandling/Yuma/YumaData.cpp
@@ -254,9 +254,9 @@ namespace gpstk
          week += (nearFullWeek / 1024) * 1024;
          short diff = nearFullWeek - week;
          if (diff > 512)
-            week += 512;
+            week += 1024;
          else if(diff < -512)
-            week -= 512;
+            week -= 1024;
       }
 
    } // end of reallyGetRecord()
-- 
2.43.0


From 376f681936de3f2e8955c3f5148b4a340b59c200 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 191/245] fix: SP3 epochs keep fractional seconds

---
 core/lib/FileHandling/SP3/SP3Data.cpp   | 2 +-
 core/lib/FileHandling/SP3/SP3Header.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/SP3/SP3Data.cpp b/core/lib/FileHandling/SP3/SP3Data.cpp
index f8e5bd5..5a12347 100644
--- a/core/lib/FileHandling/SP3/SP3Data.cpp
+++ b/core/lib/FileHandling/SP3/SP3Data.cpp
@@ -163,7 +163,7 @@ namespace gpstk
             int dom = asInt(strm.lastLine.substr(11,2));
             int hour = asInt(strm.lastLine.substr(14,2));
             int minute = asInt(strm.lastLine.substr(17,2));
-            double second = asInt(strm.lastLine.substr(20,10));
+            double second = asDouble(strm.lastLine.substr(20,10));
             CivilTime t;
             try {
                t = CivilTime(year, month, dom, hour, minute, second, timeSystem);
diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index c8f868c..69c2951 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -85,7 +85,7 @@ namespace gpstk
          int dom = asInt(line.substr(11,2));
          int hour = asInt(line.substr(14,2));
          int minute = asInt(line.substr(17,2));
-         double second = asInt(line.substr(20,10));
+         double second = asDouble(line.substr(20,10));
          try {
             time = CivilTime(year, month, dom, hour, minute, second);
          }
-- 
2.43.0


From 41857e0c79ddb6fe684816e3fd91036fcc0ff0d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:05 +0000
Subject: [PATCH 192/245] fix: SP3Header forgets the satellites of the file
 read before

---
 core/lib/FileHandling/SP3/SP3Header.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/lib/FileHandling/SP3/SP3Header.cpp b/core/lib/FileHandling/SP3/SP3Header.cpp
index 69c2951..d67000b 100644
--- a/core/lib/FileHandling/SP3/SP3Header.cpp
+++ b/core/lib/FileHandling/SP3/SP3Header.cpp
@@ -131,6 +131,7 @@ namespace gpstk
       bool done = false;
 
           // read in the SV list
+      satList.clear();
       while(!done)
       {
          strm.formattedGetLine(line);
-- 
2.43.0


From 27ce61dd569631cd6575bd9532bdc0e5ee4e3c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 193/245] fix: Rinex3NavHeader writes the version 2 GLONASS
 time correction it reads

---
 core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index 378164a..a5bbfbb 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -639,13 +639,14 @@ namespace gpstk
                        << right << setw(9) << tc.refWeek << " "
                        << stringDeltaUTC;
                }
-               else if(tc.asString4() == "GLGP")
+               else if(tc.asString4() == "GLUT")
                {
                      // "CORR TO SYSTEM TIME" R2.10 GLO
+                     // the record holds -TauC, see reallyGetRecord()
                   strm << right << setw(6) << tc.refYr
                        << right << setw(6) << tc.refMon
                        << right << setw(6) << tc.refDay
-                       << RNDouble(tc.A0) << setw(23) << ' '
+                       << "   " << RNDouble(-tc.A0) << setw(20) << ' '
                        << stringCorrSysTime;
                }
                else if(tc.asString4() == "SBUT")
@@ -658,6 +659,10 @@ namespace gpstk
                        << right << setw(2) << tc.geoUTCid << " "
                        << stringDUTC;
                }
+               else
+               {
+                  continue;       // no such record in version 2
+               }
             }
 
             strm << endlpp;
-- 
2.43.0


From 6ecc9fd9d01a7b3f60f741444e838e3adc312995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 194/245] fix: Rinex3NavHeader writes Galileo ionosphere
 corrections without GPS ones

---
 core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
index a5bbfbb..4048982 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3NavHeader.cpp
@@ -535,7 +535,7 @@ namespace gpstk
          }
       }
 
-      if(valid & validIonoCorrGPS)
+      if(valid & (validIonoCorrGPS | validIonoCorrGal))
       {
             // "IONOSPHERIC CORR"
          map<string,IonoCorr>::const_iterator it;
-- 
2.43.0


From 84eba70aed5a94cf1f903bcb2e3fcd2ac66b226c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 195/245] fix: RinexMetHeader reads every published version 3

---
 core/lib/FileHandling/RINEX/RinexMetHeader.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexMetHeader.cpp b/core/lib/FileHandling/RINEX/RinexMetHeader.cpp
index 9228cca..f53c997 100644
--- a/core/lib/FileHandling/RINEX/RinexMetHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexMetHeader.cpp
@@ -288,15 +288,15 @@ namespace gpstk
          if (thisLabel == stringVersion)
          {
             std::string verstr(strip(line.substr(0,20)));
-            if ((verstr != "2.0") && (verstr != "2.1") && (verstr != "2.00") &&
-               (verstr != "2.10") && (verstr != "2.11") && (verstr != "3.0") &&
-               (verstr != "3.01") && (verstr!= "3.02"))
+            double ver = asDouble(verstr);
+            if ((ver != 2.0) && (ver != 2.1) && (ver != 2.11) &&
+                ((ver < 3.0) || (ver > 3.055)))
             {
                FFStreamError e("Unknown or unsupported RINEX version " + 
-                               asString(version));
+                               verstr);
                GPSTK_THROW(e);
             }
-            version = asDouble(verstr);
+            version = ver;
             fileType = strip(line.substr(20,20));
             if ( (fileType[0] != 'M') && (fileType[0] != 'm'))
             {
-- 
2.43.0


From 9be613b919271f7837d54a4e8a16c03eff95d6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 196/245] fix: RinexClockHeader writes the clock references
 when they are valid

---
 core/lib/FileHandling/RINEX/RinexClockHeader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/FileHandling/RINEX/RinexClockHeader.cpp b/core/lib/FileHandling/RINEX/RinexClockHeader.cpp
index 449277f..dc10cc0 100644
--- a/core/lib/FileHandling/RINEX/RinexClockHeader.cpp
+++ b/core/lib/FileHandling/RINEX/RinexClockHeader.cpp
@@ -352,7 +352,7 @@ namespace gpstk
          strm << setw(3) << ac << "  " << setw(55) << acName << acNameString
               << endlpp;
       }
-      if ( valid & numStationsValid )
+      if ( valid & numRefClkValid )
       {
          for (const auto& recItr : refClkList)
          {
-- 
2.43.0


From 6b4c62ad183ad09a74f482d98322994cf5d26e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 197/245] fix: Rinex3ClockHeader writes the observation types
 of each system once

---
 core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
index 8ec4c5d..bf2a7b6 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
@@ -326,8 +326,6 @@ namespace gpstk
             strm.lineNumber++;
 
             if(valid & sysValid && version >= 3) {
-               RinexObsMap::const_iterator it = sysObsTypes.begin();
-               for (;it != sysObsTypes.end(); it++)
                {
                   static const int maxObsPerLine = 13;
 
-- 
2.43.0


From 70268c36c5fb093dffa90472dd0185f9de93b5dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 198/245] fix: Rinex3ClockHeader reads bias program names from
 their columns

---
 core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
index bf2a7b6..3400287 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
@@ -163,7 +163,7 @@ namespace gpstk
                {
                   RinexSatID sat(satstr);
                   dcbsMap[satstr] =
-                     stringPair(strip(line.substr(1,17)),
+                     stringPair(strip(line.substr(2,17)),
                                 strip(line.substr(20,40)));
                }
                catch (Exception& exc)
@@ -181,7 +181,7 @@ namespace gpstk
                {
                   RinexSatID sat(satstr);
                   pcvsMap[satstr] =
-                     stringPair(strip(line.substr(1,17)),
+                     stringPair(strip(line.substr(2,17)),
                                 strip(line.substr(20,40)));
                }
                catch (Exception& exc)
-- 
2.43.0


From dec2be07fb95c36bf68c802df33345bf73d8257a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 199/245] fix: Rinex3ClockHeader pads short station and center
 names

---
 core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
index 3400287..277083f 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ClockHeader.cpp
@@ -433,7 +433,7 @@ namespace gpstk
                //strm << line << endl;
                //strm.lineNumber++;
 
-            line = analCenterDesignator;
+            line = leftJustify(analCenterDesignator,3);
             line += string(2,' ');
             line += leftJustify(analysisCenter,55);
             line += analysisCenterString;  // "ANALYSIS CENTER"
@@ -458,7 +458,7 @@ namespace gpstk
             map<string,string>::const_iterator it, jt;
             for(it=stationID.begin(); it != stationID.end(); ++it) {
                string label(it->first),field;
-               line = label;
+               line = leftJustify(it->first,4);
                line += string(1,' ');
                line += leftJustify(it->second,20);
                jt = stationX.find(label);
-- 
2.43.0


From 872447d8dc5eacd2818aa3ecd2676d62de34f5f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:02 +0000
Subject: [PATCH 200/245] fix: SEMData adds the inclination offset in radians

---
 ext/lib/FileHandling/SEM/SEMData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/FileHandling/SEM/SEMData.cpp b/ext/lib/FileHandling/SEM/SEMData.cpp
index 980f119..9fb0295 100644
--- a/ext/lib/FileHandling/SEM/SEMData.cpp
+++ b/ext/lib/FileHandling/SEM/SEMData.cpp
@@ -146,12 +146,12 @@ namespace gpstk
       end = line.find_first_of(whitespace,front);
       length = end - front;
       i_offset = line.substr(front,length);
-      i_total = i_offset + 54.0 * (gpstk::PI / 180.0);
 
       front = line.find_first_not_of(whitespace,end);
       length = line.length() - front;
       OMEGAdot = line.substr(front,length);
       i_offset *= gpstk::PI;
+      i_total = i_offset + 54.0 * (gpstk::PI / 180.0);
       OMEGAdot *= gpstk::PI;
 
       // Sixth line - Sqrt of A, Omega0, and Arg of Perigee
-- 
2.43.0


From 60ef1f9650ee4b25466c87efb76dfc3f0f35cc4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:33:03 +0000
Subject: [PATCH 201/245] fix: RinexMetData expects the end of the file before
 records with continuation lines

---
 core/lib/FileHandling/RINEX/RinexMetData.cpp | 13 +++----------
 1 file changed, 3 insertions(+), 10 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexMetData.cpp b/core/lib/FileHandling/RINEX/RinexMetData.cpp
index a98316a..6a688ae 100644
--- a/core/lib/FileHandling/RINEX/RinexMetData.cpp
+++ b/core/lib/FileHandling/RINEX/RinexMetData.cpp
@@ -120,12 +120,8 @@ namespace gpstk
       string line;
       data.clear();
 
-         // this is to see whether or not we expect an EOF
-         // when we read this next line
-      if ((int)hdr.obsTypeList.size() > maxObsPerLine)
-         strm.formattedGetLine(line); 
-      else
-         strm.formattedGetLine(line, true);
+         // the file may end before a record, but not within one
+      strm.formattedGetLine(line, true);
 
       processFirstLine(line, hdr, hdr.version);
 
@@ -133,10 +129,7 @@ namespace gpstk
 
       while (data.size() < hdr.obsTypeList.size())
       {
-         if ((int)(hdr.obsTypeList.size() - data.size()) < maxObsPerContinuationLine)
-            strm.formattedGetLine(line, true);
-         else
-            strm.formattedGetLine(line);
+         strm.formattedGetLine(line);
          processContinuationLine(line, hdr);
       }
 
-- 
2.43.0


From 24464526654e0b9521e77a532ad921536f4b7a91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:26 +0000
Subject: [PATCH 202/245] fix: RINEX 2 observation type of every Galileo E1
 pseudorange is C1

---
 core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
index 840e9de..2be0434 100755
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsHeader.cpp
@@ -2232,6 +2232,9 @@ namespace gpstk
                // R2 has C5 but not P5
             else if (lab.substr(0,2) == "C5")
                R2ot = string("C5");
+               // R2 has no P1 for Galileo
+            else if (lab.substr(0,2) == "C1" && mit->first == "E")
+               R2ot = string("C1");
             else if (lab[0] == 'C')
                R2ot = string("P")+string(1,lab[1]);
             else
-- 
2.43.0


From b22859928abced71434d0f91ea66aa8b37a166f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 203/245] fix: NavFilterMgr::finalize reports the filters with
 rejected messages

---
 core/lib/NavFilter/NavFilterMgr.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/NavFilterMgr.cpp b/core/lib/NavFilter/NavFilterMgr.cpp
index 200ddde..d9ab68a 100644
--- a/core/lib/NavFilter/NavFilterMgr.cpp
+++ b/core/lib/NavFilter/NavFilterMgr.cpp
@@ -82,11 +82,12 @@ namespace gpstk
          // current and next filter
       FilterList::iterator fliCur, fliNxt;
       rejected.clear();
+      for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
+         (*fliCur)->rejected.clear();
          // touch ALL filters
       for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
       {
             // finalize the data in the current filter
-         (*fliCur)->rejected.clear();
          rv2.clear();
          (*fliCur)->finalize(rv2);
          
@@ -100,7 +101,6 @@ namespace gpstk
             rv1 = rv2;
             while ((fliNxt != filters.end()) && !rv1.empty())
             {
-               (*fliNxt)->rejected.clear();
                rv2.clear();
                (*fliNxt)->validate(rv1, rv2);
                rv1 = rv2;
@@ -115,6 +115,11 @@ namespace gpstk
             }
          }
       }
+      for (fliCur = filters.begin(); fliCur != filters.end(); fliCur++)
+      {
+         if (!(*fliCur)->rejected.empty())
+            rejected.insert(*fliCur);
+      }
       return rv;
    }
 
-- 
2.43.0


From 3de2939871fc80aaeb282359f70fb77626164018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 204/245] fix: NavFilterMgr::validate clears the rejected lists
 of every filter

---
 core/lib/NavFilter/NavFilterMgr.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/lib/NavFilter/NavFilterMgr.cpp b/core/lib/NavFilter/NavFilterMgr.cpp
index d9ab68a..56f4b79 100644
--- a/core/lib/NavFilter/NavFilterMgr.cpp
+++ b/core/lib/NavFilter/NavFilterMgr.cpp
@@ -59,11 +59,12 @@ namespace gpstk
       NavFilter::NavMsgList rv, newrv;
       rv.push_back(msgBits);
       rejected.clear();
+      for (FilterList::iterator i = filters.begin(); i != filters.end(); i++)
+         (*i)->rejected.clear();
       for (FilterList::iterator i = filters.begin(); i != filters.end(); i++)
       {
          if (rv.empty())
             break;
-         (*i)->rejected.clear();
          newrv.clear();
          (*i)->validate(rv, newrv);
          if (!(*i)->rejected.empty())
-- 
2.43.0


From 29253b0bc74aff7f486c134ca082e59fc6e17a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 205/245] fix: CNav2SanityFilter accepts the last message of
 the week

---
 core/lib/NavFilter/CNav2SanityFilter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/lib/NavFilter/CNav2SanityFilter.cpp b/core/lib/NavFilter/CNav2SanityFilter.cpp
index 8f1df37..5ae5efd 100755
--- a/core/lib/NavFilter/CNav2SanityFilter.cpp
+++ b/core/lib/NavFilter/CNav2SanityFilter.cpp
@@ -67,11 +67,11 @@ namespace gpstk
          bitOffset += 8; 
          uint32_t pageNum = (uint32_t) fd->pnb->asUnsignedLong(bitOffset,6,1);
 
-         unsigned msgSOW = 7200 * ITOW + TOI * 18; 
+         int msgSOW = 7200 * ITOW + TOI * 18; 
          msgSOW -= 18;
          if (msgSOW<0)
             msgSOW += 604800; 
-         unsigned xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
+         int xmitSOW = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).sow;
          unsigned xmitWeek = static_cast<GPSWeekSecond>(fd->pnb->getTransmitTime()).week;
  
          bool valid =
-- 
2.43.0


From 00d30d144039975f7f9d3e9ca5265f4d012322b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 206/245] fix: LNavEmptyFilter compares all data bits of the
 blank pattern

---
 core/lib/NavFilter/LNavEmptyFilter.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/lib/NavFilter/LNavEmptyFilter.cpp b/core/lib/NavFilter/LNavEmptyFilter.cpp
index f68bf90..0bb5f72 100644
--- a/core/lib/NavFilter/LNavEmptyFilter.cpp
+++ b/core/lib/NavFilter/LNavEmptyFilter.cpp
@@ -62,14 +62,14 @@ namespace gpstk
                // or subframe 4 or 5 with alternating 1s and 0s
             ((((fd->sf[1] & 0x700) == 0x400) ||
               ((fd->sf[1] & 0x700) == 0x500)) &&
-             ((fd->sf[2] & 0x3ffc0) == 0x2aa80) &&
-             ((fd->sf[3] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[4] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[5] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[6] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[7] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[8] & 0x3ffffc0) == 0x2aaaa80) &&
-             ((fd->sf[9] & 0x3ffffc0) == 0x2aaaa80));
+             ((fd->sf[2] & 0x3fffc0) == 0x2aaa80) &&
+             ((fd->sf[3] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[4] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[5] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[6] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[7] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[8] & 0x3fffffc0) == 0x2aaaaa80) &&
+             ((fd->sf[9] & 0x3fffffc0) == 0x2aaaaa80));
          if (blank)
             reject(fd);
          else
-- 
2.43.0


From ecb3fb73d0a3d2563671e7071c63b5264700d926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:56 +0000
Subject: [PATCH 207/245] fix: NavMsgDataWords::getBits counts bits from one
 and crosses words

---
 core/lib/NavFilter/NavMsgDataWords.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/lib/NavFilter/NavMsgDataWords.hpp b/core/lib/NavFilter/NavMsgDataWords.hpp
index 1ffe367..735181c 100644
--- a/core/lib/NavFilter/NavMsgDataWords.hpp
+++ b/core/lib/NavFilter/NavMsgDataWords.hpp
@@ -85,10 +85,13 @@ namespace gpstk
    {
       if (num == 0)
          return 0;
-         // mask and shift the desired bits
-      uint32_t fbmodN = (start % WordSize);
-      return ((sf[start/WordSize] & (((uint32_t)-1) >> (fbmodN+1))) >>
-              (31-fbmodN-num));
+      uint32_t rv = 0;
+      for (unsigned i = start-1; i < (start+num-1); i++)
+      {
+         rv <<= 1;
+         rv |= (sf[i/WordSize] >> (WordSize-1-i%WordSize)) & 1;
+      }
+      return rv;
    }
 
 
-- 
2.43.0


From dc965d4639383a0067f43a626947ec0a15199097 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:43 +0000
Subject: [PATCH 208/245] fix: SparseVector sub-vector constructor copied one
 element too many

---
 ext/lib/Geomatics/SparseVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index d0ed8a0..264ca39 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -524,7 +524,7 @@ namespace gpstk
       typename std::map<unsigned int, T>::const_iterator it;
       for(it = SV.vecMap.begin(); it != SV.vecMap.end(); ++it) {
          if(it->first < ind) continue;       // skip ones before ind
-         if(it->first > ind+n) break;
+         if(it->first >= ind+n) break;
          vecMap[it->first-ind] = it->second;
       }
    }
-- 
2.43.0


From 4f201cb35e424fab650e4d9db5ddcdd8af9cc265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:43 +0000
Subject: [PATCH 209/245] fix: SparseMatrix sub-matrix constructor misplaced
 rows and took one too many

---
 ext/lib/Geomatics/SparseMatrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index a8d17ba..03e8cc4 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -643,9 +643,9 @@ namespace gpstk
       typename std::map< unsigned int, SparseVector<T> >::const_iterator it;
       for(it = SM.rowsMap.begin(); it != SM.rowsMap.end(); ++it) {
          if(it->first < rind) continue;               // skip rows before rind
-         if(it->first > rind+rnum) break;             // done with rows
+         if(it->first >= rind+rnum) break;            // done with rows
          SparseVector<T> SV(it->second,cind,cnum);    // get sub-vector
-         if(!SV.isEmpty()) rowsMap[it->first] = SV;   // add it
+         if(!SV.isEmpty()) rowsMap[it->first-rind] = SV;   // add it
       }
    }
 
-- 
2.43.0


From 35553643d670b09d7ee3139f9e6fbf122b856a69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:43 +0000
Subject: [PATCH 210/245] fix: SparseMatrix || Vector left the length of its
 rows unchanged

---
 ext/lib/Geomatics/SparseMatrix.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 03e8cc4..2abd903 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1092,6 +1092,8 @@ namespace gpstk
 
       unsigned int i,n(toRet.ncols-1);
       typename std::map< unsigned int, SparseVector<T> >::iterator jt;
+      for(jt = toRet.rowsMap.begin(); jt != toRet.rowsMap.end(); ++jt)
+         jt->second.len = toRet.ncols;
       for(i=0; i<V.size(); i++) {
          if(V(i) != T(0)) {                     // add it
             jt = toRet.rowsMap.find(i);         // find the row
-- 
2.43.0


From cde0a0b71de81e06b3eaf930f5e7a6d222ef1693 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:43 +0000
Subject: [PATCH 211/245] fix: SparseMatrix || SparseMatrix lost or misplaced
 rows that are zero on one side

---
 ext/lib/Geomatics/SparseMatrix.hpp | 37 +++++++++++++-----------------
 1 file changed, 16 insertions(+), 21 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 2abd903..645c5ca 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1117,30 +1117,25 @@ namespace gpstk
       SparseMatrix<T> toRet(L);
       toRet.ncols += R.ncols;
 
-      unsigned int i, N(L.ncols);
+      const unsigned int N(L.ncols);
       typename std::map< unsigned int, SparseVector<T> >::iterator it;
       typename std::map< unsigned int, SparseVector<T> >::const_iterator jt;
-      it = toRet.rowsMap.begin();
-      jt = R.rowsMap.begin();
-      while(it != toRet.rowsMap.end() && jt != R.rowsMap.end()) {
-         if(it->first < jt->first) {         // R has no row here - do nothing
-            it->second.len += N;
-            ++it;
-         }
-         else if(it->first > jt->first) {    // R has a row where toRet does not
-            toRet.rowsMap[jt->first] = jt->second;
-            toRet.rowsMap[jt->first].len += N;
-            ++jt;
-         }
-         else {                              // equal indexes - both have rows
-            it->second.len += N;
-            typename std::map< unsigned int, T >::const_iterator vt;
-            for(vt = jt->second.vecMap.begin(); vt != jt->second.vecMap.end(); ++vt) {
-               toRet.rowsMap[it->first].vecMap[N+vt->first] = vt->second;
-            }
-            ++it;
-            ++jt;
+
+      // all rows get longer
+      for(it = toRet.rowsMap.begin(); it != toRet.rowsMap.end(); ++it)
+         it->second.len = toRet.ncols;
+
+      // copy the rows of R, with column indexes shifted by N
+      for(jt = R.rowsMap.begin(); jt != R.rowsMap.end(); ++jt) {
+         it = toRet.rowsMap.find(jt->first);
+         if(it == toRet.rowsMap.end()) {     // R has a row where toRet does not
+            SparseVector<T> row(toRet.ncols);
+            toRet.rowsMap[jt->first] = row;
+            it = toRet.rowsMap.find(jt->first);
          }
+         typename std::map< unsigned int, T >::const_iterator vt;
+         for(vt = jt->second.vecMap.begin(); vt != jt->second.vecMap.end(); ++vt)
+            it->second.vecMap[N+vt->first] = vt->second;
       }
 
       return toRet;
-- 
2.43.0


From b9b5d9d97e19397ea6ba094d22341bf48f0f451f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:43 +0000
Subject: [PATCH 212/245] fix: addition of sparse matrices subtracted

---
 ext/lib/Geomatics/SparseMatrix.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 645c5ca..4f6a98e 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1325,7 +1325,7 @@ namespace gpstk
       //std::cout << "SM::op+(SM,SM)" << std::endl;
 
       SparseMatrix<T> retSM(L);
-      retSM -= R;                   // will zeroize(T(0))
+      retSM += R;                   // will zeroize(T(0))
 
       return retSM;
    }
@@ -1339,7 +1339,7 @@ namespace gpstk
       //std::cout << "SM::op+(SM,M)" << std::endl;
 
       SparseMatrix<T> retSM(L);
-      retSM -= R;                   // will zeroize(T(0))
+      retSM += R;                   // will zeroize(T(0))
 
       return retSM;
    }
@@ -1353,7 +1353,7 @@ namespace gpstk
       //std::cout << "SM::op+(M,SM)" << std::endl;
 
       SparseMatrix<T> retSM(L);
-      retSM -= R;                   // will zeroize(T(0))
+      retSM += R;                   // will zeroize(T(0))
 
       return retSM;
    }
-- 
2.43.0


From cf2d6f2e9aaedf63d7b33b83f39ffdc95f8a3fa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:43 +0000
Subject: [PATCH 213/245] fix: SparseMatrix::rowCopy of a zero row had no
 length

---
 ext/lib/Geomatics/SparseMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 4f6a98e..233e747 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1365,7 +1365,7 @@ namespace gpstk
    template <class T>
    SparseVector<T> SparseMatrix<T>::rowCopy(const unsigned int i) const
    {
-      SparseVector<T> retSV;
+      SparseVector<T> retSV(cols());
       typename std::map< unsigned int, SparseVector<T> >::const_iterator it;
       it = rowsMap.find(i);
       if(it != rowsMap.end())
-- 
2.43.0


From ec5d5a5aa7b928a527cb4d7d05136c18970b0ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 214/245] fix: SparseMatrix::swapCols transposed the matrix
 instead of swapping columns

---
 ext/lib/Geomatics/SparseMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 233e747..d45f9db 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1443,7 +1443,7 @@ namespace gpstk
       // may not be the fastest, but may be fast enough - tranpose() is fast
       SparseMatrix<T> trans(transpose(*this));
       trans.swapRows(ii,jj);
-      *this = transpose(*this);
+      *this = transpose(trans);
    }
 
    //---------------------------------------------------------------------------------
-- 
2.43.0


From a198340fdf87377777c4ee2e2c7a21beea5eb32e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 215/245] fix: inverse of a SparseMatrix with trailing zero
 rows was not refused

---
 ext/lib/Geomatics/SparseMatrix.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index d45f9db..00fbe54 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1563,6 +1563,12 @@ namespace gpstk
          }
 
          const unsigned int N(A.rows());
+         if(i != N) {
+            std::ostringstream oss;
+            oss << "Singular matrix - zero row at index " << i << ")";
+            GPSTK_THROW(Exception(oss.str()));
+         }
+
          typename std::map< unsigned int, SparseVector<T> >::iterator jt,kt;
          typename std::map< unsigned int, T >::iterator vt;
          SparseMatrix<T> GJ(A || identSparse<T>(N));
-- 
2.43.0


From 0d2070834f11947eaf0062ed32fdd4695af64642 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 216/245] fix: inverseLT of a SparseMatrix always returned zero
 as the smallest eigenvalue

---
 ext/lib/Geomatics/SparseMatrix.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 00fbe54..6d1ca0c 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -1798,10 +1798,8 @@ namespace gpstk
          }
 
          dum = it->second[i];
-         if(ptrSmall) {
-            if(ABS(dum) > big) big = ABS(dum);
-            if(ABS(dum) < small) small = ABS(dum);
-         }
+         if(i == 0 || ABS(dum) > big) big = ABS(dum);
+         if(i == 0 || ABS(dum) < small) small = ABS(dum);
 
          // create row i and element i,i in the answer
          dum = T(1)/dum;
-- 
2.43.0


From 8cc1f3a3248f4a6e61cb0e6d9cff67c272c71274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 217/245] fix: the row limit of the sparse measurement update
 was ignored

---
 ext/lib/Geomatics/SparseMatrix.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 6d1ca0c..879484b 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -2031,7 +2031,9 @@ namespace gpstk
       typename std::map< unsigned int, SparseVector<T> >::iterator jt,kt,it;
       typename std::map< unsigned int, T >::iterator vt;
 
-      SparseMatrix<T> AT(transpose(A));         // work with the transpose
+      // work with the transpose, of the first m rows only
+      SparseMatrix<T> AT(transpose(m == A.rows() ?
+                                   A : SparseMatrix<T>(A,0,0,m,A.cols())));
    
       for(j=0; j<n; j++) {          // loop over columns
          jt = AT.rowsMap.find(j);   // is column j empty?
-- 
2.43.0


From 9f436f64346085205326f8b4b31a8a1a48eeb943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 218/245] fix: sparse measurement update failed on all-zero
 data and kept stale residuals

---
 ext/lib/Geomatics/SparseMatrix.hpp | 28 +++++++---------------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 879484b..9a180aa 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -2096,30 +2096,16 @@ namespace gpstk
       }
 
       // must put last row of AT (last column of A) back into A - these are residuals
+      // NB the row is missing when all the residuals are zero
       jt = AT.rowsMap.find(AT.rows()-1);
-      // should never happen
-      if(jt == AT.rowsMap.end()) GPSTK_THROW(Exception("Failure on last column"));
-
-      // put this row, jt->second, into the last column of A
       j = A.cols()-1;
-      i = 0;
-      it = A.rowsMap.begin();
-      vt = jt->second.vecMap.begin();
-      while(it != A.rowsMap.end() && vt != jt->second.vecMap.end()) {
-         if(it->first > vt->first) {         // A has no row at index vt->first
-            SparseVector<T> SV(A.cols());
-            SV.vecMap[j] = vt->second;
-            A.rowsMap[vt->first] = SV;
-            ++vt;
-         }
-         else if(vt->first > it->first) {    // resids are missing at this row
-            ++it;
-         }
-         else {                              // match - equal indexes
-            A.rowsMap[vt->first].vecMap[j] = vt->second;
-            ++it;
-            ++vt;
+      for(i=0; i<m; i++) {
+         T resid(0);
+         if(jt != AT.rowsMap.end()) {
+            vt = jt->second.vecMap.find(i);
+            if(vt != jt->second.vecMap.end()) resid = vt->second;
          }
+         A(i,j) = resid;
       }
 
    }  // end SrifMU
-- 
2.43.0


From 0aa62e21d31f485a76e4b0ce89633a682b67275d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 219/245] fix: sparse measurement update read past the last
 column

---
 ext/lib/Geomatics/SparseMatrix.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SparseMatrix.hpp b/ext/lib/Geomatics/SparseMatrix.hpp
index 9a180aa..464c6bd 100644
--- a/ext/lib/Geomatics/SparseMatrix.hpp
+++ b/ext/lib/Geomatics/SparseMatrix.hpp
@@ -2064,8 +2064,9 @@ namespace gpstk
          for(k=j+1; k<np1; k++) {   // columns to right of diagonal (j,j)
             SparseVector<T> Vk(m);     // will be column k of A
 
-            if(kt->first == k-1) ++kt; // kt now points to next column -- is it k?
-            if(kt->first != k) {       // no col k - should create a column in A...
+            if(kt != AT.rowsMap.end() && kt->first == k-1)
+               ++kt;                   // kt now points to next column -- is it k?
+            if(kt == AT.rowsMap.end() || kt->first != k) { // no col k - should create a column in A...
                AT.rowsMap[k] = Vk;
                kt = AT.rowsMap.find(k);
             }
-- 
2.43.0


From 40e7908e79326cd9bb9da820758640f45b1705c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 220/245] fix: norm of a SparseVector counted the first element
 twice

---
 ext/lib/Geomatics/SparseVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index 264ca39..6e8d32f 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -592,7 +592,7 @@ namespace gpstk
          return T(0);
 
       T tn(ABS(it->second));   // cmath/cstdlib makes this valid for std types
-      for( ; it != SV.vecMap.end(); ++it) {
+      for(++it; it != SV.vecMap.end(); ++it) {
          if(tn > ABS(it->second))
             tn *= SQRT(T(1) + (it->second/tn)*(it->second/tn));
          else if(tn < ABS(it->second))
-- 
2.43.0


From dcfbd6686bd40c27e6ddc0414943fd0197dd461a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:03:44 +0000
Subject: [PATCH 221/245] fix: SparseVector scaled by zero lost its length

---
 ext/lib/Geomatics/SparseVector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SparseVector.hpp b/ext/lib/Geomatics/SparseVector.hpp
index 6e8d32f..115e1e5 100644
--- a/ext/lib/Geomatics/SparseVector.hpp
+++ b/ext/lib/Geomatics/SparseVector.hpp
@@ -846,7 +846,7 @@ namespace gpstk
    SparseVector<T>& SparseVector<T>::operator*=(const T& value)
    {
       if(value == T(0)) {
-         resize(0);
+         clear();
       }
       else {
          typename std::map<unsigned int, T>::iterator it;
-- 
2.43.0


From 70b8c07fd360c18734784b4073419ec14603bf1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:18 +0000
Subject: [PATCH 222/245] fix: inverseUT throws the documented
 SingularMatrixException at every element

---
 ext/lib/Geomatics/SRIMatrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SRIMatrix.hpp b/ext/lib/Geomatics/SRIMatrix.hpp
index 61a3413..807a79c 100644
--- a/ext/lib/Geomatics/SRIMatrix.hpp
+++ b/ext/lib/Geomatics/SRIMatrix.hpp
@@ -389,7 +389,7 @@ namespace gpstk
             if(UT(i,i) == T(0)) {
                std::ostringstream oss;
                oss << "Singular matrix at element " << i;
-               GPSTK_THROW(MatrixException(oss.str()));
+               GPSTK_THROW(SingularMatrixException(oss.str()));
             }
    
             if(fabs(UT(i,i)) > big) big = fabs(UT(i,i));
-- 
2.43.0


From 154b65512136cfcd9e8362eedacecd5e1dcab29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:18 +0000
Subject: [PATCH 223/245] fix: singular solution in SRI is reported as
 SingularMatrixException, so that SRIleastSquares returns -2

---
 ext/lib/Geomatics/SRI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index 948d109..0abac22 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -970,7 +970,7 @@ using namespace StringUtils;
          // how best to test?
          //  ::log(big) - ::log(small) + 1 >= numeric_limits<double>::max_exponent
          if(small <= 10*numeric_limits<double>::epsilon()) {
-            MatrixException me("Singular matrix: condition number is "
+            SingularMatrixException me("Singular matrix: condition number is "
                   + asString<double>(big) + " / " + asString<double>(small));
             GPSTK_THROW(me);
          }
-- 
2.43.0


From 59d2d5c5944b1b74b47f01d923dffff7fbe4349f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:18 +0000
Subject: [PATCH 224/245] fix: retriangularize of a singular SRI put
 information in the wrong rows, so that split() lost it

---
 ext/lib/Geomatics/SRI.cpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index 0abac22..cccb2d6 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -566,11 +566,12 @@ using namespace StringUtils;
          GPSTK_THROW(me);
       }
 
-      Householder<double> HA;
-      HA(A);
-      // submatrix args are matrix,toprow,topcol,numrows,numcols
-      R = Matrix<double>(HA.A,0,0,n,n);
-      Z = Vector<double>(HA.A.colCopy(n));
+      // add the rows of A to an empty SRI; this keeps each row at (or below) its first
+      // non-zero column, also when the information is singular
+      Matrix<double> B(A);
+      R = Matrix<double>(n,n,0.0);
+      Z = Vector<double>(n,0.0);
+      if(n > 0) SrifMU(R,Z,B);
       // NB names cannot be changed - caller must do it.
    }
 
-- 
2.43.0


From 7e34980fcbf0ca42ff6e4582bea6406441db348f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:08:18 +0000
Subject: [PATCH 225/245] fix: SRI::reshape() did not permute, and failed when
 there was nothing to drop or nothing to keep

---
 ext/lib/Geomatics/SRI.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index cccb2d6..d5d4f7d 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -333,7 +333,10 @@ using namespace StringUtils;
    void SRI::reshape(const Namelist& NL)
    {
       try {
-         if(names == NL) return;
+         if(names == NL) {          // the same names: at most a permutation
+            permute(NL);
+            return;
+         }
          Namelist keep(names);
          keep &= NL;                // keep only those in both names and NL
          //Namelist drop(names);    // (drop is unneeded - split would do it)
@@ -342,7 +345,10 @@ using namespace StringUtils;
          add ^= keep;               // add those in NL but not in keep
          SRI Sdrop;                 // make a new SRI to hold the losers
          // would like to allow caller access to Sdrop..
-         split(keep,Sdrop);         // split off only the losers
+         if(keep.size() == 0)       // nothing to keep
+            *this = SRI(0);
+         else if(keep.size() < names.size())
+            split(keep,Sdrop);      // split off only the losers
                                     // NB names = drop | keep; drop & keep is empty
          *this += add;              // add the new ones
          this->permute(NL);         // permute it to match NL
-- 
2.43.0


From ca9513f31e1d527860f4423f5fd9d2233bd00c40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:10 +0000
Subject: [PATCH 226/245] fix: stateFixAndRemove by names read and wrote past
 the reduced matrix

---
 ext/lib/Geomatics/SRI.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ext/lib/Geomatics/SRI.cpp b/ext/lib/Geomatics/SRI.cpp
index d5d4f7d..ac0ee9b 100644
--- a/ext/lib/Geomatics/SRI.cpp
+++ b/ext/lib/Geomatics/SRI.cpp
@@ -849,7 +849,7 @@ using namespace StringUtils;
             for(i=0; i<m; i++) if((int)j == indx[i]) { skip=true; break; }
             if(skip) continue;      // skip col to be dropped
 
-            for(i=0; i<=j; i++) R(i,k) = Rtmp(i,j);
+            for(i=0; i<=k; i++) R(i,k) = Rtmp(i,j);
             k++;
          }
 
-- 
2.43.0


From f6058c2a04d7dbc30f5cb9292b9b6f845753ab1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 227/245] fix: WxObsData::getMostRecent skipped the last
 observation and returned future ones

---
 core/lib/GNSSCore/WxObsMap.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/lib/GNSSCore/WxObsMap.cpp b/core/lib/GNSSCore/WxObsMap.cpp
index 0ec9597..f44b2a3 100644
--- a/core/lib/GNSSCore/WxObsMap.cpp
+++ b/core/lib/GNSSCore/WxObsMap.cpp
@@ -57,10 +57,10 @@ namespace gpstk
          return WxObservation();
      
       WxObsMap::const_iterator i = obs.upper_bound(t);
-      if (i== obs.end())
-         i--;
-      if (i != obs.begin())
-         i--;
+         // nothing observed up to time t
+      if (i == obs.begin())
+         return WxObservation();
+      i--;
       return  i->second;
    };
 
-- 
2.43.0


From 1ffef5dc9db002b2529f539bf2d72770e6aad0d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 228/245] fix: WxObsData::flush of everything read past the end
 of the observations

---
 core/lib/GNSSCore/WxObsMap.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/lib/GNSSCore/WxObsMap.cpp b/core/lib/GNSSCore/WxObsMap.cpp
index f44b2a3..c03db88 100644
--- a/core/lib/GNSSCore/WxObsMap.cpp
+++ b/core/lib/GNSSCore/WxObsMap.cpp
@@ -92,11 +92,17 @@ namespace gpstk
          {
             obs.erase(i);
             i = obs.begin();
-            firstTime = i->second.t;
          }
          else
             break;
       }
+      if (obs.empty())
+      {
+         firstTime = CommonTime::END_OF_TIME;
+         lastTime = CommonTime::BEGINNING_OF_TIME;
+      }
+      else
+         firstTime = obs.begin()->second.t;
    }
 
    WxObservation WxObsData::getWxObservation(const CommonTime& t,
-- 
2.43.0


From 43b34ca774b69ec0a1af4603bdeaee3b89dc8c47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 229/245] fix: EpochDataStore::edit kept all data when the
 interval lies outside the data

---
 core/lib/TimeHandling/EpochDataStore.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/core/lib/TimeHandling/EpochDataStore.cpp b/core/lib/TimeHandling/EpochDataStore.cpp
index d37f53f..24c51c4 100644
--- a/core/lib/TimeHandling/EpochDataStore.cpp
+++ b/core/lib/TimeHandling/EpochDataStore.cpp
@@ -77,8 +77,7 @@ namespace gpstk
          tmax = m;
       }
 
-      if(tmin > finalTime) return;
-      if(tmax < initialTime) return;
+      if(allData.empty()) return;
 
       EpochData::iterator it = allData.lower_bound(tmin);
       if(it != allData.begin())
-- 
2.43.0


From b8c050e3e55ec0d8e0f54870b45b7ba0d588f790 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 230/245] fix: EpochDataStore::clear kept the old time limits,
 so that queries read an empty table

---
 core/lib/TimeHandling/EpochDataStore.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/lib/TimeHandling/EpochDataStore.hpp b/core/lib/TimeHandling/EpochDataStore.hpp
index 4faaea6..01bdfc3 100644
--- a/core/lib/TimeHandling/EpochDataStore.hpp
+++ b/core/lib/TimeHandling/EpochDataStore.hpp
@@ -94,7 +94,11 @@ namespace gpstk
       
          /// clear the all the data
       void clear()
-      { allData.clear(); }
+      {
+         allData.clear();
+         initialTime = CommonTime::END_OF_TIME;
+         finalTime = CommonTime::BEGINNING_OF_TIME;
+      }
 
          /** Edit the dataset, removing data outside the indicated time
           *  interval.
-- 
2.43.0


From b0a15006fa5c523d4d026bb27502d1129cf18d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 231/245] fix: EOPStore::edit kept all data when the interval
 lies outside the data

---
 ext/lib/Geomatics/EOPStore.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/ext/lib/Geomatics/EOPStore.cpp b/ext/lib/Geomatics/EOPStore.cpp
index 5c95298..38cc854 100644
--- a/ext/lib/Geomatics/EOPStore.cpp
+++ b/ext/lib/Geomatics/EOPStore.cpp
@@ -192,8 +192,7 @@ namespace gpstk
          mjdmax = m;
       }
 
-      if(mjdmin > endMJD) return;
-      if(mjdmax < begMJD) return;
+      if(mapMJD_EOP.empty()) return;
 
       map<int,EarthOrientation>::iterator it;
       it = mapMJD_EOP.lower_bound(mjdmin);
-- 
2.43.0


From 0971bb4bc72536342f1a344000d91ba9479fa2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 232/245] fix: answers of IonoModelStore depended on the order
 in which models were added

---
 core/lib/GNSSCore/IonoModelStore.cpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/core/lib/GNSSCore/IonoModelStore.cpp b/core/lib/GNSSCore/IonoModelStore.cpp
index 952f8e3..8579d20 100644
--- a/core/lib/GNSSCore/IonoModelStore.cpp
+++ b/core/lib/GNSSCore/IonoModelStore.cpp
@@ -92,15 +92,11 @@ namespace gpstk
       if (!im.isValid())
          return false;
 
-      IonoModelMap::const_iterator i = ims.upper_bound(mt);
-      if (!ims.empty() && i != ims.begin())
-      {
-            // compare to previous stored model and if they have the
-            // the same alpha and beta parameters don't store it
-         i--;
-         if (im == i->second)
-            return false;
-      }
+         // Don't store the same model at the same time again. A model equal to the
+         // previous one must be stored, as another one may yet be added in between.
+      IonoModelMap::const_iterator i = ims.find(mt);
+      if (i != ims.end() && im == i->second)
+         return false;
 
       ims[mt] = im;
 
-- 
2.43.0


From 66136b3dafc4d804c0b92ae59cbc97cebcabaad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:05 +0000
Subject: [PATCH 233/245] fix: the message of an unknown PRN or NAVSTAR number
 in SVNumXRef overran its buffer

---
 core/lib/GNSSCore/SVNumXRef.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/core/lib/GNSSCore/SVNumXRef.cpp b/core/lib/GNSSCore/SVNumXRef.cpp
index 0524bef..02c98bc 100644
--- a/core/lib/GNSSCore/SVNumXRef.cpp
+++ b/core/lib/GNSSCore/SVNumXRef.cpp
@@ -572,10 +572,10 @@ int SVNumXRef::getNAVSTAR( const int PRNID, const gpstk::CommonTime dt ) const
    
       // We didn't find a NAVSTAR # for this PRN ID and date, so throw an 
       // exception.
-   char textOut[80];
-   sprintf(textOut,"No NAVSTAR # found associated with PRN ID %d at requested date: %s.", 
-            PRNID,printTime(dt,"%02m/%02d/%04Y").c_str() ); 
-   std::string sout = textOut;
+   std::ostringstream textOut;
+   textOut << "No NAVSTAR # found associated with PRN ID " << PRNID
+           << " at requested date: " << printTime(dt,"%02m/%02d/%04Y") << ".";
+   std::string sout = textOut.str();
    NoNAVSTARNumberFound noFound( sout );
    GPSTK_THROW(noFound); 
    return 0;
@@ -644,10 +644,10 @@ int SVNumXRef::getPRNID( const int NAVSTARID, const gpstk::CommonTime dt ) const
 
       // We didn't find a PRN ID for this NAVSTAR # and date, so throw an 
       // exception.
-   char textOut[80];
-   sprintf(textOut,"No PRN ID found associated with NAVSTAR Num %d at requested date: %s.", 
-            NAVSTARID,printTime(dt,"%02m/%02d/%04Y").c_str() ); 
-   std::string sout = textOut;
+   std::ostringstream textOut;
+   textOut << "No PRN ID found associated with NAVSTAR Num " << NAVSTARID
+           << " at requested date: " << printTime(dt,"%02m/%02d/%04Y") << ".";
+   std::string sout = textOut.str();
    NoNAVSTARNumberFound noFound( sout );
    GPSTK_THROW(noFound);
    return 0;
-- 
2.43.0


From e7bd7b4ba73cd0f98c81038ca96c7ac7d242cfaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:30 +0000
Subject: [PATCH 234/245] fix: EpochDataStore::edit crashed when it removed all
 data

---
 core/lib/TimeHandling/EpochDataStore.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/core/lib/TimeHandling/EpochDataStore.cpp b/core/lib/TimeHandling/EpochDataStore.cpp
index 24c51c4..d46c80a 100644
--- a/core/lib/TimeHandling/EpochDataStore.cpp
+++ b/core/lib/TimeHandling/EpochDataStore.cpp
@@ -91,24 +91,15 @@ namespace gpstk
          allData.erase(it, allData.end());
       }
 
-      it = allData.begin();
-      if(it == allData.end())
+      if(allData.empty())
       {
          initialTime = CommonTime::END_OF_TIME;
-      }
-      else
-      {
-         initialTime = it->first;
-      }
-
-      it = allData.end();
-      if(--it == allData.end())
-      {
          finalTime = CommonTime::BEGINNING_OF_TIME;
       }
-      else 
+      else
       {
-         finalTime = it->first;
+         initialTime = allData.begin()->first;
+         finalTime = allData.rbegin()->first;
       }
 
    } // End of method 'EpochDataStore::edit()'
-- 
2.43.0


From fed35c85f44d537ed6264d01c96940fc98e72faf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:29:30 +0000
Subject: [PATCH 235/245] fix: EOPStore::edit crashed when it removed all data

---
 ext/lib/Geomatics/EOPStore.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/ext/lib/Geomatics/EOPStore.cpp b/ext/lib/Geomatics/EOPStore.cpp
index 38cc854..f340aef 100644
--- a/ext/lib/Geomatics/EOPStore.cpp
+++ b/ext/lib/Geomatics/EOPStore.cpp
@@ -203,17 +203,12 @@ namespace gpstk
       if(it != mapMJD_EOP.end())
          mapMJD_EOP.erase(it, mapMJD_EOP.end());
 
-      it = mapMJD_EOP.begin();
-      if(it == mapMJD_EOP.end())
-         begMJD = -1;
-      else 
-         begMJD = it->first;
-
-      it = mapMJD_EOP.end();
-      if(--it == mapMJD_EOP.end())
-         endMJD = -1;
-      else 
-         endMJD = it->first;
+      if(mapMJD_EOP.empty())
+         begMJD = endMJD = -1;
+      else {
+         begMJD = mapMJD_EOP.begin()->first;
+         endMJD = mapMJD_EOP.rbegin()->first;
+      }
    }
 
    //---------------------------------------------------------------------------------
-- 
2.43.0


From 53982ee424398072c78c27334d9934b843b3c537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:35 +0000
Subject: [PATCH 236/245] fix: GloEphemerisStore::edit lost the final time when
 one record remained

---
 core/lib/GNSSEph/GloEphemerisStore.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/lib/GNSSEph/GloEphemerisStore.cpp b/core/lib/GNSSEph/GloEphemerisStore.cpp
index 691b5b0..f923cd0 100644
--- a/core/lib/GNSSEph/GloEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GloEphemerisStore.cpp
@@ -451,7 +451,7 @@ namespace gpstk
                   // Update 'initialTime' and 'finalTime', if necessary
                if (t < initialTime)
                   initialTime = t;
-               else if (t > finalTime)
+               if (t > finalTime)
                   finalTime = t;
 
             }  // End of 'if ( ( (*tgmIter).first >= tmin ) && ...'
-- 
2.43.0


From 31a55430a7999d3397e4ae02fa44007522237a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:54 +0000
Subject: [PATCH 237/245] fix: GloEphemerisStore did not select the nearest
 record, as documented

---
 core/lib/GNSSEph/GloEphemerisStore.cpp | 90 +++++++-------------------
 1 file changed, 24 insertions(+), 66 deletions(-)

diff --git a/core/lib/GNSSEph/GloEphemerisStore.cpp b/core/lib/GNSSEph/GloEphemerisStore.cpp
index f923cd0..a0554fb 100644
--- a/core/lib/GNSSEph/GloEphemerisStore.cpp
+++ b/core/lib/GNSSEph/GloEphemerisStore.cpp
@@ -49,6 +49,22 @@ using namespace std;
 namespace gpstk
 {
 
+      // Find the record nearest in time to the given epoch (the later
+      // one of two records at the same distance); the map is not empty.
+   static TimeGloMap::const_iterator
+   nearestRecord(const TimeGloMap& sem, const CommonTime& epoch)
+   {
+      TimeGloMap::const_iterator i = sem.lower_bound(epoch);
+      if (i == sem.begin())
+         return i;
+      TimeGloMap::const_iterator prev = i;
+      --prev;
+      if ((i == sem.end()) || ((epoch - prev->first) < (i->first - epoch)))
+         return prev;
+      return i;
+   }
+
+
       // Add ephemeris information from a Rinex3NavData object.
    bool GloEphemerisStore::addEphemeris(const Rinex3NavData& data)
    {
@@ -126,26 +142,12 @@ namespace gpstk
          // Let's take the second part of the EphMap
       const TimeGloMap& sem = svmap->second;
 
-         // Look for 'i': the first element whose key >= epoch.
-      TimeGloMap::const_iterator i = sem.lower_bound(epoch);;
+         // Select the record nearest to the epoch.
+      TimeGloMap::const_iterator i = nearestRecord(sem, epoch);
 
          // Values to be returned will be stored here
       Xvt sv;
 
-         // If we reached the end, the requested time is beyond the last
-         // ephemeris record, but it may still be within the allowable time
-         // span, so we can use the last record.
-      if ( i == sem.end() )
-      {
-         i = --i;
-      }
-
-         // If key > (epoch+900), we must use the previous record if possible.
-      if ( ( i->first > (epoch+900.0) ) && ( i != sem.begin() ) )
-      {
-         i = --i;
-      }
-
          // Check that the given epoch is within the available time limits for
          // this specific satellite, with a margin of 15 minutes (900 seconds).
       if ( epoch <  (i->first - 900.0) ||
@@ -203,23 +205,8 @@ namespace gpstk
             // Let's take the second part of the EphMap
          const TimeGloMap& sem = svmap->second;
 
-            // Look for 'i': the first element whose key >= epoch.
-         TimeGloMap::const_iterator i = sem.lower_bound(epoch);;
-
-            // If we reached the end, the requested time is beyond the last
-            // ephemeris record, but it may still be within the allowable time
-            // span, so we can use the last record.
-         if (i == sem.end())
-         {
-            i = --i;
-         }
-
-            // If key > (epoch+900), we must use the previous record
-            // if possible.
-         if ((i->first > (epoch+900.0)) && (i != sem.begin()))
-         {
-            i = --i;
-         }
+            // Select the record nearest to the epoch.
+         TimeGloMap::const_iterator i = nearestRecord(sem, epoch);
 
             // Check that the given epoch is within the available time
             // limits for this specific satellite, with a margin of 15
@@ -282,23 +269,8 @@ namespace gpstk
             // Let's take the second part of the EphMap
          const TimeGloMap& sem = svmap->second;
 
-            // Look for 'i': the first element whose key >= epoch.
-         TimeGloMap::const_iterator i = sem.lower_bound(epoch);;
-
-            // If we reached the end, the requested time is beyond the last
-            // ephemeris record, but it may still be within the allowable time
-            // span, so we can use the last record.
-         if (i == sem.end())
-         {
-            i = --i;
-         }
-
-            // If key > (epoch+900), we must use the previous record
-            // if possible.
-         if ((i->first > (epoch+900.0)) && (i != sem.begin()))
-         {
-            i = --i;
-         }
+            // Select the record nearest to the epoch.
+         TimeGloMap::const_iterator i = nearestRecord(sem, epoch);
 
             // Check that the given epoch is within the available time
             // limits for this specific satellite, with a margin of 15
@@ -578,22 +550,8 @@ namespace gpstk
          // Let's take the second part of the EphMap
       const TimeGloMap& sem = svmap->second;
 
-         // 'i' will be the first element whose key >= epoch.
-      TimeGloMap::const_iterator i = sem.lower_bound(epoch);
-
-         // If we reached the end, the requested time is beyond the last
-         // ephemeris record, but it may still be within the allowable time
-         // span, so we can use the last record.
-      if ( i == sem.end() )
-      {
-         i = --i;
-      }
-
-         // If key > (epoch+900), we must use the previous record if possible.
-      if ( ( i->first > (epoch+900.0) ) && ( i != sem.begin() ) )
-      {
-         i = --i;
-      }
+         // Select the record nearest to the epoch.
+      TimeGloMap::const_iterator i = nearestRecord(sem, epoch);
 
          // Check that the given epoch is within the available time limits for
          // this specific satellite, with a margin of 15 minutes (900 seconds).
-- 
2.43.0


From dd591d5fffe66ff0e494aca0c76abf3d21443fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:54 +0000
Subject: [PATCH 238/245] fix: CNavDataElementStore never updated its initial
 and final times

---
 ext/lib/GNSSEph/CNavDataElementStore.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ext/lib/GNSSEph/CNavDataElementStore.cpp b/ext/lib/GNSSEph/CNavDataElementStore.cpp
index 731a46e..ff67f6d 100644
--- a/ext/lib/GNSSEph/CNavDataElementStore.cpp
+++ b/ext/lib/GNSSEph/CNavDataElementStore.cpp
@@ -53,8 +53,8 @@ using namespace gpstk;
 namespace gpstk
 {
    CNavDataElementStore::CNavDataElementStore(bool keepOnlyUnique):
-      initialTime(CommonTime::BEGINNING_OF_TIME),
-      finalTime(CommonTime::END_OF_TIME),
+      initialTime(CommonTime::END_OF_TIME),
+      finalTime(CommonTime::BEGINNING_OF_TIME),
       keepingOnlyUnique(false)
     {
        initialTime.setTimeSystem(TimeSystem::GPS); 
-- 
2.43.0


From 7108381575b831a5e6b7ef4856455788f7ec83e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:54 +0000
Subject: [PATCH 239/245] fix: OrbSysStore::find across satellites ignored the
 navigation message type

---
 ext/lib/GNSSEph/OrbSysStore.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ext/lib/GNSSEph/OrbSysStore.cpp b/ext/lib/GNSSEph/OrbSysStore.cpp
index 4d4fd98..5b63296 100644
--- a/ext/lib/GNSSEph/OrbSysStore.cpp
+++ b/ext/lib/GNSSEph/OrbSysStore.cpp
@@ -846,6 +846,7 @@ namespace gpstk
          const NM_UID_MSG_MAP& NMmapr = cit1->second;
          for (cit2=NMmapr.begin();cit2!=NMmapr.end();cit2++)
          {
+            if (cit2->first != navtype) continue;
             const UID_MSG_MAP& UIDmapr = cit2->second;
             for (cit3=UIDmapr.begin();cit3!=UIDmapr.end();cit3++)
             {
-- 
2.43.0


From 1097070289d0fdf99b7fbb344120982baedc931a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:54 +0000
Subject: [PATCH 240/245] fix: OrbSysStore::find crashed after deleteMessage
 removed the last message of a type

---
 ext/lib/GNSSEph/OrbSysStore.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/ext/lib/GNSSEph/OrbSysStore.cpp b/ext/lib/GNSSEph/OrbSysStore.cpp
index 5b63296..7713262 100644
--- a/ext/lib/GNSSEph/OrbSysStore.cpp
+++ b/ext/lib/GNSSEph/OrbSysStore.cpp
@@ -245,6 +245,11 @@ namespace gpstk
 
       delete it4->second;
       mapr.erase(it4);
+
+         // Do not leave empty levels behind, find() expects none
+      if (mapr.empty()) UIDmapr.erase(it3);
+      if (UIDmapr.empty()) NMmapr.erase(it2);
+      if (NMmapr.empty()) msgMap.erase(it1);
    }
 
 //--------------------------------------------------------------------------
-- 
2.43.0


From ad8013effb9f375a9f8349f763615688da138d05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:54 +0000
Subject: [PATCH 241/245] fix: OrbAlmStore::clear kept the time limits of the
 removed data

---
 ext/lib/GNSSEph/OrbAlmStore.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ext/lib/GNSSEph/OrbAlmStore.cpp b/ext/lib/GNSSEph/OrbAlmStore.cpp
index 6cb248c..5e3d9a6 100644
--- a/ext/lib/GNSSEph/OrbAlmStore.cpp
+++ b/ext/lib/GNSSEph/OrbAlmStore.cpp
@@ -581,6 +581,10 @@ namespace gpstk
          uam.clear();
       }
       xmitAlmMap.clear();
+      initialTime = CommonTime::END_OF_TIME;
+      finalTime   = CommonTime::BEGINNING_OF_TIME;
+      initialTime.setTimeSystem(TimeSystem::Any);
+      finalTime.setTimeSystem(TimeSystem::Any);
    }
 
 
-- 
2.43.0


From 584bb42716043e74cbacde881b0b6be996c254c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:46:54 +0000
Subject: [PATCH 242/245] fix: OrbAlmStore::sizeSubjAlm wrote to standard
 output

---
 ext/lib/GNSSEph/OrbAlmStore.cpp | 4 ----
 1 file changed, 4 deletions(-)

diff --git a/ext/lib/GNSSEph/OrbAlmStore.cpp b/ext/lib/GNSSEph/OrbAlmStore.cpp
index 5e3d9a6..7adaa9d 100644
--- a/ext/lib/GNSSEph/OrbAlmStore.cpp
+++ b/ext/lib/GNSSEph/OrbAlmStore.cpp
@@ -624,10 +624,6 @@ namespace gpstk
       {
          const OrbAlmMap& oem = i->second;
          counter = oem.size();
-
-         const SatID& sidr = i->first;
-         cout << " sat: " << sidr << endl;
-         cout << " counter : " << counter << endl;
       }
       return counter;
    }
-- 
2.43.0


From 7bf98c06dc1841efb8866b621bdd82f375ec2f9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:45 +0000
Subject: [PATCH 243/245] fix: RinexObsDataOperatorLessThanFull was not a
 strict weak ordering

Records with different satellites compared as equivalent, and a record
with one larger and one smaller value compared less in both directions.
---
 .../RINEX/RinexObsFilterOperators.hpp         | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp b/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
index 8a6bde8..c0c9a73 100644
--- a/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX/RinexObsFilterOperators.hpp
@@ -107,15 +107,14 @@ namespace gpstk
             // then check that each PRN has the same data for each of the
             // shared fields
          gpstk::RinexObsData::RinexSatMap::const_iterator lItr =
-            l.obs.begin(), rItr;
-
-         gpstk::SatID sat;
+            l.obs.begin(), rItr = r.obs.begin();
 
          while (lItr != l.obs.end())
          {
-            sat = (*lItr).first;
-            rItr = r.obs.find(sat);
-            if (rItr == r.obs.end())
+               // different satellites: order by the satellites themselves
+            if ((*lItr).first < (*rItr).first)
+               return true;
+            if ((*rItr).first < (*lItr).first)
                return false;
 
             gpstk::RinexObsData::RinexObsTypeMap
@@ -133,19 +132,30 @@ namespace gpstk
 
                if (lData.data < rData.data)
                   return true;
+               if (lData.data > rData.data)
+                  return false;
 
                if ( (lData.lli != 0) && (rData.lli != 0) )
+               {
                   if (lData.lli < rData.lli)
                      return true;
+                  if (lData.lli > rData.lli)
+                     return false;
+               }
 
                if ( (lData.ssi != 0) && (rData.ssi != 0) )
+               {
                   if (lData.ssi < rData.ssi)
                      return true;
+                  if (lData.ssi > rData.ssi)
+                     return false;
+               }
 
                obsItr++;
             }
 
             lItr++;
+            rItr++;
          }
 
             // the data is either == or > at this point
-- 
2.43.0


From e165daf97002059972a9bfcbbf847df0038535ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:45 +0000
Subject: [PATCH 244/245] fix: Rinex3ObsDataOperatorLessThanFull was not a
 strict weak ordering

Records with different satellites compared as equivalent, and a record
with one larger and one smaller value compared less in both directions.
---
 .../RINEX3/Rinex3ObsFilterOperators.hpp       | 43 ++++++++++++++-----
 1 file changed, 32 insertions(+), 11 deletions(-)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp b/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
index d93c73f..451cae2 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
@@ -120,12 +120,17 @@ namespace gpstk
 
             // then check that each PRN has the same data for each of the
             // fields
-         Rinex3ObsData::DataMap::const_iterator lItr;
-         for (lItr = l.obs.begin(); lItr != l.obs.end(); lItr++)
+         Rinex3ObsData::DataMap::const_iterator lItr, rItr;
+         for (lItr = l.obs.begin(), rItr = r.obs.begin();
+              lItr != l.obs.end();
+              lItr++, rItr++)
          {
-            SatID sat = lItr->first;
-            Rinex3ObsData::DataMap::const_iterator rItr = r.obs.find(sat);
-            if (rItr == r.obs.end())
+               // different satellites: order by the satellites themselves
+            if (lItr->first < rItr->first)
+            {
+               return true;
+            }
+            if (rItr->first < lItr->first)
             {
                return false;
             }
@@ -148,17 +153,33 @@ namespace gpstk
                   {
                      return true;
                   }
+                  if (rData.data + epsilon < lData.data)
+                  {
+                     return false;
+                  }
 
-                  if (lData.lli != 0 && rData.lli != 0) if (lData.lli <
-                                                            rData.lli)
+                  if (lData.lli != 0 && rData.lli != 0)
                   {
-                     return true;
+                     if (lData.lli < rData.lli)
+                     {
+                        return true;
+                     }
+                     if (rData.lli < lData.lli)
+                     {
+                        return false;
+                     }
                   }
 
-                  if (lData.ssi != 0 && rData.ssi != 0) if (lData.ssi <
-                                                            rData.ssi)
+                  if (lData.ssi != 0 && rData.ssi != 0)
                   {
-                     return true;
+                     if (lData.ssi < rData.ssi)
+                     {
+                        return true;
+                     }
+                     if (rData.ssi < lData.ssi)
+                     {
+                        return false;
+                     }
                   }
                }
             }
-- 
2.43.0


From 58ce94ba0a1e849e9b47ab51bdcea041c34e6ab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:40:50 +0000
Subject: [PATCH 245/245] fix: Rinex3ObsDataOperatorLessThanFull read past the
 observations in mixed files

Observation indices of every satellite system were applied to each
satellite's own observation vector.
---
 core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp b/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
index 451cae2..6a6b4a3 100644
--- a/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
+++ b/core/lib/FileHandling/RINEX3/Rinex3ObsFilterOperators.hpp
@@ -140,6 +140,11 @@ namespace gpstk
             Rinex3ObsHeader::RinexObsMap::const_iterator romItr;
             for(romItr = rom.begin(); romItr != rom.end(); romItr++)
             {
+                  // only this satellite system's observations are in lObs
+               if (romItr->first != std::string(1, lItr->first.systemChar()))
+               {
+                  continue;
+               }
                Rinex3ObsHeader::RinexObsVec::const_iterator rvItr;
                for(rvItr = romItr->second.begin();
                    rvItr != romItr->second.end();
-- 
2.43.0

