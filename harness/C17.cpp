// C17 GLONASS and almanac stores: every short history of additions and edits of each store, each query compared with a list model
// MC-SAN: assert
// MC-RULE: a query returns the record documented for that satellite and time (nearest GLONASS record or almanac, last message or almanac transmitted before), fails when there is none, and contents, counts and limits are those added
// MC-ASSUME: at equal distance, and exactly on the edge of a validity window, either answer is accepted ; records on the ends of an edit interval are not judged for the almanac store
#include "mc.hpp"
#include <memory>
#include <map>
#include <set>
#include <list>
#include <array>
#include <algorithm>
#include "GloEphemerisStore.hpp"
#include "GPSAlmanacStore.hpp"
#include "OrbAlmStore.hpp"
#include "OrbSysStore.hpp"
#include "CNavDataElementStore.hpp"
#include "GPSWeekSecond.hpp"
using namespace mc; using namespace gpstk; using namespace std;
static CommonTime T(double s,TimeSystem ts=TimeSystem::GPS){ CommonTime t; long d=2458900+(long)floor(s/86400.0); double r=s-floor(s/86400.0)*86400.0; t.set(d,(long)floor(r),r-floor(r),ts); return t; }
struct Sys: public OrbDataSys { int pay; Sys(int s,NavType n,unsigned long u,double t,int p):pay(p){ UID=u; satID=SatID(s,SatelliteSystem::GPS); obsID=n==NavType::GPSLNAV?ObsID(ObservationType::NavMsg,CarrierBand::L1,TrackingCode::CA):ObsID(ObservationType::NavMsg,CarrierBand::L2,TrackingCode::L2CM); beginValid=T(t); dataLoadedFlag=true; }
   OrbDataSys* clone() const { return new Sys(*this); } string getName() const { return "T"; } string getNameLong() const { return "T"; } void dumpTerse(ostream&) const {} void dumpHeader(ostream&) const {} void dumpBody(ostream&) const {} void dumpFooter(ostream&) const {}
   bool isSameData(const OrbData* r) const { const Sys* p=dynamic_cast<const Sys*>(r); return p&&p->pay==pay&&p->UID==UID&&p->satID==satID; } };
struct Alm: public OrbAlm { int pay; Alm(int subj,int xmit,double b,double e,int p):pay(p){ subjectSV=SatID(subj,SatelliteSystem::GPS); satID=SatID(xmit,SatelliteSystem::GPS); beginValid=T(b); endValid=T(e); ctToe=T(20000+p%2); dataLoadedFlag=true; setHealthy(p==0); }
   OrbAlm* clone() const { return new Alm(*this); } bool isSameData(const OrbElemBase* r) const { const Alm* p=dynamic_cast<const Alm*>(r); return p&&p->pay==pay&&p->subjectSV==subjectSV; }
   double svClockBias(const CommonTime&) const { return 0; } double svClockBiasM(const CommonTime&) const { return 0; } double svClockDrift(const CommonTime&) const { return 0; } Xvt svXvt(const CommonTime& t) const { Xvt x; x.x=Triple(pay,subjectSV.id,satID.id); return x; } double svRelativity(const CommonTime&) const { return 0; } void dumpBody(ostream&) const {} void dumpFooter(ostream&) const {} };
struct Cde: public CNavDataElement { int pay; Cde(int s,double t,int p):pay(p){ satID=SatID(s,SatelliteSystem::GPS); ctXmit=T(t); dataLoadedFlag=true; } CNavDataElement* clone() const { return new Cde(*this); } string getName() const { return "T"; } string getNameLong() const { return "T"; } bool isSameData(const CNavDataElement* r) const { const Cde* p=dynamic_cast<const Cde*>(r); return p&&p->pay==pay; } void dumpBody(ostream&) const {} };
int main(int argc,char**argv){
   Harness h("C17"); bool deep=h.thorough;
   const CommonTime B=CommonTime::BEGINNING_OF_TIME,E=CommonTime::END_OF_TIME;
   // ------------------------------------------------------------------ GLONASS
   { static const double G[7]={0,900,1800,3600,5400,6300,9000}; static vector<double> Q; { set<double> s; for(double g:G) for(double d:{-1800.,-901.,-900.,-899.,-450.,-1.,0.,1.,449.,450.,451.,899.,900.,901.,1800.}) s.insert(g+d); Q.assign(s.begin(),s.end()); }
     int n=deep?4:3; u64 N=1; for(int k=0;k<n;k++) N*=29; // nothing or time(7) x sat(2) x health(2)
     h.part("GLONASS records: every history of additions, every edge of every window",N*2,[=](Ctx& c,u64 i){ Mix m(i); bool only=m(2); GloEphemerisStore S; S.setCheckHealthFlag(only); map<int,map<double,pair<int,double>>> R; string d=only?"healthy only: ":""; bool gap=false;
        for(int k=0;k<n;k++){ int o=m(29); if(o==28){ gap=true; continue; } if(gap) return; double t=G[o%7]; int sat=1+(o/7)%2,hl=o/14; Rinex3NavData r; r.time=T(t,TimeSystem::GLO); r.sat=RinexSatID(sat,SatelliteSystem::Glonass); r.satSys="R"; r.PRNID=sat; r.health=hl; r.TauN=1e-4*(k+1); r.GammaN=0.0; r.MFtime=0.0; r.freqNum=1; r.ageOfInfo=0.0; r.px=11000.0;r.py=12000.0;r.pz=19500.0; r.vx=1.0;r.vy=2.0;r.vz=-1.8; r.ax=0.0; r.ay=0.0; r.az=0.0; c.at(d); bool a=S.addEphemeris(r),w=!only||!hl; MC_CK(c,a==w,"glo:added",d<<": record with health "<<hl<<" added="<<a); if(w) R[sat][t]=make_pair(hl,r.TauN); c.trans(1); d+="R"+to_string(sat)+"@"+to_string((int)t)+(hl?"u ":" "); }
        auto ask=[&](GloEphemerisStore& s,map<int,map<double,pair<int,double>>>& R,string d){ c.states(1); double lo=1e30,hi=-1e30; int cnt=0; for(auto&x:R) for(auto&y:x.second){ lo=min(lo,y.first); hi=max(hi,y.first); cnt++; }
           MC_CK(c,s.size()==(int)R.size()&&s.getIndexSet().size()==R.size(),"glo:size",d<<": "<<s.size()<<" satellites"); list<GloEphemeris> l; int g=s.addToList(l); MC_CK(c,g==cnt&&(int)l.size()==cnt,"glo:list",d<<": list of "<<l.size()<<", expected "<<cnt);
           string x=thrown([&]{ CommonTime a=s.getInitialTime(),b=s.getFinalTime(); if(cnt) MC_CK(c,a==T(lo,TimeSystem::GLO)&&b==T(hi,TimeSystem::GLO),"glo:limits",d<<": limits "<<a<<" to "<<b); }); MC_CK(c,x==(cnt?"":"InvalidRequest"),"glo:limits",d<<": "<<x);
           for(int sat=1;sat<=3;sat++){ SatID id(sat,SatelliteSystem::Glonass); bool has=R.count(sat); MC_CK(c,s.isPresent(id)==has,"glo:present",d<<" R"<<sat); CommonTime a=s.getInitialTime(id),b=s.getFinalTime(id); MC_CK(c,a==(has?T(R[sat].begin()->first,TimeSystem::GLO):E)&&b==(has?T(R[sat].rbegin()->first,TimeSystem::GLO):B),"glo:satellite-limits",d<<" R"<<sat<<" "<<a<<" "<<b); if(!has) R.erase(sat);
              for(double q:Q){ double best=1e30; set<double> tau; set<int> hl; bool edge=false; if(has){ for(auto&y:R[sat]) best=min(best,fabs(y.first-q)); for(auto&y:R[sat]) if(fabs(y.first-q)==best){ tau.insert(y.second.second); hl.insert(y.second.first); } } edge=best==900; bool ok=best<=900; CommonTime t=T(q,TimeSystem::GLO); double g=-1; c.eval(1);
                 string e=thrown([&]{ g=s.findEphemeris(id,t).getTauN(); }); MC_CK(c,e==(ok?"":"InvalidRequest")||(edge&&e=="InvalidRequest"),"glo:find",d<<" R"<<sat<<" at "<<q<<": "<<e<<" found "<<g<<" nearest record is "<<best<<" s away"); if(ok&&e=="") MC_CK(c,tau.count(g),"glo:nearest",d<<" R"<<sat<<" at "<<q<<": record "<<g/1e-4<<" is not the nearest ("<<*tau.begin()/1e-4<<")");
                 auto hs=s.getSVHealth(id,t); bool un=hs==Xvt::HealthStatus::Unavailable; MC_CK(c,(un==!ok)||edge,"glo:health-available",d<<" R"<<sat<<" at "<<q<<" health "<<(int)hs); if(ok&&!un) MC_CK(c,(hl.count(0)&&hs==Xvt::HealthStatus::Healthy)||(hl.count(1)&&hs==Xvt::HealthStatus::Unhealthy),"glo:health",d<<" R"<<sat<<" at "<<q<<" health "<<(int)hs);
                 MC_CK(c,un==(s.computeXvt(SatID(99,SatelliteSystem::Glonass),t).health==Xvt::HealthStatus::Unavailable?un:!un),"glo:absent",d);
                 if(best<=1||best==451||best>900||(edge&&i%5==0)){ Xvt v; string y=thrown([&]{ v=s.getXvt(id,t); }); MC_CK(c,(y==(ok?"":"InvalidRequest"))||(edge&&y=="InvalidRequest"),"glo:xvt",d<<" R"<<sat<<" at "<<q<<": "<<y); Xvt w=s.computeXvt(id,t); MC_CK(c,(w.health==Xvt::HealthStatus::Unavailable)==(y!=""),"glo:compute",d<<" R"<<sat<<" at "<<q<<": getXvt "<<y<<" computeXvt health "<<(int)w.health); if(y==""){ bool f=false; for(double a:tau) f|=fabs(v.clkbias+v.relcorr-a)<1e-12||fabs(v.clkbias+v.relcorr+a)<1e-12; MC_CK(c,f,"glo:xvt-record",d<<" R"<<sat<<" at "<<q<<": clock "<<v.clkbias); MC_CK(c,w.x==v.x&&w.v==v.v&&w.clkbias==v.clkbias&&((w.health==Xvt::HealthStatus::Healthy&&hl.count(0))||(w.health==Xvt::HealthStatus::Unhealthy&&hl.count(1))),"glo:compute",d<<" R"<<sat<<" at "<<q<<" differs from getXvt"); } } } }
           string y=thrown([&]{ s.getXvt(SatID(1,SatelliteSystem::Glonass),T(0,TimeSystem::GPS)); }); MC_CK(c,y=="InvalidRequest","glo:time-system",d<<" "<<y); };
        ask(S,R,d); if(!only&&!R.empty()) for(double a:{-1.,0.,1.,900.,3600.}) for(double b:{0.,899.,900.,1800.,3600.,9001.}) if(a<=b){ if(!deep&&((int)(i+a+b/7))%6) continue; GloEphemerisStore s(S); s.edit(T(a,TimeSystem::GLO),T(b,TimeSystem::GLO)); map<int,map<double,pair<int,double>>> r; for(auto&x:R) for(auto&z:x.second) if(z.first>=a&&z.first<=b) r[x.first].insert(z); c.trans(1); ask(s,r,d+"edit "+to_string((int)a)+".."+to_string((int)b)); }
        GloEphemerisStore z(S); z.clear(); map<int,map<double,pair<int,double>>> none; if(i%11==0) ask(z,none,d+" clear"); },240); }
   // ------------------------------------------------------------------ system messages
   { static const double G[4]={100,200,200.5,3000}; int n=deep?4:3; u64 per=32+1; u64 N=1; for(int k=0;k<n;k++) N*=(k<3?per:17);
     h.part("system messages: every history of additions",N*2,[=](Ctx& c,u64 i){ Mix m(i); bool all=m(2); OrbSysStore S(all); typedef array<int,3> K; map<K,map<double,int>> R; string d=all?"all: ":"unique: "; bool gap=false; NavID nv[2]={NavID(NavType::GPSLNAV),NavID(NavType::GPSCNAVL2)}; double lo=1e30,hi=-1e30; bool shrunk=false;
        for(int k=0;k<n;k++){ int o=m(k<3?33:17); if(o==(k<3?32:16)){ gap=true; continue; } if(gap) return; double t=G[o%4]; int pay=(o/4)%2,x=o/8; int sat=1+(x&1),nav=x>>1,uid=nav&&sat==2?57:56; if(k>=3) nav=0,sat=1+(x&1),uid=56; K key={sat,nav,uid}; auto& s=R[key]; Sys msg(sat,nav?NavType::GPSCNAVL2:NavType::GPSLNAV,uid,t,pay); bool r=false; c.at(d); string e=thrown([&]{ r=S.addMessage(&msg); }); c.trans(1); 
           auto up=s.upper_bound(t); bool hasHi=up!=s.end(),hasLo=up!=s.begin(); auto dn=up; if(hasLo) --dn; int want; // 0 no 1 yes 2 error
           if(hasLo&&dn->first==t&&dn->second!=pay) want=2; else if(all){ want=1; s[t]=pay; } else if(hasLo&&dn->second==pay) want=0; else { if(hasHi&&up->second==pay){ shrunk=true; s.erase(up); } s[t]=pay; want=1; }
           if(want==1){ lo=min(lo,t); hi=max(hi,t); } if(s.empty()) R.erase(key);
           d+="G"+to_string(sat)+(nav?"C":"L")+to_string(uid)+"@"+to_string(t).substr(0,6)+"="+(pay?"b ":"a "); MC_CK(c,want==2?e=="InvalidRequest":(e==""&&r==(want==1)),"sys:added",d<<": "<<e<<" returned "<<r<<", expected "<<want); }
        c.at(d); c.states(1); unsigned cnt=0; set<int> sats; set<int> navs; for(auto&x:R){ cnt+=x.second.size(); sats.insert(x.first[0]); navs.insert(x.first[1]); } MC_CK(c,S.size()==cnt,"sys:size",d<<": "<<S.size()<<" expected "<<cnt); MC_CK(c,S.getSatIDList().size()==sats.size()&&S.getNavIDList().size()==navs.size()&&S.isSatSysPresent(SatelliteSystem::GPS)==(cnt>0)&&S.getSatSysList().size()==(cnt>0),"sys:lists",d);
        { CommonTime a,b; string e=thrown([&]{ a=S.getInitialTime(); b=S.getFinalTime(); }); if(cnt&&!shrunk) MC_CK(c,e==""&&a==T(lo)&&b==T(hi),"sys:limits",d<<": "<<e<<" "<<a<<" "<<b); }
        for(int nav=0;nav<2;nav++) for(int uid:{56,57}){ unsigned tot=0; for(int sat=1;sat<=3;sat++){ K key={sat,nav,uid}; auto it=R.find(key); SatID id(sat,SatelliteSystem::GPS); bool has=it!=R.end(); MC_CK(c,S.isPresent(id)==(bool)sats.count(sat),"sys:present",d<<" G"<<sat); if(has) tot+=it->second.size();
              list<const OrbDataSys*> l; string e=thrown([&]{ l=S.findList(id,nv[nav],uid); }); bool good=(e=="")==has&&(has||e=="InvalidRequest"); if(has&&good){ good=l.size()==it->second.size(); auto q=it->second.begin(); if(good) for(auto p:l){ good&=p->beginValid==T(q->first)&&((Sys*)p)->pay==q->second; ++q; } } MC_CK(c,good,"sys:list",d<<" G"<<sat<<" nav "<<nav<<" UID "<<uid<<": "<<e<<" "<<l.size());
              for(double g:G) for(double dt:{-0.25,0.0,0.25}){ double t=g+dt; const OrbDataSys* p=0; e=thrown([&]{ p=S.find(id,nv[nav],uid,T(t)); }); c.eval(1); int w=-1; double wt=0; const pair<const double,int>*lo=0,*hi=0; if(has) for(auto&y:it->second){ if(y.first<t){ w=y.second; wt=y.first; } if(y.first<=t) lo=&y; else if(!hi) hi=&y; }
                 MC_CK(c,w<0?e=="InvalidRequest":(e==""&&p->beginValid==T(wt)&&((Sys*)p)->pay==w&&p->satID==id),"sys:find",d<<" G"<<sat<<" nav "<<nav<<" UID "<<uid<<" at "<<t<<": "<<e<<(p?" found "+to_string(((Sys*)p)->pay):"")<<" expected "<<w<<" sent at "<<wt);
                 auto b=S.findBounds(id,nv[nav],uid,T(t)); MC_CK(c,(b.first!=0)==(lo!=0)&&(b.second!=0)==(hi!=0)&&(!lo||(b.first->beginValid==T(lo->first)&&((Sys*)b.first)->pay==lo->second))&&(!hi||(b.second->beginValid==T(hi->first)&&((Sys*)b.second)->pay==hi->second)),"sys:bounds",d<<" G"<<sat<<" nav "<<nav<<" UID "<<uid<<" at "<<t); } }
           list<const OrbDataSys*> l; string e=thrown([&]{ l=S.findList(nv[nav],uid); }); MC_CK(c,(e=="")==(tot>0)&&l.size()==tot,"sys:list-all",d<<" nav "<<nav<<" UID "<<uid<<": "<<e<<" "<<l.size()<<" expected "<<tot);
           for(double g:G) for(double dt:{-0.25,0.0,0.25}){ double t=g+dt; double wt=-1,we=-1; for(auto&x:R) if(x.first[1]==nav&&x.first[2]==uid) for(auto&y:x.second){ if(y.first<t) wt=max(wt,y.first); if(y.first<=t) we=max(we,y.first); } const OrbDataSys* p=0; e=thrown([&]{ p=S.find(nv[nav],uid,T(t)); }); c.eval(1); bool okA=wt<0?e=="InvalidRequest":(e==""&&p->beginValid==T(wt)),okB=we<0?e=="InvalidRequest":(e==""&&p->beginValid==T(we)); MC_CK(c,okA||okB,"sys:find-any-satellite",d<<" nav "<<nav<<" UID "<<uid<<" at "<<t<<": "<<e<<", expected one sent at "<<we); if(p) MC_CK(c,NavID(p->satID,p->obsID)==nv[nav]&&(int)p->UID==uid,"sys:find-any-type",d<<" nav "<<nav<<" UID "<<uid<<" at "<<t<<": another message type"); } }
        for(int sat=1;sat<=2;sat++) for(int nav=0;nav<2;nav++) for(double t:{150.,250.,4000.}){ set<int> u; bool missing=false,any=false; for(auto&x:R) if(x.first[0]==sat&&x.first[1]==nav){ any=true; if(x.second.begin()->first<t) u.insert(x.first[2]); else missing=true; } list<const OrbDataSys*> l; string e=thrown([&]{ l=S.findSystemData(SatID(sat,SatelliteSystem::GPS),nv[nav],T(t)); }); if(!any) MC_CK(c,e=="InvalidRequest","sys:system-data",d<<e); else if(!missing) MC_CK(c,e==""&&l.size()==u.size(),"sys:system-data",d<<e<<" "<<l.size()); }
        if(i%3==0&&cnt){ auto it=R.begin(); double t=it->second.begin()->first; S.deleteMessage(SatID(it->first[0],SatelliteSystem::GPS),nv[it->first[1]],it->first[2],T(t)); MC_CK(c,S.size()==cnt-1,"sys:delete",d<<" "<<S.size()); const OrbDataSys* p=0; string e=thrown([&]{ p=S.find(SatID(it->first[0],SatelliteSystem::GPS),nv[it->first[1]],it->first[2],T(5000)); }); MC_CK(c,it->second.size()==1?e=="InvalidRequest":(e==""&&p->beginValid==T(it->second.rbegin()->first)),"sys:delete",d<<" after deletion "<<e); c.trans(1); }
        S.clear(); MC_CK(c,S.size()==0&&S.getSatIDList().empty(),"sys:clear",d); },240); }
   // ------------------------------------------------------------------ almanacs by transmitter and subject
   { int n=deep?4:3; u64 N=1; for(int k=0;k<n;k++) N*=49; static const double G[4]={1000,2000,2000.5,9000};
     h.part("almanacs: every history of additions, by subject and by transmitter",N,[=](Ctx& c,u64 i){ Mix m(i); OrbAlmStore S; typedef vector<pair<double,int>> V; map<int,V> sub; map<pair<int,int>,V> xm; string d; bool gap=false; double lo=1e30,hi=-1e30;
        auto put=[&](V& v,double t,int p)->bool{ for(auto&x:v) if(x.second==p){ if(x.first<=t) return false; x.first=t; return true; } v.push_back(make_pair(t,p)); return true; };
        for(int k=0;k<n;k++){ int o=m(49); if(o==48){ gap=true; continue; } if(gap) return; double t=G[o%4]; int p=(o/4)%3,sj=1+(o/12)%2,x=10+(o/24)%2; bool healthy=!(p==2&&x==11); Alm a(sj,x,t,t+5000,p); c.at(d); unsigned short r=S.addOrbAlm(&a,healthy); bool w1=false,w2; if(healthy) w1=put(sub[sj],t,p); w2=put(xm[make_pair(x,sj)],t,p); if(w1||w2){ lo=min(lo,t); hi=max(hi,t+5000); } c.trans(1); d+="G"+to_string(sj)+" from G"+to_string(x)+"@"+to_string(t).substr(0,6)+"="+string(1,'a'+p)+(healthy?" ":"u "); unsigned short w=(w1?OrbAlmStore::ADD_SUBJ:0)|(w2?OrbAlmStore::ADD_XMIT:0); MC_CK(c,r==w,"alm:added",d<<": returned "<<r<<", expected "<<w); }
        c.states(1); c.at(d); unsigned n1=0,n2=0; for(auto&x:sub) n1+=x.second.size(); for(auto&x:xm) n2+=x.second.size(); MC_CK(c,S.size(1)==n1&&S.size(2)==n2&&S.size(0)==n1+n2,"alm:size",d<<": "<<S.size(1)<<" "<<S.size(2)<<" expected "<<n1<<" "<<n2); if(n2) MC_CK(c,S.getInitialTime()==T(lo)&&S.getFinalTime()==T(hi),"alm:limits",d<<": "<<S.getInitialTime()<<" "<<S.getFinalTime());
        auto ask=[&](OrbAlmStore& S,int sj,int x,const V* v,const string& d){ SatID id(sj,SatelliteSystem::GPS),xi=x?SatID(x,SatelliteSystem::GPS):SatID(); for(double g:G) for(double dt:{-0.25,0.0,0.25,5000.,5000.25}){ double t=g+dt; double best=-1,first=1e30; if(v) for(auto&y:*v){ if(y.first<t) best=max(best,y.first); first=min(first,y.first); } bool has=v&&!v->empty(); double w=best<0?first:best; for(int eff=0;eff<2;eff++){ const OrbAlm* p=0; string e=thrown([&]{ p=S.find(id,T(t),eff,xi); }); c.eval(1); bool ok=has&&(!eff||(best>=0&&t<=w+5000)); MC_CK(c,e==(ok?"":"InvalidRequest"),"alm:find",d<<" G"<<sj<<" from "<<x<<" at "<<t<<" effectivity "<<eff<<": "<<e<<", expected "<<(ok?"one sent at ":"none ")<<w); if(ok&&e=="") MC_CK(c,p->beginValid==T(w)&&find(v->begin(),v->end(),make_pair(w,((Alm*)p)->pay))!=v->end()&&p->subjectSV==id,"alm:found",d<<" G"<<sj<<" from "<<x<<" at "<<t<<": the one sent at "<<p->beginValid<<", expected "<<w);
                 if(!x&&!eff){ Xvt a=S.computeXvt(id,T(t)); auto hs=S.getSVHealth(id,T(t)); MC_CK(c,ok?(p&&a.x[0]==((Alm*)p)->pay&&a.x[1]==sj&&hs==(((Alm*)p)->pay?Xvt::HealthStatus::Unhealthy:Xvt::HealthStatus::Healthy)&&a.health==hs):(a.health==Xvt::HealthStatus::Unavailable&&hs==a.health),"alm:compute",d<<" G"<<sj<<" at "<<t); Xvt b; e=thrown([&]{ b=S.getXvt(id,T(t)); }); MC_CK(c,(e=="")==ok&&(!ok||b.x==a.x),"alm:xvt",d<<" G"<<sj<<" at "<<t<<" "<<e); }
                 if(!x&&eff){ Xvt b; e=thrown([&]{ b=S.getXvt_WithinValidity(id,T(t)); }); MC_CK(c,(e=="")==ok&&(!ok||(p&&b.x[0]==((Alm*)p)->pay)),"alm:xvt-within",d<<" G"<<sj<<" at "<<t<<" "<<e); bool hh=false; e=thrown([&]{ hh=S.isHealthy(id,T(t)); }); MC_CK(c,(e=="")==ok&&(!ok||hh==(((Alm*)p)->pay==0)),"alm:healthy",d<<" G"<<sj<<" at "<<t<<" "<<e); } } } };
        for(int sj=1;sj<=3;sj++){ auto it=sub.find(sj); bool has=it!=sub.end(); MC_CK(c,S.isPresent(SatID(sj,SatelliteSystem::GPS))==has,"alm:present",d<<" G"<<sj); MC_CK(c,S.sizeSubjAlm(SatID(sj,SatelliteSystem::GPS))==(has?it->second.size():0),"alm:size-subject",d); ask(S,sj,0,has?&it->second:0,d); for(int x=10;x<=12;x++){ auto j=xm.find(make_pair(x,sj)); if(deep||(i+x)%3==0) ask(S,sj,x,j==xm.end()?0:&j->second,d); if(j!=xm.end()) for(auto&y:j->second){ Alm a(sj,x,y.first,y.first+5000,y.second); auto l=S.xmitBySVs(&a); unsigned w=0; for(auto&z:xm) if(z.first.second==sj) for(auto&q:z.second) w+=q.second==y.second; MC_CK(c,l.size()==w,"alm:transmitters",d<<" G"<<sj<<"="<<y.second<<" listed "<<l.size()<<" expected "<<w); CommonTime last; double wl=-1; bool end=false; for(auto&z:xm) if(z.first.second==sj){ double mine=-1,next=1e30; bool amb=false; for(auto&q:z.second) if(q.second==y.second) mine=q.first; if(mine<0) continue; for(auto&q:z.second) if(q.second!=y.second){ if(q.first==mine) amb=true; if(q.first>mine) next=min(next,q.first); } if(amb) wl=-2; else if(next>1e29) end=true; else if(wl>-2) wl=max(wl,next); } if(wl>-2){ string e=thrown([&]{ last=S.deriveLastXmit(&a); }); MC_CK(c,e==""&&last==(end?CommonTime(CommonTime::END_OF_TIME):T(wl)),"alm:last-transmission",d<<" G"<<sj<<"="<<y.second<<" "<<e<<" "<<last<<" expected "<<wl<<(end?" end":"")); } } } }
        for(int x=10;x<=12;x++){ unsigned w=0; for(auto&z:xm) if(z.first.first==x) w+=z.second.size(); MC_CK(c,S.sizeXmitAlm(SatID(x,SatelliteSystem::GPS))==w,"alm:size-transmitter",d); }
        if(i%3==0||deep){ double a=i%2?1500:500,b=i%5?2000.25:2500; S.edit(T(a),T(b)); c.trans(1); auto cut=[&](V v){ V r; for(auto&y:v) if(y.first>=a&&y.first<=b) r.push_back(y); return r; }; string e=d+"edit "; n1=n2=0; for(auto&x:sub){ V v=cut(x.second); n1+=v.size(); ask(S,x.first,0,&v,e); } for(auto&x:xm){ V v=cut(x.second); n2+=v.size(); ask(S,x.first.second,x.first.first,&v,e); } MC_CK(c,S.size(1)==n1&&S.size(2)==n2,"alm:edit",e<<S.size(1)<<" "<<S.size(2)<<" expected "<<n1<<" "<<n2); }
        S.clear(); MC_CK(c,S.size(0)==0&&!S.isPresent(SatID(1,SatelliteSystem::GPS)),"alm:clear",d); Alm z(1,10,50000,55000,0); S.addOrbAlm(&z); MC_CK(c,S.getInitialTime()==T(50000)&&S.getFinalTime()==T(55000),"alm:clear-limits",d<<"clear, one at 50000: "<<S.getInitialTime()<<" "<<S.getFinalTime()); },240); }
   // ------------------------------------------------------------------ GPS almanacs
   { static const long TOA[8]={0,61440,147456,233472,319488,405504,503808,602112}; // with week 2100 / 2101
     h.part("GPS almanacs: every set in every order, nearest and most recent",12*12*12*12,[=](Ctx& c,u64 i){ Mix m(i); GPSAlmanacStore S; map<int,map<double,double>> R; map<int,map<double,int>> Hl; string d; static const int pool[6][2]={{2100,1},{2100,3},{2100,4},{2100,7},{2101,0},{2101,2}}; int prev=-1; bool bad=false; vector<int> o(4); for(int k=0;k<4;k++) o[k]=m(12); set<int> u(o.begin(),o.end()); if(u.size()!=4&&!(u.size()==3&&o[0]==o[3])) return; (void)prev; (void)bad;
        for(int k=0;k<4;k++){ int w=pool[o[k]%6][0]; long toa=TOA[pool[o[k]%6][1]]; int prn=1+(o[k]/6)*31; long xm=toa-40000; double xt=(w-2100)*604800.0+xm; AlmOrbit a(prn,0.01,0.001*(o[k]+1),-8e-9,5153.6,0.1,0.2,0.3,1e-5*(o[k]+1),0,toa,xm<0?xm+604800:xm,w,o[k]+1); MC_CK(c,S.addAlmanac(a),"gpsalm:added",d); double t=(w-2100)*604800.0+toa; R[prn][t]=xt; Hl[prn][t]=o[k]+1; d+="G"+to_string(prn)+"@"+to_string((long)t)+" "; c.trans(1); }
        c.at(d); c.states(1); AlmOrbit no(0,0.01,0,0,5153.6,0,0,0,0,0,0,0,2100,0),no2(MAX_PRN_GPS+1,0.01,0,0,5153.6,0,0,0,0,0,0,0,2100,0); MC_CK(c,!S.addAlmanac(no)&&!S.addAlmanac(no2),"gpsalm:prn",d); CommonTime W0=GPSWeekSecond(2100,0.0).convertToCommonTime(); double lo=1e30,hi=-1e30; for(auto&x:R) for(auto&y:x.second){ lo=min(lo,y.first); hi=max(hi,y.first); } MC_CK(c,S.getInitialTime()==W0+(lo-302400)&&S.getFinalTime()==W0+(hi+302400),"gpsalm:limits",d<<S.getInitialTime()<<" "<<S.getFinalTime());
        set<double> Q; for(auto&p:pool) for(auto&q:pool){ double a=(p[0]-2100)*604800.0+TOA[p[1]],b=(q[0]-2100)*604800.0+TOA[q[1]]; for(double e:{-1.,0.,1.}){ Q.insert((a+b)/2+e); Q.insert(a-40000+e); } } Q.insert(-5e5); Q.insert(2e6);
        for(int prn:{1,2,32}){ SatID id(prn,SatelliteSystem::GPS); bool has=R.count(prn); MC_CK(c,S.isPresent(id)==has,"gpsalm:present",d); for(double q:Q){ CommonTime t=W0+q; AlmOrbit a; string e=thrown([&]{ a=S.findAlmanac(id,t); }); c.eval(1); if(!has){ MC_CK(c,e=="InvalidRequest","gpsalm:absent",d<<e); continue; } double best=1e30; for(auto&y:R[prn]) best=min(best,fabs(y.first-q)); double g=a.getToaTime()-W0; MC_CK(c,e==""&&R[prn].count(g)&&fabs(g-q)==best&&a.getSVHealth()==Hl[prn][g],"gpsalm:nearest",d<<" G"<<prn<<" at "<<q<<": "<<e<<" Toa "<<g<<", nearest is "<<best<<" s away"); MC_CK(c,S.getSatHealth(id,t)==a.getSVHealth(),"gpsalm:health",d);
              double w=R[prn].begin()->first; for(auto&y:R[prn]) if(y.second<q) w=y.first; e=thrown([&]{ a=S.findMostRecentAlmanac(id,t); }); g=a.getToaTime()-W0; MC_CK(c,e==""&&g==w,"gpsalm:most-recent",d<<" G"<<prn<<" at "<<q<<": "<<e<<" Toa "<<g<<" expected "<<w); } }
        AlmOrbits all=S.findAlmanacs(W0+300000.0); MC_CK(c,all.size()==R.size(),"gpsalm:all",d<<all.size()); Xvt v,w; SatID id(R.begin()->first,SatelliteSystem::GPS); string e=thrown([&]{ v=S.getXvt(id,W0+300000.0); w=S.findAlmanac(id,W0+300000.0).svXvt(W0+300000.0); }); MC_CK(c,e==""&&v.x==w.x&&v.clkbias==w.clkbias,"gpsalm:xvt",d<<e); S.clear(); MC_CK(c,!S.isPresent(id)&&thrown([&]{ S.findAlmanac(id,W0); })=="InvalidRequest","gpsalm:clear",d); },120); }
   // ------------------------------------------------------------------ CNAV data elements
   { static const double G[4]={0,12,24,1000}; int n=deep?5:4; u64 N=1; for(int k=0;k<n;k++) N*=17;
     h.part("CNAV data elements: every history of additions and edits",N,[=](Ctx& c,u64 i){ Mix m(i); CNavDataElementStore S; map<int,map<double,int>> R; string d; bool gap=false; double lo=1e30,hi=-1e30;
        for(int k=0;k<n;k++){ int o=m(17); if(o==16){ gap=true; continue; } if(gap) return; double t=G[o%4]; int sat=1+(o/4)%2,p=o/8; Cde e(sat,t,p); c.at(d); bool r=S.addDataElement(e),w=!R[sat].count(t); if(w){ R[sat][t]=p; lo=min(lo,t); hi=max(hi,t); } c.trans(1); d+="G"+to_string(sat)+"@"+to_string((int)t)+(p?"b ":"a "); MC_CK(c,r==w,"cnav:added",d<<r); }
        auto ask=[&](bool edited){ c.states(1); size_t cnt=0; for(auto&x:R) cnt+=x.second.size(); MC_CK(c,S.size()==cnt,"cnav:size",d<<S.size()); if(cnt&&!edited) MC_CK(c,S.getInitialTime()==T(lo)&&S.getFinalTime()==T(hi),"cnav:limits",d<<S.getInitialTime()<<" "<<S.getFinalTime()); for(int sat=1;sat<=3;sat++){ c.eval(1); string e=thrown([&]{ auto& g=S.getDataElementMap(SatID(sat,SatelliteSystem::GPS)); auto& w=R[sat]; bool ok=g.size()==w.size(); auto it=w.begin(); if(ok) for(auto&x:g){ ok&=x.first==T(it->first)&&((Cde*)x.second)->pay==it->second; ++it; } MC_CK(c,ok,"cnav:map",d<<" G"<<sat<<" has "<<g.size()); }); MC_CK(c,e==""||(e=="InvalidRequest"&&R[sat].empty()),"cnav:map",d<<e); if(sat==3) MC_CK(c,e=="InvalidRequest","cnav:absent",d); } };
        ask(false); double a=12.0*(i%3)-1,b=i%4==0?12:i%4==1?23:i%4==2?24:2000; S.edit(T(a),T(b)); for(auto&x:R) for(auto it=x.second.begin();it!=x.second.end();) if(it->first<a||it->first>b) it=x.second.erase(it); else ++it; d+="edit "; c.trans(1); ask(true); S.clear(); R.clear(); lo=1e30; hi=-1e30; Cde z(2,500,1); S.addDataElement(z); R[2][500]=1; lo=hi=500; d+="clear, one at 500 "; ask(false); },120); }
   return h.run(argc,argv);
}
