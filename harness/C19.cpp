// C19 time-interval keyed tables: every short history of additions, edits and removals of each table, and every order of insertion, each query compared with a map model
// MC-SAN: assert
// MC-RULE: a query answers with the entry whose interval contains the time (or the latest entry not after it), or reports that there is none, whatever the order in which the entries were added
// MC-ASSUME: entries that overlap for one key may answer either way ; Earth orientation of the last tabulated day itself is not judged
#include "mc.hpp"
#include <memory>
#include <map>
#include <set>
#include <array>
#include <algorithm>
#include <fstream>
#include "IonoModelStore.hpp"
#include "SVNumXRef.hpp"
#include "SatMetaDataStore.hpp"
#include "WxObsMap.hpp"
#include "EpochDataStore.hpp"
#include "EOPDataStore.hpp"
#include "EOPStore.hpp"
#include "EarthOrientation.hpp"
#include "CivilTime.hpp"
#include "YDSTime.hpp"
#include "MJD.hpp"
#include "Position.hpp"
using namespace mc; using namespace gpstk; using namespace std;
typedef long double ld;
static CommonTime T(double s,TimeSystem ts=TimeSystem::GPS){ CommonTime t; long d=2458900+(long)floor(s/86400.0); double r=s-floor(s/86400.0)*86400.0; t.set(d,(long)floor(r),r-floor(r),ts); return t; }
static double sec(const CommonTime& t){ long d,s; double f; t.get(d,s,f); return (d-2458900)*86400.0+s+f; }
static ld lagr(const vector<double>& x,const vector<double>& y,double t){ ld r=0; for(size_t i=0;i<x.size();i++){ ld p=y[i]; for(size_t j=0;j<x.size();j++) if(j!=i) p*=((ld)t-x[j])/((ld)x[i]-x[j]); r+=p; } return r; }
struct XR: public SVNumXRef { multimap<int,XRefNode>& n(){return NtoPMap;} multimap<int,XRefNode>& p(){return PtoNMap;} map<int,BlockType>& b(){return NtoBMap;} void wipe(){ NtoPMap.clear(); PtoNMap.clear(); } void put(int svn,int prn,double a,double b){ NtoPMap.insert(make_pair(svn,XRefNode(prn,T(a),T(b)))); PtoNMap.insert(make_pair(prn,XRefNode(svn,T(a),T(b)))); } };
struct EDS: public EpochDataStore { EDS(int n):EpochDataStore(n){} void add(const CommonTime&t,const vector<double>&v){ addData(t,v); } vector<double> get(const CommonTime&t){ return getData(t); } };
// SAT records of the metadata table
struct SR { int prn; const char* svn; int chl,slot; int d0,d1; };
static string satLine(const SR& r,const char* sys,int tag){ ostringstream o; o<<"SAT,"<<sys<<","<<r.svn<<","<<r.prn<<","<<r.chl<<","<<r.slot<<",2019,"<<r.d0<<",3600,2019,"<<r.d1<<",3600,P"<<tag<<",S"<<tag<<",sig,Operational,"<<tag%4; return o.str(); }
int main(int argc,char**argv){
   Harness h("C19"); bool deep=h.thorough;
   // ------------------------------------------------------------------ ionosphere models
   { static vector<IonoModel> M; static vector<double> A; for(int k=0;k<3;k++){ double a[4]={1e-8*(k+1),0,0,0},b[4]={1e5,0,0,0}; M.push_back(IonoModel(a,b)); }
     static Position rx(30.0,-97.0,200.0,Position::Geodetic); 
     int n=deep?5:4; u64 N=1; for(int k=0;k<n;k++) N*=13; // per step: nothing or (time 0..3) x (model 0..2)
     h.part("ionosphere models: every history of additions",N,[=](Ctx& c,u64 i){ Mix m(i); IonoModelStore S; map<int,int> ref; string d; bool gap=false;
        for(int k=0;k<n;k++){ int o=m(13); if(o==12){ gap=true; continue; } if(gap) return; int t=o/3,q=o%3; bool had=ref.count(t)&&ref[t]==q; bool r=S.addIonoModel(T(t*7200.0),M[q]); ref[t]=q; c.trans(1); if(!had) MC_CK(c,r,"iono:added","new model refused"); d+=char('0'+t); d+=char('A'+q); d+=' '; }
        c.at(d); MC_CK(c,!S.addIonoModel(T(0),IonoModel()),"iono:invalid-model","an invalid model was added");
        auto ask=[&](IonoModelStore& s,const map<int,int>& r,const char* key){ for(int t=0;t<4;t++) for(double e:{-1e-6,0.0,1e-6,3600.0}){ double q=t*7200.0+e; int f=-1; for(auto& x:r) if(x.first*7200.0<=q) f=x.second; double v=-1; string x=thrown([&]{ v=s.getCorrection(T(q),rx,40.0,120.0); }); c.eval(1);
              if(f<0) MC_CK(c,x=="gpstk::IonoModelStore::NoIonoModelFound"||x.find("NoIonoModelFound")!=string::npos,string(key)+":absent","at "<<q<<" after "<<d<<": "<<x<<" value "<<v); else { double w=M[f].getCorrection(T(q),rx,40.0,120.0); MC_CK(c,x==""&&v==w,string(key)+":in-force","at "<<q<<" after "<<d<<": "<<x<<" "<<v<<" expected "<<w<<" (model "<<f<<")"); } } };
        ask(S,ref,"iono"); c.states(1);
        if(i%7==0||deep) for(int a=-1;a<=7;a++) for(int b=a;b<=8;b++){ IonoModelStore s(S); s.edit(T(a*3600.0),b==8?CommonTime::END_OF_TIME:T(b*3600.0)); map<int,int> r; for(auto&x:ref) if(x.first*2>=a&&x.first*2<=b) r.insert(x); d+=" edit"; ask(s,r,"iono-edit"); d.resize(d.size()-5); c.trans(1); if(a!=b&&b-a>2&&!deep) b=b<7?7:b; } 
     },120); }
   // ------------------------------------------------------------------ satellite numbers
   { static XR X; static vector<double> edges; static vector<int> prns,svns; { set<double> e; set<int> p,s; for(auto&x:X.n()){ s.insert(x.first); p.insert(x.second.getPRNNum()); CommonTime a=x.second.getBeginTime(),b=x.second.getEndTime(); e.insert(sec(a)); if(b!=CommonTime::END_OF_TIME) e.insert(sec(b)); } for(double v:e) for(double q:{-1.0,0.0,1.0}) edges.push_back(v+q); edges.push_back(4e8); edges.push_back(-3e9); for(int k=-1;k<36;k++) prns.push_back(k); for(int k:{99,1000,100000,10000000,2147483647,-2147483647}) prns.push_back(k); for(int k=-1;k<82;k++) svns.push_back(k); for(int k:{999,10000,1000000,2147483647,-2147483647}) svns.push_back(k); }
     h.part("satellite numbers: every number at every edge of the shipped table",edges.size(),[](Ctx& c,u64 i){ CommonTime t=T(edges[i]); t.setTimeSystem(TimeSystem::GPS); c.at("edge "+to_string(i));
        for(int prn:prns){ set<int> w; for(auto&x:X.n()) if(x.second.getPRNNum()==prn&&!(t<x.second.getBeginTime())&&!(x.second.getEndTime()<t)) w.insert(x.first); int g=-7; bool av=X.NAVSTARIDAvailable(prn,t); c.eval(1); MC_CK(c,av==!w.empty(),"xref:available","PRN "<<prn<<" at "<<edges[i]<<" available "<<av<<", entries "<<w.size()); bool want=!w.empty()||(i+prn)%29==0||prn>90; if(!want) continue; string x=thrown([&]{ g=X.getNAVSTAR(prn,t); }); 
           if(w.empty()) MC_CK(c,x.find("NoNAVSTARNumberFound")!=string::npos,"xref:absent","PRN "<<prn<<" "<<x<<" "<<g); else { MC_CK(c,x==""&&w.count(g),"xref:navstar","PRN "<<prn<<" at "<<edges[i]<<" "<<x<<" "<<g<<" expected "<<*w.begin()); MC_CK(c,w.size()==1,"xref:unique","PRN "<<prn<<" has "<<w.size()<<" satellites at "<<edges[i]<<": "<<*w.begin()<<" "<<*w.rbegin()); } }
        for(int svn:svns){ set<int> w; for(auto&x:X.p()) if(x.second.getNAVSTARNum()==svn&&!(t<x.second.getBeginTime())&&!(x.second.getEndTime()<t)) w.insert(x.first); int g=-7; bool av=X.PRNIDAvailable(svn,t); c.eval(1); MC_CK(c,av==!w.empty()&&X.NAVSTARIDActive(svn,t)==av,"xref:available","SVN "<<svn<<" at "<<edges[i]<<" available "<<av<<", entries "<<w.size()); bool want=!w.empty()||(i+svn)%67==0||svn>90; if(!want) continue; string x=thrown([&]{ g=X.getPRNID(svn,t); });
           if(w.empty()) MC_CK(c,x.find("NoNAVSTARNumberFound")!=string::npos,"xref:absent","SVN "<<svn<<" "<<x<<" "<<g); else { MC_CK(c,x==""&&w.count(g),"xref:prn","SVN "<<svn<<" at "<<edges[i]<<" "<<x<<" "<<g<<" expected "<<*w.begin()); MC_CK(c,w.size()==1,"xref:unique","SVN "<<svn<<" has "<<w.size()<<" PRNs at "<<edges[i]); int back=-1; string y=thrown([&]{ back=X.getNAVSTAR(g,t); }); MC_CK(c,y==""&&back==svn,"xref:round-trip","SVN "<<svn<<" -> PRN "<<g<<" -> "<<y<<" "<<back); } }
        if(i==0){ MC_CK(c,X.isConsistent(),"xref:consistent","the shipped table has overlaps"); for(int svn:svns){ bool has=X.b().count(svn); MC_CK(c,X.BlockTypeAvailable(svn)==has,"xref:block",svn); string x=thrown([&]{ auto b=X.getBlockType(svn); if(b!=X.b()[svn]) throw 1; }); MC_CK(c,(x=="")==has,"xref:block","SVN "<<svn<<" "<<x); X.b().size(); if(!has) X.b().erase(svn); MC_CK(c,(X.getBlockTypeString(svn)=="unknown")==!has,"xref:block-string",svn<<" "<<X.getBlockTypeString(svn)); } for(auto&x:X.n()) MC_CK(c,X.BlockTypeAvailable(x.first),"xref:block-missing","SVN "<<x.first<<" has no block type"); }
        c.states(prns.size()+svns.size()); },120);
     // synthetic tables: three entries, gaps, touching, overlapping
     static const double P[6][2]={{0,100},{100,200},{150,300},{201,300},{400,1e6},{50,60}};
     h.part("satellite numbers: every small table in every order",24*24*24,[](Ctx& c,u64 i){ Mix m(i); int e[3]; for(int k=0;k<3;k++) e[k]=m(24); if(e[0]>e[1]||e[1]>e[2]) return; int pm[3]={0,1,2}; bool first=true; map<pair<int,int>,int> base; 
        struct E{int svn,prn;double a,b;}; E es[3]; for(int k=0;k<3;k++) es[k]={40+e[k]%2,1+(e[k]/2)%2,P[e[k]/4][0],P[e[k]/4][1]};
        do { XR X2; X2.wipe(); for(int k=0;k<3;k++) X2.put(es[pm[k]].svn,es[pm[k]].prn,es[pm[k]].a,es[pm[k]].b); c.trans(3);
           static const double Q[]={-1,0,50,55,60,61,99,100,101,150,175,200,200.5,201,300,301,400,1e6,1e6+1}; for(double q:Q) for(int prn=1;prn<=2;prn++){ set<int> w; for(auto&x:es) if(x.prn==prn&&x.a<=q&&q<=x.b) w.insert(x.svn); bool av=X2.NAVSTARIDAvailable(prn,T(q)); MC_CK(c,av==!w.empty(),"table:available","PRN "<<prn<<" at "<<q); if(!w.empty()){ int g=-1; string x=thrown([&]{ g=X2.getNAVSTAR(prn,T(q)); }); MC_CK(c,x==""&&w.count(g),"table:navstar",x<<" "<<g); } int svn=39+prn; w.clear(); for(auto&x:es) if(x.svn==svn&&x.a<=q&&q<=x.b) w.insert(x.prn); av=X2.PRNIDAvailable(svn,T(q)); MC_CK(c,av==!w.empty(),"table:available","SVN "<<svn<<" at "<<q); if(!w.empty()){ int g=-1; string x=thrown([&]{ g=X2.getPRNID(svn,T(q)); }); MC_CK(c,x==""&&w.count(g),"table:prn",x<<" "<<g); } }
           if(first){ bool over=false,touch=false; for(int a=0;a<3;a++)for(int b=a+1;b<3;b++) if(es[a].svn==es[b].svn||es[a].prn==es[b].prn){ double lo=max(es[a].a,es[b].a),hi=min(es[a].b,es[b].b); if(lo<hi) over=true; if(lo==hi) touch=true; } (void)touch; if(over||!touch){ ostringstream sink; streambuf* o=cout.rdbuf(sink.rdbuf()); bool r=X2.isConsistent(); cout.rdbuf(o); MC_CK(c,r==!over,"table:consistent","consistent "<<r<<" but overlap "<<over); } first=false; }
        } while(next_permutation(pm,pm+3)); c.eval(6*19*4); c.states(1); }); }
   // ------------------------------------------------------------------ satellite metadata
   { static const SR R[]={ {1,"A",-7,1,10,20},{1,"B",-7,1,20,30},{1,"A",3,2,35,40},{2,"A",3,2,20,30},{2,"C",-7,1,40,50},{3,"B",0,3,30,31},{1,"C",0,3,45,60} }; static const int NR=7;
     h.part("satellite metadata: every set of records in every order",(u64)NR*NR*NR*NR,[](Ctx& c,u64 i){ Mix m(i); int s[4]; for(int k=0;k<4;k++) s[k]=m(NR); for(int a=0;a<4;a++)for(int b=a+1;b<4;b++) if(s[a]==s[b]&&!(a>0&&s[a]==s[a-1])) { bool ok=true; for(int k=b;k<4;k++) if(s[k]!=s[b]) ok=false; if(!ok||a!=b-1) return; }
        int n=4; while(n>1&&s[n-1]==s[n-2]) n--; for(int a=0;a<n;a++)for(int b=a+1;b<n;b++) if(s[a]==s[b]) return;
        const char* sys=i%2?"GLONASS":"GPS"; SatelliteSystem ss=i%2?SatelliteSystem::Glonass:SatelliteSystem::GPS; string f="sm.csv"; { ofstream o(f); o<<"# table\n\n"; for(const char* v:{"A","B","C"}) o<<"LAUNCH,"<<sys<<","<<v<<",2001,5,100,K"<<v[0]<<",M"<<v<<"\nNORAD,"<<sys<<", "<<v<<" ,"<<1000+v[0]<<"\nCLOCK,"<<sys<<",K"<<v<<",Rubidium,Cesium,USNO,Unknown\n"; for(int k=0;k<n;k++) o<<satLine(R[s[k]],sys,s[k])<<"\n"; }
        SatMetaDataStore S; bool ok=S.loadData(f); c.trans(n); MC_CK(c,ok,"meta:load","refused a valid table"); size_t cnt=0; for(auto&x:S.satMap) cnt+=x.second.size(); MC_CK(c,cnt==(size_t)n,"meta:count",cnt<<" records of "<<n);
        for(int d=9;d<=61;d++) for(double e:{-0.001,0.0,0.001}){ if(e!=0&&d%5!=0&&d!=31) continue; CommonTime t=YDSTime(2019,d,3600.0+e,TimeSystem::GPS); 
           auto check=[&](const char* key,function<bool(const SR&)> match,function<bool(SatMetaData&)> get){ set<int> w; for(int k=0;k<n;k++){ const SR& r=R[s[k]]; if(match(r)&&(d>r.d0||(d==r.d0&&e>=0))&&(d<r.d1||(d==r.d1&&e<0))) w.insert(s[k]); } SatMetaData q; bool g=get(q); c.eval(1); if(g!=!w.empty()){ MC_CK(c,false,string("meta:")+key,(g?"found":"not found")<<" on day "<<d<<"+"<<e<<", entries in force "<<w.size()); return; } if(!g) return; int tag=atoi(q.slot.substr(1).c_str()); bool fine=w.count(tag); if(fine){ const SR& r=R[tag]; char v=r.svn[0]; fine=q.prn==(uint32_t)r.prn&&q.svn==r.svn&&q.chl==r.chl&&q.slotID==(uint32_t)r.slot&&q.norad==1000+v&&q.type==string("K")+v&&q.mission==string("M")+v&&q.plane=="P"+to_string(tag)&&q.status==SatMetaData::Status::Operational&&q.activeClock==tag%4&&q.clocks[0]==SatMetaData::ClockType::Rubidium&&q.clocks[2]==SatMetaData::ClockType::USNO&&q.sys==ss&&q.startTime==CommonTime(YDSTime(2019,r.d0,3600.0,TimeSystem::Any))&&q.endTime==CommonTime(YDSTime(2019,r.d1,3600.0,TimeSystem::Any))&&q.launchTime==CommonTime(YDSTime(2001,5,100.0,TimeSystem::Any))&&q.signals=="sig"; } MC_CK(c,fine,string("meta:")+key,"record "<<tag<<" on day "<<d<<"+"<<e); };
           for(int p=0;p<=4;p++){ check("prn",[&](const SR&r){return r.prn==p;},[&](SatMetaData&q){ return S.findSat(ss,p,t,q); }); check("sat-id",[&](const SR&r){return r.prn==p;},[&](SatMetaData&q){ return S.findSat(SatID(p,ss),t,q); }); string v; SatMetaData q; MC_CK(c,S.getSVN(ss,p,t,v)==S.findSat(ss,p,t,q)&&(v==""||v==q.svn),"meta:svn-of-prn",v); }
           for(const char* v:{"A","B","C","D",""}){ string V=v; check("svn",[&](const SR&r){return V==r.svn;},[&](SatMetaData&q){ return S.findSatBySVN(ss,V,t,q); }); uint32_t p=0; SatMetaData q; bool g=S.findSatBySVN(ss,V,t,q); MC_CK(c,S.getPRN(ss,V,t,p)==g&&(!g||p==q.prn),"meta:prn-of-svn",p); }
           if(ss==SatelliteSystem::Glonass) for(int sl=0;sl<4;sl++) for(int ch:{-7,0,3,5}) check("slot",[&](const SR&r){return r.slot==sl&&r.chl==ch;},[&](SatMetaData&q){ return S.findSatBySlotFdma(sl,ch,t,q); }); else { SatMetaData q; MC_CK(c,!S.findSatBySlotFdma(1,-7,t,q),"meta:slot-gps","found"); }
           { SatMetaData q; MC_CK(c,!S.findSat(SatelliteSystem::Galileo,1,t,q)&&!S.findSatBySVN(SatelliteSystem::Galileo,"A",t,q),"meta:other-system","found"); } }
        c.states(1); },120);
     // damaged lines: reported, and the other records stay
     static const char* BAD[]={"SAT,GPS,A,1,0,0,2019,1,0","SAT,GPS,Z,1,0,0,2019,10,0,2019,20,0,P,S,sig,Operational,1","SAT,GPS,A,x,0,0,2019,10,0,2019,20,0,P,S,sig,Operational,1","SAT,GPS,A,1,y,0,2019,10,0,2019,20,0,P,S,sig,Operational,1","SAT,GPS,A,1,0,z,2019,10,0,2019,20,0,P,S,sig,Operational,1","NORAD,GPS,A,77","LAUNCH,GPS,A,2001,5,100,KB,M2","CLOCK,GPS,KA,Cesium,Cesium,Cesium,Cesium","NORAD,GPS","LAUNCH,GPS,D,2001","CLOCK,GPS,KZ","BOGUS,1,2,3","no commas","SIG,GPS"}; static const int NB=14;
     h.part("satellite metadata: a damaged line at every place",NB*9,[](Ctx& c,u64 i){ Mix m(i); int b=m(NB),at=m(9); vector<string> L={"NORAD,GPS,A,1065","LAUNCH,GPS,A,2001,5,100,KA,MA","CLOCK,GPS,KA,Rubidium,Cesium,USNO,Unknown"}; for(int k:{0,2,3}) L.push_back(satLine(R[k],"GPS",k)); L.push_back("sig,gps,L1,CA,LNav"); L.push_back("# end"); string bad=BAD[b]; if((b==5&&at<1)||(b==6&&at<2)||(b==7&&at<3)) return; L.insert(L.begin()+at,bad); { ofstream o("sb.csv"); for(auto&x:L) o<<x<<"\n"; } c.at(bad); SatMetaDataStore S; ostringstream sink; streambuf* o=cerr.rdbuf(sink.rdbuf()); bool ok=true; string x=thrown([&]{ ok=S.loadData("sb.csv"); }); cerr.rdbuf(o); c.eval(1); c.trans(1); c.states(1); MC_CK(c,x==""&&!ok,"meta:damage-reported",bad<<": "<<x<<" returned "<<ok); MC_CK(c,S.satMap[SatelliteSystem::GPS].size()==3,"meta:damage-others",bad<<" left "<<S.satMap[SatelliteSystem::GPS].size()<<" records"); for(auto&q:S.satMap[SatelliteSystem::GPS]) MC_CK(c,q.norad==1065&&q.mission=="MA"&&q.clocks[0]==SatMetaData::ClockType::Rubidium,"meta:damage-values","norad "<<q.norad<<" mission "<<q.mission); }); }
   // ------------------------------------------------------------------ weather
   { int n=deep?6:5; u64 N=1; for(int k=0;k<n;k++) N*=9;
     h.part("weather: every history of observations and flushes",N,[=](Ctx& c,u64 i){ Mix m(i); WxObsData W; map<int,int> ref; string d; bool gap=false; int id=0; // ops: add at slot 0..4, flush at 0, 2, 6, nothing
        for(int k=0;k<n;k++){ int o=m(9); if(o==8){ gap=true; continue; } if(gap) return; if(o<5){ id++; W.insertObservation(WxObservation(T(o*1000.0),10+id,900+2*id,20+3*id)); ref[o]=id; d+="add"+to_string(o)+" "; } else { int t=o==5?0:o==6?2:6; W.flush(T(t*1000.0)); while(!ref.empty()&&ref.begin()->first<t) ref.erase(ref.begin()); d+="flush"+to_string(t)+" "; } c.trans(1); }
        c.at(d); MC_CK(c,W.obs.size()==ref.size(),"weather:count",W.obs.size()<<" of "<<ref.size()<<" after "<<d); if(ref.empty()) MC_CK(c,W.firstTime==CommonTime::END_OF_TIME&&W.lastTime==CommonTime::BEGINNING_OF_TIME,"weather:limits","limits of an empty table after "<<d); else MC_CK(c,W.firstTime==T(ref.begin()->first*1000.0)&&W.lastTime==T(ref.rbegin()->first*1000.0),"weather:limits","after "<<d);
        for(int q=-2;q<=10;q++) { double t=q*500.0; int lo=-1,hi=-1; for(auto&x:ref){ if(x.first*1000.0<=t) lo=x.first; else if(hi<0) hi=x.first; } WxObservation r=W.getMostRecent(T(t)); c.eval(1); if(lo<0) MC_CK(c,!r.isAllValid(),"weather:most-recent","an observation before "<<t<<" after "<<d); else MC_CK(c,r.isAllValid()&&r.t==T(lo*1000.0)&&r.temperature==10+ref[lo],"weather:most-recent","at "<<t<<" after "<<d<<" got "<<r.temperature<<" expected "<<10+ref[lo]);
           for(unsigned iv:{0u,499u,500u,1000u,3000u}) for(int ip=0;ip<2;ip++){ bool L=lo>=0&&t-lo*1000.0<=iv,H=hi>=0&&hi*1000.0-t<=iv; if(!L&&!H&&(q+ip+iv+i)%16) continue; WxObservation g; string x=thrown([&]{ g=W.getWxObservation(T(t),iv,ip); }); c.eval(1); if(!L&&!H){ MC_CK(c,x.find("ObjectNotFound")!=string::npos,"weather:absent","at "<<t<<" within "<<iv<<" after "<<d<<": "<<x<<" "<<g.temperature); continue; }
              double f; if(L&&H){ if(ip) f=ref[lo]+(ref[hi]-ref[lo])*(t/1000-lo)/(hi-lo); else f=(hi*1000.0-t<t-lo*1000.0)?ref[hi]:ref[lo]; } else f=L?ref[lo]:ref[hi]; MC_CK(c,x==""&&fabs(g.temperature-(10+f))<1e-3&&fabs(g.pressure-(900+2*f))<1e-2&&fabs(g.humidity-(20+3*f))<1e-3,"weather:value","at "<<t<<" within "<<iv<<(ip?" interpolated":"")<<" after "<<d<<": "<<x<<" "<<g.temperature<<" expected "<<10+f); CommonTime et=L&&H&&ip?T(t):L&&H?(hi*1000.0-t<t-lo*1000.0?T(hi*1000.0):T(lo*1000.0)):L?T(lo*1000.0):T(hi*1000.0); MC_CK(c,fabs(sec(g.t)-sec(et))<1e-6,"weather:time","at "<<t<<" got "<<sec(g.t)<<" expected "<<sec(et)); } }
        c.states(1); },120); }
   // ------------------------------------------------------------------ epoch data (base of the EOP table)
   { int n=deep?4:3; static vector<vector<int>> ED={{-5,-1},{-5,2},{1,3},{2,2},{3,1},{4,99},{99,200}}; // operations: add at slot 0..7; edits; clear; nothing
     static const int NO=8+7+1+1; u64 N=1; for(int k=0;k<n;k++) N*=NO; static const unsigned PRE[]={0,0x0F,0xFF,0xA5,0x7E};
     h.part("epoch data: every history of additions, edits and clearing",N*5,[=](Ctx& c,u64 i){ Mix m(i); unsigned pre=PRE[m(5)]; map<int,double> ref; EDS S(2); string d; auto add=[&](int t){ double v=(t*37%11)*1.5+ref.size(); S.add(T(t*86400.0,TimeSystem::UTC),vector<double>{v,-2*v,double(t*t)}); ref[t]=v; }; for(int k=7;k>=0;k--) if(pre>>k&1) add(k); bool gap=false;
        for(int k=0;k<n;k++){ int o=m(NO); if(o==NO-1){ gap=true; continue; } if(gap) return; if(o<8){ add(o); d+="add"+to_string(o)+" "; } else if(o<15){ auto& e=ED[o-8]; S.edit(T(e[0]*86400.0,TimeSystem::UTC),e[1]==99?CommonTime::END_OF_TIME:T(e[1]*86400.0,TimeSystem::UTC)); int lo=min(e[0],e[1]),hi=max(e[0],e[1]); for(auto it=ref.begin();it!=ref.end();) if(it->first<lo||it->first>hi) it=ref.erase(it); else ++it; d+="edit"+to_string(e[0])+","+to_string(e[1])+" "; } else { S.clear(); ref.clear(); d+="clear "; } c.trans(1); }
        c.at(d); MC_CK(c,S.size()==ref.size()&&S.epochList().size()==ref.size(),"epoch:count",S.size()<<" of "<<ref.size()<<" after "<<d); if(ref.empty()) MC_CK(c,S.getInitialTime()==CommonTime::END_OF_TIME&&S.getFinalTime()==CommonTime::BEGINNING_OF_TIME,"epoch:limits","of an empty table after "<<d); else MC_CK(c,S.getInitialTime()==T(ref.begin()->first*86400.0,TimeSystem::UTC)&&S.getFinalTime()==T(ref.rbegin()->first*86400.0,TimeSystem::UTC),"epoch:limits","after "<<d);
        vector<double> X,Y,Z; for(auto&x:ref){ X.push_back(x.first); Y.push_back(x.second); Z.push_back(x.first*x.first); }
        for(int np:{1,2,3,4,6}){ S.setInterpolationPoints(np); int half=(np+1)/2; for(double q=-0.5;q<=7.5;q+=0.25){ if(q!=floor(q)&&q-floor(q)==0.75) continue; bool in=!ref.empty()&&q>=X.front()&&q<=X.back(); if(!in&&np!=2) continue; if(!in&&(int)(q*4+i)%8) continue; vector<double> g; string x=thrown([&]{ g=S.get(T(q*86400.0,TimeSystem::UTC)); }); c.eval(1); if(!in){ MC_CK(c,x.find("InvalidRequest")!=string::npos,"epoch:absent","at "<<q<<" after "<<d<<": "<<x); continue; }
              ld wy,wz; if(ref.count((int)q)&&q==floor(q)){ wy=ref[(int)q]; wz=q*q; } else { int hi=0; while(X[hi]<q) hi++; int a=hi-half,b=hi+half; int sz=X.size(); if(sz<=2*half){ a=0;b=sz; } else { if(a<0){ a=0;b=2*half; } if(b>sz){ b=sz;a=sz-2*half; } } vector<double> x1(X.begin()+a,X.begin()+b),y1(Y.begin()+a,Y.begin()+b),z1(Z.begin()+a,Z.begin()+b); wy=lagr(x1,y1,q); wz=lagr(x1,z1,q); } MC_CK(c,x==""&&g.size()==3&&fabsl(g[0]-wy)<1e-6L&&fabsl(g[1]+2*wy)<1e-6L&&fabsl(g[2]-wz)<1e-6L,"epoch:value",np<<" points at "<<q<<" after "<<d<<": "<<x<<" "<<(g.size()?g[0]:-99)<<" expected "<<(double)wy); } }
        c.states(1); },120); }
   // ------------------------------------------------------------------ Earth orientation by day
   { int n=deep?4:3; static vector<vector<int>> ED={{-5,-1},{-5,2},{1,6},{3,1},{2,5},{99,200},{0,7}}; static const int NO=9+7+1+1; u64 N=1; for(int k=0;k<n;k++) N*=NO; static const unsigned PRE[]={0x0F,0x3F,0xFF,0xFB,0x1EE}; static const int B=58900;
     h.part("Earth orientation: every history of days, edits and clearing",N*5,[=](Ctx& c,u64 i){ Mix m(i); unsigned pre=PRE[m(5)]; map<int,EarthOrientation> ref; EOPStore S; string d; auto add=[&](int t){ EarthOrientation e; e.xp=0.01*t*t+0.1; e.yp=0.3-0.02*t+0.001*ref.size(); e.UT1mUTC=-0.2+0.001*t*t*t; S.addEOP(B+t,e); ref[t]=e; }; for(int k=0;k<9;k++) if(pre>>k&1) add(k); bool gap=false;
        for(int k=0;k<n;k++){ int o=m(NO); if(o==NO-1){ gap=true; continue; } if(gap) return; if(o<9){ add(o); d+="add"+to_string(o)+" "; } else if(o<16){ auto& e=ED[o-9]; S.edit(B+e[0],B+e[1]); int lo=min(e[0],e[1]),hi=max(e[0],e[1]); for(auto it=ref.begin();it!=ref.end();) if(it->first<lo||it->first>hi) it=ref.erase(it); else ++it; d+="edit"+to_string(e[0])+","+to_string(e[1])+" "; } else { S.clear(); ref.clear(); d+="clear "; } c.trans(1); }
        c.at(d); MC_CK(c,(size_t)S.size()==ref.size(),"eop:count",S.size()<<" of "<<ref.size()<<" after "<<d); MC_CK(c,S.getFirstTimeMJD()==(ref.empty()?-1:B+ref.begin()->first)&&S.getLastTimeMJD()==(ref.empty()?-1:B+ref.rbegin()->first),"eop:limits","after "<<d);
        for(int q=-1;q<=9;q++) for(double e:{0.0,0.25}){ EarthOrientation g; string x=thrown([&]{ g=S.getEOP(B+q+e,IERSConvention::IERS2010); }); c.eval(1); bool in=ref.size()>=4&&ref.count(q)&&ref.upper_bound(q)!=ref.end(); bool tail=ref.size()>=4&&ref.count(q)&&!in; if(!in){ if(tail&&e==0) continue; /* the last day itself: not judged */ MC_CK(c,x.find("InvalidRequest")!=string::npos,"eop:absent","at "<<q+e<<" after "<<d<<": "<<x); continue; }
           vector<int> k; for(auto&y:ref) k.push_back(y.first); int a=find(k.begin(),k.end(),q)-k.begin()-1; if(a<0)a=0; if(a+4>(int)k.size())a=k.size()-4; vector<double> t,X,Y,D; for(int j=a;j<a+4;j++){ auto& r=ref[k[j]]; t.push_back(B+k[j]); X.push_back(r.xp); Y.push_back(r.yp); D.push_back(r.UT1mUTC); } EarthOrientation w; EphTime tt; tt.setMJD(B+q+e); tt.setTimeSystem(TimeSystem::UTC); ld lx=lagr(t,X,B+q+e); w.interpolateEOP(tt,t,X,Y,D,IERSConvention::IERS2010); MC_CK(c,x==""&&fabs(g.xp-w.xp)<1e-12&&fabs(g.yp-w.yp)<1e-12&&fabs(g.UT1mUTC-w.UT1mUTC)<1e-12,"eop:value","at "<<q+e<<" after "<<d<<": "<<x<<" "<<g.xp<<" expected "<<w.xp); MC_CK(c,x!=""||fabsl(g.xp-lx)<2e-3L,"eop:interpolation","xp "<<g.xp<<" interpolated "<<(double)lx); }
        c.states(1); },120);
     // ---- loading from files, lines in every order
     h.part("Earth orientation files: every order of five days",120*4,[=](Ctx& c,u64 i){ int kind=i%4; int pm[5]={0,1,2,3,4}; for(u64 k=0;k<i/4;k++) next_permutation(pm,pm+5); double xp[5],yp[5],ut[5],dp[5],de[5]; for(int k=0;k<5;k++){ xp[k]=0.1+0.0123*k*k; yp[k]=0.35-0.0071*k; ut[k]=-0.21+0.0017*k; dp[k]=-0.0871+0.0031*k; de[k]=-0.0063+0.0021*k; } char buf[400]; string f="eop.txt"; { ofstream o(f); if(kind==2) o<<"version 2\nEOP  SOLUTION\n  MJD\n      units\n"; if(kind==3) o<<"VERSION 1.1\nNUM_OBSERVED_POINTS 5\nBEGIN OBSERVED\n";
           for(int j=0;j<5;j++){ int k=pm[j]; if(kind<2){ string L(185,' '); auto put=[&](int col,const char* fm,double v){ snprintf(buf,sizeof buf,fm,v); L.replace(col,strlen(buf),buf); }; put(7,"%8.2f",58900.0+k); put(18,"%9.6f",xp[k]); put(37,"%9.6f",yp[k]); put(58,"%10.7f",ut[k]); put(165,"%10.3f",dp[k]*1000); put(175,"%10.3f",de[k]*1000); L[16]='I'; L[57]='I'; o<<L<<"\n"; } else if(kind==2){ snprintf(buf,sizeof buf,"%8.2f %8.0f %8.0f %9.0f %6d %5d %5d %6d %6d %3d %3d %3d %6d %6d %5d %5d %7.0f %7.0f %s",58900.0+k,xp[k]*1e6,yp[k]*1e6,ut[k]*1e7,1200,11,12,13,14,3,4,5,21,22,23,24,dp[k]*1e6,de[k]*1e6,"                    "); o<<buf<<"\n"; } else { snprintf(buf,sizeof buf,"%4d%3d%3d%6d%10.6f%10.6f%11.7f%11.7f%10.6f%10.6f%10.6f%10.6f%4d",2020,2,21+k,58900+k,xp[k],yp[k],ut[k],0.0011,dp[k],de[k],0.0,0.0,37); o<<buf<<"\n"; } } if(kind==3) o<<"END OBSERVED\nBEGIN PREDICTED\nEND PREDICTED\n"; }
        c.trans(5); c.states(1); if(kind==0){ EOPStore S; string x=thrown([&]{ S.addIERSFile(f); }); MC_CK(c,x==""&&S.size()==5&&S.getFirstTimeMJD()==58900&&S.getLastTimeMJD()==58904,"file:iers-days",x<<" size "<<S.size()); EOPStore W; for(int k=0;k<5;k++){ EarthOrientation e; e.xp=xp[k]; e.yp=yp[k]; e.UT1mUTC=ut[k]; W.addEOP(58900+k,e); } for(double q:{58900.25,58901.5,58903.75}){ EarthOrientation a,b; string y=thrown([&]{ a=S.getEOP(q,IERSConvention::IERS2003); b=W.getEOP(q,IERSConvention::IERS2003); }); c.eval(1); MC_CK(c,y==""&&fabs(a.xp-b.xp)<2e-6&&fabs(a.yp-b.yp)<2e-6&&fabs(a.UT1mUTC-b.UT1mUTC)<2e-7,"file:iers",y<<" "<<a.xp<<" "<<b.xp); } }
        else { EOPDataStore S; if(i%8>=4&&kind!=3) S.addEOPData(T(0,TimeSystem::UTC)-9e6,EOPDataStore::EOPData(1,1,1)); string x=thrown([&]{ if(kind==1) S.loadIERSFile(f); else if(kind==2) S.loadIGSFile(f); else S.loadSTKFile(f); }); MC_CK(c,x==""&&S.size()==5,"file:days",kind<<" "<<x<<" size "<<S.size()); CommonTime t0=MJD(58900.0,TimeSystem::UTC); MC_CK(c,S.getInitialTime()==t0&&S.getFinalTime()==t0+4*86400.0,"file:limits",kind<<" "<<sec(S.getInitialTime())); for(double q=0;q<=4;q+=0.5){ int k=(int)q; double r=q-k; if(k==4){k=3;r=1;} EOPDataStore::EOPData g; string y=thrown([&]{ g=S.getEOPData(t0+q*86400.0); }); c.eval(1); auto L=[&](double*v){ return v[k]+(v[k+1]-v[k])*r; }; bool nut=kind!=3; MC_CK(c,y==""&&fabs(g.xp-L(xp))<2e-6&&fabs(g.yp-L(yp))<2e-6&&fabs(g.UT1mUTC-L(ut))<2e-7&&(!nut||(fabs(g.dPsi-L(dp))<2e-6&&fabs(g.dEps-L(de))<2e-6)),"file:value",kind<<" at "<<q<<" "<<y<<" xp "<<g.xp<<" expected "<<L(xp)<<" dPsi "<<g.dPsi<<" expected "<<L(dp)); } }
     }); }
   return h.run(argc,argv);
}
