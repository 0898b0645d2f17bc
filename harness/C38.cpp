// C38: sequential least squares (square root information) equals the batch solution;
// sparse equals dense; names and parameters operations keep the information.
// MC-SAN: asan assert
// MC-RULE: information in an SRI is the pair (R'R, R'Z) by name; every operation is compared with its effect on normal equations computed in long double by the harness
#include "mc.hpp"
#include <memory>
#include <map>
#include <array>
#include <algorithm>
#include <sstream>
#include "Matrix.hpp"
#include "Vector.hpp"
#include "SRI.hpp"
#include "SRIFilter.hpp"
#include "SRIleastSquares.hpp"
#include "SparseMatrix.hpp"
#include "SparseVector.hpp"
#include "Namelist.hpp"
using namespace std;
using namespace gpstk;
using namespace mc;
typedef long double ld;
typedef vector<vector<ld>> LM;
typedef vector<ld> LV;

static LM lm(size_t r, size_t c){ return LM(r, LV(c, 0)); }
static LM toL(const Matrix<double>& M){ LM a=lm(M.rows(),M.cols()); for(size_t i=0;i<M.rows();i++)for(size_t j=0;j<M.cols();j++)a[i][j]=M(i,j); return a; }
static LV toL(const Vector<double>& V){ LV a(V.size()); for(size_t i=0;i<V.size();i++)a[i]=V(i); return a; }
static Matrix<double> toM(const LM& a, size_t c){ Matrix<double> M(a.size(), c, 0.0); for(size_t i=0;i<a.size();i++)for(size_t j=0;j<c;j++)M(i,j)=double(a[i][j]); return M; }
static Vector<double> toV(const LV& a){ Vector<double> V(a.size(),0.0); for(size_t i=0;i<a.size();i++)V(i)=double(a[i]); return V; }
static LM mul(const LM& A,const LM& B){ size_t n=A.size(),m=B.empty()?0:B[0].size(); LM C=lm(n,m); for(size_t i=0;i<n;i++)for(size_t k=0;k<B.size();k++)for(size_t j=0;j<m;j++)C[i][j]+=A[i][k]*B[k][j]; return C; }
static LM tr(const LM& A){ size_t m=A.empty()?0:A[0].size(); LM C=lm(m,A.size()); for(size_t i=0;i<A.size();i++)for(size_t j=0;j<m;j++)C[j][i]=A[i][j]; return C; }
static LV mulv(const LM& A,const LV& v){ LV c(A.size(),0); for(size_t i=0;i<A.size();i++)for(size_t j=0;j<v.size();j++)c[i]+=A[i][j]*v[j]; return c; }
// Gauss-Jordan inverse with pivoting, false when singular
static bool inv(LM A, LM& I){ size_t n=A.size(); I=lm(n,n); for(size_t i=0;i<n;i++)I[i][i]=1;
   for(size_t c=0;c<n;c++){ size_t p=c; for(size_t r=c;r<n;r++) if(fabsl(A[r][c])>fabsl(A[p][c]))p=r; if(fabsl(A[p][c])<1e-9L) return false; swap(A[p],A[c]);swap(I[p],I[c]); ld d=A[c][c]; for(size_t j=0;j<n;j++){A[c][j]/=d;I[c][j]/=d;}
      for(size_t r=0;r<n;r++) if(r!=c){ ld f=A[r][c]; if(f==0)continue; for(size_t j=0;j<n;j++){A[r][j]-=f*A[c][j];I[r][j]-=f*I[c][j];} } }
   return true; }
static ld maxd(const LM&A,const LM&B){ if(A.size()!=B.size())return 1e30L; ld m=0; for(size_t i=0;i<A.size();i++){ if(A[i].size()!=B[i].size())return 1e30L; for(size_t j=0;j<A[i].size();j++){ ld s=1+fabsl(A[i][j]); ld d=fabsl(A[i][j]-B[i][j])/s; if(!(d<=m))m=d; } } return m; }
static ld maxd(const LV&A,const LV&B){ if(A.size()!=B.size())return 1e30L; ld m=0; for(size_t i=0;i<A.size();i++){ ld d=fabsl(A[i]-B[i])/(1+fabsl(A[i])); if(!(d<=m))m=d; } return m; }
static string show(const LM&A){ ostringstream o; o<<"["; for(auto&r:A){ for(auto&x:r)o<<(double)x<<" "; o<<"; "; } o<<"]"; return o.str(); }
static string show(const LV&A){ ostringstream o; o<<"["; for(auto&x:A)o<<(double)x<<" "; o<<"]"; return o.str(); }

// normal equations labelled by names
struct Info { vector<string> nm; LM L; LV e; };
static vector<string> namesOf(const Namelist& n){ vector<string> v; for(unsigned i=0;i<n.size();i++) v.push_back(n.getName(i)); return v; }
static Namelist nlist(const vector<string>& v){ Namelist n; for(auto&s:v) n+=s; return n; }
static Namelist nlist(const string& s){ Namelist n; for(char c:s) n+=string(1,c); return n; }
static Info infoOf(const SRI& s){ Info f; f.nm=namesOf(s.getNames()); LM R=toL(s.getR()); LV Z=toL(s.getZ()); f.L=mul(tr(R),R); if(R.empty()) f.L=lm(0,0); f.e=mulv(tr(R),Z); return f; }
static Info order(const Info& f,const vector<string>& nm){ Info g; g.nm=nm; size_t n=nm.size(); g.L=lm(n,n); g.e=LV(n,0); vector<int> ix(n,-1); for(size_t i=0;i<n;i++) for(size_t k=0;k<f.nm.size();k++) if(f.nm[k]==nm[i]) ix[i]=k;
   for(size_t i=0;i<n;i++){ if(ix[i]<0)continue; g.e[i]=f.e[ix[i]]; for(size_t j=0;j<n;j++) if(ix[j]>=0) g.L[i][j]=f.L[ix[i]][ix[j]]; } return g; }
// remove one parameter keeping what the rest still says on its own (marginal)
static Info marg(const Info& f,const string& v){ size_t k=find(f.nm.begin(),f.nm.end(),v)-f.nm.begin(); Info g; for(size_t i=0;i<f.nm.size();i++) if(i!=k) g.nm.push_back(f.nm[i]); Info h=f; ld p=f.L[k][k];
   if(fabsl(p)>1e-12L) for(size_t i=0;i<f.nm.size();i++){ h.e[i]-=f.L[i][k]*f.e[k]/p; for(size_t j=0;j<f.nm.size();j++) h.L[i][j]-=f.L[i][k]*f.L[k][j]/p; }
   return order(h,g.nm); }
static Info add(const Info& a,const Info& b){ vector<string> nm=a.nm; for(auto&s:b.nm) if(find(nm.begin(),nm.end(),s)==nm.end()) nm.push_back(s); Info x=order(a,nm),y=order(b,nm); for(size_t i=0;i<nm.size();i++){ x.e[i]+=y.e[i]; for(size_t j=0;j<nm.size();j++) x.L[i][j]+=y.L[i][j]; } return x; }
static const ld TOL=1e-9L;

// judge an SRI against expected information (names in exactly this order)
static void judge(Ctx& c,const SRI& s,const Info& want,const string& key){
   Info g=infoOf(s);
   MC_CK(c,g.nm==want.nm,key+":names","names "<<nlist(g.nm)<<" expected "<<nlist(want.nm));
   if(g.nm!=want.nm) return;
   size_t n=g.nm.size();
   MC_CK(c,s.getR().rows()==n&&s.getR().cols()==n&&s.getZ().size()==n,key+":shape","R "<<s.getR().rows()<<"x"<<s.getR().cols()<<" Z "<<s.getZ().size()<<" names "<<n);
   LM R=toL(s.getR()); bool ut=true; for(size_t i=0;i<n;i++)for(size_t j=0;j<i;j++) if(fabsl(R[i][j])>1e-9L) ut=false;
   MC_CK(c,ut,key+":triangular","R is not upper triangular: "<<show(R));
   MC_CK(c,maxd(want.L,g.L)<TOL,key+":information","information "<<show(g.L)<<" expected "<<show(want.L));
   MC_CK(c,maxd(want.e,g.e)<TOL,key+":state-information","R'Z "<<show(g.e)<<" expected "<<show(want.e));
   c.eval(4);
   // solutions
   if(n==0) return;
   LM C; if(inv(want.L,C)){ LV X=mulv(C,want.e); Vector<double> gx,gx2; Matrix<double> gc; double sm=-1,bg=-1; int p=7;
      string t=thrown([&]{ s.getState(gx,&p); }); MC_CK(c,t==""&&p==-1&&maxd(X,toL(gx))<1e-7L,key+":getState",t<<" ptr "<<p<<" state "<<show(toL(gx))<<" expected "<<show(X));
      t=thrown([&]{ s.getStateAndCovariance(gx2,gc,&sm,&bg); }); MC_CK(c,t==""&&maxd(X,toL(gx2))<1e-7L,key+":state",t<<" state "<<show(toL(gx2))<<" expected "<<show(X));
      MC_CK(c,t!=""||maxd(C,toL(gc))<1e-7L,key+":covariance","covariance "<<show(toL(gc))<<" expected "<<show(C));
      double a=1e300,b=0; for(size_t i=0;i<n;i++){ a=min(a,fabs((double)R[i][i])); b=max(b,fabs((double)R[i][i])); }
      MC_CK(c,t!=""||(fabs(sm-a)<1e-12*b&&fabs(bg-b)<1e-12*b),key+":condition","smallest/largest diagonal "<<sm<<"/"<<bg<<" expected "<<a<<"/"<<b);
      c.eval(4);
   } else { // an exactly zero diagonal must be refused with the largest such index
      int z=-1; for(size_t i=0;i<n;i++) if(R[i][i]==0) z=i;
      if(z>=0){ Vector<double> gx; Matrix<double> gc; int p=7; string t=thrown([&]{ s.getState(gx,&p); }); MC_CK(c,t!=""&&p==z,key+":singular-index",t<<" ptr "<<p<<" expected "<<z);
         t=thrown([&]{ s.getStateAndCovariance(gx,gc); }); MC_CK(c,t!="",key+":singular-accepted","covariance of a singular problem returned"); c.eval(2); }
   }
}

// measurement sets: rows of H with data
struct Row { int h[3]; int d; };
static const vector<vector<Row>> SETS={
   {{{1,0,0},2},{{0,1,0},-3},{{0,0,1},5},{{1,1,1},4}},
   {{{1,2,3},6},{{0,1,4},5},{{5,6,0},11},{{1,1,1},2}},
   {{{2,0,0},4},{{2,1,0},5},{{0,1,-1},1},{{0,0,3},-3}},
   {{{0,0,1},1},{{0,1,0},2},{{1,0,0},3},{{0,0,0},0}},
   {{{1,1,0},3},{{1,-1,0},1},{{2,2,0},6},{{0,3,0},-2}},       // never determines the third
   {{{0,2,1},0},{{0,4,2},1},{{1,0,0},1},{{3,0,0},-7}},        // rank 2
   {{{-1,1,0},2},{{0,-1,1},-1},{{1,0,-1},-1},{{1,1,1},9}},
   {{{3,1,2},7},{{3,1,2},8},{{-3,-1,-2},-7},{{1,0,2},1}} };
static Row rowOf(const vector<Row>& s,int i){ return s[i]; }
static void accum(Info& f,const vector<Row>& rows,const LM& W){ // += H'WH, H'Wd
   size_t m=rows.size(); for(size_t a=0;a<m;a++)for(size_t b=0;b<m;b++){ ld w=W[a][b]; if(w==0)continue; for(int i=0;i<3;i++){ f.e[i]+=rows[a].h[i]*w*rows[b].d; for(int j=0;j<3;j++) f.L[i][j]+=rows[a].h[i]*w*rows[b].h[j]; } } }
static ld sumsq(const LV& v){ ld s=0; for(ld x:v)s+=x*x; return s; }
static LM covOf(size_t m,int kind){ LM C=lm(m,m); for(size_t i=0;i<m;i++){ C[i][i]=kind==1?1.0L+i:4; if(kind==2) for(size_t j=0;j<m;j++) if(i!=j) C[i][j]=(i+j)%2?1:0.5L; } return C; }

static void LSF(Vector<double>& X, Vector<double>& f, Matrix<double>& P);
static vector<Row> gRows;
static void LSF(Vector<double>& X, Vector<double>& f, Matrix<double>& P){ f=Vector<double>(gRows.size(),0.0); P=Matrix<double>(gRows.size(),3,0.0); for(size_t i=0;i<gRows.size();i++)for(int j=0;j<3;j++) P(i,j)=gRows[i].h[j]; }
// a non-linear equation: f_i = h.x + x_k^2/10 so that iteration is needed
static void LSN(Vector<double>& X, Vector<double>& f, Matrix<double>& P){ size_t m=gRows.size(); f=Vector<double>(m,0.0); P=Matrix<double>(m,3,0.0); for(size_t i=0;i<m;i++){ for(int j=0;j<3;j++){ P(i,j)=gRows[i].h[j]; f(i)+=gRows[i].h[j]*X(j); } int k=i%3; f(i)+=X(k)*X(k)/10; P(i,k)+=X(k)/5; } }

int main(int argc,char** argv){
   Harness h("C38");
   static bool deep=h.thorough;
   static vector<array<int,4>> perms; { array<int,4> p={{0,1,2,3}}; do perms.push_back(p); while(next_permutation(p.begin(),p.end())); }
   // ---- measurement updates: every order x every batching x every way to feed x apriori placement x covariance
   // ways: 0 SRI dense, 1 SRI sparse, 2 filter dense, 3 filter sparse, 4 free SrifMU from empty
   h.part("every order, batching, route and constraint placement of four measurements",(u64)SETS.size()*24*8*5*3*3,[&](Ctx& c,u64 i){
      Mix m(i); int ck=m(3), ap=m(3), way=m(5), comp=m(8); auto& p=perms[m(24)]; auto& S=SETS[m(SETS.size())];
      c.at("set/order/batches/route"); if(ck&&way<2) return; if(way==4&&(ap||ck)) return;
      vector<vector<int>> batches(1); for(int k=0;k<4;k++){ batches.back().push_back(p[k]); if(k<3&&(comp>>k&1)) batches.push_back({}); }
      vector<string> nm={"A","B","C"}; Info want; want.nm=nm; want.L=lm(3,3); want.e=LV(3,0);
      Namelist NL=nlist(nm); SRIFilter F(NL); SRI S0(NL); SRI& s= way>=2? static_cast<SRI&>(F):S0; Matrix<double> R4; Vector<double> Z4;
      LM apc={{4,1,0},{1,3,-1},{0,-1,2}}; LV apx={1,-2,3}; LM apw; inv(apc,apw);
      auto apriori=[&]{ string t; if(ap==1) t=thrown([&]{ s.addAPriori(toM(apc,3),toV(apx)); }); else t=thrown([&]{ s.addAPrioriInformation(toM(apw,3),toV(apx)); });
         MC_CK(c,t=="","apriori:refused",t); LV we=mulv(apw,apx); for(int a=0;a<3;a++){ want.e[a]+=we[a]; for(int b=0;b<3;b++) want.L[a][b]+=apw[a][b]; } judge(c,s,want,"apriori"); };
      bool apFirst=(comp&1); if(ap&&apFirst) apriori();
      for(auto& b:batches){ vector<Row> rows; for(int k:b) rows.push_back(rowOf(S,k)); size_t n=rows.size(); LM H=lm(n,3); LV D(n); for(size_t a=0;a<n;a++){ for(int j=0;j<3;j++)H[a][j]=rows[a].h[j]; D[a]=rows[a].d; }
         LM W=lm(n,n),CC; for(size_t a=0;a<n;a++)W[a][a]=1; if(ck){ CC=covOf(n,ck); inv(CC,W); }
         accum(want,rows,W);
         ld before=sumsq(toL(way==4?Z4:s.getZ())); ld dWd=0; { LV t=mulv(W,D); for(size_t a=0;a<n;a++) dWd+=t[a]*D[a]; }
         Matrix<double> MH=toM(H,3); Vector<double> MD=toV(D); string t;
         if(way==0) t=thrown([&]{ s.measurementUpdate(MH,MD); });
         else if(way==1){ SparseMatrix<double> SH(MH); t=thrown([&]{ s.measurementUpdate(SH,MD); }); }
         else if(way==2) t=thrown([&]{ if(ck) F.measurementUpdate(MH,MD,toM(CC,n)); else F.measurementUpdate(MH,MD); });
         else if(way==3){ SparseMatrix<double> SH(MH); t=thrown([&]{ if(ck){ SparseMatrix<double> SC(toM(CC,n)); F.measurementUpdate(SH,MD,SC); } else F.measurementUpdate(SH,MD); }); }
         else { Matrix<double> A=MH||MD; t=thrown([&]{ SrifMU(R4,Z4,A); MD=Vector<double>(A.colCopy(A.cols()-1)); }); }
         MC_CK(c,t=="","update:refused",t); if(t!="") return;
         SRI q; if(way==4){ t=thrown([&]{ q=SRI(R4,Z4,NL); }); }
         judge(c,way==4?q:s,want,"update");
         // residuals: what is left over carries exactly the misfit
         LV r=toL(MD); if(r.size()==n){ LV t2=mulv(W,r); ld rr=0; for(size_t a=0;a<n;a++) rr+=t2[a]*r[a]; ld after=sumsq(toL(way==4?Z4:s.getZ())); MC_CK(c,fabsl(before+dWd-after-rr)<1e-8L*(1+before+dWd),"update:residuals","sum of squares before "<<(double)(before+dWd)<<" after "<<(double)(after+rr)); } else MC_CK(c,false,"update:residual-length","length "<<r.size());
         c.trans(1); c.eval(1);
      }
      if(ap&&!apFirst) apriori();
      c.states(1); c.outcome(hmix(hdbl((double)want.L[0][0]),hdbl((double)want.e[2])));
   });
   // a row limit on the measurement update uses only the first rows
   h.part("measurement update limited to the first rows",(u64)SETS.size()*24*6,[&](Ctx& c,u64 i){
      Mix m(i); int M=m(6); auto& p=perms[m(24)]; auto& S=SETS[m(SETS.size())]; int use=(M==0||M>4)?4:M; Info want; want.nm={"A","B","C"}; want.L=lm(3,3); want.e=LV(3,0); LM H=lm(4,3); LV D(4); vector<Row> rows; for(int k=0;k<4;k++){ Row r=S[p[k]]; for(int j=0;j<3;j++)H[k][j]=r.h[j]; D[k]=r.d; if(k<use) rows.push_back(r); }
      LM W=lm(4,4); for(int k=0;k<4;k++)W[k][k]=1; accum(want,rows,W);
      for(int sp=0;sp<3;sp++){ Matrix<double> R(3,3,0.0); Vector<double> Z(3,0.0); Matrix<double> MH=toM(H,3); Vector<double> MD=toV(D); c.at(sp==0?"dense":sp==1?"sparse split":"sparse joined"); string t;
         if(sp==0) t=thrown([&]{ SrifMU(R,Z,MH,MD,(unsigned)M); }); else if(sp==1){ SparseMatrix<double> SH(MH); t=thrown([&]{ SrifMU(R,Z,SH,MD,(unsigned)M); }); } else { SparseMatrix<double> SA(MH||MD); t=thrown([&]{ SrifMU(R,Z,SA,(unsigned)M); }); }
         MC_CK(c,t=="","rows:refused",t); if(t!="")continue; judge(c,SRI(R,Z,nlist(want.nm)),want,string("rows:")+(sp?"sparse":"dense")); c.trans(1); }
      c.states(1);
   });
   // ---- SRIleastSquares: linear sequential equals batch, weights, linearized fixed point
   h.part("least squares class: every order and batching, weighted or not, with and without constraint",(u64)SETS.size()*24*8*2*2,[&](Ctx& c,u64 i){
      Mix m(i); int ap=m(2),wt=m(2),comp=m(8); auto& p=perms[m(24)]; auto& S=SETS[m(SETS.size())]; vector<vector<int>> batches(1); for(int k=0;k<4;k++){ batches.back().push_back(p[k]); if(k<3&&(comp>>k&1)) batches.push_back({}); }
      Info want; want.nm={"A","B","C"}; want.L=lm(3,3); want.e=LV(3,0); SRIleastSquares s(nlist(want.nm)); s.doSequential=true; s.doWeight=wt; c.at("batches");
      if(ap){ LM apc={{4,1,0},{1,3,-1},{0,-1,2}}; LV apx={1,-2,3}; LM apw; inv(apc,apw); s.addAPriori(toM(apc,3),toV(apx)); LV we=mulv(apw,apx); want.L=apw; want.e=we; }
      for(auto& b:batches){ gRows.clear(); for(int k:b) gRows.push_back(S[k]); size_t n=gRows.size(); LM W=lm(n,n); Matrix<double> Cov(n,n,0.0); for(size_t a=0;a<n;a++){ W[a][a]=wt?1.0L/(1.0L+a):1; Cov(a,a)=wt?1.0+a:1; } accum(want,gRows,W); Vector<double> D(n,0.0),D0,X(3,0.0); for(size_t a=0;a<n;a++) D(a)=gRows[a].d; D0=D; int rc=99; string t=thrown([&]{ rc=s.dataUpdate(D,X,Cov,LSF); });
         LM C; bool ok=inv(want.L,C); MC_CK(c,t=="","lsq:throws",t<<" rc "<<rc); if(t!="")return;
         MC_CK(c,rc==(ok?0:-2)||(!ok&&rc==0),"lsq:return","returned "<<rc<<" for a "<<(ok?"regular":"singular")<<" problem"); judge(c,s,want,"lsq");
         if(ok&&rc==0){ LV XX=mulv(C,want.e); MC_CK(c,s.isValid()&&maxd(XX,toL(X))<1e-7L&&maxd(XX,toL(s.Solution()))<1e-7L&&maxd(C,toL(Cov))<1e-7L,"lsq:solution","X "<<show(toL(X))<<" expected "<<show(XX)); } else if(rc!=0) MC_CK(c,!s.isValid(),"lsq:valid","solution marked valid after a failure");
         c.eval(3); c.trans(1); }
      c.states(1);
      // after zeroAll nothing is left
      s.zeroAll(); want.L=lm(3,3); want.e=LV(3,0); judge(c,s,want,"lsq:zeroAll");
   });
   h.part("linearized least squares ends at a stationary point",(u64)SETS.size()*24*3,[&](Ctx& c,u64 i){
      Mix m(i); int x0=m(3); auto& p=perms[m(24)]; auto& S=SETS[m(SETS.size())]; gRows.clear(); for(int k=0;k<4;k++) gRows.push_back(S[p[k]]); SRIleastSquares s(nlist("ABC")); s.doLinearize=true; s.iterationsLimit=30; Vector<double> D(4),X(3,0.0),D0; for(int k=0;k<4;k++)D(k)=gRows[k].d; D0=D; X(0)=x0; X(1)=x0-1; X(2)=0.5*x0; Matrix<double> Cov; int rc=99; c.at("iterate"); string t=thrown([&]{ rc=s.dataUpdate(D,X,Cov,LSN); }); c.eval(1); c.states(1); c.trans(s.Iterations());
      MC_CK(c,t=="","linearized:throws",t); if(t!=""||rc!=0){ MC_CK(c,rc!=0&&!s.isValid(),"linearized:valid","valid after rc "<<rc); c.outcome("failed"); return; }
      Vector<double> f; Matrix<double> P; LSN(X,f,P); LV g=mulv(tr(toL(P)),toL(D0-f)); ld sc=1; for(auto&r:toL(P))for(auto x:r)sc=max(sc,fabsl(x)); MC_CK(c,fabsl(g[0])+fabsl(g[1])+fabsl(g[2])<1e-5L*sc*sc*(1+sqrtl(sumsq(toL(D0-f)))),"linearized:not-stationary","gradient "<<show(g)<<" X "<<show(toL(X))); MC_CK(c,s.isValid()&&s.Convergence()<s.convergenceLimit,"linearized:convergence","convergence "<<s.Convergence()); c.outcome("converged"); });
   // ---- operations on names and parameters, all sequences
   struct Op { string name; function<bool(SRI&,Info&,Ctx&)> f; };
   static vector<Op> ops; static SRI other(nlist("BD")), fresh(nlist("EF"));
   { Matrix<double> H(2,2,0.0); H(0,0)=1;H(0,1)=2;H(1,1)=3; Vector<double> D(2,4.0); other.measurementUpdate(H,D); Matrix<double> G(3,2,0.0); G(0,0)=2;G(1,0)=-1;G(1,1)=1;G(2,1)=5; Vector<double> E(3,1.0); fresh.measurementUpdate(G,E); }
   auto clean=[](Ctx&c,const string& t,const string& k){ MC_CK(c,t=="",k+":refused",t); return t==""; };
   for(int k=0;k<6;k++) ops.push_back({"permute"+to_string(k),[k,clean](SRI& s,Info& w,Ctx& c){ vector<string> v=w.nm; sort(v.begin(),v.end()); static const int mode[6]={0,1,2,3,4,5}; if(mode[k]==1) reverse(v.begin(),v.end()); if(mode[k]==2&&v.size()>1) rotate(v.begin(),v.begin()+1,v.end()); if(mode[k]==3){ v=w.nm; if(v.size()>1) swap(v[0],v.back()); } if(mode[k]==4){ v=w.nm; if(v.size()>1) swap(v[0],v[1]); } if(mode[k]==5){ v=w.nm; if(v.size()>1) rotate(v.begin(),v.end()-1,v.end()); } string t=thrown([&]{ s.permute(nlist(v)); }); w=order(w,v); return clean(c,t,"permute"); }});
   ops.push_back({"permute to other names",[](SRI& s,Info& w,Ctx& c){ vector<string> v=w.nm; if(v.empty())return false; v[0]="QQ"; string t=thrown([&]{ s.permute(nlist(v)); }); MC_CK(c,t!="","permute:accepted-other-names","accepted"); return true; }});
   for(string a:{"D","AG","ABC"}) ops.push_back({"add names "+a,[a,clean](SRI& s,Info& w,Ctx& c){ Namelist nl=nlist(a); string t=thrown([&]{ s+=nl; }); Info z; z.nm=namesOf(nl); z.L=lm(z.nm.size(),z.nm.size()); z.e=LV(z.nm.size(),0); w=add(w,z); return clean(c,t,"add-names"); }});
   for(string a:{"A","C","CB","BA","AC"}) ops.push_back({"split "+a,[a,clean](SRI& s,Info& w,Ctx& c){ Namelist nl=nlist(a); vector<string> v=namesOf(nl); bool sub=v.size()<w.nm.size(); for(auto&x:v) if(find(w.nm.begin(),w.nm.end(),x)==w.nm.end()) sub=false; SRI left; string t=thrown([&]{ s.split(nl,left); }); if(!sub){ MC_CK(c,t!="","split:accepted-non-subset","accepted"); return false; }
      if(!clean(c,t,"split")) return false; Info all=w; for(auto&x:w.nm) if(find(v.begin(),v.end(),x)==v.end()){ } Info k=w; for(auto&x:all.nm) if(find(v.begin(),v.end(),x)==v.end()) k=marg(k,x); w=order(k,v);
      // the two parts together hold all the information
      Info l=infoOf(left); Info sum=add(l,infoOf(s)); sum=order(sum,all.nm); MC_CK(c,l.nm.size()==all.nm.size()&&maxd(all.L,sum.L)<TOL&&maxd(all.e,sum.e)<TOL,"split:parts-do-not-add-up","sum "<<show(sum.L)<<" before "<<show(all.L)); SRI back; string t2=thrown([&]{ back=left+s; }); MC_CK(c,t2=="","split:merge-refused",t2); if(t2==""){ Info bi=order(infoOf(back),all.nm); MC_CK(c,maxd(all.L,bi.L)<TOL&&maxd(all.e,bi.e)<TOL,"split:merge","merged "<<show(bi.L)<<" before "<<show(all.L)); } return true; }});
   for(string a:{"ABC","CBA","AC","BD","DACB","CG","XY"}) ops.push_back({"reshape "+a,[a,clean](SRI& s,Info& w,Ctx& c){ Namelist nl=nlist(a); vector<string> v=namesOf(nl); string t=thrown([&]{ s.reshape(nl); }); Info k=w; for(auto&x:w.nm) if(find(v.begin(),v.end(),x)==v.end()) k=marg(k,x); w=order(k,v); return clean(c,t,"reshape"); }});
   ops.push_back({"merge",[clean](SRI& s,Info& w,Ctx& c){ string t=thrown([&]{ s.merge(other); }); w=add(w,infoOf(other)); return clean(c,t,"merge"); }});
   ops.push_back({"append",[clean](SRI& s,Info& w,Ctx& c){ bool dup=false; for(auto&x:w.nm) if(x=="E"||x=="F")dup=true; Info b=infoOf(s); string t=thrown([&]{ s.append(fresh); }); if(dup){ MC_CK(c,t!="","append:accepted-duplicate","accepted"); return true; } w=add(w,infoOf(fresh)); return clean(c,t,"append"); }});
   ops.push_back({"shift",[clean](SRI& s,Info& w,Ctx& c){ LV x(w.nm.size()); for(size_t i=0;i<x.size();i++)x[i]=1+2*(ld)i; string t=thrown([&]{ s.shift(toV(x)); }); LV y=mulv(w.L,x); for(size_t i=0;i<x.size();i++) w.e[i]-=y[i]; return clean(c,t,"shift"); }});
   ops.push_back({"shiftZ",[clean](SRI& s,Info& w,Ctx& c){ LV x(w.nm.size()); for(size_t i=0;i<x.size();i++)x[i]=2-(ld)i; LV y=mulv(tr(toL(s.getR())),x); string t=thrown([&]{ s.shiftZ(toV(x)); }); for(size_t i=0;i<x.size();i++) w.e[i]-=y[i]; return clean(c,t,"shiftZ"); }});
   ops.push_back({"transform",[clean](SRI& s,Info& w,Ctx& c){ size_t n=w.nm.size(); LM T=lm(n,n); for(size_t i=0;i<n;i++){ T[i][(i+1)%n]+=2; T[i][i]+=1; } if(n==2){ T[0][0]=1;T[0][1]=3;T[1][0]=0;T[1][1]=2; } vector<string> nm; for(size_t i=0;i<n;i++) nm.push_back(string(1,"ABCDEFGH"[n-1-i])); string t=thrown([&]{ s.transform(toM(T,n),nlist(nm)); }); w.L=mul(tr(T),mul(w.L,T)); w.e=mulv(tr(T),w.e); w.nm=nm; return clean(c,t,"transform"); }});
   for(int k=0;k<3;k++) for(double q:{0.0,2.0}) ops.push_back({"bump "+to_string(k)+(q?" by 2":" off"),[k,q,clean](SRI& s,Info& w,Ctx& c){ string t=thrown([&]{ s.Qbump(k,q); }); if(k<(int)w.nm.size()){ ld p=w.L[k][k]+(q?1.0L/(q*q):0); // X_k = old X_k + w, w ~ (0,q^2): eliminate old
         Info b=w; size_t n=w.nm.size(); if(p>1e-12L){ for(size_t i=0;i<n;i++){ b.e[i]=w.e[i]-w.L[i][k]*w.e[k]/p; for(size_t j=0;j<n;j++) b.L[i][j]=w.L[i][j]-w.L[i][k]*w.L[k][j]/p; } w=b; } } return clean(c,t,"bump"); }});
   for(int k=0;k<3;k++) for(int rs=0;rs<2;rs++) ops.push_back({"fix "+to_string(k)+(rs?" restore":""),[k,rs,clean](SRI& s,Info& w,Ctx& c){ size_t n=w.nm.size(); if(k>=(int)n) return true; string name=w.nm[k]; string t=thrown([&]{ if(rs) s.stateFix(name,3.0,0.5,true); else s.stateFix((unsigned)k,3.0,0.5,false); }); Info b=w; // others given X_k stay; X_k's own information is replaced by 1/sigma
         Info mk=w; for(auto&x:w.nm) if(x!=name) mk=marg(mk,x); b.L[k][k]+=4-mk.L[0][0]; b.e[k]+=12-mk.e[0]; vector<string> v=w.nm; if(!rs) swap(v[k],v[n-1]); w=order(b,v); return clean(c,t,"fix"); }});
   ops.push_back({"fix unknown",[clean](SRI& s,Info& w,Ctx& c){ string t=thrown([&]{ s.stateFix("nope",1,1,true); }); return clean(c,t,"fix-unknown"); }});
   for(int k=0;k<3;k++) ops.push_back({"fix and remove "+to_string(k),[k,clean](SRI& s,Info& w,Ctx& c){ size_t n=w.nm.size(); LM R=toL(s.getR()); LV Z=toL(s.getZ()); string t=thrown([&]{ s.stateFixAndRemove((unsigned)k,1.5); }); if(k<(int)n){ if(n==1){ w=Info(); return false; } LM R2; LV Z2; for(int i=0;i<(int)n;i++){ if(i==k)continue; LV r; for(int j=0;j<(int)n;j++) if(j!=k) r.push_back(R[i][j]); R2.push_back(r); Z2.push_back(Z[i]-(i<k?R[i][k]*1.5L:0)); } w.L=mul(tr(R2),R2); w.e=mulv(tr(R2),Z2); w.nm.erase(w.nm.begin()+k);} return clean(c,t,"fix-and-remove"); }});
   for(string a:{"C","CA","XB","BA"}) ops.push_back({"fix and remove names "+a,[a,clean](SRI& s,Info& w,Ctx& c){ Namelist nl=nlist(a); Vector<double> v(a.size()); for(size_t i=0;i<a.size();i++) v(i)=1+2.0*i; SRI one(s); string t=thrown([&]{ s.stateFixAndRemove(nl,v); }); 
         string t1=thrown([&]{ for(size_t i=0;i<a.size();i++){ int ix=one.getNames().index(string(1,a[i])); if(ix>=0&&one.size()>1) one.stateFixAndRemove((unsigned)ix,v(i)); else if(ix>=0) one=SRI(0u); } }); MC_CK(c,t1=="","fix-and-remove:one-by-one",t1); w=infoOf(one); return clean(c,t,"fix-and-remove-names")&&w.nm.size()>0; }});
   for(int k=0;k<3;k++) ops.push_back({"zero "+to_string(k),[k](SRI& s,Info& w,Ctx& c){ LM R=toL(s.getR()); LV Z=toL(s.getZ()); s.zeroOne(k); if(k<(int)R.size()){ for(auto&x:R[k])x=0; Z[k]=0; w.L=mul(tr(R),R); w.e=mulv(tr(R),Z); } return true; }});
   ops.push_back({"zero first two",[](SRI& s,Info& w,Ctx& c){ LM R=toL(s.getR()); LV Z=toL(s.getZ()); if(R.size()<3) return true; s.zeroAll(2); for(int k=0;k<2;k++){ for(auto&x:R[k])x=0; Z[k]=0; } w.L=mul(tr(R),R); w.e=mulv(tr(R),Z); return true; }});
   ops.push_back({"zero all",[](SRI& s,Info& w,Ctx& c){ s.zeroAll(); for(auto&r:w.L)for(auto&x:r)x=0; for(auto&x:w.e)x=0; return true; }});
   ops.push_back({"zero state",[](SRI& s,Info& w,Ctx& c){ s.zeroState(); for(auto&x:w.e)x=0; return true; }});
   ops.push_back({"measure",[clean](SRI& s,Info& w,Ctx& c){ size_t n=w.nm.size(); Matrix<double> H(2,n,0.0); Vector<double> D(2); D(0)=3;D(1)=-1; for(size_t j=0;j<n;j++){ H(0,j)=1; H(1,j)=j%2?-2:1; } LM HL=toL(H); LV DL=toL(D); string t=thrown([&]{ s.measurementUpdate(H,D); }); LM q=mul(tr(HL),HL); LV e=mulv(tr(HL),DL); for(size_t i=0;i<n;i++){ w.e[i]+=e[i]; for(size_t j=0;j<n;j++) w.L[i][j]+=q[i][j]; } return clean(c,t,"measure"); }});
   ops.push_back({"covariance round trip",[clean](SRI& s,Info& w,Ctx& c){ LM C; if(!inv(w.L,C)) return true; for(size_t i=0;i<C.size();i++) if(fabsl(C[i][i])<1e-8L) return true; LV X=mulv(C,w.e); SRI q; string t=thrown([&]{ q.setFromCovState(toM(C,C.size()),toV(X),nlist(w.nm)); }); if(t==""){ s=q; } return clean(c,t,"from-covariance"); }});
   ops.push_back({"rename",[](SRI& s,Info& w,Ctx& c){ if(w.nm.size()<2) return true; bool dup=s.setName(0,w.nm[1]); MC_CK(c,!dup,"rename:duplicate-accepted","accepted"); bool has=find(w.nm.begin(),w.nm.end(),"H")!=w.nm.end(); bool ok=s.setName(0,"H"); MC_CK(c,ok==(!has||w.nm[0]=="H"),"rename:refused","result "<<ok); if(ok) w.nm[0]="H"; return true; }});
   static int NO=ops.size(); int depth=deep?4:3; u64 N=1; for(int k=0;k<depth;k++)N*=NO;
   static vector<SRI> starts; for(int k=0;k<4;k++){ SRI s(nlist("ABC")); auto& S=SETS[k==0?1:k==1?6:k==2?4:5]; Matrix<double> H(4,3,0.0); Vector<double> D(4); for(int a=0;a<4;a++){ for(int j=0;j<3;j++)H(a,j)=S[a].h[j]; D(a)=S[a].d; } s.measurementUpdate(H,D); starts.push_back(s); }
   static int NS=deep?4:4;
   h.part("all sequences of operations on names and parameters",(u64)NO*NO*NS,[=](Ctx& c,u64 i){
      Mix m(i); int st=m(NS); int o1=m(NO), o2=m(NO);
      function<void(SRI,Info,vector<int>)> rec=[&](SRI s,Info w,vector<int> seq){ if((int)seq.size()>=depth) return; for(int o=0;o<NO;o++){ if(seq.size()==0&&o!=o1) continue; if(seq.size()==1&&o!=o2) continue; vector<int> q=seq; q.push_back(o); SRI s2(s); Info w2=w; 
            // after the first two steps the model starts again from what the code holds, so that an earlier difference is not counted twice
            { string d; for(int x:q) d+=ops[x].name+" > "; c.at(d); }
            bool go=false; string t=thrown([&]{ go=ops[o].f(s2,w2,c); }); MC_CK(c,t=="","sequence:exception",t<<" in "<<ops[o].name); c.trans(1);
            if(go&&t==""){ judge(c,s2,w2,ops[o].name.substr(0,ops[o].name.find(' '))); Info a=infoOf(s2); if(a.nm==w2.nm&&maxd(w2.L,a.L)<TOL&&maxd(w2.e,a.e)<TOL) { ld big=0; for(auto&r:a.L)for(auto&x:r)big=max(big,fabsl(x)); bool noise=false; { LM R=toL(s2.getR()); for(size_t r=0;r<R.size();r++) if(R[r][r]!=0&&fabsl(R[r][r])<1e-7L) noise=true; } /* rounding left of a vanished column: numerically singular, not followed */ if(big<1e6L&&!noise&&!w2.nm.empty()) rec(s2,a,q); } }
            c.states(1); if(seq.size()<2) break; } };
      SRI s=starts[st]; rec(s,infoOf(s),{});
   });
   // ---- time and smoother updates
   h.part("time update and smoothers equal the covariance formulas",5*3*3*4*3,[](Ctx& c,u64 i){
      Mix m(i); int zwk=m(3); int st=m(4); int ns=1+m(3), rwk=m(3), ph=m(5); if(st>=2) st=0; (void)st; SRIFilter F(nlist("ABC")); { auto& S=SETS[(i/7)%2?1:6]; Matrix<double> H(4,3,0.0); Vector<double> D(4); for(int a=0;a<4;a++){ for(int j=0;j<3;j++)H(a,j)=S[a].h[j]; D(a)=S[a].d; } F.measurementUpdate(H,D); }
      LM Phi=lm(3,3); for(int a=0;a<3;a++)Phi[a][a]=1; if(ph==1){Phi[0][1]=2;} if(ph==2){Phi[0][1]=1;Phi[1][2]=1;Phi[0][2]=0.5L;} if(ph==3){ Phi={{0,1,0},{0,0,1},{1,0,0}}; } if(ph==4){ Phi={{2,0,1},{1,1,0},{0,-1,1}}; }
      LM Pi; if(!inv(Phi,Pi)) return; LM G=lm(3,ns); for(int k=0;k<ns;k++){ G[(k+ph)%3][k]=1+k; if(rwk==2) G[(k+1)%3][k]+=0.5L; } LM Rw=lm(ns,ns); for(int k=0;k<ns;k++){ Rw[k][k]=rwk?2+k:1; if(rwk==2) for(int l=k+1;l<ns;l++)Rw[k][l]=1; } LV Zw(ns,0); if(zwk) for(int k=0;k<ns;k++)Zw[k]=zwk==1?1:(k-1);
      Info b=infoOf(F); LM P,Q,RI; inv(b.L,P); inv(Rw,RI); Q=mul(RI,tr(RI)); LV x=mulv(P,b.e), wbar=mulv(RI,Zw);
      // x+ = Phi x + G w  (P+ = Phi P Phi' + G Q G'): the matrix applied is [-R Phi^-1 G, R Phi^-1]
      LM Pp=mul(mul(Phi,P),tr(Phi)), GQ=mul(mul(G,Q),tr(G)); for(int a=0;a<3;a++)for(int d=0;d<3;d++)Pp[a][d]+=GQ[a][d]; LV xp=mulv(Phi,x), gw=mulv(G,wbar); for(int a=0;a<3;a++)xp[a]+=gw[a];
      Matrix<double> mPi=toM(Pi,3),mRw=toM(Rw,ns),mG=toM(G,ns),mRwx(ns,3,0.0),mPhi=toM(Phi,3); Vector<double> mZw=toV(Zw); string t=thrown([&]{ F.timeUpdate(mPi,mRw,mG,mZw,mRwx); }); c.at("time update"); MC_CK(c,t=="","time-update:refused",t); if(t!="")return; c.trans(1);
      Info w; w.nm=b.nm; LM Li; inv(Pp,Li); w.L=Li; w.e=mulv(Li,xp); judge(c,F,w,"time-update");
      // smoothing straight back with later information added
      LM Lm=Li; LV em=w.e; LM Hn={{1,1,0},{0,2,-1}}; LV dn={3,1}; { Matrix<double> H=toM(Hn,3); Vector<double> D=toV(dn); F.measurementUpdate(H,D); LM q=mul(tr(Hn),Hn); LV e=mulv(tr(Hn),dn); for(int a=0;a<3;a++){ em[a]+=e[a]; for(int d=0;d<3;d++)Lm[a][d]+=q[a][d]; } }
      LM Pl; inv(Lm,Pl); LV xl=mulv(Pl,em);
      // batch: x ~ (x,P) prior, later data d = H (Phi x + G w): joint normal equations for (x,w), marginal for x
      int n=3+ns; LM J=lm(n,n); LV je(n,0); for(int a=0;a<3;a++){ je[a]+=b.e[a]; for(int d=0;d<3;d++)J[a][d]+=b.L[a][d]; } LM RR=mul(tr(Rw),Rw); LV rz=mulv(tr(Rw),Zw); for(int a=0;a<ns;a++){ je[3+a]+=rz[a]; for(int d=0;d<ns;d++)J[3+a][3+d]+=RR[a][d]; }
      LM HP=mul(Hn,Phi),HG=mul(Hn,G); LM HJ=lm(2,n); for(int r=0;r<2;r++){ for(int a=0;a<3;a++)HJ[r][a]=HP[r][a]; for(int a=0;a<ns;a++)HJ[r][3+a]=HG[r][a]; } { LM q=mul(tr(HJ),HJ); LV e=mulv(tr(HJ),dn); for(int a=0;a<n;a++){ je[a]+=e[a]; for(int d=0;d<n;d++)J[a][d]+=q[a][d]; } }
      LM JI; inv(J,JI); LV js=mulv(JI,je); LM Ps=lm(3,3); LV xs(3); for(int a=0;a<3;a++){ xs[a]=js[a]; for(int d=0;d<3;d++)Ps[a][d]=JI[a][d]; }
      { SRIFilter B(F); Matrix<double> p=toM(Phi,3),rw=mRw,g=toM(G,ns),rwx=mRwx; Vector<double> zw=mZw; c.at("smoother"); t=thrown([&]{ B.smootherUpdate(p,rw,g,zw,rwx); }); MC_CK(c,t=="","smoother:refused",t); if(t==""){ Info s; s.nm=b.nm; inv(Ps,s.L); s.e=mulv(s.L,xs); judge(c,B,s,"smoother"); } }
      { SRIFilter B(F); Matrix<double> p=toM(Pl,3),pi=toM(Pi,3),rw=mRw,g=toM(G,ns),rwx=mRwx; Vector<double> zw=mZw,xv=toV(xl); c.at("covariance smoother"); t=thrown([&]{ B.DMsmootherUpdate(p,xv,pi,rw,g,zw,rwx); }); MC_CK(c,t=="","dm-smoother:refused",t); if(t=="") MC_CK(c,maxd(Ps,toL(p))<1e-8L&&maxd(xs,toL(xv))<1e-8L,"dm-smoother:value","P "<<show(toL(p))<<" expected "<<show(Ps)<<" x "<<show(toL(xv))<<" expected "<<show(xs)); }
      c.states(1); c.eval(4);
   });
   // ---- names
   static vector<string> lists; for(int len=0;len<=3;len++){ int n=1; for(int k=0;k<len;k++)n*=4; for(int v=0;v<n;v++){ string s; int q=v; bool dup=false; for(int k=0;k<len;k++){ char ch="ABCD"[q%4]; if(s.find(ch)!=string::npos)dup=true; s+=ch; q/=4; } if(!dup) lists.push_back(s);} }
   h.part("name list algebra",lists.size()*lists.size(),[](Ctx& c,u64 i){ Mix m(i); string a=lists[m(lists.size())],b=lists[m(lists.size())]; Namelist A=nlist(a),B=nlist(b); auto str=[](const Namelist& n){ string s; for(unsigned k=0;k<n.size();k++) s+=n.getName(k); return s; }; auto srt=[](string s){ sort(s.begin(),s.end()); return s; };
      string an,orr=a,xo; for(char x:a) if(b.find(x)!=string::npos) an+=x; else xo+=x; for(char x:b) if(a.find(x)==string::npos){ orr+=x; xo+=x; }
      MC_CK(c,srt(str(A&B))==srt(an),"names:and",str(A&B)<<" expected "<<an); MC_CK(c,str(A|B)==orr,"names:or",str(A|B)<<" expected "<<orr); MC_CK(c,srt(str(A^B))==srt(xo),"names:xor",str(A^B)<<" expected "<<xo);
      MC_CK(c,(A==B)==(srt(a)==srt(b))&&(A!=B)==(srt(a)!=srt(b))&&identical(A,B)==(a==b),"names:compare",a<<" "<<b); 
      for(char x:string("ABCDE")){ string n(1,x); size_t p=a.find(x); MC_CK(c,A.contains(n)==(p!=string::npos)&&A.index(n)==(p==string::npos?-1:(int)p),"names:index",a<<" "<<n); Namelist D(A); D-=n; string w=a; if(p!=string::npos) w.erase(p,1); MC_CK(c,str(D)==w,"names:remove",str(D)<<" expected "<<w); Namelist E(A); string t=thrown([&]{ E+=n; }); MC_CK(c,(t!="")==(p!=string::npos)&&str(E)==(p==string::npos?a+x:a),"names:add",t<<" "<<str(E)); for(unsigned k=0;k<4;k++){ Namelist F(A); bool ok=F.setName(k,n); bool wok=k<a.size()&&(a[k]==x||p==string::npos); string ww=a; if(wok)ww[k]=x; MC_CK(c,ok==wok&&str(F)==ww,"names:set",k<<n<<" "<<str(F)); } }
      for(unsigned k=0;k<4;k++)for(unsigned l=0;l<4;l++){ Namelist F(A); F.swap(k,l); string w=a; if(k<a.size()&&l<a.size()) swap(w[k],w[l]); MC_CK(c,str(F)==w,"names:swap",str(F)); } for(unsigned n=0;n<6;n++){ Namelist F(A); F.resize(n); MC_CK(c,F.size()==n&&F.valid()&&str(F).substr(0,min<size_t>(n,a.size()))==a.substr(0,n),"names:resize",str(F)); } Namelist F(A); F.sort(); MC_CK(c,str(F)==srt(a),"names:sort",str(F)); Namelist G(A); G.randomize(i+1); MC_CK(c,G==A,"names:randomize",str(G)); vector<string> v; for(char x:a+b) v.push_back(string(1,x)); Namelist U(v); MC_CK(c,U.valid()&&srt(str(U))==srt(orr),"names:unique",str(U)); c.states(1); c.eval(60); });
   // ---- sparse = dense
   static const double AL[4]={0,1,-2,0.5};
   auto dm=[](int code,int r,int cc){ Matrix<double> M(r,cc,0.0); for(int i=0;i<r;i++)for(int j=0;j<cc;j++){ M(i,j)=AL[code%4]; code/=4; } return M; };
   #define SAME(k,sp,de) do{ LM a_,b_; string t1_=thrown([&]{ Matrix<double> q_=(sp); a_=toL(q_); }); string t2_=thrown([&]{ Matrix<double> q_=(de); b_=toL(q_); }); MC_CK(c,t1_==""&&t2_=="","sparse:" k ":refused",t1_<<" / "<<t2_); if(t1_==""&&t2_=="") MC_CK(c,maxd(b_,a_)<1e-12L,"sparse:" k,"sparse "<<show(a_)<<" dense "<<show(b_)); c.eval(1);}while(0)
   #define SAMEV(k,sp,de) do{ LV a_,b_; string t1_=thrown([&]{ Vector<double> q_=(sp); a_=toL(q_); }); string t2_=thrown([&]{ Vector<double> q_=(de); b_=toL(q_); }); MC_CK(c,t1_==""&&t2_=="","sparse:" k ":refused",t1_<<" / "<<t2_); if(t1_==""&&t2_=="") MC_CK(c,maxd(b_,a_)<1e-12L,"sparse:" k,"sparse "<<show(a_)<<" dense "<<show(b_)); c.eval(1);}while(0)
   h.part("sparse and dense agree: pairs of 2x2 and 2x3 matrices",256*256,[=](Ctx& c,u64 i){ Mix m(i); int a=m(256),b=m(256); Matrix<double> A=dm(a,2,2),B=dm(b,2,2),B3=dm((b*16+a%16)%4096,2,3),A32=transpose(B3); SparseMatrix<double> SA(A),SB(B),SB3(B3),SA32(A32); Vector<double> v(2); v(0)=A(1,0);v(1)=B(0,1); SparseVector<double> sv(v); c.at("operators");
      SAME("product",SA*SB,A*B); SAME("product",SA*SB3,A*B3); SAME("product-sd",SA*B3,A*B3); SAME("product-ds",A*SB3,A*B3); SAME("product",SA32*SA,A32*A); SAME("sum",SA+SB,A+B); SAME("sum-sd",SA+B,A+B); SAME("sum-ds",A+SB,A+B); SAME("difference",SA-SB,A-B); SAME("difference-sd",SA-B,A-B); SAME("difference-ds",A-SB,A-B);
      SAME("transpose",transpose(SB3),transpose(B3)); SAME("concatenate",SA||SB3,A||B3); SAME("concatenate-vector",SA||v,A||v); SAME("mmt",matrixTimesTranspose(SB3),B3*transpose(B3)); SAME("mmt",matrixTimesTranspose(SA32),A32*B3);
      SAMEV("matrix-vector",SA32*v,A32*v); SAMEV("matrix-sparse-vector",SA32*sv,A32*v);
      { SparseMatrix<double> q(SA); q+=SB; SAME("add-to",q,A+B); q=SA; q-=SB; SAME("subtract-from",q,A-B); q=SA; q+=B; SAME("add-to-d",q,A+B); q=SA; q-=B; SAME("subtract-from-d",q,A-B); q=SA; q*=3.0; SAME("scale",q,A*3.0); q=SA; q/=4.0; SAME("unscale",q,A*0.25); SAME("negate",-SA,A*(-1.0)); }
      { Vector<double> d(3,0.0); LM P=toL(A32), C=toL(A*transpose(A)); LM R=mul(mul(P,C),tr(P)); for(int k=0;k<3;k++) d(k)=double(R[k][k]); Matrix<double> CC=A*transpose(A); SAMEV("transform-diagonal",transformDiag(SA32,CC),d); }
      for(int r=0;r<2;r++)for(int k=0;k<3;k++){ MC_CK(c,double(SB3(r,k))==B3(r,k),"sparse:element",r<<k); MC_CK(c,SB3.isFilled(r,k)==(B3(r,k)!=0),"sparse:filled",r<<k); SparseMatrix<double> q(SB3); Matrix<double> d(B3); q(r,k)=7; d(r,k)=7; SAME("assign",q,d); q(r,k)=0; d(r,k)=0; SAME("assign-zero",q,d); q(r,k)+=2; d(r,k)+=2; SAME("add-element",q,d); q(r,k)-=2; d(r,k)-=2; SAME("subtract-element",q,d); MC_CK(c,!q.isFilled(r,k),"sparse:zero-stored","after subtracting"); q=SB3; d=B3; q(r,k)*=3; d(r,k)*=3; SAME("scale-element",q,d); q(r,k)=SB3(0,0); d(r,k)=B3(0,0); SAME("copy-element",q,d); }
      for(int r=0;r<2;r++) SAMEV("row",SB3.rowCopy(r),B3.rowCopy(r)); for(int k=0;k<3;k++) SAMEV("column",SB3.colCopy(k),B3.colCopy(k)); SAMEV("diagonal",SB3.diagCopy(),B3.diagCopy()); { SparseMatrix<double> q(SB3); Matrix<double> d(B3); q.swapRows(0,1); d.swapRows(0,1); SAME("swap-rows",q,d); q.swapCols(0,2); d.swapCols(0,2); SAME("swap-columns",q,d); }
      { unsigned nz=0; for(int r=0;r<2;r++)for(int k=0;k<3;k++) nz+=B3(r,k)!=0; MC_CK(c,SB3.datasize()==nz&&SB3.isEmpty()==(nz==0)&&SB3.size()==6&&SB3.rows()==2&&SB3.cols()==3,"sparse:size","datasize "<<SB3.datasize()<<" expected "<<nz); }
      for(unsigned r=0;r<2;r++)for(unsigned k=0;k<3;k++)for(unsigned nr=1;r+nr<=2;nr++)for(unsigned nc=1;k+nc<=3;nc++) SAME("submatrix",SparseMatrix<double>(SB3,r,k,nr,nc),Matrix<double>(B3,r,k,nr,nc));
      { SparseMatrix<double> q(SB3); q.resize(1,2); Matrix<double> d(1,2,0.0); d(0,0)=B3(0,0);d(0,1)=B3(0,1); SAME("shrink",q,d); q.resize(2,3); Matrix<double> e(2,3,0.0); e(0,0)=d(0,0);e(0,1)=d(0,1); SAME("grow",q,e); q=SB3; q.zeroize(0.75); Matrix<double> z(B3); for(int r=0;r<2;r++)for(int k=0;k<3;k++) if(fabs(z(r,k))<=0.75) z(r,k)=0; SAME("zeroize",q,z); }
      c.states(1); });
   h.part("sparse vectors agree with dense: pairs of length 4",256*256,[=](Ctx& c,u64 i){ Mix m(i); int a=m(256),b=m(256); Vector<double> x(4),y(4); for(int k=0;k<4;k++){ x(k)=AL[a%4]; a/=4; y(k)=AL[b%4]; b/=4; } SparseVector<double> X(x),Y(y); SAMEV("v-sum",X+Y,x+y); SAMEV("v-sum-sd",X+y,x+y); SAMEV("v-sum-ds",x+Y,x+y); SAMEV("v-difference",X-Y,x-y); SAMEV("v-difference-sd",X-y,x-y); SAMEV("v-difference-ds",x-Y,x-y); SAMEV("v-negate",-X,x*(-1.0)); { SparseVector<double> q(X); q*=0.0; SAMEV("v-scale-zero",q,x*0.0); } { SparseVector<double> q(X); q+=Y; SAMEV("v-add-to",q,x+y); q-=y; SAMEV("v-subtract-from",q,x); q-=Y; SAMEV("v-subtract-from-s",q,x-y); q+=y; SAMEV("v-add-to-d",q,x); q*=3; SAMEV("v-scale",q,x*3.0); q/=3; q.addScaledSparseVector(2.0,Y); SAMEV("v-add-scaled",q,x+y*2.0); }
      double d=0,nx=0,ny=0; for(int k=0;k<4;k++){ d+=x(k)*y(k); nx+=x(k)*x(k); ny+=y(k)*y(k);} MC_CK(c,fabs(dot(X,Y)-d)<1e-12&&fabs(dot(X,y)-d)<1e-12&&fabs(dot(x,Y)-d)<1e-12,"sparse:v-dot",dot(X,Y)<<" expected "<<d); for(unsigned lo=0;lo<4;lo++)for(unsigned hi=lo;hi<=4;hi++){ double e=0; for(unsigned k=lo;k<hi;k++)e+=x(k)*y(k); MC_CK(c,fabs(dot_lim(X,Y,lo,hi)-e)<1e-12,"sparse:v-dot-range",lo<<".."<<hi<<" "<<dot_lim(X,Y,lo,hi)<<" expected "<<e); } MC_CK(c,fabs(norm(X)-sqrt(nx))<1e-12,"sparse:v-norm",norm(X));
      double ma=0; for(int k=0;k<4;k++) ma=max(ma,fabs(x(k))); MC_CK(c,maxabs(X)==ma,"sparse:v-maxabs",maxabs(X)); for(unsigned s=0;s<4;s++)for(unsigned n=1;s+n<=4;n++){ Vector<double> w(n); for(unsigned k=0;k<n;k++)w(k)=x(s+k); SAMEV("v-sub",SparseVector<double>(X,s,n),w); } c.states(1); c.eval(30); });
   h.part("sparse and dense agree: 3x3 factorizations and inverses",deep?262144:65536,[=](Ctx& c,u64 i){ u64 code=deep?i:i*4+(i*7+i/64)%4; Matrix<double> A=dm((int)code,3,3); SparseMatrix<double> SA(A); LM AL_=toL(A),I; c.at("3x3"); bool ok=inv(AL_,I); 
      { Matrix<double> q; string t=thrown([&]{ q=inverse(SA); }); if(ok) MC_CK(c,t==""&&maxd(I,toL(q))<1e-9L,"sparse:inverse",t<<" A "<<show(AL_)<<" got "<<show(toL(q))<<" expected "<<show(I)); else { bool zl=false; for(int r=0;r<3;r++){ bool a=true,b=true; for(int k=0;k<3;k++){ if(AL_[r][k]!=0)a=false; if(AL_[k][r]!=0)b=false; } zl=zl||a||b; } if(zl) MC_CK(c,t!="","sparse:inverse-singular","accepted "<<show(AL_)); } }
      // positive definite: M = A A' + I/2
      Matrix<double> M=A*transpose(A); for(int k=0;k<3;k++)M(k,k)+=0.5; SparseMatrix<double> SM(M); LM ML=toL(M),MI; inv(ML,MI); SAME("lower-cholesky",lowerCholesky(SM),lowerCholesky(M)); SAME("upper-cholesky",upperCholesky(SM),transpose(lowerCholesky(M))); 
      { LM L=toL(lowerCholesky(M)),U=toL(upperCholesky(M)); MC_CK(c,maxd(ML,mul(L,tr(L)))<1e-11L&&fabsl(L[0][1])+fabsl(L[0][2])+fabsl(L[1][2])==0,"dense:lower-cholesky",show(L)); MC_CK(c,maxd(ML,mul(U,tr(U)))<1e-11L&&fabsl(U[1][0])+fabsl(U[2][0])+fabsl(U[2][1])==0,"dense:upper-cholesky",show(U)); Matrix<double> ml=toM(L,3),mu=toM(U,3); double s1,b1; LM LI=toL(inverseLT(ml,&s1,&b1)),UI=toL(inverseUT(mu)); LM E=lm(3,3); for(int k=0;k<3;k++)E[k][k]=1; MC_CK(c,maxd(E,mul(L,LI))<1e-11L&&maxd(E,mul(U,UI))<1e-11L,"dense:triangular-inverse","A "<<show(AL_)); MC_CK(c,maxd(ML,toL(UTtimesTranspose(mu)))<1e-11L,"dense:ut-times-transpose","A "<<show(AL_)); MC_CK(c,maxd(MI,toL(inverseCholesky(M)))<1e-9L,"dense:inverse-cholesky","A "<<show(AL_)); Vector<double> D; LM l1=toL(LDL(M,D)); LM dd=lm(3,3); for(int k=0;k<3;k++)dd[k][k]=D(k); MC_CK(c,maxd(ML,mul(mul(l1,dd),tr(l1)))<1e-11L&&l1[0][0]==1&&l1[1][1]==1&&l1[2][2]==1,"dense:ldl","A "<<show(AL_)); LM u1=toL(UDU(M,D)); for(int k=0;k<3;k++)dd[k][k]=D(k); MC_CK(c,maxd(ML,mul(mul(u1,dd),tr(u1)))<1e-11L&&u1[0][0]==1&&u1[1][1]==1&&u1[2][2]==1,"dense:udu","A "<<show(AL_));
        double s2=0,b2=0; SparseMatrix<double> SL(ml); Matrix<double> q; string t=thrown([&]{ q=inverseLT(SL,&s2,&b2); }); MC_CK(c,t==""&&maxd(LI,toL(q))<1e-11L&&fabs(s1-s2)<1e-12&&fabs(b1-b2)<1e-12,"sparse:inverse-lower",t<<" "<<s2<<" "<<b2<<" expected "<<s1<<" "<<b1<<" "<<show(toL(q))); }
      SAME("inverse-via-cholesky",inverseViaCholesky(SM),inverseCholesky(M)); SAME("identity",identSparse<double>(3),ident<double>(3));
      { Matrix<double> H; string t=thrown([&]{ H=SparseHouseholder(SA); }); MC_CK(c,t=="","sparse:householder:refused",t); if(t==""){ LM HL=toL(H); bool ut=fabsl(HL[1][0])<1e-12L&&fabsl(HL[2][0])<1e-12L&&fabsl(HL[2][1])<1e-12L; MC_CK(c,ut,"sparse:householder:triangular",show(HL)); MC_CK(c,maxd(mul(tr(AL_),AL_),mul(tr(HL),HL))<1e-11L,"sparse:householder:norm",show(HL)<<" of "<<show(AL_)); } }
      c.states(1); c.eval(16); });
   return h.run(argc,argv);
}
