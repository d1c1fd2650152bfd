#include "h.h"
typedef vector<double> V1; typedef vector<V1> V2; typedef vector<V2> V3; typedef vector<V3> V4;
// series data: d[s][cell]; dims: inner sizes
struct OV { int N,n,a,b,c; V2 d; shared_ptr<OValues> v; shared_ptr<OValuesN1> v1; shared_ptr<OValuesN2> v2; shared_ptr<OValuesN3> v3; shared_ptr<OValuesN4> v4;
  int S_()const{return a*b*c;} double get(int s,int o){ int x=s/(b*c),y=s/c%b,z=s%c; return N==1?(*v1)(o):N==2?(*v2)(x,o):N==3?(*v3)(x,y,o):(*v4)(x,y,z,o); } void put(int s,int o,double w){ d[s][o]=w; int x=s/(b*c),y=s/c%b,z=s%c; if(N==1)(*v1)(o,w); else if(N==2)(*v2)(x,o,w); else if(N==3)(*v3)(x,y,o,w); else (*v4)(x,y,z,o,w); } };
// for N=3 inner dims (a,b), c=1; for N=2 a, b=c=1
static int dim(R&r){ return r.n(1,r.huge?1:r.big?5:3); }
static void dims(R&r,int N,int inner,int&a,int&b,int&c){ a=b=c=1; if(inner>=1) a=dim(r); if(inner>=2) b=dim(r); if(inner>=3) c=dim(r); }
static string SD(const V2&d){ string s; for(auto&x:d) s+=SV(x); return s; }
static OV mkOV(R&r,int maxn,bool nonneg,int how=-1){ OV o; o.N=r.n(1,4); o.n=r.n(1,maxn); dims(r,o.N,o.N-1,o.a,o.b,o.c); int md=r.n(0,7); if(how<0) how=r.coin(4)?1:0; 
  for(int s=0;s<o.S_();s++){ V1 x; for(int k=0;k<o.n;k++){ double v=nonneg?nval(r,md):val(r,md); x.push_back(how==2?0:v);} if(r.coin(8)) fill(x.begin(),x.end(),x[0]); o.d.push_back(x);} 
  desc+="ordered values N"+S(o.N)+" dims "+S(o.a)+"x"+S(o.b)+"x"+S(o.c)+" n="+S(o.n)+(how?" from sizes":" from data")+" series "+SD(o.d)+"\n";
  V4 D(o.a,V3(o.b,V2(o.c))); for(int x=0;x<o.a;x++)for(int y=0;y<o.b;y++)for(int z=0;z<o.c;z++) D[x][y][z]=o.d[(x*o.b+y)*o.c+z];
  V3 D3(o.a,V2(o.b)); for(int x=0;x<o.a;x++)for(int y=0;y<o.b;y++) D3[x][y]=D[x][y][0]; V2 D2(o.a); for(int x=0;x<o.a;x++) D2[x]=D[x][0][0];
  if(o.N==1){ o.v1.reset(how?new OValuesN1(o.n):new OValuesN1(o.d[0])); o.v=o.v1; } if(o.N==2){ o.v2.reset(how?new OValuesN2(o.a,o.n):new OValuesN2(D2)); o.v=o.v2; } if(o.N==3){ o.v3.reset(how?new OValuesN3(o.a,o.b,o.n):new OValuesN3(D3)); o.v=o.v3; } if(o.N==4){ o.v4.reset(how?new OValuesN4(o.a,o.b,o.c,o.n):new OValuesN4(D)); o.v=o.v4; }
  if(how==1) for(int s=0;s<o.S_();s++) for(int k=0;k<o.n;k++) o.put(s,k,o.d[s][k]); return o; }
struct HV { Tree t; int N,a,b,c; V2 d; shared_ptr<HValues> v; shared_ptr<HValuesN1> v1; shared_ptr<HValuesN2> v2; shared_ptr<HValuesN3> v3; shared_ptr<HValuesN4> v4;
  int S_()const{return a*b*c;} double get(int s,int h){ int x=s/(b*c),y=s/c%b,z=s%c; return N==1?(*v1)(h):N==2?(*v2)(h,x):N==3?(*v3)(h,x,y):(*v4)(h,x,y,z); } void put(int s,int h,double w){ d[s][h]=w; int x=s/(b*c),y=s/c%b,z=s%c; if(N==1)(*v1)(h,w); else if(N==2)(*v2)(h,x,w); else if(N==3)(*v3)(h,x,y,w); else (*v4)(h,x,y,z,w); } };
static HV mkHV(R&r,int L,int I,bool nonneg,int how=-1){ HV o; o.t=mktree(r,L,I); o.N=r.n(1,4); dims(r,o.N,o.N-1,o.a,o.b,o.c); int md=r.n(0,7); if(how<0) how=r.coin(4)?1:0; int n=o.t.L;
  for(int s=0;s<o.S_();s++){ V1 x; for(int k=0;k<n;k++){ double v=nonneg?nval(r,md):val(r,md); x.push_back(how==2?0:v);} if(r.coin(8)) fill(x.begin(),x.end(),x[0]); o.d.push_back(x);} 
  desc+="hierarchical values N"+S(o.N)+" dims "+S(o.a)+"x"+S(o.b)+"x"+S(o.c)+(how?" from sizes ":" from data ")+ST(o.t)+" series "+SD(o.d)+"\n";
  V1 D1; V2 D2; V3 D3; V4 D4; for(int h=0;h<n;h++){ V3 X(o.a,V2(o.b,V1(o.c))); V2 Y(o.a,V1(o.b)); V1 Z(o.a); for(int x=0;x<o.a;x++)for(int y=0;y<o.b;y++)for(int z=0;z<o.c;z++){ double w=o.d[(x*o.b+y)*o.c+z][h]; X[x][y][z]=w; if(!z) Y[x][y]=w; if(!z&&!y) Z[x]=w; } D4.push_back(X); D3.push_back(Y); D2.push_back(Z); D1.push_back(Z[0]); }
  if(o.N==1){ o.v1.reset(how?new HValuesN1(n,o.t.par):new HValuesN1(D1,o.t.par)); o.v=o.v1; } if(o.N==2){ o.v2.reset(how?new HValuesN2(n,o.a,o.t.par):new HValuesN2(D2,o.t.par)); o.v=o.v2; } if(o.N==3){ o.v3.reset(how?new HValuesN3(n,o.a,o.b,o.t.par):new HValuesN3(D3,o.t.par)); o.v=o.v3; } if(o.N==4){ o.v4.reset(how?new HValuesN4(n,o.a,o.b,o.c,o.t.par):new HValuesN4(D4,o.t.par)); o.v=o.v4; }
  if(how==1) for(int s=0;s<o.S_();s++) for(int k=0;k<n;k++) o.put(s,k,o.d[s][k]); return o; }
struct DV { Tree t; int N,n,a,b; V3 d; shared_ptr<DValues> v; shared_ptr<DValuesN2> v2; shared_ptr<DValuesN3> v3; shared_ptr<DValuesN4> v4; // d[s][h][o]
  int S_()const{return a*b;} double get(int s,int h,int o){ int x=s/b,y=s%b; return N==2?(*v2)(h,o):N==3?(*v3)(h,x,o):(*v4)(h,x,y,o); } void put(int s,int h,int o,double w){ d[s][h][o]=w; int x=s/b,y=s%b; if(N==2)(*v2)(h,o,w); else if(N==3)(*v3)(h,x,o,w); else (*v4)(h,x,y,o,w); } };
static DV mkDV(R&r,int L,int I,int maxn,bool nonneg,int how=-1){ DV o; o.t=mktree(r,L,I); o.n=r.n(1,maxn); o.N=r.n(2,4); o.a=o.N>=3?dim(r):1; o.b=o.N>=4?dim(r):1; int md=r.n(0,7); if(how<0) how=r.coin(4)?1:0; int n=o.t.L;
  for(int s=0;s<o.S_();s++){ V2 z; double k0=nval(r,md); bool same=r.coin(8); for(int h=0;h<n;h++){ V1 x; for(int k=0;k<o.n;k++){ double v=nonneg?nval(r,md):val(r,md); x.push_back(how==2?0:same?k0:v);} z.push_back(x);} o.d.push_back(z);} 
  desc+="spatiotemporal values N"+S(o.N)+" dims "+S(o.a)+"x"+S(o.b)+" n="+S(o.n)+(how?" from sizes ":" from data ")+ST(o.t)+" series "; for(auto&x:o.d) desc+="{"+SD(x)+"}"; desc+="\n";
  V2 D2; V3 D3; V4 D4; for(int h=0;h<n;h++){ V3 X(o.a,V2(o.b)); V2 Y(o.a); for(int x=0;x<o.a;x++)for(int y=0;y<o.b;y++){ X[x][y]=o.d[x*o.b+y][h]; if(!y) Y[x]=X[x][y]; } D4.push_back(X); D3.push_back(Y); D2.push_back(Y[0]); }
  if(o.N==2){ o.v2.reset(how?new DValuesN2(n,o.n,o.t.par):new DValuesN2(D2,o.t.par)); o.v=o.v2; } if(o.N==3){ o.v3.reset(how?new DValuesN3(n,o.a,o.n,o.t.par):new DValuesN3(D3,o.t.par)); o.v=o.v3; } if(o.N==4){ o.v4.reset(how?new DValuesN4(n,o.a,o.b,o.n,o.t.par):new DValuesN4(D4,o.t.par)); o.v=o.v4; }
  if(how==1) for(int s=0;s<o.S_();s++) for(int k=0;k<n;k++) for(int z=0;z<o.n;z++) o.put(s,k,z,o.d[s][k][z]); return o; }
static int sz(R&r,int a,int b){ return r.huge?b*6:r.big?b:a; }
static LD xlog(LD x){ return x>0?x*log2l(x):0; }
// cells of one series -> gain, loss
struct GL { LD g,l,bound,sc; GL():g(0),l(0),bound(0),sc(0){} void add(const V1&cells){ LD s=0,i=0,ab=0; for(double v:cells){ s+=v; i+=xlog(v); ab+=fabsl(v)*(1+fabsl(v>0?log2l(v):0)); } LD e=s>0?xlog(s)-i:0; g+=e; l+=s*log2l((LD)cells.size())-e; bound+=s*log2l((LD)cells.size()); sc+=ab+fabsl(xlog(s))+fabsl(s)*10; } };
static void cmp(shared_ptr<Quality> q,const GL&x,const string&w){ CHECK(q,w+" missing"); if(!(fabsl(q->getGain()-x.g)<=1e-11L*x.sc)||!(fabsl(q->getLoss()-x.l)<=1e-11L*x.sc)) fail(w+": ("+S(q->getGain())+","+S(q->getLoss())+") expected ("+S(x.g)+","+S(x.l)+")"); }
static V1 cellsO(const OV&o,int s,int i,int j){ return V1(o.d[s].begin()+i,o.d[s].begin()+j+1); }
static V1 cellsH(const HV&o,int s,int h){ vector<int> lv; leaves(o.t,h,lv); V1 v; for(int x:lv) v.push_back(o.d[s][x]); return v; }
static V1 cellsD(const DV&o,int s,int h,int i,int j){ vector<int> lv; leaves(o.t,h,lv); V1 v; for(int x:lv) for(int k=i;k<=j;k++) v.push_back(o.d[s][x][k]); return v; }
// a sum that is 0 only up to rounding makes the sign test of the sum unstable
static bool shaky(const V1&c){ LD s=0,a=0; for(double v:c){ s+=v; a+=fabsl(v);} return s!=0&&fabsl(s)<1e-9L*a || (s==0&&a!=0); }
static void c07(R&r){ OV o=mkOV(r,sz(r,7,25),r.coin()); note(); OQualities q(o.v); int rep=r.coin(4)?2:1; while(rep--) q.computeQualities(); auto m=q.getQualities(); CHECK(m&&m->getSize()==o.n,"matrix size"); for(int i=0;i<o.n;i++)for(int j=i;j<o.n;j++){ GL x; bool sk=false; for(int s=0;s<o.S_();s++){ V1 c=cellsO(o,s,i,j); sk|=shaky(c); x.add(c);} if(!sk||i==j){ if(i==j){x.g=x.l=0;} cmp((*m)(i,j),x,"interval ["+S(i)+","+S(j)+"]"); } } CHECK((int)q.size()==o.n,"size"); }
static void c08(R&r){ HV o=mkHV(r,sz(r,7,20),sz(r,6,15),r.coin()); note(); HQualities q(o.v); int rep=r.coin(4)?2:1; while(rep--) q.computeQualities(); auto m=q.getQualities(); CHECK(m&&(int)m->size()==o.t.H,"vector size"); for(int h=0;h<o.t.H;h++){ GL x; bool sk=false; for(int s=0;s<o.S_();s++){ V1 c=cellsH(o,s,h); sk|=shaky(c); x.add(c);} if(h<o.t.L){ x.g=x.l=0; sk=false; } if(!sk) cmp((*m)[h],x,"node "+S(h)); } }
static void c09(R&r){ DV o=mkDV(r,sz(r,5,9),sz(r,4,8),sz(r,4,7),r.coin()); note(); DQualities q(o.v); int rep=r.coin(4)?2:1; while(rep--) q.computeQualities(); auto m=q.getQualities(); CHECK(m&&(int)m->size()==o.t.H,"vector size"); for(int h=0;h<o.t.H;h++)for(int i=0;i<o.n;i++)for(int j=i;j<o.n;j++){ GL x; bool sk=false; for(int s=0;s<o.S_();s++){ V1 c=cellsD(o,s,h,i,j); sk|=shaky(c); x.add(c);} if(h<o.t.L&&i==j){ x.g=x.l=0; sk=false; } if(!sk) cmp((*(*m)[h])(i,j),x,"block "+S(h)+" ["+S(i)+","+S(j)+"]"); } }
static void norm(vector<shared_ptr<Quality> >&v,int whole,function<void()> f){ vector<pair<LD,LD> > b; for(auto&q:v) b.push_back({q->getGain(),q->getLoss()}); f(); LD G=b[whole].first,L=b[whole].second; if(G==0) G=1; if(L==0) L=1; for(size_t k=0;k<v.size();k++) if(!near(v[k]->getGain(),b[k].first/G,fabsl(b[k].first/G),1e-12L)||!near(v[k]->getLoss(),b[k].second/L,fabsl(b[k].second/L),1e-12L)) fail("element "+S(k)+" is ("+S(v[k]->getGain())+","+S(v[k]->getLoss())+") expected ("+S(b[k].first/G)+","+S(b[k].second/L)+")"); }
static void qs(R&r,Quality&q,int md){ q.setGain(qv(r,md)); q.setLoss(qv(r,r.coin()?md:2)); desc+=" ("+S(q.getGain())+","+S(q.getLoss())+")"; }
static void c10(R&r){ int k=r.n(0,2),md=r.n(0,6); bool pre=r.coin(); int rep=r.coin(3)?2:1; if(pre) desc+="prebuilt qualities ";
  if(k==0){ oqualities m; shared_ptr<OQualities> q; int n; if(pre){ n=r.n(1,6); m=oqualities(new UpperTriangularMatrix<shared_ptr<Quality> >(n)); desc+="ordered n="+S(n); for(auto&x:m->matrix) qs(r,*x,md); q.reset(new OQualities(m)); } else { OV o=mkOV(r,6,r.coin()); n=o.n; q.reset(new OQualities(o.v)); note(); q->computeQualities(); m=q->getQualities(); } note(); int w=-1; vector<shared_ptr<Quality> > v; for(int i=0;i<n;i++)for(int j=i;j<n;j++){ if(i==0&&j==n-1) w=v.size(); v.push_back((*m)(i,j)); } while(rep--) norm(v,w,[&](){ q->normalize(); }); }
  else if(k==1){ hqualities m; shared_ptr<HQualities> q; int w; if(pre){ Tree t=mktree(r,6,5); m=hqualities(new vector<shared_ptr<Quality> >()); desc+=ST(t); for(int h=0;h<t.H;h++){ m->push_back(shared_ptr<Quality>(new Quality())); qs(r,*m->back(),md);} q.reset(new HQualities(m,HValuesMetaData(t.L,t.par))); w=t.root; } else { HV o=mkHV(r,6,5,r.coin()); q.reset(new HQualities(o.v)); note(); q->computeQualities(); m=q->getQualities(); w=o.t.root; } note(); while(rep--) norm(*m,w,[&](){ q->normalize(); }); }
  else { dqualities m; shared_ptr<DQualities> q; int root,n,H; if(pre){ Tree t=mktree(r,4,4); n=r.n(1,4); H=t.H; m=dqualities(new vector<oqualities>()); desc+=ST(t)+" n="+S(n); for(int h=0;h<t.H;h++){ m->push_back(oqualities(new UpperTriangularMatrix<shared_ptr<Quality> >(n))); for(auto&x:m->back()->matrix) qs(r,*x,md);} q.reset(new DQualities(m,HValuesMetaData(t.L,t.par))); root=t.root; } else { DV o=mkDV(r,4,4,4,r.coin()); n=o.n; H=o.t.H; q.reset(new DQualities(o.v)); note(); q->computeQualities(); m=q->getQualities(); root=o.t.root; } note(); int w=-1; vector<shared_ptr<Quality> > v; for(int h=0;h<H;h++)for(int i=0;i<n;i++)for(int j=i;j<n;j++){ if(h==root&&i==0&&j==n-1) w=v.size(); v.push_back((*(*m)[h])(i,j)); } while(rep--) norm(v,w,[&](){ q->normalize(); }); } }
static void c21(R&r){ int k=r.n(0,2); auto ck=[&](shared_ptr<Quality> q,const GL&x,bool homo,const string&w){ LD t=1e-10L*x.sc; if(q->getGain()<-t||q->getLoss()<-t) fail(w+": gain or loss is negative ("+S(q->getGain())+","+S(q->getLoss())+")"); if(fabsl(q->getGain()+q->getLoss()-x.bound)>t) fail(w+": gain+loss is "+S(q->getGain()+q->getLoss())+" expected "+S(x.bound)); if(homo&&fabsl(q->getLoss())>t) fail(w+": loss of a homogeneous block is "+S(q->getLoss())); };
  auto hom=[](const V1&c){ for(double v:c) if(v!=c[0]) return false; return true; };
  if(k==0){ OV o=mkOV(r,sz(r,7,25),true); note(); OQualities q(o.v); q.computeQualities(); auto m=q.getQualities(); for(int i=0;i<o.n;i++)for(int j=i;j<o.n;j++){ GL x; bool h=true; for(int s=0;s<o.S_();s++){ V1 c=cellsO(o,s,i,j); x.add(c); h&=hom(c);} ck((*m)(i,j),x,h,"interval ["+S(i)+","+S(j)+"]"); } }
  else if(k==1){ HV o=mkHV(r,sz(r,7,20),6,true); note(); HQualities q(o.v); q.computeQualities(); auto m=q.getQualities(); for(int h=0;h<o.t.H;h++){ GL x; bool hh=true; for(int s=0;s<o.S_();s++){ V1 c=cellsH(o,s,h); x.add(c); hh&=hom(c);} ck((*m)[h],x,hh,"node "+S(h)); } }
  else { DV o=mkDV(r,5,4,4,true); note(); DQualities q(o.v); q.computeQualities(); auto m=q.getQualities(); for(int h=0;h<o.t.H;h++)for(int i=0;i<o.n;i++)for(int j=i;j<o.n;j++){ GL x; bool hh=true; for(int s=0;s<o.S_();s++){ V1 c=cellsD(o,s,h,i,j); x.add(c); hh&=hom(c);} ck((*(*m)[h])(i,j),x,hh,"block "+S(h)+" ["+S(i)+","+S(j)+"]"); } } }
// ---- C16
static void c16(R&r){ int k=r.n(0,2); int how=r.n(0,2);
  if(k==0){ OV o=mkOV(r,sz(r,5,12),false,how); note(); auto all=[&](const char*w){ for(int s=0;s<o.S_();s++)for(int i=0;i<o.n;i++){ double g=o.get(s,i); if(g!=o.d[s][i]) fail(string(w)+": series "+S(s)+" element "+S(i)+" is "+S(g)+" expected "+S(o.d[s][i])); V1 f=(*o.v)[s]; CHECK((int)f.size()==o.n&&f[i]==o.d[s][i],string(w)+": flat series "+S(s)+" "+SV(f)); } }; CHECK((int)o.v->getVsize()==o.S_(),"vsize "+S(o.v->getVsize())); CHECK((int)o.v->getOsize()==o.n,"osize"); if(o.N==3) CHECK((int)o.v3->getI()==o.a&&(int)o.v3->getJ()==o.b,"dims"); if(o.N==4) CHECK((int)o.v4->getI()==o.a&&(int)o.v4->getJ()==o.b&&(int)o.v4->getK()==o.c,"dims"); all("initial"); for(int z=0;z<4;z++){ int s=r.n(0,o.S_()-1),i=r.n(0,o.n-1); o.put(s,i,1000+z+r.u()); all(("after writing series "+S(s)+" element "+S(i)).c_str()); } }
  else if(k==1){ HV o=mkHV(r,sz(r,5,10),4,false,how); note(); auto all=[&](const char*w){ for(int s=0;s<o.S_();s++)for(int i=0;i<o.t.L;i++){ double g=o.get(s,i); if(g!=o.d[s][i]) fail(string(w)+": series "+S(s)+" leaf "+S(i)+" is "+S(g)+" expected "+S(o.d[s][i])); CHECK((*o.v)[i][s]==o.d[s][i]&&o.v->getValue(i,s)==o.d[s][i],string(w)+": flat view of series "+S(s)+" leaf "+S(i)); } }; CHECK((int)o.v->getVsize()==o.S_(),"vsize "+S(o.v->getVsize())); CHECK((int)o.v->getMetaData().getLeaveSize()==o.t.L,"leaves"); CHECK((int)o.v->getMetaData().getHsize()==o.t.H,"nodes"); if(o.N==3) CHECK((int)o.v3->getI()==o.a&&(int)o.v3->getJ()==o.b,"dims"); if(o.N==4) CHECK((int)o.v4->getI()==o.a&&(int)o.v4->getJ()==o.b&&(int)o.v4->getK()==o.c,"dims"); all("initial"); for(int z=0;z<4;z++){ int s=r.n(0,o.S_()-1),i=r.n(0,o.t.L-1); o.put(s,i,1000+z+r.u()); all(("after writing series "+S(s)+" leaf "+S(i)).c_str()); } }
  else { DV o=mkDV(r,sz(r,4,7),4,sz(r,4,7),false,how); note(); auto all=[&](const char*w){ for(int s=0;s<o.S_();s++)for(int i=0;i<o.t.L;i++)for(int e=0;e<o.n;e++){ double g=o.get(s,i,e); if(g!=o.d[s][i][e]) fail(string(w)+": series "+S(s)+" leaf "+S(i)+" element "+S(e)+" is "+S(g)+" expected "+S(o.d[s][i][e])); V1 f=(*o.v)[i][s]; CHECK((int)f.size()==o.n&&f[e]==o.d[s][i][e]&&o.v->getValue(i,s)[e]==f[e],string(w)+": flat view of series "+S(s)+" leaf "+S(i)); } }; CHECK((int)o.v->getVsize()==o.S_(),"vsize "+S(o.v->getVsize())); CHECK((int)o.v->getOsize()==o.n,"osize"); CHECK((int)o.v->getMetaData().getLeaveSize()==o.t.L,"leaves"); if(o.N==4) CHECK((int)o.v4->getI()==o.a&&(int)o.v4->getJ()==o.b,"dims"); all("initial"); for(int z=0;z<4;z++){ int s=r.n(0,o.S_()-1),i=r.n(0,o.t.L-1),e=r.n(0,o.n-1); o.put(s,i,e,1000+z+r.u()); all(("after writing series "+S(s)+" leaf "+S(i)+" element "+S(e)).c_str()); } } }
// ---- C17, C18
static double pick(double x,int,int,int){ return x; } static double pick(const V1&v,int x,int,int){ CHECK(x<(int)v.size(),"inner size"); return v[x]; } static double pick(const V2&v,int x,int y,int){ CHECK(x<(int)v.size()&&y<(int)v[x].size(),"inner size"); return v[x][y]; } static double pick(const V3&v,int x,int y,int z){ CHECK(x<(int)v.size()&&y<(int)v[x].size()&&z<(int)v[x][y].size(),"inner size"); return v[x][y][z]; }
static int width(double,int){return 1;} template<class T> static int width(const vector<T>&v,int){ int s=0; for(auto&x:v) s+=width(x,0); return s; }
template<class A> static void one(A&ag,int S_,int b,int c,function<V1(int)> cells,int size,const string&w){ CHECK(width(ag.getSum(),0)==S_&&width(ag.getMean(),0)==S_,w+": number of inner coordinates"); for(int s=0;s<S_;s++){ V1 v=cells(s); LD t=0,ab=0; for(double x:v){ t+=x; ab+=fabsl(x);} double g=pick(ag.getSum(),s/(b*c),s/c%b,s%c),m=pick(ag.getMean(),s/(b*c),s/c%b,s%c); if(!near(g,t,ab,1e-11L)) fail(w+" series "+S(s)+": sum "+S(g)+" expected "+S(t)); if(!near(m,t/size,ab/size,1e-11L)) fail(w+" series "+S(s)+": mean "+S(m)+" expected "+S(t/size)); } }
static void c17(R&r){ OV o=mkOV(r,sz(r,7,15),false); vector<int> cuts(o.n); for(int i=0;i<o.n;i++) cuts[i]=r.coin(3)?i:r.n(i,o.n-1); desc+="cuts "+SV(cuts); note(); oqualities q(new UpperTriangularMatrix<shared_ptr<Quality> >(o.n)); shared_ptr<OPartition> p(new OPartition(cuts,q,0.5f)); auto ps=p->getParts();
  auto run=[&](auto ags){ CHECK(ags.size()==ps.size(),"one aggregate per part: "+S(ags.size())+" for "+S(ps.size())); for(size_t k=0;k<ps.size();k++){ int a=ps[k].getStart(),b=ps[k].getEnd(); CHECK(ags[k].getPart().getStart()==a&&ags[k].getPart().getEnd()==b,"part of aggregate "+S(k)); one(ags[k],o.S_(),o.b,o.c,[&](int s){ return cellsO(o,s,a,b); },b-a+1,"part ["+S(a)+","+S(b)+"]"); } };
  if(o.N==1) run(OAggregationN1(p,o.v1).getAggregates()); if(o.N==2) run(OAggregationN2(p,o.v2).getAggregates()); if(o.N==3) run(OAggregationN3(p,o.v3).getAggregates()); if(o.N==4) run(OAggregationN4(p,o.v4).getAggregates()); }
static void c18(R&r){ if(r.coin()){ HV o=mkHV(r,sz(r,7,15),sz(r,6,12),false); vector<bool> ag; for(int h=0;h<o.t.H;h++) ag.push_back(h<o.t.L||r.coin(3)); desc+="aggregated "; for(bool b:ag) desc+=b?"1":"0"; note(); hqualities q(new vector<shared_ptr<Quality> >()); for(int h=0;h<o.t.H;h++) q->push_back(shared_ptr<Quality>(new Quality())); shared_ptr<HPartition> p(new HPartition(ag,q,0.5f,o.v->getMetaData())); auto ps=p->getParts();
    auto run=[&](auto ags){ CHECK(ags.size()==ps.size(),"one aggregate per part: "+S(ags.size())+" for "+S(ps.size())); for(size_t k=0;k<ps.size();k++){ int h=ps[k].getH(); CHECK(ags[k].getPart().getH()==h,"part of aggregate "+S(k)); one(ags[k],o.S_(),o.b,o.c,[&](int s){ return cellsH(o,s,h); },o.t.cnt[h],"node "+S(h)); } };
    if(o.N==1) run(HAggregationN1(p,o.v1).getAggregates()); if(o.N==2) run(HAggregationN2(p,o.v2).getAggregates()); if(o.N==3) run(HAggregationN3(p,o.v3).getAggregates()); if(o.N==4) run(HAggregationN4(p,o.v4).getAggregates()); }
  else { DV o=mkDV(r,sz(r,5,9),4,sz(r,4,6),false); vector<shared_ptr<UpperTriangularMatrix<int> > > cuts; desc+="cuts "; for(int h=0;h<o.t.H;h++){ cuts.push_back(shared_ptr<UpperTriangularMatrix<int> >(new UpperTriangularMatrix<int>(o.n))); for(int i=0;i<o.n;i++)for(int j=i;j<o.n;j++){ int c=r.coin(3)?j:r.n(i,j); if(h>=o.t.L&&r.coin(2)) c=-1; (*cuts[h])(i,j,c); desc+=S(c)+" "; } } note(); dqualities q(new vector<oqualities>()); for(int h=0;h<o.t.H;h++) q->push_back(oqualities(new UpperTriangularMatrix<shared_ptr<Quality> >(o.n))); shared_ptr<DPartition> p(new DPartition(cuts,q,0.5f,o.v->getMetaData())); auto ps=p->getParts();
    auto run=[&](auto ags){ CHECK(ags.size()==ps.size(),"one aggregate per part: "+S(ags.size())+" for "+S(ps.size())); for(size_t k=0;k<ps.size();k++){ int h=ps[k].getH(),a=ps[k].getStart(),b=ps[k].getEnd(); DPart pp=ags[k].getPart(); CHECK(pp.getH()==h&&pp.getStart()==a&&pp.getEnd()==b,"part of aggregate "+S(k)); one(ags[k],o.S_(),o.b,1,[&](int s){ return cellsD(o,s,h,a,b); },o.t.cnt[h]*(b-a+1),"block "+S(h)+" ["+S(a)+","+S(b)+"]"); } };
    if(o.N==2) run(DAggregationN2(p,o.v2).getAggregates()); if(o.N==3) run(DAggregationN3(p,o.v3).getAggregates()); if(o.N==4) run(DAggregationN4(p,o.v4).getAggregates()); } }
void vframe(R&r){ int k=r.n(0,2); auto bad=[&](){ fail("the values changed"); }; 
  if(k==0){ OV o=mkOV(r,6,r.coin()); note(); OQualities q(o.v); q.computeQualities(); vector<pair<LD,LD> > s0; for(auto&x:q.getQualities()->matrix) s0.push_back({x->getGain(),x->getLoss()}); OPartitioner P(q); auto p=P.computeBestPartition(0.5f); if(o.N==1) OAggregationN1(p,o.v1); if(o.N==2) OAggregationN2(p,o.v2); if(o.N==3) OAggregationN3(p,o.v3); if(o.N==4) OAggregationN4(p,o.v4); for(int s=0;s<o.S_();s++)for(int i=0;i<o.n;i++) if(o.get(s,i)!=o.d[s][i]) bad(); size_t z=0; for(auto&x:q.getQualities()->matrix){ CHECK(s0[z]==make_pair(x->getGain(),x->getLoss()),"a quality changed"); z++; } }
  else if(k==1){ HV o=mkHV(r,6,5,r.coin()); note(); HQualities q(o.v); q.computeQualities(); vector<pair<LD,LD> > s0; for(auto&x:*q.getQualities()) s0.push_back({x->getGain(),x->getLoss()}); HPartitioner P(q); auto p=P.computeBestPartition(0.5f); if(o.N==1) HAggregationN1(p,o.v1); if(o.N==2) HAggregationN2(p,o.v2); if(o.N==3) HAggregationN3(p,o.v3); if(o.N==4) HAggregationN4(p,o.v4); for(int s=0;s<o.S_();s++)for(int i=0;i<o.t.L;i++) if(o.get(s,i)!=o.d[s][i]) bad(); size_t z=0; for(auto&x:*q.getQualities()){ CHECK(s0[z]==make_pair(x->getGain(),x->getLoss()),"a quality changed"); z++; } }
  else { DV o=mkDV(r,4,4,4,r.coin()); note(); DQualities q(o.v); q.computeQualities(); vector<pair<LD,LD> > s0; for(auto&m:*q.getQualities()) for(auto&x:m->matrix) s0.push_back({x->getGain(),x->getLoss()}); DPartitioner P(q); auto p=P.computeBestPartition(0.5f); if(o.N==2) DAggregationN2(p,o.v2); if(o.N==3) DAggregationN3(p,o.v3); if(o.N==4) DAggregationN4(p,o.v4); for(int s=0;s<o.S_();s++)for(int i=0;i<o.t.L;i++)for(int e=0;e<o.n;e++) if(o.get(s,i,e)!=o.d[s][i][e]) bad(); size_t z=0; for(auto&m:*q.getQualities()) for(auto&x:m->matrix){ CHECK(s0[z]==make_pair(x->getGain(),x->getLoss()),"a quality changed"); z++; } } }
void regB(){ tests["C07"]=c07; tests["C08"]=c08; tests["C09"]=c09; tests["C10"]=c10; tests["C16"]=c16; tests["C17"]=c17; tests["C18"]=c18; tests["C21"]=c21; }
