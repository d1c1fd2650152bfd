#include "h.h"
typedef vector<vector<pair<LD,LD> > > QM;
struct OC { int n; oqualities q; QM m; LD scale; };
static OC mkO(R&r,int maxn){ OC c; c.n=r.n(1,maxn); int md=r.n(0,7),md2=r.coin()?md:r.n(0,7); c.q=oqualities(new UpperTriangularMatrix<shared_ptr<Quality> >(c.n)); c.m.assign(c.n,vector<pair<LD,LD> >(c.n)); c.scale=0;
  desc+="ordered n="+S(c.n)+" qualities (i,j,gain,loss):";
  for(int i=0;i<c.n;i++)for(int j=i;j<c.n;j++){ LD g=qv(r,md),l=qv(r,md2); if(i==j&&r.coin()){g=0;l=0;} c.m[i][j]={g,l}; (*c.q)(i,j,shared_ptr<Quality>(new Quality(g,l))); c.scale+=fabsl(g)+fabsl(l); if(c.n<12) desc+=" ("+S(i)+","+S(j)+","+S(g)+","+S(l)+")"; } desc+="\n"; return c; }
struct HC { Tree t; hqualities q; vector<pair<LD,LD> > m; LD scale; };
static HC mkH(R&r,int L,int I){ HC c; c.t=mktree(r,L,I); int md=r.n(0,7),md2=r.coin()?md:r.n(0,7); c.q=hqualities(new vector<shared_ptr<Quality> >()); c.scale=0; desc+=ST(c.t)+" qualities:";
  for(int h=0;h<c.t.H;h++){ LD g=qv(r,md),l=qv(r,md2); c.m.push_back({g,l}); c.q->push_back(shared_ptr<Quality>(new Quality(g,l))); c.scale+=fabsl(g)+fabsl(l); desc+=" ("+S(g)+","+S(l)+")"; } desc+="\n"; return c; }
struct DC { Tree t; int n; dqualities q; vector<QM> m; LD scale; };
static DC mkD(R&r,int L,int I,int maxn){ DC c; c.t=mktree(r,L,I); c.n=r.n(1,maxn); int md=r.n(0,7),md2=r.coin()?md:r.n(0,7); c.scale=0; c.q=dqualities(new vector<shared_ptr<UpperTriangularMatrix<shared_ptr<Quality> > > >()); desc+=ST(c.t)+" n="+S(c.n)+" qualities (h,i,j,gain,loss):";
  for(int h=0;h<c.t.H;h++){ c.q->push_back(oqualities(new UpperTriangularMatrix<shared_ptr<Quality> >(c.n))); c.m.push_back(QM(c.n,vector<pair<LD,LD> >(c.n))); for(int i=0;i<c.n;i++)for(int j=i;j<c.n;j++){ LD g=qv(r,md),l=qv(r,md2); c.m[h][i][j]={g,l}; (*(*c.q)[h])(i,j,shared_ptr<Quality>(new Quality(g,l))); c.scale+=fabsl(g)+fabsl(l); desc+=" ("+S(h)+","+S(i)+","+S(j)+","+S(g)+","+S(l)+")"; } } desc+="\n"; return c; }
static LD bestO(const OC&c,LD p){ vector<LD> b(c.n+1,0); for(int i=c.n-1;i>=0;i--){ LD x=-HUGE_VALL; for(int j=i;j<c.n;j++) x=max(x,pic(p,c.m[i][j].first,c.m[i][j].second)+b[j+1]); b[i]=x; } return b[0]; }
static LD bestH(const HC&c,LD p){ vector<LD> b(c.t.H,0); for(int h:c.t.post){ LD w=pic(p,c.m[h].first,c.m[h].second); if(h<c.t.L) b[h]=w; else { LD s=0; for(int x:c.t.ch[h]) s+=b[x]; b[h]=max(w,s); } } return b[c.t.root]; }
static LD bestD(const DC&c,LD p){ int n=c.n; vector<vector<vector<LD> > > b(c.t.H,vector<vector<LD> >(n,vector<LD>(n,0)));
  for(int h:c.t.post) for(int len=1;len<=n;len++) for(int i=0;i+len<=n;i++){ int j=i+len-1; LD x=pic(p,c.m[h][i][j].first,c.m[h][i][j].second); if(h>=c.t.L){ LD s=0; for(int y:c.t.ch[h]) s+=b[y][i][j]; x=max(x,s);} for(int k=i;k<j;k++) x=max(x,b[h][i][k]+b[h][k+1][j]); b[h][i][j]=x; } return b[c.t.root][0][n-1]; }
#define TOL 3e-7L
static void sameQ(shared_ptr<Quality> q,LD g,LD l,LD sc,const char*w){ CHECK(q,string(w)+" missing"); if(!(fabsl(q->getGain()-g)<=1e-9L*sc+1e-9L*fabsl(g))||!(fabsl(q->getLoss()-l)<=1e-9L*sc+1e-9L*fabsl(l))) fail(string(w)+": quality ("+S(q->getGain())+","+S(q->getLoss())+") expected ("+S(g)+","+S(l)+")"); }
// structure + sums; returns value
static LD chkO(const OC&c,OPartition&pt,LD p,bool wf){ LD g=0,l=0; int nx=0; vector<OPart> ps=pt.getParts();
  for(auto&x:ps){ int a=x.getStart(),b=x.getEnd(); if(!(a>=0&&b<c.n&&a<=b)) fail("part ["+S(a)+","+S(b)+"] out of range"); if(wf&&a!=nx) fail("part starts at "+S(a)+" expected "+S(nx)); nx=b+1; if(wf){ CHECK(x.getSize()==b-a+1,"part size "+S(x.getSize())); sameQ(x.getQuality(),c.m[a][b].first,c.m[a][b].second,c.scale,"part"); } g+=c.m[a][b].first; l+=c.m[a][b].second; }
  if(wf) CHECK(nx==c.n,"parts end at "+S(nx-1)); sameQ(pt.getQuality(),g,l,c.scale,"partition"); return pic(p,g,l); }
static LD chkH(const HC&c,HPartition&pt,LD p,bool wf){ LD g=0,l=0; vector<int> cov(c.t.L,0); vector<HPart> ps=pt.getParts();
  for(auto&x:ps){ int h=x.getH(); CHECK(h>=0&&h<c.t.H,"node "+S(h)); vector<int> lv; leaves(c.t,h,lv); for(int y:lv) cov[y]++; if(wf){ CHECK(x.getSize()==c.t.cnt[h],"node "+S(h)+" size "+S(x.getSize())); sameQ(x.getQuality(),c.m[h].first,c.m[h].second,c.scale,"part"); } g+=c.m[h].first; l+=c.m[h].second; }
  if(wf) for(int y=0;y<c.t.L;y++) CHECK(cov[y]==1,"leaf "+S(y)+" covered "+S(cov[y])+" times"); sameQ(pt.getQuality(),g,l,c.scale,"partition"); return pic(p,g,l); }
static LD chkD(const DC&c,DPartition&pt,LD p,bool wf){ LD g=0,l=0; vector<vector<int> > cov(c.t.L,vector<int>(c.n,0)); vector<DPart> ps=pt.getParts();
  for(auto&x:ps){ int h=x.getH(),a=x.getStart(),b=x.getEnd(); CHECK(h>=0&&h<c.t.H&&a>=0&&a<=b&&b<c.n,"block "+S(h)+" ["+S(a)+","+S(b)+"]"); vector<int> lv; leaves(c.t,h,lv); for(int y:lv) for(int k=a;k<=b;k++) cov[y][k]++;
    if(wf){ CHECK(x.getHSize()==c.t.cnt[h],"hsize "+S(x.getHSize())+" of node "+S(h)); CHECK(x.getOSize()==b-a+1,"osize "+S(x.getOSize())); CHECK(x.getSize()==c.t.cnt[h]*(b-a+1),"size "+S(x.getSize())); sameQ(x.getQuality(),c.m[h][a][b].first,c.m[h][a][b].second,c.scale,"part"); } g+=c.m[h][a][b].first; l+=c.m[h][a][b].second; }
  if(wf) for(int y=0;y<c.t.L;y++) for(int k=0;k<c.n;k++) CHECK(cov[y][k]==1,"cell ("+S(y)+","+S(k)+") covered "+S(cov[y][k])+" times"); sameQ(pt.getQuality(),g,l,c.scale,"partition"); return pic(p,g,l); }
static int sz(R&r,int a,int b){ return r.huge?b*6:r.big?b:a; }
template<class C> static void opt(LD got,LD best,const C&c,LD p){ if(got<best-TOL*c.scale*(1+fabsl(p))) fail("the partition has tradeoff "+S(got)+" but "+S(best)+" is possible"); }
static void c01(R&r){ OC c=mkO(r,sz(r,8,30)); OPartitioner P(c.q); for(int k=0;k<3;k++){ float p=pv(r); string d=desc; desc+="p="+S(p); note(); auto x=P.computeBestPartition(p); opt(chkO(c,*x,p,false),bestO(c,p),c,p); desc=d; } }
static void partBounds(R&r){ int a=r.n(0,r.coin()?10:60000),b=r.n(a,65534),h=r.n(0,65000); OPart o(a,b,nullptr); CHECK(o.getStart()==a&&o.getEnd()==b&&o.getSize()==b-a+1,"part of "+S(a)+".."+S(b)+" has size "+S(o.getSize())); int hs=r.n(1,30000); DPart d(h,hs,a,b,nullptr); CHECK(d.getH()==h&&d.getHSize()==hs&&d.getStart()==a&&d.getEnd()==b&&d.getOSize()==b-a+1&&d.getSize()==hs*(b-a+1),"block part of "+S(a)+".."+S(b)+" hsize "+S(hs)); HPart e(h,hs,nullptr); CHECK(e.getH()==h&&e.getSize()==hs,"node part"); vector<HPart> ce(2,e); vector<OPart> co(2,o); vector<DPart> cd(2,d); CHECK(ce[1].getH()==h&&ce[1].getSize()==hs&&ce[1].getQuality()==e.getQuality(),"copied node part"); CHECK(co[1].getStart()==a&&co[1].getEnd()==b&&co[1].getSize()==b-a+1,"copied part"); CHECK(cd[1].getH()==h&&cd[1].getHSize()==hs&&cd[1].getStart()==a&&cd[1].getEnd()==b,"copied block part"); OPart o2(a,r.coin()?b:b+1,nullptr); CHECK((o==o2)==(o2.getEnd()==b)&&(o!=o2)==(o2.getEnd()!=b),"part comparison"); HPart e2(r.coin()?h:h+1,hs,nullptr); CHECK((e==e2)==(e2.getH()==h)&&(e!=e2)==(e2.getH()!=h),"node part comparison"); DPart d2(r.coin()?h:h+1,hs,a,r.coin()?b:b+1,nullptr); bool q=d2.getH()==h&&d2.getEnd()==b; CHECK((d==d2)==q&&(d!=d2)==!q,"block part comparison"); }
static void c02(R&r){ partBounds(r); OC c=mkO(r,sz(r,8,40)); OPartitioner P(c.q); for(int k=0;k<3;k++){ float p=pv(r); string d=desc; desc+="p="+S(p); note(); auto x=P.computeBestPartition(p); chkO(c,*x,p,true); CHECK(x->getParameter()==p,"parameter "+S(x->getParameter())); desc=d; } }
static HValuesMetaData md(const Tree&t){ return HValuesMetaData(t.L,t.par); }
static void c03(R&r){ HC c=mkH(r,sz(r,7,25)*(r.huge?2:1),sz(r,6,20)); HPartitioner P(c.q,md(c.t)); for(int k=0;k<3;k++){ float p=pv(r); string d=desc; desc+="p="+S(p); note(); auto x=P.computeBestPartition(p); opt(chkH(c,*x,p,false),bestH(c,p),c,p); desc=d; } }
static void c04(R&r){ partBounds(r); HC c=mkH(r,sz(r,7,25)*(r.huge?2:1),sz(r,6,20)); HPartitioner P(c.q,md(c.t)); for(int k=0;k<3;k++){ float p=pv(r); string d=desc; desc+="p="+S(p); note(); auto x=P.computeBestPartition(p); chkH(c,*x,p,true); CHECK(x->getParameter()==p,"parameter "+S(x->getParameter())); desc=d; } }
static void c05(R&r){ DC c=mkD(r,sz(r,4,8),sz(r,4,6),sz(r,5,9)); DPartitioner P(c.q,md(c.t)); for(int k=0;k<3;k++){ float p=pv(r); string d=desc; desc+="p="+S(p); note(); auto x=P.computeBestPartition(p); opt(chkD(c,*x,p,false),bestD(c,p),c,p); desc=d; } }
static void c06(R&r){ partBounds(r); DC c=mkD(r,sz(r,4,8),sz(r,4,6),sz(r,5,9)); DPartitioner P(c.q,md(c.t)); for(int k=0;k<3;k++){ float p=pv(r); string d=desc; desc+="p="+S(p); note(); auto x=P.computeBestPartition(p); chkD(c,*x,p,true); CHECK(x->getParameter()==p,"parameter "+S(x->getParameter())); desc=d; } }
// ---- sweeps
template<class PT> static bool sameParts(PT&a,PT&b);
template<> bool sameParts(OPartition&a,OPartition&b){ auto x=a.getParts(),y=b.getParts(); set<pair<int,int> > s,t; for(auto&k:x) s.insert({k.getStart(),k.getEnd()}); for(auto&k:y) t.insert({k.getStart(),k.getEnd()}); return s==t; }
template<> bool sameParts(HPartition&a,HPartition&b){ auto x=a.getParts(),y=b.getParts(); set<int> s,t; for(auto&k:x) s.insert(k.getH()); for(auto&k:y) t.insert(k.getH()); return s==t; }
template<> bool sameParts(DPartition&a,DPartition&b){ auto x=a.getParts(),y=b.getParts(); set<tuple<int,int,int> > s,t; for(auto&k:x) s.insert(make_tuple(k.getH(),k.getStart(),k.getEnd())); for(auto&k:y) t.insert(make_tuple(k.getH(),k.getStart(),k.getEnd())); return s==t; }
typedef list<tuple<float,int,int,LD,LD> > T5; typedef list<tuple<float,int,int,int,int,LD,LD> > T7;
static T5 expect(float p,vector<OPart> v){ T5 o; for(auto&x:v) o.push_back(make_tuple(p,x.getStart(),x.getEnd(),x.getQuality()->getGain(),x.getQuality()->getLoss())); return o; }
static T5 expect(float p,vector<HPart> v){ T5 o; for(auto&x:v) o.push_back(make_tuple(p,x.getH(),x.getSize(),x.getQuality()->getGain(),x.getQuality()->getLoss())); return o; }
static T7 expect(float p,vector<DPart> v){ T7 o; for(auto&x:v) o.push_back(make_tuple(p,x.getH(),x.getSize(),x.getStart(),x.getEnd(),x.getQuality()->getGain(),x.getQuality()->getLoss())); return o; }
static LD bestOf(const OC&c,LD p){return bestO(c,p);} static LD bestOf(const HC&c,LD p){return bestH(c,p);} static LD bestOf(const DC&c,LD p){return bestD(c,p);}
static LD chk(const OC&c,OPartition&x,LD p){return chkO(c,x,p,false);} static LD chk(const HC&c,HPartition&x,LD p){return chkH(c,x,p,false);} static LD chk(const DC&c,DPartition&x,LD p){return chkD(c,x,p,false);}
static float thr(R&r){ switch(r.n(0,5)){ case 0: return 0.1f; case 1: return 0.01f; case 2: return 0.5f; case 3: return 1e-4f; case 4: return 0; default: return 0.001f; } }
static void rng(R&r,float&a,float&b){ a=0;b=1; if(r.coin(3)){ a=pv(r); b=pv(r); if(a>b) swap(a,b); if(r.coin(4)) b=a; } }
template<class PT,class C,class PTN> static void sweep(R&r,C&c,PT&P){ 
  int reps=r.coin(3)?2:1; for(int k=0;k<reps;k++){ float t=thr(r),a,b; rng(r,a,b); string d0=desc; desc+="sweep threshold "+S(t)+" min "+S(a)+" max "+S(b)+(k?" (second sweep on the object)":""); note(); P.computeBestPartitions(t,a,b);
    auto pl=P.getPList(); auto ps=P.getPartitions(); auto ql=P.getQualityList(); desc+=" -> "+SV(pl);
    CHECK(!pl.empty()&&pl[0]==a,"list starts with min"); for(size_t i=0;i<pl.size();i++){ CHECK(pl[i]>=a&&pl[i]<=b,"parameter in range"); if(i) CHECK(pl[i-1]<pl[i],"increasing"); CHECK(ps.count(pl[i])&&ps[pl[i]],"partition of "+S(pl[i])); }
    CHECK(ps.size()==pl.size(),"partition map size "+S(ps.size())); CHECK(ql.size()==pl.size(),"quality map size "+S(ql.size()));
    auto tl=P.getPartitionsTuples(); decltype(tl) ex;
    for(size_t i=0;i<pl.size();i++){ auto x=ps[pl[i]]; opt(chk(c,*x,pl[i]),bestOf(c,pl[i]),c,pl[i]); CHECK(x->getParameter()==pl[i],"partition of "+S(pl[i])+" was computed for "+S(x->getParameter())); if(i) CHECK(!sameParts(*ps[pl[i-1]],*x),"consecutive parameters "+S(pl[i-1])+" "+S(pl[i])+" have the same parts"); CHECK(ql.count(pl[i]),"quality of "+S(pl[i])); sameQ(ql[pl[i]],x->getQuality()->getGain(),x->getQuality()->getLoss(),0,"quality list"); auto e=expect(pl[i],x->getParts()); ex.splice(ex.end(),e); }
    CHECK(tl.size()==ex.size(),"tuple list length "+S(tl.size())+" expected "+S(ex.size())); CHECK(tl==ex,"tuple list differs from the parts");
    auto last=P.computeBestPartition(b); CHECK(sameParts(*last,*ps[pl.back()]),"the last partition has not the parts of the best one at max"); desc=d0; } }
static void c12(R&r){ int k=r.n(0,2); if(k==0){ OC c=mkO(r,sz(r,7,12)); OPartitioner P(c.q); sweep<OPartitioner,OC,OPartition>(r,c,P);} else if(k==1){ HC c=mkH(r,sz(r,7,12),sz(r,5,10)); HPartitioner P(c.q,md(c.t)); sweep<HPartitioner,HC,HPartition>(r,c,P);} else { DC c=mkD(r,4,4,sz(r,4,6)); DPartitioner P(c.q,md(c.t)); sweep<DPartitioner,DC,DPartition>(r,c,P);} }
static float wild(R&r){ switch(r.n(0,7)){ case 0: return 0; case 1: return 1; case 2: return (float)(r.u()*1e-6); case 3: return -(float)(r.u()*10); case 4: return (float)(r.u()*1e6); case 5: return (float)r.u(); case 6: return ldexpf((float)r.u(),r.n(-120,100)); default: return -ldexpf((float)r.u(),r.n(-120,100)); } }
static void c13(R&r){ float t; switch(r.n(0,5)){ case 0: t=0; break; case 1: t=-1; break; case 2: t=1e-10f; break; case 3: t=-1e-30f; break; case 4: t=1e-38f; break; default: t=0.01f; } float a=wild(r),b=wild(r); if(a>b) swap(a,b); if(r.coin(3)){a=0;b=1;} if(r.coin(6)) b=a; if(r.coin(6)) b=nextafterf(a,INFINITY);
  int k=r.n(0,2); string s="sweep threshold "+S(t)+" min "+S(a)+" max "+S(b)+"\n"; desc+=s; alarm(20); if(k==0){ OC c=mkO(r,5); note(); OPartitioner P(c.q); P.computeBestPartitions(t,a,b);} else if(k==1){ HC c=mkH(r,5,4); note(); HPartitioner P(c.q,md(c.t)); P.computeBestPartitions(t,a,b);} else { DC c=mkD(r,3,3,3); note(); DPartitioner P(c.q,md(c.t)); P.computeBestPartitions(t,a,b);} alarm(0); }
template<class P> static void sel(R&r,P&x,LD scale){ float t=thr(r),a,b; rng(r,a,b); desc+="sweep threshold "+S(t)+" min "+S(a)+" max "+S(b); note(); x.computeBestPartitions(t,a,b); auto pl=x.getPList(); auto ps=x.getPartitions(); desc+=" -> "; for(float p:pl) desc+=S(p)+":("+S(ps[p]->getQuality()->getGain())+","+S(ps[p]->getQuality()->getLoss())+") ";
  vector<LD> sc; for(float p:pl){ LD g=ps[p]->getQuality()->getGain(),l=ps[p]->getQuality()->getLoss(); sc.push_back((g-1)*(g-1)+l*l); } LD mn=*min_element(sc.begin(),sc.end()); float o=x.getP(P_OPT); int io=-1; for(size_t i=0;i<pl.size();i++) if(pl[i]==o) io=i; CHECK(io>=0,"optimal parameter "+S(o)+" is not listed"); CHECK(near(sc[io],mn,mn,1e-12L),"optimal parameter "+S(o)+" has score "+S(sc[io])+" but "+S(mn)+" is possible"); for(size_t i=io+1;i<pl.size();i++) CHECK(sc[i]!=sc[io],"a larger parameter "+S(pl[i])+" has the same score as "+S(o));
  CHECK(x.getP(P_MAX)==pl.back(),"maximal parameter "+S(x.getP(P_MAX))); CHECK(x.getP(P_MIN)==0,"minimal parameter "+S(x.getP(P_MIN)));
  LD auc=0,m=0; for(size_t i=0;i+1<pl.size();i++){ LD z=(ps[pl[i+1]]->getQuality()->getGain()-ps[pl[i]]->getQuality()->getGain())*(ps[pl[i+1]]->getQuality()->getLoss()+ps[pl[i]]->getQuality()->getLoss())/2; auc+=z; m+=fabsl(z);} float got=x.computeAUC(); if(!near(got,1-auc,m,1e-5L)) fail("area "+S(got)+" expected "+S(1-auc)); }
static void c14(R&r){ int k=r.n(0,2); if(k==0){ OC c=mkO(r,sz(r,7,12)); OPartitioner P(c.q); sel(r,P,c.scale);} else if(k==1){ HC c=mkH(r,7,6); HPartitioner P(c.q,md(c.t)); sel(r,P,c.scale);} else { DC c=mkD(r,4,4,4); DPartitioner P(c.q,md(c.t)); sel(r,P,c.scale);} }
// ---- C22: inputs unchanged, repeatable
template<class PT,class C,class P> static void frame(R&r,C&c,P&x,function<vector<pair<LD,LD> >()> snap){ auto s0=snap(); float p=pv(r),p2=pv(r); desc+="p="+S(p)+" p2="+S(p2); note(); auto a=x.computeBestPartition(p); auto qa=make_pair(a->getQuality()->getGain(),a->getQuality()->getLoss()); auto cp=*a; auto ea=expect(p,a->getParts());
  auto b=x.computeBestPartition(p2); x.computeBestPartitions(0.01f,0,1); auto old=x.getPartitions(); auto oldl=x.getPList(); map<float,decltype(ea)> oe; for(auto&k:old) oe[k.first]=expect(k.first,k.second->getParts()); (void)(*a==*b); (void)(*a!=*b); x.computeBestPartitions(0.05f,0,1); auto e=x.computeBestPartition(p);
  CHECK(snap()==s0,"the supplied qualities changed"); CHECK(qa==make_pair(a->getQuality()->getGain(),a->getQuality()->getLoss()),"the quality of an earlier partition changed"); CHECK(ea==expect(p,a->getParts()),"an earlier partition changed"); CHECK(sameParts(*a,*e),"repeating the computation gives other parts"); CHECK(near(e->getQuality()->getGain(),qa.first,0)&&near(e->getQuality()->getLoss(),qa.second,0),"repeating the computation gives another quality");
  for(auto&k:old) CHECK(oe[k.first]==expect(k.first,k.second->getParts()),"a partition of an earlier sweep changed"); x.computeBestPartitions(0.01f,0,1); CHECK(oldl==x.getPList(),"repeating the sweep gives another list"); }
void vframe(R&r);
static void c22(R&r){ int k=r.n(0,3); if(k==0){ OC c=mkO(r,sz(r,7,12)); OPartitioner P(c.q); frame<OPartition>(r,c,P,[&](){ vector<pair<LD,LD> > v; for(int i=0;i<c.n;i++)for(int j=i;j<c.n;j++) v.push_back({(*c.q)(i,j)->getGain(),(*c.q)(i,j)->getLoss()}); return v;}); } else if(k==1){ HC c=mkH(r,7,6); HPartitioner P(c.q,md(c.t)); frame<HPartition>(r,c,P,[&](){ vector<pair<LD,LD> > v; for(auto&q:*c.q) v.push_back({q->getGain(),q->getLoss()}); return v;}); } else if(k==2){ DC c=mkD(r,4,4,4); DPartitioner P(c.q,md(c.t)); frame<DPartition>(r,c,P,[&](){ vector<pair<LD,LD> > v; for(auto&u:*c.q) for(int i=0;i<c.n;i++)for(int j=i;j<c.n;j++) v.push_back({(*u)(i,j)->getGain(),(*u)(i,j)->getLoss()}); return v;}); } else vframe(r); }
template<class P,class C> static void mono(R&r,P&x,C&c){ float p=(float)r.u(),q=(float)r.u(); if(r.coin(3)) p=0; if(r.coin(3)) q=1; if(p>q) swap(p,q); if(q-p<1e-3f) return; string d=desc; desc+="p="+S(p)+" q="+S(q); note(); auto a=x.computeBestPartition(p)->getQuality(),b=x.computeBestPartition(q)->getQuality(); LD tol=TOL*c.scale/(q-p); if(b->getGain()<a->getGain()-tol||b->getLoss()<a->getLoss()-tol) fail("at p ("+S(a->getGain())+","+S(a->getLoss())+") at q ("+S(b->getGain())+","+S(b->getLoss())+")"); 
  if(r.coin(4)){ desc=d+"sweep"; note(); x.computeBestPartitions(0.01f,0,1); auto pl=x.getPList(); auto ps=x.getPartitions(); for(size_t i=0;i+1<pl.size();i++) for(size_t j=i+1;j<pl.size();j++){ LD t2=TOL*c.scale/(pl[j]-pl[i]); auto u=ps[pl[i]]->getQuality(),v=ps[pl[j]]->getQuality(); if(v->getGain()<u->getGain()-t2||v->getLoss()<u->getLoss()-t2) fail("gain or loss decreases from "+S(pl[i])+" to "+S(pl[j])); } } }
static void c23(R&r){ int k=r.n(0,2); if(k==0){ OC c=mkO(r,sz(r,7,20)); OPartitioner P(c.q); mono(r,P,c);} else if(k==1){ HC c=mkH(r,7,6); HPartitioner P(c.q,md(c.t)); mono(r,P,c);} else { DC c=mkD(r,4,4,4); DPartitioner P(c.q,md(c.t)); mono(r,P,c);} }
// ---- C11
static void c11(R&r){ Tree t=mktree(r,sz(r,9,60),sz(r,8,50)); desc+=ST(t); note(); HValuesMetaData m(t.L,t.par); auto path=m.getPath(); CHECK((int)path.size()==t.H,"path length "+S(path.size())); vector<int> pos(t.H,-1); for(int i=0;i<t.H;i++){ CHECK(path[i]>=0&&path[i]<t.H&&pos[path[i]]==-1,"path "+SV(path)); pos[path[i]]=i; } for(int i=0;i<t.L;i++) CHECK(path[i]<t.L,"leaves first: "+SV(path)); for(int h=0;h<t.H;h++) if(t.par[h]>=0) CHECK(pos[h]<pos[t.par[h]],"child before parent: "+SV(path)); CHECK(path.back()==t.root,"root last"); CHECK(m.getRoot()==t.root,"root "+S(m.getRoot())); CHECK(m.getLeaveSize()==t.L,"leaves "+S(m.getLeaveSize())); CHECK((int)m.getHsize()==t.H,"nodes "+S(m.getHsize())); CHECK(m.getParents()==t.par,"parents"); auto ch=m.getChildren(); auto sz_=m.getSize(); CHECK((int)ch.size()==t.H,"children lists "+S(ch.size())); for(int h=0;h<t.H;h++){ vector<int> a=ch[h]; sort(a.begin(),a.end()); CHECK(a==t.ch[h],"children of "+S(h)+": "+SV(a)); CHECK(sz_.count(h)&&sz_[h]==t.cnt[h],"size of "+S(h)+": "+S(sz_[h])); } }
// ---- C15
static void c15big(R&r){ int n=r.n(200,1500); desc+="n="+S(n)+" sparse"; note(); UpperTriangularMatrix<int> m(n); map<pair<int,int>,int> o; int c=0; for(int k=0;k<300;k++){ int i=r.n(0,n-1),j=r.n(i,n-1); if(r.coin()){ i=r.n(0,min(n-1,20)); j=n-1-r.n(0,min(20,n-1-i)); if(j<i) j=i; } o[{i,j}]=++c; m(i,j,c); } for(auto&k:o) CHECK(m(k.first.first,k.first.second)==k.second,"value at "+S(k.first.first)+","+S(k.first.second)+" is "+S(m(k.first.first,k.first.second))+" expected "+S(k.second)); long long t=0,u=0; for(int i=0;i<n;i++)for(int j=i;j<n;j++) if(m(i,j)) t++; for(int i=0;i<m.getElements();i++) if(m[i]) u++; CHECK(t==(long long)o.size()&&u==t,"written elements "+S(t)+" expected "+S(o.size())); }
static void c15(R&r){ r.huge=false; if(r.coin(8)){ c15big(r); return; } int n=r.n(0,sz(r,12,200)); desc+="n="+S(n); note(); int w=r.n(0,3); 
  auto lin=[&](int e,int s,function<int(int)> f,int sto){ CHECK(e==n*(n+1)/2,"elements "+S(e)); CHECK(s==n,"size "+S(s)); CHECK(sto==e,"storage "+S(sto)); };
  if(w<2){ UpperTriangularMatrix<int> m=w?UpperTriangularMatrix<int>(n,77):UpperTriangularMatrix<int>(n); lin(m.getElements(),m.getSize(),nullptr,m.matrix.size()); map<pair<int,int>,int> o; for(int i=0;i<n;i++)for(int j=i;j<n;j++) o[{i,j}]=w?77:0; for(auto&k:o) CHECK(m(k.first.first,k.first.second)==k.second,"initial value at "+S(k.first.first)+","+S(k.first.second)); int c=100; for(int k=0;k<2*n;k++){ int i=r.n(0,n-1),j=r.n(i,n-1); m(i,j,++c); o[{i,j}]=c; } for(auto&k:o) CHECK(m(k.first.first,k.first.second)==k.second,"value at "+S(k.first.first)+","+S(k.first.second)+" is "+S(m(k.first.first,k.first.second))+" expected "+S(k.second));
    multiset<int> a,b; for(auto&k:o){ m(k.first.first,k.first.second,++c); a.insert(c);} for(int i=0;i<m.getElements();i++) b.insert(m[i]); CHECK(a==b,"linear indices enumerate other elements"); }
  else if(w==2){ UpperTriangularMatrix<LD> m(n); UpperTriangularMatrix<double> d(n,2.5); lin(m.getElements(),m.getSize(),nullptr,m.matrix.size()); for(int i=0;i<n;i++)for(int j=i;j<n;j++){ CHECK(m(i,j)==0,"initial value"); CHECK(d(i,j)==2.5,"initial value"); } for(int i=0;i<n;i++)for(int j=i;j<n;j++) m(i,j,i*1000+j+0.5L); for(int i=0;i<n;i++)for(int j=i;j<n;j++) CHECK(m(i,j)==i*1000+j+0.5L,"value at "+S(i)+","+S(j)); }
  else { UpperTriangularMatrix<shared_ptr<Quality> > m(n); UpperTriangularMatrix<shared_ptr<Tradeoff> > t(n); lin(m.getElements(),m.getSize(),nullptr,m.matrix.size()); set<void*> s; for(int i=0;i<n;i++)for(int j=i;j<n;j++){ CHECK(m(i,j)&&m(i,j)->getGain()==0&&m(i,j)->getLoss()==0,"initial quality"); CHECK(t(i,j)&&t(i,j)->getValue()==0&&t(i,j)->getQuality()->getGain()==0,"initial tradeoff"); CHECK(s.insert(m(i,j).get()).second&&s.insert(t(i,j).get()).second&&s.insert(t(i,j)->getQuality().get()).second,"shared object at "+S(i)+","+S(j)); } } }
// ---- C19, C20
static LD ov(R&r){ switch(r.n(0,4)){ case 0: return r.n(-5,5); case 1: return r.u()*10-5; case 2: return 0; case 3: return 1e6L*(r.u()-0.5); default: return r.n(1,9)*0.125L; } }
static bool qeq(LD g1,LD l1,LD g2,LD l2,bool&unsure){ if(g1==g2&&l1==l2){ unsure=false; return true; } LD t=1e-13L*max(g1+g2,l1+l2)/2, a=fabsl(g1-g2),b=fabsl(l1-l2); unsure=fabsl(a-t)<1e-6L*fabsl(t)+1e-30L||fabsl(b-t)<1e-6L*fabsl(t)+1e-30L; return a<t&&b<t; }
static void c19(R&r){ LD g1=ov(r),l1=ov(r),g2=ov(r),l2=ov(r); if(r.coin(3)){ g2=g1*(1+(r.coin()?1:-1)*r.u()*4e-13L); l2=l1*(1+(r.coin()?1:-1)*r.u()*4e-13L);} if(r.coin(5)) g2=g1; if(r.coin(5)) l2=l1; desc+="qualities ("+S(g1)+","+S(l1)+") ("+S(g2)+","+S(l2)+")"; note(); Quality a(g1,l1),b(g2,l2); 
  auto eq=[&](Quality q,LD g,LD l,const char*w){ LD s=fabsl(g)+fabsl(l); if(!near(q.getGain(),g,s,1e-15L)||!near(q.getLoss(),l,s,1e-15L)) fail(string(w)+": ("+S(q.getGain())+","+S(q.getLoss())+") expected ("+S(g)+","+S(l)+")"); };
  eq(a,g1,l1,"constructor"); eq(Quality(),0,0,"default"); eq(a+b,g1+g2,l1+l2,"+"); eq(a-b,g1-g2,l1-l2,"-"); eq(a*b,g1*g2,l1*l2,"*"); if(g2!=0&&l2!=0){ eq(a/b,g1/g2,l1/l2,"/"); } eq(a,g1,l1,"left operand"); eq(b,g2,l2,"right operand");
  Quality c(g1,l1); c+=b; eq(c,g1+g2,l1+l2,"+="); c=a; c-=b; eq(c,g1-g2,l1-l2,"-="); c=a; c*=b; eq(c,g1*g2,l1*l2,"*="); if(g2!=0&&l2!=0){ c=a; c/=b; eq(c,g1/g2,l1/l2,"/="); } eq(b,g2,l2,"right operand"); c=a; c+=c; eq(c,2*g1,2*l1,"self +="); c=a; c*=c; eq(c,g1*g1,l1*l1,"self *="); c=a; c-=c; eq(c,0,0,"self -="); if(g1!=0&&l1!=0){ c=a; c/=c; eq(c,1,1,"self /="); }
  c=a; c.setGain(7); eq(c,7,l1,"setGain"); c=a; c.setLoss(7); eq(c,g1,7,"setLoss"); c=a; c.addToGain(3); eq(c,g1+3,l1,"addToGain"); c=a; c.addToLoss(3); eq(c,g1,l1+3,"addToLoss");
  bool un; bool e=qeq(g1,l1,g2,l2,un); if(!un){ CHECK((a==b)==e,"==" ); CHECK((a!=b)==!e,"!="); CHECK((b==a)==e,"== reversed"); } CHECK(a==a,"reflexive"); }
static void c20(R&r){ LD g1=ov(r),l1=ov(r),g2=ov(r),l2=ov(r); float p=pv(r),p2=r.coin(3)?pv(r):p; if(r.coin(4)) g2=g1; if(r.coin(4)) l2=l1; if(r.coin(4)){ p=p2=0.5f; LD d=r.n(-2,2); g1=r.n(-3,3); l1=r.n(-3,3); g2=g1+d; l2=l1+d; } desc+="tradeoffs ("+S(g1)+","+S(l1)+",p="+S(p)+") ("+S(g2)+","+S(l2)+",p="+S(p2)+")"; note(); shared_ptr<Quality> qa(new Quality(g1,l1)),qb(new Quality(g2,l2)); Tradeoff a(qa,p),b(qb,p2); 
  auto is=[&](const Tradeoff&t,LD v,LD g,LD l,const char*w){ LD s=fabsl(g)+fabsl(l)+fabsl(v); if(!near(t.getValue(),v,s,(p*64==floor(p*64)&&p2*64==floor(p2*64)&&fabs(p)<100&&fabs(p2)<100?1e-15L:2e-7L)*(1+fabsl(p)+fabsl(p2)))||!near(t.getQuality()->getGain(),g,s,1e-15L)||!near(t.getQuality()->getLoss(),l,s,1e-15L)) fail(string(w)+": value "+S(t.getValue())+" ("+S(t.getQuality()->getGain())+","+S(t.getQuality()->getLoss())+") expected "+S(v)+" ("+S(g)+","+S(l)+")"); };
  LD v1=pic(p,g1,l1),v2=pic(p2,g2,l2); is(a,v1,g1,l1,"constructor"); Tradeoff s; is(s,0,0,0,"default"); s.set(qa,p); is(s,v1,g1,l1,"set"); is(Tradeoff(qa),0,g1,l1,"quality constructor"); is(Tradeoff(3,qa),3,g1,l1,"value constructor"); CHECK(a.getQuality()!=qa&&s.getQuality()!=qa&&Tradeoff(qa).getQuality()!=qa&&Tradeoff(3,qa).getQuality()!=qa,"the quality is shared with the argument");
  LD w1=a.getValue(),w2=b.getValue(); is(a+b,w1+w2,g1+g2,l1+l2,"+"); is(a-b,w1-w2,g1-g2,l1-l2,"-"); is(a*b,w1*w2,g1*g2,l1*l2,"*"); is(a,v1,g1,l1,"left operand"); is(b,v2,g2,l2,"right operand");
  if(w2!=0&&g2!=0&&l2!=0) is(a/b,w1/w2,g1/g2,l1/l2,"/");
  { Tradeoff c; c.set(qa,p); c+=b; is(c,w1+w2,g1+g2,l1+l2,"+="); Tradeoff d; d.set(qa,p); d-=b; is(d,w1-w2,g1-g2,l1-l2,"-="); Tradeoff e; e.set(qa,p); e*=b; is(e,w1*w2,g1*g2,l1*l2,"*="); if(w2!=0&&g2!=0&&l2!=0){ Tradeoff f; f.set(qa,p); f/=b; is(f,w1/w2,g1/g2,l1/l2,"/="); } is(b,v2,g2,l2,"right operand"); CHECK(qa->getGain()==g1&&qa->getLoss()==l1,"source quality changed"); qa->setGain(123); is(c,w1+w2,g1+g2,l1+l2,"after changing the source"); qa->setGain(g1); }
  CHECK((a==b)==(w1==w2),"=="); CHECK((a!=b)==(w1!=w2),"!="); CHECK((a<b)==(w1<w2),"<"); bool gt=w1!=w2?w1>w2:(g1!=g2?g1>g2:l1<l2); CHECK((a>b)==gt,">"); CHECK((a<=b)==!gt,"<="); CHECK((a>=b)==!(w1<w2),">="); }
void regA(){ tests["C01"]=c01; tests["C02"]=c02; tests["C03"]=c03; tests["C04"]=c04; tests["C05"]=c05; tests["C06"]=c06; tests["C11"]=c11; tests["C12"]=c12; tests["C13"]=c13; tests["C14"]=c14; tests["C15"]=c15; tests["C19"]=c19; tests["C20"]=c20; tests["C22"]=c22; tests["C23"]=c23; }
