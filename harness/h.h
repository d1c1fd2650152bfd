#pragma once
#include <cstdio>
#include <cstdlib>
#include <cmath>
#include <string>
#include <vector>
#include <map>
#include <set>
#include <list>
#include <tuple>
#include <memory>
#include <random>
#include <chrono>
#include <algorithm>
#include <functional>
#include <sstream>
#include <cfloat>
#include <unistd.h>
#include "oaggregationn.h"
#include "haggregationn.h"
#include "daggregationn.h"
#include "opartitioner.h"
#include "hpartitioner.h"
#include "dpartitioner.h"
#include "oqualities.h"
#include "hqualities.h"
#include "dqualities.h"
#include "tradeoff.h"
#include "quality.h"
#include "lpglobal.h"
using namespace std; using namespace lpaggreg;
typedef long double LD;
extern string desc; void note(); void fail(const string&m);
struct R { mt19937_64 g; bool big,huge; R(unsigned long s):g(s*0x9E3779B97F4A7C15UL+12345),big(false),huge(false){ g.discard(3);} 
  int n(int a,int b){ return a+(int)(g()%(unsigned long)(b-a+1)); } bool coin(int k=2){ return g()%k==0; } double u(){ return (g()>>11)*(1.0/9007199254740992.0); } };
extern map<string,void(*)(R&)> tests; void regA(); void regB();
template<class T> string S(const T&x){ ostringstream o; o.precision(20); o<<x; return o.str(); }
template<class T> string SV(const vector<T>&v){ string s="["; for(auto&x:v) s+=S(x)+" "; return s+"]"; }
inline bool near(LD a,LD b,LD scale,LD rel=1e-9L){ if(a==b) return true; return fabsl(a-b)<=rel*(1+scale); }
#define CHECK(c,m) do{ if(!(c)) fail(string("expected ") + #c + ": " + (m)); }while(0)
struct Tree { int L,H,root; vector<int> par; vector<vector<int> > ch; vector<int> post; vector<int> cnt; };
inline Tree mktree(R&r,int maxL,int maxI){
  Tree t; t.L=r.n(1,maxL); int I=r.n(1,maxI); t.H=t.L+I; t.par.assign(t.H,-1);
  // random order of inner nodes, each non-root inner node gets a parent earlier in the order; then every inner node must have a child
  vector<int> in; for(int i=0;i<I;i++) in.push_back(t.L+i); shuffle(in.begin(),in.end(),r.g);
  // inner nodes without inner children need a leaf: retry
  for(int k=1;k<I;k++) t.par[in[k]]=in[r.coin(3)?k-1:r.n(0,k-1)];
  vector<int> need; vector<char> has(t.H,0); for(int k=1;k<I;k++) has[t.par[in[k]]]=1;
  for(int k=0;k<I;k++) if(!has[in[k]]) need.push_back(in[k]);
  if((int)need.size()>t.L) return mktree(r,maxL,maxI);
  vector<int> lv; for(int i=0;i<t.L;i++) lv.push_back(i); shuffle(lv.begin(),lv.end(),r.g);
  for(int i=0;i<t.L;i++) t.par[lv[i]]= i<(int)need.size()?need[i]:in[r.n(0,I-1)];
  t.root=in[0]; t.ch.assign(t.H,vector<int>()); for(int h=0;h<t.H;h++) if(t.par[h]>=0) t.ch[t.par[h]].push_back(h);
  t.cnt.assign(t.H,0); function<void(int)> w=[&](int h){ if(h<t.L) t.cnt[h]=1; for(int c:t.ch[h]){ w(c); t.cnt[h]+=t.cnt[c]; } t.post.push_back(h); }; w(t.root);
  return t;
}
inline void leaves(const Tree&t,int h,vector<int>&o){ if(h<t.L) o.push_back(h); for(int c:t.ch[h]) leaves(t,c,o); }
inline string ST(const Tree&t){ return "leaves "+S(t.L)+" parents "+SV(t.par); }
inline double val(R&r,int mode){ switch(mode){ case 0: return r.n(0,3); case 1: return r.u()*10; case 2: return r.n(-3,5); case 3: return r.coin(3)?0:r.u()*1000; case 4: return r.u()-0.5; case 5: return 2; case 7: return 1e-9*r.u(); default: return r.coin()?1e-3*r.u():1e4*r.u(); } }
inline double nval(R&r,int mode){ double v=val(r,mode); return v<0?-v:v; }
inline LD qv(R&r,int mode){ switch(mode){ case 0: return r.n(0,4); case 1: return r.u(); case 2: return r.n(-4,4); case 3: return 0; case 4: return r.coin(2)?0:r.n(0,6)*0.25; case 5: return r.n(-3,3)*1e-4; case 7: return r.u()*1e-8; default: return r.u()*100-20; } }
inline float pv(R&r){ switch(r.n(0,9)){ case 0: return 0; case 1: return 1; case 2: return 0.5f; case 3: return 0.25f; case 4: return (float)(r.u()*4-2); case 5: return 1.5f; default: return (float)r.u(); } }
inline LD pic(LD p,LD g,LD l){ return p*g-(1-p)*l; }
