// The real library against independent oracles.  usage: harness Cxx SEED SECONDS LASTFILE
#include "h.h"
string desc; long cases=0; const char* lastfile=0; unsigned long cur=0;
void note(){ if(lastfile){ FILE*f=fopen(lastfile,"w"); if(f){ fprintf(f,"case %lu\n%s\n",cur,desc.c_str()); fclose(f);} } }
void fail(const string&m){ printf("FAILING CASE %lu\n%s\n%s\nCASES %ld\n",cur,desc.c_str(),m.c_str(),cases); fflush(stdout); _exit(1); }
map<string,void(*)(R&)> tests;
int main(int c,char**v){
  string id=v[1]; unsigned long seed=strtoul(v[2],0,10); double secs=atof(v[3]); lastfile=c>4?v[4]:0;
  regA(); regB();
  if(!tests.count(id)){ printf("CASES 0\n"); return 0; }
  auto t0=chrono::steady_clock::now();
  for(unsigned long k=0;;k++){
    if(chrono::duration<double>(chrono::steady_clock::now()-t0).count()>secs) break;
    cur=seed*1000003UL+k; R r(cur); r.big=(k%50==49); r.huge=(k%300==299); desc.clear(); 
    tests[id](r); cases++;
  }
  printf("CASES %ld\n",cases); return 0;
}
