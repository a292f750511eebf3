#include "sym.h"
#include <vector>
#include <string>
#include <map>
#include <cstdio>
#include <cmath>
extern "C" void sx_main(void){
  int a=sym_int("a",0,5), b=sym_int("b",-3,3);
  std::vector<int> v; for(int i=0;i<a;i++) v.push_back(i*b);
  int s=0; for(int x:v) s+=x;
  sym_assert(s==b*a*(a-1)/2,"sum");
  std::map<int,int> m; m[a]=b; m[b]=a; 
  sym_assert(m.size()==(a==b?1u:2u),"map");
  char buf[20]; snprintf(buf,20,"%d",b); std::string t(buf);
  sym_assert(t.size()==(b<0?2u:1u),"len");
  double r=sym_real("r",0.1,0.9);
  double l=log10(r)+log10(1-r);
  double p=pow(10,l);
  sym_assert(p<=0.25+1e-9,"amgm");
  sym_assert(p<=0.249,"wrong");
  sym_cover("end");
}
