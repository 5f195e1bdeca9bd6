// F-stage-stale: positions taken, item 2 lost and item 1 handed on twice (expected "1 2").
#include <deque>
#include <chrono>
#include <cstdio>
#include <thread>
#include <vector>
#include <limits>
#include <xitren/comm/pipeline_stage_pool.hpp>
struct L{ static L& trace(){static L l;return l;} static L& debug(){return trace();} static L& info(){return trace();} static L& warning(){return trace();} static L& error(){return trace();} template<class X> L& operator<<(X const&){return *this;} };
using namespace xitren::comm;
struct slow { int v{}; slow()=default; slow(int x):v(x){} slow(slow const&)=default; slow& operator=(slow const&o){ if(o.v==2) std::this_thread::sleep_for(std::chrono::milliseconds(50)); v=o.v; return *this;} };
int main(){
  std::vector<int> got;
  { pipeline_stage<slow,void,1,L> s{[&](pipeline_stage_exception, slow const d, std::pair<int,int>){ got.push_back(d.v);} };
    s.push(slow{1}); std::this_thread::sleep_for(std::chrono::milliseconds(50)); s.push(slow{2}); std::this_thread::sleep_for(std::chrono::milliseconds(50)); }
  for(int g:got) printf("%d ",g); puts("");
}
