// F-stage-ring: build with -fsanitize=thread; the slot is written by push and read by the worker.
#include <deque>
#include <chrono>
#include <cstdio>
#include <thread>
#include <vector>
#include <limits>
#include <xitren/comm/pipeline_stage_pool.hpp>
struct L{ static L& trace(){static L l;return l;} static L& debug(){return trace();} static L& info(){return trace();} static L& warning(){return trace();} static L& error(){return trace();} template<class X> L& operator<<(X const&){return *this;} };
using namespace xitren::comm;
struct slow { int v{}; slow()=default; slow(int x):v(x){} slow(slow const&)=default; slow& operator=(slow const&o){ if(o.v==2) std::this_thread::sleep_for(std::chrono::milliseconds(50)); v=o.v; return *this;} };
int main(){
  pipeline_stage<int,void,64,L> s{[&](pipeline_stage_exception, int const, std::pair<int,int>){} };
  for (int i=1;i<=50;i++) s.push(i);
}
