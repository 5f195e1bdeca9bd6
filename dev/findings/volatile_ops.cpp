// F-values-volatile: does not compile: every volatile operator calls the non-volatile notify_observers.
#include <xitren/comm/values/observable.hpp>
int use(xitren::comm::values::observable<int, 8> volatile& v) { return v++; }
int main() { return 0; }
