"""C36: what a user may write. Each probe is a text that must compile: (name, rule, header, code)."""

A, C, M, V, F = "allocators/", "cache/", "comm/", "comm/values/", "func/"
P = []


def p(name, rule, hdr, code):
    P.append((name, rule, hdr, code))


# ---- allocators ----------------------------------------------------------------------------------------------------
for n in ("16", "100", "256", "4096", "1048576"):
    p("static_heap", f"static_heap<{n}>: every operation", A + "static_heap.hpp", f"""
using H = xitren::allocators::static_heap<{n}>;
struct functor {{ int n; void operator()() const {{}} }};
void free_function();
void use(H& h, H const& c, std::size_t n) {{
  void* p = h.allocate(n); h.deallocate(p);
  void* q = h.callocate(n, n); h.deallocate(q);
  h.on_fail([] {{}}); h.on_fail([&n] {{ ++n; }}); h.on_fail(functor{{1}}); h.on_fail(&free_function); h.on_fail(nullptr); h.on_fail({{}});
  h.reset_minimum_ever_free_heap_size();
  std::size_t a = c.free_heap_size(), b = c.minimum_ever_free_heap_size(); (void)a; (void)b;
  H::heap_stats_t s{{}}; h.v_port_get_heap_stats(&s);
  std::size_t k = s.x_available_heap_space_in_bytes + s.x_size_of_largest_free_block_in_bytes + s.x_size_of_smallest_free_block_in_bytes + s.x_number_of_free_blocks
    + s.x_minimum_ever_free_bytes_remaining + s.x_number_of_successful_allocations + s.x_number_of_successful_frees; (void)k;
}}
void make() {{ H h; H g{{}}; static H s{{}}; use(h, g, 3); use(s, s, 4); }}
""")

ALLOC = "#include <bits/stdc++.h>\nusing namespace xitren::allocators;\ntemplate <class T> using AL = static_heap_allocator<T, 4096>;\n"
ALLOC = ALLOC.replace("#include <bits/stdc++.h>\n", "")
for nm, inc, code in [
    ("vector", "vector", "std::vector<T, AL<T>> v(AL<T>{h}); v.reserve(8); v.push_back(T{}); v.emplace_back(); v.resize(4); auto w = v; w = v; auto m = std::move(v); m = std::move(w); m.insert(m.begin(), T{}); m.erase(m.begin()); m.shrink_to_fit(); m.clear(); std::vector<T, AL<T>> x(3, T{}, AL<T>{h}); std::vector<T, AL<T>> y({T{}, T{}}, AL<T>{h}); x.assign(y.begin(), y.end());"),
    ("list", "list", "std::list<T, AL<T>> v(AL<T>{h}); v.push_back(T{}); v.emplace_front(); auto w = v; w = v; auto m = std::move(v); m.splice(m.begin(), w); m.remove_if([](T const&) { return false; }); m.clear();"),
    ("forward_list", "forward_list", "std::forward_list<T, AL<T>> v(AL<T>{h}); v.push_front(T{}); auto w = v; w = v; auto m = std::move(v); m.insert_after(m.begin(), T{}); m.clear();"),
    ("deque", "deque", "std::deque<T, AL<T>> v(AL<T>{h}); v.push_back(T{}); v.push_front(T{}); auto w = v; w = v; auto m = std::move(v); m.pop_back(); m.resize(9); m.clear();"),
    ("map", "map", "std::map<int, T, std::less<>, AL<std::pair<int const, T>>> v(AL<std::pair<int const, T>>{h}); v[1] = T{}; v.emplace(2, T{}); auto w = v; w = v; auto m = std::move(v); m.erase(1); m.clear();"),
    ("multimap", "map", "std::multimap<int, T, std::less<>, AL<std::pair<int const, T>>> v(AL<std::pair<int const, T>>{h}); v.emplace(2, T{}); auto w = v; auto m = std::move(v); m.erase(1);"),
    ("set", "set", "std::set<int, std::less<>, AL<int>> v(AL<int>{h}); v.insert(1); auto w = v; w = v; auto m = std::move(v); m.erase(1);"),
    ("multiset", "set", "std::multiset<int, std::less<>, AL<int>> v(AL<int>{h}); v.insert(1); auto m = std::move(v); m.erase(1);"),
    ("unordered_map", "unordered_map", "std::unordered_map<int, T, std::hash<int>, std::equal_to<>, AL<std::pair<int const, T>>> v(AL<std::pair<int const, T>>{h}); v[1] = T{}; v.rehash(10); auto w = v; w = v; auto m = std::move(v); m.erase(1);"),
    ("unordered_set", "unordered_set", "std::unordered_set<int, std::hash<int>, std::equal_to<>, AL<int>> v(AL<int>{h}); v.insert(1); auto w = v; auto m = std::move(v); m.erase(1);"),
    ("string", "string", "std::basic_string<char, std::char_traits<char>, AL<char>> s(AL<char>{h}); s += \"abc\"; s.append(100, 'x'); auto w = s; w = s; auto m = std::move(s); m.shrink_to_fit();"),
    ("allocate_shared", "memory", "auto sp = std::allocate_shared<T>(AL<T>{h}); auto sq = sp; sp.reset(); std::shared_ptr<T> r(static_cast<T*>(nullptr), [](T*) {}, AL<T>{h});"),
    ("queue and stack", "queue>\n#include <stack>\n#include <vector", "std::queue<T, std::deque<T, AL<T>>> q(AL<T>{h}); q.push(T{}); q.pop(); std::stack<T, std::vector<T, AL<T>>> s(AL<T>{h}); s.push(T{}); std::priority_queue<int, std::vector<int, AL<int>>> pq(AL<int>{h}); pq.push(1);"),
    ("nested containers", "vector>\n#include <string", "using S = std::basic_string<char, std::char_traits<char>, AL<char>>; std::vector<S, AL<S>> v(AL<S>{h}); v.emplace_back(AL<char>{h}); auto w = v;"),
    ("vector<bool>", "vector", "std::vector<bool, AL<bool>> v(AL<bool>{h}); v.push_back(true); v.resize(70); auto w = v;"),
    ("its own operations", "memory", """AL<T> a{h}; AL<T> b = a; AL<T> c = std::move(b); AL<char> d{a}; AL<T> e{d};
  T* q = a.allocate(3); a.deallocate(q, 3); a.deallocate(q);
  AL<T> const k{h}; bool r = a == c && k == a && a == d && k == d && !(a != c) && !(k != d); (void)r;
  using R = typename AL<T>::template rebind<double>::other; static_assert(std::is_same_v<R, AL<double>>); R z{a};
  using TR = std::allocator_traits<AL<T>>; static_assert(std::is_same_v<typename TR::value_type, T>); T* t = TR::allocate(a, 2); TR::construct(a, t); TR::destroy(a, t); TR::deallocate(a, t, 2);
  auto sel = TR::select_on_container_copy_construction(k); auto mx = TR::max_size(k); (void)mx; static_assert(!TR::is_always_equal::value);"""),
]:
    for t in ("int", "item"):
        if t == "item" and "T" not in code.replace("AL<T>", "AL<T>") or t == "item" and nm in ("set", "multiset", "unordered_set", "string", "vector<bool>", "nested containers"):
            continue
        p("static_heap_allocator", f"{nm} of {t}", A + "static_heap_allocator.hpp",
          f"#include <{inc}>\n" + ALLOC + f"struct item {{ item(); item(int); item(item const&); item(item&&); item& operator=(item const&); item& operator=(item&&); ~item(); int a, b; }};\nusing T = {t};\nvoid use(static_heap<4096>& h) {{ {code} }}\n")

# ---- cache ---------------------------------------------------------------------------------------------------------
for k, v, inc in [("int", "int", ""), ("std::string", "std::string", ""), ("int", "std::vector<int>", "#include <vector>\n"), ("std::string", "plain", ""), ("int", "nodefault", ""),
                  ("key", "int", ""), ("char const*", "double", ""), ("int", "std::shared_ptr<int>", "#include <memory>\n")]:
    for ex in ("", ", true", ", false"):
        p("lru", f"lru<{k}, {v}, N{ex}>: every operation", C + "lru.hpp", inc + f"""
struct plain {{ int a; double b; }};
struct nodefault {{ explicit nodefault(int); int a; }};
struct key {{ int a; bool operator==(key const&) const = default; }};
template <> struct std::hash<key> {{ std::size_t operator()(key const& k) const {{ return k.a; }} }};
using namespace std::literals;
using K = {k}; using VV = {v};
template <std::size_t N> void use(K k, VV const& v) {{
  xitren::cache::lru<K, VV, N{ex}> c{{1s}}; xitren::cache::lru<K, VV, N{ex}> d(20ms);
  c.put(k, v); c.put(k, VV(v));
  auto r = c.get(k); if (r) {{ VV const& got = std::get<1>(*r); (void)got; K const& kk = std::get<0>(*r); (void)kk; }}
  bool h = c.get(k).has_value(); (void)h;
  auto const& cc = c; auto e = cc.expired_after(); bool b = e == std::chrono::seconds(1); (void)b;
}}
template void use<1>(K, VV const&); template void use<8>(K, VV const&); template void use<100000>(K, VV const&);
""")
p("exceptions", "cache exceptions can be thrown and caught", C + "exceptions.hpp", """
using namespace xitren::cache;
char const* f() { try { throw cache_timeout(); } catch (std::exception const& e) { return e.what(); } }
char const* g() { try { throw cache_missed{}; } catch (cache_missed const& e) { return e.what(); } }
""")

# ---- observers -----------------------------------------------------------------------------------------------------
TYPES = """
#include <string>
#include <memory>
struct plain { int a; double b; };
struct nocopy { nocopy() = default; nocopy(nocopy const&) = delete; int a; };
struct abstract { virtual void f() const = 0; virtual ~abstract() = default; };
"""
for t in ("int", "std::uint8_t", "std::string", "plain", "nocopy", "abstract", "void*", "std::unique_ptr<int>", "bool"):
    for form, add, exc in [(f"observable<{t}>", "auto e =", 0), (f"observable<{t}, true, 3>", "auto e =", 0), (f"observable_static<{t}, 5>", "auto e =", 0), (f"observable<{t}, false>", "", 1),
                           (f"observable_dynamic<{t}>", "", 1)]:
        p("observable", f"{form}: every operation", M + "observer.hpp", TYPES + f"""
using namespace xitren::comm;
using T = {t}; using O = {form};
struct obs : observer<T> {{ void data(void const*, T const&) override {{}} }};
struct obs2 : observer<T> {{ void disconnect(void const*) override {{}} protected: void data(void const*, T const&) override {{}} }};
struct sub : O {{}};
void use(O& o, sub& s, T const& v) {{
  static_assert(std::is_same_v<O::observable_type, T>); O::size_type n{{}}; (void)n; O::observer_list l{{}}; (void)l;
  obs a; obs2 b; observer<T>& r = b; observer<T> const& cr = a;
  {{ {add.replace('=', '= o.add_observer(a) ;').strip() if add else 'o.add_observer(a);'} }}
  o.add_observer(r); s.add_observer(a);
  o.remove_observer(cr); o.remove_observer(b);
  o.notify_observers(v); s.notify_observers(v); o.clear_observers();
  r.notification(&o, v); r.disconnect(&o);
  {"try { o.remove_observer(a); } catch (O::exception const& e) { bool k = e.error == observer_errors::not_found; (void)k; } try { o.remove_observer(a); } catch (std::exception const&) {} O::exception x{observer_errors::ok}; (void)x;" if exc else "observer_errors x = o.notify_observers(v); bool k = x == observer_errors::notify_recursion_detected || o.remove_observer(a) == observer_errors::not_found; (void)k; static_assert(O::max_observers > 0);"}
}}
void make(T const& v) {{ O o; O p{{}}; sub s; use(o, s, v); std::unique_ptr<O> u(new sub); }}
""")
p("observer_errors", "every error can be named and printed", M + "observer_errors.hpp", """
using namespace xitren::comm;
bool f(observer_errors e) { switch (e) { case observer_errors::ok: case observer_errors::list_is_full: case observer_errors::already_contains: case observer_errors::not_found:
 case observer_errors::internal_data_broken: case observer_errors::notify_recursion_detected: return true; default: return false; } }
""")
for t in ("int", "std::string", "plain", "nocopy", "abstract"):
    for n in (1, 2, 5):
        p("observable (static)", f"observer_static: observable of {t} with {n} observers", M + "observer_static.hpp", TYPES + f"""
using namespace xitren::comm;
using T = {t};
struct oa : observer<T, oa> {{ void notification_impl(observable_impl<T> const&, T const&) {{}} }};
struct ob : observer<T, ob> {{ int n{{}}; void notification_impl(auto const&, auto const&) {{ ++n; }} }};
void use(T const& v) {{
  oa a, a2; ob b;
  observable<T, {', '.join(['oa', 'ob', 'oa', 'ob', 'oa'][:n])}> o({', '.join(['a', 'b', 'a2', 'b', 'a'][:n])});
  o.notify(v); observable_impl<T>& r = o.root; a.notification(r, v);
}}
""")

# ---- published values ------------------------------------------------------------------------------------------------
VAL = """
#include <string>
struct pod { int a; int b; };
using namespace xitren::comm;
namespace vv = xitren::comm::values;
"""
for t in ("int", "std::uint8_t", "std::int64_t", "std::uint32_t", "short", "double", "float", "bool", "pod", "char const*", "unsigned long long"):
    p("observed", f"observed<{t}>: every operation", V + "observed.hpp", VAL + f"""
using T = {t};
struct sub : vv::observed<T> {{ using vv::observed<T>::observed; void disconnect(void const*) override {{}} void mine(T v) {{ data(this, v); }} }};
void fn(T const);
void use(T v) {{
  vv::observed<T> a; vv::observed<T> b{{[](T const) {{}}}}; vv::observed<T> c([&](auto) {{ }}); vv::observed<T> d{{&fn}}; sub s; sub s2{{[](T) {{}}}};
  a.on_update([](T const) {{}}); a.on_update(&fn); a.on_update(nullptr); T x = a.value(); (void)x;
  a.notification(nullptr, v); a.disconnect(&a); s.mine(v);
}}
""")
    num = t not in ("bool", "pod", "char const*")
    for form, dyn in ((f"vv::observable<{t}, 8>", 0), (f"vv::observable<{t}, 1>", 0), (f"vv::observable<{t}, 0>", 1)):
        p("values::observable", f"{form.replace('vv::', '')}: every operation", V + "observable.hpp", VAL + f"""
using T = {t}; using O = {form};
struct sub : O {{ using O::operator=; }};
void use(O& o, sub& s, T v) {{
  static_assert(std::is_same_v<O::observable_type, T>); O::size_type n{{}}; (void)n; O::observer_list l{{}}; (void)l;
  T a = o.value(); a = (o = v); s = v;
  {"a = o++; a = o--; a = ++o; a = --o; a = (o += 3); a = (o -= 3); s++; ++s; s += 1;" if num else ""}
  vv::observed<T> w; vv::observed<T> const& cw = w;
  o.add_observer(w); o.remove_observer(w); o.remove_observer(cw); o.notify_observers(v); o.clear_observers();
  observer_errors e = o.add_observer(w); e = o.remove_observer(w); e = o.notify_observers(v); bool k = e == observer_errors::not_found; (void)k; {"" if dyn else "static_assert(O::max_observers == " + form.split(", ")[1][:-1] + ");"}
}}
void make(T v) {{ O o; O p{{}}; sub s; use(o, s, v); }}
""")
    if t in ("int", "pod"):
        for form in (f"vv::observable<{t}, 8>", f"vv::observable<{t}, 0>"):
            for op in [("assignment", "o = v")] + ([("post-increment", "o++"), ("post-decrement", "o--"), ("pre-increment", "++o"), ("pre-decrement", "--o"), ("addition", "o += 3"), ("subtraction", "o -= 3")] if num else []):
                p("values::observable volatile", f"{form.replace('vv::', '')}: volatile {op[0]}", V + "observable.hpp", VAL + f"""
using T = {t}; using O = {form};
void use(O volatile& o, T v) {{ T r = ({op[1]}); (void)r; }}
""")
p("values pre_def", "the forward declaration agrees with the definition", V + "pre_def.hpp", """
#include <xitren/comm/values/observable.hpp>
xitren::comm::values::observable<int, 3>* p = nullptr;
""")

# ---- mediator -------------------------------------------------------------------------------------------------------
MED = """
#include <memory>
using namespace xitren::comm;
struct d1 { int i1; }; struct d2 { int i1; int i2; }; struct d3 { double d; char c[3]; };
struct dinit { int a{5}; std::uint16_t b{7}; };
class dcls { public: int x; }; enum class en : std::uint8_t { a, b };
"""
for s, rs in [("d1", ["d2"]), ("d2", ["d3"]), ("d3", ["d2", "d1"]), ("d1", []), ("d1", ["d1"]), ("dinit", ["dinit", "d1"]), ("int", ["double", "en"]), ("en", ["int"]), ("dcls", ["d1", "d2", "d3", "int", "en"]), ("dinit", ["d2"]),
              ("std::array<int, 4>", ["std::array<int, 4>"])]:
    ov = "".join(f"  void data({r} const&) override {{}}\n" for r in rs)
    p("mediator module", f"module<{', '.join([s] + rs)}>: every operation", M + "mediator.hpp", MED + f"""
using Mod = module<{', '.join([s] + rs)}>;
struct m : Mod {{
  explicit m(base::manager& b) : Mod(b) {{}}
{ov}  void go() {{ {s} a{{}}; send(a); this->send({s}{{}}); std::uint8_t raw[sizeof({s})]{{}}; base::module& bm = *this; bm.receive(1, raw, sizeof raw); }}
}};
struct pm : protected Mod {{
  explicit pm(base::manager& b) : Mod(b) {{}}
{ov}  void go() {{ send({s}{{}}); }}
}};
void use() {{ manager<5> mg; m a(mg); m b{{mg}}; pm c(mg); a.go(); c.go(); a.send({s}{{}}); std::unique_ptr<base::module> u = std::make_unique<m>(mg); std::uint8_t raw[4]{{}}; u->receive(u->id_, raw, 4); }}
""")
for n in (1, 5, 64):
    p("mediator manager", f"manager<{n}>: every operation", M + "mediator.hpp", MED + f"""
using G = manager<{n}>;
struct m : module<d1, d2> {{ explicit m(base::manager& b) : module(b) {{}} void data(d2 const&) override {{}} }};
struct g2 : G {{ void data(std::size_t, std::uint8_t* p, std::size_t n) override {{ if (n == sizeof(d1)) (void)convert_field<d1>(p, n); }} }};
void use(G& g, g2& h, std::uint8_t* p) {{
  m a(g); base::manager& bg = g; base::module& bm = a;
  g.send(d3{{}}); g.send(d1{{1}}); g.send(5); g.send(dinit{{}}); g.send(en::a); d2 x{{}}; g.send(x); d2 const y{{}}; g.send(y);
  bg.remove_module(bm); bg.add_module(bm); bg.distribute(bm, p, 4); g.data(1, p, 4);
  d1 q = g.convert_field<d1>(p, 4); int i = g.template convert_field<int>(p, 4); dinit z = h.convert_field<dinit>(p, 8); en e = h.convert_field<en>(p, 1); (void)q; (void)i; (void)z; (void)e;
}}
void make(std::uint8_t* p) {{ G g; g2 h; use(g, h, p); std::unique_ptr<base::manager> u = std::make_unique<G>(); }}
""")

# ---- pipelines --------------------------------------------------------------------------------------------------------
PIPE = """
#include <ostream>
#include <string>
#include <vector>
struct stream { template <class T> stream& operator<<(T const&) { return *this; } };
struct log { static std::ostream& trace(); static std::ostream& debug(); static std::ostream& warning(); static std::ostream& error(); };
struct vlog { static stream trace(); static stream debug(); static stream warning(); static stream error(); };
struct item { int a; std::string s; };
struct nodefault { explicit nodefault(int); int a; };
using namespace xitren::comm;
"""
for t in ("int", "std::string", "item", "nodefault", "std::vector<int>", "char const*"):
    for r in ("void", "int", "std::string"):
        for lg in ("log", "vlog"):
            for dbg in ("", "DEBUG"):
                if lg == "vlog" and (r != "void" or t not in ("int", "std::string")):
                    continue
                ret = "" if r == "void" else f"return {r}{{}};"
                tag = " with DEBUG" if dbg else ""
                pre = "//define DEBUG\n" if dbg else ""
                p("pipeline_stage", f"pipeline_stage<{t}, {r}, N, {lg}>: every operation{tag}", M + "pipeline_stage.hpp", pre + PIPE + f"""
using T = {t};
template <std::size_t N> void use(T const& v, T const&& rv) {{
  using S = pipeline_stage<T, {r}, N, {lg}>;
  S a{{[](pipeline_stage_exception e, T const, std::pair<int, int> const m) -> {r} {{ (void)m.first; bool k = e == pipeline_stage_exception::no_error; (void)k; {ret} }}}};
  S b([&](auto, auto const&, auto) -> {r} {{ a.push(v); {ret} }});
  a.push(v); a.push(static_cast<T const&&>(rv)); a.push(T(v));
  S const& c = a; int t = c.time_for_unit(), u = c.buffer_utilization(); (void)t; (void)u;
}}
template void use<1>(T const&, T const&&); template void use<1024>(T const&, T const&&);
""")
                p("pipeline_stage_pool", f"pipeline_stage_pool<{t}, {r}, N, M, {lg}>: every operation{tag}", M + "pipeline_stage_pool.hpp", pre + PIPE + f"""
using T = {t};
template <std::size_t N, std::size_t K> void use(T const& v, T const&& rv) {{
  using S = pipeline_stage_pool<T, {r}, N, K, {lg}>;
  S a{{[](pipeline_stage_exception e, T const, measure_data const m) -> {r} {{ (void)(m.id + m.time + m.load); bool k = e == pipeline_stage_exception::no_error; (void)k; {ret} }}}};
  S b([&](auto, auto const&, auto) -> {r} {{ a.push(v); {ret} }});
  a.push(v); a.push(static_cast<T const&&>(rv)); a.push(T(v));
}}
template void use<1, 1>(T const&, T const&&); template void use<1024, 8>(T const&, T const&&);
""")

# ---- func -------------------------------------------------------------------------------------------------------------
p("log_adapter", "a logger satisfies the concept, another type does not", F + "log_adapter.hpp", """
struct log { static int trace(); static int debug(); static int warning(); static int error(); };
struct other {};
static_assert(xitren::func::log_adapter_concept<log>); static_assert(!xitren::func::log_adapter_concept<other>);
""")
p("interval_event", "every operation", F + "interval_event.hpp", """
using namespace xitren::func; using namespace std::literals;
struct functor { int n; void operator()() { ++n; } };
void fn();
void use(interval_event& e, interval_event const& c) {
  e.stop(); std::thread const& t = c.thread(); (void)t; std::chrono::milliseconds p = c.period(), q = c.period_between_checks();
  e.period(p); e.period(5ms); e.period(1s); e.period_between_checks(q); e.period_between_checks(std::chrono::milliseconds(2));
}
void make(int n) {
  interval_event a([&] { ++n; }, 10ms, 1ms); interval_event b{[] {}}; interval_event c{&fn, 1s}; interval_event d{functor{1}, std::chrono::milliseconds(7)}; use(a, b); use(c, d);
}
""")
for o in ("struct O { std::string s{}; int i{}; double d{}; bool b{}; };", "struct O { std::string s; int i; double d; bool b; O() : i(1) {} };", "struct base { int i{}; }; struct O : base { std::string s; double d; bool b; virtual ~O() = default; };"):
    p("argv_parser", "every operation: " + o[:40], F + "argv_parser.hpp", o + """
using namespace xitren::func;
O use(int argc, char const* argv[], char* main_argv[]) {
  auto a = argv_parser<O>::instance({{"--s", &O::s}, {"--d", &O::d}, {"--b", &O::b}});
  std::unique_ptr<argv_parser<O>> b = argv_parser<O>::instance({}); O r = b->parse(argc, const_cast<char const**>(main_argv)); O const& as_opts = *a; (void)as_opts; a->s = "x";
  return a->parse(argc, argv);
}
""")
BYT = """
#include <vector>
#include <deque>
#include <list>
#include <forward_list>
#include <iterator>
#include <span>
#include <string>
#include <sstream>
#include <type_traits>
struct pod { std::uint8_t a; std::uint32_t b; };
struct __attribute__((packed)) pk { std::uint8_t a; std::uint32_t b; };
struct init { int a{3}; };
enum class en : std::uint16_t { x };
using namespace xitren::func;
"""
for t in ("std::uint8_t", "std::uint16_t", "int", "double", "pod", "pk", "init", "en", "char*", "lsb_t<std::uint32_t>", "msb_t<std::uint64_t>", "std::array<std::uint16_t, 3>", "bool"):
    p("data", f"data<{t}>: every operation", F + "data.hpp", BYT + f"""
using T = {t};
void use(T const& v, std::vector<std::uint8_t>& w, std::uint8_t* p, std::array<std::uint8_t, sizeof(T)>& arr, std::deque<std::uint8_t> const& dq, std::string const& s) {{
  data<T> d{{v}}; d.fields = v; d.pure = arr; data<T> e{{}}; e = d;
  std::array<std::uint8_t, sizeof(T)> a = data<T>::serialize(v); (void)a;
  T x = data<T>::deserialize(p); x = data<T>::deserialize(static_cast<std::uint8_t const*>(p)); x = data<T>::deserialize(w.begin()); x = data<T>::deserialize(w.cbegin()); x = data<T>::deserialize(arr.begin());
  x = data<T>::deserialize(dq.begin()); x = data<T>::deserialize(s.begin()); x = data<T>::deserialize(std::span<std::uint8_t>(w).begin());
  data<T>::serialize(v, p); data<T>::serialize(v, w.begin()); data<T>::serialize(v, arr.begin()); data<T>::serialize(x, arr.data());
}}
""")
    p("data from a list", f"data<{t}>: any input iterator is accepted", F + "data.hpp", BYT + f"""
using T = {t};
void use(std::list<std::uint8_t>& l, std::forward_list<std::uint8_t> const& f, std::istringstream& is) {{
  T x = data<T>::deserialize(l.begin()); x = data<T>::deserialize(l.cbegin()); x = data<T>::deserialize(f.begin()); x = data<T>::deserialize(std::istreambuf_iterator<char>(is)); (void)x;
}}
""")
    p("data into a list", f"data<{t}>: bytes can be written through a list's iterators", F + "data.hpp", BYT + f"""
using T = {t};
void use(T const& v, std::list<std::uint8_t>& l) {{ data<T>::serialize(v, l.begin()); }}
""")
p("swap", "swap of each width, also in constant expressions", F + "data.hpp", """
using namespace xitren::func;
std::uint16_t a(std::uint16_t v) { return swap(v); } std::uint32_t b(std::uint32_t v) { return swap(v); } std::uint64_t c(std::uint64_t v) { return swap(v); }
static_assert(std::is_same_v<decltype(swap(std::uint16_t{})), std::uint16_t> && std::is_same_v<decltype(swap(std::uint32_t{})), std::uint32_t> && std::is_same_v<decltype(swap(std::uint64_t{})), std::uint64_t>);
bool k = is_lsb();
""")
for c in ("lsb_t", "msb_t"):
    for w in (16, 32, 64):
        p(c, f"{c}<uint{w}_t>: every operation", F + "data.hpp", f"""
#include <type_traits>
using namespace xitren::func;
using U = std::uint{w}_t; using W = {c}<U>;
static_assert(std::is_same_v<W::data_type, U>); static_assert(sizeof(W) == sizeof(U) && alignof(W) == 1); static_assert(std::is_trivially_copyable_v<W>);
U const cu = 7; U const make_const();
bool use(W& a, W const& b, U v) {{
  W c; W d{{}}; W e{{v}}; W f(v); W g = v; W h{{cu}}; W i{{make_const()}}; W j(U{{5}}); W k(b); W l(static_cast<W&&>(c)); W m = b;
  a = v; a = U{{3}}; a = b; a = W{{v}}; (a = v) = cu; W& r = (a = v); d = e = f;
  U x = a.get(); x = b.get(); x = W{{v}}.get(); (void)x; (void)r;
  bool q = a == b && b == a && b == b && a == W{{v}} && W{{v}} == b; q = q && a < b && b < a && b < b; q = q && a > b && b > a && b > b; q = q && a <= b && b <= a && b <= b; q = q && a >= b && b >= a && b >= b; q = q && a != b && b != b;
  return q && a == v && b == v && b < v && b > v && b <= v && b >= v && b != v;
}}
constexpr W dflt{{}}; void cst() {{ W const k; (void)k.get(); (void)dflt.get(); }}
void arr(W (&x)[4]) {{ x[1] = U{{2}}; }}
struct __attribute__((__packed__)) frame {{ std::uint8_t a; W b; }}; static_assert(sizeof(frame) == 1 + sizeof(U)); U g(frame const& f) {{ return f.b.get(); }} void s(frame& f, U v) {{ f.b = v; }}
""")
PIM = """
#include <type_traits>
#include <string>
struct full { full(); full(int); full(int, char*); full(full const&); full(full&&); full& operator=(full const&); full& operator=(full&&); ~full(); void m(); int k() const; };
struct mvonly { mvonly(); mvonly(mvonly&&); mvonly& operator=(mvonly&&); int x; };
struct pinned { pinned() = default; explicit pinned(int); pinned(pinned const&) = delete; pinned& operator=(pinned const&) = delete; int x; };
struct agg { int a; int b; };
using namespace xitren::func;
"""
p("fast_pimpl", "every operation on a copyable type", F + "fast_pimpl.hpp", PIM + """
template <std::size_t S, std::size_t A, bool ST> void use(char* c) {
  using H = fast_pimpl<full, S, A, ST>; static_assert(std::is_same_v<typename H::type, full> && std::is_same_v<typename H::pointer, full*> && std::is_same_v<typename H::const_pointer, full const*> && std::is_same_v<typename H::reference, full&> && std::is_same_v<typename H::const_reference, full const&>);
  H a; H b{}; H d{5}; H e(5, c); H f(b); H g(std::move(b)); H const h(a); H i(h); full v; H j(v); H k(std::move(v)); full const w; H l(w);
  a = d; a = h; a = std::move(d); a->m(); (*a).m(); int n = h->k() + (*h).k(); (void)n;
}
template void use<16, 8, false>(char*); template void use<1, 1, true>(char*); template void use<4096, 64, false>(char*);
""")
p("fast_pimpl", "a move-only type can be held", F + "fast_pimpl.hpp", PIM + "void use() { using H = fast_pimpl<mvonly, 8, 8>; H a; H b(std::move(a)); a = std::move(b); a->x = 1; mvonly m; H c(std::move(m)); (*c).x = 2; static_assert(std::is_move_constructible_v<H> && std::is_move_assignable_v<H>); }\n")
p("fast_pimpl", "a type that cannot be copied or moved can be held", F + "fast_pimpl.hpp", PIM + "void use() { using H = fast_pimpl<pinned, 8, 8>; H a; H b{3}; a->x = 1; H const c(4); int n = c->x; (void)n; }\n")
p("fast_pimpl", "the held type may be incomplete in the header", F + "fast_pimpl.hpp", """
struct impl;
class owner { public: owner(); owner(owner const&); owner(owner&&); owner& operator=(owner const&); owner& operator=(owner&&); ~owner(); int get() const; private: xitren::func::fast_pimpl<impl, 32, 8> p_; };
void client(owner& o) { owner a(o); a = o; (void)a.get(); }
struct impl { int x{}; double d{}; };
owner::owner() = default; owner::owner(owner const&) = default; owner::owner(owner&&) = default; owner& owner::operator=(owner const&) = default; owner& owner::operator=(owner&&) = default; owner::~owner() = default; int owner::get() const { return p_->x; }
""")
p("fast_pimpl", "plain and standard types can be held", F + "fast_pimpl.hpp", PIM + "void use() { fast_pimpl<std::string, 64, 8> s; fast_pimpl<std::string, 64, 8> t{\"abc\"}; s = t; s->push_back('x'); fast_pimpl<int, 4, 4, true> i{3}; *i = 4; fast_pimpl<int, 4, 4, true> j(i); j = i; }\n")

CRC = """
#include <vector>
#include <list>
#include <deque>
#include <forward_list>
#include <sstream>
#include <iterator>
struct crc_lsb { using value_type = xitren::func::lsb_t<std::uint16_t>; template <class It> static constexpr value_type calculate(It b, It e) noexcept { std::uint16_t s = 0; for (; b != e; ++b) s = static_cast<std::uint16_t>(s * 31 + *b); return value_type{s}; } };
struct crc_msb { using value_type = xitren::func::msb_t<std::uint32_t>; template <class It> static constexpr value_type calculate(It b, It e) noexcept { std::uint32_t s = 0; for (; b != e; ++b) s = s * 31 + *b; return value_type{s}; } };
struct crc_int { using value_type = std::uint16_t; template <class It> static constexpr value_type calculate(It b, It e) noexcept { std::uint16_t s = 0; for (; b != e; ++b) s = static_cast<std::uint16_t>(s + *b); return s; } };
struct crc_byte { using value_type = std::uint8_t; template <class It> static constexpr value_type calculate(It b, It e) noexcept { std::uint8_t s = 0; for (; b != e; ++b) s = static_cast<std::uint8_t>(s ^ *b); return s; } };
struct hdr { std::uint8_t magic[2]; };
struct noise { static inline hdr header = {'N', 'O'}; std::uint16_t data; };
struct adc { static inline hdr header = {'L', 'N'}; std::uint16_t data[11]; };
struct __attribute__((packed)) wide { std::uint8_t a; xitren::func::msb_t<std::uint32_t> b; };
using namespace xitren::func;
"""
for h, f in (("hdr", "noise"), ("hdr", "adc"), ("std::uint8_t", "wide"), ("lsb_t<std::uint16_t>", "std::array<std::uint8_t, 5>")):
    for c in ("crc_lsb", "crc_msb", "crc_int", "crc_byte"):
        p("packet", f"packet<{h}, {f}, {c}>: every operation", F + "packet.hpp", CRC + f"""
using H = {h}; using Fd = {f}; using C = {c}; using Pk = packet<H, Fd, C>; static_assert(crc_concept<C>);
void use(H const& h, Fd const& f, std::vector<std::uint8_t>& v, std::uint8_t* p, std::array<std::uint8_t, 128> const& big, std::deque<std::uint8_t> const& dq) {{
  Pk a; Pk b{{}}; Pk d(h, f); Pk e(d.to_array()); Pk g(p); Pk i(v.begin()); Pk j(v.cbegin()); Pk k(big.begin()); Pk l(dq.begin()); Pk m(d); m = d; Pk const q(d);
  a.header() = h; a.fields() = f; a.crc() = d.crc(); H const& ch = q.header(); Fd const& cf = q.fields(); typename C::value_type const& cc = q.crc(); (void)ch; (void)cf; (void)cc;
  bool ok = a.valid(); typename Pk::array_type arr = q.to_array(); arr = Pk::serialize(h, f); static_assert(Pk::length == sizeof(arr)); typename Pk::size_type n = Pk::length; (void)n;
  auto t = Pk::deserialize(arr); ok = ok && std::get<0>(t); H th = std::get<1>(t); Fd tf = std::get<2>(t); (void)th; (void)tf; auto [x, y, z] = Pk::deserialize(big); (void)x; (void)y; (void)z;
  Pk s = Pk::deserialize(p); s = Pk::deserialize(v.begin()); s = Pk::deserialize(v.cbegin()); s = Pk::deserialize(dq.begin()); s = Pk::deserialize(arr.begin());
  Pk::serialize(q, p); Pk::serialize(q, v.begin()); Pk::serialize(a, std::back_inserter(v)); Pk::serialize(a, arr.begin());
}}
""")
        p("packet from a list", f"packet<{h}, {f}, {c}>: any input iterator is accepted", F + "packet.hpp", CRC + f"""
using Pk = packet<{h}, {f}, {c}>;
void use(std::list<std::uint8_t>& l, std::forward_list<std::uint8_t> const& f, std::istringstream& is) {{ Pk a(l.begin()); Pk b(l.cbegin()); Pk c(f.begin()); Pk d(std::istreambuf_iterator<char>{{is}}); Pk e = Pk::deserialize(l.begin()); e = Pk::deserialize(std::istreambuf_iterator<char>(is)); Pk::serialize(e, l.begin()); }}
""")
        for t in ("std::uint8_t", "std::uint16_t", "lsb_t<std::uint32_t>", "wide"):
            p("packet_accessor", f"packet_accessor with {h}, {f}, {t}, {c}: every operation", F + "packet.hpp", CRC + f"""
using H = {h}; using Fd = {f}; using C = {c}; using T = {t};
template <std::size_t Max> bool use(H const& h, Fd const& f, T const* q, std::size_t n) {{
  using A = packet_accessor<Max>; A a; A b{{}}; A const& k = a; b = a;
  using In = typename A::template fields_in<H, Fd, T>; In in{{h, f, n, q}};
  bool ok = a.template serialize<H, Fd, T, C>(in); ok = a.template serialize<H, Fd, T, C>({{h, f, n, q}}) && ok;
  auto r = k.template deserialize<H, Fd, T, C>(); H x = r.header; Fd y = r.fields; ok = ok && r.valid; n = r.size; q = r.data; (void)x; (void)y;
  auto s = k.template deserialize_no_check<H, Fd, T, C>(); H const* xp = s.header; Fd const* yp = s.fields; n = s.size; q = s.data; (void)xp; (void)yp;
  a.size(5); n = k.size(); typename A::array_type& st = a.storage(); typename A::array_type const& cs = k.storage(); (void)st; (void)cs;
  return ok;
}}
template bool use<64>(H const&, Fd const&, T const*, std::size_t); template bool use<256>(H const&, Fd const&, T const*, std::size_t);
""")

# ---- whole templates -----------------------------------------------------------------------------------------------------
# Every member at once; an error counts where it lies in a public member.
E = []


def e(name, hdr, code):
    E.append((name, hdr, code))


e("static_heap", A + "static_heap.hpp", "template class xitren::allocators::static_heap<256>; template class xitren::allocators::static_heap<1000>;")
e("static_heap_allocator", A + "static_heap_allocator.hpp", "struct item { item(int); item(item const&); ~item(); }; template class xitren::allocators::static_heap_allocator<int, 256>; template class xitren::allocators::static_heap_allocator<item, 64>; template class xitren::allocators::static_heap_allocator<char, 4096>;")
e("lru", C + "lru.hpp", "template class xitren::cache::lru<int, std::string, 8>; template class xitren::cache::lru<std::string, double, 1, false>;")
e("observer", M + "observer.hpp", "#include <string>\nstruct nc { nc(nc const&) = delete; }; template class xitren::comm::observer<nc>; template class xitren::comm::observer<std::string>; template class xitren::comm::observable<nc, true, 3>; template class xitren::comm::observable<std::string>; template class xitren::comm::observable<nc, false>; template class xitren::comm::observable<int, false>;")
e("observer_static", M + "observer_static.hpp", "using namespace xitren::comm; struct o : observer<int, o> { void notification_impl(observable_impl<int> const&, int const&) {} }; template class xitren::comm::observer<int, o>; template class xitren::comm::observable<int, o>; template class xitren::comm::observable<int, o, o, o>; template class xitren::comm::observable_impl<int>;")
e("observed", V + "observed.hpp", "struct pod { int a; }; template class xitren::comm::values::observed<int>; template class xitren::comm::values::observed<double>; template class xitren::comm::values::observed<pod>;")
e("mediator", M + "mediator.hpp", "struct d1 { int a; }; struct d2 { double b; }; template class xitren::comm::receiver_impl<d1>; template class xitren::comm::module<d1, d2>; template class xitren::comm::module<d1, d1>; template class xitren::comm::module<d2>; template class xitren::comm::module<int, d1, d2, char>; template class xitren::comm::manager<1>; template class xitren::comm::manager<7>;")
e("pipeline_stage", M + "pipeline_stage.hpp", PIPE + "template class xitren::comm::pipeline_stage<int, void, 8, log>; template class xitren::comm::pipeline_stage<item, int, 1, vlog>; template class xitren::comm::pipeline_stage<nodefault, std::string, 1024, log>;")
e("pipeline_stage_pool", M + "pipeline_stage_pool.hpp", PIPE + "template class xitren::comm::pipeline_stage_pool<int, void, 8, 2, log>; template class xitren::comm::pipeline_stage_pool<item, int, 1, 1, vlog>; template class xitren::comm::pipeline_stage_pool<nodefault, std::string, 1024, 4, log>;")
e("argv_parser", F + "argv_parser.hpp", "struct O { std::string s; int i; double d; bool b; }; template struct xitren::func::argv_parser<O>;")
e("data", F + "data.hpp", "struct pod { int a; char b; }; template union xitren::func::data<int>; template union xitren::func::data<pod>; template union xitren::func::data<double>; template class xitren::func::lsb_t<std::uint16_t>; template class xitren::func::lsb_t<std::uint32_t>; template class xitren::func::lsb_t<std::uint64_t>; template class xitren::func::msb_t<std::uint16_t>; template class xitren::func::msb_t<std::uint32_t>; template class xitren::func::msb_t<std::uint64_t>;")
e("fast_pimpl", F + "fast_pimpl.hpp", PIM + "template class xitren::func::fast_pimpl<full, 16, 8>; template class xitren::func::fast_pimpl<std::string, 64, 8>; template class xitren::func::fast_pimpl<int, 4, 4, true>;")
e("packet", F + "packet.hpp", CRC + "template union xitren::func::packet<hdr, noise, crc_lsb>; template union xitren::func::packet<std::uint8_t, wide, crc_int>; template union xitren::func::packet<hdr, adc, crc_msb>; template class xitren::func::packet_accessor<16>; template class xitren::func::packet_accessor<256>;")
