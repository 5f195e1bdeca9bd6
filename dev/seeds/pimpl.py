D = "func/fast_pimpl.hpp"
H = r'''
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <cstring>
#include <set>
#include <string>
#include <xitren/func/fast_pimpl.hpp>
using namespace xitren::func;
#define CHECK(c) do { if (!(c)) { std::printf("broken: %s\n", #c); return 1; } } while (0)
'''
SEEDS = [
 ("c33-assign-rebuilds", "C33", D, [("        *get() = *rhs;\n", "        get()->~type();\n        new (get()) type(*rhs);\n")],
  H + r'''
struct res {
    static inline std::set<res const*> live{};
    static inline int wrong = 0;
    int v;
    explicit res(int x) : v{x} { live.insert(this); }
    res(res const& o) : v{o.v} { if (!live.count(&o)) wrong++; live.insert(this); }
    res& operator=(res const& o) { v = o.v; return *this; }
    ~res() { if (!live.erase(this)) wrong++; v = -1; }
};
int main() {
    {
        fast_pimpl<res, sizeof(res), alignof(res)> a{3}, b{4};
        a = b;
        auto& same = b;
        b = same;
        CHECK((*a).v == 4);
    }
    CHECK(res::wrong == 0 && res::live.empty());
    return 0;
}''', "assigning a holder to itself", "the object is destroyed and then copied from"),
 ("c33-move-copies", "C33", D, [("type{std::declval<type>()})) : fast_pimpl{std::move(*rhs)} {}", "type{std::declval<type>()})) : fast_pimpl{*rhs} {}")],
  H + r'''
struct res {
    static inline int copies = 0, moves = 0;
    res() {}
    res(res const&) { copies++; }
    res(res&&) { moves++; }
};
int main() {
    using P = fast_pimpl<res, 8, 8>;
    P a;
    P b(std::move(a));
    CHECK(res::moves == 1 && res::copies == 0);
    return 0;
}''', "moving a holder of a type whose copy and move differ", "moving copies"),
 ("c33-storage-cleared-late", "C33", D, [("        new (get()) type(std::forward<Args>(args)...);", "        auto* const self = new (get()) type(std::forward<Args>(args)...);\n        // the unused tail never shows old memory\n        auto* const tail = reinterpret_cast<unsigned char*>(self) + sizeof(type) / alignof(type) * alignof(type);\n        for (auto* p = tail - (Size > sizeof(type) ? 1 : 0); p != reinterpret_cast<unsigned char*>(&storage_) + Size; ++p)\n            *p = 0;")],
  H + r'''
struct __attribute__((__packed__)) rec { std::uint8_t b[13]; rec() { std::memset(b, 7, sizeof b); } };
int main() {
    fast_pimpl<rec, 13, 1, true> a;
    CHECK((*a).b[12] == 7);
    fast_pimpl<rec, 16, 4> b;
    CHECK((*b).b[0] == 7 && (*b).b[12] == 7);
    return 0;
}''', "a holder whose stated size is larger than the object", "the last byte of the object is overwritten after its construction"),
 ("c33-strict-rounded", "C33", D, [("            static_assert(Size == ActualSize || !Strict,", "            static_assert(Size / ActualAlignment == ActualSize / ActualAlignment || !Strict,")],
  H + r'''
#include <unistd.h>
static bool compiles(std::string const& dir, char const* args) {
    std::string f = dir + "/t.cpp";
    FILE* o = std::fopen(f.c_str(), "w");
    std::fprintf(o, "#include <cstddef>\n#include <xitren/func/fast_pimpl.hpp>\nstruct t { long a, b; };\nint main() { xitren::func::fast_pimpl<t, %s> p; (void)p; }\n", args);
    std::fclose(o);
    return std::system(("g++ -std=c++20 -fsyntax-only -w -I include " + f + " 2>/dev/null").c_str()) == 0;
}
int main() {
    char dir[] = "/tmp/c33-XXXXXX";
    if (!mkdtemp(dir)) return 2;
    bool ok = compiles(dir, "16, 8, true") && !compiles(dir, "20, 8, true") && !compiles(dir, "24, 8, true") && compiles(dir, "24, 8, false") && !compiles(dir, "8, 8, false");
    std::remove((std::string(dir) + "/t.cpp").c_str());
    rmdir(dir);
    CHECK(ok);
    return 0;
}''', "strict mode with a size that exceeds the object by less than its alignment", "a strict holder of the wrong size compiles"),
 ("c33-const-access-tail", "C33", D, [("        return reinterpret_cast<const_pointer>(&storage_);", "        // over-aligned holders keep the object at the end of the storage\n        return reinterpret_cast<const_pointer>(reinterpret_cast<unsigned char const*>(&storage_) + (Alignment > alignof(T) ? (sizeof(storage_) - sizeof(T)) / alignof(T) * alignof(T) : 0));")],
  H + r'''
int main() {
    fast_pimpl<int, 16, 4> a{5};
    auto const& ca = a;
    CHECK(*ca == 5 && &*ca == &*a);
    fast_pimpl<int, 16, 8> b{6};
    auto const& cb = b;
    CHECK(&*cb == &*b && *cb == 6);
    return 0;
}''', "a holder aligned more strictly than its object, read through a const reference", "const access refers to another place than the object"),
]
