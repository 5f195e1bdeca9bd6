PROPS = ["C33"]
D = "func/fast_pimpl.hpp"
def b(i, *e): return ("bad", i, ["C33"], D, list(e))
def g(i, *e): return ("good", i, [], D, list(e))
NEW = "        new (get()) type(std::forward<Args>(args)...);"
MV = ": fast_pimpl{std::move(*rhs)} {}"
CP = ": fast_pimpl{*rhs} {}"
DT = "        validator<sizeof(T), alignof(T)>::validate();\n        get()->~type();"
AC = "        *get() = *rhs;"
AM = "        *get() = std::move(*rhs);"
ST = "    std::aligned_storage_t<Size, Alignment> storage_;"
VS = "static_assert(Size >= ActualSize,"
VT = "static_assert(Size == ActualSize || !Strict,"
VA = "static_assert(Alignment % ActualAlignment == 0,"
G1 = "        return reinterpret_cast<pointer>(&storage_);"
G2 = "        return reinterpret_cast<const_pointer>(&storage_);"
DC = "    operator*() const noexcept\n    {\n        return *get();"
CASES = [
 b("pi-no-dtor", ("        get()->~type();\n", "")),
 b("pi-twice-dtor", ("        get()->~type();\n", "        get()->~type();\n        std::destroy_at(get());\n"), ("#include <new>", "#include <memory>\n#include <new>")),
 b("pi-no-forward", (NEW, "        new (get()) type(args...);")),
 b("pi-move-copies", (MV, ": fast_pimpl{*rhs} {}")),
 b("pi-copy-default", (CP, ": fast_pimpl{} { *get() = *rhs; rhs.get(); }".replace(" rhs.get();", ""))) if False else b("pi-bytes-copy", (CP, " { __builtin_memcpy(&storage_, &rhs.storage_, sizeof(storage_)); }")),
 b("pi-copy-moves", (CP, ": fast_pimpl{std::move(*const_cast<fast_pimpl&>(rhs))} {}")),
 b("pi-move-destroys", (MV, ": fast_pimpl{std::move(*rhs)} { rhs.get()->~type(); }")),
 b("pi-asg-construct", (AC, "        new (get()) type(*rhs);")),
 b("pi-asg-rebuild", (AC, "        get()->~type();\n        new (get()) type(*rhs);")),
 b("pi-asg-rebuild-guard", (AC, "        if (this != &rhs) {\n            get()->~type();\n            new (get()) type(*rhs);\n        }")),
 b("pi-asg-self", (AC, "        *get() = **this;")),
 b("pi-asg-nop", (AM, "        (void)rhs;")),
 b("pi-asg-bytes", (AM, "        storage_ = rhs.storage_;")),
 b("pi-align-args", (ST, "    std::aligned_storage_t<Alignment, Size> storage_;")) if False else b("pi-storage-unaligned", (ST, "    unsigned char storage_[Size];")),
 b("pi-storage-small", (ST, "    alignas(Alignment) unsigned char storage_[Size / 2 + 1];")),
 b("pi-no-size", (VS, "static_assert(Size >= ActualSize || !Strict,")),
 b("pi-size-gt", (VS, "static_assert(Size + 1 >= ActualSize,")),
 b("pi-size-gt2", (VS, "static_assert(Size > ActualSize,")),
 b("pi-no-strict", (VT, "static_assert(Size >= ActualSize || !Strict,")),
 b("pi-strict-always", (VT, "static_assert(Size == ActualSize,")),
 b("pi-align-div", (VA, "static_assert(ActualAlignment % Alignment == 0,")),
 b("pi-align-size", (VA, "static_assert(Size % ActualAlignment == 0,")),
 b("pi-align-exact", (VA, "static_assert(Alignment == ActualAlignment,")),
 b("pi-no-validate", ("        validator<sizeof(T), alignof(T)>::validate();\n", "")),
 b("pi-validate-swapped", ("validator<sizeof(T), alignof(T)>::validate();", "validator<alignof(T), alignof(T)>::validate();")),
 b("pi-class-assert", ("    using type = T;", "    using type = T;\n    static_assert(sizeof(T) <= Size);")),
 b("pi-deref-static", (DC, "    operator*() const noexcept\n    {\n        static fast_pimpl const* last = this;\n        return *last->get();")),
 b("pi-heap", (ST, "    pointer ptr_ = static_cast<pointer>(::operator new(sizeof(T)));\n    std::aligned_storage_t<Size, Alignment> storage_;"), (G1, "        return ptr_;"), (G2, "        return ptr_;")),
 b("pi-offset-const", (G2, "        return reinterpret_cast<const_pointer>(reinterpret_cast<char const*>(&storage_) + (Size - sizeof(T)));")),
 b("pi-clear-after", (NEW, NEW + "\n        if constexpr (Size > sizeof(T))\n            __builtin_memset(reinterpret_cast<char*>(&storage_) + sizeof(T) - 1, 0, Size - sizeof(T) + 1);")),
 g("pi-std-storage", (ST, "    alignas(Alignment) std::byte storage_[Size];"), ("#include <new>", "#include <cstddef>\n#include <new>")),
 g("pi-launder", (G1, "        return std::launder(reinterpret_cast<pointer>(&storage_));"), (G2, "        return std::launder(reinterpret_cast<const_pointer>(&storage_));")),
 g("pi-construct-at", (NEW, "        std::construct_at(get(), std::forward<Args>(args)...);"), ("        get()->~type();\n", "        std::destroy_at(get());\n"), ("#include <new>", "#include <memory>\n#include <new>")),
 g("pi-direct", (MV, " { new (get()) type(std::move(*rhs)); }"), (CP, " { new (get()) type(*rhs.get()); }")),
 g("pi-asg-guard", (AC, "        if (this != &rhs)\n            *get() = *rhs;")),
 g("pi-asg-guard2", (AM, "        if (&rhs == this) {\n            return *this;\n        }\n        **this = std::move(*rhs.get());")),
 g("pi-asg-temp", (AC, "        type tmp(*rhs);\n        *get() = std::move(tmp);")),
 g("pi-arrow-addr", ("    operator->() const noexcept\n    {\n        return get();", "    operator->() const noexcept\n    {\n        return std::addressof(**this);"), ("#include <new>", "#include <memory>\n#include <new>")),
 g("pi-clear-before", (NEW, "        storage_ = {};\n" + NEW)),
 g("pi-nonconst-get", (G1, "        return const_cast<pointer>(static_cast<fast_pimpl const*>(this)->get());")),
 g("pi-asserts-inline", ("        validator<sizeof(T), alignof(T)>::validate();\n", "        static_assert(sizeof(T) <= Size);\n        static_assert(!Strict || sizeof(T) == Size);\n        static_assert(Alignment % alignof(T) == 0);\n")),
 g("pi-member-first", (ST, ST + "\n    unsigned built_{1};")),
]
