// C29: the command-line parser.
#include <xitren/func/argv_parser.hpp>
#include <new>
#include <cstddef>
#ifdef VP_REORDERED
struct opts { bool b; double d; std::string s; int i; };
#else
struct opts { std::string s; int i; double d; bool b; };
#endif
using namespace xitren::func;
using parser = argv_parser<opts>;
template <class M, std::size_t I = 0>
constexpr unsigned long kind() { if constexpr (std::is_same_v<std::variant_alternative_t<I, parser::parameter_type>, M>) return I; else return kind<M, I + 1>(); }
extern "C" {
unsigned long vp_kind_s() { return kind<std::string opts::*>(); }
unsigned long vp_kind_i() { return kind<int opts::*>(); }
unsigned long vp_kind_d() { return kind<double opts::*>(); }
unsigned long vp_kind_b() { return kind<bool opts::*>(); }
unsigned long vp_kinds() { return std::variant_size_v<parser::parameter_type>; }
unsigned long vp_off_s() { return offsetof(opts, s); }
unsigned long vp_off_i() { return offsetof(opts, i); }
unsigned long vp_off_d() { return offsetof(opts, d); }
unsigned long vp_off_b() { return offsetof(opts, b); }
unsigned long vp_size() { return sizeof(opts); }
unsigned long vp_arg_size() { return sizeof(parser::argument_type); }
unsigned long vp_prop_size() { return sizeof(parser::parameter_type); }
void vp_parse(opts* out, parser* p, int const* argc, char const* argv[]) { new (out) opts(p->parse(*argc, argv)); }
void vp_instance(std::unique_ptr<parser>* out, std::initializer_list<parser::argument_type> const* l) { new (out) std::unique_ptr<parser>(parser::instance(*l)); }
}
