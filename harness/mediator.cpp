// Entry points of the mediator: manager<VP_N> and module<vp_a, vp_b, vp_c>.
#include <new>
#include <string>
#include <xitren/comm/mediator.hpp>
#ifndef VP_N
#define VP_N 8
#endif
namespace xc = xitren::comm;
struct vp_a { int x; };
struct vp_b { char c[5]; };
struct vp_c { double d; int e; };
struct vp_d { unsigned short p, q; };      // as large as the type sent
struct vp_e { unsigned char r, s, t[3]; }; // as large as another type received
using Mgr = xc::manager<VP_N>;
using Base = xc::base::module;
using Mod = xc::module<vp_a, vp_b, vp_c, vp_d, vp_e>;
using Leaf = xc::module<vp_b>;
struct vp_mod : Mod {
    explicit vp_mod(xc::base::manager& m) : Mod(m) {}
    void data(vp_b const&) override;
    void data(vp_c const&) override;
    void data(vp_d const&) override;
    void data(vp_e const&) override;
};
void vp_mod::data(vp_b const&) {}
void vp_mod::data(vp_c const&) {}
void vp_mod::data(vp_d const&) {}
void vp_mod::data(vp_e const&) {}
struct vp_leaf : Leaf {
    explicit vp_leaf(xc::base::manager& m) : Leaf(m) {}
    void send(unsigned char* p, std::size_t n) override { Leaf::send(p, n); }
};
extern "C" {
void vp_add(Mgr& m, Base& c) { m.Mgr::add_module(c); }
void vp_remove(Mgr& m, Base& c) { m.Mgr::remove_module(c); }
void vp_distribute(Mgr& m, Base const& s, unsigned char* p, std::size_t n) { m.Mgr::distribute(s, p, n); }
void vp_send_a(Mgr& m, vp_a const& d) { m.send<vp_a>(d); }
void vp_send_b(Mgr& m, vp_b const& d) { m.send<vp_b>(d); }
void vp_send_c(Mgr& m, vp_c const& d) { m.send<vp_c>(d); }
void vp_convert_a(Mgr& m, unsigned char* p, std::size_t n, vp_a& out) { out = m.convert_field<vp_a>(p, n); }
void vp_convert_b(Mgr& m, unsigned char* p, std::size_t n, vp_b& out) { out = m.convert_field<vp_b>(p, n); }
void vp_convert_c(Mgr& m, unsigned char* p, std::size_t n, vp_c& out) { out = m.convert_field<vp_c>(p, n); }
void vp_ctor(void* p) { new (p) Mgr; }
void vp_receive(Mod& m, std::size_t id, unsigned char* p, std::size_t n) { m.Mod::receive(id, p, n); }
void vp_mod_send(Mod& m, vp_a const& d) { m.send(d); }
void vp_leaf_send(vp_leaf& m, unsigned char* p, std::size_t n) { m.vp_leaf::send(p, n); }
void vp_mod_ctor(void* p, xc::base::manager& m) { new (p) vp_mod(m); }
void vp_mod_dtor(vp_mod& m) { m.vp_mod::~vp_mod(); }
unsigned long vp_id_off() { return reinterpret_cast<unsigned long>(&static_cast<Base*>(reinterpret_cast<Mod*>(4096))->id_) - 4096; }
xc::base::manager* vp_mediator(Base& b) { return b.mediator_; }
std::size_t vp_ident(Base& b) { return b.id_; }
unsigned long vp_off_b() { return reinterpret_cast<unsigned long>(static_cast<xc::receiver_impl<vp_b>*>(reinterpret_cast<Mod*>(4096))) - 4096; }
unsigned long vp_off_d() { return reinterpret_cast<unsigned long>(static_cast<xc::receiver_impl<vp_d>*>(reinterpret_cast<Mod*>(4096))) - 4096; }
unsigned long vp_off_e() { return reinterpret_cast<unsigned long>(static_cast<xc::receiver_impl<vp_e>*>(reinterpret_cast<Mod*>(4096))) - 4096; }
unsigned long vp_off_c() { return reinterpret_cast<unsigned long>(static_cast<xc::receiver_impl<vp_c>*>(reinterpret_cast<Mod*>(4096))) - 4096; }
unsigned long vp_size_a() { return sizeof(vp_a); }
unsigned long vp_size_b() { return sizeof(vp_b); }
unsigned long vp_size_c() { return sizeof(vp_c); }
}
