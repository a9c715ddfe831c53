// C18: generators under every bounded sequence of outputs of their source of randomness, every state of the seeded source,
// every form of call, every interval of a boundary lattice.
#include <random>
static unsigned rd_next();
static unsigned mt_next();
// The only sources of nondeterminism of the library are controlled by the harness.
std::random_device::result_type std::random_device::_M_getval() { return rd_next(); }
template <> std::mt19937::result_type std::mt19937::operator()() { return mt_next(); }

#include "kinds.hpp"
#include "dy.hpp"
#ifndef C18_T
#define C18_T double
#endif

namespace {
using T = C18_T;
using V = std::vector<T>;
constexpr bool BO = std::is_same_v<T, bool>, FL = !std::is_integral_v<T>, UN = !FL && !BO && std::is_unsigned_v<T>;
// ---- the controlled source: a chosen prefix, then a full-period sequence
std::vector<unsigned> prefix; std::size_t used = 0; unsigned lcg = 0;
std::uint64_t draws = 0;
void source(std::vector<unsigned> p) { prefix = std::move(p); used = 0; lcg = 12345; draws = 0; }
}
static unsigned mt_next() { ++draws; if(used < prefix.size()) return prefix[used++]; lcg = lcg * 1664525u + 1013904223u; return lcg ^ (lcg >> 16); }
static unsigned rd_next() { return 1; }
namespace {
std::string ctx;
T lo_, hi_; bool nz_;
bool inside(T x) { return lo_ <= x && x <= hi_ && !(nz_ && x == T(0)); }
void one(const char* form, T x) {
   mc::step();
   if(!inside(x)) mc::fail(std::string(form) + (nz_ && x == T(0) ? ":zero" : ":range"), "%s in [%s, %s]%s gives %s (%s)", form, str(lo_).c_str(), str(hi_).c_str(), nz_ ? " without zero" : "", str(x).c_str(), ctx.c_str());
}
template <class A> void all(const char* form, const A& a, long n) {
   if(a.size().val() != n) return mc::fail(std::string(form) + ":size", "%s has size %ld, expected %ld (%s)", form, a.size().val(), n, ctx.c_str());
   for(long i = 0; i < n; ++i) one(form, a.un(i).val());
}
template <class A> void all2(const char* form, const A& a, long m, long n) {
   if(a.rows().val() != m || a.cols().val() != n) return mc::fail(std::string(form) + ":shape", "%s has the wrong shape (%s)", form, ctx.c_str());
   for(long i = 0; i < m; ++i) for(long j = 0; j < n; ++j) one(form, a.un(i, j).val());
}
// an expression object read in every way: every value that comes out is admissible
template <class E> void expr1(const char* form, const E& e, long n) {
   static_assert(std::is_same_v<typename E::builtin_type, T>);
   all(form, e, n);
   for(long i = 0; i < n; ++i) { one(form, e[i].val()); one(form, e.at(i).val()); }
   { long k = 0; for(auto x : e) { one(form, x.val()); ++k; } if(k != n) mc::fail("traversal", "%s has %ld elements in a traversal", form, k); }
   { Array1D<T> a(e); all(form, a, n); } { Array1D<T, Aligned> a = e; all(form, a, n); }
   { Array1D<T> a(n + 2); a.resize_and_assign(e); all(form, a, n); }
   { Array1D<T> a(n); a = e; all(form, a, n); a(place::all) = e; all(form, a, n); }

}
template <class E> void expr2(const char* form, const E& e, long m, long n) {
   static_assert(std::is_same_v<typename E::builtin_type, T>);
   all2(form, e, m, n);
   if(!m || !n) m = n = 0;
   for(long i = 0; i < m; ++i) for(long j = 0; j < n; ++j) { one(form, e(i, j).val()); one(form, e.at(i, j).val()); one(form, e.un(i * n + j).val()); }
   { Array2D<T> a(e); all2(form, a, m, n); } { Array2D<T, Aligned> a = e; all2(form, a, m, n); }
   { Array2D<T> a(m, n); a = e; all2(form, a, m, n); }

}
// fill every kind of target; elements outside the target stay as they were
template <class F> void targets(const char* form, F&& fill) {
   const T z = T(1);
   for(long n : {0L, 1L, 3L}) {
      { Array1D<T> a(n); a = S(z); fill(a); all(form, a, n); }
      { Array1D<T, Aligned> a(n); a = S(z); fill(a); all(form, a, n); }
      { Array2D<T> a(n, n ? 2 : 0); a = S(z); fill(a); all2(form, a, n, n ? 2 : 0); }
   }
   auto outside = [&](bool ok) { mc::step(); if(!ok) mc::fail(std::string(form) + ":outside", "%s of a slice changes other elements (%s)", form, ctx.c_str()); };
   { Array1D<T> a(7); a = S(z); fill(a(place::odd)); all(form, a(place::odd), 3); outside(a.un(0).val() == z && a.un(2).val() == z && a.un(4).val() == z && a.un(6).val() == z); }
   { Array1D<T> a(5); a = S(z); auto s = a(std::vector<ImplicitInt>{3, 1}); fill(s); all(form, s, 2); outside(a.un(0).val() == z && a.un(2).val() == z && a.un(4).val() == z); }
   { Array2D<T> a(3, 3); a = S(z); fill(a.col(1)); all(form, a.col(1), 3); bool ok = true; for(long i = 0; i < 3; ++i) ok = ok && a.un(i, 0).val() == z && a.un(i, 2).val() == z; outside(ok); }
   { Array2D<T> a(3, 3); a = S(z); auto b = a.block(1, 1, 2, 2); fill(b); all2(form, b, 2, 2); bool ok = true; for(long i = 0; i < 3; ++i) ok = ok && a.un(i, 0).val() == z && a.un(0, i).val() == z; outside(ok); }
   { Array2D<T> a(2, 3); a = S(z); fill(a.view1D()); all(form, a.view1D(), 6); }
   { FixedArray1D<T, 4> a; fill(a); all(form, a, 4); } { FixedArray2D<T, 2, 2> a; fill(a); all2(form, a, 2, 2); }
   { T b[5]; T* p = b + 1; b[0] = b[4] = z; fill(attach1D(p, 3)); for(int i = 1; i < 4; ++i) one(form, b[i]); outside(b[0] == z && b[4] == z); }
}
std::string showp() { std::string s; for(unsigned u : prefix) s += " " + std::to_string(u); return s; }

// ---- intervals
struct Iv { T l, h; };
T big() { if constexpr(FL) { if constexpr(std::is_same_v<T, float128>) return two<T>(FP<T>::emax - 1) * (2 - two<T>(1 - FP<T>::p)); else return std::numeric_limits<T>::max(); } else return std::numeric_limits<T>::max(); }
V lattice(bool few) {
   if constexpr(BO) return {false, true};
   else if constexpr(FL) {
      const T e = two<T>(1 - FP<T>::p), t = two<T>(FP<T>::emin);
      V v{-big(), T(-100000005), T(-1), -t, T(0), t, T(1) / T(3), T(1), 1 + e, T(5), big() / 2, big()};
      if(!few) { const V w{-big() / 2, T(-1e10), -1 - e, -T(0.5), -two<T>(FP<T>::emin + FP<T>::p - 1), -T(0), two<T>(FP<T>::emin + 1), two<T>(-20), 1 - e / 2, T(2), T(16777217), two<T>(60)}; v.insert(v.end(), w.begin(), w.end()); }
      return v;
   } else if constexpr(UN) {
      V v{0, 1, 2, 7, 9999999, 10000000, 4294967295u, std::numeric_limits<T>::max() - 1, std::numeric_limits<T>::max()};
      if(!few) { const V w{3, 9, 10, 100, 9999998, 10000001, 2147483648u, std::numeric_limits<T>::max() / 2}; v.insert(v.end(), w.begin(), w.end()); }
      return v;
   } else {
      using L = std::numeric_limits<T>;
      V v{L::min(), L::min() + 1, T(-10000000), -1, 0, 1, 5, T(9999999), T(10000000), L::max()};
      if(!few) { const V w{L::min() / 2, T(-9999999), -10, -2, 2, 9, T(9999998), T(10000001), L::max() - 1}; v.insert(v.end(), w.begin(), w.end()); }
      return v;
   }
}
std::vector<Iv> intervals(bool few) {
   std::vector<Iv> r; const V l = lattice(few);
   for(T a : l) for(T b : l) { if(!(a <= b)) continue; if constexpr(FL) { if(b - a > big()) continue; } r.push_back({a, b}); }
   return r;
}
void set(Iv v, bool nz) { lo_ = v.l; hi_ = v.h; nz_ = nz; }
std::string show(Iv v) { return "[" + str(v.l) + ", " + str(v.h) + "]"; }
template <class F> void rejected(const char* form, F&& f) { mc::step(); if(!throws(f)) mc::fail(std::string(form) + ":accepted", "%s is accepted (%s)", form, ctx.c_str()); }
std::vector<Iv> invalid() {
   if constexpr(BO) return {};
   else { std::vector<Iv> r{{T(1), T(0)}, {big(), T(1)}, {T(3), T(2)}};
      if constexpr(!UN) { r.push_back({T(1), T(-1)}); r.push_back({T(0), T(-1)}); r.push_back({big(), -big()}); }
      if constexpr(FL) { T z = 0, i = 1 / z, q = i - i; r.push_back({q, T(1)}); r.push_back({T(0), q}); r.push_back({q, q}); r.push_back({two<T>(FP<T>::emin), T(0)}); r.push_back({1 + two<T>(1 - FP<T>::p), T(1)}); }
      return r; }
}

// every form with explicit bounds; NZ: the non-zero variants; SEED...: the seed argument(s) of the seeded generators
template <bool NZ, class T = T> void bounded_rand(Iv iv, bool deep) {
   if constexpr(!BO) {
   const auto l = S(iv.l), h = S(iv.h); Low<T> L{l}; High<T> H{h};
   set(iv, NZ);
   auto rs = [&](auto... a) { if constexpr(NZ) return rands_not0<T>(a...); else return rands<T>(a...); };
   auto rx = [&](auto... a) { if constexpr(NZ) return spp::random_not0<T>(a...); else return spp::random<T>(a...); };
   auto rf = [&](auto&&... a) { if constexpr(NZ) spp::random_not0(std::forward<decltype(a)>(a)...); else spp::random(std::forward<decltype(a)>(a)...); };
   one("rands", rs(l, h).val()); one("rands(Low, High)", rs(L, H).val());
   all("random(n, low, high)", rx(ImplicitInt{3}, l, h), 3); all("random(Size, Low, High)", rx(Size{3}, L, H), 3);
   all2("random(m, n, low, high)", rx(ImplicitInt{2}, ImplicitInt{2}, l, h), 2, 2); all2("random(Rows, Cols, Low, High)", rx(Rows{2}, Cols{2}, L, H), 2, 2);
   { Array1D<T> a(3); rf(a, l, h); all("random(A, low, high)", a, 3); rf(a, L, H); all("random(A, Low, High)", a, 3); }
   if(!deep) return;
   for(long n : {0L, 1L, 2L}) { expr1("random(n, low, high)", rx(ImplicitInt{n}, l, h), n); expr1("random(Size, Low, High)", rx(Size{n}, L, H), n); }
   expr2("random(m, n, low, high)", rx(ImplicitInt{2}, ImplicitInt{3}, l, h), 2, 3); expr2("random(Rows, Cols, Low, High)", rx(Rows{1}, Cols{3}, L, H), 1, 3); expr2("random(0, 0, low, high)", rx(ImplicitInt{0}, ImplicitInt{0}, l, h), 0, 0);
   targets("random(A, low, high)", [&](auto&& a) { rf(std::forward<decltype(a)>(a), l, h); }); targets("random(A, Low, High)", [&](auto&& a) { rf(std::forward<decltype(a)>(a), L, H); });
   { Array1D<T> a(2), b(4); Array2D<T> c(2, 2); rf(a, b, l, h); all("random(A, B, low, high)", a, 2); all("random(A, B, low, high)", b, 4); rf(a, c, b, l, h); all("random(A, B, C, low, high)", a, 2); all("random(A, B, C, low, high)", b, 4); all2("random(A, B, C, low, high)", c, 2, 2); }
   { Array1D<T> a(2), b(4); Array2D<T> c(2, 2); rf(a, b, L, H); all("random(A, B, Low, High)", a, 2); all("random(A, B, Low, High)", b, 4); rf(a, c, b, L, H); all("random(A, B, C, Low, High)", a, 2); all("random(A, B, C, Low, High)", b, 4); all2("random(A, B, C, Low, High)", c, 2, 2); }
   }
}
template <bool NZ, class T = T> void unbounded_rand() {
   set({T(0), T(1)}, NZ);
   if constexpr(!NZ || !BO) {
   auto rs = [&] { if constexpr(NZ) return rands_not0<T>(); else return rands<T>(); };
   auto rx = [&](auto... a) { if constexpr(NZ) return spp::random_not0<T>(a...); else return spp::random<T>(a...); };
   auto rf = [&](auto&&... a) { if constexpr(NZ) spp::random_not0(std::forward<decltype(a)>(a)...); else spp::random(std::forward<decltype(a)>(a)...); };
   one("rands()", rs().val());
   for(long n : {0L, 1L, 3L}) { expr1("random(n)", rx(ImplicitInt{n}), n); expr1("random(Size)", rx(Size{n}), n); }
   expr2("random(m, n)", rx(ImplicitInt{2}, ImplicitInt{3}), 2, 3); expr2("random(Rows, Cols)", rx(Rows{2}, Cols{1}), 2, 1); expr2("random(0, 0)", rx(Rows{0}, Cols{0}), 0, 0);
   targets("random(A)", [&](auto&& a) { rf(std::forward<decltype(a)>(a)); });
   { Array1D<T> a(2), b(4); Array2D<T> c(2, 2); rf(a, b, c); all("random(A, B, C)", a, 2); all("random(A, B, C)", b, 4); all2("random(A, B, C)", c, 2, 2); }
   }
}
template <class F> void sequences(const std::vector<unsigned>& al, int d, F&& f) {
   std::vector<unsigned> p(d, al[0]); std::vector<std::size_t> ix(d, 0);
   for(;;) { f(p); int k = d - 1; while(k >= 0 && ++ix[k] == al.size()) { ix[k] = 0; p[k] = al[0]; --k; } if(k < 0) return; p[k] = al[ix[k]]; }
}
// ---- seeded generators: run one request twice, with other requests in between, and compare
bool same_bits(const V& a, const V& b) { return bitsv(a, b); }
template <class R> void pure(const char* form, R&& run) {
   const V a = run(); { volatile T x = semi_rands<T>(Seed{Strict<unsigned>{77u}}).val(); (void)x; Array1D<T> w(5); spp::semi_random(w); }
   const V b = run();
   mc::step(); if(!same_bits(a, b)) mc::fail(std::string(form) + ":impure", "%s gives %s and then %s (%s)", form, str(a).c_str(), str(b).c_str(), ctx.c_str());
   mc::state(hash_(a));
}
template <bool NZ, class T = T> void bounded_semi(Iv iv, unsigned s, bool deep) {
   if constexpr(!BO) {
   const auto l = S(iv.l), h = S(iv.h); Low<T> L{l}; High<T> H{h}; const Seed sd{Strict<unsigned>{s}};
   set(iv, NZ);
   auto rs = [&](auto... a) { if constexpr(NZ) return semi_rands_not0<T>(a...); else return semi_rands<T>(a...); };
   auto rx = [&](auto... a) { if constexpr(NZ) return spp::semi_random_not0<T>(a...); else return spp::semi_random<T>(a...); };
   auto rf = [&](auto&&... a) { if constexpr(NZ) spp::semi_random_not0(std::forward<decltype(a)>(a)...); else spp::semi_random(std::forward<decltype(a)>(a)...); };
   one("semi_rands", rs(l, h, sd).val()); one("semi_rands(Low, High)", rs(L, H, sd).val());
   all("semi_random(n, low, high)", rx(ImplicitInt{3}, l, h, sd), 3); all2("semi_random(m, n, low, high)", rx(ImplicitInt{2}, ImplicitInt{2}, l, h, sd), 2, 2);
   { Array1D<T> a(3); rf(a, l, h, sd); all("semi_random(A, low, high)", a, 3); }
   pure("semi_rands", [&] { return V{rs(l, h, sd).val()}; });
   pure("semi_random(A, low, high)", [&] { Array1D<T> a(4); rf(a, l, h, sd); return elems(a); });
   if(!deep) return;
   for(long n : {0L, 1L, 2L, 5L}) {
      expr1("semi_random(n, low, high)", rx(ImplicitInt{n}, l, h, sd), n); expr1("semi_random(Size, Low, High)", rx(Size{n}, L, H, sd), n);
      pure("semi_random(n, low, high)", [&] { auto e = rx(ImplicitInt{n}, l, h, sd); return elems(e); }); pure("semi_random(n, low, high) copied", [&] { return elems(Array1D<T>(rx(Size{n}, L, H, sd))); });
      pure("semi_random(A, Low, High)", [&] { Array2D<T> a(n, 2 * n); rf(a, L, H, sd); return elems2(a).v; });
   }
   expr2("semi_random(m, n, low, high)", rx(ImplicitInt{2}, ImplicitInt{3}, l, h, sd), 2, 3); expr2("semi_random(Rows, Cols, Low, High)", rx(Rows{1}, Cols{3}, L, H, sd), 1, 3); expr2("semi_random(0, 0, low, high)", rx(Rows{0}, Cols{0}, L, H, sd), 0, 0);
   pure("semi_random(m, n, low, high)", [&] { return elems2(Array2D<T>(rx(ImplicitInt{2}, ImplicitInt{3}, l, h, sd))).v; }); pure("semi_random(Rows, Cols, Low, High)", [&] { return elems2(Array2D<T>(rx(Rows{3}, Cols{2}, L, H, sd))).v; });
   targets("semi_random(A, low, high)", [&](auto&& a) { rf(std::forward<decltype(a)>(a), l, h, sd); }); targets("semi_random(A, Low, High)", [&](auto&& a) { rf(std::forward<decltype(a)>(a), L, H, sd); });
   // default seed
   one("semi_rands default seed", rs(l, h).val()); one("semi_rands default seed", rs(L, H).val()); all("semi_random default seed", rx(ImplicitInt{2}, l, h), 2); all("semi_random default seed", rx(Size{2}, L, H), 2);
   all2("semi_random default seed", rx(ImplicitInt{2}, ImplicitInt{2}, l, h), 2, 2); all2("semi_random default seed", rx(Rows{2}, Cols{2}, L, H), 2, 2);
   { Array1D<T> a(3); rf(a, l, h); all("semi_random(A) default seed", a, 3); rf(a, L, H); all("semi_random(A) default seed", a, 3); }
   }
}
template <bool NZ, class T = T> void unbounded_semi(unsigned s, bool deep) {
   set({T(0), T(1)}, NZ);
   if constexpr(!NZ || !BO) {
   const Seed sd{Strict<unsigned>{s}};
   auto rs = [&](auto... a) { if constexpr(NZ) return semi_rands_not0<T>(a...); else return semi_rands<T>(a...); };
   auto rx = [&](auto... a) { if constexpr(NZ) return spp::semi_random_not0<T>(a...); else return spp::semi_random<T>(a...); };
   auto rf = [&](auto&&... a) { if constexpr(NZ) spp::semi_random_not0(std::forward<decltype(a)>(a)...); else spp::semi_random(std::forward<decltype(a)>(a)...); };
   one("semi_rands(seed)", rs(sd).val()); pure("semi_rands(seed)", [&] { return V{rs(sd).val()}; });
   all("semi_random(n, seed)", rx(ImplicitInt{3}, sd), 3);
   if(!deep) return;
   for(long n : {0L, 1L, 3L}) { expr1("semi_random(n, seed)", rx(ImplicitInt{n}, sd), n); expr1("semi_random(Size, seed)", rx(Size{n}, sd), n); pure("semi_random(n, seed)", [&] { return elems(Array1D<T>(rx(Size{n}, sd))); }); }
   expr2("semi_random(m, n, seed)", rx(ImplicitInt{2}, ImplicitInt{3}, sd), 2, 3); expr2("semi_random(Rows, Cols, seed)", rx(Rows{2}, Cols{1}, sd), 2, 1); expr2("semi_random(0, 0, seed)", rx(Rows{0}, Cols{0}, sd), 0, 0);
   pure("semi_random(m, n, seed)", [&] { return elems2(Array2D<T>(rx(Rows{2}, Cols{2}, sd))).v; });
   one("semi_rands()", rs().val()); expr1("semi_random(n)", rx(ImplicitInt{3}), 3); expr1("semi_random(Size)", rx(Size{3}), 3); expr2("semi_random(m, n)", rx(ImplicitInt{2}, ImplicitInt{2}), 2, 2); expr2("semi_random(Rows, Cols)", rx(Rows{2}, Cols{2}), 2, 2);
   targets("semi_random(A)", [&](auto&& a) { rf(std::forward<decltype(a)>(a)); });
   { Array1D<T> a(2), b(4); Array2D<T> c(2, 2); rf(a, b, c); all("semi_random(A, B, C)", a, 2); all("semi_random(A, B, C)", b, 4); all2("semi_random(A, B, C)", c, 2, 2); }
   }
}
bool zero(Iv v) { return v.l == T(0) && v.h == T(0); }
template <class T = T> void rand_sequences() {
   const std::vector<unsigned> al{0u, 1u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
   for(auto iv : intervals(false)) {
      const bool deep = mc::thorough || iv.l == T(0) || iv.h == T(1);
      for(int d : {1, 2}) sequences(al, d, [&](const std::vector<unsigned>& p) {
         mc::at("random source:%s..., interval %s", (source(p), showp()).c_str(), show(iv).c_str()); ctx = mc::cur;
         source(p); bounded_rand<false>(iv, false);
         if(!zero(iv)) { source(p); bounded_rand<true>(iv, false); }
         mc::trace();
      });
      mc::at("random forms, interval %s", show(iv).c_str()); ctx = mc::cur;
      source({}); bounded_rand<false>(iv, deep); if(!zero(iv)) bounded_rand<true>(iv, deep);
      mc::state(draws); mc::trace();
   }
   for(int d = 1; d <= (mc::thorough ? 6 : 4); ++d) sequences(al, d, [&](const std::vector<unsigned>& p) {
      for(auto iv : {Iv{T(0), T(1)}, Iv{T(1), lattice(true).back()}}) { if constexpr(FL) if(iv.h - iv.l > big()) continue;
         mc::at("random source:%s..., interval %s", (source(p), showp()).c_str(), show(iv).c_str()); ctx = mc::cur;
         source(p); bounded_rand<false>(iv, false); source(p); bounded_rand<true>(iv, false); mc::trace(); }
   });
}
}

#if C18_PART == 0
UNIT("random: every bounded sequence of source outputs") { if constexpr(BO) mc::step(); else rand_sequences(); }
UNIT("random: unit interval") {
   const std::vector<unsigned> al{0u, 1u, 0x7fffffffu, 0x80000000u, 0xffffffffu};
   for(int d = 0; d <= (mc::thorough ? 5 : 3); ++d) sequences(al, d, [&](const std::vector<unsigned>& p) {
      mc::at("random source:%s..., unit interval", (source(p), showp()).c_str()); ctx = mc::cur;
      unbounded_rand<false>(); source(p); unbounded_rand<true>();
      mc::state(draws); mc::trace();
   });
}
template <class T = T> void invalid_forms() {
   if constexpr(BO) mc::step(); else {
   source({});
   const Seed sd{Strict<unsigned>{3u}};
   for(auto iv : invalid()) for(bool nz : {false, true}) {
      const auto l = S(iv.l), h = S(iv.h); Low<T> L{l}; High<T> H{h};
      mc::at("invalid interval %s%s", show(iv).c_str(), nz ? " (non-zero)" : ""); ctx = mc::cur;
#define R1(f, ...) rejected(#f, [&] { if(nz) (void)spp::f##_not0<T>(__VA_ARGS__); else (void)spp::f<T>(__VA_ARGS__); });
      R1(rands, l, h) R1(rands, L, H) R1(random, ImplicitInt{2}, l, h) R1(random, Size{2}, L, H) R1(random, ImplicitInt{2}, ImplicitInt{2}, l, h) R1(random, Rows{2}, Cols{2}, L, H)
      R1(semi_rands, l, h, sd) R1(semi_rands, L, H, sd) R1(semi_random, ImplicitInt{2}, l, h, sd) R1(semi_random, Size{2}, L, H, sd) R1(semi_random, ImplicitInt{2}, ImplicitInt{2}, l, h, sd) R1(semi_random, Rows{2}, Cols{2}, L, H, sd)
      Array1D<T> a(3); a = SL<T>(9); Array2D<T> A(2, 2); A = SL<T>(9);
#define R2(f, ...) rejected(#f "(" #__VA_ARGS__ ")", [&] { if(nz) spp::f##_not0(__VA_ARGS__); else spp::f(__VA_ARGS__); });
      R2(random, a, l, h) R2(random, a, L, H) R2(random, A, l, h) R2(random, A, L, H) R2(random, a(place::even), l, h) R2(random, a, A, l, h) R2(random, a, A, L, H)
      R2(semi_random, a, l, h, sd) R2(semi_random, a, L, H, sd) R2(semi_random, A, l, h, sd) R2(semi_random, A, L, H, sd) R2(semi_random, a(place::even), l, h, sd) R2(semi_random, a, l, h) R2(semi_random, A.row(0), L, H)
      mc::step(); for(long i = 0; i < 4; ++i) if((i < 3 && !same(a.un(i).val(), lab<T>(9))) || !same(A.un(i).val(), lab<T>(9))) mc::fail("rejected:changed", "a rejected call changed its target (%s)", ctx.c_str());
      mc::trace();
   }
   // only zero: the non-zero variants cannot be satisfied
   std::vector<Iv> zs{{T(0), T(0)}}; if constexpr(FL) { zs.push_back({-T(0), T(0)}); zs.push_back({T(0), -T(0)}); zs.push_back({-T(0), -T(0)}); }
   for(auto iv : zs) { const bool nz = true;
      const auto l = S(iv.l), h = S(iv.h); Low<T> L{l}; High<T> H{h};
      mc::at("non-zero in %s", show(iv).c_str()); ctx = mc::cur;
      R1(rands, l, h) R1(rands, L, H) R1(random, ImplicitInt{2}, l, h) R1(random, Size{2}, L, H) R1(random, ImplicitInt{2}, ImplicitInt{2}, l, h) R1(random, Rows{2}, Cols{2}, L, H)
      R1(semi_rands, l, h, sd) R1(semi_rands, L, H, sd) R1(semi_random, ImplicitInt{2}, l, h, sd) R1(semi_random, Size{2}, L, H, sd) R1(semi_random, ImplicitInt{2}, ImplicitInt{2}, l, h, sd) R1(semi_random, Rows{2}, Cols{2}, L, H, sd)
      Array1D<T> a(3); Array2D<T> A(2, 2);
      R2(random, a, l, h) R2(random, A, L, H) R2(random, a, A, l, h) R2(semi_random, a, l, h, sd) R2(semi_random, A, L, H, sd)
      mc::trace();
   }
   for(long n : {-1L, -5L, std::numeric_limits<long>::min()}) for(bool nz : {false, true}) {
      mc::at("size %ld", n); ctx = mc::cur; const auto l = S(T(1)), h = S(T(2));
      R1(random, ImplicitInt{n}) R1(random, ImplicitInt{n}, l, h) R1(random, ImplicitInt{2}, ImplicitInt{n}) R1(random, ImplicitInt{n}, ImplicitInt{2}, l, h)
      R1(semi_random, ImplicitInt{n}) R1(semi_random, ImplicitInt{n}, l, h, sd) R1(semi_random, ImplicitInt{2}, ImplicitInt{n}) R1(semi_random, ImplicitInt{n}, ImplicitInt{2}, l, h, sd)
      mc::trace();
   }
   }
}
UNIT("invalid requests") { invalid_forms(); }
UNIT("seeded: forms, seeds and intervals") {
   std::vector<unsigned> seeds{0u, 1u, 2u, 21u, 99u, 100u, 101u, 2044u, 2045u, 42949u, 42950u, 65536u, 0x7fffffffu, 0x80000000u, 0xfffffffeu, 0xffffffffu};
   for(auto iv : intervals(!mc::thorough)) if constexpr(!BO) for(unsigned s : seeds) {
      mc::at("seed %u, interval %s", s, show(iv).c_str()); ctx = mc::cur;
      const bool deep = mc::thorough ? s < 3 : s == 1 && (iv.l == T(0) || iv.h == T(1));
      bounded_semi<false>(iv, s, deep); if(!zero(iv)) bounded_semi<true>(iv, s, deep);
      mc::trace();
   }
   for(unsigned s = 0; s < (mc::thorough ? 20000u : 1500u); ++s) { mc::at("seed %u, unit interval", s); ctx = mc::cur; unbounded_semi<false>(s, s < 20); unbounded_semi<true>(s, s < 20); mc::trace(); }
   for(unsigned s : seeds) { mc::at("seed %u, unit interval", s); ctx = mc::cur; unbounded_semi<false>(s, true); unbounded_semi<true>(s, true); mc::trace(); }
   for(long n = 0; n <= (mc::thorough ? 600 : 130); ++n) { mc::at("size %ld, unit interval", n); ctx = mc::cur; set({T(0), T(1)}, false); Array1D<T> a(n); spp::semi_random(a); all("semi_random(A)", a, n); all("semi_random(n)", spp::semi_random<T>(n), n);
      pure("semi_random(n)", [&] { return elems(Array1D<T>(spp::semi_random<T>(n))); }); mc::trace(); }
}
#else
// Every state of the seeded source: its period is 10^7, one lazy sequence passes through all of it.
template <bool NZ, class T = T> void period(Iv iv, unsigned s, long n) {
   const auto l = S(iv.l), h = S(iv.h); const Seed sd{Strict<unsigned>{s}};
   set(iv, NZ);
   mc::at("%s of %ld values, seed %u, interval %s", NZ ? "semi_random_not0" : "semi_random", n, s, show(iv).c_str()); ctx = mc::cur;
   auto e = [&] { if constexpr(NZ) return spp::semi_random_not0<T>(ImplicitInt{n}, l, h, sd); else return spp::semi_random<T>(ImplicitInt{n}, l, h, sd); }();
   T mn = hi_, mx = lo_; const ImplicitInt z{0};
   for(long i = 0; i < n; ++i) { const T x = e.un(z).val(); if(!inside(x)) one("semi_random", x); mn = x < mn ? x : mn; mx = mx < x ? x : mx; if((i & 0xfffff) == 0) mc::step(); }
   mc::step(n); mc::state(mc::mix(hv(mn), hv(mx))); mc::trace();
}
template <class T = T> void periods() {
   if constexpr(BO) mc::step();
   else {
      const long full = 10'000'000;
      const V l = lattice(true);
      std::vector<Iv> ivs; for(auto iv : intervals(!mc::thorough)) ivs.push_back(iv);
      if(!mc::thorough) { std::vector<Iv> w; for(std::size_t i = 0; i < ivs.size(); ++i) { auto v = ivs[i]; if((v.l == T(0) && (v.h == T(1) || v.h == l.back())) || (v.h == T(0) && v.l == (UN ? T(0) : T(-1))) || (v.l == l[1] && v.h == l[3])) w.push_back(v); } ivs = w; }
      for(auto iv : ivs) { const long n = iv.l == T(0) && iv.h == T(1) && !FL ? 2 * full : full; period<false>(iv, 1, n); if(!zero(iv)) period<true>(iv, 1, full); }
      for(auto iv : intervals(false)) { period<false>(iv, 5, mc::thorough ? full / 10 : 20000); if(!zero(iv)) period<true>(iv, 5, mc::thorough ? full / 10 : 20000); }
   }
}
UNIT("seeded: every state of the source") { periods(); }
#endif
