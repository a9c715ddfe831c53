// C07: every element-wise operation over every kind of operand, against eager evaluation with the built-in type.
// The value domain is spread over the elements, so one expression object is read at every pair of values.
#include "kinds.hpp"

#include <cmath>
#include <optional>

namespace {
#ifndef C07_T
#define C07_T int
#endif
using T0 = C07_T;
using ST = Strict<T0>;

// ---- operations: name, library form, definition on the built-in type (false: undefined, not used) ----
#define BOP(N, OP, DEF) struct N { static constexpr const char* n = #OP; template <class X, class Y> static auto ap(const X& x, const Y& y) { return x OP y; } \
   template <class X, class Y> static void comp(X& x, const Y& y) { if constexpr(requires { x OP##= y; }) x OP##= y; } \
   template <class X, class Y> static constexpr bool hascomp = requires(X & x, const Y& y) { x OP##= y; }; \
   template <class T> static bool ev(T x, T y, T& r) { DEF } };
#define OVF(F) if constexpr(std::is_integral_v<T> && std::is_signed_v<T>) return !F(x, y, &r); else
BOP(Add, +, { OVF(__builtin_add_overflow) { r = T(x + y); return true; } })
BOP(Sub, -, { OVF(__builtin_sub_overflow) { r = T(x - y); return true; } })
BOP(Mul, *, { OVF(__builtin_mul_overflow) { r = T(x * y); return true; } })
BOP(Div, /, { if constexpr(std::is_integral_v<T>) { if(y == 0 || (std::is_signed_v<T> && x == std::numeric_limits<T>::min() && y == T(-1))) return false; } r = T(x / y); return true; })
BOP(Mod, %, { if constexpr(std::is_integral_v<T>) { if(y == 0 || (std::is_signed_v<T> && x == std::numeric_limits<T>::min() && y == T(-1))) return false; r = T(x % y); return true; } else return false; })
BOP(Shl, <<, { if constexpr(std::is_integral_v<T>) { if(x < 0 || y < 0 || y >= T(sizeof(T) * 8 - 1) || (std::is_signed_v<T> && x > (std::numeric_limits<T>::max() >> y))) return false; r = T(x << y); return true; } else return false; })
BOP(Shr, >>, { if constexpr(std::is_integral_v<T>) { if(x < 0 || y < 0 || y >= T(sizeof(T) * 8)) return false; r = T(x >> y); return true; } else return false; })
BOP(And, &, { if constexpr(std::is_integral_v<T>) { r = T(x & y); return true; } else return false; })
BOP(Or, |, { if constexpr(std::is_integral_v<T>) { r = T(x | y); return true; } else return false; })
BOP(Xor, ^, { if constexpr(std::is_integral_v<T>) { r = T(x ^ y); return true; } else return false; })
struct LAnd { static constexpr const char* n = "&&"; template <class X, class Y> static auto ap(const X& x, const Y& y) { return x && y; } template <class X, class Y> static void comp(X&, const Y&) {} template <class X, class Y> static constexpr bool hascomp = false; template <class T> static bool ev(T x, T y, T& r) { r = x && y; return true; } };
struct LOr { static constexpr const char* n = "||"; template <class X, class Y> static auto ap(const X& x, const Y& y) { return x || y; } template <class X, class Y> static void comp(X&, const Y&) {} template <class X, class Y> static constexpr bool hascomp = false; template <class T> static bool ev(T x, T y, T& r) { r = x || y; return true; } };

template <class... O> struct Ops {};
template <class T> struct OpsOf { using t = Ops<Add, Sub, Mul, Div>; };
template <class T> requires(std::is_integral_v<T> && !std::is_same_v<T, bool>) struct OpsOf<T> { using t = Ops<Add, Sub, Mul, Div, Mod, Shl, Shr, And, Or, Xor>; };
template <> struct OpsOf<bool> { using t = Ops<LAnd, LOr, Xor>; };
template <class F, class... O> void each(Ops<O...>, F&& f) { (f.template operator()<O>(), ...); }

// Pairs of the domain on which the operation is defined.
template <class O, class T> void pairs(std::vector<T>& x, std::vector<T>& y, std::vector<T>& z) {
   for(T a : dom<T>()) for(T b : dom<T>()) { T r; if(O::template ev<T>(a, b, r)) { x.push_back(a); y.push_back(b); z.push_back(r); } }
}
template <class T> std::vector<T> cut(const std::vector<T>& v, long n) { return std::vector<T>(v.begin(), v.begin() + std::min<long>(n, v.size())); }
template <class T> std::uint64_t res(const char* what, const std::vector<T>& z) { std::uint64_t h = 5; for(const char* p = what; *p; ++p) h = mc::mix(h, *p); h = hash_(z, h); mc::state(h); return h; }

// One binary operation, one pair of operand kinds, sizes: empty, one, six, the whole domain.
template <class O, int K1, int K2, class T> void bin1() {
   std::vector<T> X, Y, Z; pairs<O, T>(X, Y, Z);
   const std::string w = std::string(tname<T>()) + ": " + kname1[K1] + " " + O::n + " " + kname1[K2];
   for(long n : {0L, 1L, 2L, 6L, (long)X.size()}) {
      auto x = cut(X, n), y = cut(Y, n), z = cut(Z, n);
      mc::at("%s, %zu elements", w.c_str(), x.size());
      kind1<K1>(x, [&](auto&& a, auto seta) { kind1<K2>(y, [&](auto&& b, auto) {
         auto e = O::ap(a, b);
         reads1(e, z, w.c_str());
         if(!bitsv(elems(a), x) || !bitsv(elems(b), y)) mc::fail("operands:" + w, "evaluating %s changed an operand", w.c_str());
         { Array1D<T> c = mk1<T, Unaligned>(x); if constexpr(K1 == 0) if constexpr(O::template hascomp<Array1D<T>, std::remove_cvref_t<decltype(b)>>) { O::comp(c, b); mc::step(); if(!bitsv(elems(c), z)) mc::fail("compound:" + w, "compound %s gave %s", w.c_str(), str(elems(c)).c_str()); } }
         if constexpr(K2 == 0 && K1 != 8 && K1 != 10 && K1 != 3 && K1 != 7) if constexpr(O::template hascomp<std::remove_cvref_t<decltype(a)>, std::remove_cvref_t<decltype(b)>>) {
            O::comp(a, b); mc::step();
            if(!bitsv(elems(a), z)) mc::fail("compound-into:" + w, "compound %s gave %s", w.c_str(), str(elems(a)).c_str());
            for(long i = 0; i < (long)x.size(); ++i) seta(i, x[i]);
         }
         // later changes of the operand are seen, at that element only
         if(x.size() > 1) { auto x2 = x; auto z2 = z; long i = x.size() - 1; for(T v : dom<T>()) { T r; if(O::template ev<T>(v, y[i], r) && !bits(v, T(x[i]))) { x2[i] = v; z2[i] = r; break; } } seta(i, x2[i]); mc::step();
            if(!bitsv(elems(e), z2)) mc::fail("lazy:" + w, "%s does not see a change of its operand", w.c_str()); seta(i, x[i]); }
      }); });
      res(w.c_str(), z); mc::trace();
   }
   // operands of different sizes
   if constexpr(K1 != 5 && K2 != 5) for(long n : {0L, 1L, 2L, 5L}) for(long k : {0L, 1L, 2L, 5L}) if(n != k && n <= (long)X.size() && k <= (long)X.size()) {
      mc::at("%s, sizes %ld and %ld", w.c_str(), n, k);
      kind1<K1>(cut(X, n), [&](auto&& a, auto) { kind1<K2>(cut(Y, k), [&](auto&& b, auto) {
         mc::step();
         if(!throws([&] { auto e = O::ap(a, b); (void)e; })) mc::fail("mismatch:" + w, "operands of sizes %ld and %ld accepted", n, k);
         if constexpr(K1 == 0) if constexpr(O::template hascomp<Array1D<T>, std::remove_cvref_t<decltype(b)>>) { Array1D<T> c = mk1<T, Unaligned>(cut(X, n)); if(!throws([&] { O::comp(c, b); }) || !bitsv(elems(c), cut(X, n))) mc::fail("mismatch-compound:" + w, "compound operands of sizes %ld and %ld", n, k); }
      }); });
   }
}
template <class T> Mat<T> mat(const std::vector<T>& v, long r, long c) { Mat<T> m; m.r = r; m.c = c; for(long i = 0; i < r * c; ++i) m.v.push_back(v[i % v.size()]); return m; }
template <class O, int K1, int K2, class T> void bin2() {
   std::vector<T> X, Y, Z; pairs<O, T>(X, Y, Z);
   const std::string w = std::string(tname<T>()) + ": " + kname2[K1] + " " + O::n + " " + kname2[K2];
   const long full = ((long)X.size() + 2) / 3;
   for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {full, 3}}) {
      auto x = mat(X, r, c), y = mat(Y, r, c), z = mat(Z, r, c);
      mc::at("%s, %ldx%ld", w.c_str(), r, c);
      kind2<K1>(x, [&](auto&& a, auto seta) { kind2<K2>(y, [&](auto&& b, auto) {
         auto e = O::ap(a, b);
         reads2(e, z, w.c_str());
         if(!bitsv(elems2(a).v, x.v) || !bitsv(elems2(b).v, y.v)) mc::fail("operands:" + w, "evaluating %s changed an operand", w.c_str());
         { Array2D<T> d = mk2<T, Unaligned>(x); if constexpr(K1 == 0) if constexpr(O::template hascomp<Array2D<T>, std::remove_cvref_t<decltype(b)>>) { O::comp(d, b); mc::step(); if(!bitsv(elems2(d).v, z.v)) mc::fail("compound:" + w, "compound %s gave %s", w.c_str(), str(elems2(d)).c_str()); } }
         if constexpr(K2 == 0 && K1 != 8 && K1 != 4 && K1 != 3 && K1 != 7) if constexpr(O::template hascomp<std::remove_cvref_t<decltype(a)>, std::remove_cvref_t<decltype(b)>>) {
            O::comp(a, b); mc::step();
            if(!bitsv(elems2(a).v, z.v)) mc::fail("compound-into:" + w, "compound %s gave %s", w.c_str(), str(elems2(a)).c_str());
            for(long i = 0; i < (long)x.v.size(); ++i) seta(i, x.v[i]);
         }
         if(x.v.size() > 1) { auto x2 = x; auto z2 = z; long i = x.v.size() - 1; for(T v : dom<T>()) { T q; if(O::template ev<T>(v, y.v[i], q) && !bits(v, T(x.v[i]))) { x2.v[i] = v; z2.v[i] = q; break; } } seta(i, x2.v[i]); mc::step();
            if(!bitsv(elems2(e).v, z2.v)) mc::fail("lazy:" + w, "%s does not see a change of its operand", w.c_str()); seta(i, x.v[i]); }
      }); });
      res(w.c_str(), z.v); mc::trace();
   }
   if constexpr(K1 != 5 && K2 != 5) { const std::vector<std::pair<long, long>> sh{{0, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}};
      for(auto s : sh) for(auto t : sh) if(s != t) {
         mc::at("%s, shapes %ldx%ld and %ldx%ld", w.c_str(), s.first, s.second, t.first, t.second);
         kind2<K1>(mat(X, s.first, s.second), [&](auto&& a, auto) { kind2<K2>(mat(Y, t.first, t.second), [&](auto&& b, auto) {
            mc::step();
            if(!throws([&] { auto e = O::ap(a, b); (void)e; })) mc::fail("mismatch:" + w, "operands of shapes %ldx%ld and %ldx%ld accepted", s.first, s.second, t.first, t.second);
            if constexpr(K1 == 0) if constexpr(O::template hascomp<Array2D<T>, std::remove_cvref_t<decltype(b)>>) { auto xm = mat(X, s.first, s.second); Array2D<T> d = mk2<T, Unaligned>(xm); if(!throws([&] { O::comp(d, b); }) || !bitsv(elems2(d).v, xm.v)) mc::fail("mismatch-compound:" + w, "compound operands of different shapes"); }
         }); });
      } }
}
// scalar on either side of every kind: for each scalar, all elements on which the operation is defined
template <class O, int K, class T> void scal() {
   const std::string w1 = std::string(tname<T>()) + ": scalar " + O::n + " " + kname1[K], w2 = std::string(tname<T>()) + ": " + kname1[K] + " " + O::n + " scalar";
   const std::string w3 = std::string(tname<T>()) + ": scalar " + O::n + " " + kname2[K], w4 = std::string(tname<T>()) + ": " + kname2[K] + " " + O::n + " scalar";
   for(T s : dom<T>()) for(int small = 0; small < 2; ++small) {
      std::vector<T> yl, zl, xr, zr;
      for(T v : dom<T>()) { T r; if(O::template ev<T>(s, v, r)) { yl.push_back(v); zl.push_back(r); } if(O::template ev<T>(v, s, r)) { xr.push_back(v); zr.push_back(r); } }
      if(small) { auto rep = [](std::vector<T>& v) { if(v.empty()) return; auto c = v; while(v.size() < 6) v.insert(v.end(), c.begin(), c.end()); v.resize(6); }; rep(yl); rep(zl); rep(xr); rep(zr); }
      mc::at("%s, scalar %s", w1.c_str(), str(s).c_str());
#if C07_DIM == 1
      kind1<K>(yl, [&](auto&& a, auto) { auto e = O::ap(S(s), a); reads1(e, zl, w1.c_str()); if(!bitsv(elems(a), yl)) mc::fail("operands:" + w1, "operand changed"); });
      mc::at("%s, scalar %s", w2.c_str(), str(s).c_str());
      kind1<K>(xr, [&](auto&& a, auto) { auto e = O::ap(a, S(s)); reads1(e, zr, w2.c_str()); if(!bitsv(elems(a), xr)) mc::fail("operands:" + w2, "operand changed");
         if constexpr(K != 8 && K != 10 && K != 3 && K != 7) if constexpr(O::template hascomp<std::remove_cvref_t<decltype(a)>, Strict<T>>) { O::comp(a, S(s)); mc::step(); if(!bitsv(elems(a), zr)) mc::fail("compound:" + w2, "compound %s %s gave %s", w2.c_str(), str(s).c_str(), str(elems(a)).c_str()); } });
#else
      if(yl.size() >= 3) { auto y = mat(yl, small ? 2 : (yl.size() + 2) / 3, 3), z = mat(zl, y.r, 3);
         kind2<K>(y, [&](auto&& a, auto) { auto e = O::ap(S(s), a); reads2(e, z, w3.c_str()); if(!bitsv(elems2(a).v, y.v)) mc::fail("operands:" + w3, "operand changed"); }); }
      mc::at("%s, scalar %s", w4.c_str(), str(s).c_str());
      if(xr.size() >= 3) { auto x = mat(xr, small ? 2 : (xr.size() + 2) / 3, 3), z = mat(zr, x.r, 3);
         kind2<K>(x, [&](auto&& a, auto) { auto e = O::ap(a, S(s)); reads2(e, z, w4.c_str()); if(!bitsv(elems2(a).v, x.v)) mc::fail("operands:" + w4, "operand changed");
            if constexpr(K != 8 && K != 4 && K != 3 && K != 7) if constexpr(O::template hascomp<std::remove_cvref_t<decltype(a)>, Strict<T>>) { O::comp(a, S(s)); mc::step(); if(!bitsv(elems2(a).v, z.v)) mc::fail("compound:" + w4, "compound %s %s gave %s", w4.c_str(), str(s).c_str(), str(elems2(a)).c_str()); } }); }
#endif
      res(w1.c_str(), zl); res(w2.c_str(), zr); mc::trace();
   }
}
template <class L, class T> std::vector<T> map(const std::vector<T>& v, L l) { std::vector<T> r; for(T x : v) r.push_back(l(x)); return r; }
template <class T> std::vector<T> only(const std::vector<T>& v, auto p) { std::vector<T> r; for(T x : v) if(p(x)) r.push_back(x); return r; }

// one unary operation over every kind
template <int K, class T, class LibF, class F> void un_op(const std::vector<T>& x, const char* name, LibF lf, F f) {
   auto z = map(x, f);
   for(int small = 0; small < 2; ++small) {
      auto xs = x, zs = z;
      if(small) { auto c = xs; auto d = zs; while(xs.size() < 6) { xs.insert(xs.end(), c.begin(), c.end()); zs.insert(zs.end(), d.begin(), d.end()); } xs.resize(6); zs.resize(6); }
      const std::string w = std::string(tname<T>()) + ": " + name + "(" + kname1[K] + ")", w2 = std::string(tname<T>()) + ": " + name + "(" + kname2[K] + ")";
      mc::at("%s", w.c_str());
#if C07_DIM == 1
      kind1<K>(xs, [&](auto&& a, auto set) { auto e = lf(a); reads1(e, zs, w.c_str()); if(!bitsv(elems(a), xs)) mc::fail("operands:" + w, "operand changed"); set(0, xs.back()); mc::step(); if(!bits(e.un(0).val(), T(zs.back()))) mc::fail("lazy:" + w, "change of operand not seen"); });
#else
      auto X = mat(xs, small ? 2 : (xs.size() + 2) / 3, 3), Z = mat(zs, X.r, 3);
      kind2<K>(X, [&](auto&& a, auto set) { auto e = lf(a); reads2(e, Z, w2.c_str()); if(!bitsv(elems2(a).v, X.v)) mc::fail("operands:" + w2, "operand changed"); set(0, X.v.back()); mc::step(); if(!bits(e.un(0, 0).val(), T(Z.v.back()))) mc::fail("lazy:" + w2, "change of operand not seen"); });
#endif
      res(w.c_str(), zs); mc::trace();
   }
}
template <int K, class T> void unaries() {
   auto D = dom<T>();
   constexpr bool B = std::is_same_v<T, bool>, I = std::is_integral_v<T> && !B, F = !std::is_integral_v<T>;
   auto nomin = only(D, [](T x) { if constexpr(std::is_integral_v<T> && std::is_signed_v<T>) return x != std::numeric_limits<T>::min(); else return true; });
   if constexpr(B) un_op<K>(D, "!", [](auto& a) { return !a; }, [](T x) { return !x; });
   else {
      un_op<K>(D, "+", [](auto& a) { return +a; }, [](T x) { return x; });
      if constexpr(!(std::is_integral_v<T> && std::is_unsigned_v<T>)) un_op<K>(nomin, "-", [](auto& a) { return -a; }, [](T x) { return T(-x); });
      un_op<K>(only(nomin, [](T x) { return x != 0; }), "abs", [](auto& a) { return abs(a); }, [](T x) { return x < 0 ? T(-x) : x; });
      if constexpr(I) un_op<K>(D, "~", [](auto& a) { return ~a; }, [](T x) { return T(~x); });
   }
   // user supplied operations
   un_op<K>(D, "user", [](auto& a) { return generate(a, [](Strict<T> x) { return x == Strict<T>{T(1)} ? Strict<T>{T(0)} : x; }); }, [](T x) { return x == T(1) ? T(0) : x; });
   { Strict<T> k{T(1)}; un_op<K>(D, "user-capture", [k](auto& a) { return generate(a, [k](Strict<T> x) { return x == k ? Strict<T>{T(0)} : x; }); }, [](T x) { return x == T(1) ? T(0) : x; }); }
   if constexpr(F && !std::is_same_v<T, float128>) {
#define MF(f) un_op<K>(D, #f, [](auto& a) { return f(a); }, [](T x) { return std::f(x); });
#define MFS(f) un_op<K>(D, #f, [](auto& a) { return f(a); }, [](T x) { return f##s(S(x)).val(); });
      if constexpr(!std::is_same_v<T, float> && !std::is_same_v<T, long double>) { MF(exp) MF(log) MF(log2) MF(log10) MF(sqrt) MF(cbrt) MF(sin) MF(cos) MF(tan) }
      else { MF(sqrt) }
      for(T p : {T(0), T(1), T(-1), T(0.5), T(2), std::numeric_limits<T>::infinity()}) un_op<K>(D, "pow", [p](auto& a) { return pow(a, S(p)); }, [p](T x) { return std::pow(x, p); });
      for(int p : {0, 1, 2, -1, -3, 5}) { un_op<K>(D, "pow_int", [p](auto& a) { return pow_int(a, p); }, [p](T x) { return std::pow(x, T(p)); }); }
   }
   if constexpr(F) {
      un_op<K>(D, "inv", [](auto& a) { return inv(a); }, [](T x) { return T(1) / x; });
      for(int p : {0, 1, 2, 3, -1, -2}) un_op<K>(std::vector<T>{T(1), T(2), T(-3), T(0.5), T(-0.25), T(7)}, "fast_pow_int", [p](auto& a) { return fast_pow_int(a, p); }, [p](T x) { T r = 1; for(int i = 0; i < std::abs(p); ++i) r *= x; return p < 0 ? T(1) / r : r; });
   }
}
// casts between every pair of types on values representable in both, and operations changing the type
template <class T, class U, int K> void casts() {
   std::vector<T> x; std::vector<U> z;
   for(T v : dom<T>()) { long double d = (long double)v; if(isnan_(v)) continue;
      if constexpr(std::is_integral_v<U> && !std::is_same_v<U, bool>) { if(d < (long double)std::numeric_limits<U>::min() || d > (long double)std::numeric_limits<U>::max()) { if constexpr(!std::is_integral_v<T>) continue; } }
      x.push_back(v); z.push_back(static_cast<U>(v)); }
   const std::string w = std::string("array_cast<") + tname<U>() + ">(" + tname<T>() + " " + kname1[K] + ")";
   mc::at("%s", w.c_str());
#if C07_DIM == 1
   kind1<K>(x, [&](auto&& a, auto) { auto e = array_cast<U>(a); reads1(e, z, w.c_str()); Array1D<U> c(array_cast<U>(a)); mc::step(); if(!bitsv(elems(c), z)) mc::fail("cast:" + w, "wrong"); });
   { std::vector<double> zz; for(T v : x) zz.push_back(v == x[0] ? 0.5 : 2); T f = x[0]; kind1<K>(x, [&](auto&& a, auto) { auto e = generate(a, [f](Strict<T> v) { return v == S(f) ? Strict{0.5} : Strict{2.}; }); reads1(e, zz, "type-changing user operation"); });
     std::vector<bool> bb; for(T v : x) bb.push_back(v == f); kind1<K>(x, [&](auto&& a, auto) { auto e = generate(a, [f](Strict<T> v) { return v == S(f); }); reads1(e, bb, "element-wise predicate"); }); }
#else
   if(x.size() >= 2) { auto X = mat(x, (x.size() + 1) / 2, 2); auto Z = mat(z, X.r, 2); kind2<K>(X, [&](auto&& a, auto) { auto e = array_cast<U>(a); reads2(e, Z, w.c_str()); }); }
#endif
   res(w.c_str(), z); mc::trace();
}

template <class T, class U> void gen_binary() {   // user-supplied binary operation on operands of two types, giving a third
   std::vector<T> x; std::vector<U> y; std::vector<bool> z; std::vector<T> z2;
   for(T a : dom<T>()) for(U b : dom<U>()) { x.push_back(a); y.push_back(b); z.push_back((a == T(1)) != (b == U(1))); z2.push_back(b == U(1) ? a : T(0)); }
   mc::at("generate(%s, %s, f)", tname<T>(), tname<U>());
#if C07_DIM == 1
   auto A = mk1<T, Unaligned>(x); auto B = mk1<U, Aligned>(y);
   auto e = generate(A, B, [](Strict<T> a, Strict<U> b) { return StrictBool{(a.val() == T(1)) != (b.val() == U(1))}; }); reads1(e, z, "generate(A,B) to bool");
   auto e2 = generate(A, B(place::all), [](Strict<T> a, Strict<U> b) { return b.val() == U(1) ? a : Strict<T>{T(0)}; }); reads1(e2, z2, "generate(A,slice)");
   B.un(0) = Strict<U>{U(1)}; mc::step(); if(!bits(e2.un(0).val(), x[0])) mc::fail("lazy:generate2", "change not seen");
   Array1D<U> C(A.size() + 1_sl); if(!throws([&] { auto q = generate(A, C, [](Strict<T> a, Strict<U>) { return a; }); (void)q; })) mc::fail("mismatch:generate2", "operands of different sizes accepted");
#else
   auto X = mat(x, (x.size() + 2) / 3, 3); auto Y = mat(y, X.r, 3); Mat<bool> Z = mat(z, X.r, 3); Mat<T> Z2 = mat(z2, X.r, 3);
   auto A = mk2<T, Unaligned>(X); auto B = mk2<U, Aligned>(Y);
   auto e = generate(A, B, [](Strict<T> a, Strict<U> b) { return StrictBool{(a.val() == T(1)) != (b.val() == U(1))}; }); reads2(e, Z, "generate(A,B) to bool");
   auto e2 = generate(A, B(place::all, place::all), [](Strict<T> a, Strict<U> b) { return b.val() == U(1) ? a : Strict<T>{T(0)}; }); reads2(e2, Z2, "generate(A,slice)");
   Array2D<U> C(A.cols(), A.rows()); if(!throws([&] { auto q = generate(A, C, [](Strict<T> a, Strict<U>) { return a; }); (void)q; })) mc::fail("mismatch:generate2", "operands of different shapes accepted");
#endif
   res("generate2", z2); mc::trace();
}

// Nested expressions: (x O1 y) O2 z and x O1 (y O2 z) for every pair of operations, at every triple of values on which all steps are defined.
template <class O1, class O2, class T> void nest() {
   std::vector<T> X, Y, Z, L; std::vector<T> X2, Y2, Z2, R;
   auto D = dom<T>(); if(D.size() > 9) { std::vector<T> d; for(std::size_t i = 0; i < D.size(); ++i) if(i % 2 == 0 || i + 1 == D.size() || D[i] == T(1) || D[i] == T(0)) d.push_back(D[i]); D = d; }
   for(T x : D) for(T y : D) for(T z : D) { T a, b; if(O1::template ev<T>(x, y, a) && O2::template ev<T>(a, z, b)) { X.push_back(x); Y.push_back(y); Z.push_back(z); L.push_back(b); }
      if(O2::template ev<T>(y, z, a) && O1::template ev<T>(x, a, b)) { X2.push_back(x); Y2.push_back(y); Z2.push_back(z); R.push_back(b); } }
   const std::string w = std::string("(x ") + O1::n + " y) " + O2::n + " z", w2 = std::string("x ") + O1::n + " (y " + O2::n + " z)";
   mc::at("%s: %s / %s", tname<T>(), w.c_str(), w2.c_str());
#if C07_DIM == 1
   auto go = [&](auto& X, auto& Y, auto& Z, auto& R, auto&& f, const std::string& w) {
      auto a = mk1<T, Unaligned>(X); auto b = mk1<T, Aligned>(Y); auto rz = Z; std::reverse(rz.begin(), rz.end()); auto c = mk1<T, Unaligned>(rz);
      auto e = f(a, b, c(place::reverse)); mc::step();
      if(e.size().val() != (long)X.size() || !bitsv(elems(e), R)) mc::fail("nested:" + w, "%s is wrong", w.c_str());
      Array1D<T> d(e.size()); d = e; if(!bitsv(elems(d), R)) mc::fail("nested:" + w, "%s assigned is wrong", w.c_str());
      if(!bitsv(elems(a), X) || !bitsv(elems(b), Y) || !bitsv(elems(c), rz)) mc::fail("operands:" + w, "operand changed");
      a = f(a, b, c(place::reverse)); mc::step(); if(!bitsv(elems(a), R)) mc::fail("self:" + w, "assigning %s to its own operand is wrong", w.c_str());
   };
#else
   auto go = [&](auto& X, auto& Y, auto& Z, auto& R, auto&& f, const std::string& w) {
      const long r = (X.size() + 2) / 3; if(!r) return; auto mx = mat(X, r, 3), my = mat(Y, r, 3), mz = mat(Z, r, 3), mr = mat(R, r, 3);
      auto a = mk2<T, Unaligned>(mx); auto b = mk2<T, Aligned>(my); Mat<T> zm = mz; for(long i = 0; i < r; ++i) for(long j = 0; j < 3; ++j) zm(i, j) = mz(r - 1 - i, j); auto c = mk2<T, Unaligned>(zm);
      auto e = f(a, b, c(place::reverse, place::all)); mc::step();
      if(e.rows().val() != r || e.cols().val() != 3 || !bitsv(elems2(e).v, mr.v)) mc::fail("nested:" + w, "%s is wrong", w.c_str());
      Array2D<T> d(e.rows(), e.cols()); d = e; if(!bitsv(elems2(d).v, mr.v)) mc::fail("nested:" + w, "%s assigned is wrong", w.c_str());
      for(long i = 0; i < r; ++i) for(long j = 0; j < 3; ++j) if(!bits(e(i, j).val(), mr(i, j))) { mc::fail("nested()", "%s", w.c_str()); return; }
      a = f(a, b, c(place::reverse, place::all)); mc::step(); if(!bitsv(elems2(a).v, mr.v)) mc::fail("self:" + w, "assigning %s to its own operand is wrong", w.c_str());
   };
#endif
   go(X, Y, Z, L, [](auto& x, auto& y, auto&& z) { return O2::ap(O1::ap(x, y), z); }, w);
   go(X2, Y2, Z2, R, [](auto& x, auto& y, auto&& z) { return O1::ap(x, O2::ap(y, z)); }, w2);
   res(w.c_str(), L); res(w2.c_str(), R); mc::trace();
}
// x op= x, x = x op x and undefined elements inside an expression
template <class O, class T> void self_and_errors() {
   std::vector<T> X, Z; for(T v : dom<T>()) { T r; if(O::template ev<T>(v, v, r)) { X.push_back(v); Z.push_back(r); } }
   mc::at("%s: self %s", tname<T>(), O::n);
   if(X.empty()) return;
#if C07_DIM == 1
   { auto a = mk1<T, Unaligned>(X); if constexpr(O::template hascomp<Array1D<T>, Array1D<T>>) { O::comp(a, a); mc::step(); if(!bitsv(elems(a), Z)) mc::fail(std::string("self-compound:") + O::n, "x op= x is wrong"); } }
   { auto a = mk1<T, Unaligned>(X); a = O::ap(a, a); mc::step(); if(!bitsv(elems(a), Z)) mc::fail(std::string("self-assign:") + O::n, "x = x op x is wrong"); }
   if constexpr(std::is_integral_v<T> && (std::is_same_v<O, Div> || std::is_same_v<O, Mod> || ((std::is_same_v<O, Shl> || std::is_same_v<O, Shr>) && std::is_signed_v<T>))) {
      constexpr bool sh = std::is_same_v<O, Shl> || std::is_same_v<O, Shr>;
      const T badv = sh ? T(-1) : T(0);
      for(long n : {1L, 2L, 4L}) for(long k = 0; k < n; ++k) for(int side = 0; side < (sh ? 2 : 1); ++side) {   // exactly one undefined element: everything else can still be read
         std::vector<T> x(n, T(9)), y(n, T(2)); (side ? x : y)[k] = badv; T r; O::template ev<T>(T(9), T(2), r);
         mc::at("%s: %s with an undefined element at %ld of %ld", tname<T>(), O::n, k, n);
         auto a = mk1<T, Unaligned>(x); auto b = mk1<T, Unaligned>(y);
         auto e = O::ap(a, b);
         for(long i = 0; i < n; ++i) { T got{}; bool t = throws([&] { got = e.un(i).val(); }); mc::step(); if(t != (i == k) || (!t && got != r)) mc::fail(std::string("undefined:") + O::n, "element %ld", i); }
         if(!throws([&] { Array1D<T> c(e); })) mc::fail(std::string("undefined-construct:") + O::n, "not reported");
         if(!throws([&] { Array1D<T> c(n); c = e; })) mc::fail(std::string("undefined-assign:") + O::n, "not reported");
         if(!throws([&] { O::comp(a, b); })) mc::fail(std::string("undefined-compound:") + O::n, "not reported");
         auto a2 = mk1<T, Unaligned>(x); if(!side && !throws([&] { O::comp(a2, S(badv)); })) mc::fail(std::string("undefined-scalar:") + O::n, "not reported");
         mc::step(4);
      }
   }
#else
   { auto m = mat(X, (X.size() + 1) / 2, 2), z = mat(Z, m.r, 2); auto a = mk2<T, Unaligned>(m); if constexpr(O::template hascomp<Array2D<T>, Array2D<T>>) { O::comp(a, a); mc::step(); if(!bitsv(elems2(a).v, z.v)) mc::fail(std::string("self-compound:") + O::n, "x op= x is wrong"); }
     auto b = mk2<T, Unaligned>(m); b = O::ap(b, b); mc::step(); if(!bitsv(elems2(b).v, z.v)) mc::fail(std::string("self-assign:") + O::n, "x = x op x is wrong"); }
#endif
   res(O::n, Z); mc::trace();
}
template <class T> void prods() {
   if constexpr(!std::is_integral_v<T> && !std::is_same_v<T, float128>) {
#if C07_DIM == 1
      std::vector<T> x, y, p, q; std::vector<int> k; std::vector<T> pp, pq, px;
      for(T a : dom<T>()) for(T b : dom<T>()) { x.push_back(a); y.push_back(b); auto r = two_prods(S(a), S(b)); p.push_back(a * b); q.push_back(std::fma(a, b, -(a * b))); }
      auto A = mk1<T, Unaligned>(x); auto B = mk1<T, Unaligned>(y);
      mc::at("two_prod"); auto [e1, e2] = two_prod(A, B); reads1(e1, p, "two_prod.first"); reads1(e2, q, "two_prod.second");
      for(T a : {T(1), T(2), T(0.1), T(-3), T(0)}) for(int b : {0, 1, 2, 3, 4, 5, 6, 7, 9}) { px.push_back(a); k.push_back(b); auto r = pow_prods(S(a), b); pp.push_back(r.first.val()); pq.push_back(r.second.val()); }
      mc::at("pow_prod"); auto C = mk1<T, Unaligned>(px); auto K = mk1<int, Unaligned>(k); auto [f1, f2] = pow_prod(C, K); reads1(f1, pp, "pow_prod.first"); reads1(f2, pq, "pow_prod.second");
      mc::trace();
#endif
   }
}
#if C07_DIM == 1
#define BIN bin1
constexpr int NK = NK1;
#else
#define BIN bin2
constexpr int NK = NK2;
#endif
template <class O, int K> void both() { BIN<O, 0, K, T0>(); BIN<O, K, 0, T0>(); }
template <class O, int... K> void allkinds(std::integer_sequence<int, K...>) { (both<O, K>(), ...); (scal<O, K, T0>(), ...); }
template <int... K> void allun(std::integer_sequence<int, K...>) { (unaries<K, T0>(), ...); }
using OO = OpsOf<T0>::t;
struct First_ { template <class A, class B, class... C> static B f(Ops<A, B, C...>); };
}  // namespace

#if C07_G == 0
UNIT("every-kind") { using O = decltype(First_::f(OO{})); allkinds<O>(std::make_integer_sequence<int, NK>{}); }
UNIT("self") { each(OO{}, []<class O>() { self_and_errors<O, T0>(); }); }
#elif C07_G == 1
UNIT("every-operation") { each(OO{}, []<class O>() { BIN<O, 0, 0, T0>(); BIN<O, 1, 3, T0>(); scal<O, 0, T0>(); }); }
UNIT("unary") { unaries<0, T0>(); unaries<1, T0>(); unaries<3, T0>(); }
UNIT("products") { prods<T0>(); mc::step(); }
#elif C07_G == 2
UNIT("nested") { each(OO{}, []<class A>() { each(OO{}, []<class B>() { nest<A, B, T0>(); }); }); }
#elif C07_G == 3
UNIT("casts") {
   casts<T0, bool, 0>(); casts<T0, int, 1>(); casts<T0, long, 0>(); casts<T0, unsigned, 2>(); casts<T0, unsigned long, 0>(); casts<T0, float, 3>(); casts<T0, double, 1>(); casts<T0, long double, 0>(); casts<T0, float128, 0>();
}
UNIT("generate2") { gen_binary<T0, int>(); gen_binary<T0, double>(); gen_binary<T0, bool>(); gen_binary<T0, float128>(); }
#elif C07_G == 5
// casts between every pair of types at the boundaries of both (powers of two and their neighbours, extremes)
template <class T> std::vector<T> cdom() {
   using L = std::numeric_limits<T>; std::vector<T> v; if constexpr(std::is_same_v<T, bool>) return {false, true};
   else {
      v = {T(0), T(1), T(2), T(7)};
      if constexpr(std::is_integral_v<T>) { for(int k = 2; k < L::digits; ++k) for(int d : {-1, 0, 1}) { v.push_back(T((T(1) << k) + d)); if constexpr(std::is_signed_v<T>) v.push_back(T(-(T(1) << k) + d)); } v.push_back(L::max()); v.push_back(T(L::max() - 1)); v.push_back(L::min()); v.push_back(T(L::min() + 1)); }
      else { T w = 1; for(int k = 0; k <= 66; ++k, w *= 2) for(T d : {T(-0.75), T(-0.5), T(-0.25), T(0), T(0.25), T(0.5), T(0.75), T(-1), T(1)}) { v.push_back(w + d); v.push_back(-w + d); v.push_back(w * (1 + d / 1024)); }
         v.push_back(-T(0)); v.push_back(T(1) / 3); v.push_back(T(1) / 10); v.push_back(T(1e30)); v.push_back(T(-1e-30)); if(sizeof(T) > 4) { v.push_back(T(1e300)); v.push_back(T(1e-300)); v.push_back(T(1e38) * 4); } v.push_back(T(1) / T(0)); v.push_back(T(-1) / T(0)); v.push_back(T(0) / T(0)); }
      return v;
   }
}
template <class T, class U> void cast_pair() {
   std::vector<T> x; std::vector<U> z; const std::string w = std::string("array_cast<") + tname<U>() + ">(" + tname<T>() + ")";
   for(T v : cdom<T>()) {
      if constexpr(!std::is_integral_v<T> && std::is_integral_v<U> && !std::is_same_v<U, bool>) { const float128 q = truncq((float128)v); if(isnan_(v) || q < (float128)std::numeric_limits<U>::min() || q > (float128)std::numeric_limits<U>::max()) continue; }
      x.push_back(v); z.push_back(static_cast<U>(v)); }
   mc::at("%s", w.c_str());
   Array1D<T> a((long)x.size()); for(std::size_t i = 0; i < x.size(); ++i) a.un((long)i) = Strict<T>{T(x[i])};
   auto e = array_cast<U>(a); Array1D<U> c(e); Array2D<U> d(array_cast<U>(a.view2D(1, (long)x.size())));
   for(std::size_t i = 0; i < x.size(); ++i) { mc::step(); mc::state(std::hash<std::string>{}(w + str(T(x[i])))); if(!bits(e.un((long)i).val(), U(z[i])) || !bits(c.un((long)i).val(), U(z[i])) || !bits(d.un(0, (long)i).val(), U(z[i]))) mc::fail("cast:" + w, "%s of %s is %s instead of %s", w.c_str(), str(T(x[i])).c_str(), str(e.un((long)i).val()).c_str(), str(U(z[i])).c_str()); }
   mc::trace();
}
template <class T, class... U> void cast_row() { (cast_pair<T, U>(), ...); }
template <class... T> void cast_all() { (cast_row<T, bool, int, long, unsigned, unsigned long, float, double, long double, float128>(), ...); }
UNIT("casts between every pair of types") { cast_all<bool, int, long, unsigned, unsigned long, float, double, long double, float128>(); }
#elif C07_G == 6
UNIT("every-operation, plain arrays") { each(OO{}, []<class O>() { BIN<O, 0, 0, T0>(); scal<O, 0, T0>(); }); }
UNIT("unary, plain arrays") { unaries<0, T0>(); }
#elif C07_G == 4
UNIT("unary-every-kind") { allun(std::make_integer_sequence<int, NK>{}); }
#endif
