// C19: the same valid programs in every build configuration (their results are compared between the
// executables), and the same invalid operations, each of which has to be stopped.
#include "kinds.hpp"
#include "slices.hpp"
#include <fstream>
#include <sys/wait.h>

namespace {
#ifndef C19_T
#define C19_T double
#endif
#ifndef C19_AF
#define C19_AF Unaligned
#endif
#ifndef C19_PART
#define C19_PART 0
#endif
using T = C19_T;
using V = std::vector<T>;
using M = Mat<T>;
constexpr AlignmentFlag AF = C19_AF;
using A1 = Array1D<T, AF>;
using A2 = Array2D<T, AF>;
constexpr bool FL = !std::is_integral_v<T>, BO = std::is_same_v<T, bool>, UN = std::is_integral_v<T> && std::is_unsigned_v<T> && !BO, IN = !FL && !BO, SG = IN && !UN;
constexpr bool QU = FL && sizeof(T) == 16 && !std::is_same_v<T, long double>;
#ifndef C19_KS
#define C19_KS 0, 2, 3
#endif
template <class F> void ks(F&& f) { [&]<int... K>(std::integer_sequence<int, K...>) { (f.template operator()<K>(), ...); }(std::integer_sequence<int, C19_KS>{}); }

// Values on which every operation below is defined.
V vals() {
   if constexpr(BO) return {true, false, true, true, false, true};
   else if constexpr(UN) return {T(3), T(1), T(7), T(2), T(9), T(5)};
   else if constexpr(FL) return {T(1.5), T(-2.25), T(0.1), T(3), T(-7), T(1) / T(3)};
   else return {T(3), T(-1), T(7), T(-2), T(9), T(5)};
}
V vals2() {
   if constexpr(BO) return {false, false, true, false, true, true};
   else if constexpr(FL) return {T(0.3), T(11), T(-0.7), T(2), T(1e-3), T(5)};
   else return {T(2), T(4), T(1), T(3), T(5), T(7)};
}
V cut(const V& v, long n) { V r; for(long i = 0; i < n; ++i) r.push_back(v[i % v.size()]); return r; }
M mat(const V& v, long r, long c) { M m; m.r = r; m.c = c; m.v = cut(v, r * c); return m; }

// ---- digests of everything that can be read from an object
template <class X> std::uint64_t dg(const X& x);
// Only the reading; the rest of what can be done with an object is in full1 / full2.
template <class X> std::uint64_t dg1(const X& a) {
   std::uint64_t h = mc::mix(1, a.size().val());
   const long n = a.size().val();
   for(long i = 0; i < n; ++i) { h = mc::mix(h, hv(a.un(i).val())); h = mc::mix(h, hv(a[i].val())); }
   for(auto x : a) h = mc::mix(h, hv(x.val()));
   return h;
}
template <class X> std::uint64_t full1(const X& a) {
   std::uint64_t h = dg1(a); h = mc::mix(h, a.empty().val()); h = mc::mix(h, a.size_m1().val());
   const long n = a.size().val();
   for(long i = 0; i < n; ++i) { h = mc::mix(h, hv(a.at(i).val())); h = mc::mix(h, hv(a[last - (n - 1 - i)].val())); }
   for(auto it = a.cbegin(); it != a.cend(); ++it) h = mc::mix(h, hv((*it).val()));
   for(auto it = a.crbegin(); it != a.crend(); ++it) h = mc::mix(h, hv((*it).val()));
   using U = typename X::builtin_type;
   { Array1D<U, AF> b(a); Array1D<U, AF> c(n); c = a; h = mc::mix(h, dg1(b)); h = mc::mix(h, dg1(c)); c(place::reverse) = a; c.resize_and_assign(a); h = mc::mix(h, dg1(c)); }
   h = mc::mix(h, dg1(a(place::even)));
   return h;
}
template <class X> std::uint64_t dg2(const X& a) {
   const long r = a.rows().val(), c = a.cols().val();
   std::uint64_t h = mc::mix(mc::mix(mc::mix(2, r), c), a.size().val());
   for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) { h = mc::mix(h, hv(a.un(i, j).val())); h = mc::mix(h, hv(a(i, j).val())); h = mc::mix(h, hv(a.un(i * c + j).val())); }
   return h;
}
template <class X> std::uint64_t full2(const X& a) {
   const long r = a.rows().val(), c = a.cols().val();
   std::uint64_t h = dg2(a);
   for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) { h = mc::mix(h, hv(a.at(i, j).val())); h = mc::mix(h, hv(a(last - (r - 1 - i), last - (c - 1 - j)).val()));
#ifdef __cpp_multidimensional_subscript
      if(!(hv(a[i, j].val()) == hv(a(i, j).val()))) mc::fail("subscript", "a[i, j] is not a(i, j)");
#endif
   }
   for(auto x : a.view1D()) h = mc::mix(h, hv(x.val()));
   for(long i = 0; i < r; ++i) h = mc::mix(h, dg1(a.row(i)));
   for(long j = 0; j < c; ++j) h = mc::mix(h, dg1(a.col(j)));
   using U = typename X::builtin_type;
   { Array2D<U, AF> b(a); Array2D<U, AF> d(r, c); d = a; h = mc::mix(h, dg2(b)); h = mc::mix(h, dg2(d)); d(place::reverse, place::all) = a; d.resize_and_assign(a); h = mc::mix(h, dg2(d)); }
   if(r && c) { h = mc::mix(h, dg1(a.diag(0))); h = mc::mix(h, dg2(a.block(0, 0, r - 1, 0))); }
   return h;
}
template <class X> std::uint64_t dg(const X& x) {
   if constexpr(requires { x.rows(); }) return dg2(x);
   else if constexpr(requires { x.size_m1(); }) return dg1(x);
   else if constexpr(requires { x.has_value(); }) return x.has_value() ? mc::mix(5, dg(*x)) : 6;
   else if constexpr(requires { std::get<2>(x); }) return mc::mix(mc::mix(dg(std::get<0>(x)), dg(std::get<1>(x))), dg(std::get<2>(x)));
   else if constexpr(requires { x.first; x.second; }) return mc::mix(dg(x.first), dg(x.second));
   else if constexpr(requires { x.val(); }) return hv(x.val());
   else if constexpr(std::is_same_v<X, std::string>) { std::uint64_t h = 3; for(char c : x) h = mc::mix(h, c); return h; }
   else if constexpr(std::is_arithmetic_v<X>) return (std::uint64_t)x;
   else { std::uint64_t h = x.size(); for(auto& e : x) h = mc::mix(h, dg(e)); return h; }
}
std::string ctx;
#ifndef C19_INVALID
template <class X> void D(const std::string& id, const X& x) { mc::at("%s: %s %s", tname<T>(), id.c_str(), ctx.c_str()); mc::digest(id + " " + ctx, dg(x)); mc::trace(); }
template <class X> void F(const std::string& id, const X& x) { mc::at("%s: %s %s", tname<T>(), id.c_str(), ctx.c_str()); if constexpr(requires { x.rows(); }) mc::digest(id + " in full " + ctx, full2(x)); else mc::digest(id + " in full " + ctx, full1(x)); mc::trace(); }
#define E(...) D(#__VA_ARGS__, (__VA_ARGS__))

#if C19_PART == 0
// ------------------------------------------------------------------ scalars
template <class T> void scalars() {
   V vs = vals(), ws = vals2();
   if constexpr(FL) { T z = 0; for(T x : {T(0), -z, T(1) / z, T(1e30), T(0.5), T(2), std::numeric_limits<T>::has_quiet_NaN ? std::numeric_limits<T>::quiet_NaN() : T(__builtin_nan(""))}) { vs.push_back(x); ws.push_back(x); } }
   if constexpr(IN) { vs.push_back(0); vs.push_back(std::numeric_limits<T>::max()); ws.push_back(1); ws.push_back(20); }
   for(T xx : vs) {
      const auto x = S(xx); ctx = str(xx);
      if constexpr(BO) { E(!x); E(x.sb()); E(x.si()); E(x.sui()); E(x.sd()); }
      else {
         const auto w = SL<T>(3);
         E(+x); if constexpr(!UN) E(-x); E(x.sb()); if constexpr(!FL) E(x.sl()); E(x.sd()); E(x.sld()); E(x.sf());
         { auto y = w; E(++y); E(y++); E(y--); E(--y); E(y); }
         if constexpr(!UN) { E(abss(x)); }
         if constexpr(IN) { E(~x); E(x & w); E(x | w); E(x ^ w); E(x % w); }
         if constexpr(FL) {
            E(sqrts(x)); E(cbrts(x)); E(exps(x)); E(logs(x)); E(log2s(x)); E(log10s(x)); E(sins(x)); E(coss(x)); E(tans(x)); E(floors(x)); E(ceils(x)); E(isinfs(x)); E(isnans(x)); E(isfinites(x)); E(invs(x)); E(squares(x)); E(cubes(x));
            for(int k : {-9, -1, 0, 1, 2, 3, 10, 17}) { ctx = str(xx) + " " + std::to_string(k); E(pows_int(x, k)); E(fast_pows_int(x, k)); if(k >= 0) E(pow_prods(x, k)); }
            ctx = str(xx);
         }
         if constexpr(requires { signs(x); }) E(signs(x));
      }
      for(T yy : ws) {
         const auto y = S(yy); ctx = str(xx) + "," + str(yy);
         E(x == y); E(x != y);
         if constexpr(BO) { E(x && y); E(x || y); E(x ^ y); }
         else {
            E(x < y); E(x <= y); E(x > y); E(x >= y); E(mins(x, y)); E(maxs(x, y));
            const bool big = IN && (xx > 1000 || yy > 1000);
            if(!big && !(UN && xx < yy)) E(x - y);
            if(!big) { E(x + y); E(x * y); auto z = x; E(z += y); z = x; E(z *= y); if(!(UN && xx < yy)) { z = x; E(z -= y); } }
            if(FL || yy != T(0)) { E(x / y); auto z = x; E(z /= y); if constexpr(IN) { E(x % y); z = x; E(z %= y); } }
            if constexpr(IN) { E(x & y); E(x | y); E(x ^ y); auto z = x; E(z &= y); E(z |= y); E(z ^= y); if(xx >= 0 && xx < 100 && yy >= 0 && yy < 20) { E(x << y); E(x >> y); z = x; E(z <<= y); E(z >>= y); } }
            if constexpr(FL) { E(pows(x, y)); E(fmas(x, y, x)); E(two_sums(x, y)); E(two_prods(x, y)); E(abs_error(x, y)); if(yy != 0 && yy == yy) E(rel_error(x, y)); if(!isnan_(xx) && !isnan_(yy)) { E(within_tol_abs(x, y, SL<T>(1))); E(within_tol_rel(x, y, SL<T>(1))); } }
         }
      }
   }
   if constexpr(std::is_same_v<T, long>) { for(int n = 0; n <= 20; ++n) { ctx = std::to_string(n); E(factorial(n)); for(int k = 0; k <= n; ++k) { ctx = std::to_string(n) + "," + std::to_string(k); E(binom_coeff(n, k)); } } }
   ctx = "";
   if constexpr(FL) for(int k = -5; k <= 5; ++k) { ctx = std::to_string(k); E(exps_int<T>(k)); }
   // seeded generation
   if constexpr(!BO) for(unsigned s : {0u, 1u, 7u, 12345u}) { ctx = std::to_string(s); E(semi_rands<T>(SL<T>(2), SL<T>(9), Seed{s})); E(semi_rands<T>(Seed{s})); { auto r = semi_random<T>(Size{5}, Low{SL<T>(2)}, High{SL<T>(9)}, Seed{s}); A1 q(r); E(q); } { auto r = semi_random<T>(Rows{2}, Cols{3}, Seed{s}); A2 q(r); E(q); } A1 a(6); spp::semi_random(a, SL<T>(1), SL<T>(9), Seed{s}); E(a); }
}
UNIT("scalars") { scalars<T>(); }
#endif

// user operations
template <class X> auto sum_all(const X& a) { std::uint64_t h = 0; spp::for_each(a, [&](auto y) { h = mc::mix(h, hv(y.val())); }); return h; }
struct Twice { template <class X> auto operator()(X x) const { if constexpr(std::is_same_v<X, StrictBool>) return !x; else return x + x; } };

#if C19_PART == 1
// ------------------------------------------------------------------ one-dimensional objects
template <int K, class T> void one1(long n) {
   const V v = cut(vals(), n), w = cut(vals2(), n);
   kind1<K>(v, [&](auto&& a, auto set) {
      ctx = std::string(kname1[K]) + " " + std::to_string(n);
      auto b = mk1<T, AF>(w); const auto x = S(T(vals2()[0]));
      F("a", a); { auto g = generate(a, Twice{}); F("generate", g); } E(array_cast<T>(a)); E(array_cast<int>(a)); E(merge(a, b)); E(merge(b, a, b)); E(merge(a, x)); E(merge(x, a)); D("for_each", sum_all(a));
      E(spp::equal(a, a)); E(row_broadcast(a)); E(irange(a)); if constexpr(!BO) E(tensor_prod(a, b));
      if(n) { E(exclude(a, 0)); E(exclude(a, last)); E(exclude(a, n - 1, 1)); E(a.view2D(1, n)); E(irange_m1(a)); E(a.view1D()); E(a[last]); E(a(place::lastN{1})); E(a(seq{0, n - 1, 1})); E(a(place::complement{0})); }
      E(a(place::reverse)); E(a(place::even)); E(a(place::odd)); E(a(place::skipN{2})); E(a(seqN{0, n, 1})); E(a(place::firstN{n / 2}));
      if constexpr(BO) { E(!a); E(a && b); E(a || b); E(a ^ b); E(a && x); E(x || a); E(spp::all_of(a, x)); E(spp::any_of(a, x)); E(spp::none_of(a, x)); }
      else {
         E(+a); E(a + b); E(b * a); E(a * b + a); E(a + x); E(x + a); E(x * a); E(a * x); E(a / b); E(a / x); E(sum(a)); E(prod(a)); E(min(a)); E(max(a)); E(min_index(a)); E(max_index(a)); E(spp::dot_prod(a, b)); E(has_zero(a)); E(all_zeros(a)); E(all_pos(a)); E(all_neg(a)); E(all_non_neg(a)); E(all_non_pos(a));
         D("all_of", spp::all_of(a, [](auto y) { return y == y; })); D("any_of", spp::any_of(a, b, [](auto p, auto q) { return p < q; }));
         if constexpr(!UN) { E(-a); E(a - b); E(a - x); E(x - a); E(abs(a)); }
         if constexpr(IN) { E(~a); E(a % b); E(a & b); E(a | b); E(a ^ b); E(a % x); E(a & x); E(x | a); E(x ^ a); E(b << b); E(b >> b); E(b << x); E(x >> b); }
         if constexpr(FL) {
            E(exp(a)); E(sin(a)); E(cos(a)); E(tan(a)); E(cbrt(a)); E(inv(a)); E(fast_pow_int(a, 3)); E(pow_int(a, 3)); { auto p = abs(a); E(sqrt(p)); E(log(p)); E(log2(p)); E(log10(p)); E(pow(p, x)); }
            E(mean(a)); E(norm1(a)); E(norm2(a)); E(norm_inf(a)); E(norm_lp(a, 3)); E(norm1_scaled(a)); E(norm2_scaled(a)); E(norm_lp_scaled(a, 3)); E(has_inf(a)); E(has_nan(a)); E(all_finite(a));
            E(polynomial(a, x)); E(stable_sum(a)); E(stable_prod(a)); E(stable_mean(a)); E(stable_norm1(a)); E(stable_norm2(a)); E(stable_norm_lp(a, 3)); E(stable_dot_prod(a, b)); E(stable_polynomial(a, x)); E(semi_stable_sum(a)); E(semi_stable_dot_prod(a, b));
            E(within_tol_abs(a, b, SL<T>(1))); E(within_tol_rel(a, b, SL<T>(1))); if(n) { E(max_abs_error(a, b)); E(max_rel_error(a, b)); }
         }
         if constexpr(requires { a.un(0) = x; }) {
            auto back = [&] { for(long i = 0; i < n; ++i) set(i, v[i]); };
            a += b; E(a); back(); a *= b; E(a); back(); a /= b; E(a); back(); a += x; E(a); back(); a *= x; E(a); back(); a = b; E(a); back(); a = x; E(a); back(); spp::sort_increasing(a); E(a); spp::sort_decreasing(a); E(a); back(); 
            if constexpr(!UN) { a -= b; E(a); back(); }
            if constexpr(IN) { a %= b; E(a); back(); a &= b; E(a); a |= b; E(a); a ^= b; E(a); back(); }
            spp::for_each(a, [](auto& y) { y += y; }); E(a); back(); if(n) { a[0] = x; a.at(n - 1) = x; a[last] += x; E(a); } back(); 
            spp::semi_random(a, SL<T>(1), SL<T>(9), Seed{5u}); E(a); back();
         }
         E(spp::in_open_range(b, SL<T>(1), SL<T>(5))); E(spp::in_closed_range(b, SL<T>(1), SL<T>(5))); D("in_cond_range", spp::in_cond_range(b, [](auto y) { return y > SL<T>(2); }));
      }
   });
}
UNIT("1D") { for(long n : {0L, 1L, 3L, 6L, 7L}) ks([&]<int K>() { one1<K, T>(n); }); }
// every valid slice and slice of a slice
template <class X> void slices1(const X& a, long n, int depth) {
   std::vector<long> q;
   for(auto& d : depth == 2 ? dom_mid(n) : dom_tiny(n)) if(pick(d, n, q)) {
      const auto c = ctx; ctx += " " + show(d);
      with_slice(d, [&](auto s) { D("slice", a(s)); auto b = a(s); if(depth == 2) for(auto& e : dom_tiny(q.size())) { std::vector<long> p; if(pick(e, q.size(), p)) { const auto c2 = ctx; ctx += " of " + show(e); with_slice(e, [&](auto s2) { D("slice of slice", b(s2)); }); ctx = c2; } } });
      ctx = c;
   }
}
UNIT("slices") { for(long n : {0L, 1L, 2L, 5L}) { auto a = mk1<T, AF>(cut(vals(), n)); ctx = "array " + std::to_string(n); slices1(a, n, 2); auto e = generate(a, Twice{}); ctx = "expression " + std::to_string(n); slices1(e, n, 1); } }
template <class T> void specials() {
   ctx = "";
   for(long n : {0L, 1L, 4L}) { ctx = std::to_string(n); E(irange(n)); E(const1D(n, SL<T>(3))); E(const2D(n, n, SL<T>(3))); E(sequence(n, SL<long>(3), SL<long>(2)));
      if constexpr(!BO) { E(sequence(n, SL<T>(3), SL<T>(2))); for(long i = 0; i < n; ++i) { ctx = std::to_string(n) + "," + std::to_string(i); E(e_unit<T>(i, n)); } ctx = std::to_string(n); if(n) E(identity<T>(n)); }
      if constexpr(FL) if(n) E(linspace(n, SL<T>(0), SL<T>(1))); }
}
UNIT("constructors") { specials<T>(); }
#endif

#if C19_PART == 2
// ------------------------------------------------------------------ two-dimensional objects
template <int K, class T> void one2(long r, long c) {
   const M m = mat(vals(), r, c), w = mat(vals2(), r, c);
   const long n = r * c;
   kind2<K>(m, [&](auto&& a, auto set) {
      ctx = std::string(kname2[K]) + " " + std::to_string(r) + "x" + std::to_string(c);
      auto b = mk2<T, AF>(w); const auto x = S(T(vals2()[0])); auto wc = mk1<T, AF>(cut(vals2(), c));
      F("a", a); { auto g = generate(a, Twice{}); F("generate", g); } E(array_cast<T>(a)); E(transpose(a)); E(merge_horizontal(a, b)); E(merge_vertical(b, a)); E(merge_vertical(a, b, a)); E(merge_horizontal(b, b, a)); E(a.view1D()); E(spp::equal(a, a)); E(a.view2D(c, r));
      if(n) { E(row_broadcast(a.view1D())); E(a.rows(seq{0, r - 1})); E(a(place::reverse, place::even)); E(a(place::all, place::lastN{1})); E(a(seqN{0, r, 1}, seq{0, c - 1, 1})); E(a.cols(place::odd)); E(a.blockN(0, 0, r, c)); E(a.row(last)); E(a.col(0)); for(long k = -r + 1; k < c; ++k) E(a.diag(k)); E(a.block(0, 0, r - 1, c - 1)); E(irange_row(a)); E(irange_col(a)); }
      if constexpr(BO) { E(!a); E(a && b); E(a || b); E(a ^ b); E(a && x); E(x || a); }
      else {
         D("row_reduce", row_reduce(a, [](auto const& q) { return sum(q); })); D("col_reduce", col_reduce(a, [](auto const& q) { return sum(q); }));
         E(+a); E(a + b); E(b * a); E(a * b + a); E(a + x); E(x + a); E(x * a); E(a * x); E(a / b); E(a / x); E(sum(a)); E(prod(a)); E(min(a)); E(max(a)); E(min_index(a)); E(max_index(a)); E(has_zero(a)); E(all_pos(a)); E(matvec_prod(a, wc));
         if constexpr(!UN) { E(-a); E(a - b); E(a - x); E(x - a); E(abs(a)); }
         if constexpr(IN) { E(~a); E(a % b); E(a & b); E(a | b); E(a ^ b); E(b << b); E(b >> b); }
         if constexpr(FL) { E(exp(a)); E(inv(a)); E(fast_pow_int(a, 3)); E(mean(a)); E(norm1(a)); E(norm2(a)); E(norm_inf(a)); E(stable_sum(a)); E(stable_norm2(a)); E(within_tol_abs(a, b, SL<T>(1))); E(within_tol_rel(a, b, SL<T>(1))); if(n) { E(max_abs_error(a, b)); E(max_rel_error(a, b)); } }
         if constexpr(requires { a.un(0) = x; }) {
            auto back = [&] { for(long i = 0; i < n; ++i) set(i, m.v[i]); };
            a += b; E(a); back(); a *= b; E(a); back(); a /= b; E(a); back(); a += x; E(a); back(); a *= x; E(a); back(); a = b; E(a); back(); a = x; E(a); back(); spp::sort_increasing(a); E(a); back();
            if(n) { a(0, 0) = x; a.at(r - 1, c - 1) = x; a(last, 0) += x; E(a); back(); a.row(r - 1) = wc; E(a); back(); a.col(0) = x; E(a); back(); a.diag(0) = x; E(a); back(); a(place::reverse, place::all) = b; E(a); back(); a.view1D()(place::even) = x; E(a); back(); }
         }
      }
   });
}
UNIT("2D") { for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {2, 3}, {3, 2}, {1, 4}, {3, 3}}) ks([&]<int K>() { one2<K, T>(r, c); }); }
#endif

#if C19_PART == 3
// ------------------------------------------------------------------ histories of edits, input and output, fixed and attached arrays
struct Op1 { std::string n; std::function<bool(A1&, A1&)> f; };   // false: not valid in this state
std::vector<Op1> ops1() {
   std::vector<Op1> r;
   auto x = SL<T>(9);
   auto add = [&](std::string n, auto f) { r.push_back({n, f}); };
   for(long k : {0L, 1L, 3L, 6L}) { add("resize " + std::to_string(k), [=](A1& a, A1&) { a.resize(k); return true; }); add("remove_front " + std::to_string(k), [=](A1& a, A1&) { if(k == 0 || k > a.size().val()) return false; a.remove_front(k); return true; }); add("remove_back " + std::to_string(k), [=](A1& a, A1&) { if(k == 0 || k > a.size().val()) return false; a.remove_back(k); return true; });
      add("insert " + std::to_string(k), [=](A1& a, A1& b) { if(k > a.size().val()) return false; a.insert(k, b); return true; }); add("insert x " + std::to_string(k), [=](A1& a, A1&) { if(k > a.size().val()) return false; a.insert(k, x); return true; });
      add("remove " + std::to_string(k), [=](A1& a, A1&) { if(k >= a.size().val()) return false; a.remove(k); return true; }); add("remove 2 at " + std::to_string(k), [=](A1& a, A1&) { if(k + 2 > a.size().val()) return false; a.remove(k, 2); return true; });
      add("set " + std::to_string(k), [=](A1& a, A1&) { if(k >= a.size().val()) return false; a[k] = x; return true; }); }
   add("insert_front", [=](A1& a, A1& b) { a.insert_front(b); return true; }); add("insert_back", [=](A1& a, A1& b) { a.insert_back(b); return true; }); add("insert_front x", [=](A1& a, A1&) { a.insert_front(x); return true; }); add("insert_back x", [=](A1& a, A1&) { a.insert_back(x); return true; });
   add("remove list", [=](A1& a, A1&) { if(a.size().val() < 3) return false; a.remove(use::IndexList{0, 2}); return true; });
   add("assign", [=](A1& a, A1& b) { if(a.size().val() != b.size().val()) return false; a = b; return true; }); add("a = x", [=](A1& a, A1&) { a = x; return true; }); add("resize_and_assign", [=](A1& a, A1& b) { a.resize_and_assign(b(place::reverse)); return true; });
   add("swap", [=](A1& a, A1& b) { a.swap(b); return true; }); add("copy", [=](A1& a, A1& b) { A1 c(b); b.resize_and_assign(a); a.resize_and_assign(c); return true; }); add("move", [=](A1& a, A1& b) { A1 c(std::move(b)); b.resize_and_assign(c(place::even)); a.resize_and_assign(c); return true; });
   add("reverse", [=](A1& a, A1&) { A1 c(a(place::reverse)); a = c; return true; });
   return r;
}
UNIT("1D edits") {
   auto ops = ops1();
   for(long n : {0L, 1L, 4L}) for(long k : {0L, 2L}) for(auto& o : ops) for(auto& p : ops) for(std::size_t q = 0; q < ops.size() + 1; ++q) {
      if(q < ops.size() && !mc::thorough && q % 5) continue;
      auto a = mk1<T, AF>(cut(vals(), n)), b = mk1<T, AF>(cut(vals2(), k));
      if(!o.f(a, b) || !p.f(a, b) || (q < ops.size() && !ops[q].f(a, b))) continue;
      ctx = std::to_string(n) + "," + std::to_string(k) + ": " + o.n; mc::digest(ctx, mc::mix(hash_(elems(a)), hash_(elems(b)))); mc::at("%s; %s; %zu", ctx.c_str(), p.n.c_str(), q); mc::trace();
   }
}
struct Op2 { std::string n; std::function<bool(A2&, A2&)> f; };
std::vector<Op2> ops2() {
   std::vector<Op2> r;
   auto x = SL<T>(9);
   auto add = [&](std::string n, auto f) { r.push_back({n, f}); };
   for(auto [m, n] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {2, 3}, {3, 2}}) { const long p = m, q = n; add("resize " + std::to_string(p) + std::to_string(q), [=](A2& a, A2&) { a.resize(p, q); return true; }); }
   for(long k : {0L, 1L, 2L}) {
      auto s = std::to_string(k);
      add("remove_row " + s, [=](A2& a, A2&) { if(k >= a.rows().val()) return false; a.remove_row(k); return true; }); add("remove_col " + s, [=](A2& a, A2&) { if(k >= a.cols().val()) return false; a.remove_col(k); return true; });
      add("remove_rows " + s, [=](A2& a, A2&) { if(k + 2 > a.rows().val()) return false; a.remove_rows(k, 2); return true; }); add("remove_cols " + s, [=](A2& a, A2&) { if(k + 2 > a.cols().val()) return false; a.remove_cols(k, 2); return true; });
      add("insert_row " + s, [=](A2& a, A2&) { if(k > a.rows().val() || !a.size().val()) return false; auto e = const1D(a.cols().val(), x); a.insert_row(k, e); return true; }); add("insert_col " + s, [=](A2& a, A2&) { if(k > a.cols().val() || !a.size().val()) return false; auto e = const1D(a.rows().val(), x); a.insert_col(k, e); return true; });
      add("insert_rows " + s, [=](A2& a, A2& b) { if(k > a.rows().val() || a.cols().val() != b.cols().val()) return false; a.insert_rows(k, b); return true; }); add("insert_cols " + s, [=](A2& a, A2& b) { if(k > a.cols().val() || a.rows().val() != b.rows().val()) return false; a.insert_cols(k, b); return true; });
      add("set " + s, [=](A2& a, A2&) { if(k >= a.rows().val() || k >= a.cols().val()) return false; a(k, k) = x; a.row(k) = x; a.col(k)(place::even) = SL<T>(5); return true; });
   }
   add("remove lists", [=](A2& a, A2&) { if(a.rows().val() < 2) return false; a.remove_rows(use::IndexList{1}); a.remove_cols(use::IndexList{0}); return true; });
   add("assign", [=](A2& a, A2& b) { if(a.rows().val() != b.rows().val() || a.cols().val() != b.cols().val()) return false; a = b; return true; }); add("a = x", [=](A2& a, A2&) { a = x; return true; }); add("resize_and_assign", [=](A2& a, A2& b) { a.resize_and_assign(b(place::reverse, place::all)); return true; }); add("transpose", [=](A2& a, A2&) { A2 c(transpose(a)); a.resize_and_assign(c); return true; });
   add("swap", [=](A2& a, A2& b) { a.swap(b); return true; }); add("move", [=](A2& a, A2& b) { A2 c(std::move(b)); b.resize_and_assign(c); a.resize_and_assign(c); return true; });
   return r;
}
UNIT("2D edits") {
   auto ops = ops2();
   for(auto [n, k] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {2, 3}}) for(int w = 0; w < 2; ++w) for(auto& o : ops) for(auto& p : ops) for(std::size_t q = 0; q < ops.size() + 1; ++q) {
      if(q < ops.size() && !mc::thorough && q % 5) continue;
      auto a = mk2<T, AF>(mat(vals(), n, k)), b = mk2<T, AF>(mat(vals2(), w ? 1 : 2, w ? 3 : 2));
      if(!o.f(a, b) || !p.f(a, b) || (q < ops.size() && !ops[q].f(a, b))) continue;
      ctx = std::to_string(n) + "," + std::to_string(k) + ": " + o.n; mc::digest(ctx, mc::mix(hash_(elems2(a)), hash_(elems2(b)))); mc::at("%s; %s; %zu", ctx.c_str(), p.n.c_str(), q); mc::trace();
   }
}
template <class T> void others() {
   for(long n : {0L, 1L, 5L, 30L}) {
      auto a = mk1<T, AF>(cut(vals(), n)); A1 b(2);
      ctx = std::to_string(n);
      { std::ostringstream os; os << a; std::string s = os.str(); E(s); std::istringstream is(s); if(n && !BO) { is >> b; E(b); } }
      { std::ostringstream os; auto s2 = a(place::even); os << s2; std::string s = os.str(); E(s); }
   }
   for(auto [r, c] : std::vector<std::pair<long, long>>{{1, 1}, {2, 3}, {4, 7}}) { auto a = mk2<T, AF>(mat(vals(), r, c)); A2 b(1, 1); ctx = std::to_string(r) + "x" + std::to_string(c); std::ostringstream os; os << a; std::string s = os.str(); E(s); std::ostringstream o2; o2 << a; std::istringstream is(o2.str()); if(!BO) { is >> b; E(b); } }
   ctx = "fixed";
   { FixedArray1D<T, 6, AF> f(mk1<T, AF>(vals())), g; g = f; E(g); g(place::reverse) = f; E(g); std::swap(f, g); E(f); f = SL<T>(3); E(f); auto w = mk1<T, AF>(vals2()); FixedArray1D<T, 6, AF> h(w(place::reverse)); E(h); FixedArray1D<T, 6, AF> i(std::move(h)); E(i); }
   { FixedArray2D<T, 2, 3, AF> f(mk2<T, AF>(mat(vals(), 2, 3))), g; g = f; E(g); g.row(0) = f.row(1); E(g); std::swap(f, g); E(f); f = SL<T>(3); E(f); }
   ctx = "attached";
   { T buf[12]; T* p = buf + 1; for(int i = 0; i < 12; ++i) buf[i] = lab<T>(i); auto a = attach1D(p, 10); E(a); auto b = attach2D(p, 2, 5); E(b); a[3] = SL<T>(77); E(b); b(1, 4) = SL<T>(66); E(a); a(place::odd) = SL<T>(5); E(b); }
   ctx = "iterators";
   { auto a = mk1<T, AF>(cut(vals(), 9)); std::sort(a.begin(), a.end()); E(a); std::reverse(a.begin() + 2, a.end() - 1); E(a); A1 b(a.cbegin() + 1, a.cend()); E(b); E(long(a.end() - a.begin())); std::vector<Strict<T>> c(a.begin(), a.end()); std::stable_sort(a.rbegin(), a.rend()); E(a); auto s = a(place::even); std::sort(s.begin(), s.end()); E(a); }
   ctx = "lists";
   { A1 a{SL<T>(1), SL<T>(2), SL<T>(3)}; E(a); a = {SL<T>(4), SL<T>(5), SL<T>(6)}; E(a); A2 b{{SL<T>(1), SL<T>(2)}, {SL<T>(3), SL<T>(4)}}; E(b); b = {{SL<T>(5), SL<T>(2)}, {SL<T>(3), SL<T>(4)}}; E(b); A1 c(Size{4}, Value{SL<T>(3)}); E(c); A2 d(Rows{2}, Cols{2}, Value{SL<T>(3)}); E(d); }
}
UNIT("other") { others<T>(); }
#endif
#else  // C19_INVALID
// ------------------------------------------------------------------ invalid operations, each in a process of its own
enum { ASSERTED = 42, THROWN = 43, OTHER = 44, CONTINUED = 45 };
}
// The C library's report of a failed assertion (assert() aborts right after it).
extern "C" void __assert_fail(const char*, const char*, unsigned, const char*) noexcept { ::_exit(ASSERTED); }
namespace {
#ifdef STRICT_DEBUG_OFF
constexpr bool checks = false;
#else
constexpr bool checks = true;
#endif
#ifdef STRICT_ERROR_EXCEPTIONS
constexpr int stop = THROWN;
#else
constexpr int stop = ASSERTED;
#endif
const char* outcome(int s) {
   if(WIFSIGNALED(s)) return "the process is killed by a signal";
   switch(WEXITSTATUS(s)) { case ASSERTED: return "an assertion fails"; case THROWN: return "StrictException is thrown"; case OTHER: return "another exception is thrown"; case CONTINUED: return "it continues"; }
   return "the process exits";
}
// always: checked in every configuration; hard: inside a noexcept function, an assertion in every configuration.
template <class F> void inv(const std::string& what, F&& f, bool always = false, bool hard = false) {
   if(!checks && !always) return;
   mc::at("%s: %s %s", tname<T>(), what.c_str(), ctx.c_str());
   std::fflush(nullptr);
   const pid_t p = ::fork();
   if(p < 0) { std::perror("fork"); std::_Exit(3); }
   if(p == 0) {
      itimerval z{}; ::setitimer(ITIMER_PROF, &z, nullptr); ::signal(SIGPROF, SIG_IGN); ::signal(SIGALRM, SIG_DFL); ::alarm(20);
      const int nul = ::open("/dev/null", O_WRONLY); ::dup2(nul, 1); ::dup2(nul, 2);
      try { f(); } catch(const StrictException&) { ::_exit(THROWN); } catch(...) { ::_exit(OTHER); }
      ::_exit(CONTINUED);
   }
   int s = 0; while(::waitpid(p, &s, 0) < 0) {}
   const int want = hard ? ASSERTED : stop;
   mc::step(); mc::trace(); std::uint64_t h = s; for(char c : what) h = mc::mix(h, c); for(char c : ctx) h = mc::mix(h, c); mc::state(h);
   if(!WIFEXITED(s) || WEXITSTATUS(s) != want) mc::fail(what + ":" + tname<T>() + ":" + std::to_string(WIFSIGNALED(s) ? 1000 + WTERMSIG(s) : WEXITSTATUS(s)), "invalid operation %s (%s, %s): %s, expected that %s", what.c_str(), tname<T>(), ctx.c_str(), outcome(s), want == THROWN ? "StrictException is thrown" : "an assertion fails");
}
#define I(...) inv(#__VA_ARGS__, [&] { (void)(__VA_ARGS__); })
#define IA(...) inv(#__VA_ARGS__, [&] { (void)(__VA_ARGS__); }, true)
template <class F> void bad_index(long n, F&& f) { for(long i : {-1L, n, n + 1, -n - 1, 1L << 31, -(1L << 32), std::numeric_limits<long>::max(), std::numeric_limits<long>::min()}) { const auto c = ctx; ctx += " i=" + std::to_string(i); f(i); ctx = c; } }

#if C19_PART == 0
template <int K, class T> void kinds1(long n) {
   kind1<K>(cut(vals(), n), [&](auto&& a, auto) {
      const auto x = SL<T>(1);
      ctx = std::string(kname1[K]) + " " + std::to_string(n);
      bad_index(n, [&](long i) {
         I(a[i]); IA(a.at(i)); I(a[S(i)]); I(std::as_const(a)[i]); IA(std::as_const(a).at(S(i))); if(i == (int)i) { I(a[(int)i]); IA(a.at(S((int)i))); }
         if(i >= 0 && i <= n + 1) { const auto k = last - i; if(i >= n) { I(a[k]); IA(a.at(k)); } }
         if(n && i > 0 && i < 1L << 40) { I(a[last + i]); IA(a.at(last + i)); }
         if constexpr(requires { a.un(0) = x; }) { I(a[i] = x); IA(a.at(i) = x); }
         I(a.begin()[i]); I(a.cbegin()[i]);
         I(exclude(a, i)); if(i) I(a.view2D(i, 2));
         I(a(use::IndexList{0, i})); I(a(place::complement{i}));
      });
      I(*a.end()); I(*a.cend()); I(exclude(a, 0, n + 1)); I(exclude(a, n, 1)); I(a.view2D(n + 1, 1)); I(exclude(a, 0, -1));
      auto b = mk1<T, AF>(cut(vals(), n + 1)), c = mk1<T, AF>(cut(vals(), n ? n - 1 : 2));
      for(auto* p : {&b, &c}) { auto& d = *p; const auto cc = ctx; ctx += " and " + std::to_string(d.size().val());
         I(d = a); I(d(place::all) = a); if constexpr(requires { a.un(0) = x; }) { I(a = d); }
         I(generate(a, d, [](auto y, auto) { return y; }));
         if constexpr(BO) { I(a && d); I(d || a); I(a ^ d); }
         else { I(a + d); I(d - a); I(a * d); I(d / a); I(d += a); I(d *= a); I(spp::dot_prod(a, d)); if constexpr(requires { a.un(0) = x; }) { I(a += d); I(a -= d); I(a /= d); } 
            if constexpr(IN) { I(a % d); I(d & a); I(a | d); I(d ^ a); I(a << d); I(d >> a); I(d %= a); I(d &= a); I(d |= a); I(d ^= a); I(d <<= a); I(d >>= a); }
            if constexpr(FL) { I(within_tol_abs(a, d, x)); I(within_tol_rel(a, d, x)); I(max_abs_error(a, d)); I(max_rel_error(d, a)); I(stable_dot_prod(a, d)); I(semi_stable_dot_prod(d, a)); if(n) I(within_tol_abs(a, a, -x)); }
            I(spp::any_of(a, d, [](auto, auto) { return true_sb; })); }
         ctx = cc; }
      if constexpr(!BO) { Array2D<T, AF> A(2, n + 1, x); I(matvec_prod(A, a)); }
      if constexpr(IN) { auto z = mk1<T, AF>(V(n, T(0))); if(n) { I(Array1D<T>(a / z)); I(Array1D<T>(a % z)); I(Array1D<T>(a / S(T(0)))); I(Array1D<T>(x % z)); } }
      if constexpr(SG) { auto z = mk1<T, AF>(V(n, T(-1))); if(n) { I(Array1D<T>(z << z)); I(Array1D<T>(z >> S(T(1)))); I(Array1D<T>(S(T(1)) << z)); } }
   });
}
UNIT("invalid: 1D") { for(long n : {0L, 1L, 3L, 6L}) ks([&]<int K>() { kinds1<K, T>(n); }); }
template <int K> void bad_slices(long n) {
   kind1<K>(cut(vals(), n), [&](auto&& a, auto) {
      std::vector<long> q;
      for(auto& d : dom_full(n)) { q.clear(); if(pick(d, n, q)) continue; ctx = std::string(kname1[K]) + " " + std::to_string(n) + " " + show(d); inv("a(slice)", [&] { with_slice(d, [&](auto s) { (void)a(s); }); }); }
   });
}
#ifndef STRICT_DEBUG_OFF
UNIT("invalid: slices") { for(long n : {0L, 2L, 3L}) ks([&]<int K>() { bad_slices<K>(n); }); }
#endif
#endif
#if C19_PART == 1
template <int K, class T> void kinds2(long r, long c) {
   kind2<K>(mat(vals(), r, c), [&](auto&& a, auto) {
      const auto x = SL<T>(1);
      ctx = std::string(kname2[K]) + " " + std::to_string(r) + "x" + std::to_string(c);
      bad_index(r, [&](long i) { I(a(i, 0)); IA(a.at(i, 0)); I(a.row(i)); I(a.diag(i >= 0 ? std::max(i, c) : std::min(i, -r))); I(a(use::IndexList{i}, place::all)); I(a.block(0, 0, i, 0)); I(a.blockN(0, 0, r + 1, 1)); if(c) { I(a(i, last)); IA(a.at(S(i), last)); } if constexpr(requires { a.un(0) = x; }) { I(a(i, 0) = x); IA(a.at(i, 0) = x); } });
      bad_index(c, [&](long j) { I(a(0, j)); IA(a.at(0, j)); I(a.col(j)); I(a(place::all, use::IndexList{j})); I(a.block(0, 0, 0, j)); I(std::as_const(a)(0, S(j))); IA(std::as_const(a).at(0, j)); if(j == (int)j) { I(a(0, (int)j)); IA(a.at(0, (int)j)); } });
      if(r) I(a.view2D(r + 1, c)); I(a.view2D(r, -1)); I(a(seqN{0, r + 1}, place::all)); I(a(place::all, seq{0, c})); I(a.rows(place::firstN{r + 1})); I(a.cols(place::lastN{c + 1}));
      for(auto [p, q] : std::vector<std::pair<long, long>>{{r + 1, c}, {r, c + 1}, {c, r}}) if((p != r || q != c) && p && q) {
         auto d = mk2<T, AF>(mat(vals(), p, q)); const auto cc = ctx; ctx += " and " + std::to_string(p) + "x" + std::to_string(q);
         I(d = a); I(d(place::all, place::reverse) = a); if constexpr(requires { a.un(0) = x; }) { I(a = d); }
         if(p != r) I(merge_horizontal(a, d)); if(q != c) I(merge_vertical(d, a));
         if constexpr(BO) { I(a && d); I(d ^ a); } else { I(a + d); I(d - a); I(d *= a); if constexpr(requires { a.un(0) = x; }) { I(a += d); } if constexpr(FL) { I(within_tol_abs(a, d, x)); I(max_rel_error(a, d)); } }
         ctx = cc;
      }
      if(r) { Array1D<T, AF> w(c + 1, x), u(r + 1, x); if constexpr(!BO) I(a.row(0) + w); if constexpr(requires { a.un(0) = x; }) { I(a.row(0) = w); I(a.col(0) = u); I(a.diag(0) = w); } }
   });
}
UNIT("invalid: 2D") { for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {2, 3}, {3, 2}}) ks([&]<int K>() { if constexpr(!BO) kinds2<K, T>(r, c); else if(r * c) kinds2<K, T>(r, c); }); }
#endif
#if C19_PART == 2
template <class T> void invalid_edits() {
   const auto x = SL<T>(1);
   for(long n : {0L, 1L, 4L}) {
      auto a = mk1<T, AF>(cut(vals(), n)), b = mk1<T, AF>(cut(vals2(), 2)); ctx = "array " + std::to_string(n);
      bad_index(n, [&](long i) { I(a.remove(i)); I(a.remove(Pos{i})); I(a.remove(i, 2)); I(a.remove(use::IndexList{i})); I(a.remove(0, n + 1)); if(i != n) { I(a.insert(i, x)); I(a.insert(i, b)); I(a.insert(Pos{i}, b)); } if(i < 0) { I(a.resize(i)); I(A1(i)); I(A1(Size{i}, Value{x})); I(a.remove_front(i)); if(i > -(1L << 40)) I(a.remove_back(i)); } else { if(i > n) { I(a.remove_front(i)); I(a.remove_back(i)); } } });
      if(n == 4) { I(a.remove(use::IndexList{2, 1})); I(a.remove(use::IndexList{1, 1})); I(a = use::List1D<Strict<T>>{x, x}); I(a.remove(2, 3)); I(a.remove(0, 0)); I(a.remove(1, -1)); I(A1(a.cend(), a.cbegin())); I(*(a.begin() + 4)); I(*(a.begin() - 1)); }
   }
   for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {2, 3}}) {
      auto a = mk2<T, AF>(mat(vals(), r, c)); ctx = "array2D " + std::to_string(r) + "x" + std::to_string(c);
      auto rw = mk1<T, AF>(cut(vals(), c)), cl = mk1<T, AF>(cut(vals(), r)), rb = mk1<T, AF>(cut(vals(), c + 1)), cb = mk1<T, AF>(cut(vals(), r + 1));
      bad_index(r, [&](long i) { I(a.remove_row(i)); I(a.remove_rows(i, 1)); I(a.remove_rows(use::IndexList{i})); if(i != r) I(a.insert_row(i, rw)); if(i < 0) { I(a.resize(i, 2)); I(A2(i, 2)); I(a.remove_rows_front(i)); } else if(i > r) { I(a.remove_rows_front(i)); I(a.remove_rows_back(i)); } });
      bad_index(c, [&](long j) { I(a.remove_col(j)); I(a.remove_cols(j, 1)); I(a.remove_cols(use::IndexList{j})); if(j != c) I(a.insert_col(j, cl)); if(j < 0) { I(a.resize(2, j)); I(A2(2, j)); I(a.remove_cols_back(j)); } else if(j > c) { I(a.remove_cols_front(j)); I(a.remove_cols_back(j)); } });
      if(r) { I(a.insert_row(0, rb)); I(a.insert_col(0, cb)); I(a.insert_row_front(rb)); I(a.insert_col_back(cb)); auto m = mk2<T, AF>(mat(vals(), r + 1, c + 1)); I(a.insert_rows(0, m)); I(a.insert_cols(0, m)); }
      I(a.resize(2, 0)); I(A2(0, 2)); I(a.view1D()[r * c]);
   }
   ctx = "";
   I(A2{{x, x}, {x}}); { using F1 = FixedArray1D<T, 3, AF>; using F2 = FixedArray2D<T, 2, 2, AF>; F1 f; F2 g; auto b = mk1<T, AF>(cut(vals(), 2)); auto m = mk2<T, AF>(mat(vals(), 1, 2)); const use::List1D<Strict<T>> l{x, x}; I(f = b); I(F1(b)); I(f = l); I(F1(l)); I(g = m); I(F2(m)); I(f[3]); IA(f.at(-1)); I(g(2, 0)); IA(g.at(0, 2)); }
   { T z[3] = {}; T* p = z; auto at = attach1D(p, 3); auto b = mk1<T, AF>(cut(vals(), 2)); I(at = b); I(at[3]); IA(at.at(3)); I(attach1D(p, -1)); I(attach2D(p, -1, 2)); I(attach2D(p, 2, -1)); }
   for(long i : {-1L, -5L, -(1L << 32)}) { ctx = std::to_string(i); I(irange(i)); I(const1D(i, x)); I(const2D(i, 1, x)); I(const2D(1, i, x)); if constexpr(!BO) { I(sequence<T>(i, x, x)); I(e_unit<T>(i, 3)); I(e_unit<T>(0, i)); I(identity<T>(i)); } if constexpr(FL) I(linspace(i, x, x)); }
   ctx = "";
   if constexpr(!BO) { I(e_unit<T>(3, 3)); I(e_unit<T>(0, 0)); I(rands<T>(SL<T>(2), SL<T>(1))); I(semi_rands<T>(SL<T>(2), SL<T>(1))); I(A1(spp::random<T>(ImplicitInt{3}, SL<T>(2), SL<T>(1)))); A1 a(3); I(spp::random(a, SL<T>(2), SL<T>(1))); I(spp::semi_random(a, SL<T>(2), SL<T>(1))); I(spp::in_open_range(a, SL<T>(2), SL<T>(1))); I(spp::in_closed_range(a, SL<T>(2), SL<T>(1))); I(seqN{0, -1}); I(seqN{-1, 1}); }
   if constexpr(FL) { I(pow_prods(x, -1)); Array1D<T, AF> a(3, x); for(int k : {0, -1}) { I(spp::norm_lp(a, k)); I(spp::norm_lp_scaled(a, k)); I(stable_norm_lp(a, k)); } I(spp::linspace(0, x, x)); }
   I(factorial(-1)); I(binom_coeff(2, 3)); I(binom_coeff(-1, 0)); I(binom_coeff(3, -1));
   // reading
   for(const char* t : {"1 2 x", "x", "1 1e99999", "--1", "1 , 2"}) if((!BO || std::strcmp(t, "--1")) && (!QU || std::strcmp(t, "1 1e99999"))) { ctx = t; A1 a(2); A2 m(1, 1); { std::istringstream is(t); IA(is >> a); } { std::istringstream is(t); IA(is >> m); } }
   { ctx = "ragged"; A2 m(1, 1); std::istringstream is("1 0\n1\n"); IA(is >> m); std::istringstream i2("1\n1 0\n"); IA(i2 >> m); }
   { ctx = "no file"; A1 a(2); A2 m(1, 1); IA((read_from_file("/nonexistent/file", a), 0)); IA((read_from_file("/nonexistent/file", m), 0)); IA((print_to_file("/nonexistent/file", a, "a"), 0)); }
   ctx = "move assignment of another size"; { A1 a(2), b(3); inv("a = move(b)", [&] { a = std::move(b); }, false, true); A2 m(2, 2), k(2, 3); inv("m = move(k)", [&] { m = std::move(k); }, false, true); }
}
UNIT("invalid: edits, construction, generation, input") { invalid_edits<T>(); }
template <class T> void invalid_scalars() {
   ctx = "";
   if constexpr(IN) {
      for(T y : vals()) { ctx = str(y); const auto x = S(y), z = S(T(0)); auto w = x; I(x / z); I(x % z); I(w /= z); I(w %= z); }
      if constexpr(SG) { for(T y : {T(-1), T(-7), std::numeric_limits<T>::min()}) { ctx = str(y); const auto m = S(y), p = S(T(1)); auto w = p; auto u = m; I(p << m); I(p >> m); I(m << p); I(m >> p); I(w <<= m); I(w >>= m); I(u <<= p); I(u >>= p); } }
   }
   ctx = ""; 
   for(long i : {-1L, -3L}) { ctx = std::to_string(i); I(Size{i}); I(Rows{i}); I(Cols{i}); I(place::firstN{i}); I(place::lastN{i}); I(ImplicitNonNegInt{i}); }
}
#ifndef STRICT_DEBUG_OFF
UNIT("invalid: scalars") { invalid_scalars<T>(); }
#endif
#endif
#endif  // !C19_INVALID
}
