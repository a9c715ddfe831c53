// C10: reductions and predicates against their definitions, for every vector over a small value domain.
#include "kinds.hpp"

namespace {
#ifndef C10_T
#define C10_T double
#endif
#ifndef C10_KLO
#define C10_KLO 0
#define C10_KHI 11
#endif
using T = C10_T;
using V = std::vector<T>;
using M = Mat<T>;
constexpr bool FL = !std::is_integral_v<T>, BO = std::is_same_v<T, bool>, UN = std::is_integral_v<T> && std::is_unsigned_v<T> && !BO;
template <bool F> struct WideOf { using type = __int128; };
template <> struct WideOf<true> { using type = __float128; };
using W = typename WideOf<FL>::type;

template <class F> void ks(F&& f) { [&]<int... K>(std::integer_sequence<int, K...>) { (f.template operator()<K + C10_KLO>(), ...); }(std::make_integer_sequence<int, C10_KHI - C10_KLO>{}); }

// Value domains: small exactly computable numbers, and extremes.
V small() { if constexpr(BO) return {false, true}; else if constexpr(UN) return {0, 1, 3, 2}; else if constexpr(FL) return {T(0), T(-2), T(0.5), T(3)}; else return {0, -2, 1, 3}; }
V extreme() {
   using L = std::numeric_limits<T>;
   if constexpr(BO) return {false, true};
   else if constexpr(UN) return {0, 1, L::max(), L::max() / 2 + 1};
   else if constexpr(std::is_integral_v<T>) return {L::min() + 1, -1, 0, L::max()};
#ifdef STRICT_QUAD_PRECISION
   else if constexpr(std::is_same_v<T, float128>) { T b = T(1e300) * T(1e300); return {-b, -T(0), T(1) / b, b}; }
#endif
   else return {-L::infinity(), -T(0), L::denorm_min(), L::max()};
}
V special() {
   if constexpr(!FL) return {};
   else { T z = 0, i = 1 / z; return {T(0), T(1), i, -i, i - i}; }
}
template <class F> void vectors(const V& d, long n, F&& f) {
   if(d.empty()) return;
   V v(n, d[0]); std::vector<std::size_t> ix(n, 0);
   for(;;) {
      f(v);
      long k = n - 1;
      while(k >= 0 && ++ix[k] == d.size()) { ix[k] = 0; v[k] = d[0]; --k; }
      if(k < 0) return;
      v[k] = d[ix[k]];
   }
}
template <class T_> T_ sqrt_(T_ x) { if constexpr(!FL) return x; 
#ifdef STRICT_QUAD_PRECISION
   else if constexpr(std::is_same_v<T_, float128>) return sqrtq(x);
#endif
   else return std::sqrt(x); }
W root_(W x, long p) { if constexpr(FL) return powq(x, W(1) / p); else return x; }
bool near(T a, W b, W ulps) {   // relative tolerance, in units of the rounding error
   if constexpr(FL) {
      W e; if constexpr(std::is_same_v<T, float>) e = 0x1p-24; else if constexpr(std::is_same_v<T, double>) e = 0x1p-53; else if constexpr(std::is_same_v<T, long double>) e = 0x1p-64; else e = W(0x1p-60) * W(0x1p-53);
      W d = W(a) - b; if(d < 0) d = -d; W m = b < 0 ? -b : b;
      return d <= ulps * e * m;
   } else return W(a) == b;
}
bool fits(W pos, W neg) { if constexpr(FL) return true; else if constexpr(UN || BO) return true; else return pos <= W(std::numeric_limits<T>::max()) && neg >= W(std::numeric_limits<T>::min()); }

std::string ctx;
void bad(const char* what, const std::string& got, const std::string& want) { mc::fail(std::string(what) + ":" + ctx.substr(0, ctx.find(' ')), "%s of %s is %s, expected %s", what, ctx.c_str(), got.c_str(), want.c_str()); }
void eq(const char* what, Strict<T> got, T want) { mc::step(); if(!same(got.val(), want)) bad(what, str(got.val()), str(want)); }
void eqn(const char* what, Strict<T> got, W want, int ulps) { mc::step(); if(!near(got.val(), want, ulps)) bad(what, str(got.val()), str((T)want)); }
void eqb(const char* what, StrictBool got, bool want) { mc::step(); if(got.val() != want) bad(what, got.val() ? "true" : "false", want ? "true" : "false"); }

// Both calls of a reduction: default and explicit value for objects without elements.
#define RED(NAME, WANT, DEF) { if(!v.empty()) { eq(#NAME, spp::NAME(a), WANT); eq(#NAME " with default", spp::NAME(a, SL<T>(77)), WANT); } else { eq(#NAME " of empty", spp::NAME(a), DEF); eq(#NAME " of empty with default", spp::NAME(a, SL<T>(77)), lab<T>(77)); } }
#define REDN(NAME, WANT, U) { if(!v.empty()) { eqn(#NAME, spp::NAME(a), WANT, U); eqn(#NAME " with default", spp::NAME(a, SL<T>(77)), WANT, U); } else { eq(#NAME " of empty", spp::NAME(a), T(0)); eq(#NAME " of empty with default", spp::NAME(a, SL<T>(77)), lab<T>(77)); } }
#define PRED(NAME, WANT, DEF) { if(!v.empty()) { bool z = WANT; eqb(#NAME, spp::NAME(a), z); eqb(#NAME " with default", spp::NAME(a, StrictBool{!z}), z); } else { eqb(#NAME " of empty", spp::NAME(a), DEF); eqb(#NAME " of empty with default", spp::NAME(a, StrictBool{!(DEF)}), !(DEF)); } }
auto tag(T x) { if constexpr(BO) return S(x); else return Value<T>{x}; }   // the tagged form exists for numbers only
template <class P> bool all(const V& v, P p) { for(std::size_t i = 0; i < v.size(); ++i) if(!p(T(v[i]))) return false; return true; }
template <class P> bool any(const V& v, P p) { for(std::size_t i = 0; i < v.size(); ++i) if(p(T(v[i]))) return true; return false; }

// Everything that is defined over the elements alone (one or two dimensions); full: also powers and norms.
template <class A> void common(const A& a, const V& v, bool norms) {
   const long n = v.size();
   if constexpr(!BO) {
      W s = 0, p = 1, pos = 0, neg = 0, pa = 1, s1 = 0, s2 = 0; T mn{}, mx{}, mi{};
      bool fin = true, nan = false;
      for(long i = 0; i < n; ++i) {
         T x = v[i]; W w = x; nan = nan || isnan_(x);
         if constexpr(FL) fin = fin && (w - w == 0);
         W ab = w < 0 ? -w : w;
         s += w; if(w > 0) pos += w; else neg += w; 
         if(UN) { p = (W)((unsigned __int128)(T)p * (unsigned __int128)(T)w % ((unsigned __int128)1 << (sizeof(T) * 8 % 128))); } else if(fits(pa, -pa)) { p *= w; if(ab > 1) pa *= ab; } 
         s1 += ab; if(FL && fits(s2, 0)) s2 += w * w;
         if(!i || x < mn) mn = x; if(!i || x > mx) mx = x;
         T tab = FL ? (x < T(0) ? -x : x) : x;
         if(!i || tab > mi) mi = tab;
      }
      bool sok = fits(pos, neg), pok = fits(pa, -pa);
      if constexpr(UN) p = (T)p;
      bool exact = FL ? (fin && norms) : true;   // the small domain: no rounding at all
      if(exact || !n) {
         if(sok) RED(sum, T(s), T(0));
         if(pok) RED(prod, T(p), T(0));
         if constexpr(FL) if(norms) {
            RED(norm_inf, mi, T(0));
            RED(norm1, T(s1), T(0));
            REDN(mean, s / (n ? n : 1), 2);
            REDN(norm1_scaled, s1 / (n ? n : 1), 2);
            RED(norm2, sqrt_(T(s2)), T(0));
            REDN(norm2_scaled, root_(s2 / (n ? n : 1), 2), 6);
            for(int lp = 1; lp <= 3; ++lp) {
               W sp = 0; for(long i = 0; i < n; ++i) { W q = 1; for(int k = 0; k < lp; ++k) q *= W(v[i]); sp += q < 0 ? -q : q; }
               W e1 = root_(sp, lp), e2 = root_(sp / (n ? n : 1), lp);
               if(n) {
                  eqn("norm_lp", spp::norm_lp(a, lp), e1, 8); eqn("norm_lp with default", spp::norm_lp(a, lp, SL<T>(77)), e1, 8);
                  eqn("norm_lp_scaled", spp::norm_lp_scaled(a, lp), e2, 16); eqn("norm_lp_scaled with default", spp::norm_lp_scaled(a, lp, SL<T>(77)), e2, 16);
               } else {
                  eq("norm_lp of empty", spp::norm_lp(a, lp), T(0)); eq("norm_lp of empty with default", spp::norm_lp(a, lp, SL<T>(77)), T(77));
                  eq("norm_lp_scaled of empty", spp::norm_lp_scaled(a, lp), T(0)); eq("norm_lp_scaled of empty with default", spp::norm_lp_scaled(a, lp, SL<T>(77)), T(77));
               }
            }
            if(n) for(int lp : {0, -1, -2147483647 - 1}) { mc::step(2); if(!throws([&] { (void)spp::norm_lp(a, lp); })) bad("norm_lp with a non-positive order", "accepted", "rejected"); if(!throws([&] { (void)spp::norm_lp_scaled(a, lp); })) bad("norm_lp_scaled with a non-positive order", "accepted", "rejected"); }
         }
      }
      if(!nan) {
         RED(min, mn, T(0)); RED(max, mx, T(0));
         PRED(has_zero, any(v, [](T x) { return x == T(0); }), false);
         PRED(all_zeros, all(v, [](T x) { return x == T(0); }), false);
         PRED(all_pos, all(v, [](T x) { return x > T(0); }), false);
         PRED(all_neg, all(v, [](T x) { return x < T(0); }), false);
         PRED(all_non_pos, all(v, [](T x) { return x <= T(0); }), false);
         PRED(all_non_neg, all(v, [](T x) { return x >= T(0); }), false);
      }
      if constexpr(FL) {
         PRED(all_finite, all(v, [](T x) { return x - x == T(0); }), true);
         PRED(has_inf, any(v, [](T x) { return x == x && x - x != T(0); }), false);
         PRED(has_nan, any(v, [](T x) { return x != x; }), false);
      }
   }
   if(norms) for(T x : small()) {
      auto is = [&](T y) { return y == x; };
      auto f1 = [x](auto y) { return y == Strict<T>{x}; };
      const bool an = any(v, is), al = all(v, is);
      if(n) {
         eqb("any_of value", spp::any_of(a, S(x)), an); eqb("any_of Value", spp::any_of(a, tag(x)), an); eqb("any_of f", spp::any_of(a, f1), an); eqb("any_of f with default", spp::any_of(a, f1, StrictBool{!an}), an);
         eqb("all_of value", spp::all_of(a, S(x)), al); eqb("all_of Value", spp::all_of(a, tag(x)), al); eqb("all_of f", spp::all_of(a, f1), al); eqb("all_of f with default", spp::all_of(a, f1, StrictBool{!al}), al);
         eqb("none_of value", spp::none_of(a, S(x)), !an); eqb("none_of Value", spp::none_of(a, tag(x)), !an); eqb("none_of f", spp::none_of(a, f1), !an); eqb("none_of f with default", spp::none_of(a, f1, StrictBool{an}), !an);
         eqb("any_of value with default", spp::any_of(a, S(x), StrictBool{!an}), an); eqb("all_of Value with default", spp::all_of(a, tag(x), StrictBool{!al}), al); eqb("none_of value with default", spp::none_of(a, S(x), StrictBool{an}), !an);
      } else {
         eqb("any_of value of empty", spp::any_of(a, S(x)), false); eqb("any_of Value of empty", spp::any_of(a, tag(x)), false); eqb("any_of f of empty", spp::any_of(a, f1), false);
         eqb("all_of value of empty", spp::all_of(a, S(x)), false); eqb("all_of Value of empty", spp::all_of(a, tag(x)), false); eqb("all_of f of empty", spp::all_of(a, f1), false);
         eqb("none_of value of empty", spp::none_of(a, S(x)), false); eqb("none_of Value of empty", spp::none_of(a, tag(x)), false); eqb("none_of f of empty", spp::none_of(a, f1), false);
         for(bool d : {false, true}) {
            StrictBool D{d};
            eqb("any_of value of empty with default", spp::any_of(a, S(x), D), d); eqb("any_of Value of empty with default", spp::any_of(a, tag(x), D), d); eqb("any_of f of empty with default", spp::any_of(a, f1, D), d);
            eqb("all_of value of empty with default", spp::all_of(a, S(x), D), d); eqb("all_of Value of empty with default", spp::all_of(a, tag(x), D), d); eqb("all_of f of empty with default", spp::all_of(a, f1, D), d);
            eqb("none_of value of empty with default", spp::none_of(a, S(x), D), d); eqb("none_of Value of empty with default", spp::none_of(a, tag(x), D), d); eqb("none_of f of empty with default", spp::none_of(a, f1, D), d);
         }
      }
   }
}
template <class A> void red1(const A& a, const V& v, bool norms) {
   common(a, v, norms);
   if constexpr(!BO) {
      if(any(v, [](T x) { return isnan_(x); })) return;
      long im = -1, ix = -1;
      for(long i = 0; i < (long)v.size(); ++i) { if(im < 0 || v[i] < v[im]) im = i; if(ix < 0 || v[i] > v[ix]) ix = i; }
      auto ck = [&](const char* w, auto r, long i, T x) { mc::step(); if(r.first.val() != i || !same(r.second.val(), x)) bad(w, "(" + std::to_string(r.first.val()) + ", " + str(r.second.val()) + ")", "(" + std::to_string(i) + ", " + str(x) + ")"); };
      std::pair<index_t, Strict<T>> d{5_sl, SL<T>(77)};
      ck("min_index", spp::min_index(a), im, im < 0 ? T(0) : v[im]); ck("max_index", spp::max_index(a), ix, ix < 0 ? T(0) : v[ix]);
      ck("min_index with default", spp::min_index(a, d), v.empty() ? 5 : im, v.empty() ? T(77) : v[im < 0 ? 0 : im]); ck("max_index with default", spp::max_index(a, d), v.empty() ? 5 : ix, v.empty() ? T(77) : v[ix < 0 ? 0 : ix]);
   }
}
template <class A> void red2(const A& a, const M& m, bool norms) {
   common(a, m.v, norms);
   if constexpr(!BO) {
      if(any(m.v, [](T x) { return isnan_(x); })) return;
      long im = -1, ix = -1;
      for(long i = 0; i < (long)m.v.size(); ++i) { if(im < 0 || m.v[i] < m.v[im]) im = i; if(ix < 0 || m.v[i] > m.v[ix]) ix = i; }
      auto ck = [&](const char* w, auto r, long i, long j, T x) { mc::step(); auto [p, q, y] = r; if(p.val() != i || q.val() != j || !same(y.val(), x)) bad(w, "(" + std::to_string(p.val()) + ", " + std::to_string(q.val()) + ", " + str(y.val()) + ")", "(" + std::to_string(i) + ", " + std::to_string(j) + ", " + str(x) + ")"); };
      std::tuple<index_t, index_t, Strict<T>> d{5_sl, 6_sl, SL<T>(77)};
      if(m.v.empty()) { ck("min_index", spp::min_index(a), -1, -1, T(0)); ck("max_index", spp::max_index(a), -1, -1, T(0)); ck("min_index with default", spp::min_index(a, d), 5, 6, T(77)); ck("max_index with default", spp::max_index(a, d), 5, 6, T(77)); }
      else { ck("min_index", spp::min_index(a), im / m.c, im % m.c, m.v[im]); ck("max_index", spp::max_index(a), ix / m.c, ix % m.c, m.v[ix]); ck("min_index with default", spp::min_index(a, d), im / m.c, im % m.c, m.v[im]); ck("max_index with default", spp::max_index(a, d), ix / m.c, ix % m.c, m.v[ix]); }
   }
}
template <class F> void vecs(F&& f, long nmax, long smax) {   // (vector, exactly computable)
   for(long n = 0; n <= nmax; ++n) vectors(small(), n, [&](const V& v) { f(v, true); });
   for(long n = 1; n <= smax; ++n) vectors(extreme(), n, [&](const V& v) { f(v, false); });
   for(long n = 1; n <= smax; ++n) vectors(special(), n, [&](const V& v) { f(v, false); });
   // longer vectors: an odd one out at every position
   for(long n : mc::thorough ? std::vector<long>{6, 7, 63, 64, 65, 130} : std::vector<long>{6, 7, 33}) for(T base : small()) for(T odd : small()) for(long i = 0; i < n; i += (n > 7 && i > 2 && i < n - 4 && !mc::thorough) ? 29 : 1) { V v(n, base); v[i] = odd; f(v, n <= 7 || base == T(1) || base == T(0)); }
}
void hash1(const char* k, const V& v) { std::uint64_t h = 5; for(const char* c = k; *c; ++c) h = mc::mix(h, *c); mc::state(hash_(v, h)); mc::trace(); }

const std::vector<std::pair<long, long>> SHP = {{0, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}};

// polynomial and friends
template <class A> void poly(const A& a, const V& v) {
   if constexpr(!BO) {
      for(T x : small()) {
         W s = 0, sa = 0, p = 1, ax = x < T(0) ? -W(x) : W(x);
         for(T c : v) { s += W(c) * p; sa += (c < T(0) ? -W(c) : W(c)) * (p < 0 ? -p : p); p *= W(x); }
         (void)ax;
         if(!fits(sa, -sa)) continue;
         if(!v.empty()) { eq("polynomial", spp::polynomial(a, S(x)), T(s)); eq("polynomial with default", spp::polynomial(a, S(x), SL<T>(77)), T(s)); }
         else { eq("polynomial of empty", spp::polynomial(a, S(x)), T(0)); eq("polynomial of empty with default", spp::polynomial(a, S(x), SL<T>(77)), T(77)); }
      }
   }
}
template <class P, class A> void ppoly(const A& a, const V& v, const std::vector<P>& pw) {
   if constexpr(!BO) {
      auto pa = mk1<P, Unaligned>(pw);
      bool bad_size = pw.size() != v.size(), neg = false; for(P p : pw) neg = neg || p < 0;
      for(T x : small()) {
         if(bad_size || (neg && !v.empty())) { mc::step(); if(!throws([&] { (void)spp::polynomial(a, S(x), pa); })) bad("polynomial with invalid powers", "accepted", "rejected"); continue; }
         W s = 0, sa = 0;
         for(std::size_t i = 0; i < v.size(); ++i) { W p = 1; for(P k = 0; k < pw[i]; ++k) p *= W(x); s += W(v[i]) * p; W t = W(v[i]) * p; sa += t < 0 ? -t : t; }
         if(!fits(sa, -sa)) continue;
         if(v.empty()) { eq("polynomial of empty with powers", spp::polynomial(a, S(x), pa), T(0)); eq("polynomial of empty with powers and default", spp::polynomial(a, S(x), pa, SL<T>(77)), T(77)); continue; }
         eqn("polynomial with powers", spp::polynomial(a, S(x), pa), s, 0); eqn("polynomial with powers and default", spp::polynomial(a, S(x), pa, SL<T>(77)), s, 0);
      }
   }
}
template <class P, class A> void gpoly(const A& a, const V& v, const V& xs, const std::vector<P>& pw) {
   if constexpr(!BO) {
      auto pa = mk1<P, Unaligned>(pw); auto xa = mk1<T, Aligned>(xs);
      bool inv = pw.size() != v.size() || xs.size() != v.size(); for(P p : pw) inv = inv || (p < 0 && !v.empty());
      if(inv) { mc::step(); if(!throws([&] { (void)spp::gpolynomial(a, xa, pa); })) bad("gpolynomial with invalid operands", "accepted", "rejected"); return; }
      W s = 0, sa = 0;
      for(std::size_t i = 0; i < v.size(); ++i) { W p = 1; for(P k = 0; k < pw[i]; ++k) p *= W(xs[i]); W t = W(v[i]) * p; s += t; sa += t < 0 ? -t : t; }
      if(!fits(sa, -sa)) return;
      if(v.empty()) { eq("gpolynomial of empty", spp::gpolynomial(a, xa, pa), T(0)); eq("gpolynomial of empty with default", spp::gpolynomial(a, xa, pa, SL<T>(77)), T(77)); return; }
      eqn("gpolynomial", spp::gpolynomial(a, xa, pa), s, 0); eqn("gpolynomial with default", spp::gpolynomial(a, xa, pa, SL<T>(77)), s, 0);
   }
}

W mul(W a, W b) { if constexpr(UN) return W((T)a * (T)b); else return a * b; }
// two operands
template <class A, class B> void pair_(const A& a, const V& x, const B& b, const V& y, bool same_shape) {
   const long n = x.size();
   bool e = same_shape && samev(x, y);
   if(any(x, [](T t) { return isnan_(t); })) e = false;   // NaN equals nothing
   eqb("operator==", a == b, e); eqb("operator!=", a != b, !e); eqb("equal", spp::equal(a, b), e);
   auto f = [](auto p, auto q) { return p == q; };
   if(!same_shape) {
      mc::step(3);
      if(!throws([&] { (void)spp::any_of(a, b, f); })) bad("any_of of unequal shapes", "accepted", "rejected");
      if(!throws([&] { (void)spp::all_of(a, b, f); })) bad("all_of of unequal shapes", "accepted", "rejected");
      if(!throws([&] { (void)spp::none_of(a, b, f); })) bad("none_of of unequal shapes", "accepted", "rejected");
      if constexpr(!BO) { mc::step(); if(!throws([&] { (void)spp::dot_prod(a, b); })) bad("dot_prod of unequal shapes", "accepted", "rejected"); }
      return;
   }
   bool an = false, al = true;
   for(long i = 0; i < n; ++i) { bool q = x[i] == y[i]; an = an || q; al = al && q; }
   if(n) {
      eqb("any_of two", spp::any_of(a, b, f), an); eqb("all_of two", spp::all_of(a, b, f), al); eqb("none_of two", spp::none_of(a, b, f), !an);
      eqb("any_of two with default", spp::any_of(a, b, f, StrictBool{!an}), an); eqb("all_of two with default", spp::all_of(a, b, f, StrictBool{!al}), al); eqb("none_of two with default", spp::none_of(a, b, f, StrictBool{an}), !an);
   } else for(bool d : {false, true}) {
      StrictBool D{d};
      eqb("any_of two of empty", spp::any_of(a, b, f), false); eqb("all_of two of empty", spp::all_of(a, b, f), false); eqb("none_of two of empty", spp::none_of(a, b, f), false);
      eqb("any_of two of empty with default", spp::any_of(a, b, f, D), d); eqb("all_of two of empty with default", spp::all_of(a, b, f, D), d); eqb("none_of two of empty with default", spp::none_of(a, b, f, D), d);
   }
   if constexpr(!BO) {
      W s = 0, pos = 0, neg = 0; for(long i = 0; i < n; ++i) { W t = mul(W(x[i]), W(y[i])); s += t; if(t > 0) pos += t; else neg += t; if constexpr(UN) s = (T)s; }
      bool fin = true; if constexpr(FL) fin = s - s == 0;
      if(fits(pos, neg) && fin) {
         if(n) { eq("dot_prod", spp::dot_prod(a, b), T(s)); eq("dot_prod with default", spp::dot_prod(a, b, SL<T>(77)), T(s)); }
         else { eq("dot_prod of empty", spp::dot_prod(a, b), T(0)); eq("dot_prod of empty with default", spp::dot_prod(a, b, SL<T>(77)), lab<T>(77)); }
      }
   }
}
template <int K1, int K2> void pairs1(const char* only = nullptr) {
   V d = small(); if(d.size() > 3) d.resize(3);
   auto run = [&](const V& x, const V& y) {
      ctx = std::string(kname1[K1]) + "," + kname1[K2] + " " + str(x) + " and " + str(y); mc::at("%s", ctx.c_str());
      kind1<K1>(x, [&](auto&& a, auto) { kind1<K2>(y, [&](auto&& b, auto) { pair_(a, x, b, y, x.size() == y.size()); }); });
      hash1(kname1[K1], x); 
   };
   const long N = (K1 == 0 && K2 == 0) ? 3 : 2;
   for(long n = 0; n <= N; ++n) vectors(d, n, [&](const V& x) { for(long m = 0; m <= N; ++m) vectors(d, m, [&](const V& y) { if(n == m || (x == V(n, d[0]) && y == V(m, d[0])) || n + m <= 3) run(x, y); }); });
   for(long i = -1; i < 6; ++i) for(long j = -1; j < 6; ++j) { V x(6, d[1]), y(6, d[1]); if(i >= 0) x[i] = d[0]; if(j >= 0) y[j] = d[0]; run(x, y); }
   if constexpr(FL) vectors(special(), 1, [&](const V& x) { vectors(special(), 1, [&](const V& y) { run(x, y); }); });
   for(T q : extreme()) for(T p : extreme()) { run({q}, {p}); run({d[0], q}, {d[0], p}); }
}
template <int K1, int K2> void pairs2() {
   V d = small(); d.resize(2);
   auto run = [&](const M& x, const M& y) {
      ctx = std::string(kname2[K1]) + "," + kname2[K2] + " " + str(x) + " and " + str(y); mc::at("%s", ctx.c_str());
      kind2<K1>(x, [&](auto&& a, auto) { kind2<K2>(y, [&](auto&& b, auto) { pair_(a, x.v, b, y.v, x.r == y.r && x.c == y.c); }); });
      hash1(kname2[K1], x.v);
   };
   for(auto [r, c] : SHP) for(auto [p, q] : SHP) {
      M x, y; x.r = r; x.c = c; y.r = p; y.c = q;
      x.v = V(r * c, d[1]); y.v = V(p * q, d[1]);
      run(x, y);
      if(r == p && c == q) for(long i = 0; i < r * c; ++i) { auto x2 = x; x2.v[i] = d[0]; run(x2, y); run(y, x2); for(long j = 0; j < r * c; ++j) { auto y2 = y; y2.v[j] = d[0]; run(x2, y2); } }
   }
}
}

#if C10_PART == 0
template <int K> void one(long n, long s) {
   vecs([&](const V& v, bool norms) {
      ctx = std::string(kname1[K]) + " " + str(v); mc::at("%s", ctx.c_str());
      kind1<K>(v, [&](auto&& a, auto) { red1(a, v, norms); if(norms && v.size() <= 7) poly(a, v); });
      hash1(kname1[K], v);
   }, n, s);
}
UNIT("reductions-1d") { ks([&]<int K>() { one<K>(K == 0 ? (mc::thorough ? 6 : 4) : (mc::thorough ? 4 : 3), K == 0 ? 3 : 2); }); }
template <class P, int K> void polys() {
   V d = small(); if(d.size() > 3) d = {d[0], d[1], d[3]};
   std::vector<P> pd = {0, 1, 2, 5};
   for(long n = 0; n <= 3; ++n) vectors(d, n, [&](const V& v) {
      ctx = std::string(kname1[K]) + " " + str(v); mc::at("polynomial coefficients %s", ctx.c_str());
      kind1<K>(v, [&](auto&& a, auto) {
         std::vector<P> pw(n, 0); std::vector<int> ix(n, 0);
         for(;;) {
            ppoly<P>(a, v, pw);
            if(n <= 2) vectors(d, n, [&](const V& xs) { gpoly<P>(a, v, xs, pw); });
            else gpoly<P>(a, v, V{d[1], d[0], d[2]}, pw);
            long k = n - 1; while(k >= 0 && ++ix[k] == 4) { ix[k] = 0; pw[k] = 0; --k; }
            if(k < 0) break;
            pw[k] = pd[ix[k]];
         }
         for(long m = 0; m <= 4; ++m) if(m != n) { ppoly<P>(a, v, std::vector<P>(m, 1)); gpoly<P>(a, v, V(n, d[1]), std::vector<P>(m, 1)); gpoly<P>(a, v, V(m, d[1]), std::vector<P>(n, 1)); gpoly<P>(a, v, V(m, d[1]), std::vector<P>(m, 1)); }
         for(long i = 0; i < n; ++i) { std::vector<P> q(n, 1); q[i] = -1; ppoly<P>(a, v, q); gpoly<P>(a, v, V(n, d[1]), q); }
      });
      hash1((std::string("poly") + kname1[K] + (std::is_same_v<P, int> ? "i" : "l")).c_str(), v);
   });
}
template <class = void> void polyu() { if constexpr(!BO) { polys<int, 0>(); polys<long, 0>(); ks([&]<int K>() { if constexpr(K > 0) polys<int, K>(); }); } else mc::step(); }
UNIT("polynomials") { polyu(); }
#elif C10_PART == 1
template <int K> void two() {
   for(auto [r, c] : SHP) {
      M m; m.r = r; m.c = c;
      auto run = [&](const V& v, bool norms) { m.v = v; ctx = std::string(kname2[K]) + " " + str(m); mc::at("%s", ctx.c_str()); kind2<K>(m, [&](auto&& a, auto) { red2(a, m, norms); }); hash1(kname2[K], v); };
      V d = small(); if(r * c > 3 && d.size() > (mc::thorough ? 3 : 2)) d.resize(mc::thorough ? 3 : 2);
      vectors(d, r * c, [&](const V& v) { run(v, true); });
      if(r * c <= 4 && r * c > 0) { V e = extreme(); if(r * c > 3) e.resize(2); vectors(e, r * c, [&](const V& v) { run(v, false); }); }
      if(r * c <= 3 && r * c > 0) vectors(special(), r * c, [&](const V& v) { run(v, false); });
      for(long i = 0; i < r * c; ++i) for(T p : extreme()) for(T q : extreme()) { V v(r * c, p); v[i] = q; run(v, false); }
   }
}
UNIT("reductions-2d") { ks([&]<int K>() { two<K>(); }); }
#elif C10_PART == 2
UNIT("pairs-1d") { ks([&]<int K>() { pairs1<K, 0>(); if constexpr(K) { pairs1<0, K>(); pairs1<K, K>(); } }); }
#elif C10_PART == 3
UNIT("pairs-2d") { ks([&]<int K>() { pairs2<K, 0>(); if constexpr(K) { pairs2<0, K>(); pairs2<K, K>(); } }); }
#endif
