// C22: error metrics and tolerance tests against their definitions, for all pairs of boundary values and all pairs of small arrays.
#include "kinds.hpp"
#include "dy.hpp"
#ifndef C22_T
#define C22_T double
#endif
#ifndef C22_KLO
#define C22_KLO 0
#define C22_KHI 11
#endif

namespace {
using T = C22_T;
using V = std::vector<T>;
using M = Mat<T>;
constexpr int P = FP<T>::p;
template <class F> void ks(F&& f) { [&]<int... K>(std::integer_sequence<int, K...>) { (f.template operator()<K + C22_KLO>(), ...); }(std::make_integer_sequence<int, C22_KHI - C22_KLO>{}); }
const T EPS = two<T>(1 - P), TOL = 100 * EPS;
T big() { if constexpr(std::is_same_v<T, float128>) return two<T>(FP<T>::emax - 1) * (2 - EPS); else return std::numeric_limits<T>::max(); }
T tiny() { return two<T>(FP<T>::emin); }   // smallest positive value
T ab(T x) { return x < 0 ? -x : x; }
T mx(T x, T y) { return x < y ? y : x; }
// --- definitions
bool d_abs(T x, T y, T tol) { return ab(x - y) <= tol; }
bool d_rel(T x, T y, T tol, T nz) { const T m = mx(ab(x), ab(y)); return m <= nz || ab(x - y) / m <= tol; }
T e_abs(T a, T e) { return ab(a - e); }
T e_rel(T a, T e) { return ab((a - e) / e); }
V lattice() {
   V v{T(0), -T(0), tiny(), -tiny(), two<T>(FP<T>::emin + P - 1), big(), -big(), two<T>(-P), T(1) / T(3), T(1e10), T(3), -T(3), T(0.1)};
   for(long k : {-101, -100, -99, -2, -1, 0, 1, 2, 50, 51, 99, 100, 101, 102}) { v.push_back(1 + k * EPS); }
   for(T s : {T(1), T(-1)}) for(long k : {-1, 0, 1}) v.push_back(s * TOL * (1 + k * EPS));
   for(T x : {T(-1), -(1 + 100 * EPS), T(2), 2 + 200 * EPS, 2 + 202 * EPS, T(1.5), TOL * 2, TOL / 2}) v.push_back(x);
   return v;
}
V tols() { return {T(0), -T(0), tiny(), EPS, TOL, TOL * (1 - EPS), TOL * (1 + EPS), T(1) / T(3), T(0.5), T(1), T(2), T(3), big()}; }
V badtols() { T z = 0, i = 1 / z; return {-tiny(), T(-1), -TOL, -big(), -i, i - i}; }

std::string ctx;
template <class B> void isb(const char* w, B got, bool want) { mc::step(); if(got.val() != want) mc::fail(w, "%s of %s is %d, expected %d", w, ctx.c_str(), int(got.val()), int(want)); }
void isv(const char* w, Strict<T> got, T want) { mc::step(); if(!same(got.val(), want)) mc::fail(w, "%s of %s is %s, expected %s", w, ctx.c_str(), str(got.val()).c_str(), str(want).c_str()); }
void iso(const char* w, const std::optional<Strict<T>>& got, const std::optional<T>& want) {
   mc::step();
   if(got.has_value() != want.has_value() || (got && !same(got->val(), *want))) mc::fail(w, "%s of %s is %s, expected %s", w, ctx.c_str(), got ? str(got->val()).c_str() : "nothing", want ? str(*want).c_str() : "nothing");
}
template <class F> void rej(const char* w, F&& f) { mc::step(); if(!throws(f)) mc::fail(std::string(w) + ":accepted", "%s of %s is accepted", w, ctx.c_str()); }

// the definitions over sequences
struct Def {
   bool ze = false, empty = true; T ma = 0, mr = 0;
   Def(const V& a, const V& e) {
      for(std::size_t i = 0; i < a.size(); ++i) { empty = false; ma = mx(ma, e_abs(a[i], e[i])); if(a[i] == 0 || e[i] == 0) ze = true; else mr = mx(mr, e_rel(a[i], e[i])); }
   }
};
bool all_abs(const V& a, const V& e, T tol) { for(std::size_t i = 0; i < a.size(); ++i) if(!d_abs(a[i], e[i], tol)) return false; return !a.empty(); }
bool all_rel(const V& a, const V& e, T tol, T nz) { for(std::size_t i = 0; i < a.size(); ++i) if(!d_rel(a[i], e[i], tol, nz)) return false; return !a.empty(); }

template <class A, class B> void arrays(const A& a, const B& b, const V& v, const V& w, const V& ts) {
   const Def d(v, w);
   const StrictBool yes{true};
   isv("max_abs_error", spp::max_abs_error(a, b), d.empty ? T(1) : d.ma);
   isv("max_abs_error with default", spp::max_abs_error(a, b, SL<T>(7)), d.empty ? T(7) : d.ma);
   std::optional<T> mr; if(d.empty) mr = T(1); else if(!d.ze) mr = d.mr;
   iso("max_rel_error", spp::max_rel_error(a, b), mr);
   if(d.empty) mr = T(7);
   iso("max_rel_error with default", spp::max_rel_error(a, b, SL<T>(7)), mr);
   isb("within_tol_abs", spp::within_tol_abs(a, b), all_abs(v, w, TOL));
   isb("within_tol_rel", spp::within_tol_rel(a, b), all_rel(v, w, TOL, TOL));
   for(T t : ts) {
      isb("within_tol_abs tol", spp::within_tol_abs(a, b, S(t)), all_abs(v, w, t));
      isb("within_tol_abs tol default", spp::within_tol_abs(a, b, S(t), yes), d.empty || all_abs(v, w, t));
      isb("within_tol_rel tol", spp::within_tol_rel(a, b, S(t)), all_rel(v, w, t, TOL));
      for(T nz : {T(0), T(1)}) {
         isb("within_tol_rel tol near_zero", spp::within_tol_rel(a, b, S(t), S(nz)), all_rel(v, w, t, nz));
         isb("within_tol_rel tol near_zero default", spp::within_tol_rel(a, b, S(t), S(nz), yes), d.empty || all_rel(v, w, t, nz));
      }
   }
   mc::trace();
}
template <class A, class B> void rejected(const A& a, const B& b) {
   rej("max_abs_error (unequal)", [&] { (void)spp::max_abs_error(a, b); });
   rej("max_rel_error (unequal)", [&] { (void)spp::max_rel_error(a, b); });
   rej("within_tol_abs (unequal)", [&] { (void)spp::within_tol_abs(a, b); });
   rej("within_tol_rel (unequal)", [&] { (void)spp::within_tol_rel(a, b, S(T(1)), S(T(1)), true_sb); });
   rej("within_tol_abs (unequal, default)", [&] { (void)spp::within_tol_abs(a, b, S(T(1)), true_sb); });
}
template <class A, class B> void negative(const A& a, const B& b) {
   for(T t : badtols()) {
      rej("within_tol_abs (negative tolerance)", [&] { (void)spp::within_tol_abs(a, b, S(t)); });
      rej("within_tol_rel (negative tolerance)", [&] { (void)spp::within_tol_rel(a, b, S(t)); });
      rej("within_tol_rel (negative near-zero)", [&] { (void)spp::within_tol_rel(a, b, S(T(1)), S(t)); });
   }
}
template <class F> void vectors(const V& d, long n, F&& f) {
   V v(n, d[0]); std::vector<std::size_t> ix(n, 0);
   for(;;) {
      f(v);
      long k = n - 1;
      while(k >= 0 && ++ix[k] == d.size()) { ix[k] = 0; v[k] = d[0]; --k; }
      if(k < 0) return;
      v[k] = d[ix[k]];
   }
}
}

#if C22_KLO == 0
UNIT("scalars") {
   const V l = lattice();
   isv("DefaultTol", DefaultTol<T>::value, TOL);
   for(T x : l) for(T y : l) {
      mc::at("scalars %s %s", str(x).c_str(), str(y).c_str()); ctx = "(" + str(x) + ", " + str(y) + ")";
      isv("abs_error", spp::abs_error(S(x), S(y)), e_abs(x, y));
      std::optional<T> r; if(x != 0 && y != 0) r = e_rel(x, y);
      iso("rel_error", spp::rel_error(S(x), S(y)), r);
      isb("within_tol_abs", spp::within_tol_abs(S(x), S(y)), d_abs(x, y, TOL));
      isb("within_tol_rel", spp::within_tol_rel(S(x), S(y)), d_rel(x, y, TOL, TOL));
      for(T t : tols()) {
         ctx = "(" + str(x) + ", " + str(y) + ") tol " + str(t);
         isb("within_tol_abs", spp::within_tol_abs(S(x), S(y), S(t)), d_abs(x, y, t));
         isb("within_tol_rel", spp::within_tol_rel(S(x), S(y), S(t)), d_rel(x, y, t, TOL));
         for(T nz : tols()) isb("within_tol_rel near_zero", spp::within_tol_rel(S(x), S(y), S(t), S(nz)), d_rel(x, y, t, nz));
      }
      mc::state(hv(e_abs(x, y))); mc::trace();
   }
   for(T x : {T(0), T(1), big()}) for(T y : {T(0), T(1), T(2)}) for(T t : badtols()) {
      mc::at("scalars %s %s tolerance %s", str(x).c_str(), str(y).c_str(), str(t).c_str()); ctx = mc::cur;
      rej("within_tol_abs", [&] { (void)spp::within_tol_abs(S(x), S(y), S(t)); });
      rej("within_tol_rel", [&] { (void)spp::within_tol_rel(S(x), S(y), S(t)); });
      rej("within_tol_rel near_zero", [&] { (void)spp::within_tol_rel(S(x), S(y), S(T(1)), S(t)); });
   }
}
UNIT("vectors") {
   const V l{T(0), T(1), 1 + 100 * EPS, -T(1), 1 + 101 * EPS, T(2), big()};
   V ts{T(0), TOL, T(1), T(2)};
   for(long n = 0; n <= (mc::thorough ? 3 : 2); ++n) vectors(l, n, [&](const V& v) { vectors(l, n, [&](const V& w) {
      mc::at("vectors %s %s", str(v).c_str(), str(w).c_str()); ctx = str(v) + ", " + str(w);
      auto a = mk1<T, Unaligned>(v); auto b = mk1<T, Aligned>(w);
      arrays(a, b, v, w, ts);
      mc::state(hash_(w, hash_(v)));
   }); });
   // one difference at every position of longer sequences
   for(long n : {3, 6, 17, 64, 65}) for(long i = 0; i < n; ++i) for(T x : {T(0), T(2), 1 + 100 * EPS, 1 + 101 * EPS}) for(bool sw : {false, true}) {
      V v(n, T(1)), w = v; v[i] = x; if(sw) std::swap(v, w);
      mc::at("vectors n=%ld, %s at %ld of the %s", n, str(x).c_str(), i, sw ? "second" : "first"); ctx = mc::cur;
      arrays(mk1<T, Unaligned>(v), mk1<T, Unaligned>(w), v, w, {TOL, T(1)});
   }
}
UNIT("lists") {
   using L1 = use::List1D<Strict<T>>; using L2 = use::List2D<Strict<T>>;
   const V l{T(1), 1 + 100 * EPS, 1 + 101 * EPS, T(3)};
   const StrictBool yes{true};
   vectors(l, 2, [&](const V& v) { vectors(l, 2, [&](const V& w) {
      mc::at("lists %s %s", str(v).c_str(), str(w).c_str()); ctx = mc::cur;
      auto a = mk1<T, Unaligned>(v); M m; m.r = 1; m.c = 2; m.v = v; auto A = mk2<T, Unaligned>(m);
      const Strict<T> x = S(w[0]), y = S(w[1]);
      for(T t : {TOL, T(1), T(0)}) {
         const bool ea = all_abs(v, w, t), er = all_rel(v, w, t, TOL), ez = all_rel(v, w, t, T(2));
         isb("within_tol_abs (array, list)", spp::within_tol_abs(a, L1{x, y}, S(t)), ea);
         isb("within_tol_abs (list, array)", spp::within_tol_abs(L1{x, y}, a, S(t)), ea);
         isb("within_tol_rel (array, list)", spp::within_tol_rel(a, L1{x, y}, S(t)), er);
         isb("within_tol_rel (list, array)", spp::within_tol_rel(L1{x, y}, a, S(t)), er);
         isb("within_tol_rel (array, list, near_zero)", spp::within_tol_rel(a, L1{x, y}, S(t), S(T(2)), yes), ez);
         isb("within_tol_rel (list, array, near_zero)", spp::within_tol_rel(L1{x, y}, a, S(t), S(T(2)), yes), ez);
         isb("within_tol_abs (array2D, list)", spp::within_tol_abs(A, L2{{x, y}}, S(t)), ea);
         isb("within_tol_abs (list, array2D)", spp::within_tol_abs(L2{{x, y}}, A, S(t)), ea);
         isb("within_tol_rel (array2D, list)", spp::within_tol_rel(A, L2{{x, y}}, S(t)), er);
         isb("within_tol_rel (list, array2D)", spp::within_tol_rel(L2{{x, y}}, A, S(t)), er);
         isb("within_tol_rel (array2D, list, near_zero)", spp::within_tol_rel(A, L2{{x, y}}, S(t), S(T(2)), yes), ez);
         isb("within_tol_rel (list, array2D, near_zero)", spp::within_tol_rel(L2{{x, y}}, A, S(t), S(T(2)), yes), ez);
      }
      isb("within_tol_abs (array, list) default", spp::within_tol_abs(a, L1{x, y}), all_abs(v, w, TOL));
      isb("within_tol_abs (list, array) default", spp::within_tol_abs(L1{x, y}, a), all_abs(v, w, TOL));
      isb("within_tol_rel (list, array2D) default", spp::within_tol_rel(L2{{x, y}}, A), all_rel(v, w, TOL, TOL));
      isb("within_tol_abs (array2D, list) default", spp::within_tol_abs(A, L2{{x, y}}), all_abs(v, w, TOL));
      mc::state(hash_(w, hash_(v))); mc::trace();
   }); });
   mc::at("lists of other sizes"); ctx = mc::cur;
   const Strict<T> x = S(T(1));
   Array1D<T> a(Size{2}, Value{S(T(1))}); Array2D<T> A(Rows{2}, Cols{3}, Value{S(T(1))}); Array1D<T> e; Array2D<T> E;
   rej("1", [&] { (void)spp::within_tol_abs(a, L1{x}); }); rej("2", [&] { (void)spp::within_tol_abs(L1{x, x, x}, a); });
   rej("3", [&] { (void)spp::within_tol_rel(a, L1{x}); }); rej("4", [&] { (void)spp::within_tol_rel(L1{x, x, x}, a); });
   rej("5", [&] { (void)spp::within_tol_abs(A, L2{{x, x}, {x, x}, {x, x}}); }); rej("6", [&] { (void)spp::within_tol_abs(L2{{x, x}, {x, x}, {x, x}}, A); });
   rej("7", [&] { (void)spp::within_tol_rel(A, L2{{x, x}, {x, x}, {x, x}}); }); rej("8", [&] { (void)spp::within_tol_rel(L2{{x, x, x}}, A); });
   rej("9", [&] { (void)spp::within_tol_rel(L2{{x, x, x}, {x, x}}, A); }); rej("10", [&] { (void)spp::within_tol_abs(a, L1{x, x}, S(T(-1))); });
   rej("11", [&] { (void)spp::within_tol_rel(L1{x, x}, a, S(T(-1))); }); rej("12", [&] { (void)spp::within_tol_rel(a, L1{x, x}, x, S(T(-1))); });
   rej("13", [&] { (void)spp::within_tol_abs(L2{{x, x, x}, {x, x, x}}, A, S(T(-1))); }); rej("14", [&] { (void)spp::within_tol_rel(A, L2{{x, x, x}, {x, x, x}}, x, S(T(-1))); });
   isb("empty list", spp::within_tol_abs(e, L1{}), false); isb("empty list", spp::within_tol_abs(L1{}, e, x, yes), true);
   isb("empty list", spp::within_tol_rel(e, L1{}), false); isb("empty list", spp::within_tol_rel(L1{}, e, x, x, yes), true);
   isb("empty list", spp::within_tol_abs(E, L2{}), false); isb("empty list", spp::within_tol_abs(L2{}, E, x, yes), true);
   isb("empty list", spp::within_tol_rel(E, L2{}), false); isb("empty list", spp::within_tol_rel(L2{}, E, x, x, yes), true);
   mc::trace();
}
UNIT("sizes") {
   for(long n = 0; n <= 4; ++n) for(long k = 0; k <= 4; ++k) {
      mc::at("sizes %ld and %ld", n, k); ctx = mc::cur;
      Array1D<T> a(Size{n}, Value{S(T(1))}), b(Size{k}, Value{S(T(1))});
      if(n == k) { if(n) negative(a, b); } else { rejected(a, b); rejected(a(place::all), b + b); }
      mc::trace();
   }
   std::vector<std::pair<long, long>> sh{{0, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 3}, {3, 2}, {1, 6}, {6, 1}, {2, 2}, {1, 4}, {4, 1}};
   for(auto [r, c] : sh) for(auto [p, q] : sh) {
      mc::at("shapes %ldx%ld and %ldx%ld", r, c, p, q); ctx = mc::cur;
      Array2D<T> a(Rows{r}, Cols{c}, Value{S(T(1))}), b(Rows{p}, Cols{q}, Value{S(T(1))});
      if(r == p && c == q) { if(r) negative(a, b); } else { rejected(a, b); rejected(a(place::reverse, place::all), b * b); }
      mc::state(r * 1000 + c * 100 + p * 10 + q); mc::trace();
   }
}
#endif

template <int K> void kind_pairs1() {
   const V l{T(1), 1 + 100 * EPS, 1 + 101 * EPS, T(-3), T(0)};
   auto run = [&](const V& v, const V& w) {
      kind1<K>(v, [&](auto&& a, auto&&) {
         kind1<0>(w, [&](auto&& b, auto&&) { ctx = std::string(kname1[K]) + " " + str(v) + ", array " + str(w); mc::at("%s", ctx.c_str()); arrays(a, b, v, w, {T(1)}); if(a.size().val() == b.size().val() && !v.empty()) negative(a, b); });
         kind1<0>(w, [&](auto&& b, auto&&) { ctx = "array " + str(w) + ", " + kname1[K] + " " + str(v); mc::at("%s", ctx.c_str()); arrays(b, a, w, v, {T(1)}); });
         kind1<K>(w, [&](auto&& b, auto&&) { ctx = std::string(kname1[K]) + " " + str(v) + ", the same kind " + str(w); mc::at("%s", ctx.c_str()); arrays(a, b, v, w, {T(1)}); });
         V s(w.begin(), w.end()); s.push_back(T(1));
         auto b = mk1<T, Unaligned>(s); ctx = std::string(kname1[K]) + " " + str(v) + ", array " + str(s); mc::at("%s", ctx.c_str()); rejected(a, b); rejected(b, a);
      });
   };
   const long N = K == 5 ? 6 : 3;
   for(long n = 0; n <= (K == 5 ? 0 : 1); ++n) { V v(n, T(1)); run(v, v); }
   for(T x : l) for(T y : l) for(long i = 0; i < N; ++i) for(long j = 0; j < N; ++j) { V v(N, T(1)), w(N, T(1)); for(long k = 0; k < N; ++k) v[k] = w[k] = T(1 + k); v[i] = x; w[j] = y; run(v, w); if(N == 6 && i != j) { ++j; } }
   mc::state(K);
}
template <int K> void kind_pairs2() {
   const V l{T(1), 1 + 101 * EPS, T(-3), T(0)};
   auto run = [&](const M& v, const M& w) {
      kind2<K>(v, [&](auto&& a, auto&&) {
         kind2<0>(w, [&](auto&& b, auto&&) { ctx = std::string(kname2[K]) + " " + str(v) + ", array2D " + str(w); mc::at("%s", ctx.c_str()); arrays(a, b, v.v, w.v, {T(1)}); if(!v.v.empty()) negative(a, b); });
         kind2<0>(w, [&](auto&& b, auto&&) { ctx = "array2D " + str(w) + ", " + kname2[K] + " " + str(v); mc::at("%s", ctx.c_str()); arrays(b, a, w.v, v.v, {T(1)}); });
         kind2<K>(w, [&](auto&& b, auto&&) { ctx = std::string(kname2[K]) + " " + str(v) + ", the same kind " + str(w); mc::at("%s", ctx.c_str()); arrays(a, b, v.v, w.v, {T(1)}); });
         if(v.r != v.c) { M s; s.r = v.c; s.c = v.r; s.v = v.v; auto b = mk2<T, Unaligned>(s); ctx = std::string(kname2[K]) + " " + str(v) + ", array2D " + str(s); mc::at("%s", ctx.c_str()); rejected(a, b); rejected(b, a); }
      });
   };
   for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {2, 3}, {3, 2}, {2, 2}}) {
      const long N = r * c;
      M v; v.r = r; v.c = c; v.v.assign(N, T(1)); for(long k = 0; k < N; ++k) v.v[k] = T(1 + k);
      run(v, v);
      for(T x : l) for(T y : l) for(long i = 0; i < N; ++i) { M a = v, b = v; a.v[i] = x; b.v[(i + 1) % N] = y; run(a, b); b = v; b.v[i] = y; run(a, b); }
   }
   mc::state(K);
}
UNIT("kinds1") { ks([]<int K>() { kind_pairs1<K>(); }); }
UNIT("kinds2") { ks([]<int K>() { kind_pairs2<K>(); }); }
