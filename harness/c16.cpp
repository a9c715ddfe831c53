// C16: compensated algorithms against exact rational arithmetic, for every vector over ill-conditioned value domains.
#include "kinds.hpp"
#include "dy.hpp"
#ifndef C16_T
#define C16_T double
#endif
#ifndef C16_KLO
#define C16_KLO 0
#define C16_KHI 11
#endif
#ifndef C16_PART
#define C16_PART 0
#endif

namespace {
using T = C16_T;
using V = std::vector<T>;
using M = Mat<T>;
constexpr int P = FP<T>::p;
template <class F> void ks(F&& f) { [&]<int... K>(std::integer_sequence<int, K...>) { (f.template operator()<K + C16_KLO>(), ...); }(std::make_integer_sequence<int, C16_KHI - C16_KLO>{}); }
template <class F> void vectors(const V& d, long n, F&& f) {
   V v(n, d[0]); std::vector<std::size_t> ix(n, 0);
   for(;;) {
      f(v);
      long k = n - 1;
      while(k >= 0 && ++ix[k] == d.size()) { ix[k] = 0; v[k] = d[0]; --k; }
      if(k < 0) return;
      v[k] = d[ix[k]];
   }
}
V sum_dom() { return {T(1), T(-1), two<T>(P), -two<T>(P), two<T>(P + 1) + 4, two<T>(-P), 1 + two<T>(1 - P), T(1) / T(3)}; }
V prod_dom() { return {T(3), -(1 + two<T>(1 - P)), 1 - two<T>(-P), T(1) / T(3), T(7) / T(10), T(-1) / T(10)}; }

std::string ctx, how;
const Dy U1 = Dy::pow2(-P), U2 = Dy::pow2(-2 * P);
void bad(const char* what, T got, const std::string& want) { mc::fail(std::string(what) + ":" + how, "%s of %s is %s, expected %s", what, ctx.c_str(), str(got).c_str(), want.c_str()); }
void eq(const char* w, Strict<T> got, T want) { mc::step(); if(!same(got.val(), want)) bad(w, got.val(), str(want)); }
void rej(const char* w, bool threw) { mc::step(); if(!threw) mc::fail(std::string(w) + ":" + how, "%s of %s is accepted", w, ctx.c_str()); }
// |got * scale - exact| <= tol
void within(const char* w, Strict<T> got, const Dy& exact, const Dy& tol, long scale = 1) {
   mc::step();
   T g = got.val();
   if(g - g != 0 || !((Dy::of(g) * Dy(scale) - exact).abs_() <= tol)) bad(w, g, str((long double)nearest<float128>(exact)) + " / " + std::to_string(scale) + " to compensated accuracy");
}

// sums, means and norms of the elements v (in this order)
template <class A> void sums(const A& a, const V& v) {
   const long n = v.size();
   const Strict<T> D = SL<T>(77);
   if(!n) {
#define EMP(F) eq(#F " of empty", spp::F(a), T(0)); eq(#F " of empty with default", spp::F(a, D), T(77));
      EMP(stable_sum) EMP(semi_stable_sum) EMP(stable_prod) EMP(stable_mean) EMP(stable_norm1) EMP(stable_norm1_scaled) EMP(stable_norm2) EMP(stable_norm2_scaled)
      eq("stable_norm_lp of empty", spp::stable_norm_lp(a, 2), T(0)); eq("stable_norm_lp of empty with default", spp::stable_norm_lp(a, 2, D), T(77));
      eq("stable_norm_lp_scaled of empty", spp::stable_norm_lp_scaled(a, 2), T(0)); eq("stable_norm_lp_scaled of empty with default", spp::stable_norm_lp_scaled(a, 2, D), T(77));
      return;
   }
   Dy s, sa, q; bool pref = true, prefa = true, prefq = true; long lo = 1 << 20;
   for(T x : v) { Dy d = Dy::of(x); s = s + d; sa = sa + d.abs_(); Dy dd = d * d; q = q + dd; pref = pref && representable<T>(s); prefa = prefa && representable<T>(sa); prefq = prefq && representable<T>(dd) && representable<T>(q); if(d.m != 0) lo = std::min(lo, d.norm().e); }
   const Dy c = U2 * Dy(4 * n * n);
   const Dy ts = U1 * s.abs_() + c * sa;
   const bool anyorder = sa.m == 0 || sa.exp() - lo < P;     // every order of summation is exact
   eq("stable_sum", n == 1 ? spp::stable_sum(a) : spp::stable_sum(a, D), spp::stable_sum(a).val());
   if(pref) eq("stable_sum (exact)", spp::stable_sum(a), nearest<T>(s)); else within("stable_sum", spp::stable_sum(a), s, ts);
   if(anyorder) eq("semi_stable_sum (exact)", spp::semi_stable_sum(a, D), nearest<T>(s)); else within("semi_stable_sum", spp::semi_stable_sum(a), s, U1 * Dy(n < 130 ? n + 2 : 132) * sa);
   within("stable_mean", spp::stable_mean(a), s, ts + U1 * s.abs_(), n); eq("stable_mean with default", spp::stable_mean(a, D), spp::stable_mean(a).val());
   if(pref) eq("stable_mean (exact sum)", spp::stable_mean(a), nearest<T>(s) / T(n));
   if(prefa) eq("stable_norm1 (exact)", spp::stable_norm1(a, D), nearest<T>(sa)); else within("stable_norm1", spp::stable_norm1(a), sa, U1 * sa + c * sa);
   within("stable_norm1_scaled", spp::stable_norm1_scaled(a), sa, (U1 + U1 + c) * sa, n); eq("stable_norm1_scaled with default", spp::stable_norm1_scaled(a, D), spp::stable_norm1_scaled(a).val());
   // 2-norm: square root of a compensated dot product
   if(q.exp() < FP<T>::emax - 2) {
      T r = spp::stable_norm2(a).val(); Dy R = Dy::of(r); mc::step();
      if(!((R * R - q).abs_() <= q * (U1 * Dy(4) + c))) bad("stable_norm2", r, "the root of the compensated dot product");
      if(prefq) { T w; if constexpr(std::is_same_v<T, float128>) w = sqrtq(nearest<T>(q)); else w = std::sqrt(nearest<T>(q)); eq("stable_norm2 (exact squares)", spp::stable_norm2(a, D), w); }
      r = spp::stable_norm2_scaled(a).val(); R = Dy::of(r); mc::step();
      if(!((R * R * Dy(n) - q).abs_() <= q * (U1 * Dy(12) + c))) bad("stable_norm2_scaled", r, "the scaled root of the compensated dot product");
      eq("stable_norm2 with default", spp::stable_norm2(a, D), spp::stable_norm2(a).val()); eq("stable_norm2_scaled with default", spp::stable_norm2_scaled(a, D), r);
   }
   for(int lp : {1, 2, 3, 6}) {
      if(n > 8 && lp > 2) continue;
      Dy sl; bool under = false; for(T x : v) { Dy d = Dy::of(x).abs_().pow(lp); under = under || (d.m != 0 && d.exp() - 2 * P < FP<T>::emin); sl = sl + d; }
      if(sl.m != 0 && (sl.exp() > FP<T>::emax - 2 || under)) continue;
      long lg = std::abs(sl.m == 0 ? 0 : sl.exp()) + 8;
      T r = spp::stable_norm_lp(a, lp).val(), rs = spp::stable_norm_lp_scaled(a, lp).val(); mc::step(2);
      Dy tol = sl * (U1 * Dy(8 * lp + 4 * lg) + c);
      if(!((Dy::of(r).pow(lp) - sl).abs_() <= tol)) bad("stable_norm_lp", r, "the compensated norm of order " + std::to_string(lp));
      if(!((Dy::of(rs).pow(lp) * Dy(n) - sl).abs_() <= tol + tol)) bad("stable_norm_lp_scaled", rs, "the scaled compensated norm of order " + std::to_string(lp));
      eq("stable_norm_lp with default", spp::stable_norm_lp(a, (long)lp, D), r); eq("stable_norm_lp_scaled with default", spp::stable_norm_lp_scaled(a, Strict<long>{(long)lp}, D), rs);
   }
   if(n == 1) for(long lp : {0L, -1L, std::numeric_limits<long>::min()}) { rej("stable_norm_lp of invalid order", throws([&] { (void)spp::stable_norm_lp(a, lp); })); rej("stable_norm_lp_scaled of invalid order", throws([&] { (void)spp::stable_norm_lp_scaled(a, lp); })); }
}
template <class A> void prods(const A& a, const V& v) {
   const long n = v.size();
   if(!n) return;
   Dy p(1); bool pref = true; for(T x : v) { p = p * Dy::of(x); pref = pref && representable<T>(p); }
   if(p.m != 0 && (std::abs(p.exp()) + 3 * P > FP<T>::emax)) return;
   if(pref) eq("stable_prod (exact)", spp::stable_prod(a), nearest<T>(p)); else within("stable_prod", spp::stable_prod(a), p, p.abs_() * (U1 + U2 * Dy(4 * n * n)));
   eq("stable_prod with default", spp::stable_prod(a, SL<T>(77)), spp::stable_prod(a).val());
}
template <class A, class B> void dots(const A& a, const V& x, const B& b, const V& y, bool same_shape) {
   const long n = x.size(); const Strict<T> D = SL<T>(77);
   if(!same_shape) { rej("stable_dot_prod of unequal shapes", throws([&] { (void)spp::stable_dot_prod(a, b); })); rej("semi_stable_dot_prod of unequal shapes", throws([&] { (void)spp::semi_stable_dot_prod(a, b); })); rej("stable_dot_prod of unequal shapes with default", throws([&] { (void)spp::stable_dot_prod(a, b, D); })); return; }
   if(!n) { eq("stable_dot_prod of empty", spp::stable_dot_prod(a, b), T(0)); eq("stable_dot_prod of empty with default", spp::stable_dot_prod(a, b, D), T(77)); eq("semi_stable_dot_prod of empty", spp::semi_stable_dot_prod(a, b), T(0)); eq("semi_stable_dot_prod of empty with default", spp::semi_stable_dot_prod(a, b, D), T(77)); return; }
   Dy s, sa; bool pref = true; long lo = 1 << 20;
   for(long i = 0; i < n; ++i) { Dy d = Dy::of(x[i]) * Dy::of(y[i]); s = s + d; sa = sa + d.abs_(); pref = pref && representable<T>(d) && representable<T>(s); if(d.m != 0) lo = std::min(lo, d.norm().e); }
   if(pref) eq("stable_dot_prod (exact)", spp::stable_dot_prod(a, b), nearest<T>(s)); else within("stable_dot_prod", spp::stable_dot_prod(a, b), s, U1 * s.abs_() + U2 * Dy(4 * n * n) * sa);
   eq("stable_dot_prod with default", spp::stable_dot_prod(a, b, D), spp::stable_dot_prod(a, b).val());
   if(pref && (sa.m == 0 || sa.exp() - lo < P)) eq("semi_stable_dot_prod (exact)", spp::semi_stable_dot_prod(a, b, D), nearest<T>(s)); else within("semi_stable_dot_prod", spp::semi_stable_dot_prod(a, b), s, U1 * Dy(n < 130 ? n + 3 : 133) * sa);
}
void done() { mc::state(mc::mix(std::hash<std::string>{}(ctx), 1)); mc::trace(); }

// longer vectors: cancelling pair at every position, position-weighted integers
template <class F> void longer(F&& f) {
   std::vector<long> sz = mc::thorough ? std::vector<long>{6, 9, 63, 64, 65, 127, 128, 129, 192, 193, 1000} : std::vector<long>{6, 9, 63, 64, 65, 129};
   for(long n : sz) {
      { V v(n); for(long i = 0; i < n; ++i) v[i] = T(i + 1); f(v); for(long i = 0; i < n; ++i) v[i] = T(i % 2 ? -1 : 1) * T(i * i + 1); f(v); for(long i = 0; i < n; ++i) v[i] = T(1) / T(i + 3); f(v); }
      for(long i = 0; i < n; i += (n > 9 && i > 1 && i < n - 2 ? (mc::thorough ? 20 : 61) : 1)) for(long j = 0; j < n; j += (n > 9 && j > 1 && j < n - 2 ? (mc::thorough ? 17 : 61) : 1)) if(i != j) for(T B : {two<T>(P + 3), two<T>(P - 1) + 1}) { V v(n, T(1)); v[i] = B; v[j] = -B; f(v); }
   }
}
#if C16_PART == 0
template <int K> void one(long N) {
   auto run = [&](const V& v) { how = kname1[K]; ctx = how + " " + (v.size() > 12 ? "of " + std::to_string(v.size()) + " elements " + str(V(v.begin(), v.begin() + 6)) : str(v)); mc::at("%s", ctx.c_str()); kind1<K>(v, [&](auto&& a, auto) { sums(a, v); }); done(); };
   for(long n = 0; n <= N; ++n) vectors(sum_dom(), n, run);
   { V d = {T(1), two<T>(P), -two<T>(P)}; vectors(d, 6, [&](const V& v) { if(K == 5 || mc::thorough || v[0] == T(1)) run(v); }); }
   longer(run);
}
UNIT("compensated sums, means and norms") { ks([&]<int K>() { one<K>(K == 0 ? (mc::thorough ? 5 : 4) : (mc::thorough ? 3 : 2)); }); }
template <int K> void onep(long N) {
   auto run = [&](const V& v) { how = kname1[K]; ctx = how + " " + (v.size() > 12 ? std::to_string(v.size()) + " elements" : str(v)); mc::at("product of %s", ctx.c_str()); kind1<K>(v, [&](auto&& a, auto) { prods(a, v); }); done(); };
   V d = prod_dom(); d.push_back(T(0)); d.push_back(T(2));
   for(long n = 0; n <= N; ++n) vectors(d, n, run);
   for(long n : {6, 7, 9, 16, 33}) for(T o : d) for(long i = 0; i < n; ++i) for(T b : {d[1], d[2]}) { V v(n, b); v[i] = o; run(v); }
}
UNIT("compensated products") { ks([&]<int K>() { onep<K>(K == 0 ? (mc::thorough ? 6 : 4) : (mc::thorough ? 4 : 3)); }); }
#elif C16_PART == 1
const std::vector<std::pair<long, long>> SHP = {{0, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}};
template <int K> void two2() {
   for(auto [r, c] : SHP) {
      V d = sum_dom(); if(r * c > 3) d = {d[0], d[3], d[2]}; if(r * c == 6 && !mc::thorough) d = {d[0], d[2]};
      vectors(d, r * c, [&](const V& v) { M m; m.r = r; m.c = c; m.v = v; how = kname2[K]; ctx = how + " " + str(m); mc::at("%s", ctx.c_str()); kind2<K>(m, [&](auto&& a, auto) { sums(a, v); prods(a, v); dots(a, v, a, v, true); }); done(); });
      for(auto [p, q] : SHP) { M m, k; m.r = r; m.c = c; m.v = V(r * c, T(3)); k.r = p; k.c = q; k.v = V(p * q, T(7)); how = kname2[K]; ctx = how + " " + str(m) + " and array " + str(k); mc::at("dot product of %s", ctx.c_str()); auto b = mk2<T, Unaligned>(k); kind2<K>(m, [&](auto&& a, auto) { dots(a, m.v, b, k.v, r == p && c == q); dots(b, k.v, a, m.v, r == p && c == q); }); done(); }
   }
   for(auto [r, c] : std::vector<std::pair<long, long>>{{13, 10}, {64, 2}}) { M m; m.r = r; m.c = c; for(long i = 0; i < r * c; ++i) m.v.push_back(T(i + 1)); m.v[3] = two<T>(P + 2); m.v[100] = -two<T>(P + 2); how = kname2[K]; ctx = how + " " + std::to_string(r) + "x" + std::to_string(c); mc::at("%s", ctx.c_str()); kind2<K>(m, [&](auto&& a, auto) { sums(a, m.v); dots(a, m.v, a, m.v, true); }); done(); }
}
UNIT("two-dimensional operands") { ks([&]<int K>() { two2<K>(); }); }
#elif C16_PART == 2
template <int K1, int K2> void dot1(long N) {
   auto run = [&](const V& x, const V& y) { how = std::string(kname1[K1]) + "," + kname1[K2]; ctx = how + " " + (x.size() > 12 ? std::to_string(x.size()) + " elements" : str(x) + " and " + str(y)); mc::at("dot product of %s", ctx.c_str()); kind1<K1>(x, [&](auto&& a, auto) { kind1<K2>(y, [&](auto&& b, auto) { dots(a, x, b, y, x.size() == y.size()); }); }); done(); };
   V d = {T(1), two<T>(P), -two<T>(P), 1 + two<T>(1 - P), T(1) / T(3), -two<T>(P / 2 + 1) - 1};
   for(long n = 0; n <= N; ++n) { V e = d; if(n > 2) e.resize(n == 3 ? 4 : 3); vectors(e, n, [&](const V& x) { vectors(e, n, [&](const V& y) { run(x, y); }); }); }
   for(long n = 0; n <= 4; ++n) for(long m = 0; m <= 4; ++m) if(n != m) run(V(n, T(2)), V(m, T(3)));
   longer([&](const V& x) { V y(x.size()); for(std::size_t i = 0; i < x.size(); ++i) y[i] = x[i] * x[i] > 5 ? T(1) : T(i + 1); run(x, y); if(x.size() <= 9) run(y, x); });
   // cancellation only visible with the exact products
   for(T e : {two<T>(1 - P), two<T>(2 - P), 3 * two<T>(-P + 1)}) { V x = {1 + e, T(-1), T(5)}, y = {1 - e, T(1), two<T>(-2 * P)}; std::vector<int> p = {0, 1, 2}; do { V x2 = {x[p[0]], x[p[1]], x[p[2]]}, y2 = {y[p[0]], y[p[1]], y[p[2]]}; run(x2, y2); run(y2, x2); } while(std::next_permutation(p.begin(), p.end())); }
}
UNIT("compensated dot products") { ks([&]<int K>() { dot1<K, 0>(K == 0 ? (mc::thorough ? 4 : 3) : (mc::thorough ? 3 : 2)); if constexpr(K) dot1<0, K>(2); dot1<K, K>(2); }); }
#else
// polynomials: powers with correction, then a compensated dot product of twice the length
template <class A, class Pw, class X> void poly_ck(const char* w, Strict<T> got, const V& c, X&& x, Pw&& pw) {
   Dy s, sa; bool pref = true; long mp = 0; bool under = false;
   for(std::size_t i = 0; i < c.size(); ++i) { Dy q = Dy::of(T(x(i))).pow(pw(i)); pref = pref && representable<T>(q); Dy t = q * Dy::of(c[i]); under = under || (t.m != 0 && t.exp() - 2 * P < FP<T>::emin); s = s + t; sa = sa + t.abs_(); pref = pref && representable<T>(t) && representable<T>(s); mp = std::max(mp, (long)pw(i)); }
   if(under || (sa.m != 0 && sa.exp() > FP<T>::emax - 2)) return;
   const long k = 2 * c.size() + mp + 2;
   if(pref) eq(w, got, nearest<T>(s)); else within(w, got, s, U1 * s.abs_() + U2 * Dy(4 * k * k) * sa);
}
template <int K> void polys(long N) {
   const V xs = {T(0), T(1), T(-1), T(3), 1 + two<T>(1 - P), T(1) / T(3), T(-7) / T(10)}; const Strict<T> D = SL<T>(77);
   for(long n = 0; n <= N; ++n) vectors(V{T(1), T(-3), T(1) / T(3), two<T>(P)}, n, [&](const V& c) {
      how = kname1[K]; ctx = how + " " + str(c); mc::at("polynomial with coefficients %s", ctx.c_str());
      kind1<K>(c, [&](auto&& a, auto) {
         using A = std::remove_cvref_t<decltype(a)>;
         for(T x : xs) {
            if(!n) { eq("stable_polynomial of empty", spp::stable_polynomial(a, S(x)), T(0)); eq("stable_polynomial of empty with default", spp::stable_polynomial(a, S(x), D), T(77)); continue; }
            poly_ck<A>("stable_polynomial", spp::stable_polynomial(a, S(x)), c, [&](long) { return x; }, [](long i) { return i; });
            eq("stable_polynomial with default", spp::stable_polynomial(a, S(x), D), spp::stable_polynomial(a, S(x)).val());
         }
         auto powers = [&]<class I>(const std::vector<I>& pw) {
            auto pa = mk1<I, Unaligned>(pw); bool inv = (long)pw.size() != n; for(I p : pw) inv = inv || (p < 0 && n);
            V xv; for(long i = 0; i < (long)pw.size(); ++i) xv.push_back(xs[(i * 3 + 4) % xs.size()]); auto xa = mk1<T, Aligned>(xv);
            if(inv) { rej("stable_polynomial with invalid powers", throws([&] { (void)spp::stable_polynomial(a, S(T(2)), pa); })); rej("stable_gpolynomial with invalid powers", throws([&] { (void)spp::stable_gpolynomial(a, xa, pa); })); return; }
            if(!n) { eq("stable_polynomial of empty with powers", spp::stable_polynomial(a, S(T(2)), pa, D), T(77)); eq("stable_gpolynomial of empty", spp::stable_gpolynomial(a, xa, pa, D), T(77)); eq("stable_gpolynomial of empty", spp::stable_gpolynomial(a, xa, pa), T(0)); return; }
            for(T x : xs) { poly_ck<A>("stable_polynomial with powers", spp::stable_polynomial(a, S(x), pa), c, [&](long) { return x; }, [&](long i) { return pw[i]; }); }
            poly_ck<A>("stable_gpolynomial", spp::stable_gpolynomial(a, xa, pa), c, [&](long i) { return xv[i]; }, [&](long i) { return pw[i]; });
            eq("stable_gpolynomial with default", spp::stable_gpolynomial(a, xa, pa, D), spp::stable_gpolynomial(a, xa, pa).val());
         };
         std::vector<int> pd = {0, 1, 2, 3, 4, 5, 6, 7, 8, 11};
         if(n <= 1) for(int p : pd) { powers(std::vector<int>(n, p)); powers(std::vector<long>(n, p)); }
         else for(int p : pd) for(int q : {0, 1, 3, 6, 9}) { std::vector<int> z; std::vector<long> zl; for(long i = 0; i < n; ++i) { z.push_back(i % 2 ? q : p); zl.push_back(i % 2 ? q : p); } powers(z); if(K == 0) powers(zl); }
         for(long m = 0; m <= 3; ++m) if(m != n) { powers(std::vector<int>(m, 1)); }
         for(long i = 0; i < n; ++i) { std::vector<long> z(n, 2); z[i] = -1; powers(z); }
         // operand of the wrong size only
         if(n) { auto xa = mk1<T, Unaligned>(V(n + 1, T(2))); auto pa = mk1<int, Unaligned>(std::vector<int>(n, 1)); rej("stable_gpolynomial of unequal sizes", throws([&] { (void)spp::stable_gpolynomial(a, xa, pa); })); }
      });
      done();
   });
   // near-multiple roots: (x - 1)^k expanded, next to its root
   for(long k = 2; k <= 10; ++k) { V c; Dy::Z b = 1; for(long i = 0; i <= k; ++i) { c.push_back((T)((k - i) % 2 ? -1 : 1) * (T)b.convert_to<long>()); b = b * (k - i) / (i + 1); }
      how = kname1[K]; ctx = how + " (x-1)^" + std::to_string(k); mc::at("%s", ctx.c_str());
      kind1<K>(c, [&](auto&& a, auto) { using A = std::remove_cvref_t<decltype(a)>; for(int j : {1, 2, P / 4, P / 2, P - 2, P - 1}) for(int sg : {-1, 1}) { T x = 1 + sg * two<T>(-j); poly_ck<A>("stable_polynomial near a root", spp::stable_polynomial(a, S(x)), c, [&](long) { return x; }, [](long i) { return i; }); } });
      done();
   }
}
UNIT("compensated polynomials") { ks([&]<int K>() { polys<K>(K == 0 ? (mc::thorough ? 4 : 3) : 2); }); }
#endif
}  // namespace
