// C11: sorting, shuffling, filtering and traversal over every vector of a small domain, in place in larger storage.
#ifndef C11_T
#define C11_T double
#endif
#define TGT_T C11_T
#include "targets.hpp"

#include <random>

static unsigned rd_seed = 0;   // the only source of randomness of the library's shuffle, enumerated by the harness
std::random_device::result_type std::random_device::_M_getval() { return rd_seed; }

namespace {
// Vectors long enough for every phase of an introspective sort.
template <class F> void longs(F&& f) {
   for(long n : {17L, 18L, 33L, 40L}) {
      for(long k = 1; k < n; k += mc::thorough ? 1 : 3) { V v; for(long i = 0; i < n; ++i) v.push_back(lab<T>((i * k) % n)); f(v); std::reverse(v.begin(), v.end()); f(v); }   // permutations (and many ties)
      for(long i = 0; i < n; i += mc::thorough ? 1 : 4) for(long j = 0; j < n; j += mc::thorough ? 1 : 5) { V v(n, lab<T>(5)); v[i] = lab<T>(1); v[j] = lab<T>(9); f(v); }
      { V v; for(long i = 0; i < n; ++i) v.push_back(lab<T>(i < n / 2 ? i : n - i)); f(v); std::reverse(v.begin(), v.end()); f(v); }
   }
}
template <class = void> void sorts() {
   if constexpr(!BO) ts([&]<int K>() {
      auto all = [&](const V& v) {
         V up = v, dn = v; std::sort(up.begin(), up.end()); std::sort(dn.begin(), dn.end(), [](T a, T b) { return a > b; });
         run1<K>(v, "sort_increasing", [](auto&& o) { spp::sort_increasing(o); }, &up);
         run1<K>(v, "sort_decreasing", [](auto&& o) { spp::sort_decreasing(o); }, &dn);
         run1<K>(v, "sort by <", [](auto&& o) { spp::sort(o, [](auto a, auto b) { return a < b; }); }, &up);
         // an order with ties: by square, compared as keys
         if constexpr(!FL) for(T x : v) if(x > T(40000) || (!UN && x < T(-40000))) return;
         V key = v; for(auto& x : key) x = x * x; std::sort(key.begin(), key.end());
         run1<K>(v, "sort by square", [&](auto&& o) {
            spp::sort(o, [](auto a, auto b) { return a * a < b * b; });
            V got; for(auto x : o) got.push_back(x.val() * x.val());
            if(!samev(got, key)) bad("sort by square (order)", got, key);
         }, nullptr);
      };
      for(long n = 0; n <= (K == 0 && mc::thorough ? 6 : 4); ++n) vectors(dom3(), n, all);
      longs(all);
      if constexpr(FL) for(long n = 1; n <= 3; ++n) { T inf = T(1) / T(0); vectors({-inf, T(-0.5), T(0.25), inf}, n, all); }
      if constexpr(!FL) for(long n = 1; n <= 4; ++n) vectors({std::numeric_limits<T>::min(), T(-1), T(0), std::numeric_limits<T>::max()}, n, all);
      else { using L = std::numeric_limits<std::conditional_t<std::is_same_v<T, float128>, double, T>>; for(long n = 1; n <= 3; ++n) vectors({T(L::lowest()), T(-L::denorm_min()), T(0), T(L::min()), T(L::max())}, n, all); }
   });
   else mc::step();
}
template <class = void> void sorts2() {
   if constexpr(!BO) ts2([&]<int K>() {
      for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {1, 3}, {2, 2}, {3, 1}, {2, 3}, {5, 4}}) {
         auto all = [&, r = r, c = c](const V& v) {
            V up = v, dn = v; std::sort(up.begin(), up.end()); std::sort(dn.begin(), dn.end(), [](T a, T b) { return a > b; });
            run2<K>(v, r, c, "sort_increasing", [](auto&& o) { spp::sort_increasing(o); }, &up);
            run2<K>(v, r, c, "sort_decreasing", [](auto&& o) { spp::sort_decreasing(o); }, &dn);
            run2<K>(v, r, c, "sort by >", [](auto&& o) { spp::sort(o, [](auto a, auto b) { return a > b; }); }, &dn);
         };
         if(r * c <= 6) { V d = dom3(); if(r * c > 4) d.resize(2); vectors(d, r * c, all); }
         else for(long k = 1; k < 20; ++k) { V v; for(long i = 0; i < 20; ++i) v.push_back(lab<T>(i * k % 20)); all(v); }
      }
   });
   else mc::step();
}
template <class = void> void shuffles() {
   const unsigned SEEDS = mc::thorough ? 64 : 8;
   ts([&]<int K>() {
      for(long n = 0; n <= 8; ++n) for(unsigned s = 0; s < SEEDS; ++s) { rd_seed = s * 2654435761u; V v; for(long i = 0; i < n; ++i) v.push_back(lab<T>(i + 1)); run1<K>(v, ("shuffle with seed " + std::to_string(rd_seed)).c_str(), [](auto&& o) { spp::shuffle(o); }, nullptr); }
      for(unsigned s = 0; s < SEEDS; ++s) { rd_seed = s; V v; for(long i = 0; i < 40; ++i) v.push_back(lab<T>(i % 7)); run1<K>(v, "shuffle", [](auto&& o) { spp::shuffle(o); }, nullptr); }
   });
   ts2([&]<int K>() {
      for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {2, 2}, {3, 2}}) for(unsigned s = 0; s < SEEDS; ++s) { rd_seed = s; V v; for(long i = 0; i < r * c; ++i) v.push_back(lab<T>(i + 1)); run2<K>(v, r, c, "shuffle", [](auto&& o) { spp::shuffle(o); }, nullptr); }
   });
}
// for_each: every element exactly once, in order; mutable traversal writes the addressed elements only
template <class = void> void each() {
   auto visit = [](auto&& o, const V& v) {
      V seen; spp::for_each(o, [&](auto x) { seen.push_back(x.val()); }); mc::step();
      if(!bitsv(seen, v)) bad("for_each", seen, v);
      V seen2; spp::for_each(o, [&](const auto& x) { seen2.push_back(x.val()); }); mc::step();
      if(!bitsv(seen2, v)) bad("for_each by reference", seen2, v);
   };
   ts([&]<int K>() {
      for(long n = 0; n <= 5; ++n) {
         V v = iota<T>(n, 3); V w; for(long i = 0; i < n; ++i) w.push_back(lab<T>(20 + i));
         run1<K>(v, "for_each reading", [&](auto&& o) { visit(o, v); }, &v);
         ctx = std::string(tn[K]) + " " + str(v); mc::at("for_each writing of %s", ctx.c_str());
         target<K>(v, [&](auto&& o, auto& base, auto& pos, auto& in) { long k = 0; spp::for_each(o, [&](auto& x) { x = S(T(w[k++])); }); after("for_each writing", base, pos, in, w, &w); if(k != n) bad("for_each count", {}, w); });
      }
   });
   ts2([&]<int K>() {
      for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {2, 2}, {3, 2}, {1, 4}}) {
         V v = iota<T>(r * c, 3); V w; for(long i = 0; i < r * c; ++i) w.push_back(lab<T>(20 + i));
         run2<K>(v, r, c, "for_each reading", [&](auto&& o) { visit(o, v); }, &v);
         target2<K>(v, r, c, [&](auto&& o, auto& base, auto& pos, auto& in) { long k = 0; spp::for_each(o, [&](auto& x) { x = S(T(w[k++])); }); after("for_each writing", base, pos, in, w, &w); });
      }
   });
   [&]<int... K>(std::integer_sequence<int, K...>) {
      ([&] { for(long n : {0L, 1L, 2L, 6L}) { V v = iota<T>(n, 3); ctx = std::string(kname1[K]) + " " + str(v); mc::at("for_each over %s", ctx.c_str()); kind1<K>(v, [&](auto&& o, auto) { visit(o, v); }); } }(), ...);
      ([&] { for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {2, 3}, {3, 1}}) { M m = iota2<T>(r, c, 3); ctx = std::string(kname2[K]) + " " + str(m); mc::at("for_each over %s", ctx.c_str()); kind2<K>(m, [&](auto&& o, auto) { visit(o, m.v); }); } }(), ...);
   }(std::make_integer_sequence<int, 11>{});
}
// filters
template <class R> void same_elems(const char* what, R&& r, const V& want) {
   mc::step(); V got = elems(r);
   if(!samev(got, want) || r.size().val() != (long)want.size() || r.empty().val() != want.empty()) bad(what, got, want);
}
template <class O> void filters(O&& o, const V& v, const V& bounds) {
   if constexpr(!BO) {
      for(T l : bounds) for(T h : bounds) {
         if(!(l <= h)) {
            mc::step(4);
            if(!throws([&] { (void)spp::in_open_range(o, S(l), S(h)); }) || !throws([&] { (void)spp::in_open_range(o, Low{l}, High{h}); }) || !throws([&] { (void)spp::in_closed_range(o, S(l), S(h)); }) || !throws([&] { (void)spp::in_closed_range(o, Low{l}, High{h}); })) bad("range with low > high (accepted)", {l, h}, {});
            continue;
         }
         V op, cl; for(T x : v) { if(x > l && x < h) op.push_back(x); if(x >= l && x <= h) cl.push_back(x); }
         const std::string rg = " (" + str(l) + ", " + str(h) + ")";
         same_elems(("in_open_range" + rg).c_str(), spp::in_open_range(o, S(l), S(h)), op); same_elems(("in_open_range tagged" + rg).c_str(), spp::in_open_range(o, Low{l}, High{h}), op);
         same_elems(("in_closed_range" + rg).c_str(), spp::in_closed_range(o, S(l), S(h)), cl); same_elems(("in_closed_range tagged" + rg).c_str(), spp::in_closed_range(o, Low{l}, High{h}), cl);
         V cd; for(T x : v) if(!(x == l) && x <= h) cd.push_back(x);
         same_elems(("in_cond_range" + rg).c_str(), spp::in_cond_range(o, [&](auto x) { return x != S(l) && x <= S(h); }), cd);
      }
   }
}
template <class = void> void filt() {
   if constexpr(!BO) {
      V d = dom3(); V bounds; if constexpr(UN) bounds = {0, 2, 3, 4, 5, 7}; else bounds = {T(-3), T(-2), T(0), T(1), T(2), T(5), T(9)};
      [&]<int... K>(std::integer_sequence<int, K...>) {
         ([&] {
            auto go = [&](const V& v) { ctx = std::string(kname1[K]) + " " + str(v); mc::at("filtering %s", ctx.c_str()); kind1<K>(v, [&](auto&& o, auto) { filters(o, v, bounds); }); mc::state(hash_(v, K)); mc::trace(); };
            for(long n = 0; n <= (K == 0 ? 4 : mc::thorough ? 4 : 2); ++n) vectors(d, n, go);
            // NaN, infinities, signed zeros and extremes as elements and as bounds
            V sp, sb; if constexpr(FL) { const T inf = T(1) / T(0), nan = T(0) / T(0); sp = {nan, -inf, T(-0.0), T(1), inf}; sb = {nan, -inf, T(-1), T(0), T(1), inf}; } else { using L = std::numeric_limits<T>; sp = {L::min(), T(-1), T(0), T(1), L::max()}; sb = {L::min(), T(L::min() + 1), T(0), T(L::max() - 1), L::max()}; }
            for(long n = 1; n <= (K == 0 || mc::thorough ? 3 : 1); ++n) vectors(sp, n, [&](const V& v) { ctx = std::string(kname1[K]) + " " + str(v); mc::at("filtering %s", ctx.c_str()); kind1<K>(v, [&](auto&& o, auto) { filters(o, v, sb); }); mc::state(hash_(v, K)); mc::trace(); });
            for(long i = 0; i < 6; ++i) for(long j = 0; j < 6; ++j) { V v(6, d[0]); v[i] = d[1]; v[j] = d[2]; go(v); }
         }(), ...);
      }(std::make_integer_sequence<int, 11>{});
      // writing through the result
      ts([&]<int K>() {
         for(long n = 0; n <= 4; ++n) vectors(V{T(d[0]), T(d[1]), T(d[2])}, n, [&](const V& v) {
            ctx = std::string(tn[K]) + " " + str(v); mc::at("writing through a filter of %s", ctx.c_str());
            for(int how = 0; how < 3; ++how) target<K>(v, [&](auto&& o, auto& base, auto& pos, auto& in) {
               V want = v; for(auto& x : want) if(how == 0 ? x == d[0] : how == 1 ? (x >= d[0] && x <= d[2]) : true) x = T(9);
               if(how == 0) { auto s = spp::in_cond_range(o, [&](auto x) { return x == S(T(d[0])); }); s = S(T(9)); }
               else if(how == 1) { auto s = spp::in_closed_range(o, S(T(d[0])), S(T(d[2]))); s = S(T(9)); }
               else { auto s = spp::in_cond_range(o, [&](auto) { return true_sb; }); s = S(T(9)); }
               after("write through filter", base, pos, in, want, &want);
            });
            mc::trace();
         });
      });
   } else mc::step();
}
}
#if C11_PART == 0
UNIT("sort-1d") { sorts(); }
UNIT("sort-2d") { sorts2(); }
UNIT("shuffle") { shuffles(); }
#else
UNIT("for_each") { each(); }
UNIT("filters") { filt(); }
#endif
