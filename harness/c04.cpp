// C04: every index value through every checked accessor of every kind of array object.
#include "lib.hpp"
#include <climits>

namespace {
#ifdef STRICT_DEBUG_OFF
constexpr bool debug_ = false;   // only at() keeps checking
#else
constexpr bool debug_ = true;
#endif
constexpr long LMAX = std::numeric_limits<long>::max(), LMIN = std::numeric_limits<long>::min();

std::vector<long> values(long n) {
   std::vector<long> v;
   for(long i = -2; i <= n + 1; ++i) v.push_back(i);
   for(long e : {-n, -n - 1, 2 * n, n * n}) v.push_back(e);
   for(long b : {1L << 31, 1L << 32, -(1L << 31), -(1L << 32), LMAX, LMIN, LMAX / 2, LMIN / 2}) for(long d : {-1L, 0L, 1L, n - 1, n}) {
      long x; if(!__builtin_add_overflow(b, d, &x)) v.push_back(x); }
   std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end());
   return v;
}
// Calls f(index object, meaning as a plain index, description) for every form that can carry x.
template <class F> void forms(long x, long n, F f) {
   f(x, x, "long"); f(Strict<long>{x}, x, "StrictLong"); f(ImplicitInt{x}, x, "ImplicitInt");
   if(x >= INT_MIN && x <= INT_MAX) { f(int(x), x, "int"); f(Strict<int>{int(x)}, x, "StrictInt"); }
   long m; bool of = __builtin_sub_overflow(n - 1, x, &m);
   f(last - x, of ? -1 : m, "last-x");
   of = __builtin_add_overflow(n - 1, x, &m);
   f(last + x, of ? n : m, "last+x"); f(x + last, of ? n : m, "x+last");
   if(x == 0) f(last, n - 1, "last");
   if(x >= INT_MIN && x <= INT_MAX) f(last - int(x) - 1 + Strict<long>{1L}, n - 1 - x, "last-x-1+1");
}


template <class A, class Ix> concept Sub = requires(A a, Ix i) { a[i]; };

// every accessor, const and not; the model v gives the expected elements
template <class A, class T> void probe1(A& a, const std::vector<T>& v, const std::string& nm) {
   const long n = (long)v.size();
   mc::at("%s size %ld", nm.c_str(), n);
   const A& ca = a;
   if(a.size().val() != n || a.size_m1().val() != n - 1 || a.empty().val() != (n == 0) || ca.size().val() != n) { mc::fail("size:" + nm, "size/size_m1/empty are wrong"); return; }
   for(long x : values(n)) forms(x, n, [&](auto ix, long i, const char* form) {
      const bool ok = i >= 0 && i < n;
      mc::at("%s size %ld index %ld (%s = %ld)", nm.c_str(), n, x, form, i);
      auto chk = [&](const char* how, auto acc, bool checked) {
         if(!ok && !checked) return;
         bool good = true, t;
         t = throws([&] { good = same(T(acc().val()), ok ? T(v[i]) : T{}); });
         mc::step();
         if(t == ok || (ok && !good)) mc::fail(std::string(how) + ":" + nm + ":" + form, "%s index %ld of %ld elements: %s", how, i, n, ok ? (t ? "rejected" : "wrong element") : "not rejected");
      };
      chk("[]", [&]() { return a[ix]; }, debug_); chk("const []", [&]() { return ca[ix]; }, debug_);
      chk("at", [&]() { return a.at(ix); }, true); chk("const at", [&]() { return ca.at(ix); }, true);
      if constexpr(requires { std::move(a)[ix]; std::move(a).at(ix); } && !std::is_reference_v<decltype(std::declval<A&>().un(0))>) { chk("rvalue []", [&]() { return std::move(a)[ix]; }, debug_); chk("rvalue at", [&]() { return std::move(a).at(ix); }, true); }
      if(ok) { chk("un", [&]() { return a.un(ix); }, false); chk("const un", [&]() { return ca.un(ix); }, false); }
      if constexpr(requires { a[ix] = Strict<T>{}; a = Strict<T>{}; }) if(ok) {
         auto all = elems(a);
         bool addr = &a[ix] == &a.un(i) && &a.at(ix) == &a.un(i) && &ca[ix] == &a.un(i) && &ca.at(ix) == &a.un(i);
         T nv = std::is_same_v<T, bool> ? T(!v[i]) : lab<T>(77);
         a[ix] = Strict<T>{nv}; auto m = all; m[i] = nv;
         // elements selected twice refer to the same element
         for(long k = 0; k < n; ++k) if(&a.un(k) == &a.un(i)) m[k] = nv;
         if(!addr || !samev(elems(a), m)) mc::fail("write:" + nm, "writing one element changed others");
         a.at(ix) = Strict<T>{T(v[i])};
         mc::step();
         if(!samev(elems(a), all)) mc::fail("write-at:" + nm, "writing one element changed others");
      }
      mc::state(mc::mix(mc::mix((std::uint64_t)i, n), ok));
   });
   mc::trace();
}

template <class A, class T> void probe2(A& a, const Mat<T>& v, const std::string& nm) {
   const long r = v.r, c = v.c;
   mc::at("%s %ldx%ld", nm.c_str(), r, c);
   const A& ca = a;
   if(a.rows().val() != r || a.cols().val() != c || a.size().val() != r * c || a.empty().val() != (r * c == 0) || a.size_m1().val() != r * c - 1 || a.rows_m1().val() != r - 1 || a.cols_m1().val() != c - 1) { mc::fail("size2:" + nm, "rows/cols/size/empty are wrong"); return; }
   auto one = [&](auto ix, auto jx, long i, long j, const char* f1, const char* f2) {
      const bool ok = i >= 0 && i < r && j >= 0 && j < c;
      mc::at("%s %ldx%ld index (%s = %ld, %s = %ld)", nm.c_str(), r, c, f1, i, f2, j);
      auto chk = [&](const char* how, auto acc, bool checked) {
         if(!ok && !checked) return;
         bool good = true, t;
         t = throws([&] { good = same(T(acc().val()), ok ? T(v(i, j)) : T{}); });
         mc::step();
         if(t == ok || (ok && !good)) mc::fail(std::string(how) + ":" + nm + ":" + f1 + "," + f2, "%s (%ld,%ld) of %ldx%ld: %s", how, i, j, r, c, ok ? (t ? "rejected" : "wrong element") : "not rejected");
      };
      chk("()", [&]() { return a(ix, jx); }, debug_); chk("const ()", [&]() { return ca(ix, jx); }, debug_);
      chk("at", [&]() { return a.at(ix, jx); }, true); chk("const at", [&]() { return ca.at(ix, jx); }, true);
#ifdef __cpp_multidimensional_subscript
      chk("[,]", [&]() { return a[ix, jx]; }, debug_); chk("const [,]", [&]() { return ca[ix, jx]; }, debug_);
#endif
      if(ok) { chk("un", [&]() { return a.un(ix, jx); }, false); chk("const un", [&]() { return ca.un(ix, jx); }, false); chk("un1", [&]() { return ca.un(i * c + j); }, false); }
      if constexpr(requires { a(ix, jx) = Strict<T>{}; a = Strict<T>{}; }) if(ok) {
         auto all = elems2(a);
         bool addr = &a(ix, jx) == &a.un(i, j) && &a.at(ix, jx) == &a.un(i, j) && &ca(ix, jx) == &a.un(i, j) && &ca.at(ix, jx) == &a.un(i, j) && &a.un(i * c + j) == &a.un(i, j);
         T nv = std::is_same_v<T, bool> ? T(!v(i, j)) : lab<T>(77);
         a(ix, jx) = Strict<T>{nv}; auto m = all; m(i, j) = nv;
         for(long k = 0; k < r * c; ++k) if(&a.un(k) == &a.un(i, j)) m.v[k] = nv;
         if(!addr || !samev(elems2(a).v, m.v)) mc::fail("write2:" + nm, "writing one element changed others");
         a.at(ix, jx) = Strict<T>{v(i, j)};
         if(!samev(elems2(a).v, all.v)) mc::fail("write2-at:" + nm, "writing one element changed others");
         mc::step();
      }
      mc::state(mc::mix(mc::mix(mc::mix((std::uint64_t)i, j), r * 100 + c), ok));
   };
   // all small indices in every pair of forms, extreme values in the same form on one side
   for(long x = -2; x <= r + 1; ++x) for(long y = -2; y <= c + 1; ++y) {
      one(x, y, x, y, "long", "long"); one(int(x), Strict<long>{y}, x, y, "int", "StrictLong"); one(ImplicitInt{x}, int(y), x, y, "ImplicitInt", "int");
      one(last - x, y, r - 1 - x, y, "last-x", "long"); one(x, last - y, x, c - 1 - y, "long", "last-y"); one(last + x, y + last, r - 1 + x, c - 1 + y, "last+x", "y+last");
      one(Strict<int>{int(x)}, last, x, c - 1, "StrictInt", "last");
   }
   for(long x : values(r)) for(long y : {-1L, 0L, c - 1, c}) { one(x, y, x, y, "long", "long"); long m; bool of = __builtin_sub_overflow(r - 1, x, &m); one(last - x, y, of ? -1 : m, y, "last-x", "long"); }
   for(long y : values(c)) for(long x : {-1L, 0L, r - 1, r}) { one(x, y, x, y, "long", "long"); long m; bool of = __builtin_sub_overflow(c - 1, y, &m); one(x, last - y, x, of ? -1 : m, "long", "last-y"); }
   for(long x : {LMAX, LMIN, 1L << 32}) for(long y : {LMAX, LMIN, 1L << 32}) one(x, y, x, y, "long", "long");
   mc::trace();
}

template <class T> std::vector<T> sel(const std::vector<T>& v, std::vector<long> ix) { std::vector<T> r; for(long i : ix) r.push_back(v[i]); return r; }

template <class T, AlignmentFlag AF, bool Full> void dyn1() {
   for(long n : {0L, 1L, 2L, 3L, 5L}) {
      const std::string t = tname<T>();
      auto v = iota<T>(n, 1);
      auto a = mk1<T, AF>(v);
      probe1(a, v, t + "/array");
      { auto s = a(place::all); probe1(s, v, t + "/slice-all"); }
      { auto s = a(place::reverse); auto w = v; std::reverse(w.begin(), w.end()); probe1(s, w, t + "/slice-reverse"); auto q = s(place::even); std::vector<long> ix; for(long i = 0; i < n; i += 2) ix.push_back(i); probe1(q, sel(w, ix), t + "/slice-reverse-even"); }
      { const auto& c = a; auto s = c(place::even); std::vector<long> ix; for(long i = 0; i < n; i += 2) ix.push_back(i); probe1(s, sel(v, ix), t + "/const-slice-even"); }
      if(n > 1) { auto s = a({n - 1, 0L, 1L}); probe1(s, sel(v, {n - 1, 0, 1}), t + "/slice-list"); auto q = s(seqN{2, 2, -2}); probe1(q, sel(v, {1, n - 1}), t + "/slice-list-seqN"); }
      { auto s = a(std::vector<ImplicitInt>{}); probe1(s, std::vector<T>{}, t + "/slice-empty"); }
      if(n > 0) { auto s = a(place::complement{0}); std::vector<T> w(v.begin() + 1, v.end()); probe1(s, w, t + "/slice-complement"); }
      { auto e = merge(a, a); auto w = v; w.insert(w.end(), v.begin(), v.end()); probe1(e, w, t + "/merge"); }
      if(n > 0) { auto e = exclude(a, 0); std::vector<T> w(v.begin() + 1, v.end()); probe1(e, w, t + "/exclude"); }
      { auto e = const1D<T>(n, SL<T>(3)); probe1(e, std::vector<T>(n, lab<T>(3)), t + "/const1D"); }
      if constexpr(!std::is_same_v<T, bool>) {
         auto e = a + a; auto w = v; for(auto& x : w) x += x; probe1(e, w, t + "/A+A");
         auto e2 = e * SL<T>(2); for(auto& x : w) x *= 2; probe1(e2, w, t + "/(A+A)*2");
         auto es = e(place::reverse); std::reverse(w.begin(), w.end()); for(auto& x : w) x /= 2; probe1(es, w, t + "/(A+A)(reverse)");
         auto sq = sequence<T>(n, SL<T>(1), SL<T>(2)); std::vector<T> z; for(long i = 0; i < n; ++i) z.push_back(lab<T>(1 + 2 * i)); probe1(sq, z, t + "/sequence");
      }
      const long k = n;
      { auto m = iota2<T>(k, k ? 2 : 0, 1); auto A = mk2<T, AF>(m); auto s = A.view1D(); probe1(s, m.v, t + "/view1D");
        if(k) { auto rw = A.row(k - 1); probe1(rw, std::vector<T>{m(k - 1, 0), m(k - 1, 1)}, t + "/row"); auto cl = A.col(1); std::vector<T> w; for(long i = 0; i < k; ++i) w.push_back(m(i, 1)); probe1(cl, w, t + "/col"); auto d = std::as_const(A).diag(); w.clear(); for(long i = 0; i < std::min(k, 2L); ++i) w.push_back(m(i, i)); probe1(d, w, t + "/diag"); } }
      if constexpr(!std::is_same_v<T, bool>) { std::vector<T> buf(v); buf.push_back(lab<T>(99)); T* p = buf.data(); auto s = attach1D(p, n); probe1(s, v, t + "/attach"); const T* cp = buf.data(); auto cs = attach1D(cp, n); probe1(cs, v, t + "/attach-const"); }
   }
   { FixedArray1D<T, 3, AF> f; auto v = iota<T>(3, 1); for(long i = 0; i < 3; ++i) f.un(i) = S<T>(v[i]); probe1(f, v, std::string(tname<T>()) + "/fixed3"); auto s = f(place::reverse); std::reverse(v.begin(), v.end()); probe1(s, v, std::string(tname<T>()) + "/fixed3-reverse"); }
   { FixedArray1D<T, 1, AF> f; f.un(0) = SL<T>(4); probe1(f, std::vector<T>{lab<T>(4)}, std::string(tname<T>()) + "/fixed1"); }
}
template <class T, AlignmentFlag AF, bool Full, int Half = 3> void dyn2() {
   const std::string t = tname<T>();
   for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}}) {
      auto m = iota2<T>(r, c, 1);
      auto A = mk2<T, AF>(m);
      Mat<T> tm; tm.r = c; tm.c = r; for(long j = 0; j < c; ++j) for(long i = 0; i < r; ++i) tm.v.push_back(m(i, j));
      Mat<T> rm = m; for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) rm(i, j) = m(r - 1 - i, c - 1 - j);
      if constexpr(Half & 1) {
      probe2(A, m, t + "/array");
      { auto s = A(place::all, place::all); probe2(s, m, t + "/slice-all"); }
      { auto s = A(place::reverse, place::reverse); probe2(s, rm, t + "/slice-reverse"); auto q = s(place::all, place::reverse); Mat<T> w = m; for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) w(i, j) = m(r - 1 - i, j); probe2(q, w, t + "/slice-slice"); }
      { auto s = std::as_const(A)(place::reverse, place::reverse); probe2(s, rm, t + "/const-slice"); }
      }
      if constexpr(Full && (Half & 1)) if(r) { auto s = A.rows({r - 1, 0L}); Mat<T> w; w.r = 2; w.c = c; for(long i : {r - 1, 0L}) for(long j = 0; j < c; ++j) w.v.push_back(m(i, j)); probe2(s, w, t + "/rows-list");
         auto b = A.block(0, 0, r - 1, 0); Mat<T> w2; w2.r = r; w2.c = 1; for(long i = 0; i < r; ++i) w2.v.push_back(m(i, 0)); probe2(b, w2, t + "/block"); }
      if constexpr(Full && (Half & 1)) { auto s = A.view2D(c, r); Mat<T> w; w.r = c; w.c = r; w.v = m.v; probe2(s, w, t + "/view2D"); auto cs = std::as_const(A).view2D(r * c, r * c ? 1 : 0); Mat<T> w2; w2.r = r * c; w2.c = r * c ? 1 : 0; w2.v = m.v; probe2(cs, w2, t + "/const-view2D"); }
      if constexpr(Half & 2) { auto s = transpose(A); probe2(s, tm, t + "/transpose"); }
      if constexpr(Full && (Half & 2) && !std::is_same_v<T, bool>) {
         auto e = A + A; Mat<T> w = m; for(auto& x : w.v) x += x; probe2(e, w, t + "/A+A");
         std::vector<T> buf(m.v); buf.push_back(lab<T>(9)); T* p = buf.data(); auto at2 = attach2D(p, r, c); probe2(at2, m, t + "/attach"); const T* cp = buf.data(); auto cat2 = attach2D(cp, r, c); probe2(cat2, m, t + "/attach-const");
         if(r == c) { auto id = identity<T>(r); Mat<T> w3 = m; for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) w3(i, j) = lab<T>(i == j); probe2(id, w3, t + "/identity"); }
         auto v = mk1<T, AF>(iota<T>(r, 1)); auto rb = row_broadcast(v), cb = [&] { return row_broadcast(v); }(); (void)cb; Mat<T> w4; w4.r = w4.c = r; for(long i = 0; i < r; ++i) for(long j = 0; j < r; ++j) w4.v.push_back(lab<T>(j + 1)); probe2(rb, w4, t + "/row_broadcast");
      }
      if constexpr(Full && (Half & 2)) {
      { auto h = merge_vertical(A, A); Mat<T> w; w.r = 2 * r; w.c = c; w.v = m.v; w.v.insert(w.v.end(), m.v.begin(), m.v.end()); probe2(h, w, t + "/merge_vertical"); }
      { auto k = const2D<T>(r, c, SL<T>(2)); Mat<T> w = m; std::fill(w.v.begin(), w.v.end(), lab<T>(2)); probe2(k, w, t + "/const2D"); }
      }
   }
   if constexpr(Half & 1) { FixedArray2D<T, 2, 3, AF> f; auto m = iota2<T>(2, 3, 1); for(long i = 0; i < 2; ++i) for(long j = 0; j < 3; ++j) f.un(i, j) = S<T>(m(i, j)); probe2(f, m, t + "/fixed"); auto s = f(place::all, place::all); probe2(s, m, t + "/fixed-slice"); }
}
}  // namespace

#if C04_PART == 0
UNIT("1d/int") { dyn1<int, Unaligned, true>(); }
#elif C04_PART == 1
UNIT("1d/double-aligned") { dyn1<double, Aligned, true>(); }
#elif C04_PART == 2
UNIT("2d/int") { dyn2<int, Unaligned, true, C04_HALF>(); }
#elif C04_PART == 3
UNIT("2d/double-aligned") { dyn2<double, Aligned, false>(); }
#elif C04_PART == 4
UNIT("2d/bool") { dyn2<bool, Unaligned, false>(); }
#elif C04_PART == 5
UNIT("1d/bool") { dyn1<bool, Unaligned, true>(); }
#elif C04_PART == 6
UNIT("1d/quad") { dyn1<float128, Unaligned, true>(); }
#elif C04_PART == 7
UNIT("2d/quad") { dyn2<float128, Aligned, true>(); }
#elif C04_PART == 8
UNIT("1d/unsigned-long") { dyn1<unsigned long, Unaligned, true>(); }
#endif
