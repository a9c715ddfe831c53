// Value domains, kinds of operands, and complete reading of an object in every way.
#pragma once
#include "lib.hpp"

#include <cmath>
#include <limits>
#include <memory>
#include <optional>

template <class T> std::vector<T> dom() {
   using L = std::numeric_limits<T>;
   if constexpr(std::is_same_v<T, bool>) return {false, true};
   else if constexpr(std::is_same_v<T, int> || std::is_same_v<T, long>) return {L::min(), -7, -2, -1, 0, 1, 2, 3, 5, 31, 46340, L::max()};
   else if constexpr(std::is_integral_v<T>) return {0, 1, 2, 3, 5, 31, 65535, L::max() / 2 + 1, L::max()};
#ifdef STRICT_QUAD_PRECISION
   else if constexpr(std::is_same_v<T, float128>) { T z = 0; return {-1 / z * -1, T(-2.5), -z, z, T(1) / 3, T(1), T(3), T(1e300) * T(1e300), T(1e-300) * T(1e-300) }; }
#endif
   else return {-L::infinity(), -L::max(), T(-2.5), T(-1), -T(0), T(0), L::denorm_min(), L::min(), T(0.1), T(1), T(3), T(1) + L::epsilon(), L::max(), L::infinity(), L::quiet_NaN()};
}
template <class T> bool bits(T x, T y) {   // same value, including the sign of zero
   if(isnan_(x) || isnan_(y)) return isnan_(x) && isnan_(y);
   if constexpr(std::is_integral_v<T>) return x == y;
   else return x == y && (x != 0 || std::signbit((double)x) == std::signbit((double)y));
}
template <class T> bool bitsv(const std::vector<T>& a, const std::vector<T>& b) {
   if(a.size() != b.size()) return false;
   for(std::size_t i = 0; i < a.size(); ++i) if(!bits(T(a[i]), T(b[i]))) return false;
   return true;
}

// ---- complete reading of an expression object in every way, against the expected elements ----
template <class E, class T> void reads1(const E& e, const std::vector<T>& m, const char* what) {
   auto bad = [&](const char* how) { mc::fail(std::string("read:") + how + ":" + what, "%s read by %s is wrong; expected %s", what, how, str(m).c_str()); };
   const long n = m.size();
   static_assert(std::is_same_v<typename E::builtin_type, T>);
   if(e.size().val() != n || e.empty().val() != (n == 0)) return bad("size");
   for(int rep = 0; rep < 2; ++rep) {
      if(!bitsv(elems(e), m)) return bad(rep ? "un again" : "un");
      for(long i = 0; i < n; ++i) if(!bits(e[i].val(), T(m[i])) || !bits(e.at(i).val(), T(m[i]))) return bad("[]");
   }
   { std::vector<T> v; for(auto x : e) v.push_back(x.val()); if(!bitsv(v, m)) return bad("range-for"); }
   { E e2{e}; if(!bitsv(elems(e2), m)) return bad("copy"); }
   { Array1D<T> a(e); if(!bitsv(elems(a), m)) return bad("construct"); }
   { Array1D<T, Aligned> a = e; if(!bitsv(elems(a), m)) return bad("construct aligned"); }
   { Array1D<T> a(n); a = e; if(!bitsv(elems(a), m)) return bad("assign"); }
   { Array1D<T> a(n + 3); a.resize_and_assign(e); if(!bitsv(elems(a), m)) return bad("resize_and_assign"); }
   { Array1D<T> a(n); a(place::reverse) = e; auto w = m; std::reverse(w.begin(), w.end()); if(!bitsv(elems(a), w)) return bad("assign to slice"); }
   if(n) { auto s = e(place::reverse); auto w = m; std::reverse(w.begin(), w.end()); if(!bitsv(elems(s), w)) return bad("slice of expression"); }
   { Array1D<T> a(n + 1); bool t = throws([&] { a = e; }); if(!t) return bad("wrong-size assign accepted"); }
   mc::step(10 * n + 6);
}
template <class E, class T> void reads2(const E& e, const Mat<T>& m, const char* what) {
   auto bad = [&](const char* how) { mc::fail(std::string("read2:") + how + ":" + what, "%s read by %s is wrong; expected %s", what, how, str(m).c_str()); };
   const long r = m.r, c = m.c;
   static_assert(std::is_same_v<typename E::builtin_type, T>);
   if(e.rows().val() != r || e.cols().val() != c || e.size().val() != r * c || e.empty().val() != (r * c == 0)) return bad("size");
   for(int rep = 0; rep < 2; ++rep) {
      if(!bitsv(elems2(e).v, m.v)) return bad(rep ? "un again" : "un");
      for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) if(!bits(e(i, j).val(), m(i, j)) || !bits(e.at(i, j).val(), m(i, j)) || !bits(e.un(i * c + j).val(), m(i, j))) return bad("()");
   }
   { std::vector<T> v; for(auto x : e.view1D()) v.push_back(x.val()); if(!bitsv(v, m.v)) return bad("view1D"); }
   { E e2{e}; if(!bitsv(elems2(e2).v, m.v)) return bad("copy"); }
   { Array2D<T> a(e); if(a.rows().val() != r || !bitsv(elems2(a).v, m.v)) return bad("construct"); }
   { Array2D<T, Aligned> a = e; if(!bitsv(elems2(a).v, m.v)) return bad("construct aligned"); }
   { Array2D<T> a(r, c); a = e; if(!bitsv(elems2(a).v, m.v)) return bad("assign"); }
   { Array2D<T> a(r + 1, c + 2); a.resize_and_assign(e); if(a.cols().val() != c || !bitsv(elems2(a).v, m.v)) return bad("resize_and_assign"); }
   { Array2D<T> a(r, c); a(place::reverse, place::all) = e; bool ok = true; for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) ok = ok && bits(a.un(r - 1 - i, j).val(), m(i, j)); if(!ok) return bad("assign to slice"); }
   if(r) for(long i = 0; i < r; ++i) { auto w = e.row(i); for(long j = 0; j < c; ++j) if(!bits(w.un(j).val(), m(i, j))) return bad("row"); }
   if(c) for(long j = 0; j < c; ++j) { auto w = e.col(j); for(long i = 0; i < r; ++i) if(!bits(w.un(i).val(), m(i, j))) return bad("col"); }
   if(r != c) { Array2D<T> a(c, r); bool t = throws([&] { a = e; }); if(!t) return bad("wrong-shape assign accepted"); }
   mc::step(11 * r * c + 6);
}

// ---- operand kinds: f(object whose elements are v, set) ; set(i, x) changes element i of the underlying storage ----
template <class T> Array1D<T> ident(const Array1D<T>& a) { return a; }
inline constexpr int NK1 = 11;
inline const char* kname1[] = {"array", "reverse-slice", "list-slice", "expression", "column", "fixed", "attached", "merge", "const-aligned", "view1D", "const-row"};
template <int K, class T, class F> void kind1(const std::vector<T>& v, F&& f) {
   const long n = v.size();
   auto rv = v; std::reverse(rv.begin(), rv.end());
   if constexpr(K == 0) { auto a = mk1<T, Unaligned>(v); f(a, [&](long i, T x) { a.un(i) = S(x); }); }
   else if constexpr(K == 1) { auto a = mk1<T, Unaligned>(rv); f(a(place::reverse), [&](long i, T x) { a.un(n - 1 - i) = S(x); }); }
   else if constexpr(K == 2) { auto w = v; for(long i = 0; i + 1 < n; i += 2) { T t = w[i]; w[i] = w[i + 1]; w[i + 1] = t; } auto a = mk1<T, Aligned>(w); std::vector<ImplicitInt> ix; for(long i = 0; i < n; ++i) ix.push_back((i ^ 1) < n ? (i ^ 1) : i); f(a(ix), [&](long i, T x) { a.un(ix[i]) = S(x); }); }
   else if constexpr(K == 3) { auto a = mk1<T, Unaligned>(v); f(generate(a, [](Strict<T> x) { return x; }), [&](long i, T x) { a.un(i) = S(x); }); }
   else if constexpr(K == 4) { Array2D<T> A(n, n ? 3 : 0); if(n) for(long i = 0; i < n; ++i) A.un(i, 1) = S(T(v[i])); if(n) f(A.col(1), [&](long i, T x) { A.un(i, 1) = S(x); }); }
   else if constexpr(K == 5) { if(n == 6) { FixedArray1D<T, 6> a; for(long i = 0; i < 6; ++i) a.un(i) = S(T(v[i])); f(a, [&](long i, T x) { a.un(i) = S(x); }); } }
   else if constexpr(K == 6) { auto b = std::make_unique<T[]>(n); auto p = b.get(); for(long i = 0; i < n; ++i) p[i] = v[i]; f(attach1D(p, n), [&](long i, T x) { p[i] = x; }); }
   else if constexpr(K == 7) { std::vector<T> h(v.begin(), v.begin() + n / 2), t(v.begin() + n / 2, v.end()); auto a = mk1<T, Unaligned>(h); auto b = mk1<T, Unaligned>(t); f(merge(a, b), [&](long i, T x) { if(i < n / 2) a.un(i) = S(x); else b.un(i - n / 2) = S(x); }); }
   else if constexpr(K == 8) { auto a = mk1<T, Aligned>(v); f(std::as_const(a), [&](long i, T x) { a.un(i) = S(x); }); }
   else if constexpr(K == 9) { Mat<T> m; m.r = n; m.c = n ? 1 : 0; m.v = v; auto A = mk2<T, Unaligned>(m); f(A.view1D(), [&](long i, T x) { A.un(i) = S(x); }); }
   else if constexpr(K == 10) { Mat<T> m; m.r = n ? 1 : 0; m.c = n; m.v = v; auto A = mk2<T, Unaligned>(m); if(n) f(std::as_const(A).row(0), [&](long i, T x) { A.un(i) = S(x); }); }
}
inline constexpr int NK2 = 11;
inline const char* kname2[] = {"array2D", "reverse-slice2D", "list-slice2D", "expression2D", "transpose", "fixed2D", "attached2D", "merge_vertical", "const-aligned2D", "view2D", "block"};
template <int K, class T, class F> void kind2(const Mat<T>& m, F&& f) {
   const long r = m.r, c = m.c;
   Mat<T> tm; tm.r = c; tm.c = r; for(long j = 0; j < c; ++j) for(long i = 0; i < r; ++i) tm.v.push_back(m(i, j));
   Mat<T> rm = m; for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) rm(i, j) = m(r - 1 - i, c - 1 - j);
   if constexpr(K == 0) { auto a = mk2<T, Unaligned>(m); f(a, [&](long i, T x) { a.un(i) = S(x); }); }
   else if constexpr(K == 1) { auto a = mk2<T, Unaligned>(rm); f(a(place::reverse, place::reverse), [&](long i, T x) { a.un(r * c - 1 - i) = S(x); }); }
   else if constexpr(K == 2) { Mat<T> w; w.r = r; w.c = c; for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) w.v.push_back(m(r - 1 - i, j)); auto a = mk2<T, Aligned>(w); std::vector<ImplicitInt> ix; for(long i = 0; i < r; ++i) ix.push_back(r - 1 - i); f(a(ix, place::all), [&](long i, T x) { a.un(r - 1 - i / c, i % c) = S(x); }); }
   else if constexpr(K == 3) { auto a = mk2<T, Unaligned>(m); f(generate(a, [](Strict<T> x) { return x; }), [&](long i, T x) { a.un(i) = S(x); }); }
   else if constexpr(K == 4) { auto a = mk2<T, Unaligned>(tm); f(transpose(a), [&](long i, T x) { a.un(i % c, i / c) = S(x); }); }
   else if constexpr(K == 5) { if(r == 2 && c == 3) { FixedArray2D<T, 2, 3> a; for(long i = 0; i < 2; ++i) for(long j = 0; j < 3; ++j) a.un(i, j) = S(m(i, j)); f(a, [&](long i, T x) { a.un(i) = S(x); }); } }
   else if constexpr(K == 6) { auto b = std::make_unique<T[]>(r * c); auto p = b.get(); for(long i = 0; i < r * c; ++i) p[i] = m.v[i]; f(attach2D(p, r, c), [&](long i, T x) { p[i] = x; }); }
   else if constexpr(K == 7) { if(r >= 2) { Mat<T> h, t; h.r = 1; h.c = c; h.v.assign(m.v.begin(), m.v.begin() + c); t.r = r - 1; t.c = c; t.v.assign(m.v.begin() + c, m.v.end()); auto a = mk2<T, Unaligned>(h); auto b = mk2<T, Unaligned>(t); f(merge_vertical(a, b), [&](long i, T x) { if(i < c) a.un(i) = S(x); else b.un(i - c) = S(x); }); } }
   else if constexpr(K == 8) { auto a = mk2<T, Aligned>(m); f(std::as_const(a), [&](long i, T x) { a.un(i) = S(x); }); }
   else if constexpr(K == 9) { auto a = mk1<T, Unaligned>(m.v); f(a.view2D(r, c), [&](long i, T x) { a.un(i) = S(x); }); }
   else if constexpr(K == 10) { if(r * c) { Array2D<T> A(r + 1, c + 2); for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) A.un(i + 1, j + 1) = S(m(i, j)); f(A.block(1, 1, r, c), [&](long i, T x) { A.un(i / c + 1, i % c + 1) = S(x); }); } }
}

