// C23: the same catalogue of operations is evaluated by the compiler (constant evaluation, which also
// rejects every undefined behaviour it meets) and at run time on the same inputs; every result is compared.
#include "mc.hpp"
#include "lib.hpp"
#include <bit>

#ifndef C23_T
#define C23_T double
#endif
#ifndef C23_PART
#define C23_PART 0
#endif

namespace {
using T = C23_T;
template <class T> using S_ = Strict<T>;
#define St Strict<T>
constexpr bool BO = std::is_same_v<T, bool>;
constexpr bool FL = Floating<T>;
constexpr bool IN = Integer<T> && !BO;
constexpr bool UN = IN && T(-1) > T(0);

// ---------------------------------------------------------------- recording
constexpr int CAP = 30000;
struct Rec {
   std::uint64_t h[CAP]{};
   const char* name[CAP]{};
   int c[CAP]{};
   int n = 0, ctx = 0;
};
constexpr std::uint64_t mixc(std::uint64_t h, std::uint64_t x) { return (h ^ x) * 0x9E3779B97F4A7C15ull + (h >> 29); }
template <class U> constexpr std::uint64_t bits(U x) {
   if constexpr(std::is_same_v<U, double>) return std::bit_cast<std::uint64_t>(x);
   else if constexpr(std::is_same_v<U, float>) return std::bit_cast<std::uint32_t>(x);
   else if constexpr(std::is_floating_point_v<U> || sizeof(U) == 16) { double a = double(x); U r = x - U(a); double b = double(r); r = r - U(b); return mixc(mixc(bits(a), r == 0 && b == 0 ? 0 : bits(b)), r == 0 ? 0 : bits(double(r))); }
   else return std::uint64_t(x);
}
template <class X> concept Sc = requires(X x) { x.val(); };
template <class X> concept Ar = requires(X x) { x.un(0); x.size(); };
template <class X> concept Ar2 = Ar<X> && requires(X x) { x.rows(); x.row(0); };
template <class X> constexpr std::uint64_t dig(const X& x);
template <class X> constexpr std::uint64_t digs(const X& x) { return bits(x.val()); }
template <class X> constexpr std::uint64_t dig1(const X& a) {
   const long n = a.size().val();
   std::uint64_t h = mixc(1, n);
   for(long i = 0; i < n; ++i) h = mixc(h, digs(a.un(i)));
   return h;
}
template <class X> constexpr std::uint64_t dig2(const X& a) {
   const long r = a.rows().val(), c = a.cols().val();
   std::uint64_t h = mixc(mixc(2, r), c);
   for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) h = mixc(h, digs(a.un(i, j)));
   return h;
}
template <class X> constexpr std::uint64_t dig(const X& x) {
   if constexpr(Ar2<X>) return dig2(x); else if constexpr(Ar<X>) return dig1(x);
   else if constexpr(Sc<X>) return digs(x);
   else if constexpr(std::is_integral_v<X> || std::is_floating_point_v<X>) return bits(x);
   else if constexpr(requires { x.first; x.second; }) return mixc(dig(x.first), dig(x.second));
   else if constexpr(requires { x.has_value(); }) return x.has_value() ? mixc(7, dig(*x)) : 8;
   else if constexpr(std::tuple_size_v<X> == 3) { auto [a, b, c] = x; return mixc(dig(a), mixc(dig(b), dig(c))); }
   else { auto [a, b] = x; return mixc(dig(a), dig(b)); }
}
// Everything that can be read
template <class X> constexpr std::uint64_t full1(const X& a) {
   const long n = a.size().val();
   std::uint64_t h = mixc(dig1(a), a.empty().val());
   for(long i = 0; i < n; ++i) { h = mixc(h, digs(a[i])); h = mixc(h, digs(a.at(i))); h = mixc(h, digs(a[last - (n - 1 - i)])); }
   for(auto it = a.cbegin(); it != a.cend(); ++it) h = mixc(h, digs(*it));
   for(auto it = a.crbegin(); it != a.crend(); ++it) h = mixc(h, digs(*it));
   for(long i = 0; i < n; ++i) { auto it = a.begin() + i; h = mixc(h, digs(it[0])); h = mixc(h, a.end() - it); h = mixc(h, it < a.end()); }
   h = mixc(h, dig1(a(place::even))); h = mixc(h, dig1(a(place::reverse)));
   { Array1D<T> b(a); Array1D<T> c(n); c = a; Array1D<T> d; d.resize_and_assign(a); h = mixc(h, mixc(dig1(b), mixc(dig1(c), dig1(d)))); c(place::reverse) = a; h = mixc(h, dig1(c)); }
   return h;
}
template <class X> constexpr std::uint64_t full2(const X& a) {
   const long r = a.rows().val(), c = a.cols().val();
   std::uint64_t h = mixc(dig2(a), a.size().val());
   for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) { h = mixc(h, digs(a(i, j))); h = mixc(h, digs(a.at(i, j))); h = mixc(h, digs(a(last - (r - 1 - i), j))); h = mixc(h, digs(a.un(i * c + j))); }
   for(long i = 0; i < r; ++i) h = mixc(h, dig1(a.row(i)));
   for(long j = 0; j < c; ++j) h = mixc(h, dig1(a.col(j)));
   for(auto it = a.cbegin(); it != a.cend(); ++it) h = mixc(h, digs(*it));
   if(r) { h = mixc(h, dig1(a.diag(0))); h = mixc(h, dig2(a(place::reverse, place::even))); h = mixc(h, dig2(a.block(0, 0, r - 1, c - 1))); }
   h = mixc(h, dig1(a.view1D()));
   { Array2D<T> b(a); Array2D<T> d(Rows{r}, Cols{c}); d = a; Array2D<T> e; e.resize_and_assign(a); h = mixc(h, mixc(dig2(b), mixc(dig2(d), dig2(e)))); }
   return h;
}
constexpr void put(Rec& r, const char* name, std::uint64_t h) { r.h[r.n] = h; r.name[r.n] = name; r.c[r.n] = r.ctx; ++r.n; }
#define E(...) put(r, #__VA_ARGS__, dig(__VA_ARGS__))
#define F1(...) do { auto&& q_ = __VA_ARGS__; put(r, #__VA_ARGS__, full1(q_)); } while(0)
#define F2(...) do { auto&& q_ = __VA_ARGS__; put(r, #__VA_ARGS__, full2(q_)); } while(0)

// ---------------------------------------------------------------- inputs (handed over at run time, too)
struct Dom { T v[8]; T w[8]; long n[8]; };
constexpr Dom dom_() {
   if constexpr(BO) return {{true, false, true, true, false, true, false, false}, {false, false, true, false, true, true, true, false}, {0, 1, 2, 3, 4, 5, 6, 7}};
   else if constexpr(FL) return {{T(1.5), T(-2.25), T(0.1), T(3), T(-7), T(1) / T(3), T(0), -T(0)}, {T(0.3), T(11), T(-0.7), T(2), T(1e-3), T(5), T(-1), T(1)}, {0, 1, 2, 3, 4, 5, 6, 7}};
   else if constexpr(UN) return {{T(3), T(1), T(7), T(2), T(9), T(5), T(0), T(4000000000u)}, {T(2), T(4), T(1), T(3), T(5), T(7), T(6), T(1)}, {0, 1, 2, 3, 4, 5, 6, 7}};
   else return {{T(3), T(-1), T(7), T(-2), T(9), T(5), T(0), T(-128)}, {T(2), T(4), T(1), T(3), T(5), T(7), T(6), T(1)}, {0, 1, 2, 3, 4, 5, 6, 7}};
}
constexpr Array1D<T> arr(const T* v, long n) { Array1D<T> a(n); for(long i = 0; i < n; ++i) a.un(i) = St{v[i % 6]}; return a; }
constexpr Array2D<T> mat(const T* v, long m, long n) { Array2D<T> a(Rows{m}, Cols{n}); for(long i = 0; i < m * n; ++i) a.un(i) = St{v[i % 6]}; return a; }
template <long N> constexpr FixedArray1D<T, N> farr(const T* v) { FixedArray1D<T, N> a; for(long i = 0; i < N; ++i) a.un(i) = St{v[i % 6]}; return a; }

// Every kind of one-dimensional operand with the given values; the objects live while f runs.
constexpr int NK1 = 11;
template <class F> constexpr void with1(int k, const T* v, long n, F f) {
   auto base = arr(v, n);
   if(k == 0) { f(base); }
   if(k == 1) { if(n == 3) { FixedArray1D<T, 3, Aligned> a(base); f(a); } else f(base); }
   if(k == 2) { if(n == 3) { auto a = farr<3>(v); f(a); } else if(n == 1) { auto a = farr<1>(v); f(a); } else { FixedArray1D<T, 2> a; a = St{v[0]}; f(a); } }
   if(k == 3) { Array1D<T> a(2 * n + 1); for(long i = 0; i < n; ++i) a.un(2 * n - 1 - 2 * i) = base.un(i); f(a(seqN(2 * n - 1 < 0 ? 0 : 2 * n - 1, n, -2))); }
   if(k == 4) { Array1D<T> a(n + 2); std::vector<ImplicitInt> ix; for(long i = 0; i < n; ++i) { a.un(n - i) = base.un(i); ix.push_back(n - i); } f(a(std::move(ix))); }
   if(k == 5) { if(n == 0) { f(base); return; } Array2D<T> a(Rows{3}, Cols{n}); for(long i = 0; i < n; ++i) a.un(1, i) = base.un(i); f(a.row(1)); }
   if(k == 6) { if(n == 0) { f(base); return; } Array2D<T> a(Rows{n}, Cols{2}); for(long i = 0; i < n; ++i) a.un(i, 1) = base.un(i); f(a.col(last)); }
   if(k == 7) { if(n == 0) { f(base); return; } Array2D<T> a(Rows{n}, Cols{n + 1}); for(long i = 0; i < n; ++i) a.un(i, i + 1) = base.un(i); f(a.diag(1)); }
   if(k == 8) { f(array_cast<T>(base)); }
   if(k == 9) { f(generate(irange(n), [&base](auto i) { return base.un(i); })); }
   if(k == 10) { const auto& c = base; f(c(place::all)); }
}
constexpr int NK2 = 8;
template <class F> constexpr void with2(int k, const T* v, long m, long n, F f) {
   auto base = mat(v, m, n);
   if(k == 0) { f(base); }
   if(k == 1) { if(m == 2 && n == 3) { FixedArray2D<T, 2, 3, Aligned> a(base); f(a); } else f(base); }
   if(k == 2) { FixedArray2D<T, 2, 3> a; for(long i = 0; i < 6; ++i) a.un(i) = St{v[i]}; f(a); }
   if(k == 3) { if(m * n == 0) { f(base); return; } Array2D<T> a(Rows{m + 1}, Cols{2 * n}); for(long i = 0; i < m; ++i) for(long j = 0; j < n; ++j) a.un(m - i, 2 * j + 1) = base.un(i, j); f(a(seqN(m, m, -1), place::odd)); }
   if(k == 4) { f(array_cast<T>(base)); }
   if(k == 5) { auto t = mat(v, n, m); for(long i = 0; i < m; ++i) for(long j = 0; j < n; ++j) t.un(j, i) = base.un(i, j); f(transpose(t)); }
   if(k == 6) { auto a = arr(v, m * n); f(a.view2D(m, n)); }
   if(k == 7) { const auto& c = base; f(c.rows(place::all)); }
}

// ---------------------------------------------------------------- catalogues
#if C23_PART == 0
template <class T> constexpr void scalars(Rec& r, const Dom& d) {
   for(int i = 0; i < 8; ++i) {
      const auto x = St{d.v[i]}; r.ctx = i;
      E(x.val()); E(St{x}); E(x.sb());
      { auto y = x; y = St{d.w[i]}; E(y); }
      if constexpr(BO) { E(!x); E(x.si()); E(x.sd()); }
      else {
         E(+x); if constexpr(!UN) { E(-x); E(abss(x)); }
         E(x.sd()); E(x.sld()); E(x.sf()); if constexpr(!FL) { E(x.sl()); E(x.sul()); } E(strict_cast<double>(x)); E(strict_cast<float>(x));
         { auto y = x; E(++y); E(y++); E(--y); E(y--); E(y); }
         if constexpr(IN) E(~x);
         if constexpr(FL) {
            E(x.si()); E(x.sl()); E(squares(x)); E(cubes(x)); if(x != Zero<T>) E(invs(x));
            for(int p = -5; p <= 5; ++p) { r.ctx = i * 100 + p; if(p >= 0 || x != Zero<T>) E(fast_pows_int(x, p)); }
         }
         if constexpr(IN && !UN) E(x % St{T(4)});
      }
      if constexpr(requires { signs(x); }) E(signs(x));
      for(int j = 0; j < 8; ++j) {
         const auto y = St{d.w[j]}; r.ctx = i * 10 + j;
         E(x == y); E(x != y);
         if constexpr(BO) { E(x && y); E(x || y); E(x ^ y); }
         else {
            E(x < y); E(x <= y); E(x > y); E(x >= y); E(mins(x, y)); E(maxs(x, y)); E(maxs(x, y));
            auto z = x; E(x + y); E(x - y); E(x * y); E(z += y); z = x; E(z -= y); z = x; E(z *= y); 
            E(x / y); z = x; E(z /= y);
            if constexpr(IN) { E(x % y); z = x; E(z %= y); E(x & y); E(x | y); E(x ^ y); z = x; E(z &= y); E(z |= y); E(z ^= y); if(x >= Zero<T> && x < St{T(100)}) { E(x << y); z = x; E(z <<= y); E(x >> y); z = x; E(z >>= y); } }
            if constexpr(FL) { E(abs_error(x, y)); E(rel_error(x, y)); E(within_tol_abs(x, y, St{T(1)})); E(within_tol_rel(x, y, St{T(1)}));  }
         }
      }
   }
   r.ctx = 0;
   E(Zero<T>); E(One<T>);
   if constexpr(!BO) { }
   if constexpr(!BO && !UN) E(NegOne<T>);
   if constexpr(FL) { E(constants::epsilon<T>); E(constants::pi<T>); E(constants::e<T>); E(constants::sqrt2<T>); }
   if constexpr(std::is_same_v<T, long>) for(int n = 0; n <= 20; ++n) { r.ctx = n; E(factorial(n)); for(int k = 0; k <= n; ++k) { r.ctx = n * 100 + k; E(binom_coeff(n, k)); } }
   if constexpr(!BO) for(unsigned s : {0u, 1u, 7u, 12345u, 4000000000u}) {
      r.ctx = int(s % 1000);
      E(semi_rands<T>(St{T(2)}, St{T(9)}, Seed{s})); E(semi_rands<T>(Seed{s})); E(semi_rands_not0<T>(St{T(0)}, St{T(9)}, Seed{s}));
   }
   else for(unsigned s : {0u, 1u, 7u}) { r.ctx = s; E(semi_rands<T>(Seed{s})); }
}
#define CATALOGUES X(scalars)
#endif

#if C23_PART == 1
template <class T> constexpr void kinds1(Rec& r, const Dom& d) {
   for(int k = 0; k < NK1; ++k) for(long n = 0; n <= 3; ++n) {
      if(k == 2 && n == 0) continue;
      r.ctx = k * 10 + n;
      with1(k, d.v, n, [&](auto&& a) { F1(a); });
   }
}
template <class T> constexpr void unary1(Rec& r, const Dom& d) {
   for(int k = 0; k < NK1; ++k) for(long n : {1L, 3L}) {
      r.ctx = k * 10 + n;
      with1(k, d.v, n, [&](auto&& a) {
         const St s{d.w[3]};
         if constexpr(BO) { E(!a); E(a && s); E(a || s); E(a ^ s); E(s && a); E(s || a); E(s ^ a); E(array_cast<int>(a)); }
         else {
            E(+a); if constexpr(!UN) { E(-a); E(abs(a)); } E(a + s); E(a - s); E(a * s); E(a / s); E(s + a); E(s - a); E(s * a); E(s / a); E(array_cast<int>(a * s)); E(array_cast<double>(a));
            if constexpr(IN) { E(~a); E(a % s); E(a & s); E(a | s); E(a ^ s); if constexpr(UN) E(a >> s); E(s % a); E(s & a); E(s | a); E(s ^ a);  }
            if constexpr(FL) { E(inv(a)); E(fast_pow_int(a, 3)); }
            E(sequence<T>(4, St{T(1)}, St{T(2)})); if constexpr(FL) { E(max_abs_error(a, a + One<T>)); E(max_rel_error(a, a + One<T>)); E(within_tol_abs(a, a + One<T>, One<T>)); E(within_tol_rel(a, a + One<T>, One<T>)); }
         }
         E(spp::generate(a, [](auto x) { return x; }));
      });
   }
}
#define CATALOGUES X(kinds1) X(unary1)
#endif
#if C23_PART == 5
template <class T> constexpr void binary1(Rec& r, const Dom& d) {
   for(int k = 0; k < NK1; ++k) for(int l : {0, 3, 4, 8, 2}) {
      const long n = 3; r.ctx = k * 100 + l;
      with1(k, d.v, n, [&](auto&& a) { with1(l, d.w, n, [&](auto&& b) {
         if(a.size() != b.size()) return;
         if constexpr(BO) { E(a && b); E(a || b); E(a ^ b); }
         else {
            E(a + b); E(a - b); E(a * b); E(a / b); E((a + b) * (a - b) / b);
            if constexpr(IN) { E(a % b); E(a & b); E(a | b); E(a ^ b); if constexpr(UN) E(a >> b); }
         }
         E(spp::generate(a, b, [](auto x, auto) { return x; }));
         E(a == b); E(a != b); E(spp::merge(a, b)); E(spp::merge(spp::merge(a, Zero<T>), b));
         { Array1D<T> c(a); if constexpr(!BO) { c += b; E(c); c -= a; E(c); c *= b; E(c); c /= b; E(c); c += St{d.w[1]}; E(c); c(place::even) *= St{d.w[0]}; E(c); } c(place::reverse) = b; E(c); }
      }); });
   }
}
#define CATALOGUES X(binary1)
#endif
#if C23_PART == 6
template <class T> constexpr void reductions1(Rec& r, const Dom& d) {
   for(int k = 0; k < NK1; ++k) for(long n : {1L, 3L}) {
      r.ctx = k * 10 + n;
      with1(k, d.v, n, [&](auto&& a) {
         if constexpr(!BO) {
            E(sum(a)); E(prod(a)); E(min(a)); E(max(a)); E(min_index(a)); E(max_index(a)); E(dot_prod(a, a)); E(polynomial(a, St{d.w[0]}));
            E(all_pos(a)); E(all_neg(a)); E(all_non_pos(a)); E(all_non_neg(a)); E(spp::none_of(a, Zero<T>)); E(spp::any_of(a, Zero<T>)); E(spp::all_of(a, Zero<T>));
            if constexpr(FL) { E(norm_inf(a)); E(norm1(a)); }
            if constexpr(FL) { E(mean(a)); E(norm1_scaled(a)); }
         }
         if constexpr(!BO) { E(has_zero(a)); E(all_zeros(a)); } E(spp::none_of(a, [](auto x) { return x == One<T>; })); E(spp::any_of(a, [](auto x) { return x == One<T>; })); E(spp::all_of(a, [](auto x) { return x == One<T>; }));
         std::uint64_t h = 0; for_each(a, [&](auto x) { h = mixc(h, bits(x.val())); }); E(h);
      });
   }
   {
      r.ctx = -1;
      const Array1D<T> e;
      if constexpr(!BO) {  }
      if constexpr(!BO) { E(has_zero(e)); E(all_zeros(e)); }
   }
}
template <class T> constexpr void structural1(Rec& r, const Dom& d) {
   for(int k = 0; k < NK1; ++k) {
      const long n = 3; r.ctx = k;
      with1(k, d.v, n, [&](auto&& a) {
         const long m = a.size().val();
         for(long p = 0; p < m; ++p) { r.ctx = k * 10 + p; E(exclude(a, p)); for(long c = 1; c + p <= m; ++c) E(exclude(a, p, c)); }
         E(row_broadcast(a)); E(irange(a));  
         if constexpr(!BO) { const auto b = arr(d.w, 2); E(tensor_prod(a, b)); }
      });
   }
   for(long n = 0; n <= 4; ++n) { r.ctx = n; E(const1D(n, One<T>)); E(irange(n)); if constexpr(!BO) { if(n) for(long i = 0; i < n; ++i) E(e_unit<T>(i, n)); if constexpr(FL) { if(n) E(linspace<T>(n, St{d.v[0]}, St{d.w[1]})); E(sequence<T>(n, St{d.v[0]}, St{d.v[2]})); } else E(sequence<T>(n, St{d.v[0]}, St{d.v[2]})); } }
   if constexpr(!BO) for(unsigned s : {0u, 7u, 123456u}) { r.ctx = s; auto g = semi_random<T>(Size{5}, Low{St{T(2)}}, High{St{T(9)}}, Seed{s}); Array1D<T> q(g); E(q); Array1D<T> p(6); spp::semi_random(p, St{T(1)}, St{T(9)}, Seed{s}); E(p); }
}
#define CATALOGUES X(reductions1) X(structural1)
#endif

#if C23_PART == 2
// every valid slice of every kind, and what is read and written through it
template <class T> constexpr void slices1(Rec& r, const Dom& d) {
   for(long n = 1; n <= 4; ++n) {
      const auto base = arr(d.v, n);
      for(long s = 0; s < n; ++s) for(long st = -3; st <= 3; ++st) for(long c = 0; c <= n; ++c) {
         const long end = s + (c - 1) * st;
         if(c && (end < 0 || end >= n)) continue;
         if(!st && c > 1) continue;
         r.ctx = int(((n * 10 + s) * 10 + st + 3) * 10 + c);
         auto a = base;
         E(a(seqN(s, c, st)));  E(base(seqN(s, c, st))(place::reverse));
         if(c) { a(seqN(s, c, st)) = St{d.w[0]}; E(a); if constexpr(!BO) { a(seqN(s, c, st)) += const1D(c, One<T>); E(a); } }
         const Array1D<T> cp(base(seqN(s, c, st))); E(cp);
      }
      for(long s = 0; s < n; ++s) for(long e = s; e < n; ++e) for(long st : {1L, 2L}) { r.ctx = int(n * 1000 + s * 100 + e * 10 + st); auto a = base; E(a(seq(s, e, st))); E(a(seq(e, s, -st))); a(seq(s, e, st)) = St{d.w[2]}; E(a); }
      for(long k = 0; k <= n; ++k) { r.ctx = int(n * 10 + k); E(base(place::firstN(k))); E(base(place::lastN(k))); if(k < n) E(base(place::skipN(k + 1))); }
      for(long m = 0; m < (1 << n); ++m) { std::vector<ImplicitInt> ix, co; for(long i = 0; i < n; ++i) ((m >> i & 1) ? ix : co).push_back(i); r.ctx = int(n * 100 + m); auto a = base; E(a(ix)); E(a(place::complement{ix})); a(ix) = St{d.w[1]}; E(a); E(a(co)); }
   }
}
template <class T> constexpr void slices2(Rec& r, const Dom& d) {
   for(long m = 1; m <= 3; ++m) for(long n = 1; n <= 3; ++n) {
      const auto base = mat(d.v, m, n);
      for(long i = 0; i < m; ++i) { r.ctx = int(m * 100 + n * 10 + i); auto a = base; E(a.row(i)); a.row(i) = St{d.w[0]}; E(a); E(a.rows(seq(i, m - 1))); for(long c = 1; i + c <= m; ++c) E(a.rows(seqN(i, c))); }
      for(long j = 0; j < n; ++j) { r.ctx = int(m * 100 + n * 10 + j); auto a = base; E(a.col(j)); a.col(j) = St{d.w[0]}; E(a); E(a.cols(seq(j, n - 1))); for(long c = 1; j + c <= n; ++c) E(a.cols(seqN(j, c))); }
      for(long k = -(m - 1); k <= n - 1; ++k) { r.ctx = int(m * 100 + n * 10 + k); auto a = base; E(a.diag(k)); a.diag(k) = St{d.w[0]}; E(a); }
      for(long i = 0; i < m; ++i) for(long i2 = i; i2 < m; ++i2) for(long j = 0; j < n; ++j) for(long j2 = j; j2 < n; ++j2) { r.ctx = int(((((m * 10 + n) * 10 + i) * 10 + i2) * 10 + j) * 10 + j2); auto a = base; E(a.block(i, j, i2, j2)); E(a.blockN(i, j, i2 - i + 1, j2 - j + 1)); a.block(i, j, i2, j2) = St{d.w[1]}; E(a); E(a(seq(i, i2), seq(j2, j, -1))); }
      { r.ctx = int(m * 10 + n); auto a = base; E(a(place::reverse, place::odd)); E(a(place::even, place::reverse)); E(a({0}, {0})); E(a.rows({0})); E(a.cols({0})); E(a.view1D()); E(a.view1D()(place::even)); for(long q = 1; q <= m * n; ++q) if(m * n % q == 0) { E(a.view2D(q, m * n / q)); } a.view1D() = St{d.w[0]}; E(a); }
   }
}
#define CATALOGUES X(slices1) X(slices2)
#endif

#if C23_PART == 3
template <class T> constexpr void edits1(Rec& r, const Dom& d) {
   for(long n = 0; n <= 4; ++n) {
      const auto base = arr(d.v, n);
      const St s{d.w[1]};
      for(long k = 0; k <= n; ++k) {
         for(long m = 0; m <= 2; ++m) { const auto b = arr(d.w, m); r.ctx = int(n * 100 + k * 10 + m); auto a = base; a.insert(k, b); E(a); a = Array1D<T>(a); E(a); { auto c = base; c.insert(Pos{k}, b(place::reverse)); E(c); } }
         r.ctx = int(n * 10 + k);
         { auto a = base; a.insert(k, s); E(a); }
         for(long c = 1; c + k <= n; ++c) { r.ctx = int(n * 100 + k * 10 + c); { auto a = base; a.remove(k, c); E(a); } }
         if(k < n) { auto a = base; a.remove(k); E(a); }
         if(k) { auto a = base; a.remove_front(k); E(a); } if(k) { auto a = base; a.remove_back(k); E(a); }
      }
      { auto a = base; a.insert_front(s); E(a); a.insert_back(s); E(a); a.insert_front(base); E(a); a.insert_back(base); E(a); }
      for(long m = 0; m <= 6; ++m) { r.ctx = int(n * 10 + m); { auto a = base; a.resize(m, true); E(a); } { auto a = base; a.resize(m, false); E(a.size()); } { auto a = base; a.resize(m); E(a.size()); } { auto a = base; a.resize_and_assign(arr(d.w, m)); E(a); } }
      for(long m = 0; m < (1 << n); ++m) { std::vector<ImplicitInt> ix; for(long i = 0; i < n; ++i) if(m >> i & 1) ix.push_back(i); r.ctx = int(n * 100 + m); auto a = base; a.remove(ix); E(a); }
      { auto a = base; auto b = arr(d.w, 3); a.swap(b); E(a); E(b); auto c = std::move(a); E(c); Array1D<T> e(c.begin(), c.end()); E(e); E(e == c); b = c.size() == b.size() ? Array1D<T>(c) : Array1D<T>(b); E(b); }
   }
   { Array1D<T> a{St{d.v[0]}, St{d.v[1]}, St{d.v[2]}}; E(a); a = {St{d.w[0]}, St{d.w[1]}, St{d.w[2]}}; E(a); a = St{d.v[3]}; E(a); Array1D<T> b(Size{3}, Value{St{d.w[2]}}); E(b); a = std::move(b); E(a); }
   { FixedArray1D<T, 3> a; E(a); a = {St{d.v[0]}, St{d.v[1]}, St{d.v[2]}}; E(a); FixedArray1D<T, 3> b = a; E(b); a = St{d.w[0]}; E(a); auto c = std::move(a); E(c); a = b; E(a); a = arr(d.v, 3); E(a); FixedArray1D<T, 3> e(c.begin(), c.end()); E(e); FixedArray1D<T, 2> f(Value{St{d.v[1]}}); E(f); }
}
template <class T> constexpr void edits2(Rec& r, const Dom& d) {
   for(long m = 1; m <= 3; ++m) for(long n = 1; n <= 2; ++n) {
      const auto base = mat(d.v, m, n);
      for(long k = 0; k <= m; ++k) {
         r.ctx = int(m * 100 + n * 10 + k);
         { auto a = base; a.insert_row(k, arr(d.w, n)); E(a); } { auto a = base; a.insert_rows(k, mat(d.w, 2, n)); E(a); }
         if(k < m) { auto a = base; a.remove_row(k); E(a); }
         for(long c = 1; c + k <= m; ++c) { auto a = base; a.remove_rows(k, c); E(a); }
         if(k) { auto a = base; a.remove_rows_front(k); E(a); } if(k) { auto a = base; a.remove_rows_back(k); E(a); }
      }
      for(long k = 0; k <= n; ++k) {
         r.ctx = int(m * 100 + n * 10 + k);
         { auto a = base; a.insert_col(k, arr(d.w, m)); E(a); } { auto a = base; a.insert_cols(k, mat(d.w, m, 2)); E(a); }
         if(k < n) { auto a = base; a.remove_col(k); E(a); }
         for(long c = 1; c + k <= n; ++c) { auto a = base; a.remove_cols(k, c); E(a); }
         if(k) { auto a = base; a.remove_cols_front(k); E(a); } if(k) { auto a = base; a.remove_cols_back(k); E(a); }
      }
      for(long p = 0; p <= 4; ++p) for(long q = 0; q <= 3; ++q) { if((p == 0) != (q == 0)) continue; r.ctx = int(((m * 10 + n) * 10 + p) * 10 + q); { auto a = base; a.resize(p, q, true); E(a); } { auto a = base; a.resize(p, q, false); E(a.rows()); } { auto a = base; a.resize_and_assign(mat(d.w, p, q)); E(a); } }
      { auto a = base; auto b = mat(d.w, 2, 2); a.swap(b); E(a); E(b); auto c = std::move(a); E(c); Array2D<T> e(c); E(e); E(e == c); a.resize_and_assign(std::move(c)); E(a); a.insert_row_front(arr(d.w, 2)); E(a); a.insert_col_back(arr(d.w, a.rows().val())); E(a); if(a.rows().val() > 1) { a.remove_rows({0}); E(a); } a.remove_cols({0}); E(a); }
   }
   { Array2D<T> a{{St{d.v[0]}, St{d.v[1]}}, {St{d.v[2]}, St{d.v[3]}}}; E(a); a = {{St{d.w[0]}, St{d.w[1]}}, {St{d.w[2]}, St{d.w[3]}}}; E(a); a = St{d.v[1]}; E(a); Array2D<T> b(Rows{2}, Cols{2}, Value{St{d.w[0]}}); E(b); a = std::move(b); E(a); }
   { FixedArray2D<T, 2, 3> a; E(a); a = {{St{d.v[0]}, St{d.v[1]}, St{d.v[2]}}, {St{d.v[3]}, St{d.v[4]}, St{d.v[5]}}}; E(a); auto b = a; E(b); a = St{d.w[0]}; E(a); auto c = std::move(a); E(c); c = mat(d.w, 2, 3); E(c); }
}
template <class T> constexpr void algorithms(Rec& r, const Dom& d) {
   for(int x = 0; x < 27; ++x) {
      r.ctx = x;
      Array1D<T> a(4); for(int i = 0, y = x; i < 3; ++i, y /= 3) a.un(i) = St{d.v[y % 3]}; a.un(3) = St{d.v[1]};
      if constexpr(!BO) { auto b = a; sort(b, [](auto p, auto q) { return p < q; }); E(b); b = a; sort_increasing(b); E(b); sort_decreasing(b); E(b); b = a; sort_increasing(b(place::odd)); E(b); sort(b(place::reverse), [](auto p, auto q) { return p < q; }); E(b); }
      if constexpr(!BO) { auto b = a; E(in_open_range(b, St{d.v[1]}, St{d.v[0]})); E(in_closed_range(b, St{d.v[1]}, St{d.v[0]})); E(in_cond_range(b, [&](auto z) { return z != St{d.v[0]}; })); in_closed_range(b, St{d.v[1]}, St{d.v[1]}) = St{d.w[0]}; E(b); }
      { auto b = a; std::sort(b.begin(), b.end()); E(b); std::reverse(b.begin(), b.end()); E(b); std::rotate(b.begin(), b.begin() + 1, b.end()); E(b); auto c = b(place::reverse); std::sort(c.begin(), c.end()); E(b); E(std::count(b.begin(), b.end(), St{d.v[1]})); E(std::find(b.begin(), b.end(), St{d.v[0]}) - b.begin()); }
   }
   for(int k = 0; k < NK2; ++k) {
      r.ctx = k;
      with2(k, d.v, 2, 3, [&](auto&& a) {
         if constexpr(requires { a.row_begin(); }) { std::uint64_t h = 0; for(auto it = a.row_begin(); it != a.row_end(); ++it) h = mixc(h, dig1(*it)); E(h); }
         if constexpr(requires { a.col_begin(); }) { std::uint64_t h = 0; for(auto it = a.col_begin(); it != a.col_end(); ++it) h = mixc(h, dig1(*it)); E(h); }
      });
   }
}
#define CATALOGUES X(edits1) X(edits2) X(algorithms)
#endif

#if C23_PART == 4
template <class T> constexpr void kinds2(Rec& r, const Dom& d) {
   for(int k = 0; k < NK2; ++k) for(long m = 0; m <= 3; ++m) for(long n = 0; n <= 3; ++n) {
      if((m == 0) != (n == 0) || (k == 2 && m * 10 + n != 23)) continue;
      r.ctx = int(k * 100 + m * 10 + n);
      with2(k, d.v, m, n, [&](auto&& a) { F2(a); });
   }
}
#define CATALOGUES X(kinds2)
#endif
#if C23_PART == 7
template <class T> constexpr void ops2(Rec& r, const Dom& d) {
   for(int k = 0; k < NK2; ++k) {
      r.ctx = k;
      with2(k, d.v, 2, 3, [&](auto&& a) {
         const St s{d.w[3]};
         if constexpr(BO) { E(!a); E(a && s); E(a || s); E(a ^ s); E(s && a); E(array_cast<int>(a)); }
         else {
            E(+a); if constexpr(!UN) { E(-a); E(abs(a)); } E(a + s); E(a - s); E(a * s); E(a / s); E(s + a); E(s - a); E(s * a); E(s / a); E(array_cast<int>(a * s)); E(array_cast<double>(a));
            if constexpr(IN) { E(~a); E(a % s); E(a & s); E(a | s); E(a ^ s); if constexpr(UN) E(a >> s); E(s % a); }
            if constexpr(FL) { E(inv(a)); E(fast_pow_int(a, 3)); E(mean(a)); E(norm1_scaled(a)); }
            E(sum(a)); E(prod(a)); E(min(a)); E(max(a)); E(min_index(a)); E(max_index(a)); E(dot_prod(a, a));
            E(all_pos(a)); E(all_neg(a)); E(all_non_pos(a)); E(all_non_neg(a));
            if constexpr(FL) { E(norm_inf(a)); E(norm1(a)); }
            E(row_reduce(a, [](const auto& q) { return sum(q); })); E(col_reduce(a, [](const auto& q) { return sum(q); }));
            { const auto x3 = arr(d.w, 3); E(matvec_prod(a, x3)); }
         }
         if constexpr(!BO) { E(has_zero(a)); E(all_zeros(a)); } E(spp::any_of(a, [](auto x) { return x == One<T>; })); E(transpose(a)); E(transpose(transpose(a)));
         for(long i = 0; i < 2; ++i) { r.ctx = int(k * 10 + i); } 
         r.ctx = k;
         for(int l = 0; l < NK2; ++l) with2(l, d.w, 2, 3, [&](auto&& b) {
            r.ctx = k * 10 + l;
            if constexpr(BO) { E(a && b); E(a || b); E(a ^ b); }
            else { E(a + b); E(a - b); E(a * b); E(a / b); if constexpr(IN) { E(a % b); E(a & b); if constexpr(UN) E(a >> b); } }
            E(a == b); E(a != b); E(spp::generate(a, b, [](auto, auto y) { return y; }));
            { Array2D<T> c(a); if constexpr(!BO) { c += b; E(c); c *= b; E(c); c -= St{d.w[1]}; E(c); } c(place::reverse, place::reverse) = b; E(c); }
            E(merge_horizontal(a, b)); E(merge_vertical(a, b));
         });
      });
   }
   for(long m = 0; m <= 3; ++m) for(long n = 0; n <= 3; ++n) { if((m == 0) != (n == 0)) continue; r.ctx = int(m * 10 + n); E(const2D(m, n, One<T>)); if constexpr(!BO) { if(m) E(identity<T>(m)); auto g = semi_random<T>(Rows{m}, Cols{n}, Seed{unsigned(m + n)}); Array2D<T> q(g); E(q); } }
}
#define CATALOGUES X(ops2)
#endif

#if C23_PART == 8   // what is offered for constant evaluation from C++23 on
template <class T> constexpr void cxx23(Rec& r, const Dom& d) {
   if constexpr(FL) {
      for(int i = 0; i < 8; ++i) for(int j = 0; j < 8; ++j) {
         const auto x = St{d.v[i]}, y = St{d.w[j]}; r.ctx = i * 10 + j;
         if(!j) { E(isinfs(x)); E(isnans(x)); E(isfinites(x)); }
         E(isfinites(x * y));
      }
      for(T x : {std::numeric_limits<T>::infinity(), -std::numeric_limits<T>::infinity(), std::numeric_limits<T>::quiet_NaN(), std::numeric_limits<T>::max(), std::numeric_limits<T>::denorm_min()}) {
         const auto s = St{x}; ++r.ctx; E(isinfs(s)); E(isnans(s)); E(isfinites(s)); E(s == s); E(s < s); E(s >= Zero<T>);
         for(int k = 0; k < NK1; ++k) { r.ctx = k; with1(k, d.v, 3, [&](auto&& a) { if constexpr(!requires { Array1D<T>(a); } ) return; else { Array1D<T> b(a); if(b.size() < 2_sl) return; b.un(1) = s; E(all_finite(b)); E(has_inf(b)); E(has_nan(b)); E(all_finite(b(place::even))); E(has_nan(b(place::reverse))); } }); }
      }
   }
   if constexpr(!BO) {
      for(int k = 0; k < NK1; ++k) { r.ctx = k; with1(k, d.v, 3, [&](auto&& a) { if constexpr(FL) { E(all_finite(a)); E(has_inf(a)); E(has_nan(a)); } auto b = blas_array(a); std::uint64_t h = 0; for(long i = 0; i < a.size().val(); ++i) h = mixc(h, bits(b[i])); E(h); }); }
      for(int k = 0; k < NK2; ++k) { r.ctx = k; with2(k, d.v, 2, 3, [&](auto&& a) { if constexpr(FL) { E(all_finite(a)); E(has_inf(a)); E(has_nan(a)); } auto b = blas_array(a); std::uint64_t h = 0; for(long i = 0; i < 6; ++i) h = mixc(h, bits(b[i])); E(h); }); }
   }
   for(int k = 0; k < NK2; ++k) { r.ctx = k; with2(k, d.v, 2, 3, [&](auto&& a) { std::uint64_t h = 0; for(long i = 0; i < 2; ++i) for(long j = 0; j < 3; ++j) { h = mixc(h, digs(a[i, j])); h = mixc(h, digs(a[last - (1 - i), j])); } E(h); }); }
}
#define CATALOGUES X(cxx23)
#endif

constexpr Dom dom = dom_();
#define X(f) constexpr auto ct_##f = [] { Rec r; f<T>(r, dom); return r; }();
CATALOGUES
#undef X

void compare(const char* what, const Rec& c, void (*f)(Rec&, const Dom&)) {
   static volatile unsigned char raw[sizeof(Dom)];
   Dom d;
   { const unsigned char* p = reinterpret_cast<const unsigned char*>(&dom); for(std::size_t i = 0; i < sizeof(Dom); ++i) raw[i] = p[i]; unsigned char* q = reinterpret_cast<unsigned char*>(&d); for(std::size_t i = 0; i < sizeof(Dom); ++i) q[i] = raw[i]; }
   auto rt = std::make_unique<Rec>();
   void (* volatile g)(Rec&, const Dom&) = f;
   mc::at("%s: run-time evaluation of %s", tname<T>(), what);
   g(*rt, d);
   if(rt->n != c.n) mc::fail("differs:" + std::string(what), "%s %s: %d results at compile time, %d at run time", tname<T>(), what, c.n, rt->n);
   for(int i = 0; i < std::min(c.n, rt->n); ++i) {
      mc::at("%s: %s case %d", tname<T>(), c.name[i], c.c[i]);
      mc::state(mc::mix(mc::mix(c.h[i], std::uint64_t(c.c[i])), std::uint64_t(i)));
      if(c.h[i] != rt->h[i] || std::strcmp(c.name[i], rt->name[i]) || c.c[i] != rt->c[i]) mc::fail("differs:" + std::string(what), "%s: %s (%s, case %d) differs between compile time and run time", tname<T>(), c.name[i], what, c.c[i]);
      mc::step(); mc::trace();
   }
}
UNIT("constant evaluation against run time") {
#define X(f) compare(#f, ct_##f, f<T>);
   CATALOGUES
#undef X
}
}
