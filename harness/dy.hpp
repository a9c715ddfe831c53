// Exact dyadic rationals: the reference arithmetic for floating-point guarantees.
#pragma once
#include "lib.hpp"
#include <boost/multiprecision/cpp_int.hpp>

struct Dy {
   using Z = boost::multiprecision::cpp_int;
   Z m = 0; long e = 0;     // m * 2^e
   Dy() = default;
   Dy(long x) : m(x) {}
   Dy(Z m_, long e_) : m(std::move(m_)), e(e_) {}
   template <class T> static Dy of(T x) {
      float128 q = x; int k;
      if(q == 0) return Dy{};
      float128 f = frexpq(q, &k);
      long hi = (long)(f * 0x1p60Q); float128 r = f * 0x1p60Q - hi; long lo = (long)(r * 0x1p60Q);
      return Dy{(Z(hi) << 60) + lo, k - 120L}.norm();
   }
   Dy& norm() {
      if(m == 0) { e = 0; return *this; }
      Z a = abs(m); unsigned s = boost::multiprecision::lsb(a);
      if(s) { bool n = m < 0; a >>= s; m = n ? Z(-a) : a; e += s; }
      return *this;
   }
   friend Dy operator+(const Dy& a, const Dy& b) {
      if(a.m == 0) return b; if(b.m == 0) return a;
      if(a.e <= b.e) return Dy{a.m + (b.m << (unsigned long)(b.e - a.e)), a.e}; 
      return Dy{b.m + (a.m << (unsigned long)(a.e - b.e)), b.e};
   }
   friend Dy operator-(const Dy& a) { return Dy{-a.m, a.e}; }
   friend Dy operator-(const Dy& a, const Dy& b) { return a + (-b); }
   friend Dy operator*(const Dy& a, const Dy& b) { return Dy{a.m * b.m, a.e + b.e}.norm(); }
   int sign() const { return m < 0 ? -1 : m > 0; }
   friend bool operator==(const Dy& a, const Dy& b) { return (a - b).m == 0; }
   friend bool operator<(const Dy& a, const Dy& b) { return (a - b).m < 0; }
   friend bool operator<=(const Dy& a, const Dy& b) { return !(b < a); }
   Dy abs_() const { return m < 0 ? -*this : *this; }
   static Dy pow2(long k) { return Dy{Z(1), k}; }
   Dy pow(long p) const { Dy r(1); for(long i = 0; i < p; ++i) r = r * *this; return r; }
   // Number of significant bits.
   long bits() const { if(m == 0) return 0; Dy t = *this; t.norm(); return (long)boost::multiprecision::msb(abs(t.m)) + 1; }
   long exp() const { return m == 0 ? -1000000 : (long)boost::multiprecision::msb(abs(m)) + e; }     // floor(log2|x|)
};

template <class T> struct FP {   // significand bits, exponent range
   static constexpr int p = std::is_same_v<T, float> ? 24 : std::is_same_v<T, double> ? 53 : std::is_same_v<T, long double> ? 64 : 113;
   static constexpr int emin = std::is_same_v<T, float> ? -126 : std::is_same_v<T, double> ? -1022 : -16382;
   static constexpr int emax = std::is_same_v<T, float> ? 127 : std::is_same_v<T, double> ? 1023 : 16383;
};
// A dyadic rational that T represents exactly.
template <class T> bool representable(const Dy& d) {
   if(d.m == 0) return true;
   Dy t = d; t.norm();
   return t.bits() <= FP<T>::p && t.exp() <= FP<T>::emax && t.e >= FP<T>::emin - FP<T>::p + 1;
}
template <class T> T two(int k) { T r = 1; for(; k > 0; --k) r *= 2; for(; k < 0; ++k) r /= 2; return r; }
// Nearest (ties to even) value of type T; the value must be in the normal range or zero.
template <class T> T nearest(const Dy& d) {
   if(d.m == 0) return T(0);
   Dy t = d; t.norm(); bool ng = t.m < 0; Dy::Z a = abs(t.m); long e = t.e;
   long b = (long)boost::multiprecision::msb(a) + 1, s = b - FP<T>::p, lo = FP<T>::emin - FP<T>::p + 1 - e;
   if(lo > s) s = lo;
   if(s > 0) { Dy::Z q = a >> (unsigned)s, r = a - (q << (unsigned)s), h = Dy::Z(1) << (unsigned)(s - 1); if(r > h || (r == h && (q & 1) != 0)) ++q; a = q; e += s; }
   float128 x = 0; Dy::Z hi = a >> 56, lo2 = a & ((Dy::Z(1) << 56) - 1);
   x = (float128)(long)hi.convert_to<long>() * 0x1p56Q + (float128)lo2.convert_to<long>();
   x = ldexpq(x, (int)e);
   return (T)(ng ? -x : x);
}
inline std::string str(const Dy& d) { return d.m.str() + "*2^" + std::to_string(d.e); }
