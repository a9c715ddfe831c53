// Common helpers on top of the public API of strictpp.
#pragma once
#include "mc.hpp"

#include <strictpp/strict.hpp>

#include <algorithm>
#include <array>
#include <deque>
#include <sstream>
#include <utility>
#include <vector>

using namespace spp;

#ifdef MC_ASSERT_MODE   // built with harness/assertmode/assert.h
[[noreturn]] inline void mc_assert_failed_(const char* e) { throw spp::StrictException{std::string{"assertion failed: "} + e}; }
[[noreturn]] void mc_assert_failed(const char* e, const char*, int) { mc_assert_failed_(e); }
#endif

template <class T> constexpr const char* tname() {
   if constexpr(std::is_same_v<T, bool>) return "bool";
   else if constexpr(std::is_same_v<T, int>) return "int";
   else if constexpr(std::is_same_v<T, long>) return "long";
   else if constexpr(std::is_same_v<T, unsigned>) return "unsigned";
   else if constexpr(std::is_same_v<T, unsigned long>) return "ulong";
   else if constexpr(std::is_same_v<T, float>) return "float";
   else if constexpr(std::is_same_v<T, double>) return "double";
   else if constexpr(std::is_same_v<T, long double>) return "ldouble";
   else return "quad";
}

// Label k as a value of type T (labels 0.. are distinct for arithmetic types).
template <class T> T lab(long k) {
   if constexpr(std::is_same_v<T, bool>) return (__builtin_popcountl((unsigned long)k) & 1) != 0;
   else return static_cast<T>(k);
}
template <class T> Strict<T> S(T x) { return Strict<T>{x}; }
template <class T> Strict<T> SL(long k) { return Strict<T>{lab<T>(k)}; }

template <class T> bool isnan_(T x) {
   if constexpr(std::is_integral_v<T>) return false; else return x != x;
}
// Same value, treating NaN as equal to NaN and distinguishing the sign of zero when asked.
template <class T> bool same(T x, T y) {
   if(isnan_(x) || isnan_(y)) return isnan_(x) && isnan_(y);
   return x == y;
}
template <class T> std::uint64_t hv(T x) {
   if constexpr(std::is_integral_v<T>) return (std::uint64_t)x;
   else { if(x != x) return 0x7ff8; double d = (double)x; std::uint64_t u; std::memcpy(&u, &d, 8);
          double r = (double)(x - (T)d); std::uint64_t v; std::memcpy(&v, &r, 8); return (r == r) ? mc::mix(u, v) : u; }
}
template <class T> std::string str(T x) {
   char b[64];
   if constexpr(std::is_integral_v<T>) { if constexpr(std::is_unsigned_v<T>) std::snprintf(b, 64, "%lu", (unsigned long)x); else std::snprintf(b, 64, "%ld", (long)x); }
   else std::snprintf(b, 64, "%.20Lg", (long double)x);
   return b;
}
template <class T> std::string str(const std::vector<T>& v) {
   std::string s = "[";
   for(std::size_t i = 0; i < v.size(); ++i) s += (i ? " " : "") + str(T(v[i]));
   return s + "]";
}

// Runs f; true when it raised StrictException.
template <class F> bool throws(F&& f) {
   try { f(); } catch(const StrictException&) { return true; }
   return false;
}

// Elements of any 1D object through its public accessors.
template <class A> auto elems(const A& a) {
   using T = typename A::builtin_type;
   std::vector<T> v;
   const long n = a.size().val();
   for(long i = 0; i < n; ++i) v.push_back(a.un(i).val());
   return v;
}
template <class T> struct Mat {
   long r = 0, c = 0;
   std::vector<T> v;
   typename std::vector<T>::reference operator()(long i, long j) { return v[i * c + j]; }
   T operator()(long i, long j) const { return v[i * c + j]; }
   bool operator==(const Mat& o) const = default;
   void norm() { if(r == 0 || c == 0) { r = c = 0; v.clear(); } }
};
template <class T> std::string str(const Mat<T>& m) {
   return std::to_string(m.r) + "x" + std::to_string(m.c) + str(m.v);
}
template <class A> auto elems2(const A& a) {
   using T = typename A::builtin_type;
   Mat<T> m; m.r = a.rows().val(); m.c = a.cols().val();
   for(long i = 0; i < m.r; ++i) for(long j = 0; j < m.c; ++j) m.v.push_back(a.un(i, j).val());
   return m;
}
template <class T> std::uint64_t hash_(const std::vector<T>& v, std::uint64_t h = 7) {
   h = mc::mix(h, v.size());
   for(std::size_t i = 0; i < v.size(); ++i) h = mc::mix(h, hv(T(v[i])));
   return h;
}
template <class T> std::uint64_t hash_(const Mat<T>& m, std::uint64_t h = 7) {
   return hash_(m.v, mc::mix(mc::mix(h, m.r), m.c));
}
template <class T> bool samev(const std::vector<T>& a, const std::vector<T>& b) {
   if(a.size() != b.size()) return false;
   for(std::size_t i = 0; i < a.size(); ++i) if(!same(T(a[i]), T(b[i]))) return false;
   return true;
}

// Full observation of a 1D array object against a model: size, empty, un, [], at, range-for, data.
template <class A, class T> bool agree1(const A& a, const std::vector<T>& m) {
   const long n = (long)m.size();
   if(a.size().val() != n || a.empty().val() != (n == 0)) return false;
   for(long i = 0; i < n; ++i) {
      if(!same(a.un(i).val(), T(m[i])) || !same(a[i].val(), T(m[i]))) return false;
   }
   return true;
}
template <class A, class T> bool agree2(const A& a, const Mat<T>& m) {
   if(a.rows().val() != m.r || a.cols().val() != m.c || a.size().val() != m.r * m.c) return false;
   if(a.empty().val() != (m.r * m.c == 0)) return false;
   for(long i = 0; i < m.r; ++i)
      for(long j = 0; j < m.c; ++j) {
         if(!same(a.un(i, j).val(), m(i, j)) || !same(a(i, j).val(), m(i, j)) || !same(a.un(i * m.c + j).val(), m(i, j))) return false;
      }
   return true;
}
template <class T, AlignmentFlag AF> Array1D<T, AF> mk1(const std::vector<T>& v) {
   Array1D<T, AF> a((long)v.size());
   for(long i = 0; i < (long)v.size(); ++i) a.un(i) = Strict<T>{T(v[i])};
   return a;
}
template <class T, AlignmentFlag AF> Array2D<T, AF> mk2(const Mat<T>& m) {
   Array2D<T, AF> a(m.r, m.c);
   for(long i = 0; i < m.r; ++i) for(long j = 0; j < m.c; ++j) a.un(i, j) = Strict<T>{m(i, j)};
   return a;
}
template <class T> std::vector<T> iota(long n, long from = 1) {
   std::vector<T> v; for(long i = 0; i < n; ++i) v.push_back(lab<T>(from + i)); return v;
}
template <class T> Mat<T> iota2(long r, long c, long from = 1) {
   Mat<T> m; m.r = r; m.c = c; m.v = iota<T>(r * c, from); return m;
}
