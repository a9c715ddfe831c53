// Slice descriptors: a run-time description, its reference meaning, and its application to any object.
#pragma once
#include "lib.hpp"

enum DK { SEQN, SEQN_W, SEQ, SEQ_W, ALL, EVEN, ODD, REV, SKIP, FIRSTN, LASTN, VEC, COMPL, ILIST, CLIST };
struct D { DK k; long a = 0, b = 0, c = 0; std::vector<long> v = {}; };

inline std::string show(const D& d) {
   static const char* nm[] = {"seqN", "seqN{First,Size,Stride}", "seq", "seq{First,Endmost,Stride}", "all", "even", "odd", "reverse", "skipN", "firstN", "lastN", "vector", "complement", "list", "complement-list"};
   std::string s = nm[d.k];
   if(d.k <= SEQ_W) return s + "(" + std::to_string(d.a) + "," + std::to_string(d.b) + "," + std::to_string(d.c) + ")";
   if(d.k >= SKIP && d.k <= LASTN) return s + "(" + std::to_string(d.a) + ")";
   if(d.k >= VEC) { s += "{"; for(long x : d.v) s += std::to_string(x) + " "; return s + "}"; }
   return s;
}

// Reference: positions selected in a range of n elements; false when the selection must be rejected.
inline bool pick(const D& d, long n, std::vector<long>& out) {
   out.clear();
   using I = __int128;
   auto lin = [&](I st, I cnt, I stride) {
      if(cnt == 0) return true;
      I lastp = st + stride * (cnt - 1);
      if(st < 0 || st >= n || lastp < 0 || lastp >= n) return false;
      if(cnt > 4096) return true;
      for(I i = 0; i < cnt; ++i) out.push_back(long(st + i * stride));
      return true;
   };
   switch(d.k) {
   case SEQN: case SEQN_W: return d.a >= 0 && d.b >= 0 && lin(d.a, d.b, d.c);
   case SEQ: case SEQ_W:
      if(d.a < 0 || d.b < 0 || n == 0 || d.a >= n || d.b >= n) return false;
      if(d.c == 0) return d.a == d.b && lin(d.a, 1, 0);
      if(d.c > 0 ? d.a > d.b : d.a < d.b) return false;
      return lin(d.a, ((I)d.b - d.a) / d.c + 1, d.c);
   case ALL: return lin(0, n, 1);
   case EVEN: return lin(0, (n + 1) / 2, 2);
   case ODD: return lin(1, n / 2, 2);
   case REV: return lin(n - 1, n, -1);
   case SKIP: return d.a > 0 && lin(0, (I(n) + d.a - 1) / d.a, d.a);
   case FIRSTN: return d.a >= 0 && d.a <= n && lin(0, d.a, 1);
   case LASTN: return d.a >= 0 && d.a <= n && lin(I(n) - d.a, d.a, 1);
   case VEC: case ILIST: for(long x : d.v) { if(x < 0 || x >= n) return false; out.push_back(x); } return true;
   case COMPL: case CLIST: {
      for(std::size_t i = 0; i < d.v.size(); ++i) { if(d.v[i] < 0 || d.v[i] >= n) return false; if(i && d.v[i] <= d.v[i - 1]) return false; }
      for(long i = 0; i < n; ++i) if(std::find(d.v.begin(), d.v.end(), i) == d.v.end()) out.push_back(i);
      return true; }
   }
   return false;
}
inline std::vector<ImplicitInt> imp(const std::vector<long>& v) { std::vector<ImplicitInt> r; for(long x : v) r.push_back(x); return r; }

// Calls f(slice) with the library's slice object(s) for d. Two instantiations per object: linear and vector.
template <class F> void with_slice(const D& d, F&& f) {
   switch(d.k) {
   case SEQN: if(d.c == 1) f(seqN{d.a, d.b}); else f(seqN{d.a, d.b, d.c}); break;
   case SEQN_W: f(seqN{First{d.a}, Size{d.b}, Stride{d.c}}); break;
   case SEQ: if(d.c == 1) f(seq{d.a, d.b}); else f(seq{d.a, d.b, d.c}); break;
   case SEQ_W: f(seq{First{d.a}, Endmost{d.b}, Stride{d.c}}); break;
   case ALL: f(place::all); break;
   case EVEN: f(place::even); break;
   case ODD: f(place::odd); break;
   case REV: f(place::reverse); break;
   case SKIP: f(place::skipN{d.a}); break;
   case FIRSTN: f(place::firstN{d.a}); break;
   case LASTN: f(place::lastN{d.a}); break;
   case VEC: f(imp(d.v)); break;
   case COMPL: f(place::complement{imp(d.v)}); break;
   case CLIST:
      if(d.v.size() == 1) f(place::complement{d.v[0]});
      else if(d.v.size() == 2) f(place::complement{d.v[0], d.v[1]});
      else if(d.v.size() == 3) f(place::complement{d.v[0], d.v[1], d.v[2]});
      else f(place::complement{std::initializer_list<ImplicitInt>{}});
      break;
   case ILIST: f(imp(d.v)); break;  // the list overloads are called where they exist
   }
}

// Descriptor domains. full: everything around a range of n; mid / tiny: for nesting.
inline std::vector<D> dom_full(long n) {
   std::vector<D> r;
   const long M = std::numeric_limits<long>::max();
   for(long a = -1; a <= n + 1; ++a) for(long b = -1; b <= n + 1; ++b) for(long c = -n - 1; c <= n + 1; ++c) { r.push_back({SEQN, a, b, c}); r.push_back({SEQ, a, b, c}); }
   for(long a = -1; a <= n + 1; a += 1) for(long b = 0; b <= n + 1; b += 1) for(long c : {-2L, -1L, 1L, 2L}) { r.push_back({SEQN_W, a, b, c}); r.push_back({SEQ_W, a, b, c}); }
   for(long e : {M, M - 1, M / 2, -M, -M - 1, M / 2 + 1, -M / 2}) {
      for(long x = 0; x <= n; x += (n > 1 ? n : 1)) for(long y : {0L, 1L, n}) {
         r.push_back({SEQN, e, x, y}); r.push_back({SEQN, x, e, y}); r.push_back({SEQN, x, y, e});
         r.push_back({SEQ, e, x, y}); r.push_back({SEQ, x, e, y}); r.push_back({SEQ, x, y, e});
         r.push_back({SEQN, e, e, y}); r.push_back({SEQN, x, e, e}); r.push_back({SEQ, e, e, e});
      }
      r.push_back({SKIP, e}); r.push_back({FIRSTN, e}); r.push_back({LASTN, e}); r.push_back({VEC, 0, 0, 0, {e}}); r.push_back({COMPL, 0, 0, 0, {e}}); r.push_back({VEC, 0, 0, 0, {0, e}}); r.push_back({COMPL, 0, 0, 0, {0, e}});
   }
   for(DK k : {ALL, EVEN, ODD, REV}) r.push_back({k});
   for(long a = -1; a <= n + 2; ++a) { r.push_back({SKIP, a}); r.push_back({FIRSTN, a}); r.push_back({LASTN, a}); }
   r.push_back({VEC}); r.push_back({COMPL}); r.push_back({CLIST});
   for(long a = -1; a <= n; ++a) {
      r.push_back({VEC, 0, 0, 0, {a}}); r.push_back({COMPL, 0, 0, 0, {a}}); r.push_back({CLIST, 0, 0, 0, {a}}); r.push_back({ILIST, 0, 0, 0, {a}});
      for(long b = -1; b <= n; ++b) {
         r.push_back({VEC, 0, 0, 0, {a, b}}); r.push_back({COMPL, 0, 0, 0, {a, b}}); r.push_back({CLIST, 0, 0, 0, {a, b}}); r.push_back({ILIST, 0, 0, 0, {a, b}});
         for(long c = 0; c <= n; ++c) { r.push_back({VEC, 0, 0, 0, {a, b, c}}); r.push_back({ILIST, 0, 0, 0, {a, b, c}}); r.push_back({COMPL, 0, 0, 0, {a, b, c}}); r.push_back({CLIST, 0, 0, 0, {a, b, c}}); }
      }
   }
   for(long m = 0; m < (1L << std::min(n, 6L)); ++m) { D d{COMPL}; for(long i = 0; i < n; ++i) if(m >> i & 1) d.v.push_back(i); r.push_back(d); }
   return r;
}
inline std::vector<D> dom_mid(long n) {
   std::vector<D> r;
   for(long a = 0; a <= n; ++a) for(long b = 0; b <= n + 1; ++b) for(long c : {-2L, -1L, 0L, 1L, 2L, 3L}) r.push_back({SEQN, a, b, c});
   for(long a = 0; a < n; ++a) for(long b = 0; b <= n; ++b) for(long c : {-2L, -1L, 1L, 2L}) r.push_back({SEQ, a, b, c});
   for(DK k : {ALL, EVEN, ODD, REV}) r.push_back({k});
   for(long a = 0; a <= n + 1; ++a) { r.push_back({SKIP, a}); r.push_back({FIRSTN, a}); r.push_back({LASTN, a}); }
   r.push_back({VEC}); r.push_back({COMPL});
   for(long a = 0; a <= n; ++a) { r.push_back({VEC, 0, 0, 0, {a, 0}}); r.push_back({COMPL, 0, 0, 0, {a}}); r.push_back({ILIST, 0, 0, 0, {a, 0}}); }
   return r;
}
inline std::vector<D> dom_tiny(long n) {
   std::vector<D> r;
   r.push_back({SEQN, n > 1 ? 1 : 0, n > 1 ? n - 1 : n, 1}); r.push_back({SEQN, n - 1, (n + 1) / 2, -2}); r.push_back({SEQN, 0, n + 1, 1}); r.push_back({SEQN, 0, 0, 1}); r.push_back({SEQN, n - 1, n, -1});
   r.push_back({SEQ, n - 1, 0, -1}); r.push_back({SEQ, 0, n - 1, 2}); r.push_back({SEQ, 1, n, 1}); r.push_back({SEQN, 0, 2, n - 1});
   for(DK k : {ALL, EVEN, ODD, REV}) r.push_back({k});
   r.push_back({SKIP, 2}); r.push_back({SKIP, 3}); r.push_back({FIRSTN, n - 1}); r.push_back({LASTN, n - 1}); r.push_back({LASTN, n + 1});
   r.push_back({VEC, 0, 0, 0, {n - 1, 0}}); r.push_back({VEC, 0, 0, 0, {n}}); r.push_back({COMPL, 0, 0, 0, {0}}); r.push_back({COMPL, 0, 0, 0, {n - 1}}); r.push_back({VEC});
   return r;
}
