// C02: every operation sequence over two live dynamic 2D arrays against a plain matrix.
#include "lib.hpp"

namespace {
struct Op { int kind; long p, q; };

template <class T> Mat<T> take(const Mat<T>& m, const std::vector<long>& R, const std::vector<long>& C) {
   Mat<T> x; x.r = (long)R.size(); x.c = (long)C.size();
   for(long i : R) for(long j : C) x.v.push_back(m(i, j));
   x.norm(); return x;
}
std::vector<long> rng(long n) { std::vector<long> v; for(long i = 0; i < n; ++i) v.push_back(i); return v; }
std::vector<long> without(long n, long p, long q) { std::vector<long> v; for(long i = 0; i < n; ++i) if(i < p || i >= p + q) v.push_back(i); return v; }
template <class T> Mat<T> ins_rows(const Mat<T>& a, long p, const Mat<T>& b) {
   if(a.v.empty()) return b;
   Mat<T> x; x.r = a.r + b.r; x.c = a.c;
   x.v.assign(a.v.begin(), a.v.begin() + p * a.c); x.v.insert(x.v.end(), b.v.begin(), b.v.end());
   x.v.insert(x.v.end(), a.v.begin() + p * a.c, a.v.end()); return x;
}
template <class T> Mat<T> tr(const Mat<T>& a) { Mat<T> x; x.r = a.c; x.c = a.r; for(long j = 0; j < a.c; ++j) for(long i = 0; i < a.r; ++i) x.v.push_back(a(i, j)); return x; }
template <class T> Mat<T> ins_cols(const Mat<T>& a, long p, const Mat<T>& b) { return tr(ins_rows(tr(a), p, tr(b))); }
template <class T> Mat<T> row1(const std::vector<T>& v) { Mat<T> m; m.r = 1; m.c = (long)v.size(); m.v = v; return m; }
template <class T> Mat<T> col1(const std::vector<T>& v) { Mat<T> m; m.c = 1; m.r = (long)v.size(); m.v = v; return m; }

template <class T, AlignmentFlag AF> struct W {
   using A2 = Array2D<T, AF>;
   static constexpr AlignmentFlag OF = AF == Aligned ? Unaligned : Aligned;
   A2 A, B;
   Mat<T> a, b;
   long fresh = 1;
   long maxd = 4;
   long nf() { long k = fresh++; return k % 9 + 1; }
   std::vector<T> nv(long n) { std::vector<T> v; for(long i = 0; i < n; ++i) v.push_back(lab<T>(nf())); return v; }
   static constexpr bool real = !std::is_same_v<T, bool>;
   static constexpr bool integer = std::is_integral_v<T> && real;
   static Mat<T> cst(long r, long c, T x) { Mat<T> m; m.r = r; m.c = c; m.v.assign(r * c, x); return m; }
   bool fits(long r, long c) const { return r <= maxd && c <= maxd; }

   bool apply(const Op& o) {
      const long n = a.r, m = a.c, p = o.p, q = o.q;
      const bool empty = a.v.empty(), bempty = b.v.empty();
      const bool ss = a.r == b.r && a.c == b.c;
      auto fill_new = [&](long r, long c, long kr, long kc) {  // write every unspecified element
         for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) if(i >= kr || j >= kc) A(i, j) = SL<T>(i * 3 + j);
         Mat<T> x = cst(r, c, T{}); for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) x(i, j) = (i >= kr || j >= kc) ? lab<T>(i * 3 + j) : a(i, j);
         a = x; };
      switch(o.kind) {
      case 0: { long k = nf(); A = SL<T>(k); std::fill(a.v.begin(), a.v.end(), lab<T>(k)); return true; }
      case 1: {
         if(n > 2 || m > 2) return false;
         auto v = nv(n * m);
         if(n == 0) A = use::List2D<Strict<T>>{};
         else if(n == 1 && m == 1) A = use::List2D<Strict<T>>{{S<T>(v[0])}};
         else if(n == 1) A = use::List2D<Strict<T>>{{S<T>(v[0]), S<T>(v[1])}};
         else if(m == 1) A = {{S<T>(v[0])}, {S<T>(v[1])}};
         else A = {{S<T>(v[0]), S<T>(v[1])}, {S<T>(v[2]), S<T>(v[3])}};
         a.v = v; return true; }
      case 2: if(!ss) return false; A = B; a = b; return true;
      case 3: if(!ss) return false; A = std::move(B); a = b; b = {}; return true;
      case 4: { auto& r = A; A = r; return true; }
      case 5: { auto& r = A; A = std::move(r); return true; }
      case 6: A.swap(B); std::swap(a, b); return true;
      case 7: { A2 C(std::move(A)); A.swap(B); B.swap(C); std::swap(a, b); return true; }
      case 8: { long k = nf(); if((p == 0) != (q == 0)) return false; A.swap(A2(p, q, SL<T>(k))); a = cst(p, q, lab<T>(k)); return true; }
      case 9: if((p == 0) != (q == 0)) return false; { long kr = std::min(n, p), kc = std::min(m, q); A.resize(p, q); if(A.rows().val() != p || A.cols().val() != q) return a.r = -1, true; fill_new(p, q, kr, kc); } return true;
      case 10: { if((p == 0) != (q == 0)) return false; bool k = p == n && q == m; A.resize(p, q, false); if(A.rows().val() != p || A.cols().val() != q) return a.r = -1, true; fill_new(p, q, k ? n : 0, k ? m : 0); return true; }
      case 11: A.resize_and_assign(B); a = b; return true;
      case 12: A.resize_and_assign(std::move(B)); a = b; b = {}; return true;
      case 13: A.resize_and_assign(A); return true;
      case 14: { auto& r = A; A.resize_and_assign(std::move(r)); return true; }
      case 15: A.resize_and_assign(transpose(A)); a = tr(a); return true;
      case 16: if((p == 0) != (q == 0)) return false; A.resize_and_assign(A2(p, q, SL<T>(3))); a = cst(p, q, lab<T>(3)); return true;
      case 17: if(!ss) return false; A = B(place::all, place::all); a = b; return true;
      // removal
      case 20: if(p >= n || q < 1 || p + q > n) return false; A.remove_rows(p, q); a = take(a, without(n, p, q), rng(m)); return true;
      case 21: if(p >= m || q < 1 || p + q > m) return false; A.remove_cols(p, q); a = take(a, rng(n), without(m, p, q)); return true;
      case 22: if(p >= n) return false; if(q) A.remove_row(Pos{p}); else A.remove_row(p); a = take(a, without(n, p, 1), rng(m)); return true;
      case 23: if(p >= m) return false; if(q) A.remove_col(Pos{p}); else A.remove_col(p); a = take(a, rng(n), without(m, p, 1)); return true;
      case 24: if(p < 1 || p > n) return false; if(q) A.remove_rows_front(Count{p}); else A.remove_rows_front(p); a = take(a, without(n, 0, p), rng(m)); return true;
      case 25: if(p < 1 || p > n) return false; if(q) A.remove_rows_back(Count{p}); else A.remove_rows_back(p); a = take(a, without(n, n - p, p), rng(m)); return true;
      case 26: if(p < 1 || p > m) return false; if(q) A.remove_cols_front(Count{p}); else A.remove_cols_front(p); a = take(a, rng(n), without(m, 0, p)); return true;
      case 27: if(p < 1 || p > m) return false; if(q) A.remove_cols_back(Count{p}); else A.remove_cols_back(p); a = take(a, rng(n), without(m, m - p, p)); return true;
      case 28: if(p >= n) return false; if(p == 0) A.remove_row(last); else A.remove_row(last - p); a = take(a, without(n, n - 1 - p, 1), rng(m)); return true;
      case 29: if(p >= m) return false; if(p == 0) A.remove_col(last); else A.remove_col(last - p); a = take(a, rng(n), without(m, m - 1 - p, 1)); return true;
      case 30: { if(p >= (1L << n)) return false; std::vector<ImplicitInt> ix; std::vector<long> k; for(long i = 0; i < n; ++i) if(p >> i & 1) ix.push_back(i); else k.push_back(i);
         A.remove_rows(ix); a = take(a, k, rng(m)); return true; }
      case 31: { if(p >= (1L << m)) return false; std::vector<ImplicitInt> ix; std::vector<long> k; for(long i = 0; i < m; ++i) if(p >> i & 1) ix.push_back(i); else k.push_back(i);
         A.remove_cols(ix); a = take(a, rng(n), k); return true; }
      case 32: if(p >= n || q < 1 || p + q > n) return false; A.remove_rows(Pos{p}, Count{q}); a = take(a, without(n, p, q), rng(m)); return true;
      case 33: if(p >= m || q < 1 || p + q > m) return false; A.remove_cols(Pos{p}, Count{q}); a = take(a, rng(n), without(m, p, q)); return true;
      // insertion
      case 40: if(p > n || (!empty && b.c != m) || !fits(n + b.r, m)) return false; if(q) A.insert_rows(Pos{p}, B); else A.insert_rows(p, B); a = ins_rows(a, p, b); return true;
      case 41: if(p > m || (!empty && b.r != n) || !fits(n, m + b.c)) return false; if(q) A.insert_cols(Pos{p}, B); else A.insert_cols(p, B); a = ins_cols(a, p, b); return true;
      case 42: if((!empty && b.c != m) || !fits(n + b.r, m)) return false; A.insert_rows_front(B); a = ins_rows(a, 0, b); return true;
      case 43: if((!empty && b.c != m) || !fits(n + b.r, m)) return false; A.insert_rows_back(B); a = ins_rows(a, n, b); return true;
      case 44: if((!empty && b.r != n) || !fits(n, m + b.c)) return false; A.insert_cols_front(B); a = ins_cols(a, 0, b); return true;
      case 45: if((!empty && b.r != n) || !fits(n, m + b.c)) return false; A.insert_cols_back(B); a = ins_cols(a, m, b); return true;
      case 46: if(p > n || !fits(2 * n, m)) return false; A.insert_rows(p, A); a = ins_rows(a, p, a); return true;
      case 47: if(p > m || !fits(n, 2 * m)) return false; A.insert_cols(p, A); a = ins_cols(a, p, a); return true;
      case 48: { if(p > n || !fits(n + 1, m)) return false; long w = empty ? 2 : m; auto v = nv(w); auto V = mk1<T, AF>(v); if(q) A.insert_row(Pos{p}, V); else A.insert_row(p, V); a = ins_rows(a, p, row1(v)); return true; }
      case 49: { if(p > m || !fits(n, m + 1)) return false; long w = empty ? 2 : n; auto v = nv(w); auto V = mk1<T, AF>(v); if(q) A.insert_col(Pos{p}, V); else A.insert_col(p, V); a = ins_cols(a, p, col1(v)); return true; }
      case 50: { if(!fits(n + 1, m)) return false; long w = empty ? 2 : m; auto v = nv(w); A.insert_row_front(mk1<T, OF>(v)); a = ins_rows(a, 0, row1(v)); return true; }
      case 51: { if(!fits(n + 1, m)) return false; long w = empty ? 3 : m; auto v = nv(w); A.insert_row_back(mk1<T, OF>(v)); a = ins_rows(a, n, row1(v)); return true; }
      case 52: { if(!fits(n, m + 1)) return false; long w = empty ? 2 : n; auto v = nv(w); A.insert_col_front(mk1<T, OF>(v)); a = ins_cols(a, 0, col1(v)); return true; }
      case 53: { if(!fits(n, m + 1)) return false; long w = empty ? 3 : n; auto v = nv(w); A.insert_col_back(mk1<T, OF>(v)); a = ins_cols(a, m, col1(v)); return true; }
      case 54: if(p >= n || q > n || !fits(n + 1, m)) return false; { std::vector<T> v; for(long j = 0; j < m; ++j) v.push_back(a(p, j)); A.insert_row(q, A.row(p)); a = ins_rows(a, q, row1(v)); } return true;
      case 55: if(p >= m || q > m || !fits(n, m + 1)) return false; { std::vector<T> v; for(long i = 0; i < n; ++i) v.push_back(a(i, p)); A.insert_col(q, A.col(p)); a = ins_cols(a, q, col1(v)); } return true;
      // element writes, construction
      case 60: { if(p >= n || q >= m) return false; long k = nf(); A(p, q) = SL<T>(k); a(p, q) = lab<T>(k); return true; }
      case 61: { if(p >= n || q >= m) return false; long k = nf(); A(last - p, last - q) = SL<T>(k); a(n - 1 - p, m - 1 - q) = lab<T>(k); return true; }
      case 62: { A2 C(A); C.swap(A); C = SL<T>(0); return true; }
      case 63: { A2 C(std::move(A)); bool e = A.empty().val() && A.rows().val() == 0 && A.cols().val() == 0 && A.size().val() == 0 && A.data() == nullptr; A.resize_and_assign(C); if(!e) a.r = -1; return true; }
      case 64: { A2 C = A.eval(); A.swap(C); return true; }
      case 65: { Array2D<T, OF> C(B); A.resize_and_assign(C); a = b; return true; }
      case 66: { B.resize_and_assign(A); b = a; return true; }
      case 67: { A2 C(Rows{n}, Cols{m}, Value{SL<T>(4)}); A2 D(Rows{n}, Cols{m}); D = SL<T>(4); A = D; a = cst(n, m, lab<T>(4)); if(!(A == C).val()) a.r = -1; return true; }
      case 68: { if(n == 0) { A2 D(use::List2D<Strict<T>>{}); A.swap(D); return true; } if(n > 2 || m > 2) return false; A2 D;
         if(n == 1 && m == 1) { A2 E(use::List2D<Strict<T>>{{S<T>(a(0, 0))}}); D.swap(E); } else if(n == 1) { A2 E(use::List2D<Strict<T>>{{S<T>(a(0, 0)), S<T>(a(0, 1))}}); D.swap(E); }
         else if(m == 1) { A2 E(use::List2D<Strict<T>>{{S<T>(a(0, 0))}, {S<T>(a(1, 0))}}); D.swap(E); } else { A2 E(use::List2D<Strict<T>>{{S<T>(a(0, 0)), S<T>(a(0, 1))}, {S<T>(a(1, 0)), S<T>(a(1, 1))}}); D.swap(E); }
         A = std::move(D); return true; }
      case 69: { A.swap(A2{}); a = {}; return true; }
      case 90: { A.view1D() = SL<T>(2); std::fill(a.v.begin(), a.v.end(), lab<T>(2)); return true; }
      }
      (void)bempty;
      if constexpr(real) switch(o.kind) {
      case 70: A += SL<T>(3); for(auto& x : a.v) x += 3; return true;
      case 71: A *= SL<T>(2); for(auto& x : a.v) x *= 2; return true;
      case 72: A /= SL<T>(2); for(auto& x : a.v) x /= 2; return true;
      case 73: if(!ss) return false; A += B; for(std::size_t i = 0; i < a.v.size(); ++i) a.v[i] += b.v[i]; return true;
      case 74: if(!ss) return false; A *= B; for(std::size_t i = 0; i < a.v.size(); ++i) a.v[i] *= b.v[i]; return true;
      case 75: if(!ss || std::is_unsigned_v<T>) return false; A -= B; for(std::size_t i = 0; i < a.v.size(); ++i) a.v[i] -= b.v[i]; return true;
      case 76: A += A; for(auto& x : a.v) x += x; return true;
      case 77: if(!ss) return false; for(T x : b.v) if(x == 0) return false; A /= B; for(std::size_t i = 0; i < a.v.size(); ++i) a.v[i] /= b.v[i]; return true;
      }
      if constexpr(integer) switch(o.kind) {
      case 80: A %= SL<T>(4); for(auto& x : a.v) x %= 4; return true;
      case 81: A ^= SL<T>(3); for(auto& x : a.v) x ^= 3; return true;
      case 82: if(!ss) return false; A |= B; for(std::size_t i = 0; i < a.v.size(); ++i) a.v[i] |= b.v[i]; return true;
      }
      return false;
   }
   bool big() const { if constexpr(real) for(auto x : a.v) if(x > T(5000) || (std::is_signed_v<T> && x < T(-5000))) return true; return false; }
   static bool obs(const A2& X, const Mat<T>& x) {
      if(!agree2(X, x)) return false;
      const Strict<T>* d = X.data();
      if(x.v.empty()) { if(d != nullptr || X.rows().val() || X.cols().val()) return false; }
      else {
         if(d == nullptr || &X.un(0) != d || &X.un(0, 0) != d) return false;
         if(AF == Aligned && reinterpret_cast<std::uintptr_t>(d) % 64) return false;
         for(std::size_t i = 0; i < x.v.size(); ++i) if(!same(d[i].val(), T(x.v[i]))) return false;
      }
      return X.bytes().val() == long(x.v.size() * sizeof(T));
   }
   bool check() const {
      if(!obs(A, a) || !obs(B, b)) return false;
      if(!a.v.empty() && A.data() == B.data()) return false;
      return (A == B).val() == (a.r == b.r && a.c == b.c && samev(a.v, b.v));
   }
};

std::vector<Op> alphabet(int level) {
   std::vector<Op> v;
   auto add = [&](int k, std::vector<long> P = {0}, std::vector<long> Q = {0}) { for(long p : P) for(long q : Q) v.push_back({k, p, q}); };
   const std::vector<long> d3{0, 1, 2, 3}, d2{0, 1, 2}, c{1, 2, 3};
   add(0); add(1); add(2); add(3); add(4); add(5); add(6); add(7);
   if(level) { add(8, d3, d3); add(9, d3, d3); add(10, d3, d3); } else { add(8, {2}, {3}); add(9, {0, 1, 3}, {0, 2, 3}); add(10, {2, 3}, {2, 1}); }
   add(11); add(12); add(13); add(14); add(15); add(16, {0, 2}, {0, 3}); add(17);
   if(level) { add(20, d3, c); add(21, d3, c); add(22, d3, {0, 1}); add(23, d3, {0, 1}); for(int k = 24; k < 28; ++k) add(k, c, {0, 1}); add(28, d3); add(29, d3); for(long m = 0; m < 16; ++m) { add(30, {m}); add(31, {m}); } add(32, d3, c); add(33, d3, c); }
   else { add(20, d2, {1, 2}); add(21, d2, {1, 2}); for(int k = 24; k < 28; ++k) add(k, {1, 2}); add(28, {0, 1}); add(29, {0, 1}); add(30, {1, 2, 3, 5}); add(31, {1, 2, 3, 5}); }
   if(level) { add(40, d3, {0, 1}); add(41, d3, {0, 1}); for(int k = 42; k < 46; ++k) add(k); add(46, d3); add(47, d3); add(48, d3, {0, 1}); add(49, d3, {0, 1}); for(int k = 50; k < 54; ++k) add(k); add(54, d2, d3); add(55, d2, d3); }
   else { add(40, d2); add(41, d2); add(46, {0, 1}); add(47, {0, 1}); add(48, d2); add(49, d2); add(51); add(53); add(54, {0, 1}, {0, 2}); add(55, {0, 1}, {0, 2}); }
   add(60, {0, 1}, {0, 1}); add(61, {0, 1}, {0, 1}); for(int k = 62; k < 70; ++k) add(k); add(90);
   if(level) for(int k : {70, 71, 72, 73, 74, 75, 76, 77, 80, 81, 82}) add(k); else { add(70); add(73); }
   return v;
}

template <class T, AlignmentFlag AF> void explore(int level, int depth, int part, int parts) {
   auto ops = alphabet(level);
   using P4 = std::array<int, 4>;
   const std::vector<P4> inits = level ? std::vector<P4>{{0,0,0,0}, {1,1,1,1}, {1,2,1,2}, {2,1,2,1}, {2,2,2,2}, {2,3,1,3}, {3,2,3,1}, {3,3,2,3}, {1,3,3,1}, {0,0,2,2}, {2,3,2,3}}
                                       : std::vector<P4>{{0,0,2,2}, {2,2,2,1}, {2,3,1,3}};
   std::vector<int> seq(depth);
   for(auto [n0, m0, r0, c0] : inits) {
      auto run = [&](int d) -> int {
         bool viol = false;
         const long base = mc::live_blocks;
         int r = d;
         {
            W<T, AF> w;
            w.a = iota2<T>(n0, m0, 1); w.b = iota2<T>(r0, c0, 11);
            w.A.resize_and_assign(mk2<T, AF>(w.a)); w.B.resize_and_assign(mk2<T, AF>(w.b));
            mc::at("%s/%s A=%dx%d B=%dx%d:", tname<T>(), AF == Aligned ? "aligned" : "unaligned", n0, m0, r0, c0);
            for(int i = 0; i < d; ++i) {
               const Op& o = ops[seq[i]];
               if(w.big()) { r = i; break; }
               mc::at_add(" op%d(%ld,%ld)", o.kind, o.p, o.q);
               auto name = [&] { return "op" + std::to_string(o.kind) + "(" + std::to_string(o.p) + "," + std::to_string(o.q) + ")"; };
               bool ok;
               try { ok = w.apply(o); }
               catch(const StrictException& e) { mc::fail("2d-seq-throws:" + name(), "valid operation was rejected: %s", e.what()); viol = true; r = i; break; }
               if(!ok) { r = i; break; }
               mc::step();
               if(i == d - 1 && !w.check()) {
                  mc::fail("2d-seq:" + std::string(tname<T>()) + (AF == Aligned ? "/al:" : "/un:") + name(),
                           "expected A=%s B=%s, got A=%s B=%s", str(w.a).c_str(), str(w.b).c_str(), str(elems2(w.A)).c_str(), str(elems2(w.B)).c_str());
                  viol = true; r = i; break;
               }
            }
            if(r == d) { mc::state(hash_(w.b, hash_(w.a))); mc::trace(); }
         }
         if(mc::live_blocks != base && !viol) mc::fail("2d-leak", "%ld blocks alive after all arrays died", mc::live_blocks - base);
         return r;
      };
      std::function<void(int)> rec = [&](int d) {
         for(int o = 0; o < (int)ops.size(); ++o) {
            if(d == 0 && o % parts != part) continue;
            seq[d] = o;
            if(run(d + 1) <= d) continue;
            if(d + 1 < depth) rec(d + 1);
         }
      };
      rec(0);
   }
}

// Larger shapes (beyond any block size) with one edit each.
template <class T, AlignmentFlag AF> void large() {
   const std::vector<std::pair<long, long>> shapes{{1, 65}, {65, 1}, {8, 8}, {8, 9}, {9, 8}, {7, 9}, {16, 17}, {33, 5}, {5, 33}, {64, 3}, {3, 64}, {66, 67}};
   for(auto [n, m] : shapes) {
      auto a0 = iota2<T>(n, m, 1);
      auto go = [&](const char* nm, long p, long q, auto f) {
         mc::at("%s/%d %ldx%ld %s p=%ld q=%ld", tname<T>(), AF, n, m, nm, p, q);
         W<T, AF> w; w.maxd = 1000; w.a = a0; w.b = iota2<T>(3, m, 5); w.A.resize_and_assign(mk2<T, AF>(w.a)); w.B.resize_and_assign(mk2<T, AF>(w.b));
         bool ok = f(w); mc::step();
         if(!ok || !w.check()) mc::fail(std::string("2d-large:") + nm, "mismatch at %ldx%ld p=%ld q=%ld", n, m, p, q);
         mc::state(hash_(w.b, hash_(w.a))); mc::trace();
      };
      for(int k : {20, 21}) for(long p : {0L, 1L, (k == 20 ? n : m) / 2, (k == 20 ? n : m) - 1}) for(long q : {1L, 2L, 7L, (k == 20 ? n : m) - p})
         if(p >= 0 && q >= 1 && p + q <= (k == 20 ? n : m)) go(k == 20 ? "remove_rows" : "remove_cols", p, q, [&](auto& w) { return w.apply({k, p, q}); });
      for(int k : {46, 47, 48, 49, 40}) for(long p : {0L, 1L, (k % 2 ? m : n) / 2, (k % 2 ? m : n)}) if(p <= (k % 2 ? m : n)) go("insert", k, p, [&](auto& w) { return w.apply({k, p, 0}); });
      for(long r : {0L, 1L, n - 1, n, n + 1, n + 64}) for(long c : {0L, 1L, m - 1, m, m + 1, m + 64}) if((r == 0) == (c == 0)) { go("resize", r, c, [&](auto& w) { return w.apply({9, r, c}); }); go("resize_discard", r, c, [&](auto& w) { return w.apply({10, r, c}); }); }
      go("reshape-discard", m, n, [&](auto& w) { return w.apply({10, m, n}); });
      go("transpose", 0, 0, [&](auto& w) { return w.apply({15, 0, 0}); });
      for(int k : {0, 4, 5, 6, 7, 11, 12, 13, 14, 62, 63, 64, 65, 66, 67}) go("misc", k, 0, [&](auto& w) { return w.apply({k, 0, 0}); });
      go("remove_odd_rows", 0, 0, [&](auto& w) { std::vector<ImplicitInt> ix; std::vector<long> k; for(long i = 0; i < n; ++i) if(i % 2) ix.push_back(i); else k.push_back(i); w.A.remove_rows(ix); w.a = take(w.a, k, rng(m)); return true; });
      go("remove_odd_cols", 0, 0, [&](auto& w) { std::vector<ImplicitInt> ix; std::vector<long> k; for(long i = 0; i < m; ++i) if(i % 2) ix.push_back(i); else k.push_back(i); w.A.remove_cols(ix); w.a = take(w.a, rng(n), k); return true; });
   }
}
}  // namespace

template <class... Ts> struct TL {};
template <class T> void reg() {
   std::string n = tname<T>();
   auto addu = [&](std::string s, std::function<void()> f, bool deep = false) { mc::units().push_back({s, f, deep}); };
   for(int p = 0; p < 4; ++p) {
      addu("depth2/" + n + "/unaligned/" + std::to_string(p), [p] { explore<T, Unaligned>(1, 2, p, 4); });
      addu("depth2/" + n + "/aligned/" + std::to_string(p), [p] { explore<T, Aligned>(1, 2, p, 4); });
   }
   addu("large/" + n + "/unaligned", [] { large<T, Unaligned>(); });
   addu("large/" + n + "/aligned", [] { large<T, Aligned>(); });
#ifdef C02_DEEP
   for(int p = 0; p < 16; ++p) {
      addu("depth3/" + n + "/unaligned/" + std::to_string(p), [p] { explore<T, Unaligned>(mc::thorough ? 1 : 0, 3, p, 16); });
      addu("depth3/" + n + "/aligned/" + std::to_string(p), [p] { explore<T, Aligned>(0, 3, p, 16); }, true);
      addu("depth4/" + n + "/" + std::to_string(p), [p] { explore<T, Unaligned>(0, 4, p, 16); }, true);
   }
#endif
}
template <class... Ts> void regall(TL<Ts...>) { (reg<Ts>(), ...); }
static int dummy = (regall(TL<C02_TYPES>{}), 0);
