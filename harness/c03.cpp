// C03: every mutating operation, valid or not, with the k-th allocation failing for every k, in chains:
// a failed operation must leave every operand as it was, and nothing may leak.
#include "lib.hpp"

namespace {
constexpr long HUGE_ = std::numeric_limits<long>::max();
using Ix = std::vector<ImplicitInt>;
std::vector<long> dom(long n, bool wide) { std::vector<long> v{-1, 0, 1}; for(long i = 2; i <= n + 1; ++i) v.push_back(i); if(wide) { v.push_back(HUGE_); v.push_back(-HUGE_); } return v; }

template <class World> struct Op {
   std::string name;
   std::function<void(World&)> real;
   std::function<bool(World&)> model;  // false: must be rejected (and nothing changes)
};

template <class T> bool inc(const std::vector<long>& v, long n) { long p = -1; for(long x : v) { if(x <= p || x >= n) return false; p = x; } return true; }

// ---------------------------------------------------------------- 1D
template <class T, AlignmentFlag AF> struct W1 {
   using A1 = Array1D<T, AF>;
   A1 A, B; Array2D<T> C;
   std::vector<T> a, b; Mat<T> c;
   W1() = default;
   void init(long n, long m) { a = iota<T>(n, 1); b = iota<T>(m, 11); c = iota2<T>(2, 2, 21); A.resize_and_assign(mk1<T, AF>(a)); B.resize_and_assign(mk1<T, AF>(b)); C.resize_and_assign(mk2<T, Unaligned>(c)); }
   bool check() const {
      return agree1(A, a) && agree1(B, b) && agree2(C, c) && (A.data() == nullptr) == a.empty() && (B.data() == nullptr) == b.empty() && (a.empty() || b.empty() || A.data() != B.data());
   }
   std::string show() const { return "A=" + str(elems(A)) + " B=" + str(elems(B)) + " expected A=" + str(a) + " B=" + str(b); }
   std::uint64_t hash() const { return hash_(b, hash_(a)); }
   using O = Op<W1>;
   static std::vector<O> ops(long n, bool full) {
      std::vector<O> r;
      constexpr bool real_ = !std::is_same_v<T, bool>;
      auto add = [&](std::string nm, auto f, auto g) { r.push_back({std::move(nm), f, g}); };
      auto s = [](long x) { return std::to_string(x); };
      auto erase = [](W1& w, long p, long q) { long n = (long)w.a.size(); if(p < 0 || q < 1 || p >= n || q > n - p) return false; w.a.erase(w.a.begin() + p, w.a.begin() + p + q); return true; };
      auto ins = [](W1& w, long p, std::vector<T> v) { if(p < 0 || p > (long)w.a.size()) return false; w.a.insert(w.a.begin() + p, v.begin(), v.end()); return true; };
      for(long p : dom(n, full)) {
         for(long q : dom(n, full)) { add("remove(" + s(p) + "," + s(q) + ")", [=](W1& w) { w.A.remove(p, q); }, [=](W1& w) { return erase(w, p, q); }); }
         if(p >= 0 && p < HUGE_) add("remove(Pos,Count 2)" + s(p), [=](W1& w) { w.A.remove(Pos{p}, Count{2}); }, [=](W1& w) { return erase(w, p, 2); });
         add("remove(last-" + s(p) + ")", [=](W1& w) { if(p == 0) w.A.remove(last); else if(p > -HUGE_ && p < HUGE_) w.A.remove(last - p); else throw StrictException(""); }, [=](W1& w) { return p > -HUGE_ && p < HUGE_ && erase(w, (long)w.a.size() - 1 - p, 1); });
         add("remove_front" + s(p), [=](W1& w) { w.A.remove_front(p); }, [=](W1& w) { return erase(w, 0, p); });
         add("remove_back" + s(p), [=](W1& w) { w.A.remove_back(p); }, [=](W1& w) { return p >= 1 && p <= (long)w.a.size() && erase(w, (long)w.a.size() - p, p); });
         add("insert" + s(p), [=](W1& w) { w.A.insert(p, SL<T>(5)); }, [=](W1& w) { return ins(w, p, {lab<T>(5)}); });
         add("insertB" + s(p), [=](W1& w) { w.A.insert(p, w.B); }, [=](W1& w) { return ins(w, p, w.b); });
         add("insertA" + s(p), [=](W1& w) { w.A.insert(p, w.A); }, [=](W1& w) { return ins(w, p, w.a); });
         add("insertRev" + s(p), [=](W1& w) { w.A.insert(p, w.A(place::reverse)); }, [=](W1& w) { auto v = w.a; std::reverse(v.begin(), v.end()); return ins(w, p, v); });
         add("resize" + s(p), [=](W1& w) { w.A.resize(p); long k = (long)w.a.size(); for(long i = k; i < p; ++i) w.A[i] = SL<T>(i); }, [=](W1& w) { if(p < 0 || p == HUGE_) return false; long k = (long)w.a.size(); w.a.resize(p); for(long i = k; i < p; ++i) w.a[i] = lab<T>(i); return true; });
         add("resize-discard" + s(p), [=](W1& w) { w.A.resize(p, false); if(p != (long)w.a.size()) w.A = SL<T>(6); }, [=](W1& w) { if(p < 0 || p == HUGE_) return false; if(p != (long)w.a.size()) w.a.assign(p, lab<T>(6)); return true; });
         add("swap(A1(" + s(p) + ",x))", [=](W1& w) { w.A.swap(A1(p, SL<T>(4))); }, [=](W1& w) { if(p < 0 || p == HUGE_) return false; w.a.assign(p, lab<T>(4)); return true; });
         add("ctor(" + s(p) + ")", [=](W1&) { A1 x(p); (void)x; }, [=](W1&) { return p >= 0 && p < HUGE_; });
         if(p >= -1 && p < HUGE_) for(long q : {0L, 1L, 2L}) { if(p == -1 && q) continue;
            Ix ix; std::vector<long> lv; for(long x : {q, p}) { ix.push_back(x); lv.push_back(x); }
            add("remove{" + s(q) + "," + s(p) + "}", [=](W1& w) { w.A.remove(ix); }, [=](W1& w) { if(!inc<T>(lv, (long)w.a.size())) return false; w.a.erase(w.a.begin() + lv[1]); w.a.erase(w.a.begin() + lv[0]); return true; }); }
      }
      add("remove{}", [](W1& w) { w.A.remove(Ix{}); }, [](W1&) { return true; });
      add("insert_front", [](W1& w) { w.A.insert_front(SL<T>(7)); }, [=](W1& w) { return ins(w, 0, {lab<T>(7)}); });
      add("insert_back", [](W1& w) { w.A.insert_back(SL<T>(7)); }, [=](W1& w) { return ins(w, (long)w.a.size(), {lab<T>(7)}); });
      add("insert_frontB", [](W1& w) { w.A.insert_front(w.B); }, [=](W1& w) { return ins(w, 0, w.b); });
      add("insert_backB", [](W1& w) { w.A.insert_back(w.B); }, [=](W1& w) { return ins(w, (long)w.a.size(), w.b); });
      add("A=B", [](W1& w) { w.A = w.B; }, [](W1& w) { if(w.a.size() != w.b.size()) return false; w.a = w.b; return true; });
      // move assignment of arrays of another size is noexcept and stops the program: only equal sizes here
      add("A=move(B)", [](W1& w) { if(w.A.size() == w.B.size()) w.A = std::move(w.B); else throw StrictException(""); }, [](W1& w) { if(w.a.size() != w.b.size()) return false; w.a = w.b; w.b.clear(); return true; });
      add("A=A", [](W1& w) { auto& q = w.A; w.A = q; }, [](W1&) { return true; });
      add("A=B(reverse)", [](W1& w) { w.A = w.B(place::reverse); }, [](W1& w) { if(w.a.size() != w.b.size()) return false; w.a.assign(w.b.rbegin(), w.b.rend()); return true; });
      add("A={x,y}", [](W1& w) { w.A = {SL<T>(8), SL<T>(9)}; }, [](W1& w) { if(w.a.size() != 2) return false; w.a = {lab<T>(8), lab<T>(9)}; return true; });
      add("A={}", [](W1& w) { w.A = use::List1D<Strict<T>>{}; }, [](W1& w) { return w.a.empty(); });
      add("A(all)=B", [](W1& w) { w.A(place::all) = w.B; }, [](W1& w) { if(w.a.size() != w.b.size()) return false; w.a = w.b; return true; });
      add("A(first1)=B", [](W1& w) { w.A(place::firstN{1}) = w.B; }, [](W1& w) { if(w.a.empty() || w.b.size() != 1) return false; w.a[0] = w.b[0]; return true; });
      add("A{0,9}=x", [](W1& w) { w.A({0, 9}) = SL<T>(3); }, [](W1&) { return false; });
      add("resize_and_assign(B)", [](W1& w) { w.A.resize_and_assign(w.B); }, [](W1& w) { w.a = w.b; return true; });
      add("resize_and_assign(move B)", [](W1& w) { w.A.resize_and_assign(std::move(w.B)); }, [](W1& w) { w.a = w.b; w.b.clear(); return true; });
      add("resize_and_assign(A)", [](W1& w) { w.A.resize_and_assign(w.A); }, [](W1&) { return true; });
      add("resize_and_assign(rev A)", [](W1& w) { w.A.resize_and_assign(w.A(place::reverse)); }, [](W1& w) { std::reverse(w.a.begin(), w.a.end()); return true; });
      add("resize_and_assign(merge(A,B))", [](W1& w) { w.A.resize_and_assign(merge(w.A, w.B)); }, [](W1& w) { w.a.insert(w.a.end(), w.b.begin(), w.b.end()); return true; });
      add("A1(A).swap", [](W1& w) { A1 x(w.A); x.swap(w.B); }, [](W1& w) { w.b = w.a; return true; });
      add("A1(iter).swap", [](W1& w) { A1 x(w.A.begin(), w.A.end()); x.swap(w.B); }, [](W1& w) { w.b = w.a; return true; });
      add("A1(end,begin)", [](W1& w) { A1 x(w.A.end(), w.A.begin()); }, [](W1& w) { return w.a.empty(); });
      add("A1{list}.swap", [](W1& w) { A1 x{SL<T>(1), SL<T>(2)}; x.swap(w.B); }, [](W1& w) { w.b = {lab<T>(1), lab<T>(2)}; return true; });
      add("eval", [](W1& w) { auto x = w.A.eval(); w.B.swap(x); }, [](W1& w) { w.b = w.a; return true; });
      add("move ctor", [](W1& w) { A1 x(std::move(w.A)); w.A.swap(x); }, [](W1&) { return true; });
      add("A=C.row(0)", [](W1& w) { w.A = w.C.row(0); }, [](W1& w) { if(w.a.size() != 2) return false; w.a = {w.c(0, 0), w.c(0, 1)}; return true; });
      add("A=C.row(9)", [](W1& w) { w.A = w.C.row(9); }, [](W1&) { return false; });
      add("C.row(1)=A", [](W1& w) { w.C.row(1) = w.A; }, [](W1& w) { if(w.a.size() != 2) return false; w.c(1, 0) = w.a[0]; w.c(1, 1) = w.a[1]; return true; });
      add("C.insert_row(0,A)", [](W1& w) { w.C.insert_row(0, w.A); }, [](W1& w) { if(w.a.size() != 2 || w.c.r > 3 || w.c.c != 2) return false; w.c.v.insert(w.c.v.begin(), w.a.begin(), w.a.end()); ++w.c.r; return true; });
      add("C.view1D=A", [](W1& w) { w.C.view1D() = w.A; }, [](W1& w) { if(w.a.size() != w.c.v.size()) return false; w.c.v = w.a; return true; });
      if constexpr(real_) {
         add("A+=B", [](W1& w) { w.A += w.B; }, [](W1& w) { if(w.a.size() != w.b.size()) return false; for(std::size_t i = 0; i < w.a.size(); ++i) w.a[i] += w.b[i]; return true; });
         add("A*=B", [](W1& w) { w.A *= w.B; }, [](W1& w) { if(w.a.size() != w.b.size()) return false; for(std::size_t i = 0; i < w.a.size(); ++i) w.a[i] *= w.b[i]; return true; });
         add("A+=A(rev)+B", [](W1& w) { w.A += w.B(place::reverse) + w.B; }, [](W1& w) { if(w.a.size() != w.b.size()) return false; for(std::size_t i = 0; i < w.a.size(); ++i) w.a[i] += w.b[i] + w.b[w.b.size() - 1 - i]; return true; });
         add("A=A+B", [](W1& w) { w.A = w.A + w.B; }, [](W1& w) { if(w.a.size() != w.b.size()) return false; for(std::size_t i = 0; i < w.a.size(); ++i) w.a[i] += w.b[i]; return true; });
         add("resize_and_assign(B+B)", [](W1& w) { w.A.resize_and_assign(w.B + w.B); }, [](W1& w) { w.a = w.b; for(auto& x : w.a) x += x; return true; });
         add("insert(0,A+A)", [](W1& w) { w.A.insert(0, w.A + w.A); }, [=](W1& w) { auto v = w.a; for(auto& x : v) x += x; return ins(w, 0, v); });
      }
      return r;
   }
};

// ---------------------------------------------------------------- 2D
template <class T> Mat<T> rows_ins(Mat<T> a, long p, const Mat<T>& b) { if(a.v.empty()) return b; a.v.insert(a.v.begin() + p * a.c, b.v.begin(), b.v.end()); a.r += b.r; return a; }
template <class T> Mat<T> tr(const Mat<T>& a) { Mat<T> x; x.r = a.c; x.c = a.r; for(long j = 0; j < a.c; ++j) for(long i = 0; i < a.r; ++i) x.v.push_back(a(i, j)); return x; }
template <class T> Mat<T> rows_del(Mat<T> a, long p, long q) { a.v.erase(a.v.begin() + p * a.c, a.v.begin() + (p + q) * a.c); a.r -= q; a.norm(); return a; }
template <class T> Mat<T> row_mat(const std::vector<T>& v) { Mat<T> m; m.r = 1; m.c = (long)v.size(); m.v = v; return m; }

template <class T, AlignmentFlag AF> struct W2 {
   using A2 = Array2D<T, AF>;
   A2 A, B; Array1D<T> V;
   Mat<T> a, b; std::vector<T> v;
   void init(long i, long j) {
      static const long sh[][4] = {{0, 0, 0, 0}, {1, 1, 1, 1}, {2, 1, 2, 2}, {1, 2, 2, 1}, {2, 2, 2, 2}, {2, 3, 1, 3}, {3, 2, 3, 1}, {0, 0, 2, 2}, {2, 2, 0, 0}, {3, 3, 2, 2}};
      a = iota2<T>(sh[i][0], sh[i][1], 1); b = iota2<T>(sh[i][2], sh[i][3], 11); v = iota<T>(j, 31);
      A.resize_and_assign(mk2<T, AF>(a)); B.resize_and_assign(mk2<T, AF>(b)); V.resize_and_assign(mk1<T, Unaligned>(v));
   }
   bool check() const { return agree2(A, a) && agree2(B, b) && agree1(V, v) && (A.data() == nullptr) == a.v.empty() && (a.v.empty() || A.data() != B.data()); }
   std::string show() const { return "A=" + str(elems2(A)) + " B=" + str(elems2(B)) + " expected A=" + str(a) + " B=" + str(b); }
   std::uint64_t hash() const { return hash_(v, hash_(b, hash_(a))); }
   using O = Op<W2>;
   static std::vector<O> ops(long n, bool full) {
      std::vector<O> r;
      constexpr bool real_ = !std::is_same_v<T, bool>;
      auto add = [&](std::string nm, auto f, auto g) { r.push_back({std::move(nm), f, g}); };
      auto s = [](long x) { return std::to_string(x); };
      auto rdel = [](Mat<T>& m, long p, long q) { if(p < 0 || q < 1 || p >= m.r || q > m.r - p) return false; m = rows_del(m, p, q); return true; };
      auto cdel = [rdel](Mat<T>& m, long p, long q) { auto t = tr(m); if(!rdel(t, p, q)) return false; m = tr(t); return true; };
      auto rins = [](Mat<T>& m, long p, const Mat<T>& x) { if(p < 0 || p > m.r || (!m.v.empty() && m.c != x.c) || m.r + x.r > 6) return false; m = rows_ins(m, p, x); return true; };
      auto cins = [rins](Mat<T>& m, long p, const Mat<T>& x) { auto t = tr(m); if(!rins(t, p, tr(x))) return false; m = tr(t); return true; };
      const std::vector<long> D = dom(n, full);
      for(long p : D) {
         for(long q : D) {
            add("remove_rows" + s(p) + "," + s(q), [=](W2& w) { w.A.remove_rows(p, q); }, [=](W2& w) { return rdel(w.a, p, q); });
            add("remove_cols" + s(p) + "," + s(q), [=](W2& w) { w.A.remove_cols(p, q); }, [=](W2& w) { return cdel(w.a, p, q); });
            auto shape_ok = [=] { return p >= 0 && q >= 0 && (p == 0) == (q == 0) && (q == 0 || p <= HUGE_ / q) && p < 100 && q < 100; };
            add("resize" + s(p) + "," + s(q), [=](W2& w) { w.A.resize(p, q); for(long i = 0; i < p; ++i) for(long j = 0; j < q; ++j) if(i >= w.a.r || j >= w.a.c) w.A(i, j) = SL<T>(5); },
               [=](W2& w) { if(!shape_ok()) return false; Mat<T> m; m.r = p; m.c = q; for(long i = 0; i < p; ++i) for(long j = 0; j < q; ++j) m.v.push_back(i < w.a.r && j < w.a.c ? T(w.a(i, j)) : lab<T>(5)); w.a = m; return true; });
            add("resize-discard" + s(p) + "," + s(q), [=](W2& w) { w.A.resize(p, q, false); if(p != w.a.r || q != w.a.c) w.A = SL<T>(6); }, [=](W2& w) { if(!shape_ok()) return false; if(p != w.a.r || q != w.a.c) { w.a.r = p; w.a.c = q; w.a.v.assign(p * q, lab<T>(6)); } return true; });
            add("ctor" + s(p) + "," + s(q), [=](W2& w) { A2 x(p, q, SL<T>(2)); w.B.swap(x); }, [=](W2& w) { if(!shape_ok()) return false; w.b.r = p; w.b.c = q; w.b.v.assign(p * q, lab<T>(2)); return true; });
         }
         add("remove_row" + s(p), [=](W2& w) { w.A.remove_row(p); }, [=](W2& w) { return rdel(w.a, p, 1); });
         add("remove_col" + s(p), [=](W2& w) { w.A.remove_col(p); }, [=](W2& w) { return cdel(w.a, p, 1); });
         if(p > -HUGE_ && p < HUGE_) { add("remove_row(last-" + s(p) + ")", [=](W2& w) { w.A.remove_row(last - p); }, [=](W2& w) { return rdel(w.a, w.a.r - 1 - p, 1); });
            add("remove_col(last-" + s(p) + ")", [=](W2& w) { w.A.remove_col(last - p); }, [=](W2& w) { return cdel(w.a, w.a.c - 1 - p, 1); }); }
         add("remove_rows_front" + s(p), [=](W2& w) { w.A.remove_rows_front(p); }, [=](W2& w) { return rdel(w.a, 0, p); });
         add("remove_rows_back" + s(p), [=](W2& w) { w.A.remove_rows_back(p); }, [=](W2& w) { return p >= 1 && p <= w.a.r && rdel(w.a, w.a.r - p, p); });
         add("remove_cols_front" + s(p), [=](W2& w) { w.A.remove_cols_front(p); }, [=](W2& w) { return cdel(w.a, 0, p); });
         add("remove_cols_back" + s(p), [=](W2& w) { w.A.remove_cols_back(p); }, [=](W2& w) { return p >= 1 && p <= w.a.c && cdel(w.a, w.a.c - p, p); });
         add("insert_rows" + s(p), [=](W2& w) { if(w.a.r + w.b.r > 6) throw StrictException(""); w.A.insert_rows(p, w.B); }, [=](W2& w) { return rins(w.a, p, w.b); });
         add("insert_cols" + s(p), [=](W2& w) { if(w.a.c + w.b.c > 6) throw StrictException(""); w.A.insert_cols(p, w.B); }, [=](W2& w) { return cins(w.a, p, w.b); });
         add("insert_rowsA" + s(p), [=](W2& w) { if(2 * w.a.r > 6) throw StrictException(""); w.A.insert_rows(p, w.A); }, [=](W2& w) { auto t = w.a; return rins(w.a, p, t); });
         add("insert_colsA" + s(p), [=](W2& w) { if(2 * w.a.c > 6) throw StrictException(""); w.A.insert_cols(p, w.A); }, [=](W2& w) { auto t = w.a; return cins(w.a, p, t); });
         // a row or column without elements inserted into an object without elements: rejected
         add("insert_row" + s(p), [=](W2& w) { if(w.a.r > 5) throw StrictException(""); w.A.insert_row(p, w.V); }, [=](W2& w) { return !w.v.empty() && rins(w.a, p, row_mat(w.v)); });
         add("insert_col" + s(p), [=](W2& w) { if(w.a.c > 5) throw StrictException(""); w.A.insert_col(p, w.V); }, [=](W2& w) { return !w.v.empty() && cins(w.a, p, tr(row_mat(w.v))); });
         add("insert_row(A.row0)" + s(p), [=](W2& w) { if(w.a.r > 5) throw StrictException(""); w.A.insert_row(p, w.A.row(0)); }, [=](W2& w) { if(w.a.v.empty()) return false; std::vector<T> x(w.a.v.begin(), w.a.v.begin() + w.a.c); return rins(w.a, p, row_mat(x)); });
         if(p < 100) { Ix ix{ImplicitInt(0), ImplicitInt(p)}; std::vector<long> lv{0, p};
            add("remove_rows{0," + s(p) + "}", [=](W2& w) { w.A.remove_rows(ix); }, [=](W2& w) { if(!inc<T>(lv, w.a.r)) return false; w.a = rows_del(w.a, lv[1], 1); w.a = rows_del(w.a, lv[0], 1); return true; });
            add("remove_cols{0," + s(p) + "}", [=](W2& w) { w.A.remove_cols(ix); }, [=](W2& w) { if(!inc<T>(lv, w.a.c)) return false; auto t = tr(w.a); t = rows_del(t, lv[1], 1); t = rows_del(t, lv[0], 1); w.a = tr(t); w.a.norm(); return true; }); }
      }
      add("A=B", [](W2& w) { w.A = w.B; }, [](W2& w) { if(w.a.r != w.b.r || w.a.c != w.b.c) return false; w.a = w.b; return true; });
      add("A=move(B)", [](W2& w) { if(w.A.rows() == w.B.rows() && w.A.cols() == w.B.cols()) w.A = std::move(w.B); else throw StrictException(""); }, [](W2& w) { if(w.a.r != w.b.r || w.a.c != w.b.c) return false; w.a = w.b; w.b = {}; return true; });
      add("A={{x,y},{z,u}}", [](W2& w) { w.A = {{SL<T>(1), SL<T>(2)}, {SL<T>(4), SL<T>(7)}}; }, [](W2& w) { if(w.a.r != 2 || w.a.c != 2) return false; w.a.v = {lab<T>(1), lab<T>(2), lab<T>(4), lab<T>(7)}; return true; });
      add("A={{x,y},{z}}", [](W2& w) { w.A = {{SL<T>(1), SL<T>(2)}, {SL<T>(4)}}; }, [](W2&) { return false; });
      add("ctor{{x,y},{z}}", [](W2& w) { A2 q{{SL<T>(1), SL<T>(2)}, {SL<T>(4)}}; w.A.swap(q); }, [](W2&) { return false; });
      add("ctor{{},{z}}", [](W2& w) { A2 q(use::List2D<Strict<T>>{{}, {SL<T>(4)}}); w.A.swap(q); }, [](W2&) { return false; });
      add("ctor{{x,y},{z,u},{v,w}}", [](W2& w) { A2 q{{SL<T>(1), SL<T>(2)}, {SL<T>(4), SL<T>(7)}, {SL<T>(8), SL<T>(3)}}; w.A.swap(q); }, [](W2& w) { w.a.r = 3; w.a.c = 2; w.a.v = {lab<T>(1), lab<T>(2), lab<T>(4), lab<T>(7), lab<T>(8), lab<T>(3)}; return true; });
      add("A(all,all)=B", [](W2& w) { w.A(place::all, place::all) = w.B; }, [](W2& w) { if(w.a.r != w.b.r || w.a.c != w.b.c) return false; w.a = w.b; return true; });
      add("A.block(0,0,9,0)=x", [](W2& w) { w.A.block(0, 0, 9, 0) = SL<T>(3); }, [](W2&) { return false; });
      add("A.col(0)=V", [](W2& w) { w.A.col(0) = w.V; }, [](W2& w) { if(w.a.v.empty() || w.a.r != (long)w.v.size()) return false; for(long i = 0; i < w.a.r; ++i) w.a(i, 0) = w.v[i]; return true; });
      add("resize_and_assign(B)", [](W2& w) { w.A.resize_and_assign(w.B); }, [](W2& w) { w.a = w.b; return true; });
      add("resize_and_assign(move B)", [](W2& w) { w.A.resize_and_assign(std::move(w.B)); }, [](W2& w) { w.a = w.b; w.b = {}; return true; });
      add("resize_and_assign(transpose A)", [](W2& w) { w.A.resize_and_assign(transpose(w.A)); }, [](W2& w) { w.a = tr(w.a); return true; });
      add("A2(A).swap(B)", [](W2& w) { A2 x(w.A); x.swap(w.B); }, [](W2& w) { w.b = w.a; return true; });
      add("eval", [](W2& w) { auto x = w.A.eval(); w.B.swap(x); }, [](W2& w) { w.b = w.a; return true; });
      add("move ctor", [](W2& w) { A2 x(std::move(w.A)); w.A.swap(x); }, [](W2&) { return true; });
      add("view2D(1,n)", [](W2& w) { w.A.view2D(1, w.B.size()) = SL<T>(2); }, [](W2& w) { if(w.a.v.size() != w.b.v.size()) return false; std::fill(w.a.v.begin(), w.a.v.end(), lab<T>(2)); return true; });
      if constexpr(real_) {
         add("A+=B", [](W2& w) { w.A += w.B; }, [](W2& w) { if(w.a.r != w.b.r || w.a.c != w.b.c) return false; for(std::size_t i = 0; i < w.a.v.size(); ++i) w.a.v[i] += w.b.v[i]; return true; });
         add("A=A*B", [](W2& w) { w.A = w.A * w.B; }, [](W2& w) { if(w.a.r != w.b.r || w.a.c != w.b.c) return false; for(std::size_t i = 0; i < w.a.v.size(); ++i) w.a.v[i] *= w.b.v[i]; return true; });
         add("resize_and_assign(merge_cols)", [](W2& w) { w.A.resize_and_assign(B3(w)); }, [](W2& w) { w.a = w.b; for(auto& x : w.a.v) x += x; return true; });
      }
      return r;
   }
   static auto B3(W2& w) { return w.B + w.B; }
};

// One execution: every step is (operation, index of the failing allocation or -1 for none).
template <class World> void explore(std::vector<std::pair<long, long>> inits, int depth, long arg, bool full, int part, int parts) {
   const auto ops = World::ops(arg, full);
   struct St { int op; long fault; };
   std::vector<St> seq(depth);
   // 0: completed, 1: fault delivered, 2: no fault delivered though one was armed, 3: values too large, 4: violated
   auto run = [&](std::pair<long, long> init, int d) {
      const long base = mc::live_blocks;
      int res = 0;
      {
         World w; w.init(init.first, init.second);
         mc::at("%dD %s init(%ld,%ld):", C03_DIM, tname<typename decltype(w.A)::builtin_type>(), init.first, init.second);
         for(int i = 0; i < d && res != 4; ++i) {
            const auto& o = ops[seq[i].op];
            mc::at_add(" %s[%s]", o.name.c_str(), seq[i].fault < 0 ? "no fault" : ("alloc " + std::to_string(seq[i].fault) + " fails").c_str());
            World before = [&] { World x; x.a = w.a; x.b = w.b; if constexpr(requires { x.c; }) x.c = w.c; if constexpr(requires { x.v; }) x.v = w.v; return x; }();
            bool threw = false, oom = false;
            mc::injected = false; mc::fail_at = seq[i].fault; mc::inject = seq[i].fault >= 0;
            try { o.real(w); } catch(const StrictException&) { threw = true; } catch(const std::bad_alloc&) { threw = oom = true; }
            mc::inject = false;
            const bool inj = mc::injected;
            const bool valid = o.model(w);
            mc::step();
            if(inj || !valid) { w.a = before.a; w.b = before.b; if constexpr(requires { w.c; }) w.c = before.c; if constexpr(requires { w.v; }) w.v = before.v; }
            if(i == d - 1) {
               if(inj && !threw) { mc::fail("swallowed:" + o.name, "an allocation failure was not reported"); res = 4; }
               else if(inj && !oom && valid) { mc::fail("wrong-error:" + o.name, "an allocation failure was reported as another error"); res = 4; }
               else if(!inj && threw == valid) { mc::fail((valid ? "rejected:" : "accepted:") + o.name, "%s", valid ? "a valid operation was rejected" : "an invalid operation was accepted"); res = 4; }
               else if(!w.check()) { mc::fail((threw ? "changed:" : "wrong:") + o.name, "%s", w.show().c_str()); res = 4; }
               else if(inj) res = 1; else if(seq[i].fault >= 0) res = 2;
            }
         }
         if(res < 2) {
            mc::state(w.hash()); mc::trace();
            // fully usable afterwards
            try { w.A.resize_and_assign(w.B); w.a = w.b; w.A.swap(w.B); } catch(...) { mc::fail("unusable", "the array cannot be used after the failure"); }
            if(!w.check()) mc::fail("unusable", "the array is not usable after the failure: %s", w.show().c_str());
         }
      }
      if(res != 4 && mc::live_blocks != base) { mc::fail("leak:" + ops[seq[d - 1].op].name, "%ld blocks alive after all arrays died", mc::live_blocks - base); res = 4; }
      return res;
   };
   for(auto init : inits) {
      std::function<void(int)> rec = [&](int d) {
         for(int o = 0; o < (int)ops.size(); ++o) {
            if(d == 0 && o % parts != part) continue;
            for(long f = -1; f < 64; ++f) {
               seq[d] = {o, f};
               int r = run(init, d + 1);
               if(r >= 2) { if(r == 2) break; continue; }   // no further allocation to fail
               if(d + 1 < depth) rec(d + 1);
            }
         }
      };
      rec(0);
   }
}
using P = std::vector<std::pair<long, long>>;
}  // namespace

#ifndef C03_T
#define C03_T int
#endif
#if C03_DIM == 1
const P ini{{0, 0}, {0, 2}, {1, 1}, {2, 2}, {3, 2}, {3, 3}, {4, 1}, {2, 0}};
const P few{{2, 2}, {3, 1}, {0, 2}};
template <AlignmentFlag AF> using W = W1<C03_T, AF>;
constexpr long AR = 3;
#else
const P ini{{0, 0}, {0, 2}, {1, 1}, {2, 2}, {3, 2}, {4, 2}, {5, 3}, {6, 2}, {7, 2}, {8, 1}, {9, 3}, {5, 2}, {6, 3}};
const P few{{2, 2}, {5, 3}};
template <AlignmentFlag AF> using W = W2<C03_T, AF>;
constexpr long AR = 3;
#endif
static int reg_ = [] {
   auto addu = [](std::string s, std::function<void()> f, bool deep = false) { mc::units().push_back({s, f, deep}); };
   std::string n = std::string(tname<C03_T>()) + std::to_string(C03_DIM) + "D/";
   addu(n + "single/unaligned", [] { explore<W<Unaligned>>(ini, 1, AR + 1, true, 0, 1); });
   addu(n + "single/aligned", [] { explore<W<Aligned>>(ini, 1, AR + 1, true, 0, 1); });
   for(int p = 0; p < 8; ++p) {
      addu(n + "pairs/unaligned/" + std::to_string(p), [p] { explore<W<Unaligned>>(few, 2, C03_DIM == 1 || mc::thorough ? 2 : 1, mc::thorough, p, 8); });
      addu(n + "pairs/aligned/" + std::to_string(p), [p] { explore<W<Aligned>>(few, 2, C03_DIM == 1 || mc::thorough ? 2 : 1, mc::thorough, p, 8); }, true);
   }
   return 0; }();
