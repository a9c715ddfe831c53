// C24: requests over the whole range of the index type, on small arrays and on lazily evaluated objects of huge extent.
#include "lib.hpp"
#ifndef C24_T
#define C24_T double
#endif

namespace {
using T = C24_T;
using V = std::vector<T>;
using M = Mat<T>;
using I = __int128;
constexpr long LO = std::numeric_limits<long>::min(), HI = std::numeric_limits<long>::max();
constexpr bool BO = std::is_same_v<T, bool>, FL = !std::is_integral_v<T>;
std::string ctx;
std::string n2s(I x) { if(x >= LO && x <= HI) return std::to_string((long)x); return "2^64*" + std::to_string((long)(x >> 64)) + "+" + std::to_string((unsigned long)x); }

std::vector<long> near_(long n) {
   std::vector<long> v{LO, LO + 1, -(1l << 62), -(1l << 33), -(1l << 32) - 1, -(1l << 32), -(1l << 31), -n - 1, -n, -2, -1, 0, 1, 2, 3, n - 1, n, n + 1, 1l << 31, (1l << 31) - 1, 1l << 32, (1l << 32) + 1, (1l << 32) + n, 1l << 33,
      1l << 61, (1l << 62) - 1, 1l << 62, (1l << 62) + 1, HI - n - 1, HI - n, HI - n + 1, HI - 2, HI - 1, HI};
   std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v;
}
// pairs of factors whose product is k modulo 2^64 (and modulo 2^32) although it is not k
std::vector<std::pair<long, long>> wraps(long kmax) {
   std::vector<std::pair<long, long>> p;
   for(long k = 0; k <= kmax; ++k) for(I w : {(I)1 << 64, (I)1 << 65, (I)1 << 66, (I)1 << 32, (I)1 << 63}) for(long r : {2l, 3l, 4l, 5l, 6l, 7l, 9l, 16l, 17l, 255l, 65536l, 65537l, 1l << 32, (1l << 32) + 1, 641l, 6700417l, 274177l, 1l << 62})
      if((w + k) % r == 0 && (w + k) / r <= HI) { p.emplace_back(r, (long)((w + k) / r)); p.emplace_back((long)((w + k) / r), r); }
   for(auto [a, b] : {std::pair{1l << 32, 1l << 32}, {1l << 33, 1l << 31}, {1l << 31, 1l << 32}, {1l << 31, 1l << 33}, {3037000499l, 3037000499l}, {3037000500l, 3037000500l}, {3037000500l, 3037000499l}, {HI, 1l}, {1l, HI}, {HI, 2l}, {2l, HI}, {HI, HI}, {HI / 2, 2l}, {HI / 2 + 1, 2l}, {HI / 3, 3l}, {HI / 3 + 1, 3l}, {HI / 7, 7l}, {(1l << 62), 2l}, {(1l << 62), 4l}, {LO, 2l}, {LO, LO}, {-1l, LO}, {LO, -1l}, {-1l, -1l}, {-2l, -3l}, {-1l, 6l}, {LO, 1l}}) p.emplace_back(a, b);
   return p;
}

enum Want { ok, reject, toobig };   // toobig: representable, but no memory can hold it: any error will do
// f performs the request and returns whether the outcome is right
template <class F> bool req(const char* what, Want w, F&& f) {
   mc::step(); mc::trace();
   mc::at("%s: %s", ctx.c_str(), what);
   int got = 0; bool right = false;
   try { right = f(); } catch(const StrictException&) { got = 1; } catch(const std::bad_alloc&) { got = 2; }
   mc::state(mc::mix(std::hash<std::string>{}(ctx), mc::mix(std::hash<std::string>{}(what), got)));
   if(w == ok) { if(got) mc::fail(std::string("refused:") + what, "%s: %s is rejected", ctx.c_str(), what); else if(!right) mc::fail(std::string("wrong:") + what, "%s: %s gives another result", ctx.c_str(), what); }
   else if(got == 0) mc::fail(std::string("accepted:") + what, "%s: %s is accepted", ctx.c_str(), what);
   else if(w == reject && got == 2) mc::fail(std::string("allocates:") + what, "%s: %s is invalid but only fails in the allocator", ctx.c_str(), what);
   return got == 0 && w == ok;
}
const long BIG = 1l << 20;   // larger blocks are refused by the allocator of this harness
Want shape1(I n, long elem = 1) { return n < 0 || n > HI ? reject : (n * elem > BIG * 8 ? toobig : ok); }
Want shape2(I r, I c) { if(r < 0 || c < 0) return toobig; return r < 0 || c < 0 || (r == 0) != (c == 0) || r * c > HI ? reject : (r * c > BIG ? toobig : ok); }
Want lz(I r, I c) { return r < 0 || c < 0 || r * c > HI ? reject : ok; }
V iot(long n, long k0 = 1) { V v; for(long i = 0; i < n; ++i) v.push_back(lab<T>(k0 + i)); return v; }
M iot2(long r, long c, long k0 = 1) { M m; m.r = r; m.c = c; m.v = iot(r * c, k0); return m; }
template <class A> bool is1(const A& a, const V& v) { return agree1(a, v); }
template <class A> bool all1(const A& a, long n, T x) { if(a.size().val() != n) return false; for(long i = 0; i < std::min(n, 40l); ++i) if(!same(a.un(i).val(), x) || !same(a.un(n - 1 - i).val(), x)) return false; return true; }
template <class A> bool all2(const A& a, long r, long c, T x) { if(a.rows().val() != r || a.cols().val() != c || a.size().val() != r * c) return false; if(r * c == 0) return true; for(long i : {0l, r / 2, r - 1}) for(long j : {0l, c / 2, c - 1}) if(!same(a.un(i, j).val(), x)) return false; return true; }

// ------------------------------------------------------------ arrays
template <AlignmentFlag AF> void arrays1() {
   using A = Array1D<T, AF>;
   mc::max_block = BIG * 8;
   for(long n : {0l, 1l, 2l, 5l}) {
      const V v = iot(n); auto L = near_(n);
      auto untouched = [&](const A& a) { if(!is1(a, v)) mc::fail("changed", "%s: the array is changed by a rejected request", ctx.c_str()); };
      for(long k : L) {
         ctx = "array of size " + std::to_string(n) + ", k=" + std::to_string(k);
         const Want w = shape1(k, sizeof(T)); const V z;
         req("Array1D(k)", w, [&] { A b(k); return all1(b, k, T(0)); });
         req("Array1D(Size{k})", w, [&] { A b(Size{k}); return all1(b, k, T(0)); });
         req("Array1D(k, x)", w, [&] { A b(k, SL<T>(3)); return all1(b, k, lab<T>(3)); });
         req("Array1D(Size{k}, Value{x})", w, [&] { A b(Size{k}, Value{SL<T>(3)}); return all1(b, k, lab<T>(3)); });
         if constexpr(!BO) { req("Array1D(StrictLong k)", w, [&] { A b(Strict<long>{k}); return all1(b, k, T(0)); }); }
         for(bool p : {true, false}) { A a(mk1<T, AF>(v)); V r = v; if(w == ok) r.resize(k); req(p ? "resize(k)" : "resize(k, false)", w, [&] { a.resize(k, p); return p ? is1(a, r) : a.size().val() == k; }) ?: (untouched(a), 0); }
         auto edit = [&](const char* what, Want wd, auto f, V r) { A a(mk1<T, AF>(v)); if(!req(what, wd, [&] { f(a); return is1(a, r); })) untouched(a); };
         auto cut = [&](I p, I c) { V r = v; if(p >= 0 && c > 0 && p + c <= n) r.erase(r.begin() + (long)p, r.begin() + (long)(p + c)); return r; };
         auto okc = [&](I p, I c) { return p >= 0 && c > 0 && p + c <= n ? ok : reject; };
         edit("remove(k)", okc(k, 1), [&](A& a) { a.remove(k); }, cut(k, 1));
         edit("remove(Pos{k})", okc(k, 1), [&](A& a) { a.remove(Pos{k}); }, cut(k, 1));
         edit("remove_front(k)", okc(0, k), [&](A& a) { a.remove_front(k); }, cut(0, k));
         edit("remove_front(Count{k})", okc(0, k), [&](A& a) { a.remove_front(Count{k}); }, cut(0, k));
         edit("remove_back(k)", okc(0, k), [&](A& a) { a.remove_back(k); }, okc(0, k) == ok ? cut(n - k, k) : v);
         edit("remove_back(Count{k})", okc(0, k), [&](A& a) { a.remove_back(Count{k}); }, okc(0, k) == ok ? cut(n - k, k) : v);
         for(long c : L) { edit("remove(k, c)", okc(k, c), [&](A& a) { a.remove(k, c); }, cut(k, c)); edit("remove(Pos{k}, Count{c})", okc(k, c), [&](A& a) { a.remove(Pos{k}, Count{c}); }, cut(k, c)); }
         edit("remove({k})", okc(k, 1), [&](A& a) { a.remove(use::IndexList{k}); }, cut(k, 1));
         edit("remove({0, k})", k > 0 && k < n ? ok : reject, [&](A& a) { a.remove(use::IndexList{0, k}); }, k > 0 && k < n ? [&] { V r = v; r.erase(r.begin() + k); r.erase(r.begin()); return r; }() : v);
         edit("remove(vector{k})", okc(k, 1), [&](A& a) { a.remove(std::vector<ImplicitInt>{k}); }, cut(k, 1));
         const Want wi = k >= 0 && k <= n ? ok : reject;
         V r1 = v, r2 = v; if(wi == ok) { r1.insert(r1.begin() + k, lab<T>(70)); r2.insert(r2.begin() + k, {lab<T>(71), lab<T>(72)}); }
         edit("insert(k, x)", wi, [&](A& a) { a.insert(k, SL<T>(70)); }, r1);
         edit("insert(Pos{k}, Value{x})", wi, [&](A& a) { a.insert(Pos{k}, Value{SL<T>(70)}); }, r1);
         A two(use::List1D<Strict<T>>{SL<T>(71), SL<T>(72)});
         edit("insert(k, array)", wi, [&](A& a) { a.insert(k, two); }, r2);
         edit("insert(Pos{k}, array)", wi, [&](A& a) { a.insert(Pos{k}, two); }, r2);
         if(k >= 0) {   // sources of huge size
            const Want ws = k > HI - n ? reject : w; auto c = const1D(k, SL<T>(9)); V rb = v, rf = v; if(w == ok) { rb.insert(rb.end(), k, lab<T>(9)); rf.insert(rf.begin(), k, lab<T>(9)); }
            const Want wr = ws == ok ? ok : toobig;   // an extent beyond the index type may be refused either way
            edit("insert_back(const1D(k))", wr, [&](A& a) { a.insert_back(c); }, rb); edit("insert_front(const1D(k))", wr, [&](A& a) { a.insert_front(c); }, rf);
            edit("insert(0, const1D(k))", wr, [&](A& a) { a.insert(0, c); }, rf);
            edit("resize_and_assign(const1D(k))", w, [&](A& a) { a.resize_and_assign(c); }, w == ok ? V(k, lab<T>(9)) : z);
            edit("a = const1D(k)", k == n ? ok : reject, [&](A& a) { a = c; }, V(n, lab<T>(9)));
            if constexpr(!BO) { edit("a += const1D(k)", k == n ? ok : reject, [&](A& a) { a += c; }, [&] { V r = v; for(auto& x : r) x = x + lab<T>(9); return r; }()); edit("a = a + const1D(k)", k == n ? ok : reject, [&](A& a) { a = a + c; }, [&] { V r = v; for(auto& x : r) x = x + lab<T>(9); return r; }()); }
            edit("a(all) = const1D(k)", k == n ? ok : reject, [&](A& a) { a(place::all) = c; }, V(n, lab<T>(9)));
            req("Array1D(const1D(k))", w, [&] { A b(c); return all1(b, k, lab<T>(9)); });
         }
         { A a(mk1<T, AF>(v)); const bool in = k >= 0 && k < n; const T vk = in ? v[k] : T(0);
           req("a[k]", in ? ok : reject, [&] { return same(a[k].val(), vk); }); req("a(k)", in ? ok : reject, [&] { return same(a[Strict<long>{k}].val(), vk); }); req("a.at(k)", in ? ok : reject, [&] { return same(a.at(k).val(), vk); });
           req("a({k})", in ? ok : reject, [&] { auto s = a(use::IndexList{k}); return s.size().val() == 1 && same(s.un(0).val(), vk); }); 
           req("a(complement{k})", in ? ok : reject, [&] { return is1(a(place::complement{k}), cut(k, 1)); });
           untouched(a); }
      }
      for(long r : L) for(long c : L) { ctx = "array of size " + std::to_string(n) + ", " + std::to_string(r) + " x " + std::to_string(c); A a(mk1<T, AF>(v)); const bool in = r >= 0 && c >= 0 && (I)r * c == n && (r == 0) == (c == 0); if(n == 0 && r >= 0 && c >= 0 && (I)r * c == 0 && (r == 0) != (c == 0)) continue;
         req("view2D(r, c)", in ? ok : reject, [&] { auto s = a.view2D(r, c); return s.rows().val() == r && s.cols().val() == c && samev(elems2(s).v, v); }); }
      for(auto [r, c] : wraps(8)) { ctx = "array of size " + std::to_string(n) + ", " + std::to_string(r) + " x " + std::to_string(c); A a(mk1<T, AF>(v)); const bool in = r >= 0 && c >= 0 && (I)r * c == n;
         req("view2D(r, c)", in ? ok : reject, [&] { auto s = a.view2D(r, c); return s.rows().val() == r && s.cols().val() == c && samev(elems2(s).v, v); }); }
   }
}
template <AlignmentFlag AF> void arrays2() {
   using A = Array2D<T, AF>;
   mc::max_block = BIG * 8;
   auto make = [&](long r, long c) {
      ctx = std::to_string(r) + " x " + std::to_string(c); const Want w = shape2(r, c);
      req("Array2D(r, c)", w, [&] { A b(r, c); return all2(b, r, c, T(0)); });
      req("Array2D(Rows, Cols)", w, [&] { A b(Rows{r}, Cols{c}); return all2(b, r, c, T(0)); });
      req("Array2D(r, c, x)", w, [&] { A b(r, c, SL<T>(3)); return all2(b, r, c, lab<T>(3)); });
      req("Array2D(Rows, Cols, Value)", w, [&] { A b(Rows{r}, Cols{c}, Value{SL<T>(3)}); return all2(b, r, c, lab<T>(3)); });
      req("const2D(r, c, x)", lz(r, c), [&] { auto b = const2D(r, c, SL<T>(3)); return all2(b, r, c, lab<T>(3)); });
      req("const2D(Rows, Cols, Value)", lz(r, c), [&] { auto b = const2D(Rows{r}, Cols{c}, Value{SL<T>(3)}); return all2(b, r, c, lab<T>(3)); });
      if constexpr(!std::is_same_v<typename A::builtin_type, bool>) {
         req("random(r, c)", lz(r, c), [&] { auto b = random<T>(r, c); return b.rows().val() == r && b.cols().val() == c; });
         req("random(Rows, Cols)", lz(r, c), [&] { auto b = random<T>(Rows{r}, Cols{c}); return b.rows().val() == r && b.cols().val() == c; });
         req("semi_random(Rows, Cols)", lz(r, c), [&] { auto b = semi_random<T>(Rows{r}, Cols{c}); return b.rows().val() == r && b.cols().val() == c; });
      }
      for(auto [p, q] : {std::pair{0l, 0l}, {2l, 3l}, {3l, 3l}, {1l, 5l}}) for(bool keep : {true, false}) {
         ctx = std::to_string(p) + " x " + std::to_string(q) + " array, " + std::to_string(r) + " x " + std::to_string(c); A a(mk2<T, AF>(iot2(p, q)));
         const bool done = req(keep ? "resize(r, c)" : "resize(r, c, false)", w, [&] { a.resize(r, c, keep); return a.rows().val() == r && a.cols().val() == c && a.size().val() == r * c; });
         if(!done && !agree2(a, iot2(p, q))) mc::fail("changed", "%s: the array is changed by a rejected resize", ctx.c_str());
         if(lz(r, c) == ok && !done) { auto e = const2D(r, c, SL<T>(9)); req("resize_and_assign(const2D)", w, [&] { a.resize_and_assign(e); return true; }); req("a = const2D", r == p && c == q ? ok : reject, [&] { a = e; return true; }); req("a(all, all) = const2D", r == p && c == q ? ok : reject, [&] { a(place::all, place::all) = e; return true; }); if(!(r == p && c == q) && !agree2(a, iot2(p, q))) mc::fail("changed", "%s: the array is changed by a rejected assignment", ctx.c_str()); }
         req("view2D(r, c)", r >= 0 && c >= 0 && (I)r * c == a.size().val() ? ok : reject, [&] { auto s = a.view2D(r, c); return s.rows().val() == r && s.cols().val() == c; });
      }
   };
   for(long r : near_(3)) for(long c : near_(2)) if(!(r >= 0 && c >= 0 && (r == 0) != (c == 0))) make(r, c);
   for(auto [r, c] : wraps(9)) make(r, c);
}
template <AlignmentFlag AF> void edits2() {
   using A = Array2D<T, AF>;
   mc::max_block = BIG * 8;
   for(auto [p, q] : {std::pair{0l, 0l}, {1l, 1l}, {2l, 3l}, {3l, 2l}}) {
      const long R = p, C = q; const M m = iot2(R, C);
      std::vector<long> L = near_(R); for(long x : near_(C)) L.push_back(x); std::sort(L.begin(), L.end()); L.erase(std::unique(L.begin(), L.end()), L.end());
      auto edit = [&](const char* what, Want w, auto f, M r) { r.norm(); A a(mk2<T, AF>(m)); if(!req(what, w, [&] { f(a); return agree2(a, r); }) && !agree2(a, m)) mc::fail("changed", "%s: the array is changed by a rejected request", ctx.c_str()); };
      auto cutr = [&](I k, I c) { M r; r.c = C; for(long i = 0; i < R; ++i) if(i < k || i >= k + c) { ++r.r; for(long j = 0; j < C; ++j) r.v.push_back(m(i, j)); } return r; };
      auto cutc = [&](I k, I c) { M r; r.r = R; for(long j = 0; j < C; ++j) if(j < k || j >= k + c) ++r.c; for(long i = 0; i < R; ++i) for(long j = 0; j < C; ++j) if(j < k || j >= k + c) r.v.push_back(m(i, j)); return r; };
      auto okn = [&](I k, I c, long n) { return k >= 0 && c > 0 && k + c <= n ? ok : reject; };
      A a0(mk2<T, AF>(m));
      for(long k : L) {
         ctx = std::to_string(R) + "x" + std::to_string(C) + " array, k=" + std::to_string(k);
         edit("remove_row(k)", okn(k, 1, R), [&](A& a) { a.remove_row(k); }, cutr(k, 1)); edit("remove_row(Pos{k})", okn(k, 1, R), [&](A& a) { a.remove_row(Pos{k}); }, cutr(k, 1));
         edit("remove_col(k)", okn(k, 1, C), [&](A& a) { a.remove_col(k); }, cutc(k, 1)); edit("remove_col(Pos{k})", okn(k, 1, C), [&](A& a) { a.remove_col(Pos{k}); }, cutc(k, 1));
         edit("remove_rows_front(k)", okn(0, k, R), [&](A& a) { a.remove_rows_front(k); }, cutr(0, k)); edit("remove_rows_front(Count{k})", okn(0, k, R), [&](A& a) { a.remove_rows_front(Count{k}); }, cutr(0, k));
         edit("remove_rows_back(k)", okn(0, k, R), [&](A& a) { a.remove_rows_back(k); }, cutr((I)R - k, k)); edit("remove_rows_back(Count{k})", okn(0, k, R), [&](A& a) { a.remove_rows_back(Count{k}); }, cutr((I)R - k, k));
         edit("remove_cols_front(k)", okn(0, k, C), [&](A& a) { a.remove_cols_front(k); }, cutc(0, k)); edit("remove_cols_front(Count{k})", okn(0, k, C), [&](A& a) { a.remove_cols_front(Count{k}); }, cutc(0, k));
         edit("remove_cols_back(k)", okn(0, k, C), [&](A& a) { a.remove_cols_back(k); }, cutc((I)C - k, k)); edit("remove_cols_back(Count{k})", okn(0, k, C), [&](A& a) { a.remove_cols_back(Count{k}); }, cutc((I)C - k, k));
         edit("remove_rows({k})", okn(k, 1, R), [&](A& a) { a.remove_rows(use::IndexList{k}); }, cutr(k, 1)); edit("remove_cols({k})", okn(k, 1, C), [&](A& a) { a.remove_cols(use::IndexList{k}); }, cutc(k, 1));
         for(long c : L) {
            edit("remove_rows(k, c)", okn(k, c, R), [&](A& a) { a.remove_rows(k, c); }, cutr(k, c)); edit("remove_rows(Pos, Count)", okn(k, c, R), [&](A& a) { a.remove_rows(Pos{k}, Count{c}); }, cutr(k, c));
            edit("remove_cols(k, c)", okn(k, c, C), [&](A& a) { a.remove_cols(k, c); }, cutc(k, c)); edit("remove_cols(Pos, Count)", okn(k, c, C), [&](A& a) { a.remove_cols(Pos{k}, Count{c}); }, cutc(k, c));
         }
         if(R) {
            auto insr = [&](long n) { M r = m; for(long i = 0; i < n * C; ++i) r.v.insert(r.v.begin() + k * C, lab<T>(9)); r.r += n; return r; };
            auto insc = [&](long n) { M r; r.r = R; r.c = C + n; for(long i = 0; i < R; ++i) for(long j = 0; j < C + n; ++j) r.v.push_back(j < k ? m(i, j) : j < k + n ? lab<T>(9) : m(i, j - n)); return r; };
            const bool ir = k >= 0 && k <= R, ic = k >= 0 && k <= C;
            auto er = const1D(C, SL<T>(9)), ec = const1D(R, SL<T>(9)); auto e2 = const2D(2, C, SL<T>(9)), f2 = const2D(R, 2, SL<T>(9));
            edit("insert_row(k, A)", ir ? ok : reject, [&](A& a) { a.insert_row(k, er); }, ir ? insr(1) : m); edit("insert_col(k, A)", ic ? ok : reject, [&](A& a) { a.insert_col(k, ec); }, ic ? insc(1) : m);
            edit("insert_rows(k, A)", ir ? ok : reject, [&](A& a) { a.insert_rows(k, e2); }, ir ? insr(2) : m); edit("insert_cols(k, A)", ic ? ok : reject, [&](A& a) { a.insert_cols(k, f2); }, ic ? insc(2) : m);
            if(k > 0) {
               if((I)k * C <= HI) { auto h = const2D(k, C, SL<T>(9)); const Want w = shape2((I)k + R, C) == ok ? ok : toobig; auto kk = k; M r = m; if(w == ok) { k = 0; r = insr(kk); k = kk; }
                  edit("insert_rows(0, const2D(k, cols))", w, [&](A& a) { a.insert_rows(0, h); }, r); edit("insert_rows_front(const2D(k, cols))", w, [&](A& a) { a.insert_rows_front(h); }, r); }
               if((I)k * R <= HI) { auto h = const2D(R, k, SL<T>(9)); const Want w = shape2(R, (I)k + C) == ok ? ok : toobig; auto kk = k; M r = m; if(w == ok) { k = 0; r = insc(kk); k = kk; }
                  edit("insert_cols(0, const2D(rows, k))", w, [&](A& a) { a.insert_cols(0, h); }, r); edit("insert_cols_front(const2D(rows, k))", w, [&](A& a) { a.insert_cols_front(h); }, r); }
               if(k != C) { auto h = const1D(k, SL<T>(9)); edit("insert_row(0, const1D(k))", reject, [&](A& a) { a.insert_row(0, h); }, m); edit("a.row(0) = const1D(k)", reject, [&](A& a) { a.row(0) = h; }, m); }
               if(k != R) { auto h = const1D(k, SL<T>(9)); edit("insert_col(0, const1D(k))", reject, [&](A& a) { a.insert_col(0, h); }, m); edit("a.col(0) = const1D(k)", reject, [&](A& a) { a.col(0) = h; }, m); }
            }
         }
         for(long j : L) {
            const bool in = k >= 0 && k < R && j >= 0 && j < C; const T mk = in ? m(k, j) : T(0); ctx = std::to_string(R) + "x" + std::to_string(C) + " array, k=" + std::to_string(k) + ", j=" + std::to_string(j);
            req("a(k, j)", in ? ok : reject, [&] { return same(a0(k, j).val(), mk); }); req("a.at(k, j)", in ? ok : reject, [&] { return same(a0.at(k, j).val(), mk); });
         }
         const bool in1 = k >= 0 && k < R * C; const T m1 = in1 ? m.v[k] : T(0);
         if constexpr(requires { a0[k]; }) req("a[k]", in1 ? ok : reject, [&] { return same(a0[k].val(), m1); });
      }
   }
}

// ------------------------------------------------------------ lazily evaluated objects of huge extent
std::vector<long> ends(I n) { std::vector<long> v; for(I x : {(I)0, (I)1, (I)2, n / 3, n / 2, n - 2, n - 1}) if(x >= 0 && x < n && (v.empty() || v.back() < x)) v.push_back((long)x); return v; }
// object g of long elements; at(i) is the expected element
template <class G, class F> bool lazy(G&& g, I n, F at) {
   if(g.size().val() != n) return false;
   for(long i : ends(n)) if((I)g.un(i).val() != at(i) || (I)g[i].val() != at(i) || (I)g.at(i).val() != at(i)) return false;
   if(!throws([&] { (void)g.at((long)n); }) || !throws([&] { (void)g[-1]; })) return false;
   return true;
}
const long NS[] = {0, 1, 2, 5, 1l << 31, (1l << 32) + 3, 1l << 62, HI - 1, HI};
std::vector<long> pts(long n) { std::vector<long> v{LO, -n, -(1l << 32), -2, -1, 0, 1, 2, 3, n / 2, n - 2, n - 1, n, 1l << 32, 1l << 62, HI - 1, HI}; if(n < HI) v.push_back(n + 1); std::sort(v.begin(), v.end()); v.erase(std::unique(v.begin(), v.end()), v.end()); return v; }
void huge1() {
   for(long n : NS) {
      auto u = irange(n); auto P = pts(n);
      ctx = "irange(" + std::to_string(n) + ")";
      req("irange(n)", ok, [&] { return lazy(u, n, [](I i) { return i; }) && (I)(u.end() - u.begin()) == n && (n == 0 || (I)(*(u.end() - 1)).val() == n - 1) && (n == 0 || (I)(*u.rbegin()).val() == n - 1); });
      req("all", ok, [&] { return lazy(u(place::all), n, [](I i) { return i; }); });
      req("reverse", ok, [&] { return lazy(u(place::reverse), n, [n](I i) { return n - 1 - i; }); });
      req("even", ok, [&] { return lazy(u(place::even), ((I)n + 1) / 2, [](I i) { return 2 * i; }); });
      req("odd", ok, [&] { return lazy(u(place::odd), (I)n / 2, [](I i) { return 2 * i + 1; }); });
      req("view1D", ok, [&] { return lazy(u.view1D(), n, [](I i) { return i; }); });
      for(long k : P) {
         ctx = "irange(" + std::to_string(n) + "), k=" + std::to_string(k);
         req("u[k]", k >= 0 && k < n ? ok : reject, [&] { return u[k].val() == k && u.at(k).val() == k; });
         req("firstN(k)", k >= 0 && k <= n ? ok : reject, [&] { return lazy(u(place::firstN{k}), k, [](I i) { return i; }); });
         req("firstN(Count)", k >= 0 && k <= n ? ok : reject, [&] { return lazy(u(place::firstN{Count{k}}), k, [](I i) { return i; }); });
         req("lastN(k)", k >= 0 && k <= n ? ok : reject, [&] { return lazy(u(place::lastN{k}), k, [n, k](I i) { return (I)n - k + i; }); });
         req("lastN(Count)", k >= 0 && k <= n ? ok : reject, [&] { return lazy(u(place::lastN{Count{k}}), k, [n, k](I i) { return (I)n - k + i; }); });
         req("skipN(k)", k > 0 ? ok : reject, [&] { return lazy(u(place::skipN{k}), k > 0 ? ((I)n + k - 1) / k : 0, [k](I i) { return i * k; }); });
         req("skipN(Stride)", k > 0 ? ok : reject, [&] { return lazy(u(place::skipN{Stride{k}}), k > 0 ? ((I)n + k - 1) / k : 0, [k](I i) { return i * k; }); });
         req("({k, 0})", k >= 0 && k < n ? ok : reject, [&] { return lazy(u(use::IndexList{k, 0}), 2, [k](I i) { return i ? 0 : k; }); });
         req("iterator", k >= 0 && k < n ? ok : reject, [&] { return u.begin()[k].val() == k && (*(u.begin() + k)).val() == k; });
         if(n > 0) { const bool l = (I)n - 1 + k >= 0 && k <= 0; if(k > LO) req("u[last + k]", l ? ok : reject, [&] { return (I)u[last + k].val() == (I)n - 1 + k; }); }
         // two objects of different extent
         if(k >= 0) { auto w = irange(k); req("u + w", k == n ? ok : reject, [&] { return lazy(u + w, n, [](I i) { return (long)((unsigned long)i * 2); }) || n > (1l << 61); });
            req("merge(u, w)", (I)n + k <= HI ? ok : reject, [&] { return lazy(merge(u, w), (I)n + k, [n](I i) { return i < n ? i : i - n; }); });
            req("merge(u, w, u)", (I)n + k + n <= HI ? ok : reject, [&] { return lazy(merge(u, w, u), (I)n + k + n, [n, k](I i) { return i < n ? i : i < (I)n + k ? i - n : i - n - k; }); }); }
         req("merge(u, x)", (I)n + 1 <= HI ? ok : reject, [&] { return lazy(merge(u, S(-7l)), (I)n + 1, [n](I i) { return i == n ? (I)-7 : i; }); });
         req("merge(x, u)", (I)n + 1 <= HI ? ok : reject, [&] { return lazy(merge(S(-7l), u), (I)n + 1, [](I i) { return i == 0 ? (I)-7 : i - 1; }); });
         req("merge(u, x, x)", (I)n + 2 <= HI ? ok : reject, [&] { return lazy(merge(u, S(-7l), S(-8l)), (I)n + 2, [n](I i) { return i == n ? (I)-7 : i == (I)n + 1 ? (I)-8 : i; }); });
         req("exclude(u, k)", k >= 0 && k < n ? ok : reject, [&] { return lazy(exclude(u, k), (I)n - 1, [k](I i) { return i < k ? i : i + 1; }); });
         for(long c : P) {
            ctx = "irange(" + std::to_string(n) + "), k=" + std::to_string(k) + ", c=" + std::to_string(c);
            const bool in = k >= 0 && c > 0 && (I)k + c <= n;
            req("exclude(u, k, c)", in ? ok : reject, [&] { return lazy(exclude(u, k, c), (I)n - c, [k, c](I i) { return i < k ? i : i + c; }); });
            req("exclude(u, Pos, Count)", in ? ok : reject, [&] { return lazy(exclude(u, Pos{k}, Count{c}), (I)n - c, [k, c](I i) { return i < k ? i : i + c; }); });
            for(long s : {LO, -HI, -(1l << 62), -n, -(1l << 32), -2l, -1l, 0l, 1l, 2l, 3l, n / 2, n - 1, n, 1l << 32, 1l << 62, HI}) {
               ctx = "irange(" + std::to_string(n) + "), " + std::to_string(k) + ", " + std::to_string(c) + ", " + std::to_string(s);
               const I e = (I)k + (I)s * ((I)c - 1);
               const bool q = k >= 0 && c >= 0 && (c == 0 || (k < n && e >= 0 && e < n)), dc = k >= 0 && c == 0 && k > n;   // an empty slice far out is neither here nor there
               if(!dc) req("seqN", q ? ok : reject, [&] { return lazy(u(seqN{k, c, s}), c, [k, s](I i) { return (I)k + s * i; }); });
               if(!dc) req("seqN(First, Size, Stride)", q ? ok : reject, [&] { return lazy(u(seqN{First{k}, Size{c}, Stride{s}}), c, [k, s](I i) { return (I)k + s * i; }); });
               const bool sq = k >= 0 && c >= 0 && k < n && c < n && (s > 0 ? k <= c : s < 0 ? k >= c : k == c);
               const I cnt = !sq ? 0 : s ? ((I)c - k) / s + 1 : 1;
               req("seq", sq ? ok : reject, [&] { return lazy(u(seq{k, c, s}), cnt, [k, s](I i) { return (I)k + s * i; }); });
               if(q && c > 0) {   // a slice of the slice
                  auto w = u(seqN{k, c, s}); const long b = c / 2;
                  req("seqN, reverse", ok, [&] { return lazy(w(place::reverse), c, [&](I i) { return (I)k + s * ((I)c - 1 - i); }); });
                  req("seqN, even, odd", ok, [&] { auto e2 = w(place::even); return lazy(e2(place::odd), ((I)c + 1) / 2 / 2, [&](I i) { return (I)k + s * (2 * (2 * i + 1)); }); });
                  req("seqN, lastN", ok, [&] { return lazy(w(place::lastN{b}), b, [&](I i) { return (I)k + s * ((I)c - b + i); }); });
                  req("seqN, outside", reject, [&] { return lazy(w(place::firstN{c < HI ? c + 1 : LO}), (I)c + 1, [&](I i) { return (I)k + s * i; }); });
                  req("seqN, seq outside", reject, [&] { return lazy(w(seq{0, c < HI ? c : LO}), (I)c + 1, [&](I i) { return (I)k + s * i; }); });
               }
            }
         }
      }
   }
}
template <class F> void each_big(F f) { for(auto [r, c] : wraps(9)) f(r, c); for(long r : {0l, 1l, 2l, 3l, 1l << 31, 1l << 62, HI}) for(long c : {0l, 1l, 2l, 3l, 1l << 31, HI - 1}) f(r, c); }
void huge2() {
   const std::pair<long, long> shapes[] = {{1, 1}, {2, 3}, {1, HI}, {HI, 1}, {2, HI / 2}, {HI / 2, 2}, {3, HI / 3}, {1l << 31, 1l << 31}, {1l << 31, (1l << 32) - 1}, {3037000499, 3037000499}, {1l << 62, 1}, {7, HI / 7}};
   for(auto [rr, cc] : shapes) {
      const long R = rr, C = cc; const I N = (I)R * C; auto u = irange((long)N); auto w = u.view2D(R, C);
      const auto base = "irange as " + std::to_string(R) + "x" + std::to_string(C);
      auto look2 = [&](auto&& g, I r, I c, auto at) {
         if(g.rows().val() != r || g.cols().val() != c || g.size().val() != r * c) return false;
         for(long i : ends(r)) for(long j : ends(c)) if((I)g.un(i, j).val() != at(i, j) || (I)g(i, j).val() != at(i, j) || (I)g.at(i, j).val() != at(i, j) || (I)g.un((long)(i * c + j)).val() != at(i, j)) return false;
         return throws([&] { (void)g((long)r, 0); }) && throws([&] { (void)g(0, (long)c); }) && throws([&] { (void)g.at(-1, 0); });
      };
      auto id = [&](I i, I j) { return i * C + j; };
      ctx = base;
      req("the view", ok, [&] { return look2(w, R, C, id); });
      req("transpose", ok, [&] { return look2(transpose(w), C, R, [&](I i, I j) { return id(j, i); }); });
      req("view1D", ok, [&] { return lazy(w.view1D(), N, [](I i) { return i; }); });
      req("diag", ok, [&] { return lazy(w.diag(), std::min(R, C), [&](I i) { return id(i, i); }); });
      req("reverse rows", ok, [&] { return look2(w(place::reverse, place::all), R, C, [&](I i, I j) { return id(R - 1 - i, j); }); });
      req("reverse all", ok, [&] { return look2(w(place::reverse, place::reverse), R, C, [&](I i, I j) { return id(R - 1 - i, C - 1 - j); }); });
      req("reshape", ok, [&] { return look2(w.view2D(C, R), C, R, [&](I i, I j) { return i * R + j; }); });
      req("slice of 1D view", ok, [&] { auto v = w.view1D(); return lazy(v(place::reverse), N, [&](I i) { return N - 1 - i; }); });
      auto P = pts(R); for(long x : pts(C)) P.push_back(x); std::sort(P.begin(), P.end()); P.erase(std::unique(P.begin(), P.end()), P.end());
      for(long k : P) {
         ctx = base + ", k=" + std::to_string(k);
         req("row(k)", k >= 0 && k < R ? ok : reject, [&] { return lazy(w.row(k), C, [&](I j) { return id(k, j); }); });
         req("col(k)", k >= 0 && k < C ? ok : reject, [&] { return lazy(w.col(k), R, [&](I i) { return id(i, k); }); });
         if(k > LO) { const bool in = k < C && -(I)k < R; I len = k >= 0 ? std::min<I>(R, (I)C - k) : std::min<I>((I)R + k, C);
            req("diag(k)", in ? ok : reject, [&] { return lazy(w.diag(k), len, [&](I i) { return k >= 0 ? id(i, i + k) : id(i - k, i); }); }); }
         if(k != 0) req("rows(firstN)", k > 0 && k <= R ? ok : reject, [&] { return look2(w.rows(place::firstN{k}), k, C, id); }) ;
         if(k != 0) req("cols(lastN)", k > 0 && k <= C ? ok : reject, [&] { return look2(w.cols(place::lastN{k}), R, k, [&](I i, I j) { return id(i, (I)C - k + j); }); });
         if(k > 0) req("skipN both", ok, [&] { return look2(w(place::skipN{k}, place::skipN{k}), ((I)R + k - 1) / k, ((I)C + k - 1) / k, [&](I i, I j) { return id(i * k, j * k); }); });
         for(long j : P) {
            ctx = base + ", k=" + std::to_string(k) + ", j=" + std::to_string(j);
            const bool in = k >= 0 && k < R && j >= 0 && j < C;
            req("w(k, j)", in ? ok : reject, [&] { return (I)w(k, j).val() == id(k, j) && (I)w.at(k, j).val() == id(k, j); });
            req("block(0, 0, k, j)", in ? ok : reject, [&] { return look2(w.block(0, 0, k, j), (I)k + 1, (I)j + 1, id); });
            req("block(k, j, last, last)", in ? ok : reject, [&] { return look2(w.block(k, j, last, last), (I)R - k, (I)C - j, [&](I a, I b) { return id(a + k, b + j); }); });
            if((k == 0) == (j == 0) && k != 0) req("blockN(0, 0, k, j)", k > 0 && k <= R && j > 0 && j <= C ? ok : reject, [&] { return look2(w.blockN(0, 0, k, j), k, j, id); });
            if(in) { req("blockN to the end", ok, [&] { return look2(w.blockN(k, j, R - k, C - j), (I)R - k, (I)C - j, [&](I a, I b) { return id(a + k, b + j); }); });
               if(R - k < HI) { req("blockN beyond", reject, [&] { auto t = w.blockN(k, j, R - k + 1, C - j); return true; }); req("blockN far beyond", reject, [&] { auto t = w.blockN(k, j, HI, C - j); return true; }); }
               if(C - j < HI) req("blockN far right", reject, [&] { auto t = w.blockN(k, j, R - k, HI); return true; }); }
            req("view2D(k, j)", k >= 0 && j >= 0 && (I)k * j == N ? ok : reject, [&] { return look2(w.view2D(k, j), k, j, [&](I a, I b) { return a * j + b; }); });
         }
      }
      for(auto [r, c] : wraps(9)) { ctx = base + ", " + std::to_string(r) + " x " + std::to_string(c); req("view2D(r, c)", r >= 0 && c >= 0 && (I)r * c == N ? ok : reject, [&] { auto v = w.view2D(r, c); return v.rows().val() == r && v.cols().val() == c; }); }
   }
   // shapes composed from two operands
   each_big([&](long r, long c) {
      if(r < 0 || c < 0 || (I)r * c > HI || (r == 0) != (c == 0)) return;
      auto a = const2D(r, c, S(4l));
      each_big([&](long p, long q) {
         if(p < 0 || q < 0 || (I)p * q > HI || (p == 0) != (q == 0)) return;
         ctx = std::to_string(r) + "x" + std::to_string(c) + " and " + std::to_string(p) + "x" + std::to_string(q); auto b = const2D(p, q, S(5l));
         req("a + b", r == p && c == q ? ok : reject, [&] { auto g = a + b; return g.rows().val() == r && g.cols().val() == c; });
         if(r && p) {
            const bool h = r == p && (I)r * ((I)c + q) <= HI && (I)c + q <= HI, v = c == q && ((I)r + p) * c <= HI && (I)r + p <= HI;
            req("merge_horizontal", h ? ok : reject, [&] { auto g = merge_horizontal(a, b); return g.rows().val() == r && g.cols().val() == c + q && g.un(0, 0).val() == 4 && g.un(r - 1, c + q - 1).val() == 5 && g.un(r - 1, c).val() == 5 && g.un(r - 1, c - 1).val() == 4; });
            req("merge_vertical", v ? ok : reject, [&] { auto g = merge_vertical(a, b); return g.rows().val() == r + p && g.cols().val() == c && g.un(0, 0).val() == 4 && g.un(r + p - 1, c - 1).val() == 5 && g.un(r, 0).val() == 5 && g.un(r - 1, c - 1).val() == 4; });
         }
      });
   });
}
template <class T2 = T> void generators() {
   using T = T2; constexpr bool BO = std::is_same_v<T, bool>, FL = !std::is_integral_v<T>;
   for(long n : near_(4)) {
      ctx = "n=" + std::to_string(n); const Want w = n >= 0 ? ok : reject;
      req("irange(n)", w, [&] { return lazy(irange(n), n, [](I i) { return i; }); });
      req("const1D(n, x)", w, [&] { return all1(const1D(n, SL<T>(3)), n, lab<T>(3)); }); req("const1D(Size, Value)", w, [&] { return all1(const1D(Size{n}, Value{SL<T>(3)}), n, lab<T>(3)); });
      if constexpr(!BO) {
         req("sequence(n)", w, [&] { auto s = sequence<T>(n); return s.size().val() == n && (n == 0 || s.un(0).val() == 0); });
         req("sequence(Size)", w, [&] { auto s = sequence<T>(Size{n}); return s.size().val() == n; });
         const bool sq = n >= 0 && (I)n * n <= HI;
         req("identity(n)", sq ? ok : reject, [&] { auto s = identity<T>(n); return s.rows().val() == n && s.cols().val() == n && s.size().val() == n * n && (n == 0 || (s.un(n - 1, n - 1).val() == 1 && s.un(n * n - 1).val() == 1 && (n == 1 || (s.un(n - 1, 0).val() == 0 && s.un(0, n - 1).val() == 0)))); });
         req("random(n)", w, [&] { auto s = random<T>(n); return s.size().val() == n; }); req("random(Size)", w, [&] { auto s = random<T>(Size{n}); return s.size().val() == n; });
         req("semi_random(Size)", w, [&] { auto s = semi_random<T>(Size{n}); return s.size().val() == n; });
         for(long k : near_(4)) {
            ctx = "n=" + std::to_string(n) + ", k=" + std::to_string(k); const bool in = n > 0 && k >= 0 && k < n;
            req("e_unit(k, n)", in ? ok : reject, [&] { auto s = e_unit<T>(k, n); return s.size().val() == n && s.un(k).val() == 1 && (n == 1 || s.un(k ? 0 : 1).val() == 0); });
            req("e_unit(Index, Size)", in ? ok : reject, [&] { auto s = e_unit<T>(Index{k}, Size{n}); return s.size().val() == n && s.un(k).val() == 1; });
         }
         if constexpr(FL) { req("linspace(n)", n >= 1 ? ok : reject, [&] { auto s = linspace(n, S(T(0)), S(T(1))); return s.size().val() == n && s.un(0).val() == 0; }); }
      }
      if(n >= 0) { auto u = irange(n); const bool sq = (I)n * n <= HI;
         req("row_broadcast", sq ? ok : reject, [&] { auto g = row_broadcast(u); return g.rows().val() == n && g.cols().val() == n && (n == 0 || (I)g.un(0, n - 1).val() == n - 1); });
         req("col_broadcast", sq ? ok : reject, [&] { auto g = col_broadcast(u); return g.rows().val() == n && g.cols().val() == n && (n == 0 || (I)g.un(n - 1, 0).val() == n - 1); });
         for(long k : near_(4)) if(k >= 0 && (n == 0) == (k == 0)) { ctx = "n=" + std::to_string(n) + ", k=" + std::to_string(k); auto v = irange(k); req("tensor_prod(u, v)", (I)n * k <= HI ? ok : reject, [&] { auto g = tensor_prod(u, v); return g.rows().val() == n && g.cols().val() == k && g.size().val() == n * k; }); }
      }
   }
}
void attached() {
   T buf[12]; for(int i = 0; i < 12; ++i) buf[i] = lab<T>(i); T* p = buf; const T* cp = buf;
   auto same_buf = [&] { for(int i = 0; i < 12; ++i) if(buf[i] != lab<T>(i)) return false; return true; };
   for(long n : near_(12)) {
      ctx = "buffer, n=" + std::to_string(n); const Want w = n >= 0 ? ok : reject;
      req("attach1D(p, n)", w, [&] { auto a = attach1D(p, n); return a.size().val() == n && (n == 0 || (&a.un(0) == (void*)p && same(a[0].val(), buf[0]) && throws([&] { (void)a[n]; }) && throws([&] { (void)a.at(-1); }))); });
      req("attach1D(const p, n)", w, [&] { auto a = attach1D(cp, n); return a.size().val() == n && (n == 0 || same(a[0].val(), buf[0])); });
   }
   auto two = [&](long r, long c) {
      ctx = "buffer, " + std::to_string(r) + "x" + std::to_string(c); if(r >= 0 && c >= 0 && (r == 0) != (c == 0)) return;
      const Want w = r >= 0 && c >= 0 && (I)r * c <= HI ? ok : reject;
      req("attach2D(p, r, c)", w, [&] { auto a = attach2D(p, r, c); return a.rows().val() == r && a.cols().val() == c && a.size().val() == r * c && (r == 0 || (same(a(0, 0).val(), buf[0]) && throws([&] { (void)a(r, 0); }) && throws([&] { (void)a(0, c); }))); });
      req("attach2D(const p, r, c)", w, [&] { auto a = attach2D(cp, r, c); return a.rows().val() == r && a.cols().val() == c && a.size().val() == r * c; });
   };
   for(long r : near_(3)) for(long c : near_(4)) two(r, c);
   for(auto [r, c] : wraps(12)) two(r, c);
   if(!same_buf()) mc::fail("buffer", "the attached buffer is changed by requests that do not write");
}
}

UNIT("1D arrays: every request") { arrays1<Unaligned>(); }
UNIT("1D aligned arrays: every request") { arrays1<Aligned>(); }
UNIT("2D arrays: every shape") { arrays2<Unaligned>(); }
UNIT("2D aligned arrays: every shape") { arrays2<Aligned>(); }
UNIT("2D arrays: every edit") { edits2<Unaligned>(); }
UNIT("generators of every extent") { generators(); }
UNIT("attached buffers of every extent") { attached(); }
#ifdef C24_LAZY
UNIT("huge 1D objects: every slice") { huge1(); }
UNIT("huge 2D objects: every view") { huge2(); }
#endif
