// C20: every operation sequence over two live fixed-size arrays against plain tuples; every construction and assignment
// from every kind and size of source.
#include "kinds.hpp"
#ifndef C20_T
#define C20_T double
#endif

namespace {
using T = C20_T;
using V = std::vector<T>;
using M = Mat<T>;
constexpr bool BO = std::is_same_v<T, bool>, FL = !std::is_integral_v<T>;
std::string ctx;
// a list of n values, by runtime size
template <class F> void with_list(const V& v, F&& f) {
   using L = use::List1D<Strict<T>>;
   auto s = [&](int i) { return S(T(v[i])); };
   switch(v.size()) {
      case 0: f(L{}); break; case 1: f(L{s(0)}); break; case 2: f(L{s(0), s(1)}); break; case 3: f(L{s(0), s(1), s(2)}); break; case 4: f(L{s(0), s(1), s(2), s(3)}); break;
      case 5: f(L{s(0), s(1), s(2), s(3), s(4)}); break; case 6: f(L{s(0), s(1), s(2), s(3), s(4), s(5)}); break; default: f(L{s(0), s(1), s(2), s(3), s(4), s(5), s(6)}); }
}
template <class F> void with_list2(const M& m, F&& f) {
   using L = use::List2D<Strict<T>>;
   auto s = [&](long i, long j) { return S(m(i, j)); };
   const long r = m.r, c = m.c;
#define ROW1(i) {s(i, 0)}
#define ROW2(i) {s(i, 0), s(i, 1)}
#define ROW3(i) {s(i, 0), s(i, 1), s(i, 2)}
   if(r * c == 0) f(L{});
   else if(r == 1 && c == 1) f(L{ROW1(0)}); else if(r == 1 && c == 2) f(L{ROW2(0)}); else if(r == 1 && c == 3) f(L{ROW3(0)});
   else if(r == 2 && c == 1) f(L{ROW1(0), ROW1(1)}); else if(r == 2 && c == 2) f(L{ROW2(0), ROW2(1)}); else if(r == 2 && c == 3) f(L{ROW3(0), ROW3(1)});
   else if(r == 3 && c == 1) f(L{ROW1(0), ROW1(1), ROW1(2)}); else if(r == 3 && c == 2) f(L{ROW2(0), ROW2(1), ROW2(2)}); else if(r == 3 && c == 3) f(L{ROW3(0), ROW3(1), ROW3(2)});
   else std::abort();
}
template <class A> constexpr bool can_resize() {
   return requires(A& a) { a.resize(1); } || requires(A& a) { a.resize(Size{1}); } || requires(A& a) { a.resize(1, 1); } || requires(A& a) { a.resize(Rows{1}, Cols{1}); } || requires(A& a, Array1D<T> b) { a.resize_and_assign(b); } || requires(A& a, Array2D<T> b) { a.resize_and_assign(b); }
      || requires(A& a) { a.insert_back(Strict<T>{}); } || requires(A& a) { a.insert_front(Strict<T>{}); } || requires(A& a) { a.insert(Pos{0}, Value{Strict<T>{}}); } || requires(A& a) { a.remove(0); } || requires(A& a) { a.remove_back(); } || requires(A& a) { a.remove_front(); }
      || requires(A& a) { a.remove_row(0); } || requires(A& a) { a.remove_col(0); } || requires(A& a, Array2D<T> b) { a.insert_row(0, b); } || requires(A& a, Array2D<T> b) { a.insert_col(0, b); };
}
void bad(const char* what, const std::string& got, const std::string& want) { mc::fail(std::string(what), "%s: %s is %s, expected %s", ctx.c_str(), what, got.c_str(), want.c_str()); }

// ---- complete observation
template <class A> void look(const char* who, const A& a, const V& m) {
   constexpr long N = A::size().val();
   constexpr AlignmentFlag AF = std::is_same_v<A, FixedArray1D<T, N, Aligned>> ? Aligned : Unaligned;
   static_assert(std::is_same_v<A, FixedArray1D<T, N, AF>>);
   mc::step();
   static_assert(A::size() == index_t{N} && A::dimension() == 1_sl && A::is_fixed() && !A::is_dynamic());
   static_assert(!can_resize<A>(), "a fixed-size array offers an operation that changes its size");
   if(!agree1(a, m)) return bad(who, str(elems(a)), str(m));
   V v; for(auto x : a) v.push_back(x.val());
   if(!samev(v, m)) return bad((std::string(who) + " (traversal)").c_str(), str(v), str(m));
   if(a.bytes().val() != (long)(N * sizeof(Strict<T>)) || a.size_m1().val() != N - 1 || a.end() - a.begin() != N) bad("size information", "wrong", std::to_string(N));
   if(N) {
      if(a.data() != &a.un(0)) bad("data()", "another object", "the first element");
      for(long i = 0; i < N; ++i) if(a.data() + i != &a.un(i)) bad("data()", "not contiguous", "contiguous");
      auto p = reinterpret_cast<std::uintptr_t>(a.data()), b = reinterpret_cast<std::uintptr_t>(&a);
      if(p < b || p + N * sizeof(Strict<T>) > b + sizeof a) bad("storage", "outside the object", "inside the object");
      if((A::alignment() > 0 && p % A::alignment() != 0) || p % alignof(T) != 0) bad("alignment", std::to_string(p % 64), "0");
      if constexpr(AF == Aligned && !BO) if(A::alignment() < (int)alignof(T) || (N && A::alignment() != Array1D<T, Aligned>::alignment()) || p % Array1D<T, Aligned>::alignment() != 0) bad("declared alignment", std::to_string(A::alignment()), std::to_string(Array1D<T, Aligned>::alignment()));
   }
   mc::state(hash_(m, N * 2 + (AF == Aligned)));
}
template <class A> void look(const char* who, const A& a, const M& m) {
   constexpr long R = A::rows().val(), C = A::cols().val();
   constexpr AlignmentFlag AF = std::is_same_v<A, FixedArray2D<T, R, C, Aligned>> ? Aligned : Unaligned;
   static_assert(std::is_same_v<A, FixedArray2D<T, R, C, AF>>);
   mc::step();
   static_assert(A::size() == index_t{R * C} && A::rows() == index_t{R} && A::cols() == index_t{C} && A::dimension() == 2_sl && A::is_fixed());
   static_assert(!can_resize<A>(), "a fixed-size array offers an operation that changes its size");
   if(!agree2(a, m)) return bad(who, str(elems2(a)), str(m));
   if(a.bytes().val() != (long)(R * C * sizeof(Strict<T>))) bad("size information", "wrong", std::to_string(R * C));
   if(R) {
      for(long i = 0; i < R * C; ++i) if(a.data() + i != &a.un(i) || &a.un(i) != &a.un(i / C, i % C)) bad("data()", "not contiguous", "contiguous");
      auto p = reinterpret_cast<std::uintptr_t>(a.data()), b = reinterpret_cast<std::uintptr_t>(&a);
      if(p < b || p + R * C * sizeof(Strict<T>) > b + sizeof a) bad("storage", "outside the object", "inside the object");
      if((A::alignment() > 0 && p % A::alignment() != 0) || p % alignof(T) != 0) bad("alignment", std::to_string(p % 64), "0");
      if constexpr(AF == Aligned && !BO) if(p % Array2D<T, Aligned>::alignment() != 0) bad("declared alignment", std::to_string(p % 64), std::to_string(Array2D<T, Aligned>::alignment()));
   }
   mc::state(hash_(m, R * 100 + C * 10 + (AF == Aligned)));
}

// ---- operations on a pair
template <long N, AlignmentFlag AF> struct Pair1 {
   using A1 = FixedArray1D<T, N, AF>; using O1 = FixedArray1D<T, N, AF == Aligned ? Unaligned : Aligned>;
   static constexpr int OPS = 40;
   struct St { A1 a, b; V x, y; long fresh = 10; };
   static V zeros() { return V(N, T(0)); }
   static V nv(St& s, long n = N) { V v; for(long i = 0; i < n; ++i) v.push_back(lab<T>(s.fresh++)); return v; }
   template <class F> static void rej(const char* w, F&& f) { mc::step(); if(!throws(f)) mc::fail(std::string("accepted:") + w, "%s: %s is accepted", ctx.c_str(), w); }
   static const char* run(int op, St& s) {   // returns the name of the operation, or null when it does not apply
      A1 &a = s.a, &b = s.b; V &x = s.x, &y = s.y;
      auto rx = x, ry = y; std::reverse(rx.begin(), rx.end()); std::reverse(ry.begin(), ry.end());
      switch(op) {
         case 0: a = b; x = y; return "a = b";
         case 1: a = std::move(b); x = y; y = zeros(); return "a = move(b)";
         case 2: { auto& r = a; a = r; return "a = a"; }
         case 3: { auto& r = a; a = std::move(r); return "a = move(a)"; }
         case 4: std::swap(a, b); std::swap(x, y); return "swap(a, b)";
         case 5: { auto k = lab<T>(s.fresh++); a = S(k); x.assign(N, k); return "a = scalar"; }
         case 6: { x = nv(s); with_list(x, [&](auto l) { a = l; }); return "a = list"; }
         case 7: { rej("a = longer list", [&] { with_list(nv(s, N + 1), [&](auto l) { a = l; }); }); return "a = longer list"; }
         case 8: { if(!N) return nullptr; rej("a = shorter list", [&] { with_list(nv(s, N - 1), [&](auto l) { a = l; }); }); return "a = shorter list"; }
         case 9: { x = nv(s); auto d = mk1<T, Unaligned>(x); a = d; return "a = dynamic array"; }
         case 10: { x = nv(s); auto d = mk1<T, Aligned>(x); a = d; return "a = aligned dynamic array"; }
         case 11: { for(long n = 0; n <= N + 2; ++n) if(n != N) { auto d = mk1<T, Unaligned>(nv(s, n)); rej("a = dynamic array of other size", [&] { a = d; }); rej("a = slice of other size", [&] { a = d(place::all); }); rej("a = temporary of other size", [&] { a = Array1D<T>(n); }); } return "a = array of other size"; }
         case 12: a = b(place::reverse); x = ry; return "a = b reversed";
         case 13: a = b.view1D(); x = y; return "a = view of b";
         case 14: { a = generate(b, [](Strict<T> t) { return t; }); x = y; return "a = expression of b"; }
         case 15: { O1 c; for(long i = 0; i < N; ++i) c.un(i) = S(T(y[i])); a = c; x = y; return "a = fixed array of the other alignment"; }
         case 16: { FixedArray1D<T, N + 1> c; rej("a = larger fixed array", [&] { a = c; }); if constexpr(N > 0) { FixedArray1D<T, N - 1> d; rej("a = smaller fixed array", [&] { a = d; }); } return "a = fixed array of other size"; }
         case 17: { A1 c(a); look("copy", c, x); if(N) { c.un(0) = SL<T>(77); look("source of a copy", a, x); } return "copy constructed"; }
         case 18: { A1 c(std::move(a)); look("moved", c, x); x = zeros(); return "move constructed"; }
         case 19: { A1 c; c = a; a = b; b = c; std::swap(x, y); return "swap by copies"; }
         case 20: { for(long i = 0; i < N; ++i) { T k = lab<T>(s.fresh++); a[i] = S(k); x[i] = k; } return "elements written"; }
         case 21: { long i = 0; for(auto& e : a) { T k = lab<T>(s.fresh++); e = S(k); x[i++] = k; } return "elements written through iterators"; }
         case 22: { if(N < 2) return nullptr; a(place::even) = SL<T>(s.fresh); for(long i = 0; i < N; i += 2) x[i] = lab<T>(s.fresh); ++s.fresh; return "even elements assigned"; }
         case 23: { a(place::reverse) = b; x = ry; return "a reversed = b"; }
         case 24: { mc::step(); if(!throws([&] { a.at(N); }) || !throws([&] { a[N]; }) || !throws([&] { b.at(-1); }) || !throws([&] { b[last + 1]; })) mc::fail("bounds", "%s: an index outside is accepted", ctx.c_str()); return "indices outside"; }
         case 25: if constexpr(!BO) { a += b; for(long i = 0; i < N; ++i) x[i] = x[i] + y[i]; return "a += b"; } else return nullptr;
         case 26: if constexpr(!BO) { a *= S(T(2)); for(auto& e : x) e = e * 2; return "a *= 2"; } else return nullptr;
         case 27: if constexpr(!BO) { a = a + b; for(long i = 0; i < N; ++i) x[i] = x[i] + y[i]; return "a = a + b"; } else { a = !a; for(long i = 0; i < N; ++i) x[i] = !x[i]; return "a = !a"; }
         case 28: if constexpr(!BO) { Array1D<T> d(N + 1); rej("a += longer", [&] { a += d; }); rej("a = a + longer", [&] { a = a + d; }); return "compound with longer"; } else return nullptr;
         case 29: { auto d = mk1<T, Unaligned>(x); mc::step(); if(!(a == d).val() || (a == b).val() != samev(x, y)) mc::fail("equality", "%s: equality is wrong", ctx.c_str()); Array1D<T> e(a); e.resize_and_assign(b); if(!samev(elems(e), y)) bad("dynamic array from fixed", str(elems(e)), str(y)); return "compared"; }
         case 30: { A1 c(mk1<T, Unaligned>(y)); a = std::move(c); x = y; y = y; look("moved-from", c, zeros()); return "a = move(temporary)"; }
         case 31: { auto e = a.eval(); if(!samev(elems(e), x)) bad("eval()", str(elems(e)), str(x)); if(N) { e.un(0) = SL<T>(55); } return "eval"; }
         case 32: { A1 c(S(lab<T>(3))), d(Value{S(lab<T>(3))}); look("from scalar", c, V(N, lab<T>(3))); look("from Value", d, V(N, lab<T>(3))); A1 e; look("default", e, zeros()); A1 f{}; look("default", f, zeros()); return "constructed from scalar"; }
         case 33: { A1 c(b.begin(), b.end()); look("from iterators", c, y); A1 d(b.cbegin(), b.cend()); look("from const iterators", d, y); auto w = mk1<T, Unaligned>(y); A1 e(w.begin(), w.end()); look("from dynamic iterators", e, y); A1 f(b.rbegin(), b.rend()); look("from reverse iterators", f, ry);
            if(N) { rej("shorter range", [&] { A1 g(b.begin() + 1, b.end()); }); rej("reversed range", [&] { A1 g(b.end(), b.begin()); }); } w.insert_back(Strict<T>{}); rej("longer range", [&] { A1 g(w.begin(), w.end()); }); return "constructed from iterators"; }
         case 34: { with_list(y, [&](auto l) { A1 c(l); look("from list", c, y); A1 d = l; look("from list", d, y); }); rej("from longer list", [&] { with_list(nv(s, N + 1), [&](auto l) { A1 c(l); }); }); if(N) rej("from shorter list", [&] { with_list(nv(s, N - 1), [&](auto l) { A1 c(l); }); }); return "constructed from list"; }
         case 35: { for(long n = 0; n <= N + 2; ++n) { auto v = nv(s, n); auto d = mk1<T, Unaligned>(v); if(n == N) { A1 c(d); look("from array", c, v); A1 e = d(place::reverse); std::reverse(v.begin(), v.end()); look("from slice", e, v); } else { rej("from array of other size", [&] { A1 c(d); }); rej("from slice of other size", [&] { A1 c = d(place::reverse); }); } } return "constructed from array"; }
         case 36: { O1 o(b); look("other alignment", o, y); A1 c = o; look("from other alignment", c, y); return "constructed from the other alignment"; }
         case 37: { if(!N) return nullptr; Array2D<T> d(2, N ? N : 1); { d.row(1) = b; a = d.row(1); x = y; rej("a = row of other size", [&] { Array2D<T> q(2, N + 1); a = q.row(0); }); } return "a = row"; }
         case 38: { std::vector<A1> w(3, a); w[1] = b; look("in a vector", w[0], x); look("in a vector", w[1], y); look("in a vector", w[2], x); w.erase(w.begin()); look("erased", w[0], y); return "stored in a container"; }
         case 39: { if(!N) return nullptr; *a.data() = SL<T>(s.fresh); x[0] = lab<T>(s.fresh++); a.data()[N - 1] = SL<T>(s.fresh); x[N - 1] = lab<T>(s.fresh++); return "written through data()"; }
      }
      return nullptr;
   }
   static void init(St& s) { for(long i = 0; i < N; ++i) { s.a.un(i) = SL<T>(1 + i); s.b.un(i) = SL<T>(5 + i); s.x.push_back(lab<T>(1 + i)); s.y.push_back(lab<T>(5 + i)); } }
   static void sequences(int depth) {
      std::vector<int> p(depth, 0);
      for(;;) {
         auto s = std::make_unique<St>(); init(*s);
         ctx = "FixedArray1D<" + std::string(tname<T>()) + ", " + std::to_string(N) + (AF == Aligned ? ", Aligned>" : ">");
         bool ok = true;
         for(int i = 0; i < depth && ok; ++i) {
            const std::string before = ctx; ctx += "; op " + std::to_string(p[i]); mc::at("%s", ctx.c_str());
            const char* n = run(p[i], *s); ok = n; ctx = before + "; " + (n ? n : "-"); mc::at("%s", ctx.c_str());
            if(i + 1 == depth || !ok) { look("a", s->a, s->x); look("b", s->b, s->y); } else if(!agree1(s->a, s->x) || !agree1(s->b, s->y)) { look("a", s->a, s->x); look("b", s->b, s->y); ok = false; }
         }
         mc::trace();
         int k = depth - 1; while(k >= 0 && ++p[k] == OPS) p[k--] = 0;
         if(k < 0) return;
      }
   }
};
template <long R, long C, AlignmentFlag AF> struct Pair2 {
   using A2 = FixedArray2D<T, R, C, AF>; using O2 = FixedArray2D<T, R, C, AF == Aligned ? Unaligned : Aligned>;
   static constexpr int OPS = 34;
   struct St { A2 a, b; M x, y; long fresh = 10; };
   static M mat(long r, long c, const V& v) { M m; m.r = r; m.c = c; m.v = v; m.norm(); return m; }
   static M zeros() { return mat(R, C, V(R * C, T(0))); }
   static M nm(St& s, long r = R, long c = C) { V v; for(long i = 0; i < r * c; ++i) v.push_back(lab<T>(s.fresh++)); return mat(r, c, v); }
   static M revrows(const M& m) { M w = m; for(long i = 0; i < m.r; ++i) for(long j = 0; j < m.c; ++j) w(i, j) = m(m.r - 1 - i, j); return w; }
   template <class F> static void rej(const char* w, F&& f) { mc::step(); if(!throws(f)) mc::fail(std::string("accepted:") + w, "%s: %s is accepted", ctx.c_str(), w); }
   static std::vector<std::pair<long, long>> shapes() { return {{0, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}, {3, 1}, {2, 3}, {3, 2}, {3, 3}}; }
   static const char* run(int op, St& s) {
      A2 &a = s.a, &b = s.b; M &x = s.x, &y = s.y;
      constexpr long N = R * C;
      switch(op) {
         case 0: a = b; x = y; return "a = b";
         case 1: a = std::move(b); x = y; y = zeros(); return "a = move(b)";
         case 2: { auto& r = a; a = r; return "a = a"; }
         case 3: { auto& r = a; a = std::move(r); return "a = move(a)"; }
         case 4: std::swap(a, b); std::swap(x, y); return "swap(a, b)";
         case 5: { auto k = lab<T>(s.fresh++); a = S(k); x.v.assign(N, k); return "a = scalar"; }
         case 6: { x = nm(s); with_list2(x, [&](auto l) { a = l; }); return "a = list"; }
         case 7: { for(auto [r, c] : shapes()) if(r != R || c != C) rej("a = list of other shape", [&, r = r, c = c] { with_list2(nm(s, r, c), [&](auto l) { a = l; }); });
            if(R > 1) { using L = use::List2D<Strict<T>>; const auto z = SL<T>(8); rej("a = ragged list", [&] { a = L{{z, z, z}, {z, z}}; }); rej("a = ragged list", [&] { a = L{{z}, {z, z}, {z}}; }); rej("a = ragged list", [&] { a = L{{z, z}, {z, z, z}}; }); rej("a = list with an empty row", [&] { a = L{{z, z}, {}}; }); } return "a = list of other shape"; }
         case 8: { x = nm(s); auto d = mk2<T, Unaligned>(x); a = d; return "a = dynamic array"; }
         case 9: { x = nm(s); auto d = mk2<T, Aligned>(x); a = d; return "a = aligned dynamic array"; }
         case 10: { for(auto [r, c] : shapes()) if(r != R || c != C) { auto d = mk2<T, Unaligned>(nm(s, r, c)); rej("a = dynamic array of other shape", [&] { a = d; }); rej("a = slice of other shape", [&] { a = d(place::all, place::all); }); } return "a = array of other shape"; }
         case 11: { auto q = y; for(long i = 0; i < R; ++i) for(long j = 0; j < C; ++j) q(i, j) = y(i, C - 1 - j); a = b(place::all, place::reverse); x = q; return "a = b with columns reversed"; }
         case 12: { a = b(place::reverse, place::all); x = revrows(y); return "a = b with rows reversed"; }
         case 13: { a = generate(b, [](Strict<T> t) { return t; }); x = y; return "a = expression of b"; }
         case 14: { O2 c; for(long i = 0; i < N; ++i) c.un(i) = S(T(y.v[i])); a = c; x = y; return "a = fixed array of the other alignment"; }
         case 15: { FixedArray2D<T, R + 1, C + 1> c; rej("a = larger fixed array", [&] { a = c; }); if constexpr(R != C) { FixedArray2D<T, C, R> d; rej("a = transposed fixed array", [&] { a = d; }); if(true) { rej("a = transpose(a)", [&] { a = transpose(b); }); } } else { M t = y; for(long i = 0; i < R; ++i) for(long j = 0; j < C; ++j) t(i, j) = y(j, i); a = transpose(b); x = t; } return "a = transposed"; }
         case 16: { A2 c(a); look("copy", c, x); if(N) { c.un(0) = SL<T>(77); look("source of a copy", a, x); } return "copy constructed"; }
         case 17: { A2 c(std::move(a)); look("moved", c, x); x = zeros(); return "move constructed"; }
         case 18: { for(long i = 0; i < R; ++i) for(long j = 0; j < C; ++j) { T k = lab<T>(s.fresh++); a(i, j) = S(k); x(i, j) = k; } return "elements written"; }
         case 19: { long i = 0; for(auto& e : a) { T k = lab<T>(s.fresh++); e = S(k); x.v[i++] = k; } return "elements written through iterators"; }
         case 20: { if(!N) return nullptr; T k = lab<T>(s.fresh++); a.row(R - 1) = S(k); for(long j = 0; j < C; ++j) x(R - 1, j) = k; k = lab<T>(s.fresh++); a.col(0) = S(k); for(long i = 0; i < R; ++i) x(i, 0) = k; return "row and column assigned"; }
         case 21: { a(place::reverse, place::all) = b; x = revrows(y); return "a with rows reversed = b"; }
         case 22: { mc::step(); if(!throws([&] { a.at(R, 0); }) || !throws([&] { a(0, C); }) || !throws([&] { b.at(-1, 0); }) || !throws([&] { b(0, last + 1); }) || !throws([&] { a.row(R); }) || !throws([&] { a.col(-1); })) mc::fail("bounds", "%s: an index outside is accepted", ctx.c_str()); return "indices outside"; }
         case 23: if constexpr(!BO) { a += b; for(long i = 0; i < N; ++i) x.v[i] = x.v[i] + y.v[i]; a = a - b; for(long i = 0; i < N; ++i) x.v[i] = x.v[i] - y.v[i]; return "a += b, a = a - b"; } else { a = !a; for(long i = 0; i < N; ++i) x.v[i] = !x.v[i]; return "a = !a"; }
         case 24: if constexpr(!BO) { Array2D<T> d(R + 1, C + 1); rej("a += larger", [&] { a += d; }); rej("a = a + larger", [&] { a = a + d; }); return "compound with larger"; } else return nullptr;
         case 25: { auto d = mk2<T, Unaligned>(x); mc::step(); if(!(a == d).val() || (a == b).val() != samev(x.v, y.v)) mc::fail("equality", "%s: equality is wrong", ctx.c_str()); return "compared"; }
         case 26: { auto e = a.eval(); if(!(elems2(e) == x)) bad("eval()", str(elems2(e)), str(x)); if(N) e.un(0) = SL<T>(55); return "eval"; }
         case 27: { A2 c(S(lab<T>(3))), d(Value{S(lab<T>(3))}); look("from scalar", c, mat(R, C, V(N, lab<T>(3)))); look("from Value", d, mat(R, C, V(N, lab<T>(3)))); A2 e; look("default", e, zeros()); A2 f{}; look("default", f, zeros()); return "constructed from scalar"; }
         case 28: { with_list2(y, [&](auto l) { A2 c(l); look("from list", c, y); A2 d = l; look("from list", d, y); }); for(auto [r, c] : shapes()) if(r != R || c != C) rej("from list of other shape", [&, r = r, c = c] { with_list2(nm(s, r, c), [&](auto l) { A2 q(l); }); }); return "constructed from list"; }
         case 29: { for(auto [r, c] : shapes()) { auto m = nm(s, r, c); auto d = mk2<T, Unaligned>(m); if(r == R && c == C) { A2 q(d); look("from array", q, m); A2 e = d(place::reverse, place::all); look("from slice", e, revrows(m)); } else { rej("from array of other shape", [&] { A2 q(d); }); rej("from slice of other shape", [&] { A2 q = d(place::reverse, place::all); }); } } return "constructed from array"; }
         case 30: { O2 o(b); look("other alignment", o, y); A2 c = o; look("from other alignment", c, y); return "constructed from the other alignment"; }
         case 31: { std::vector<A2> w(3, a); w[1] = b; look("in a vector", w[0], x); look("in a vector", w[1], y); w.erase(w.begin()); look("erased", w[0], y); return "stored in a container"; }
         case 32: { if(!N) return nullptr; *a.data() = SL<T>(s.fresh); x.v[0] = lab<T>(s.fresh++); a.data()[N - 1] = SL<T>(s.fresh); x.v[N - 1] = lab<T>(s.fresh++); return "written through data()"; }
         case 33: { a.view1D() = b.view1D()(place::reverse); auto w = y.v; std::reverse(w.begin(), w.end()); x.v = w; return "view of a = view of b reversed"; }
      }
      return nullptr;
   }
   static void sequences(int depth) {
      std::vector<int> p(depth, 0);
      for(;;) {
         auto s = std::make_unique<St>(); s->x = zeros(); s->y = zeros(); for(long i = 0; i < R * C; ++i) { s->a.un(i) = SL<T>(1 + i); s->b.un(i) = SL<T>(5 + i); s->x.v[i] = lab<T>(1 + i); s->y.v[i] = lab<T>(5 + i); }
         ctx = "FixedArray2D<" + std::string(tname<T>()) + ", " + std::to_string(R) + ", " + std::to_string(C) + (AF == Aligned ? ", Aligned>" : ">");
         bool ok = true;
         for(int i = 0; i < depth && ok; ++i) {
            const std::string before = ctx; ctx += "; op " + std::to_string(p[i]); mc::at("%s", ctx.c_str());
            const char* n = run(p[i], *s); ok = n; ctx = before + "; " + (n ? n : "-"); mc::at("%s", ctx.c_str());
            if(i + 1 == depth || !ok) { look("a", s->a, s->x); look("b", s->b, s->y); } else if(!agree2(s->a, s->x) || !agree2(s->b, s->y)) { look("a", s->a, s->x); look("b", s->b, s->y); ok = false; }
         }
         mc::trace();
         int k = depth - 1; while(k >= 0 && ++p[k] == OPS) p[k--] = 0;
         if(k < 0) return;
      }
   }
};
#ifdef C20_DEEP
const int D = 3;
#else
const int D = 2;
#endif
}

#if C20_PART == 0
UNIT("1D: all sequences, sizes 0 1 2") { for(int d = 1; d <= D; ++d) { Pair1<0, Unaligned>::sequences(std::min(d, 2)); Pair1<1, Unaligned>::sequences(std::min(d, 2)); Pair1<2, Aligned>::sequences(std::min(d, 2)); } }
UNIT("1D: all sequences, size 3") { for(int d = 1; d <= D; ++d) Pair1<3, Unaligned>::sequences(d); }
UNIT("1D: all sequences, size 5 aligned") { for(int d = 1; d <= D; ++d) Pair1<5, Aligned>::sequences(mc::thorough ? d : std::min(d, 2)); }
#else
UNIT("2D: all sequences, 0x0 1x1 1x3") { for(int d = 1; d <= 2; ++d) { Pair2<0, 0, Unaligned>::sequences(d); Pair2<1, 1, Aligned>::sequences(d); Pair2<1, 3, Unaligned>::sequences(d); } }
UNIT("2D: all sequences, 2x3") { for(int d = 1; d <= D; ++d) Pair2<2, 3, Unaligned>::sequences(d); }
UNIT("2D: all sequences, 3x2 aligned") { for(int d = 1; d <= D; ++d) Pair2<3, 2, Aligned>::sequences(mc::thorough ? d : std::min(d, 2)); }
UNIT("2D: all sequences, 2x2") { for(int d = 1; d <= 2; ++d) Pair2<2, 2, Aligned>::sequences(d); }
#endif
