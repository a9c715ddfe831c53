// C06: every two-dimensional selection, nested, against index arithmetic.
#include "slices.hpp"

namespace {
template <class O> concept HasRvalueView = requires(O o) { std::move(o).view1D(); };
using Pm = Mat<long>;      // positions in the root
using Pv = std::vector<long>;
bool distinct_(Pv q) { std::sort(q.begin(), q.end()); return std::adjacent_find(q.begin(), q.end()) == q.end(); }

template <class Root> struct Ctx {
   Root& root;
   using T = typename Root::builtin_type;
   std::vector<T> init;
   static constexpr bool writable = requires(Root r) { r = Strict<T>{}; };
   void reset() { if constexpr(writable) for(long i = 0; i < (long)init.size(); ++i) root.un(i) = Strict<T>{T(init[i])}; }
   std::vector<T> now() { std::vector<T> v; for(long i = 0; i < (long)init.size(); ++i) v.push_back(root.un(i).val()); return v; }
};

template <class C, class S> void writes_(C& cx, S& s, const Pv& pos, const std::string& where, auto srcarr, auto revsrc) {
   using T = typename C::T;
   const long n = (long)pos.size();
   bool ok = true;
   for(long i = 0; i < n; ++i) ok = ok && &s.un(i) == &cx.root.un(pos[i]);
   if(!ok) mc::fail("sel2-address:" + where, "the selection does not refer to the underlying elements");
   if(!distinct_(pos)) return;
   auto expect = [&](const char* w, auto f, auto g) {
      cx.reset(); f(); auto m = cx.init; for(long i = 0; i < n; ++i) m[pos[i]] = g(i); mc::step();
      if(!samev(cx.now(), m)) mc::fail(std::string("sel2-write-") + w + ":" + where, "%s: write through selection: expected %s got %s", where.c_str(), str(m).c_str(), str(cx.now()).c_str());
      cx.reset(); };
   expect("scalar", [&] { s = SL<T>(50); }, [&](long) { return lab<T>(50); });
   expect("array", [&] { s = srcarr; }, [&](long i) { return lab<T>(21 + i); });
   expect("selection", [&] { s = revsrc(srcarr); }, [&](long i) { return lab<T>(21 + n - 1 - i); });
   if constexpr(!std::is_same_v<T, bool>) {
      expect("+=", [&] { s += SL<T>(3); s *= srcarr; }, [&](long i) { return T((cx.init[pos[i]] + 3) * lab<T>(21 + i)); });
      expect("-=self", [&] { s -= s; }, [&](long) { return T(0); });
   }
   if(n) expect("element", [&] { s.un(n - 1) = SL<T>(33); }, [&](long i) { return i == n - 1 ? lab<T>(33) : T(cx.init[pos[i]]); });
}

// Nested selections: read, compare addresses, one write.
template <class C, class S> void light(C& cx, S& s, const Pv& pos, const auto& want, bool ok, const std::string& where) {
   using T = typename C::T;
   if(!ok) mc::fail("sel2-read-nested:" + where, "selected elements differ: expected %s", str(want).c_str());
   if constexpr(C::writable && requires { s = Strict<T>{}; }) {
      for(std::size_t i = 0; i < pos.size(); ++i) if(&s.un(long(i)) != &cx.root.un(pos[i])) mc::fail("sel2-address:" + where, "the selection does not refer to the underlying elements");
      cx.reset(); s = SL<T>(50); auto m = cx.init; for(long q : pos) m[q] = lab<T>(50);
      if(!samev(cx.now(), m)) mc::fail("sel2-write-nested:" + where, "write through selection: expected %s got %s", str(m).c_str(), str(cx.now()).c_str());
      cx.reset();
   }
   mc::step(); mc::trace(); mc::state(hash_(pos, 5));
}

template <int LV = 0, class C, class S> void leaf1(C& cx, S&& s_, const Pv& pos, const std::string& where) {
   auto s = s_;
   using T = typename C::T;
   std::vector<T> want; for(long p : pos) want.push_back(cx.init[p]);
   const long n = (long)pos.size();
   if constexpr(LV > 0) { light(cx, s, pos, want, agree1(s, want), where); return; }
   else {
   bool ok = agree1(s, want) && agree1(std::as_const(s), want) && throws([&] { (void)s[n]; }) && throws([&] { (void)s.at(-1L); });
   Array1D<T> cp(s); ok = ok && agree1(cp, want);
   if(!ok) mc::fail("sel2-read1:" + where, "selected elements differ: expected %s got %s", str(want).c_str(), str(elems(s)).c_str());
   if constexpr(C::writable && requires { s = Strict<T>{}; }) {
      auto src = mk1<T, Unaligned>(iota<T>(n, 21));
      writes_(cx, s, pos, where, src, [](auto& a) { return a(place::reverse); });
   }
   mc::step(); mc::trace(); mc::state(hash_(pos, 5));
   }
}
template <int LV = 0, class C, class S> void leaf2(C& cx, S& s, const Pm& pos, const std::string& where) {
   using T = typename C::T;
   Mat<T> want; want.r = pos.r; want.c = pos.c; for(long p : pos.v) want.v.push_back(cx.init[p]);
   if constexpr(LV > 0) { light(cx, s, pos.v, want.v, agree2(s, want), where); return; }
   else {
   bool ok = agree2(s, want) && agree2(std::as_const(s), want);
   ok = ok && throws([&] { (void)s(pos.r, 0); }) && throws([&] { (void)s.at(0, pos.c); }) && throws([&] { (void)std::as_const(s)(-1, 0); });
   if(pos.r) ok = ok && same(s(last, last).val(), T(want.v.back())) && same(s.at(last - (pos.r - 1), 0).val(), T(want.v.front()));
   Array2D<T> cp(s); ok = ok && agree2(cp, want);
   auto ev = s.eval(); ok = ok && agree2(ev, want);
   S c2(s); ok = ok && agree2(c2, want);
   if(!ok) mc::fail("sel2-read2:" + where, "selection differs: expected %s got %s", str(want).c_str(), str(elems2(s)).c_str());
   if constexpr(C::writable && requires { s = Strict<T>{}; }) {
      auto src = mk2<T, Unaligned>(iota2<T>(pos.r, pos.c, 21));
      writes_(cx, s, pos.v, where, src, [](auto& a) { return a(place::reverse, place::reverse); });
      if(pos.r) { Array2D<T> bad(pos.r, pos.c + 1, SL<T>(1)); bool t = throws([&] { s = bad; }); Array2D<T> bad2(pos.r + 1, pos.c, SL<T>(1)); t = t && throws([&] { s = bad2; });
         if(!t || !samev(cx.now(), cx.init)) mc::fail("sel2-size-mismatch", "%s: assigned a source of another shape", where.c_str()); }
   }
   mc::step(); mc::trace(); mc::state(hash_(pos, 6));
   }
}

#ifndef C06_NEXT
#define C06_NEXT 31
#endif
constexpr int NEXT = C06_NEXT;  // which kinds of first selection are nested further in this program
template <int K> using Kind = std::integral_constant<int, K>;
template <class A, class B> using KindOf = Kind<(std::is_same_v<A, std::vector<ImplicitInt>> || std::is_same_v<B, std::vector<ImplicitInt>> || std::is_same_v<A, place::complement> || std::is_same_v<B, place::complement>) ? 2 : 1>;

// One selection attempt: f makes the object, valid/np is what the model says.
template <class F, class G> void attempt(bool valid, const std::string& where, F&& f, G&& g) {
   mc::at("%s", where.c_str());
   bool got = false;
   bool t = throws([&] { f([&](auto s, auto... tag) { got = true; if(!valid) mc::fail("sel2-accepted:" + where, "a selection that does not fit was accepted"); else { g(s, tag...); mc::at("%s", where.c_str()); } }); });
   mc::step();
   if(t && got) mc::fail("sel2-throws:" + where, "a valid use of a selection was rejected");
   else if(!t && !got) return;  // this form is left out at this depth
   else if(t == valid) mc::fail("sel2-validity:" + where, "%s", valid ? "a valid selection was rejected" : "an invalid selection was accepted");
}

Pm sub(const Pm& m, const Pv& R, const Pv& C) { Pm x; x.r = (long)R.size(); x.c = (long)C.size(); for(long i : R) for(long j : C) x.v.push_back(m(i, j)); x.norm(); return x; }

std::vector<D> dom(long n, int level) {
   if(level == 0) return dom_mid(n);
   std::vector<D> r = dom_tiny(n);
   return r;
}
// index pairs with last-relative forms
template <class F> void indices(long n, int level, F f) {
   for(long i = -1; i <= n; ++i) { f(std::to_string(i), i, [i](auto g) { g(i); }); if(level == 0 || i >= n - 1) f("last-" + std::to_string(i), n - 1 - i, [i](auto g) { g(last - i); }); }
   if(level == 0) for(long e : {std::numeric_limits<long>::max(), std::numeric_limits<long>::min()}) f(std::to_string(e), e, [e](auto g) { g(e); });
}

template <int Depth, int LV, class C, class O> void go2(C& cx, O& obj, const Pm& pos, const std::string& path);

template <int Depth, int LV, class C, class O> void go1(C& cx, O& obj, const Pv& pos, const std::string& path) {
   leaf1<LV>(cx, obj, pos, path);
   constexpr int level = LV; (void)level;
   if constexpr(Depth > 0) {
      const long n = (long)pos.size();
      for(const D& d : dom(n, 1)) {
         Pv sel, np; bool v = pick(d, n, sel); if(v) for(long x : sel) np.push_back(pos[x]);
         attempt(v, path + " -> " + show(d), [&](auto k) { with_slice(d, [&](auto sl) { k(obj(sl)); k(O(obj)(sl)); }); }, [&](auto& s, auto...) { leaf1<LV>(cx, s, np, path + " -> " + show(d)); });
      }
      for(long r = -1; r <= n + 1; ++r) for(long c = -1; c <= n + 1; ++c) {
         bool v = r >= 0 && c >= 0 && r * c == n;
         Pm np; np.r = r; np.c = c; np.v = pos; if(v) np.norm();
         const std::string w = path + " -> view2D(" + std::to_string(r) + "," + std::to_string(c) + ")";
         attempt(v, w, [&](auto k) { k(obj.view2D(r, c)); k(O(obj).view2D(r, c)); k(std::as_const(obj).view2D(r, c)); }, [&](auto& s, auto...) { leaf2<LV>(cx, s, np, w); });
      }
      attempt(true, path + " -> view1D", [&](auto k) { k(obj.view1D()); k(O(obj).view1D()); }, [&](auto& s, auto...) { leaf1<LV>(cx, s, pos, path + " -> view1D"); });
   }
}

template <int Depth, int LV, class C, class O> void go2(C& cx, O& obj, const Pm& pos, const std::string& path) {
   const long r = pos.r, c = pos.c;
   constexpr int level = LV;
   using namespace std;
   const std::string P = path + " -> ";
   auto next2 = [&](const Pm& np, const std::string& w) { return [&cx, np, w](auto& s, auto... tag) { leaf2<LV>(cx, s, np, w); if constexpr(Depth > 1 && ((decltype(tag)::value & NEXT) || ...)) go2<Depth - 1, LV + 1>(cx, s, np, w); }; };
   auto next1 = [&](const Pv& np, const std::string& w) { return [&cx, np, w](auto& s, auto...) { go1<(Depth > 1 && (NEXT & 16)), LV>(cx, s, np, w); }; };
   constexpr bool own = !HasRvalueView<O>;
   const bool deepc = level == 0;
   // general slices
   auto RD = dom(r, level), CD = dom(c, level);
   if constexpr(level == 0) { // full rows domain with a small columns domain and the other way round
      auto ct = dom_tiny(c), rt = dom_tiny(r);
      auto pair_ = [&](const D& a, const D& b) {
         Pv R, K; bool v = pick(a, r, R); bool v2 = pick(b, c, K); v = v && v2;
         // a range (first..last) is never valid on an object without elements
         const std::string w = P + "(" + show(a) + ", " + show(b) + ")";
         Pm np = v ? sub(pos, R, K) : Pm{};
         attempt(v, w, [&](auto k) { with_slice(a, [&](auto s1) { with_slice(b, [&](auto s2) { k(obj(s1, s2), KindOf<decltype(s1), decltype(s2)>{}); }); }); }, next2(np, w));
      };
      for(auto& a : RD) for(auto& b : {ct[0], ct[5], D{ALL}, D{VEC, 0, 0, 0, {c - 1, 0}}}) pair_(a, b);
      for(auto& b : CD) for(auto& a : {rt[0], rt[5], D{ALL}, D{VEC, 0, 0, 0, {r - 1, 0}}}) pair_(a, b);
      for(auto& a : rt) for(auto& b : ct) { Pv R, K; bool v = pick(a, r, R); bool v2 = pick(b, c, K); v = v && v2; const std::string w = P + "const(" + show(a) + ", " + show(b) + ")"; Pm np = v ? sub(pos, R, K) : Pm{};
         attempt(v, w, [&](auto k) { with_slice(a, [&](auto s1) { with_slice(b, [&](auto s2) { if constexpr(LV == 0) k(std::as_const(obj)(s1, s2)); }); }); }, [&](auto& s, auto...) { leaf2<LV>(cx, s, np, w); }); }
   } else {
      for(auto& a : RD) for(auto& b : CD) {
         Pv R, K; bool v = pick(a, r, R); bool v2 = pick(b, c, K); v = v && v2; const std::string w = P + "(" + show(a) + ", " + show(b) + ")"; Pm np = v ? sub(pos, R, K) : Pm{};
         attempt(v, w, [&](auto k) { with_slice(a, [&](auto s1) { with_slice(b, [&](auto s2) { if constexpr(requires { O(obj)(s1, s2); }) k(O(obj)(s1, s2)); else k(obj(s1, s2)); }); }); }, [&](auto& s, auto...) { leaf2<LV>(cx, s, np, w); }); }
   }
   // rows / cols sets
   for(auto& a : RD) { Pv R, K; bool v = pick(a, r, R); pick({ALL}, c, K); const std::string w = P + "rows(" + show(a) + ")"; Pm np = v ? sub(pos, R, K) : Pm{};
      attempt(v, w, [&](auto k) { with_slice(a, [&](auto s1) { k(obj.rows(s1)); if constexpr(!own && LV == 0) k(O(obj).rows(s1)); if constexpr(LV == 0) k(std::as_const(obj).rows(s1)); }); }, [&](auto& s, auto...) { leaf2<LV>(cx, s, np, w); }); }
   for(auto& b : CD) { Pv R, K; bool v = pick(b, c, K); pick({ALL}, r, R); const std::string w = P + "cols(" + show(b) + ")"; Pm np = v ? sub(pos, R, K) : Pm{};
      attempt(v, w, [&](auto k) { with_slice(b, [&](auto s1) { k(obj.cols(s1)); if constexpr(!own && LV == 0) k(O(obj).cols(s1)); if constexpr(LV == 0) k(std::as_const(obj).cols(s1)); }); }, [&](auto& s, auto...) { leaf2<LV>(cx, s, np, w); }); }
   // index lists
   if constexpr(level == 0) for(long i = -1; i <= r; ++i) for(long j = -1; j <= c; ++j) {
      bool vi = i >= 0 && i < r && r > 0, vj = j >= 0 && j < c && c > 0; Pv R{i, 0}, K{j, 0}, A, B; pick({ALL}, r, A); pick({ALL}, c, B);
      const std::string s = "{" + std::to_string(i) + ",0},{" + std::to_string(j) + ",0}";
      attempt(vi && vj, P + "list-list" + s, [&](auto k) { k(obj({i, 0L}, {j, 0L})); if constexpr(LV == 0) k(std::as_const(obj)({i, 0L}, {j, 0L})); }, [&](auto& x, auto...) { leaf2<LV>(cx, x, sub(pos, R, K), P + "list-list" + s); });
      attempt(vi, P + "list-all" + s, [&](auto k) { k(obj({i, 0L}, place::all)); if constexpr(LV == 0) k(std::as_const(obj)({i, 0L}, place::all)); }, [&](auto& x, auto...) { leaf2<LV>(cx, x, sub(pos, R, B), P + "list-all" + s); });
      attempt(vj, P + "all-list" + s, [&](auto k) { k(obj(place::all, {j, 0L})); if constexpr(LV == 0) k(std::as_const(obj)(place::all, {j, 0L})); }, [&](auto& x, auto...) { leaf2<LV>(cx, x, sub(pos, A, K), P + "all-list" + s); });
      if(j == 0) attempt(vi, P + "rows-list" + s, [&](auto k) { k(obj.rows({i, 0L})); if constexpr(LV == 0) k(std::as_const(obj).rows({i, 0L})); }, [&](auto& x, auto...) { leaf2<LV>(cx, x, sub(pos, R, B), P + "rows-list" + s); });
      if(i == 0) attempt(vj, P + "cols-list" + s, [&](auto k) { k(obj.cols({j, 0L})); if constexpr(LV == 0) k(std::as_const(obj).cols({j, 0L})); }, [&](auto& x, auto...) { leaf2<LV>(cx, x, sub(pos, A, K), P + "cols-list" + s); });
   }
   // row, col, diag
   indices(r, level, [&](std::string nm, long i, auto with) { bool v = i >= 0 && i < r; Pv np; if(v) for(long j = 0; j < c; ++j) np.push_back(pos(i, j)); const std::string w = P + "row(" + nm + ")";
      attempt(v, w, [&](auto k) { with([&](auto ix) { k(obj.row(ix)); if constexpr(!own && LV == 0) k(O(obj).row(ix)); }); }, next1(np, w));
      attempt(v, w, [&](auto k) { with([&](auto ix) { if constexpr(LV == 0) k(std::as_const(obj).row(ix)); }); }, [&](auto& s, auto...) { leaf1<LV>(cx, s, np, w); }); });
   indices(c, level, [&](std::string nm, long j, auto with) { bool v = j >= 0 && j < c; Pv np; if(v) for(long i = 0; i < r; ++i) np.push_back(pos(i, j)); const std::string w = P + "col(" + nm + ")";
      attempt(v, w, [&](auto k) { with([&](auto ix) { k(obj.col(ix)); if constexpr(!own && LV == 0) k(O(obj).col(ix)); }); }, next1(np, w));
      attempt(v, w, [&](auto k) { with([&](auto ix) { if constexpr(LV == 0) k(std::as_const(obj).col(ix)); }); }, [&](auto& s, auto...) { leaf1<LV>(cx, s, np, w); }); });
   for(long d = -r - 1; d <= c + 1; ++d) { bool v = d >= 0 ? d < c : -d < r; Pv np; for(long i = 0; i < r; ++i) if(i + d >= 0 && i + d < c) np.push_back(pos(i, i + d)); const std::string w = P + "diag(" + std::to_string(d) + ")";
      attempt(v, w, [&](auto k) { k(obj.diag(d)); if constexpr(!own && LV == 0) k(O(obj).diag(d)); }, next1(np, w));
      attempt(v, w, [&](auto k) { if constexpr(LV == 0) k(std::as_const(obj).diag(d)); }, [&](auto& s, auto...) { leaf1<LV>(cx, s, np, w); });
      if(d == 0) { attempt(true, P + "diag()", [&](auto k) { k(obj.diag()); if constexpr(!own && LV == 0) k(O(obj).diag()); if constexpr(LV == 0) k(std::as_const(obj).diag()); }, [&](auto& s, auto...) { leaf1<LV>(cx, s, np, P + "diag()"); }); } }
   // blocks
   const long lo = deepc ? -1 : 0;
   for(long i1 = lo; i1 <= r; ++i1) for(long j1 = lo; j1 <= c; ++j1) for(long a = -1; a <= r + 1; ++a) for(long b = -1; b <= c + 1; ++b) {
      if(!deepc && ((i1 + j1 + a + b) & 1)) continue;
      Pv R, K; bool v = pick({SEQ, i1, a, 1}, r, R); bool v2 = pick({SEQ, j1, b, 1}, c, K); v = v && v2;
      std::string w = P + "block(" + std::to_string(i1) + "," + std::to_string(j1) + "," + std::to_string(a) + "," + std::to_string(b) + ")";
      Pm np = v ? sub(pos, R, K) : Pm{};
      attempt(v, w, [&](auto k) { k(obj.block(i1, j1, a, b)); if constexpr(!own && LV == 0) k(O(obj).block(i1, j1, a, b)); if constexpr(LV == 0) k(std::as_const(obj).block(i1, j1, a, b)); if(a >= 0 && a < r && b >= 0 && b < c) k(obj.block(last - (r - 1 - i1), j1, last - (r - 1 - a), last - (c - 1 - b))); }, [&](auto& s, auto...) { leaf2<LV>(cx, s, np, w); });
      R.clear(); K.clear();
      v = pick({SEQN, i1, a, 1}, r, R); v2 = pick({SEQN, j1, b, 1}, c, K); v = v && v2; np = v ? sub(pos, R, K) : Pm{};
      w = P + "blockN(" + std::to_string(i1) + "," + std::to_string(j1) + "," + std::to_string(a) + "," + std::to_string(b) + ")";
      attempt(v, w, [&](auto k) { k(obj.blockN(i1, j1, a, b)); if constexpr(!own && LV == 0) k(O(obj).blockN(i1, j1, a, b)); if constexpr(LV == 0) k(std::as_const(obj).blockN(i1, j1, a, b)); }, [&](auto& s, auto...) { leaf2<LV>(cx, s, np, w); });
   }
   // views
   attempt(true, P + "view1D", [&](auto k) { k(obj.view1D()); if constexpr(!own && LV == 0) k(O(obj).view1D()); }, next1(pos.v, P + "view1D"));
   attempt(true, P + "const view1D", [&](auto k) { if constexpr(LV == 0) k(std::as_const(obj).view1D()); }, [&](auto& s, auto...) { leaf1<LV>(cx, s, pos.v, P + "const view1D"); });
   const long N = r * c;
   for(long a = -1; a <= N + 1; ++a) for(long b = -1; b <= N + 1; ++b) {
      bool v = a >= 0 && b >= 0 && a * b == N; Pm np; np.r = a; np.c = b; np.v = pos.v; if(v) np.norm(); const std::string w = P + "view2D(" + std::to_string(a) + "," + std::to_string(b) + ")";
      attempt(v, w, [&](auto k) { k(obj.view2D(a, b), Kind<8>{}); }, next2(np, w));
      if(v) attempt(v, w, [&](auto k) { if constexpr(LV == 0) k(std::as_const(obj).view2D(a, b)); if constexpr(!own && LV == 0) k(O(obj).view2D(a, b)); }, [&](auto& s, auto...) { leaf2<LV>(cx, s, np, w); });
   }
}

template <int Depth, class Root> void root(Root& rt, const char* nm) {
   const long r = rt.rows().val(), c = rt.cols().val();
   Ctx<Root> cx{rt, elems2(rt).v};
   Pm p; p.r = r; p.c = c; for(long i = 0; i < r * c; ++i) p.v.push_back(i);
   go2<Depth, 0>(cx, rt, p, std::string(nm) + std::to_string(r) + "x" + std::to_string(c));
}
template <class T, AlignmentFlag AF, int Depth> void arr(std::vector<std::pair<long, long>> sh) {
   for(auto [r, c] : sh) { auto A = mk2<T, AF>(iota2<T>(r, c)); root<Depth>(A, tname<T>()); }
}
}  // namespace
using V = std::vector<std::pair<long, long>>;
#if C06_PART == 0
UNIT("int/depth1") { arr<int, Unaligned, 1>(V{{0, 0}, {1, 1}, {1, 2}, {1, 3}, {2, 1}, {3, 1}, {2, 2}, {2, 3}, {3, 2}, {3, 3}, {1, 4}, {4, 1}, {2, 4}, {4, 2}, {4, 3}, {3, 4}}); }
#elif C06_PART == 1
UNIT("int/depth2/small") { arr<int, Unaligned, 2>(V{{0, 0}, {1, 1}, {1, 2}, {2, 1}}); }
UNIT("int/depth2/22") { arr<int, Unaligned, 2>(V{{2, 2}}); }
UNIT("int/depth2/23") { arr<int, Unaligned, 2>(V{{2, 3}}); }
UNIT("int/depth2/32") { arr<int, Unaligned, 2>(V{{3, 2}}); }
static int d_ = (mc::units().push_back({"int/depth2/33", [] { arr<int, Unaligned, 2>(V{{3, 3}}); }, true}), mc::units().push_back({"int/depth2/34", [] { arr<int, Unaligned, 2>(V{{3, 4}, {4, 3}}); }, true}), 0);
#elif C06_PART == 2
UNIT("double/aligned/depth1") { arr<double, Aligned, 1>(V{{0, 0}, {1, 1}, {2, 3}, {3, 2}, {5, 1}, {1, 5}}); }
UNIT("bool/depth1") { arr<bool, Unaligned, 1>(V{{0, 0}, {2, 3}, {3, 2}}); }
#elif C06_PART == 3
UNIT("fixed/depth1") { { FixedArray2D<int, 2, 3> F{{1_si, 2_si, 3_si}, {4_si, 5_si, 6_si}}; root<1>(F, "fixed"); } { FixedArray2D<long, 3, 2, Aligned> F{{1_sl, 2_sl}, {3_sl, 4_sl}, {5_sl, 6_sl}}; root<1>(F, "fixed"); } }
#elif C06_PART == 4
UNIT("expr/depth1") { for(auto [r, c] : V{{0, 0}, {1, 1}, {2, 3}, {3, 2}}) { auto A = mk2<int, Unaligned>(iota2<int>(r, c)); auto e = A + A; root<1>(e, "A+A"); auto t = transpose(A); root<1>(t, "transpose"); } }
#elif C06_PART == 5
UNIT("expr/depth2") { for(auto [r, c] : V{{2, 2}, {1, 2}}) { auto A = mk2<int, Unaligned>(iota2<int>(r, c)); auto e = -A; root<2>(e, "-A"); } }
#elif C06_PART == 6
UNIT("one-to-two") { for(long n : {0L, 1L, 4L, 6L}) { auto A = mk1<long, Unaligned>(iota<long>(n, 1)); struct R1 { Array1D<long>& a; using builtin_type = long; Strict<long>& un(long i) { return a.un(i); } R1& operator=(Strict<long>) { return *this; } } rr{A};
   Ctx<R1> cx{rr, elems(A)}; Pv p; for(long i = 0; i < n; ++i) p.push_back(i);
   for(long r = -1; r <= n + 1; ++r) for(long c = -1; c <= n + 1; ++c) { bool v = r >= 0 && c >= 0 && r * c == n; Pm np; np.r = r; np.c = c; np.v = p; if(v) np.norm();
      std::string w = "long[" + std::to_string(n) + "].view2D(" + std::to_string(r) + "," + std::to_string(c) + ")";
      attempt(v, w, [&](auto k) { k(A.view2D(r, c)); }, [&](auto& s, auto...) { leaf2(cx, s, np, w); go2<1, 0>(cx, s, np, w); });
      if(n > 1) { Pv rp(p.rbegin(), p.rend()); Pm rn = np; rn.v = rp; if(v) rn.norm(); attempt(v, w + " of reversed", [&](auto k) { k(A(place::reverse).view2D(r, c)); }, [&](auto& s, auto...) { leaf2(cx, s, rn, w); }); } } } }
#elif C06_PART == 7
UNIT("attach") { long buf[8] = {9, 1, 2, 3, 4, 5, 6, 9}; long* p = buf + 1; for(auto [r, c] : V{{0, 0}, {1, 1}, {2, 3}, {3, 2}, {1, 6}, {6, 1}}) { auto a = attach2D(p, r, c); root<1>(a, "attach"); if(buf[0] != 9 || buf[7] != 9) mc::fail("attach-outside", "wrote outside"); } }
#endif
