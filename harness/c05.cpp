// C05: every chain of one-dimensional slice selections against index arithmetic.
#include "slices.hpp"

namespace {
// What the positions of the current object are in the root.
using Pos_ = std::vector<long>;

template <class Root> struct Ctx {
   Root& root;
   std::vector<typename Root::builtin_type> init;   // root content, restored before every execution
   using T = typename Root::builtin_type;
   static constexpr bool writable = requires(Root r) { r = Strict<T>{}; };
   void reset() { if constexpr(writable) for(long i = 0; i < (long)init.size(); ++i) root.un(i) = Strict<T>{T(init[i])}; }
   bool content(const std::vector<T>& m) { return samev(elems(root), m); }
};

bool distinct_(const Pos_& p) { auto q = p; std::sort(q.begin(), q.end()); return std::adjacent_find(q.begin(), q.end()) == q.end(); }

template <class C, class S> void check_leaf(C& cx, S& s, const Pos_& pos, const std::string& where, bool writes, int level) {
   using T = typename C::T;
   const long n = (long)pos.size();
   std::vector<T> want; for(long p : pos) want.push_back(cx.init[p]);
   bool ok = agree1(s, want) && agree1(std::as_const(s), want);
   // copies denote the same elements
   S c2(s); ok = ok && agree1(c2, want);
   if(n) { ok = ok && same(s[last].val(), T(want[n - 1])) && same(s.at(last - (n - 1)).val(), T(want[0])); }
   ok = ok && throws([&] { (void)s[-1L]; }) && throws([&] { (void)s.at(n); });
   if(level == 0) {
      for(long i : {n, n + 1, -n - 1}) ok = ok && throws([&] { (void)s[i]; }) && throws([&] { (void)s.at(-i); }) && throws([&] { (void)std::as_const(s)[i]; });
      if(n) ok = ok && throws([&] { (void)s[last - n]; }) && throws([&] { (void)s[last + 1]; });
   }
   auto ev = s.eval(); ok = ok && agree1(ev, want);
   Array1D<T, Aligned> cp(s); ok = ok && agree1(cp, want);
   if constexpr(C::writable && requires { s = Strict<T>{}; }) {
      // elements are the root's own elements
      for(long i = 0; i < n; ++i) ok = ok && (&s.un(i) == &cx.root.un(pos[i])) && (&s[i] == &cx.root.un(pos[i]));
      if(writes && distinct_(pos)) {
         auto base = cx.init;
         auto expect = [&](const char* w, auto f, auto g) {
            cx.reset(); f(); auto m = base; for(long i = 0; i < n; ++i) m[pos[i]] = g(i); mc::step();
            if(!cx.content(m)) mc::fail("slice-write:" + std::string(w), "%s: write through slice: expected %s got %s", where.c_str(), str(m).c_str(), str(elems(cx.root)).c_str());
            cx.reset(); };
         expect("scalar", [&] { s = SL<T>(50); }, [&](long) { return lab<T>(50); });
         for(long i = 0; i < n; ++i) expect("element", [&] { s[i] = SL<T>(33); }, [&](long k) { return k == i ? lab<T>(33) : T(want[k]); });
         auto src = mk1<T, Unaligned>(iota<T>(n, 21));
         expect("array", [&] { s = src; }, [&](long i) { return lab<T>(21 + i); });
         if(n == 2) expect("list", [&] { s = {SL<T>(7), SL<T>(8)}; }, [&](long i) { return lab<T>(7 + i); });
         if(n == 1) expect("list", [&] { s = use::List1D<Strict<T>>{SL<T>(7)}; }, [&](long i) { return lab<T>(7 + i); });
         if constexpr(!std::is_same_v<T, bool>) {
            expect("+=scalar", [&] { s += SL<T>(3); }, [&](long i) { return T(want[i] + 3); });
            expect("*=array", [&] { s *= src; }, [&](long i) { return T(want[i] * lab<T>(21 + i)); });
            expect("+=self", [&] { s += s; }, [&](long i) { return T(want[i] + want[i]); });
         }
         { auto srcs = mk1<T, Unaligned>(iota<T>(n, 21)); auto o = srcs(place::reverse);
           expect("slice", [&] { s = o; }, [&](long i) { return lab<T>(20 + n - i); }); }
         if(n) { Array1D<T> bad(n + 1, SL<T>(1)); bool t = throws([&] { s = bad; }); if(!t || !cx.content(base)) mc::fail("slice-size-mismatch", "%s: assigning %ld elements to a slice of %ld", where.c_str(), n + 1, n); }
      }
   }
   mc::step(); mc::trace();
   std::uint64_t h = cx.init.size() * 64 + level; for(long p : pos) h = mc::mix(h, p); mc::state(h);
   if(!ok) mc::fail("slice-read:" + where, "selected elements differ: expected %s got %s", str(want).c_str(), str(elems(s)).c_str());
}

// Applies d to obj (as lvalue, const lvalue and rvalue) and continues.
template <int Depth, class C, class O> void go(C& cx, O& obj, const Pos_& pos, const std::string& path, int level, bool writes) {
   const long n = (long)pos.size();
   auto ds = level == 0 ? dom_full(n) : level == 1 ? dom_mid(n) : dom_tiny(n);
   const bool wr = writes;
   using T_ = typename C::T;
   for(const D& d : ds) {
      Pos_ sel, np;
      const bool valid = pick(d, n, sel);
      for(long x : sel) np.push_back(pos[x]);
      const std::string where = path + " " + show(d);
      mc::at("%s", where.c_str());
      bool got = false;
      auto body = [&](auto s) {
         got = true;
         if(!valid) { mc::fail("slice-accepted:" + where, "an out-of-range selection was accepted; size %ld", s.size().val()); return; }
         if(d.b > 4096 && d.c == 0 && (d.k == SEQN || d.k == SEQN_W)) {  // one element repeated very often
            if(s.size().val() != d.b || !same(s[0].val(), T_(cx.init[pos[d.a]])) || !same(s[d.b - 1].val(), T_(cx.init[pos[d.a]])) || !throws([&] { (void)s[d.b]; })) mc::fail("slice-repeat:" + where, "repeated element differs");
            mc::step(); return;
         }
         check_leaf(cx, s, np, where, wr, level);
         if constexpr(Depth > 1) { go<Depth - 1>(cx, s, np, path + " " + show(d) + " ->", level + 1, writes); mc::at("%s", where.c_str()); }
      };
      bool t = throws([&] {
         if(d.k == ILIST) {
            if(d.v.size() == 1) body(obj(use::IndexList{d.v[0]})); else if(d.v.size() == 2) body(obj({d.v[0], d.v[1]})); else body(obj({d.v[0], d.v[1], d.v[2]}));
         } else with_slice(d, [&](auto sl) { body(obj(sl)); });
      });
      mc::step();
      if(t && got) { mc::fail("slice-throws:" + where, "a valid use of a slice was rejected"); continue; }
      if(t != !valid) mc::fail("slice-validity:" + where, valid ? "a valid selection was rejected" : "an invalid selection was accepted");
      // const and rvalue forms select the same elements
      if(valid && d.k != ILIST && !(d.b > 4096 && d.c == 0)) {
         std::vector<typename C::T> want; for(long p : np) want.push_back(cx.init[p]);
         auto same_ = [&](auto s) { if(!agree1(s, want)) mc::fail("slice-const:" + where, "const or rvalue selection differs"); mc::step(); };
         bool t2 = throws([&] { with_slice(d, [&](auto sl) { same_(std::as_const(obj)(sl)); if constexpr(requires { O(obj)(sl); }) same_(O(obj)(sl)); }); });
         if(t2) mc::fail("slice-const-throws:" + where, "const or rvalue selection of a valid slice was rejected");
      } else if(!valid && d.k != ILIST) {
         bool t2 = throws([&] { with_slice(d, [&](auto sl) { auto s = std::as_const(obj)(sl); (void)s; }); });
         if(!t2) mc::fail("slice-accepted-const:" + where, "an out-of-range selection was accepted on a const object");
         mc::step();
      }
   }
}

template <class T, AlignmentFlag AF, int Depth> void arrays(long lo, long hi, int level, bool writes) {
   for(long n = lo; n <= hi; ++n) {
      auto v = iota<T>(n, 1);
      Array1D<T, AF> A = mk1<T, AF>(v);
      Ctx<Array1D<T, AF>> cx{A, v};
      Pos_ p; for(long i = 0; i < n; ++i) p.push_back(i);
      go<Depth>(cx, A, p, std::string(tname<T>()) + "[" + std::to_string(n) + "]", level, writes);
   }
}
template <class Root, int Depth> void root(Root& r, const char* name, int level, bool writes) {
   Ctx<Root> cx{r, elems(r)};
   Pos_ p; for(long i = 0; i < r.size().val(); ++i) p.push_back(i);
   go<Depth>(cx, r, p, name, level, writes);
}
}  // namespace

#if C05_PART == 0
UNIT("arrays/int/depth1") { arrays<int, Unaligned, 1>(0, 6, 0, true); arrays<int, Aligned, 1>(0, 4, 0, true); }
UNIT("arrays/int/depth2/0-3") { arrays<int, Unaligned, 2>(0, 3, 0, true); }
UNIT("arrays/int/depth2/4") { arrays<int, Unaligned, 2>(4, 4, 0, true); }
UNIT("arrays/int/depth2/5") { arrays<int, Unaligned, 2>(5, 5, 1, true); }
#elif C05_PART == 1
UNIT("arrays/int/depth3/0-3") { arrays<int, Unaligned, 3>(0, 3, 1, true); }
UNIT("arrays/int/depth3/4") { arrays<int, Unaligned, 3>(4, 4, 1, mc::thorough); }
UNIT("arrays/int/depth3/5-7") { arrays<int, Unaligned, 3>(5, 7, 2, true); }
UNIT("arrays/int/depth3/10") { arrays<int, Unaligned, 3>(10, 10, 2, true); }
static int deep_ = (mc::units().push_back({"arrays/int/depth3/5/mid", [] { arrays<int, Unaligned, 3>(5, 6, 1, true); }, true}), 0);
#elif C05_PART == 2
UNIT("arrays/double/depth2") { arrays<double, Aligned, 2>(0, 4, 1, true); arrays<double, Aligned, 1>(5, 7, 0, true); }
UNIT("arrays/bool/depth2") { arrays<bool, Unaligned, 2>(0, 4, 1, true); }
#elif C05_PART == 3
UNIT("fixed") { { FixedArray1D<int, 4> F{1_si, 2_si, 3_si, 4_si}; root<FixedArray1D<int, 4>, 2>(F, "fixed4", 0, true); }
                { FixedArray1D<double, 5, Aligned> F{1._sd, 2._sd, 3._sd, 4._sd, 5._sd}; root<FixedArray1D<double, 5, Aligned>, 2>(F, "fixed5", 1, true); } 
                { FixedArray1D<long, 1> F{7_sl}; root<FixedArray1D<long, 1>, 2>(F, "fixed1", 0, true); } }
UNIT("expr") { for(long n : {0L, 1L, 3L, 4L}) { Array1D<int> A = mk1<int, Unaligned>(iota<int>(n, 1)); auto e = A + A; root<decltype(e), 2>(e, "expr", 1, false);
                auto g = -(A(place::reverse)); root<decltype(g), 2>(g, "-reversed", 1, false); } }
#elif C05_PART == 4
UNIT("views") { for(long r : {1L, 2L, 3L}) for(long c : {1L, 2L, 3L}) { Array2D<int> A = mk2<int, Unaligned>(iota2<int>(r, c)); auto v = A.view1D(); root<decltype(v), 2>(v, "view1D", 1, true); 
      if(c > 1) { auto w = A.cols(place::firstN{c - 1}).view1D(); root<decltype(w), 2>(w, "view1D-of-slice", 1, true); } auto col = A.col(c - 1); root<decltype(col), 1>(col, "col", 0, true); auto row = A.row(r - 1); root<decltype(row), 1>(row, "row", 0, true); auto dg = A.diag(); root<decltype(dg), 1>(dg, "diag", 0, true); } }
UNIT("attach") { long buf[7] = {9, 1, 2, 3, 4, 5, 9}; long* p = buf + 1; for(long n : {0L, 1L, 3L, 5L}) { auto a = attach1D(p, n); root<decltype(a), 2>(a, "attach", 1, true); if(buf[0] != 9 || buf[6] != 9) mc::fail("attach-outside", "wrote outside"); } }
UNIT("long") { for(long n : {63L, 64L, 65L, 130L}) { Array1D<double> A = mk1<double, Unaligned>(iota<double>(n, 1)); root<Array1D<double>, 2>(A, "long", 2, true); } }
#endif
