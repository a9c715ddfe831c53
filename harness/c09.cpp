// C09: structural expressions against their definition, over every kind of operand and every small shape.
#include "kinds.hpp"

namespace {
#ifndef C09_T
#define C09_T double
#endif
using T = C09_T;
using V = std::vector<T>;
using M = Mat<T>;
constexpr bool FL = !std::is_integral_v<T>, BO = std::is_same_v<T, bool>;
constexpr long MX = std::numeric_limits<long>::max();
#ifndef C09_KLO
#define C09_KLO 0
#define C09_KHI 11
#endif

M mz(long r, long c) { M m; m.r = r; m.c = c; m.v.assign(r * c, T(0)); return m; }
M seqm(long r, long c, long from) { return iota2<T>(r, c, from); }

// light reading
template <class E> void rd(const E& e, const V& m, const char* w) {
   const long n = m.size();
   bool ok = e.size().val() == n && e.empty().val() == (n == 0) && bitsv(elems(e), m);
   if(ok) for(long i = 0; i < n; ++i) ok = ok && bits(e.at(i).val(), T(m[i])) && bits(e[i].val(), T(m[i]));
   if(ok) { Array1D<T> a(e); ok = bitsv(elems(a), m); }
   mc::step(3 * n + 2);
   if(!ok) mc::fail(std::string("value:") + w, "%s is wrong: expected %s", w, str(m).c_str());
}
template <class E> void rd(const E& e, const M& m, const char* w) {
   bool ok = e.rows().val() == m.r && e.cols().val() == m.c && e.size().val() == m.r * m.c && e.empty().val() == m.v.empty() && bitsv(elems2(e).v, m.v);
   if(ok) for(long i = 0; i < m.r; ++i) for(long j = 0; j < m.c; ++j) ok = ok && bits(e.at(i, j).val(), m(i, j)) && bits(e(i, j).val(), m(i, j)) && bits(e.un(i * m.c + j).val(), m(i, j));
   if(ok) { Array2D<T> a(e); ok = a.rows().val() == m.r && a.cols().val() == m.c && bitsv(elems2(a).v, m.v); }
   mc::step(3 * m.v.size() + 2);
   if(!ok) mc::fail(std::string("value:") + w, "%s is wrong: expected %s", w, str(m).c_str());
}
template <class E> void full(const E& e, const V& m, const char* w) { rd(e, m, w); reads1(e, m, w); }
template <class E> void full(const E& e, const M& m, const char* w) { rd(e, m, w); reads2(e, m, w); }
void st(const std::string& w, const V& m) { std::uint64_t h = 3; for(char c : w) h = mc::mix(h, c); mc::state(hash_(m, h)); mc::trace(); }
void st(const std::string& w, const M& m) { std::uint64_t h = 4; for(char c : w) h = mc::mix(h, c); mc::state(hash_(m, h)); mc::trace(); }

template <class F> void ks(F&& f) { [&]<int... K>(std::integer_sequence<int, K...>) { (f.template operator()<K + C09_KLO>(), ...); }(std::make_integer_sequence<int, C09_KHI - C09_KLO>{}); }
bool has1(int K, long n) { return K != 5 || n == 6; }

// An operation on one 1D operand: lib builds it, mod gives the expected result (or nothing: must be rejected).
template <int K, class L, class Mo> void one1(const std::string& name, const V& x, L lib, Mo mod, bool heavy = true) {
   const std::string w = name + " of " + kname1[K] + " of size " + std::to_string(x.size());
   mc::at("%s", w.c_str());
   kind1<K>(x, [&](auto&& a, auto set) {
      auto z = mod(x);
      if(!z) { mc::step(); if(!throws([&] { auto e = lib(a); (void)e; })) mc::fail("accepted:" + name, "%s is accepted", w.c_str()); return; }
      auto e = lib(a);
      if(heavy) full(e, *z, w.c_str()); else rd(e, *z, w.c_str());
      if(!bitsv(elems(a), x)) mc::fail("operand:" + name, "%s changed its operand", w.c_str());
      // every later change of the operand is seen
      auto x2 = x;
      for(std::size_t i = 0; i < x.size(); ++i) { x2[i] = lab<T>(40 + i * 3); set(i, x2[i]); }
      if(!x.empty() && K != 2) rd(e, *mod(x2), (w + " after a change").c_str());
      st(w, *z);
   });
}
template <int K, class L, class Mo> void one2(const std::string& name, const M& x, L lib, Mo mod, bool heavy = true) {
   const std::string w = name + " of " + kname2[K] + " " + std::to_string(x.r) + "x" + std::to_string(x.c);
   mc::at("%s", w.c_str());
   kind2<K>(x, [&](auto&& a, auto set) {
      auto z = mod(x);
      if(!z) { mc::step(); if(!throws([&] { auto e = lib(a); (void)e; })) mc::fail("accepted:" + name, "%s is accepted", w.c_str()); return; }
      auto e = lib(a);
      if(heavy) full(e, *z, w.c_str()); else rd(e, *z, w.c_str());
      if(!bitsv(elems2(a).v, x.v)) mc::fail("operand:" + name, "%s changed its operand", w.c_str());
      auto x2 = x;
      for(std::size_t i = 0; i < x.v.size(); ++i) { x2.v[i] = lab<T>(40 + i * 3); set(i, x2.v[i]); }
      if(!x.v.empty()) rd(e, *mod(x2), (w + " after a change").c_str());
      st(w, *z);
   });
}
using OV = std::optional<V>; using OM = std::optional<M>;
template <class A, class B> OV cat(const A& a, const B& b) { V r(a.begin(), a.end()); r.insert(r.end(), b.begin(), b.end()); return r; }
OM hcat(const M& a, const M& b) { if(a.v.empty()) return b; if(b.v.empty()) return a; if(a.r != b.r) return {}; M r = mz(a.r, a.c + b.c); for(long i = 0; i < a.r; ++i) { for(long j = 0; j < a.c; ++j) r(i, j) = a(i, j); for(long j = 0; j < b.c; ++j) r(i, a.c + j) = b(i, j); } return r; }
OM vcat(const M& a, const M& b) { if(a.v.empty()) return b; if(b.v.empty()) return a; if(a.c != b.c) return {}; M r = mz(a.r + b.r, a.c); for(long i = 0; i < a.r; ++i) for(long j = 0; j < a.c; ++j) r(i, j) = a(i, j); for(long i = 0; i < b.r; ++i) for(long j = 0; j < a.c; ++j) r(a.r + i, j) = b(i, j); return r; }
OM hcat(const OM& a, const OM& b) { if(!a || !b) return {}; return hcat(*a, *b); }
OM vcat(const OM& a, const OM& b) { if(!a || !b) return {}; return vcat(*a, *b); }
OV excl(const V& v, __int128 p, __int128 c) { const long n = v.size(); if(p < 0 || p >= n || c <= 0 || p + c > n) return {}; V r(v.begin(), v.begin() + long(p)); r.insert(r.end(), v.begin() + long(p + c), v.end()); return r; }
T sc(long k) { return lab<T>(k); }
Strict<T> SS(long k) { return Strict<T>{lab<T>(k)}; }

struct RFirst { template <class A> auto operator()(const A& a) const { return a.un(0); } static T ev(const V& v) { return v[0]; } };
struct RLast { template <class A> auto operator()(const A& a) const { return a[place::last]; } static T ev(const V& v) { return v.back(); } };
struct RAdd { template <class A> auto operator()(const A& a) const { if constexpr(BO) { auto s = false_sb; for(auto x : a) s = s ^ x; return s; } else { Strict<T> s{T(0)}; for(auto x : a) s += x; return s; } }
   static T ev(const V& v) { T s = 0; for(T x : v) s = BO ? T(bool(s) != bool(x)) : T(s + x); return s; } };

#if C09_PART == 0   // one 1D operand
template <int K> void p0() {
   for(long n : {0L, 1L, 2L, 3L, 6L}) {
      const V x = iota<T>(n, 2);
      if(!has1(K, n)) continue;
      one1<K>("merge(A,x)", x, [](auto& a) { return merge(a, SS(9)); }, [](const V& v) { return cat(v, V{sc(9)}); });
      one1<K>("merge(A,x,y)", x, [](auto& a) { return merge(a, SS(9), SS(10)); }, [](const V& v) { return cat(v, V{sc(9), sc(10)}); }, false);
      one1<K>("merge(A,x,y,z)", x, [](auto& a) { return merge(a, SS(9), SS(10), SS(12)); }, [](const V& v) { return cat(v, V{sc(9), sc(10), sc(12)}); }, false);
      one1<K>("merge(x,A)", x, [](auto& a) { return merge(SS(9), a); }, [](const V& v) { return cat(V{sc(9)}, v); });
      one1<K>("merge(x,y,A)", x, [](auto& a) { return merge(SS(9), SS(10), a); }, [](const V& v) { return cat(V{sc(9), sc(10)}, v); }, false);
      one1<K>("merge(x,y,z,A)", x, [](auto& a) { return merge(SS(9), SS(10), SS(12), a); }, [](const V& v) { return cat(V{sc(9), sc(10), sc(12)}, v); }, false);
      for(long p = -1; p <= n + 1; ++p) {
         one1<K>("exclude(A," + std::to_string(p) + ")", x, [p](auto& a) { return exclude(a, p); }, [p](const V& v) { return excl(v, p, 1); }, false);
         for(long c = -1; c <= n + 2; ++c) {
            const std::string s = std::to_string(p) + "," + std::to_string(c);
            one1<K>("exclude(A," + s + ")", x, [p, c](auto& a) { return exclude(a, p, c); }, [p, c](const V& v) { return excl(v, p, c); }, false);
            one1<K>("exclude(A,Pos,Count " + s + ")", x, [p, c](auto& a) { return exclude(a, Pos{p}, Count{c}); }, [p, c](const V& v) { return excl(v, p, c); }, false);
         }
      }
      one1<K>("exclude(A,Pos)", x, [](auto& a) { return exclude(a, Pos{0}); }, [](const V& v) { return excl(v, 0, 1); }, false);
      for(auto [p, c] : std::vector<std::pair<long, long>>{{0, MX}, {MX, 1}, {MX, MX}, {1, MX}, {-MX - 1, 1}, {0, -MX - 1}, {n, MX}, {-MX, MX}, {n - 1, n ? MX - n + 1 : MX}, {1L << 32, 1}, {0, (1L << 32) + 1}}) {
         one1<K>("exclude(A,extreme)", x, [p = p, c = c](auto& a) { return exclude(a, p, c); }, [p = p, c = c](const V& v) { return excl(v, p, c); }, false);
      }
      for(long k = 0; k <= n + 2; ++k) one1<K>("exclude(A,last-" + std::to_string(k) + ")", x, [k](auto& a) { return exclude(a, place::last - k); }, [k](const V& v) { return excl(v, (long)v.size() - 1 - k, 1); }, k < 2);
      one1<K>("exclude(A,last)", x, [](auto& a) { return exclude(a, place::last); }, [](const V& v) { return excl(v, (long)v.size() - 1, 1); });
      one1<K>("row_broadcast", x, [](auto& a) { return row_broadcast(a); }, [](const V& v) { long n = v.size(); M r = mz(n, n); for(long i = 0; i < n; ++i) for(long j = 0; j < n; ++j) r(i, j) = v[j]; return OM(r); });
      one1<K>("col_broadcast", x, [](auto& a) { return col_broadcast(a); }, [](const V& v) { long n = v.size(); M r = mz(n, n); for(long i = 0; i < n; ++i) for(long j = 0; j < n; ++j) r(i, j) = v[i]; return OM(r); });
      // nested structural expressions
      one1<K>("merge(exclude, itself, x)", x, [](auto& a) { return merge(merge(a, exclude(merge(a, SS(3)), 0)), SS(5)); }, [](const V& v) { auto m = *cat(v, V{sc(3)}); return cat(*cat(v, *excl(m, 0, 1)), V{sc(5)}); }, false);
      { auto a = mk1<T, Unaligned>(x); mc::step(4); if(irange(a).size().val() != n || irange(std::as_const(a)).size().val() != n) mc::fail("irange(A)", "size"); for(long i = 0; i < n; ++i) if(irange(a).un(i).val() != i) mc::fail("irange(A)", "element");
        mc::at("irange_m1 of size %ld", n); if(n) { auto e = irange_m1(a); if(e.size().val() != n - 1) mc::fail("irange_m1", "size"); for(long i = 0; i < n - 1; ++i) if(e[i].val() != i) mc::fail("irange_m1", "element"); } else if(!throws([&] { auto e = irange_m1(a); (void)e; })) mc::fail("irange_m1", "accepted for an empty array"); }
   }
}
UNIT("one 1D operand") { ks([]<int K>() { p0<K>(); }); }
#elif C09_PART == 1   // several 1D operands
template <int K1, int K2> void p1() {
   for(long n : {0L, 1L, 2L, 3L, 6L}) for(long k : {0L, 1L, 3L, 6L}) {
      if(!has1(K1, n) || !has1(K2, k)) continue;
      const V x = iota<T>(n, 2), y = iota<T>(k, 20);
      const std::string w = std::string(kname1[K1]) + "[" + std::to_string(n) + "], " + kname1[K2] + "[" + std::to_string(k) + "]";
      mc::at("%s", w.c_str());
      kind1<K1>(x, [&](auto&& a, auto seta) { kind1<K2>(y, [&](auto&& b, auto setb) {
         auto m1 = merge(a, b); auto m2 = merge(a, b, a); auto m3 = merge(b, a, b, a);
         auto all = [&](const V& x, const V& y, const std::string& w) {
            rd(m1, *cat(x, y), ("merge " + w).c_str()); rd(m2, *cat(*cat(x, y), x), ("merge3 " + w).c_str()); rd(m3, *cat(*cat(y, x), *cat(y, x)), ("merge4 " + w).c_str());
         };
         all(x, y, w); if(K1 == 0 || K2 == 0) { full(m1, *cat(x, y), ("merge " + w).c_str()); }
         if constexpr(!BO) {
            auto t = tensor_prod(a, b);
            M r = mz(n, k); for(long i = 0; i < n; ++i) for(long j = 0; j < k; ++j) r(i, j) = T(x[i] * y[j]);
            if(n && k) { rd(t, r, ("tensor_prod " + w).c_str()); if(K1 == 0 || K2 == 0) full(t, r, ("tensor_prod " + w).c_str()); }
            else { mc::step(); if(t.size().val() != 0 || !t.empty().val()) mc::fail("tensor_prod:empty", "tensor_prod %s is not empty", w.c_str()); throws([&] { Array2D<T> c(t); if(c.rows().val() != 0 || c.cols().val() != 0) mc::fail("tensor_prod:empty", "array of tensor_prod %s is not 0x0", w.c_str()); }); }
            st("tensor " + w, r);
         }
         if(K1 != 2 && K2 != 2) { V x2 = x, y2 = y; for(long i = 0; i < n; ++i) { x2[i] = lab<T>(60 + i); seta(i, x2[i]); } for(long i = 0; i < k; ++i) { y2[i] = lab<T>(80 + 3 * i); setb(i, y2[i]); } all(x2, y2, w + " after a change"); }
         st(w, *cat(x, y));
      }); });
   }
}
UNIT("several 1D operands") { ks([]<int K>() { p1<K, 0>(); p1<0, K>(); if constexpr(K != 0) p1<K, K>(); p1<K, 3>(); }); }
#elif C09_PART == 2   // one 2D operand
const std::vector<std::pair<long, long>> SH{{0, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 4}, {4, 1}, {2, 3}, {3, 2}, {3, 3}, {4, 3}};
template <class R> OV rowred(const M& m) { V r; for(long i = 0; i < m.r; ++i) r.push_back(R::ev(V(m.v.begin() + i * m.c, m.v.begin() + (i + 1) * m.c))); return r; }
OM tr(const M& m) { M r = mz(m.c, m.r); for(long i = 0; i < m.r; ++i) for(long j = 0; j < m.c; ++j) r(j, i) = m(i, j); return r; }
template <int K> void p2() {
   for(auto [r, c] : SH) {
      const M x = seqm(r, c, 2);
      one2<K>("transpose", x, [](auto& a) { return transpose(a); }, tr);
      one2<K>("transpose twice", x, [](auto& a) { return transpose(transpose(a)); }, [](const M& m) { return OM(m); }, false);
      one2<K>("row_reduce first", x, [](auto& a) { return row_reduce(a, RFirst{}); }, rowred<RFirst>, false);
      one2<K>("row_reduce last", x, [](auto& a) { return row_reduce(a, RLast{}); }, rowred<RLast>, false);
      one2<K>("row_reduce add", x, [](auto& a) { return row_reduce(a, RAdd{}); }, rowred<RAdd>);
      one2<K>("col_reduce first", x, [](auto& a) { return col_reduce(a, RFirst{}); }, [](const M& m) { return rowred<RFirst>(*tr(m)); }, false);
      one2<K>("col_reduce last", x, [](auto& a) { return col_reduce(a, RLast{}); }, [](const M& m) { return rowred<RLast>(*tr(m)); }, false);
      one2<K>("col_reduce add", x, [](auto& a) { return col_reduce(a, RAdd{}); }, [](const M& m) { return rowred<RAdd>(*tr(m)); });
      one2<K>("row_reduce of transpose", x, [](auto& a) { return row_reduce(transpose(a), RAdd{}); }, [](const M& m) { return rowred<RAdd>(*tr(m)); }, false);
      one2<K>("row_broadcast of row_reduce", x, [](auto& a) { return row_broadcast(row_reduce(a, RAdd{})); }, [](const M& m) { V v = *rowred<RAdd>(m); M q = mz(m.r, m.r); for(long i = 0; i < m.r; ++i) for(long j = 0; j < m.r; ++j) q(i, j) = v[j]; return OM(q); }, false);
      // reduction to another type
      mc::at("row_reduce to long of %s %ldx%ld", kname2[K], r, c);
      kind2<K>(x, [&, r = r, c = c](auto&& a, auto) { auto e = row_reduce(a, [](const auto& q) { return q.size(); }); auto f = col_reduce(a, [](const auto& q) { return q.size(); }); mc::step(2); if(e.size().val() != r || f.size().val() != c) mc::fail("reduce-size", "size of reduction"); for(long i = 0; i < r; ++i) if(e[i].val() != c) mc::fail("reduce-size", "row length"); for(long j = 0; j < c; ++j) if(f[j].val() != r) mc::fail("reduce-size", "column length");
         if(irange_row(a).size().val() != r || irange_col(a).size().val() != c) mc::fail("irange_row", "irange_row/irange_col");
         if(r) { if(irange_row_m1(a).size().val() != r - 1 || irange_col_m1(a).size().val() != c - 1) mc::fail("irange_row_m1", "irange_row_m1/irange_col_m1"); for(long i = 0; i + 1 < r; ++i) if(irange_row_m1(a)[i].val() != i) mc::fail("irange_row_m1", "element"); }
         else { if(!throws([&] { auto q = irange_row_m1(a); (void)q; }) || !throws([&] { auto q = irange_col_m1(a); (void)q; })) mc::fail("irange_row_m1", "accepted for an empty array"); } });
      if constexpr(!BO) for(long n = 0; n <= 5; ++n) {
         const V y = iota<T>(n, 3);
         mc::at("matvec_prod of %s %ldx%ld and size %ld", kname2[K], r, c, n);
         kind2<K>(x, [&, c = c](auto&& a, auto set) { auto b = mk1<T, Unaligned>(y);
            if(n != c) { mc::step(); if(!throws([&] { auto e = matvec_prod(a, b); (void)e; })) mc::fail("accepted:matvec_prod", "matvec_prod of %s %ldx%ld and size %ld is accepted", kname2[K], x.r, x.c, n); return; }
            auto e = matvec_prod(a, b);
            auto mod = [](const M& x, const V& y) { V z; for(long i = 0; i < x.r; ++i) { T s = 0; for(long j = 0; j < x.c; ++j) s = T(s + T(x(i, j) * y[j])); z.push_back(s); } return z; };
            full(e, mod(x, y), "matvec_prod"); st("matvec", mod(x, y));
            M x2 = x; for(std::size_t i = 0; i < x.v.size(); ++i) { x2.v[i] = lab<T>(i * 2 + 5); set(i, x2.v[i]); }
            V y2 = y; for(long i = 0; i < n; ++i) { y2[i] = lab<T>(9 + i); b.un(i) = Strict<T>{T(y2[i])}; }
            rd(e, mod(x2, y2), "matvec_prod after a change");
         });
      }
   }
}
UNIT("one 2D operand") { ks([]<int K>() { p2<K>(); }); }
#if C09_KLO == 0
template <int K> void p2v() { if constexpr(!BO) for(long n : {1L, 3L, 6L}) { if(!has1(K, n)) continue; const V y = iota<T>(n, 3); const M x = seqm(2, n, 2); auto A = mk2<T, Unaligned>(x);
   mc::at("matvec_prod with a %s", kname1[K]); kind1<K>(y, [&](auto&& b, auto) { V z; for(long i = 0; i < 2; ++i) { T s = 0; for(long j = 0; j < n; ++j) s = T(s + T(x(i, j) * y[j])); z.push_back(s); } rd(matvec_prod(A, b), z, (std::string("matvec_prod with a ") + kname1[K]).c_str()); }); } }
UNIT("matvec_prod with every kind of vector") { [&]<int... K>(std::integer_sequence<int, K...>) { (p2v<K>(), ...); }(std::make_integer_sequence<int, 11>{}); mc::step(); }
#endif
#elif C09_PART == 3   // several 2D operands
template <int K1, int K2> void p3() {
   const std::vector<std::pair<long, long>> SH{{0, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 3}};
   for(auto [r, c] : SH) for(auto [p, q] : SH) {
      const M x = seqm(r, c, 2), y = seqm(p, q, 20);
      const std::string w = std::string(kname2[K1]) + " " + std::to_string(r) + "x" + std::to_string(c) + ", " + kname2[K2] + " " + std::to_string(p) + "x" + std::to_string(q);
      kind2<K1>(x, [&](auto&& a, auto seta) { kind2<K2>(y, [&](auto&& b, auto setb) {
         auto go = [&](const char* nm, auto lib, auto mod, bool heavy) {
            mc::at("%s %s", nm, w.c_str());
            auto z = mod(x, y);
            if(!z) { mc::step(); if(!throws([&] { auto e = lib(); (void)e; })) mc::fail(std::string("accepted:") + nm, "%s %s is accepted", nm, w.c_str()); return; }
            auto e = lib();
            rd(e, *z, (nm + (" " + w)).c_str()); if(heavy) full(e, *z, (nm + (" " + w)).c_str());
            st(nm + w, *z);
            M x2 = x, y2 = y; for(std::size_t i = 0; i < x.v.size(); ++i) { x2.v[i] = lab<T>(50 + i); seta(i, x2.v[i]); } for(std::size_t i = 0; i < y.v.size(); ++i) { y2.v[i] = lab<T>(70 + 3 * i); setb(i, y2.v[i]); }
            rd(e, *mod(x2, y2), (std::string(nm) + " after a change").c_str());
            for(std::size_t i = 0; i < x.v.size(); ++i) seta(i, x.v[i]); for(std::size_t i = 0; i < y.v.size(); ++i) setb(i, y.v[i]);
         };
         constexpr bool hv = K1 == 0 || K2 == 0;
         go("merge_horizontal", [&] { return merge_horizontal(a, b); }, [](const M& x, const M& y) { return hcat(x, y); }, hv);
         go("merge_vertical", [&] { return merge_vertical(a, b); }, [](const M& x, const M& y) { return vcat(x, y); }, hv);
         go("merge_horizontal3", [&] { return merge_horizontal(a, b, a); }, [](const M& x, const M& y) { return hcat(OM(x), hcat(y, x)); }, false);
         go("merge_vertical3", [&] { return merge_vertical(a, b, a); }, [](const M& x, const M& y) { return vcat(OM(x), vcat(y, x)); }, false);
         if constexpr(K1 == 0) {
            go("merge_horizontal4", [&] { return merge_horizontal(b, a, b, a); }, [](const M& x, const M& y) { return hcat(OM(y), hcat(OM(x), hcat(y, x))); }, false);
            go("merge_vertical4", [&] { return merge_vertical(b, a, b, a); }, [](const M& x, const M& y) { return vcat(OM(y), vcat(OM(x), vcat(y, x))); }, false);
            go("horizontal of vertical", [&] { return merge_horizontal(merge_vertical(a, b), merge_vertical(a, b)); }, [](const M& x, const M& y) { return hcat(vcat(x, y), vcat(x, y)); }, false);
         }
      }); });
   }
}
UNIT("several 2D operands") { ks([]<int K>() { p3<K, 0>(); p3<0, K>(); if constexpr(K != 0) p3<K, K>(); p3<K, 3>(); }); }
UNIT("triples of shapes") {
   const std::vector<std::pair<long, long>> SH{{0, 0}, {1, 1}, {1, 2}, {2, 1}, {2, 2}, {2, 3}, {3, 2}, {1, 3}, {3, 1}};
   for(auto s : SH) for(auto t : SH) for(auto u : SH) {
      const M x = seqm(s.first, s.second, 2), y = seqm(t.first, t.second, 20), z = seqm(u.first, u.second, 40);
      auto a = mk2<T, Unaligned>(x); auto b = mk2<T, Aligned>(y); auto c = mk2<T, Unaligned>(z);
      mc::at("three arrays %ldx%ld %ldx%ld %ldx%ld", x.r, x.c, y.r, y.c, z.r, z.c);
      auto h = hcat(OM(x), hcat(y, z)); auto h2 = hcat(hcat(x, y), OM(z)); auto v = vcat(OM(x), vcat(y, z));
      if(h) { auto e = merge_horizontal(a, b, c); rd(e, *h, "merge_horizontal(a,b,c)"); st("h3", *h); } else { mc::step(); if(!throws([&] { auto e = merge_horizontal(a, b, c); (void)e; })) mc::fail("accepted:merge_horizontal3", "merge_horizontal of %ldx%ld %ldx%ld %ldx%ld is accepted", x.r, x.c, y.r, y.c, z.r, z.c); }
      if(v) { auto e = merge_vertical(a, b, c); rd(e, *v, "merge_vertical(a,b,c)"); st("v3", *v); } else { mc::step(); if(!throws([&] { auto e = merge_vertical(a, b, c); (void)e; })) mc::fail("accepted:merge_vertical3", "merge_vertical of %ldx%ld %ldx%ld %ldx%ld is accepted", x.r, x.c, y.r, y.c, z.r, z.c); }
      (void)h2;
   }
}
#elif C09_PART == 4   // generated objects
template <class E, class U> void gen1(const E& e, const std::vector<U>& m, const char* w) { mc::at("%s", w); reads1(e, m, w); std::uint64_t h = 9; for(const char* p = w; *p; ++p) h = mc::mix(h, *p); mc::state(hash_(m, h)); mc::trace(); }
template <class F> void rej(const char* w, F f) { mc::at("%s must be rejected", w); mc::step(); if(!throws([&] { auto e = f(); (void)e; })) mc::fail(std::string("accepted:") + w, "%s is accepted", w); mc::trace(); }
template <class T> void seq_() { if constexpr(!BO) {
   for(long n : {0L, 1L, 2L, 3L, 7L}) for(long s : {0L, 1L, 5L, 100L}) for(long d : {0L, 1L, 2L, 7L, -1L}) { if(std::is_unsigned_v<T> && std::is_integral_v<T> && d < 0) continue;
      V m; for(long i = 0; i < n; ++i) m.push_back(T(T(s) + T(d) * T(i)));
      gen1(sequence<T>(n, Strict<T>{T(s)}, Strict<T>{T(d)}), m, ("sequence " + std::to_string(n) + "," + std::to_string(s) + "," + std::to_string(d)).c_str());
      gen1(sequence<T>(Size{n}, Start{Strict<T>{T(s)}}, Incr{Strict<T>{T(d)}}), m, ("sequence(Size..) " + std::to_string(n) + "," + std::to_string(s) + "," + std::to_string(d)).c_str());
      if(d == 1) { gen1(sequence<T>(n, Strict<T>{T(s)}), m, "sequence(n,start)"); gen1(sequence<T>(Size{n}, Start{Strict<T>{T(s)}}), m, "sequence(Size,Start)"); if(s == 0) { gen1(sequence<T>(n), m, "sequence(n)"); gen1(sequence<T>(Size{n}), m, "sequence(Size)"); } }
   }
   for(long n : {-1L, -2L, -MX - 1, -(1L << 32)}) { rej("sequence(negative)", [&] { return sequence<T>(n); }); rej("sequence(Size negative)", [&] { return sequence<T>(Size{n}); }); }
   { auto e = sequence<T>(MX); mc::step(); if(e.size().val() != MX || e.un(5).val() != T(5)) mc::fail("sequence:huge", "size"); }
} else mc::step(); }
UNIT("sequence") { seq_<T>(); }
template <class T> void lin_() { if constexpr(FL) {
   for(long n : {1L, 2L, 3L, 5L, 9L, 17L}) for(T a : {T(0), T(1), T(-2), T(8)}) for(T b : {T(0), T(1), T(16), T(-16)}) {
      V m; for(long i = 0; i < n; ++i) m.push_back(n == 1 ? a : T(a + (b - a) / T(n - 1) * T(i)));
      const std::string w = "linspace " + std::to_string(n);
      gen1(linspace<T>(n, Strict<T>{a}, Strict<T>{b}), m, w.c_str()); gen1(linspace<T>(Size{n}, Start{Strict<T>{a}}, End{Strict<T>{b}}), m, (w + " (Size..)").c_str());
   }
   const T eps = std::is_same_v<T, float128> ? T(1) / (T(1) * (1L << 60)) / (1L << 52) : T(std::numeric_limits<std::conditional_t<std::is_same_v<T, float128>, double, T>>::epsilon());
   for(long n : {2L, 3L, 4L, 6L, 7L, 10L, 11L, 100L, 1000L}) for(T a : {T(0), T(0.1), T(-1) / 3}) for(T b : {T(1), T(0.7), T(1e10), T(-5)}) {
      auto e = linspace<T>(n, Strict<T>{a}, Strict<T>{b}); mc::step(n); bool ok = e.size().val() == n; const T tol = eps * 4 * ((a < 0 ? -a : a) + (b < 0 ? -b : b));
      for(long i = 0; ok && i < n; ++i) { T x = e[i].val(), y = a + (b - a) * (T(i) / T(n - 1)), d = x - y; if(d < 0) d = -d; if(!(d <= tol)) ok = false; }
      if(!ok) mc::fail("linspace:rounding", "linspace(%ld,...) is not within rounding of its definition", n);
      mc::trace();
   }
   for(long n : {0L, -1L, -MX - 1}) { rej("linspace(n<=0)", [&] { return linspace<T>(n, Strict<T>{T(0)}, Strict<T>{T(1)}); }); rej("linspace(Size n<=0)", [&] { return linspace<T>(Size{n}, Start{Strict<T>{T(0)}}, End{Strict<T>{T(1)}}); }); }
} else mc::step(); }
UNIT("linspace") { lin_<T>(); }
template <class T> void rest_() {
   for(long n = 0; n <= 5; ++n) {
      std::vector<long> m; for(long i = 0; i < n; ++i) m.push_back(i);
      gen1(irange(n), m, ("irange " + std::to_string(n)).c_str());
      for(long k : {0L, 1L, 2L}) { V c(n, lab<T>(k)); const std::string w = "const1D " + std::to_string(n) + "," + std::to_string(k); gen1(const1D<T>(n, SS(k)), c, w.c_str()); gen1(const1D<T>(Size{n}, Value{SS(k)}), c, (w + " (Size)").c_str()); }
      if constexpr(!BO) {
         for(long i = -2; i <= n + 1; ++i) {
            const std::string w = "e_unit " + std::to_string(i) + " of " + std::to_string(n);
            if(i < 0 || i >= n) { rej("e_unit(out of range)", [&] { return e_unit<T>(i, n); }); rej("e_unit(Index out of range)", [&] { return e_unit<T>(Index{i}, Size{n}); }); continue; }
            V u(n, T(0)); u[i] = T(1); gen1(e_unit<T>(i, n), u, w.c_str()); gen1(e_unit<T>(Index{i}, Size{n}), u, (w + " (Index)").c_str());
         }
         M id = mz(n, n); for(long i = 0; i < n; ++i) id(i, i) = T(1);
         mc::at("identity %ld", n); reads2(identity<T>(n), id, "identity"); mc::state(hash_(id, 77)); mc::trace();
      }
      for(long k = 0; k <= 4; ++k) {
         mc::at("const2D %ldx%ld", n, k);
         if((n == 0) != (k == 0)) { rej("const2D(half-empty)", [&] { return const2D<T>(n, k, SS(1)); }); rej("const2D(Rows,Cols half-empty)", [&] { return const2D<T>(Rows{n}, Cols{k}, Value{SS(1)}); }); continue; }
         for(long v : {0L, 1L, 2L}) { M c = mz(n, k); for(long i = 0; i < n * k; ++i) c.v[i] = lab<T>(v); reads2(const2D<T>(n, k, SS(v)), c, "const2D"); reads2(const2D<T>(Rows{n}, Cols{k}, Value{SS(v)}), c, "const2D(Rows,Cols)"); mc::state(hash_(c, 78)); mc::trace(); }
      }
   }
   for(long n : {-1L, -2L, -MX - 1, -(1L << 32)}) {
      rej("irange(negative)", [&] { return irange(n); }); rej("const1D(negative)", [&] { return const1D<T>(n, SS(1)); }); rej("const1D(Size negative)", [&] { return const1D<T>(Size{n}, Value{SS(1)}); });
      for(long k : {-1L, 0L, 1L, 2L}) { rej("const2D(negative)", [&] { return const2D<T>(n, k, SS(1)); }); rej("const2D(negative)", [&] { return const2D<T>(k, n, SS(1)); }); }
      if constexpr(!BO) { rej("identity(negative)", [&] { return identity<T>(n); }); rej("e_unit(negative)", [&] { return e_unit<T>(0, n); }); rej("e_unit(negative)", [&] { return e_unit<T>(n, 3); }); }
   }
   if constexpr(!BO) { for(long i : {MX, 1L << 32, (1L << 32) + 1}) rej("e_unit(huge index)", [&] { return e_unit<T>(i, 3); }); }
}
UNIT("irange, unit vectors, identity, constants") { rest_<T>(); }
#endif
}  // namespace
