// C08, second half: lazy objects built inside functions from temporary lazy objects, returned, and used after the
// stack and the heap have been overwritten. ASan (stack use after return) reports any dangling reference; every
// element is compared with eager evaluation, and copies are read after their original is gone.
#include "lib.hpp"

namespace {
#ifndef C08_LO
#define C08_LO 0
#define C08_HI 99
#endif
using T = double;
using V = std::vector<T>;
using M = Mat<T>;

M mm(long r, long c) { M m; m.r = r; m.c = c; m.v.assign(r * c, 0); return m; }
struct Sum { template <class A> auto operator()(const A& a) const { auto s = Strict{0.}; for(auto i = 0_sl; i < a.size(); ++i) s += a.un(i); return s; } };
std::vector<ImplicitInt> revix(long n) { std::vector<ImplicitInt> r; for(long i = 0; i < n; ++i) r.push_back(n - 1 - i); return r; }

// A stage: ap builds the lazy object (consuming its operand), ev is the eager meaning.
#define ST(N, NAME, IN, OUT, EXPR, ...) struct N { static constexpr const char* n = NAME; using out = OUT; \
   template <class X> static auto ap(X&& x) { return EXPR; } static OUT ev(const IN& v) { OUT r; __VA_ARGS__ return r; } };
#define MV std::forward<X>(x)
#define ALLV for(std::size_t i = 0; i < v.size(); ++i)
// 1D -> 1D
ST(A0, "all", V, V, MV(place::all), r = v;)
ST(A1, "reverse", V, V, MV(place::reverse), r.assign(v.rbegin(), v.rend());)
ST(A2, "even", V, V, MV(place::even), for(std::size_t i = 0; i < v.size(); i += 2) r.push_back(v[i]);)
ST(A3, "index-vector", V, V, MV(revix(x.size().val())), r.assign(v.rbegin(), v.rend());)
ST(A4, "list", V, V, MV({0, 0}), r = {v[0], v[0]};)
ST(A5, "complement", V, V, MV(place::complement{0}), r.assign(v.begin() + 1, v.end());)
ST(A6, "negate", V, V, -MV, ALLV r.push_back(-v[i]);)
ST(A7, "plus scalar", V, V, MV + Strict{1.}, ALLV r.push_back(v[i] + 1);)
ST(A8, "scalar minus", V, V, Strict{2.} - MV, ALLV r.push_back(2 - v[i]);)
ST(A9, "plus temporary expression", V, V, MV + const1D<T>(x.size(), Strict{3.}), ALLV r.push_back(v[i] + 3);)
ST(A10, "temporary expression times", V, V, const1D<T>(x.size(), Strict{3.}) * MV, ALLV r.push_back(v[i] * 3);)
ST(A11, "times its own slice", V, V, x(place::all) * x(place::reverse), ALLV r.push_back(v[i] * v[v.size() - 1 - i]);)
ST(A12, "user operation", V, V, spp::generate(MV, [k = Strict{5.}](auto y) { return y + k; }), ALLV r.push_back(v[i] + 5);)
ST(A13, "user binary operation", V, V, spp::generate(x(place::reverse), x(place::all), [](auto y, auto z) { return y - z; }), ALLV r.push_back(v[v.size() - 1 - i] - v[i]);)
ST(A14, "merge", V, V, merge(MV, const1D<T>(2, Strict{4.})), r = v; r.push_back(4); r.push_back(4);)
ST(A15, "merge three", V, V, spp::merge(x(place::reverse), const1D<T>(1, Strict{4.}), x(place::all)), r.assign(v.rbegin(), v.rend()); r.push_back(4); r.insert(r.end(), v.begin(), v.end());)
ST(A16, "merge scalar", V, V, merge(MV, Strict{7.}, Strict{8.}), r = v; r.push_back(7); r.push_back(8);)
ST(A17, "scalar merge", V, V, merge(Strict{7.}, MV), r = v; r.insert(r.begin(), 7.);)
ST(A18, "scalars merge", V, V, merge(Strict{7.}, Strict{6.}, MV), r = v; r.insert(r.begin(), {7., 6.});)
ST(A19, "exclude", V, V, exclude(MV, 0, 1), r.assign(v.begin() + 1, v.end());)
ST(A20, "exclude last", V, V, exclude(MV, place::last), r.assign(v.begin(), v.end() - 1);)
ST(A21, "two_prod", V, V, two_prod(MV, x(place::reverse)).first, ALLV r.push_back(v[i] * v[v.size() - 1 - i]);)
ST(A22, "pow_prod", V, V, pow_prod(MV, spp::generate(irange(x), [](auto) { return Strict{2L}; })).first, ALLV r.push_back(v[i] * v[i]);)
ST(A23, "in_cond_range", V, V, in_cond_range(MV, [](auto) { return true_sb; }), r = v;)
ST(A24, "cast", V, V, array_cast<T>(array_cast<float>(MV)), r = v;)
ST(A25, "pow", V, V, fast_pow_int(MV, 2), ALLV r.push_back(v[i] * v[i]);)
ST(A26, "seqN", V, V, MV(seqN{x.size() - 1_sl, x.size(), -1}), r.assign(v.rbegin(), v.rend());)
ST(A27, "in_closed_range", V, V, in_closed_range(MV, Strict{-1e300}, Strict{1e300}), r = v;)
// 1D -> 2D
ST(B0, "view2D", V, M, MV.view2D(1, x.size()), r = mm(1, v.size()); r.v = v;)
ST(B1, "row_broadcast", V, M, row_broadcast(MV), long n = v.size(); r = mm(n, n); for(long i = 0; i < n; ++i) for(long j = 0; j < n; ++j) r(i, j) = v[j];)
ST(B2, "col_broadcast", V, M, col_broadcast(MV), long n = v.size(); r = mm(n, n); for(long i = 0; i < n; ++i) for(long j = 0; j < n; ++j) r(i, j) = v[i];)
ST(B3, "tensor_prod", V, M, tensor_prod(MV, x(place::reverse)), long n = v.size(); r = mm(n, n); for(long i = 0; i < n; ++i) for(long j = 0; j < n; ++j) r(i, j) = v[i] * v[n - 1 - j];)
// 2D -> 1D
ST(C0, "row", M, V, MV.row(0), for(long j = 0; j < v.c; ++j) r.push_back(v(0, j));)
ST(C1, "last col", M, V, MV.col(place::last), for(long i = 0; i < v.r; ++i) r.push_back(v(i, v.c - 1));)
ST(C2, "diag", M, V, MV.diag(), for(long i = 0; i < std::min(v.r, v.c); ++i) r.push_back(v(i, i));)
ST(C3, "view1D", M, V, MV.view1D(), r = v.v;)
ST(C4, "row_reduce", M, V, row_reduce(MV, Sum{}), for(long i = 0; i < v.r; ++i) { T s = 0; for(long j = 0; j < v.c; ++j) s += v(i, j); r.push_back(s); })
ST(C5, "col_reduce", M, V, col_reduce(MV, Sum{}), for(long j = 0; j < v.c; ++j) { T s = 0; for(long i = 0; i < v.r; ++i) s += v(i, j); r.push_back(s); })
ST(C6, "matvec_prod", M, V, matvec_prod(MV, const1D<T>(x.cols(), Strict{2.})), for(long i = 0; i < v.r; ++i) { T s = 0; for(long j = 0; j < v.c; ++j) s += v(i, j) * 2; r.push_back(s); })
ST(C7, "matvec_prod with its own row", M, V, matvec_prod(x(place::all, place::all), x.row(0)), for(long i = 0; i < v.r; ++i) { T s = 0; for(long j = 0; j < v.c; ++j) s += v(i, j) * v(0, j); r.push_back(s); })
// 2D -> 2D
#define EACH2 for(long i = 0; i < v.r; ++i) for(long j = 0; j < v.c; ++j)
ST(D0, "reverse x reverse", M, M, MV(place::reverse, place::reverse), r = v; EACH2 r(i, j) = v(v.r - 1 - i, v.c - 1 - j);)
ST(D1, "all x index-vector", M, M, MV(place::all, revix(x.cols().val())), r = v; EACH2 r(i, j) = v(i, v.c - 1 - j);)
ST(D2, "index-vector x all", M, M, MV(revix(x.rows().val()), place::all), r = v; EACH2 r(i, j) = v(v.r - 1 - i, j);)
ST(D3, "index-vector x index-vector", M, M, MV(revix(x.rows().val()), revix(x.cols().val())), r = v; EACH2 r(i, j) = v(v.r - 1 - i, v.c - 1 - j);)
ST(D4, "block", M, M, MV.block(0, 0, x.rows() - 1_sl, x.cols() - 1_sl), r = v;)
ST(D5, "rows", M, M, MV.rows({0, 0}), r = mm(2, v.c); for(long j = 0; j < v.c; ++j) r(0, j) = r(1, j) = v(0, j);)
ST(D6, "cols", M, M, MV.cols({0, 0}), r = mm(v.r, 2); for(long i = 0; i < v.r; ++i) r(i, 0) = r(i, 1) = v(i, 0);)
ST(D7, "transpose", M, M, transpose(MV), r = mm(v.c, v.r); EACH2 r(j, i) = v(i, j);)
ST(D8, "negate", M, M, -MV, r = v; EACH2 r(i, j) = -v(i, j);)
ST(D9, "times scalar", M, M, MV * Strict{2.}, r = v; EACH2 r(i, j) = 2 * v(i, j);)
ST(D10, "scalar minus", M, M, Strict{2.} - MV, r = v; EACH2 r(i, j) = 2 - v(i, j);)
ST(D11, "plus temporary expression", M, M, MV + const2D<T>(x.rows(), x.cols(), Strict{3.}), r = v; EACH2 r(i, j) = 3 + v(i, j);)
ST(D12, "times its own slice", M, M, x(place::reverse, place::all) * x(place::all, place::all), r = v; EACH2 r(i, j) = v(i, j) * v(v.r - 1 - i, j);)
ST(D13, "user operation", M, M, spp::generate(MV, [k = Strict{5.}](auto y) { return y + k; }), r = v; EACH2 r(i, j) = v(i, j) + 5;)
ST(D14, "merge_horizontal", M, M, merge_horizontal(MV, const2D<T>(x.rows(), 1, Strict{4.})), r = mm(v.r, v.c + 1); EACH2 { r(i, j) = v(i, j); r(i, v.c) = 4; })
ST(D15, "merge_vertical", M, M, merge_vertical(MV, const2D<T>(1, x.cols(), Strict{4.})), r = mm(v.r + 1, v.c); EACH2 { r(i, j) = v(i, j); r(v.r, j) = 4; })
ST(D16, "merge_horizontal three", M, M, merge_horizontal(x(place::all, place::all), const2D<T>(x.rows(), 1, Strict{4.}), x(place::reverse, place::all)), r = mm(v.r, 2 * v.c + 1); EACH2 { r(i, j) = v(i, j); r(i, v.c) = 4; r(i, v.c + 1 + j) = v(v.r - 1 - i, j); })
ST(D17, "merge_vertical three", M, M, merge_vertical(x(place::all, place::all), const2D<T>(1, x.cols(), Strict{4.}), x(place::reverse, place::all)), r = mm(2 * v.r + 1, v.c); EACH2 { r(i, j) = v(i, j); r(v.r, j) = 4; r(v.r + 1 + i, j) = v(v.r - 1 - i, j); })
ST(D18, "view2D", M, M, MV.view2D(x.cols(), x.rows()), r = v; std::swap(r.r, r.c);)
ST(D19, "two_prod", M, M, two_prod(MV, x(place::all, place::reverse)).first, r = v; EACH2 r(i, j) = v(i, j) * v(i, v.c - 1 - j);)

template <class... S> struct Ls {};
using S1 = Ls<A0, A1, A2, A3, A4, A5, A6, A7, A8, A9, A10, A11, A12, A13, A14, A15, A16, A17, A18, A19, A20, A21, A22, A23, A24, A25, A26, A27, B0, B1, B2, B3>;
using S2 = Ls<C0, C1, C2, C3, C4, C5, C6, C7, D0, D1, D2, D3, D4, D5, D6, D7, D8, D9, D10, D11, D12, D13, D14, D15, D16, D17, D18, D19>;
// representatives (by the way they hold their operand) for nesting
using R1 = Ls<A0, A3, A5, A7, A9, A11, A14, A17, A20, A22, A23, B0, B2, B3>;
using R2 = Ls<C0, C2, C3, C5, C7, D0, D2, D4, D5, D7, D9, D12, D14, D17, D18>;

// Overwrites the dead part of the stack and recycles freed heap blocks.
[[gnu::noinline]] void clobber() {
   volatile char b[16384]; for(std::size_t i = 0; i < sizeof b; ++i) b[i] = char(0xA5);
   for(int k = 0; k < 4; ++k) { std::vector<double> h(17 << k, -12345.); asm volatile("" : : "r"(h.data()) : "memory"); }
}
template <class E> void read(const E& e, const V& m, const char* how, const std::string& w) {
   bool ok = e.size().val() == (long)m.size() && elems(e) == m;
   if(ok) for(long i = 0; i < (long)m.size(); ++i) ok = ok && e.at(i).val() == m[i] && e[i].val() == m[i];
   if(ok) { V v; for(auto x : e) v.push_back(x.val()); ok = v == m; }
   mc::step(3 * m.size() + 1);
   if(!ok) mc::fail(std::string(how) + ":" + w, "%s, %s: expected %s", w.c_str(), how, str(m).c_str());
}
template <class E> void read(const E& e, const M& m, const char* how, const std::string& w) {
   bool ok = e.rows().val() == m.r && e.cols().val() == m.c && elems2(e) == m;
   if(ok) for(long i = 0; i < m.r; ++i) for(long j = 0; j < m.c; ++j) ok = ok && e(i, j).val() == m(i, j) && e.un(i * m.c + j).val() == m(i, j);
   mc::step(3 * m.v.size() + 1);
   if(!ok) mc::fail(std::string(how) + ":" + w, "%s, %s: expected %s", w.c_str(), how, str(m).c_str());
}
inline bool same_(const V& a, const V& b) { return a == b; }
inline long elemcount(const V& m) { return m.size(); }
inline long elemcount(const M& m) { return m.v.size(); }

template <class E, class Z, class Root, class Redo> void judge(E&& e, const Z& z, Root& root, Redo redo, const std::string& w) {
   clobber();
   read(e, z, "stored object", w);
   using EE = std::remove_cvref_t<E>;
   { auto p = std::make_unique<EE>(e); EE c{*p}; p.reset(); clobber(); read(c, z, "copy outliving its original", w); }
   { auto p = std::make_unique<EE>(e); EE c{std::move(*p)}; p.reset(); clobber(); read(c, z, "moved object outliving its source", w); }
   read(e, z, "original after its copies", w);
   // sees the named array's later content
   const T old = root.un(0).val(); root.un(0) = Strict{old + 10};
   read(e, redo(), "after a change of the named array", w);
   root.un(0) = Strict{old};
   mc::trace();
}
V tovec(const Array1D<T>& a) { return elems(a); }
M tovec(const Array2D<T>& a) { return elems2(a); }

template <class A, class B, class R> [[gnu::noinline]] auto build_tmp(R& r) { return B::ap(A::ap(r)); }
template <class A, class B, class R> [[gnu::noinline]] auto build_named(R& r) { auto t = A::ap(r); return B::ap(t); }
template <class A, class R> [[gnu::noinline]] auto build1(R& r) { return A::ap(r); }
template <class A, class B, class C, class R> [[gnu::noinline]] auto build3(R& r) { auto t = B::ap(A::ap(r)); return C::ap(std::move(t)); }

template <class A, class B, class R> void two(R& r) {
   const std::string w = std::string(A::n) + " / " + B::n;
   mc::at("%s", w.c_str());
   auto redo = [&] { return B::ev(A::ev(tovec(r))); };
   judge(build_tmp<A, B>(r), redo(), r, redo, w);
   mc::state(hash_(redo(), mc::mix(1, std::hash<std::string>{}(w))));
}
template <class A, class B, class R> void two_named(R& r) {
   const std::string w = std::string(A::n) + " / " + B::n + " (named, then returned)";
   mc::at("%s", w.c_str());
   auto redo = [&] { return B::ev(A::ev(tovec(r))); };
   judge(build_named<A, B>(r), redo(), r, redo, w);
   mc::state(hash_(redo(), mc::mix(2, std::hash<std::string>{}(w))));
}
template <class A, class R> void onest(R& r, const char* root) {
   const std::string w = std::string(A::n) + " of " + root;
   mc::at("%s", w.c_str());
   auto redo = [&] { return A::ev(tovec(r)); };
   judge(build1<A>(r), redo(), r, redo, w);
   judge(build1<A>(std::as_const(r)), redo(), r, redo, w + " (const)");
   mc::state(hash_(redo(), mc::mix(3, std::hash<std::string>{}(w))));
}
template <class A, class B, class C, class R> void three(R& r) {
   const std::string w = std::string(A::n) + " / " + B::n + " / " + C::n;
   mc::at("%s", w.c_str());
   auto redo = [&] { return C::ev(B::ev(A::ev(tovec(r)))); };
   judge(build3<A, B, C>(r), redo(), r, redo, w);
   mc::state(hash_(redo(), mc::mix(4, std::hash<std::string>{}(w))));
}
template <class... S, class F> void each(Ls<S...>, F&& f) { (f.template operator()<S>(), ...); }
template <class F, class... S> void range(Ls<S...>, F&& f) { int k = 0; auto g = [&]<int I, class X>() { if constexpr(I >= C08_LO && I < C08_HI) f.template operator()<X>(); };
   [&]<int... I>(std::integer_sequence<int, I...>) { (g.template operator()<I, S>(), ...); }(std::make_integer_sequence<int, sizeof...(S)>{}); (void)k; }
template <class S> using Next = std::conditional_t<std::is_same_v<typename S::out, V>, S1, S2>;
template <class S> using NextR = std::conditional_t<std::is_same_v<typename S::out, V>, R1, R2>;

Array1D<T> root1() { Array1D<T> a(4); for(long i = 0; i < 4; ++i) a.un(i) = Strict{i + 2.}; return a; }
Array2D<T> root2() { Array2D<T> a(2, 3); for(long i = 0; i < 6; ++i) a.un(i) = Strict{i + 2.}; return a; }

#if C08_PART == 0
UNIT("one stage over a named 1D array") { auto r = root1(); each(S1{}, [&]<class A>() { onest<A>(r, "a named 1D array"); }); }
UNIT("one stage over a named 2D array") { auto r = root2(); each(S2{}, [&]<class A>() { onest<A>(r, "a named 2D array"); }); }
#elif C08_PART == 1
UNIT("every stage over representative temporaries, 1D") { auto r = root1(); range(R1{}, [&]<class A>() { each(Next<A>{}, [&]<class B>() { two<A, B>(r); }); }); }
#elif C08_PART == 2
UNIT("every stage over representative temporaries, 2D") { auto r = root2(); range(R2{}, [&]<class A>() { each(Next<A>{}, [&]<class B>() { two<A, B>(r); }); }); }
#elif C08_PART == 3
UNIT("named intermediates, 1D") { auto r = root1(); range(R1{}, [&]<class A>() { each(NextR<A>{}, [&]<class B>() { two_named<A, B>(r); }); }); }
#elif C08_PART == 4
UNIT("named intermediates, 2D") { auto r = root2(); range(R2{}, [&]<class A>() { each(NextR<A>{}, [&]<class B>() { two_named<A, B>(r); }); }); }
#elif C08_PART == 5
UNIT("every pair of stages, 1D") { auto r = root1(); range(S1{}, [&]<class A>() { each(Next<A>{}, [&]<class B>() { two<A, B>(r); two_named<A, B>(r); }); }); }
#elif C08_PART == 6
UNIT("every pair of stages, 2D") { auto r = root2(); range(S2{}, [&]<class A>() { each(Next<A>{}, [&]<class B>() { two<A, B>(r); two_named<A, B>(r); }); }); }
#elif C08_PART == 7
UNIT("three stages, 1D") { auto r = root1(); range(R1{}, [&]<class A>() { each(NextR<A>{}, [&]<class B>() { each(NextR<B>{}, [&]<class C>() { three<A, B, C>(r); }); }); }); }
#elif C08_PART == 8
UNIT("three stages, 2D") { auto r = root2(); range(R2{}, [&]<class A>() { each(NextR<A>{}, [&]<class B>() { each(NextR<B>{}, [&]<class C>() { three<A, B, C>(r); }); }); }); }
#endif
}  // namespace
