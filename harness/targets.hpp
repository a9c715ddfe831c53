// Writable targets embedded in larger storage, and the check that exactly the addressed elements change.
// The including harness defines TGT_T (the element type).
#pragma once
#include "kinds.hpp"

namespace {
using T = TGT_T;
using V = std::vector<T>;
using M = Mat<T>;
constexpr bool FL = !std::is_integral_v<T>, BO = std::is_same_v<T, bool>, UN = std::is_integral_v<T> && std::is_unsigned_v<T> && !BO;
V dom3() { if constexpr(BO) return {false, true}; else if constexpr(UN) return {0, 5, 2, 3}; else return {T(0), T(-2), T(2), T(5)}; }
template <class F> void vectors(const V& d, long n, F&& f) {
   V v(n, d[0]); std::vector<std::size_t> ix(n, 0);
   for(;;) { f(v); long k = n - 1; while(k >= 0 && ++ix[k] == d.size()) { ix[k] = 0; v[k] = d[0]; --k; } if(k < 0) return; v[k] = d[ix[k]]; }
}
std::string ctx;
void bad(const char* what, const V& got, const V& want) { mc::fail(std::string(what) + ":" + ctx.substr(0, ctx.find(' ')), "%s of %s gives %s, expected %s", what, ctx.c_str(), str(got).c_str(), str(want).c_str()); }
T sent(long i) { return lab<T>(100 + i); }

// Targets: an object addressing positions pos[0..n) of a larger storage; f(object, read_storage_at, pos).
constexpr int NT = 14;
const char* tn[] = {"array", "aligned-array", "fixed", "attached", "strided-slice", "reverse-slice", "list-slice", "column", "row", "view1D", "diagonal", "nested-slice", "block-view1D", "negative-stride-slice"};
template <int K, class F> bool target(const V& v, F&& f) {
   const long n = v.size();
   auto go = [&](auto&& base, auto&& obj, const std::vector<long>& pos) {
      std::vector<char> in(base.size().val(), 0);
      for(long i = 0; i < base.size().val(); ++i) base.un(i) = S(sent(i));
      for(long i = 0; i < n; ++i) { base.un(pos[i]) = S(T(v[i])); in[pos[i]] = 1; }
      f(obj, base, pos, in);
   };
   std::vector<long> p;
   auto fill = [&](auto g) { for(long i = 0; i < n; ++i) p.push_back(g(i)); };
   if constexpr(K == 0) { Array1D<T> a(n); fill([](long i) { return i; }); go(a, a, p); }
   else if constexpr(K == 1) { Array1D<T, Aligned> a(n); fill([](long i) { return i; }); go(a, a, p); }
   else if constexpr(K == 2) { if(n != 4) return false; FixedArray1D<T, 4> a; fill([](long i) { return i; }); go(a, a, p); }
   else if constexpr(K == 3) { auto q = std::make_unique<T[]>(n + 2); auto q0 = q.get(), q1 = q0 + 1; auto a = attach1D(q0, n + 2); auto b = attach1D(q1, n); fill([](long i) { return i + 1; }); go(a, b, p); }
   else if constexpr(K == 4) { if(!n) return false; Array1D<T> a(3 * n + 2); fill([](long i) { return 1 + 3 * i; }); go(a, a(seqN(1, n, 3)), p); }
   else if constexpr(K == 5) { Array1D<T> a(n); fill([&](long i) { return n - 1 - i; }); go(a, a(place::reverse), p); }
   else if constexpr(K == 6) { Array1D<T> a(2 * n + 1); std::vector<ImplicitInt> ix; fill([&](long i) { return 2 * ((i * (n % 3 == 0 ? 2 : 3) + (n > 1)) % (n ? n : 1)); }); std::vector<char> s(2 * n + 1, 0); bool dup = false; for(long q : p) { dup = dup || s[q]; s[q] = 1; } if(dup) { p.clear(); fill([&](long i) { return 2 * ((i + 1) % n); }); } for(long q : p) ix.push_back(q); go(a, a(ix), p); }
   else if constexpr(K == 7) { if(!n) return false; Array2D<T> A(n, 3); fill([](long i) { return 3 * i + 1; }); go(A, A.col(1), p); }
   else if constexpr(K == 8) { if(!n) return false; Array2D<T> A(3, n); fill([&](long i) { return n + i; }); go(A, A.row(1), p); }
   else if constexpr(K == 9) { Array2D<T> A(n ? 2 : 0, n); if(n % 2) return false; Array2D<T> B(n / 2, n ? 2 : 0); fill([](long i) { return i; }); go(B, B.view1D(), p); }
   else if constexpr(K == 10) { if(!n) return false; Array2D<T> A(n, n + 1); fill([&](long i) { return i * (n + 1) + i + 1; }); go(A, A.diag(1), p); }
   else if constexpr(K == 11) { if(!n) return false; Array1D<T> a(2 * n + 1); fill([&](long i) { return 2 * (n - 1 - i) + 1; }); go(a, a(place::odd)(place::reverse), p); }
   else if constexpr(K == 12) { if(!n) return false; Array2D<T> A(3, n + 2); fill([&](long i) { return (n + 2) + 1 + i; }); go(A, A.block(1, 1, 1, n).view1D(), p); }
   else { if(!n) return false; Array1D<T> a(2 * n + 3); fill([&](long i) { return 2 * n + 1 - 2 * i; }); go(a, a(seqN(2 * n + 1, n, -2)), p); }
   return true;
}
constexpr int NT2 = 6;
const char* tn2[] = {"array2D", "aligned-array2D", "fixed2D", "attached2D", "block", "rows-reverse"};
template <int K, class F> bool target2(const V& v, long r, long c, F&& f) {
   const long n = r * c;
   std::vector<long> p;
   auto fill = [&](auto g) { for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) p.push_back(g(i, j)); };
   auto go = [&](auto&& base, auto&& obj) {
      std::vector<char> in(base.size().val(), 0);
      for(long i = 0; i < base.size().val(); ++i) base.un(i) = S(sent(i));
      for(long i = 0; i < n; ++i) { base.un(p[i]) = S(T(v[i])); in[p[i]] = 1; }
      f(obj, base, p, in);
   };
   if constexpr(K == 0) { Array2D<T> a(r, c); fill([&](long i, long j) { return i * c + j; }); go(a, a); }
   else if constexpr(K == 1) { Array2D<T, Aligned> a(r, c); fill([&](long i, long j) { return i * c + j; }); go(a, a); }
   else if constexpr(K == 2) { if(r != 2 || c != 2) return false; FixedArray2D<T, 2, 2> a; fill([&](long i, long j) { return i * c + j; }); go(a, a); }
   else if constexpr(K == 3) { auto q = std::make_unique<T[]>(n + 2); auto q0 = q.get(), q1 = q0 + 1; auto a = attach1D(q0, n + 2); auto b = attach2D(q1, r, c); fill([&](long i, long j) { return i * c + j + 1; }); go(a, b); }
   else if constexpr(K == 4) { if(!n) return false; Array2D<T> A(r + 2, c + 1); fill([&](long i, long j) { return (i + 1) * (c + 1) + j + 1; }); go(A, A.block(1, 1, r, c)); }
   else { if(!n) return false; Array2D<T> A(2 * r, c); fill([&](long i, long j) { return (2 * (r - 1 - i) + 1) * c + c - 1 - j; }); go(A, A(place::odd, place::all)(place::reverse, place::reverse)); }
   return true;
}

// One in-place operation: the addressed elements become want (or any permutation satisfying ok), the rest is untouched.
template <class B> void after(const char* what, const B& base, const std::vector<long>& pos, const std::vector<char>& in, const V& v, const V* want) {
   V got; for(long q : pos) got.push_back(base.un(q).val());
   mc::step();
   if(want ? !bitsv(got, *want) && !samev(got, *want) : false) bad(what, got, *want);
   auto s1 = got, s2 = v; std::sort(s1.begin(), s1.end()); std::sort(s2.begin(), s2.end());
   if(!samev(s1, s2)) bad((std::string(what) + " (not a permutation)").c_str(), got, v);
   for(long i = 0; i < (long)in.size(); ++i) if(!in[i] && base.un(i).val() != sent(i)) { bad((std::string(what) + " (touches other elements)").c_str(), {base.un(i).val()}, {sent(i)}); return; }
   mc::state(hash_(got, in.size()));
}
template <int K, class Op> void run1(const V& v, const char* what, Op op, const V* want) {
   ctx = std::string(tn[K]) + " " + str(v); mc::at("%s of %s", what, ctx.c_str());
   if(target<K>(v, [&](auto&& o, auto& base, auto& pos, auto& in) { op(o); after(what, base, pos, in, v, want); })) mc::trace();
}
template <int K, class Op> void run2(const V& v, long r, long c, const char* what, Op op, const V* want) {
   ctx = std::string(tn2[K]) + " " + std::to_string(r) + "x" + std::to_string(c) + str(v); mc::at("%s of %s", what, ctx.c_str());
   if(target2<K>(v, r, c, [&](auto&& o, auto& base, auto& pos, auto& in) { op(o); after(what, base, pos, in, v, want); })) mc::trace();
}
template <class F> void ts(F&& f) { [&]<int... K>(std::integer_sequence<int, K...>) { (f.template operator()<K>(), ...); }(std::make_integer_sequence<int, NT>{}); }
template <class F> void ts2(F&& f) { [&]<int... K>(std::integer_sequence<int, K...>) { (f.template operator()<K>(), ...); }(std::make_integer_sequence<int, NT2>{}); }

}
