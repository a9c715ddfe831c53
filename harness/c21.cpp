// C21: attached buffers, raw data pointers and Eigen maps alias exactly the elements; Eigen products equal the definition.
#include "kinds.hpp"
#ifndef C21_T
#define C21_T double
#endif
#ifndef C21_PART
#define C21_PART 0
#endif
#if C21_PART >= 2
#include <strictpp/Eigen/eigen.hpp>
#endif

namespace {
using T = C21_T;
using V = std::vector<T>;
using M = Mat<T>;
constexpr bool BO = std::is_same_v<T, bool>, FL = !std::is_integral_v<T>;
std::string ctx;
void bad(const char* what, const std::string& got, const std::string& want) { mc::fail(what, "%s: %s is %s, expected %s", ctx.c_str(), what, got.c_str(), want.c_str()); }
#define OK(c, what) do { mc::step(); if(!(c)) mc::fail(what, "%s: %s", ctx.c_str(), what); } while(0)
M mat(long r, long c, long k0 = 1) { M m; m.r = r; m.c = c; for(long i = 0; i < r * c; ++i) m.v.push_back(lab<T>(k0 + i)); return m; }

#if C21_PART == 0
// ---------------------------------------------------------------- attached buffers
constexpr long PAD = 3, CAP = 8;
struct Buf {
   T b[CAP + 2 * PAD]; V m; long fresh = 40;
   Buf() { for(long i = 0; i < CAP + 2 * PAD; ++i) { b[i] = lab<T>(i + 1); m.push_back(b[i]); } }
   T* p(long off = 0) { return b + PAD + off; }
   typename V::reference at(long i) { return m[PAD + i]; }
   T nv() { return lab<T>(fresh++); }
   void check(const char* who) { mc::step(); for(long i = 0; i < CAP + 2 * PAD; ++i) if(!same(b[i], T(m[i]))) { V g(b, b + CAP + 2 * PAD); bad((std::string(who) + ": the buffer").c_str(), str(g), str(m)); m = g; return; } mc::state(hash_(m)); }
};
template <class F> void seqs(int n, int depth, F f) { std::vector<int> p(depth, 0); for(;;) { f(p); int k = depth - 1; while(k >= 0 && ++p[k] == n) p[k--] = 0; if(k < 0) return; } }
// two windows [oa, oa+na) and [ob, ob+nb) of one buffer, a constant one over all of it
template <class T = T> void run1(long oa, long na, long ob, long nb, const std::vector<int>& ops) {
   constexpr bool BO = std::is_same_v<T, bool>;
   Buf s; T *pa = s.p(oa), *pb = s.p(ob); const T* pc = s.p(0);
   auto a = attach1D(pa, na), b = attach1D(pb, nb); auto c = attach1D(pc, CAP);
   auto A = [&](long i) -> typename V::reference { return s.at(oa + i); };
   auto B = [&](long i) -> typename V::reference { return s.at(ob + i); };
   const bool overlap = oa < ob + nb && ob < oa + na;
   ctx = "buffer windows [" + std::to_string(oa) + "," + std::to_string(oa + na) + ") [" + std::to_string(ob) + "," + std::to_string(ob + nb) + ")";
   for(int op : ops) {
      ctx += "; op " + std::to_string(op); mc::at("%s", ctx.c_str());
      switch(op) {
         case 0: for(long i = 0; i < na; ++i) { T v = s.nv(); a.un(i) = S(v); A(i) = v; } break;
         case 1: for(long i = 0; i < nb; ++i) { T v = s.nv(); b[i] = S(v); B(i) = v; } break;
         case 2: for(long i = 0; i < na; ++i) { T v = s.nv(); a.at(i) = S(v); A(i) = v; } break;
         case 3: for(long i = 0; i < CAP; ++i) { T v = s.nv(); s.p(0)[i] = v; s.at(i) = v; } break;
         case 4: { T v = s.nv(); a = S(v); for(long i = 0; i < na; ++i) A(i) = v; } break;
         case 5: { V w; for(long i = 0; i < na; ++i) w.push_back(s.nv()); a = mk1<T, Unaligned>(w); for(long i = 0; i < na; ++i) A(i) = w[i]; } break;
         case 6: if(na == nb && (!overlap || oa == ob)) { V w; for(long i = 0; i < nb; ++i) w.push_back(B(i)); a = b; for(long i = 0; i < na; ++i) A(i) = w[i]; } else if(na != nb) OK(throws([&] { a = b; }), "a window of another size is accepted"); break;
         case 7: { auto d = a; for(long i = 0; i < na; ++i) { T v = s.nv(); d.un(i) = S(v); A(i) = v; } } break;
         case 8: { auto r = a(place::reverse); for(long i = 0; i < na; ++i) { T v = s.nv(); r[i] = S(v); A(na - 1 - i) = v; } } break;
         case 9: { T v = s.nv(); a(place::even) = S(v); for(long i = 0; i < na; i += 2) A(i) = v; } break;
         case 10: { for(auto& e : a) { T v = s.nv(); e = S(v); A(&e - &*a.begin()) = v; } } break;
         case 11: if constexpr(!BO) { T v = s.nv(); b += S(v); for(long i = 0; i < nb; ++i) B(i) = B(i) + v; } break;
         case 12: { Array1D<T> w(a); w.resize(na + 2); w = SL<T>(99); } break;   // a copy is independent
         case 13: OK(throws([&] { (void)a[na]; }) && throws([&] { (void)a.at(-1); }) && throws([&] { a.at(na) = SL<T>(5); }), "an index outside the attached range is accepted"); break;
         case 14: { Array1D<T> w(na + 1); OK(throws([&] { a = w; }), "an array of another size is accepted"); } break;
         case 15: if constexpr(!BO) { a = a + a; for(long i = 0; i < na; ++i) A(i) = A(i) + A(i); } else { a = !a; for(long i = 0; i < na; ++i) A(i) = !A(i); } break;
         case 16: if(na) { T v = s.nv(); std::fill(a.begin(), a.end(), S(v)); for(long i = 0; i < na; ++i) A(i) = v; } break;
         case 17: if(na == 4) { auto w = a.view2D(2, 2); T v = s.nv(); w(1, 0) = S(v); A(2) = v; w.col(1) = S(v); A(1) = v; A(3) = v; } break;
         case 18: if constexpr(!BO) { sort_increasing(a); V w; for(long i = 0; i < na; ++i) w.push_back(A(i)); std::sort(w.begin(), w.end()); for(long i = 0; i < na; ++i) A(i) = w[i]; } break;
         case 19: { std::memcpy(s.p(oa), s.p(ob), std::min(na, nb) * sizeof(T) * (overlap ? 0 : 1)); if(!overlap) for(long i = 0; i < std::min(na, nb); ++i) A(i) = B(i); } break;
      }
      V va, vb, vc; for(long i = 0; i < na; ++i) va.push_back(A(i)); for(long i = 0; i < nb; ++i) vb.push_back(B(i)); for(long i = 0; i < CAP; ++i) vc.push_back(s.at(i));
      OK(agree1(a, va) && agree1(b, vb) && agree1(c, vc), "an attached array does not show the buffer");
      for(long i = 0; i < na; ++i) OK((void*)&a.un(i) == (void*)(pa + i) && (void*)&a[i] == (void*)(pa + i), "an attached element is not the buffer element");
      s.check("1D");
   }
   mc::trace();
}
template <class T = T> void run2(long r, long c, const std::vector<int>& ops) {
   constexpr bool BO = std::is_same_v<T, bool>;
   Buf s; T* pa = s.p(0); const T* pc = s.p(0); auto a = attach2D(pa, r, c); auto k = attach2D(pc, r, c); auto one = attach1D(pa, CAP);
   auto A = [&](long i, long j) -> typename V::reference { return s.at(i * c + j); };
   ctx = "buffer as " + std::to_string(r) + "x" + std::to_string(c);
   for(int op : ops) {
      ctx += "; op " + std::to_string(op); mc::at("%s", ctx.c_str());
      switch(op) {
         case 0: for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) { T v = s.nv(); a.un(i, j) = S(v); A(i, j) = v; } break;
         case 1: for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) { T v = s.nv(); a(i, j) = S(v); A(i, j) = v; } break;
         case 2: for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) { T v = s.nv(); a.at(i, j) = S(v); A(i, j) = v; } break;
         case 3: for(long i = 0; i < CAP; ++i) { T v = s.nv(); s.p(0)[i] = v; s.at(i) = v; } break;
         case 4: { T v = s.nv(); a = S(v); for(long i = 0; i < r * c; ++i) s.at(i) = v; } break;
         case 5: { M w = mat(r, c, s.fresh); s.fresh += r * c; a = mk2<T, Unaligned>(w); for(long i = 0; i < r * c; ++i) s.at(i) = w.v[i]; } break;
         case 6: if(r) { T v = s.nv(); a.row(r - 1) = S(v); for(long j = 0; j < c; ++j) A(r - 1, j) = v; } break;
         case 7: if(r) { T v = s.nv(); a.col(c - 1) = S(v); for(long i = 0; i < r; ++i) A(i, c - 1) = v; } break;
         case 8: if(r) { T v = s.nv(); a.diag() = S(v); for(long i = 0; i < std::min(r, c); ++i) A(i, i) = v; } break;
         case 9: { T v = s.nv(); a(place::even, place::odd) = S(v); for(long i = 0; i < r; i += 2) for(long j = 1; j < c; j += 2) A(i, j) = v; } break;
         case 10: { auto d = a; for(long i = 0; i < r * c; ++i) { T v = s.nv(); d.un(i) = S(v); s.at(i) = v; } } break;
         case 11: { auto v1 = a.view1D(); for(long i = 0; i < r * c; ++i) { T v = s.nv(); v1[i] = S(v); s.at(i) = v; } } break;
         case 12: { for(auto& e : a) { T v = s.nv(); e = S(v); s.at(&e - &*a.begin()) = v; } } break;
         case 13: OK(throws([&] { (void)a(r, 0); }) && throws([&] { (void)a.at(0, c); }) && throws([&] { (void)a(-1, 0); }) && throws([&] { (void)a.row(r); }) && throws([&] { (void)a.col(c); }), "an index outside the attached shape is accepted"); break;
         case 14: { Array2D<T> w(c + 1, r + 1); OK(throws([&] { a = w; }), "an array of another shape is accepted"); if(r != c) { Array2D<T> u(mk2<T, Unaligned>(mat(c, r))); OK(throws([&] { a = u; }), "an array of the transposed shape is accepted"); } } break;
         case 15: if constexpr(!BO) { a += a; for(long i = 0; i < r * c; ++i) s.at(i) = s.at(i) + s.at(i); } else { a = !a; for(long i = 0; i < r * c; ++i) s.at(i) = !s.at(i); } break;
         case 16: { Array2D<T> w(a); w = SL<T>(99); } break;
         case 17: for(long i = 0; i < CAP; ++i) { T v = s.nv(); one[i] = S(v); s.at(i) = v; } break;
      }
      M m; m.r = r; m.c = c; for(long i = 0; i < r * c; ++i) m.v.push_back(s.at(i));
      OK(agree2(a, m) && agree2(k, m), "an attached array does not show the buffer");
      for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) OK((void*)&a.un(i, j) == (void*)(pa + i * c + j) && (void*)&k.un(i, j) == (void*)(pa + i * c + j), "an attached element is not the buffer element in row-major order");
      s.check("2D");
   }
   mc::trace();
}
template <class P> concept writable1 = requires(P a) { a[0] = Strict<T>{}; } || requires(P a) { a = Strict<T>{}; } || requires(P a) { a.un(0) = Strict<T>{}; };
template <class P> concept writable2 = requires(P a) { a(0, 0) = Strict<T>{}; } || requires(P a) { a = Strict<T>{}; } || requires(P a) { a.un(0, 0) = Strict<T>{}; };
template <class T2 = T> void consts() {
   T2 b[6]; const T2* p = b; ctx = "const buffer"; auto a = attach1D(p, 6); auto c = attach2D(p, 2, 3);
   OK(!writable1<decltype(a)&>, "a buffer attached as const can be written"); OK(!writable2<decltype(c)&>, "a buffer attached as const can be written");
   OK(!(requires { attach1D(std::move(p), 3); }), "a temporary pointer can be attached");
}
#endif

#if C21_PART == 1
// ---------------------------------------------------------------- raw pointers of owning arrays
template <class A> void raw1(A& a, V m, const char* who) {
   ctx = std::string(who) + " of size " + std::to_string(m.size()); const long n = m.size(); mc::at("%s", ctx.c_str());
   for(long i = 0; i < n; ++i) a.un(i) = S(T(m[i]));
   auto both = [&] { mc::trace(); mc::state(hash_(m)); OK(agree1(a, m), "the array does not show what was written through the pointer"); for(long i = 0; i < n; ++i) OK(same(a.data()[i].val(), T(m[i])) && same(std::as_const(a).data()[i].val(), T(m[i])), "data() does not show the elements"); };
   both();
   if(n) OK((void*)a.data() == (void*)&a.un(0) && (const void*)std::as_const(a).data() == (void*)&a.un(0), "data() is not the address of the first element");
   for(long i = 0; i < n; ++i) { a.data()[i] = SL<T>(50 + i); m[i] = lab<T>(50 + i); both(); }
   if constexpr(requires { a.blas_data(); }) {
      static_assert(std::is_same_v<decltype(a.blas_data()), T*> && std::is_same_v<decltype(std::as_const(a).blas_data()), const T*>);
      if(n) OK((void*)a.blas_data() == (void*)a.data() && (const void*)std::as_const(a).blas_data() == (void*)a.data(), "blas_data() is another address than data()");
      T* p = a.blas_data();
      for(long i = 0; i < n; ++i) { p[i] = lab<T>(70 + i); m[i] = lab<T>(70 + i); both(); }
      for(long i = 0; i < n; ++i) { a.un(i) = SL<T>(80 + i); m[i] = lab<T>(80 + i); for(long j = 0; j < n; ++j) OK(same(p[j], T(m[j])), "blas_data() does not show a write to the array"); }
      V w(n); for(long i = 0; i < n; ++i) w[i] = lab<T>(91 + i);
      T tmp[300]; for(long i = 0; i < n; ++i) tmp[i] = w[i]; if(n) std::memcpy(p, tmp, n * sizeof(T)); m = w; both();
      auto t = attach1D(p, n); t = SL<T>(7); m.assign(n, lab<T>(7)); both();
      if(n) { t[n - 1] = SL<T>(8); m[n - 1] = lab<T>(8); both(); }
   } else OK(BO || false, "blas_data() is missing");
}
template <class A> void raw2(A& a, long r, long c, const char* who) {
   M m = mat(r, c); ctx = std::string(who) + " " + std::to_string(r) + "x" + std::to_string(c); mc::at("%s", ctx.c_str());
   for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) a.un(i, j) = S(T(m(i, j)));
   auto both = [&] { mc::trace(); mc::state(hash_(m)); OK(agree2(a, m), "the array does not show what was written through the pointer"); for(long i = 0; i < r * c; ++i) OK(same(a.data()[i].val(), T(m.v[i])), "data() does not show the elements in row-major order"); };
   both();
   for(long i = 0; i < r * c; ++i) { a.data()[i] = SL<T>(50 + i); m.v[i] = lab<T>(50 + i); both(); }
   if constexpr(requires { a.blas_data(); }) {
      T* p = a.blas_data(); const T* q = std::as_const(a).blas_data();
      if(r) OK((void*)p == (void*)a.data() && (const void*)q == (void*)p, "blas_data() is another address than data()");
      for(long i = 0; i < r * c; ++i) { p[i] = lab<T>(70 + i); m.v[i] = lab<T>(70 + i); both(); }
      for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) { a(i, j) = SL<T>(90 + i * c + j); m(i, j) = lab<T>(90 + i * c + j); OK(same(q[i * c + j], T(m(i, j))) && same(p[i * c + j], T(m(i, j))), "blas_data() does not show a write to the array"); }
      auto t = attach2D(p, r, c); t = SL<T>(7); for(long i = 0; i < r * c; ++i) m.v[i] = lab<T>(7); both();
      auto u = attach2D(p, c, r); if(r) { u(c - 1, 0) = SL<T>(9); m.v[(c - 1) * r] = lab<T>(9); both(); }
   } else OK(BO || false, "blas_data() is missing");
}
template <class A> concept rvalue_ptr = requires { A{}.data(); } || requires { A{}.blas_data(); } || requires { std::declval<const A>().data(); } || requires { std::declval<const A>().blas_data(); };
template <AlignmentFlag AF> void raws() {
   static_assert(!rvalue_ptr<Array1D<T, AF>> && !rvalue_ptr<Array2D<T, AF>> && !rvalue_ptr<FixedArray1D<T, 3, AF>> && !rvalue_ptr<FixedArray2D<T, 2, 2, AF>>);
   for(long n : {0l, 1l, 2l, 3l, 5l, 8l, 17l, 64l, 65l}) { Array1D<T, AF> a(n); raw1(a, iota<T>(n, 1), "array"); }
   for(long r = 0; r <= 5; ++r) for(long c = 0; c <= 5; ++c) if((r == 0) == (c == 0)) { Array2D<T, AF> a(r, c); raw2(a, r, c, "array"); }
   { FixedArray1D<T, 0, AF> a; raw1(a, {}, "fixed"); } { FixedArray1D<T, 1, AF> a; raw1(a, iota<T>(1, 1), "fixed"); } { FixedArray1D<T, 5, AF> a; raw1(a, iota<T>(5, 1), "fixed"); }
   { FixedArray2D<T, 0, 0, AF> a; raw2(a, 0, 0, "fixed"); } { FixedArray2D<T, 2, 3, AF> a; raw2(a, 2, 3, "fixed"); } { FixedArray2D<T, 3, 2, AF> a; raw2(a, 3, 2, "fixed"); } { FixedArray2D<T, 4, 1, AF> a; raw2(a, 4, 1, "fixed"); }
   // the pointer follows the array through every operation that may reallocate
   for(long n = 0; n <= 4; ++n) for(int op = 0; op < 9; ++op) { Array1D<T, AF> a(n), b(2); switch(op) { case 0: a.resize(n + 3); break; case 1: a.resize(0); break; case 2: a.insert_front(SL<T>(1)); break; case 3: if(n) a.remove(0); break; case 4: a.swap(b); break; case 5: a.resize_and_assign(b); break; case 6: { Array1D<T, AF> c(std::move(a)); a.resize(3); } break; case 7: a.insert_back(b); break; case 8: a.resize(n + 1, false); } raw1(a, iota<T>(a.size().val(), 1), "edited array"); }
   for(long n = 0; n <= 3; ++n) for(int op = 0; op < 7; ++op) { Array2D<T, AF> a(n, n), b(2, 1); switch(op) { case 0: a.resize(n + 1, n + 2); break; case 1: a.resize(0, 0); break; case 2: if(n) a.insert_row(0, const1D(n, SL<T>(1))); break; case 3: if(n) a.remove_row(0); break; case 4: a.swap(b); break; case 5: a.resize_and_assign(b); break; case 6: if(n) a.resize(n * n, 1, false); } raw2(a, a.rows().val(), a.cols().val(), "edited array"); }
}
// blas_array: an independent copy of any kind of object
template <int K> void copies() {
   for(long n : {0l, 1l, 2l, 3l, 6l}) for(long r = 0; r < 2; ++r) {
      if(r == 0) { const V v = iota<T>(n, 1); kind1<K>(v, [&](auto&& a, auto&&...) { ctx = std::string("blas_array of 1D ") + kname1[K] + " of size " + std::to_string(n); mc::at("%s", ctx.c_str()); mc::trace();
         auto p = blas_array(a); OK((p == nullptr) == (a.size().val() == 0), "blas_array of an empty object"); const long m = a.size().val(); V e; for(long i = 0; i < m; ++i) e.push_back(a.un(i).val());
         OK(samev(e, v), "the object"); for(long i = 0; i < m; ++i) OK(same(p[i], T(v[i])), "blas_array is not a copy"); for(long i = 0; i < m; ++i) p[i] = lab<T>(90); for(long i = 0; i < m; ++i) OK(same(a.un(i).val(), T(v[i])), "blas_array aliases the object"); mc::state(hash_(v, K)); }); }
      else for(auto [p, q] : {std::pair{0l, 0l}, {1l, 1l}, {2l, 3l}, {3l, 2l}, {1l, 4l}}) { const M v = mat(p, q); kind2<K>(v, [&](auto&& a, auto&&...) { ctx = std::string("blas_array of 2D ") + kname2[K] + " " + std::to_string(p) + "x" + std::to_string(q); mc::at("%s", ctx.c_str()); mc::trace();
         auto b = blas_array(a); for(long i = 0; i < p * q; ++i) OK(same(b[i], T(v.v[i])), "blas_array is not a row-major copy"); OK((b == nullptr) == (p == 0), "blas_array of an empty object"); for(long i = 0; i < p * q; ++i) b[i] = lab<T>(90); OK(elems2(a) == v, "blas_array aliases the object"); mc::state(hash_(v, K)); }); }
   }
}
#endif

#if C21_PART >= 2
// ---------------------------------------------------------------- Eigen
template <class A> void mapped(A& a, const char* who) {
   const long r = a.rows().val(), c = a.cols().val(); M m = mat(r, c); ctx = std::string(who) + " " + std::to_string(r) + "x" + std::to_string(c) + " mapped"; mc::at("%s", ctx.c_str());
   for(long i = 0; i < r * c; ++i) a.un(i) = S(T(m.v[i]));
   auto e = spp::eigen::map(a); auto k = spp::eigen::map(std::as_const(a));
   static_assert(std::is_same_v<decltype(k.data()), const T*> && std::is_same_v<decltype(e.data()), T*>, "the map of a constant array can be written");
   auto both = [&] { mc::trace(); mc::state(hash_(m)); OK(agree2(a, m), "the array does not show a write through its map"); for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) OK(same(T(e(i, j)), m(i, j)) && same(T(k(i, j)), m(i, j)), "the map does not show the elements"); };
   OK(e.rows() == r && e.cols() == c && k.rows() == r && k.cols() == c && e.size() == r * c, "the shape of the map");
   both();
   for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) {
      OK((void*)&e(i, j) == (void*)&a.un(i, j) && (const void*)(k.data() + i * c + j) == (void*)&a.un(i, j), "a map element is not the array element");
      e(i, j) = lab<T>(60 + i * c + j); m(i, j) = lab<T>(60 + i * c + j); both();
      a(i, j) = SL<T>(20 + i * c + j); m(i, j) = lab<T>(20 + i * c + j); both();
   }
   e.setConstant(lab<T>(5)); m.v.assign(r * c, lab<T>(5)); both();
   if(r) { e.row(r - 1).setConstant(lab<T>(6)); for(long j = 0; j < c; ++j) m(r - 1, j) = lab<T>(6); both(); a.col(0) = SL<T>(7); for(long i = 0; i < r; ++i) m(i, 0) = lab<T>(7); both(); }
   e *= T(2); for(auto&& x : m.v) x = x * T(2); both();
   if constexpr(!A::is_fixed()) if(r == c && r) { for(long i = 0; i < r * c; ++i) a.un(i) = S(lab<T>(i)); e.transposeInPlace(); for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) m(i, j) = lab<T>(j * c + i); both(); }
}
M prod(const M& a, const M& b) { M c; c.r = a.r; c.c = b.c; c.v.assign(a.r * b.c, T(0)); for(long i = 0; i < a.r; ++i) for(long j = 0; j < b.c; ++j) for(long k = 0; k < a.c; ++k) c(i, j) = c(i, j) + a(i, k) * b(k, j); return c; }
template <class A> void put(A& a, const M& m) { for(long i = 0; i < m.r * m.c; ++i) a.un(i) = S(T(m.v[i])); }
template <class A, class B> void product(A& a, B& b, const M& x, const M& y, const char* who) {
   put(a, x); put(b, y); mc::trace(); mc::step();
   const M e = prod(x, y); auto c = matrix_prod(a, b);
   if(!(elems2(c) == e)) return bad((std::string("matrix_prod of ") + who).c_str(), str(elems2(c)), str(e));
   Array2D<T> d(e.r, e.c); matrix_prod(std::as_const(a), std::as_const(b), d); Array2D<T, Aligned> f(e.r, e.c); matrix_prod(a, b, f);
   if(!(elems2(d) == e) || !(elems2(f) == e) || !(elems2(a) == x) || !(elems2(b) == y)) mc::fail("matrix_prod into a target", "%s: %s times %s", ctx.c_str(), str(x).c_str(), str(y).c_str());
   mc::state(hash_(e));
}
M pat(long r, long c, int p) { M m; m.r = r; m.c = c; for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) m.v.push_back(T(p == 0 ? (i * 3 + j * 5 + 1) % 7 : p == 1 ? (i == j ? 1 : 0) : (i + 2 * j) % 3)); return m; }
template <long R, long C> void fixed_map() { { FixedArray2D<T, R, C> a; mapped(a, "fixed array"); } { FixedArray2D<T, R, C, Aligned> a; mapped(a, "aligned fixed array"); } }
template <long R, long K, long C> void fixed_prod() {
   FixedArray2D<T, R, K> a; FixedArray2D<T, K, C, Aligned> b; Array2D<T> d(R, K), e(K, C); FixedArray2D<T, R, C> o;
   for(int p = 0; p < 3; ++p) for(int q = 0; q < 3; ++q) { ctx = "fixed " + std::to_string(R) + "x" + std::to_string(K) + " times " + std::to_string(K) + "x" + std::to_string(C); mc::at("%s", ctx.c_str()); product(a, b, pat(R, K, p), pat(K, C, q), "fixed arrays"); product(d, b, pat(R, K, p), pat(K, C, q), "mixed arrays"); product(a, e, pat(R, K, p), pat(K, C, q), "mixed arrays"); matrix_prod(a, e, o); OK(elems2(o) == prod(pat(R, K, p), pat(K, C, q)), "matrix_prod into a fixed array"); }
}
#endif
#ifdef C21_DEEP
const bool deep = true;
#else
const bool deep = false;
#endif
}

#if C21_PART == 0
UNIT("1D windows: all operation sequences") { for(auto [oa, na, ob, nb] : {std::array{0l, 4l, 4l, 4l}, {0l, 4l, 0l, 4l}, {1l, 4l, 3l, 4l}, {2l, 3l, 0l, 8l}, {0l, 0l, 0l, 1l}, {7l, 1l, 0l, 2l}, {0l, 8l, 8l, 0l}}) for(int d = 1; d <= (deep ? 3 : 2); ++d) seqs(20, d, [&, oa = oa, na = na, ob = ob, nb = nb](const std::vector<int>& p) { run1(oa, na, ob, nb, p); }); }
UNIT("2D windows: all operation sequences") { for(auto [r, c] : {std::pair{0l, 0l}, {1l, 1l}, {2l, 3l}, {3l, 2l}, {2l, 4l}, {1l, 8l}, {8l, 1l}, {2l, 2l}}) for(int d = 1; d <= (deep ? 3 : 2); ++d) seqs(18, d, [&, r = r, c = c](const std::vector<int>& p) { run2(r, c, p); }); }
UNIT("invalid sizes, constant buffers") { Buf s; T* p = s.p(); const T* q = p; ctx = "invalid size"; for(long n : {-1l, -2l, -100l}) { OK(throws([&] { (void)attach1D(p, n); }) && throws([&] { (void)attach1D(q, n); }), "a negative size is accepted"); for(long m : {-3l, -1l, 1l, 2l}) OK(throws([&] { (void)attach2D(p, n, m); }) && throws([&] { (void)attach2D(q, m, n); }) && throws([&] { (void)attach2D(p, m, n); }), "a negative shape is accepted"); } s.check("invalid"); consts(); }
#elif C21_PART == 1
UNIT("raw pointers") { raws<Unaligned>(); }
UNIT("raw pointers, aligned") { raws<Aligned>(); }
template <int K = 0> void all_copies() { copies<K>(); if constexpr(K < 10) all_copies<K + 1>(); }
template <class T2 = T> void blas_copies() { if constexpr(!std::is_same_v<T2, bool>) all_copies(); else { auto has = []<class A>(A& a) { return requires { blas_array(a); }; }; Array1D<T2> a(2); OK(!has(a), "blas_array of a boolean array is offered"); } }
UNIT("blas_array of every kind") { ctx = "blas_array"; blas_copies(); }
#else
UNIT("maps of every shape") { for(long r = 0; r <= 6; ++r) for(long c = 0; c <= 6; ++c) if((r == 0) == (c == 0)) { Array2D<T> a(r, c); mapped(a, "array"); Array2D<T, Aligned> b(r, c); mapped(b, "aligned array"); } }
UNIT("maps of fixed arrays") { fixed_map<1, 1>(); fixed_map<2, 3>(); fixed_map<3, 2>(); fixed_map<1, 4>(); fixed_map<4, 1>(); fixed_map<4, 4>(); fixed_map<0, 0>(); }
UNIT("all products over small values") {
   const T d[] = {T(0), T(1), T(2), T(5)};
   for(auto [r, k, c] : {std::array{1l, 1l, 1l}, {1l, 2l, 1l}, {2l, 1l, 2l}, {2l, 2l, 1l}, {1l, 2l, 2l}, {2l, 2l, 2l}, {1l, 3l, 1l}}) {
      const long n = r * k + k * c; const long B = n <= 6 ? 4 : deep ? 4 : 3; long tot = 1; for(long i = 0; i < n; ++i) tot *= B;
      Array2D<T> a(r, k), b(k, c); ctx = "small product";
      for(long x = 0; x < tot; ++x) { M p, q; p.r = r; p.c = k; q.r = k; q.c = c; long y = x; for(long i = 0; i < r * k; ++i, y /= B) p.v.push_back(d[y % B]); for(long i = 0; i < k * c; ++i, y /= B) q.v.push_back(d[y % B]); mc::at("%s * %s", str(p).c_str(), str(q).c_str()); product(a, b, p, q, "arrays"); }
   }
}
UNIT("products of every shape") {
   auto one = [&](long r, long k, long c, int p, int q) { ctx = std::to_string(r) + "x" + std::to_string(k) + " times " + std::to_string(k) + "x" + std::to_string(c); mc::at("%s", ctx.c_str()); Array2D<T> a(r, k), b(k, c); product(a, b, pat(r, k, p), pat(k, c, q), "arrays"); Array2D<T, Aligned> e(r, k); product(e, b, pat(r, k, p), pat(k, c, q), "aligned and unaligned arrays"); };
   for(long r = 1; r <= (deep ? 12 : 6); ++r) for(long k = 1; k <= (deep ? 12 : 6); ++k) for(long c = 1; c <= (deep ? 12 : 6); ++c) for(int p = 0; p < 3; ++p) one(r, k, c, p, 0);
   for(long r : {1l, 3l, 8l, 17l, 33l}) for(long k : {1l, 7l, 16l, 31l}) for(long c : {1l, 4l, 9l, 32l}) one(r, k, c, 0, 2);
   one(70, 65, 66, 0, 2); { Array2D<T> z; ctx = "empty"; product(z, z, pat(0, 0, 0), pat(0, 0, 0), "empty arrays"); }
   for(long n = 1; n <= 5; ++n) { ctx = "square product into an operand " + std::to_string(n); mc::at("%s", ctx.c_str()); const M x = pat(n, n, 0), y = pat(n, n, 2); Array2D<T> a(n, n), b(n, n); put(a, x); put(b, y); matrix_prod(a, b, a); OK(elems2(a) == prod(x, y) && elems2(b) == y, "matrix_prod into its left operand"); put(a, x); matrix_prod(a, b, b); OK(elems2(b) == prod(x, y) && elems2(a) == x, "matrix_prod into its right operand"); put(a, x); matrix_prod(a, a, a); OK(elems2(a) == prod(x, x), "matrix_prod of an array with itself into itself"); }
}
UNIT("products of fixed arrays") { fixed_prod<2, 3, 2>(); fixed_prod<1, 4, 3>(); fixed_prod<3, 1, 2>(); fixed_prod<3, 4, 1>(); fixed_prod<1, 1, 1>(); fixed_prod<4, 4, 4>(); }
UNIT("products of unequal shapes are rejected") {
   for(long r = 0; r <= 3; ++r) for(long k = 0; k <= 3; ++k) for(long l = 0; l <= 3; ++l) for(long c = 0; c <= 3; ++c) if((r == 0) == (k == 0) && (l == 0) == (c == 0)) {
      ctx = std::to_string(r) + "x" + std::to_string(k) + " times " + std::to_string(l) + "x" + std::to_string(c); mc::at("%s", ctx.c_str()); mc::trace(); Array2D<T> a(r, k), b(l, c); put(a, pat(r, k, 0)); put(b, pat(l, c, 2));
      if(k != l) OK(throws([&] { (void)matrix_prod(a, b); }), "a product of incompatible shapes is accepted");
      for(long p = 0; p <= 3; ++p) for(long q = 0; q <= 3; ++q) if((p == 0) == (q == 0)) { Array2D<T> o(p, q, SL<T>(3)); const bool fit = k == l && p == r && q == c; const bool t = throws([&] { matrix_prod(a, b, o); }); OK(t == !fit, "a product into a target of another shape"); if(!fit) OK((o == const2D(p, q, SL<T>(3))).val(), "the target of a rejected product is changed"); }
   }
}
#endif
