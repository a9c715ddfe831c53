// C12: iterators are checked random-access positions; every position, jump, comparison, subscript and short walk.
#ifndef C12_T
#define C12_T double
#endif
#define TGT_T C12_T
#include "targets.hpp"

#include <numeric>

namespace {
constexpr long BIG = 1L << 62;
void oops(const char* what, long p, long q = 0) { mc::fail(std::string(what) + ":" + ctx.substr(0, ctx.find(' ')), "%s is wrong at position %ld (argument %ld) of %s", what, p, q, ctx.c_str()); }

// b, e: the ends; eq(value or reference, i): does it denote element i
template <bool arrow, class It, class Eq> void model(const It b, const It e, long n, Eq eq) {
   auto at = [&](long p) { It it = b; it += p; return it; };
   const long lo = -2, hi = n + 2;
   auto where = [&](const It& it) { return (long)(it - b); };
   auto inr = [&](long p) { return p >= 0 && p < n; };
   auto deref = [&](const It& it, long p, const char* w) {
      mc::step();
      if(inr(p)) { bool t = throws([&] { if(!eq(*it, p)) oops(w, p); }); if(t) oops(w, p); }
      else if(!throws([&] { auto&& r = *it; (void)r; })) oops("dereferencing outside the range", p);
   };
   if((long)(e - b) != n || (long)(b - e) != -n || (b == e) != (n == 0) || !(e >= b)) oops("distance of the ends", n);
   for(long p = lo; p <= hi; ++p) {
      It i = at(p);
      if(where(i) != p || where(b + p) != p || where(p + b) != p || where(e - (n - p)) != p || where(e + (p - n)) != p) oops("jump", p);
      { It j = e; j -= n - p; if(where(j) != p || !(j == i)) oops("-=", p); }
      { It j = b; for(long k = 0; k < p; ++k) ++j; for(long k = 0; k > p; --k) --j; if(where(j) != p) oops("stepping", p); }
      { It j = e; for(long k = n; k < p; ++k) j++; for(long k = n; k > p; --k) j--; if(where(j) != p) oops("postfix stepping", p); }
      { It j = i; It& r = ++j; if(&r != &j || where(j) != p + 1) oops("++", p); It& s = --j; if(&s != &j || where(j) != p) oops("--", p); }
      { It j = i; It k = j++; if(where(k) != p || where(j) != p + 1) oops("postfix ++", p); It l = j--; if(where(l) != p + 1 || where(j) != p) oops("postfix --", p); }
      { It j = b; It& r = (j = i); if(&r != &j || where(j) != p || where(i) != p) oops("assignment", p); }
      deref(i, p, "dereference"); deref(i, p, "second dereference");
      if constexpr(arrow && std::is_lvalue_reference_v<decltype(*i)>) { mc::step(); if(inr(p)) { if(!eq(*i.operator->(), p)) oops("->", p); } else if(!throws([&] { (void)i.operator->(); })) oops("-> outside the range", p); }
      for(long q = lo; q <= hi; ++q) {
         It j = at(q);
         if((long)(i - j) != p - q) oops("difference", p, q);
         if((i == j) != (p == q) || (i != j) != (p != q) || (i < j) != (p < q) || (i <= j) != (p <= q) || (i > j) != (p > q) || (i >= j) != (p >= q)) oops("comparison", p, q);
         const long k = q - p;   // subscript reaching q
         mc::step(8);
         if(inr(q)) { if(throws([&] { if(!eq(i[k], q)) oops("subscript", p, k); })) oops("subscript", p, k); } else if(!throws([&] { auto&& r = i[k]; (void)r; })) oops("subscript outside the range", p, k);
         // two moves after another
         It w = i; w += k; if(where(w) != q) oops("+=", p, k); w -= k; if(where(w) != p) oops("-= back", p, k);
         w = i + k; --w; if(where(w) != q - 1) oops("+ then --", p, k); w = (i - (-k)); ++w; if(where(w) != q + 1) oops("- then ++", p, k);
         w = ((i++)) + k; if(where(w) != q) oops("postfix ++ then +", p, k); --i;
         deref(w, q, "dereference after moves");
      }
      for(long k : {BIG, -BIG, BIG - 1}) { mc::step(); if(!throws([&] { auto&& r = i[k]; (void)r; })) oops("extreme subscript", p, k); }
      for(long k : {BIG, -BIG}) { It w = i; w += k; if(where(w) != p + k) oops("extreme jump", p, k); mc::step(); if(!throws([&] { auto&& r = *w; (void)r; })) oops("dereference after an extreme jump", p, k); w -= k; if(where(w) != p) oops("extreme jump back", p, k); }
   }
}
// an iterator that points nowhere: nothing is performed
template <class It> void singular() {
   It s{}; 
   mc::step(14);
   auto no = [&](auto f, const char* w) { if(!throws([&] { It t{}; f(t); })) oops(w, -99); };
   no([](It& t) { ++t; }, "singular ++"); no([](It& t) { --t; }, "singular --"); no([](It& t) { t++; }, "singular postfix ++"); no([](It& t) { t--; }, "singular postfix --");
   no([](It& t) { t += 1; }, "singular +="); no([](It& t) { t -= 1; }, "singular -="); no([](It& t) { (void)(t + 1); }, "singular +"); no([](It& t) { (void)(1 + t); }, "singular n +"); no([](It& t) { (void)(t - 1); }, "singular -");
   no([](It& t) { (void)(t - t); }, "singular difference"); no([](It& t) { (void)*t; }, "singular dereference"); no([](It& t) { (void)t[0]; }, "singular subscript");
   no([](It& t) { (void)(t == t); }, "singular =="); no([](It& t) { (void)(t != t); }, "singular !="); no([](It& t) { (void)(t < t); }, "singular <"); no([](It& t) { (void)(t <= t); }, "singular <="); no([](It& t) { (void)(t > t); }, "singular >"); no([](It& t) { (void)(t >= t); }, "singular >=");
}
template <class It> void foreign(const It& a, const It& b) {   // positions in different objects are not comparable
   mc::step(7);
   auto no = [&](auto f, const char* w) { if(!throws([&] { f(); })) oops(w, -98); };
   no([&] { (void)(a - b); }, "difference of different objects"); no([&] { (void)(a == b); }, "== of different objects"); no([&] { (void)(a != b); }, "!= of different objects");
   no([&] { (void)(a < b); }, "< of different objects"); no([&] { (void)(a <= b); }, "<= of different objects"); no([&] { (void)(a > b); }, "> of different objects"); no([&] { (void)(a >= b); }, ">= of different objects");
}
template <class E> void element_iterators(E& a, const V& v) {
   const long n = v.size();
   auto eq = [&](auto&& x, long i) { return bits(x.val(), T(v[i])); };
   auto rq = [&](auto&& x, long i) { return bits(x.val(), T(v[n - 1 - i])); };
   const auto& c = a;
   model<true>(a.begin(), a.end(), n, eq); model<true>(c.begin(), c.end(), n, eq); model<true>(a.cbegin(), a.cend(), n, eq);
   model<false>(a.rbegin(), a.rend(), n, rq); model<false>(c.rbegin(), c.rend(), n, rq); model<false>(a.crbegin(), a.crend(), n, rq);
   singular<std::remove_cvref_t<decltype(a.begin())>>(); singular<std::remove_cvref_t<decltype(c.begin())>>();
   { E a2(a); const auto& c2 = a2; foreign(a.begin(), a2.begin()); foreign(c.begin(), c2.begin()); foreign(a.end(), a2.end()); }
   // construction from positions
   for(long p = -1; p <= n + 1; ++p) for(long q = -1; q <= n + 1; ++q) {
      auto want = [&](bool rev) { V w; for(long i = p; i < q; ++i) w.push_back(rev ? v[n - 1 - i] : v[i]); return w; };
      const bool ok = p <= q && (p == q || (p >= 0 && q <= n));
      auto ck = [&](auto b, auto e, bool rev, const char* w) {
         mc::step();
         V got; bool t = throws([&] { Array1D<T> x(b, e); got = elems(x); });
         if(t == ok || (ok && !bitsv(got, want(rev)))) oops(w, p, q);
      };
      ck(c.begin() + p, c.begin() + q, false, "construction from positions"); ck(c.rbegin() + p, c.rbegin() + q, true, "construction from reverse positions"); ck(a.begin() + p, a.begin() + q, false, "construction from mutable positions");
      mc::step(); bool ok3 = ok && q - p == 3; V got; bool t = throws([&] { FixedArray1D<T, 3> x(c.begin() + p, c.begin() + q); got = elems(x); });
      if(t == ok3 || (ok3 && !bitsv(got, want(false)))) oops("construction of a fixed array from positions", p, q);
   }
}
template <class R, class Row> void lines(R& rows, const Row& /*tag*/, long k, auto elemsOf, auto rev) {
   const R& c = rows;
   model<false>(rows.begin(), rows.end(), k, elemsOf); model<false>(c.begin(), c.end(), k, elemsOf); model<false>(rows.cbegin(), rows.cend(), k, elemsOf);
   model<false>(rows.rbegin(), rows.rend(), k, rev); model<false>(c.rbegin(), c.rend(), k, rev); model<false>(rows.crbegin(), rows.crend(), k, rev);
   singular<std::remove_cvref_t<decltype(rows.begin())>>(); singular<std::remove_cvref_t<decltype(c.begin())>>();
}
template <class E> void row_col(E& a, const M& m) {
   auto row = [&](long i) { V w; for(long j = 0; j < m.c; ++j) w.push_back(m(i, j)); return w; };
   auto col = [&](long j) { V w; for(long i = 0; i < m.r; ++i) w.push_back(m(i, j)); return w; };
   auto same1 = [](auto&& x, const V& w) { auto y = x; return bitsv(elems(y), w); };
   { RowIt r{a}; lines(r, 0, m.r, [&](auto&& x, long i) { return same1(x, row(i)); }, [&](auto&& x, long i) { return same1(x, row(m.r - 1 - i)); }); }
   { ColIt r{a}; lines(r, 0, m.c, [&](auto&& x, long i) { return same1(x, col(i)); }, [&](auto&& x, long i) { return same1(x, col(m.c - 1 - i)); }); }
   long i = 0; for(auto x : RowIt{a}) { if(!same1(x, row(i))) oops("range-for over rows", i); ++i; } if(i != m.r) oops("range-for over rows", i);
   i = 0; for(auto x : ColIt{a}) { if(!same1(x, col(i))) oops("range-for over columns", i); ++i; } if(i != m.c) oops("range-for over columns", i);
   // index range
   std::vector<std::pair<long, long>> seen; for(auto [p, q] : IndexRange2D{a}) seen.push_back({p.val(), q.val()});
   bool ok = (long)seen.size() == m.r * m.c; for(long k = 0; ok && k < m.r * m.c; ++k) ok = seen[k] == std::pair{k / m.c, k % m.c};
   mc::step(); if(!ok) oops("index range", m.r, m.c);
}
}

#ifndef C12_KLO
#define C12_KLO 0
#define C12_KHI 11
#endif
template <class F> void ks(F&& f) { [&]<int... K>(std::integer_sequence<int, K...>) { (f.template operator()<K + C12_KLO>(), ...); }(std::make_integer_sequence<int, C12_KHI - C12_KLO>{}); }

#if C12_PART == 0
UNIT("positions-1d") { ks([&]<int K>() { for(long n : {0L, 1L, 2L, 3L, 6L}) { V v = iota<T>(n, 3); ctx = std::string(kname1[K]) + " of size " + std::to_string(n); mc::at("%s", ctx.c_str()); kind1<K>(v, [&](auto&& a, auto) { element_iterators(a, v); }); mc::state(K * 100 + n); mc::trace(); } }); }
#elif C12_PART == 1
template <class A> concept Iterable = requires(A& a) { a.begin(); };
UNIT("positions-2d") { ks([&]<int K>() { for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {1, 3}, {2, 3}, {3, 2}}) { M m = iota2<T>(r, c, 3); ctx = std::string(kname2[K]) + " " + str(m); mc::at("%s", ctx.c_str()); kind2<K>(m, [&](auto&& a, auto) { element_iterators(a, m.v); }); mc::state(K * 100 + r * 10 + c); mc::trace(); } }); }
#elif C12_PART == 2
UNIT("rows-and-columns") { ks([&]<int K>() { for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 3}, {3, 2}}) { M m = iota2<T>(r, c, 3); ctx = std::string(kname2[K]) + " " + str(m); mc::at("%s", ctx.c_str()); kind2<K>(m, [&](auto&& a, auto) { row_col(a, m); }); mc::state(K * 100 + r * 10 + c); mc::trace(); } }); }
#elif C12_PART == 3
// writing through mutable positions
template <int K> void wr1(const V& v) {
   const long n = v.size();
   const char* how[] = {"*it", "it[k]", "*--it from the end", "reverse", "->", "range-for"};
   for(int h = 0; h < 6; ++h) for(long i = 0; i < n; ++i) {
      ctx = std::string(tn[K]) + " of size " + std::to_string(n); mc::at("writing through %s of %s", how[h], ctx.c_str());
      V w = v; w[i] = lab<T>(70 + i); if constexpr(BO) w[i] = !v[i];
      target<K>(v, [&](auto&& o, auto& base, auto& pos, auto& in) {
         auto x = S(T(w[i]));
         if(h == 0) *(o.begin() + i) = x;
         else if(h == 1) (o.begin() + (i / 2))[i - i / 2] = x;
         else if(h == 2) { auto it = o.end(); for(long k = n; k > i; --k) --it; *it = x; }
         else if(h == 3) *(o.rbegin() + (n - 1 - i)) = x;
         else if(h == 4) { auto it = o.begin() + i; *it.operator->() = x; }
         else { long k = 0; for(auto& y : o) { if(k == i) y = x; ++k; } }
         after(how[h], base, pos, in, w, &w);
      });
      mc::trace();
   }
}
UNIT("writing-1d") { ts([&]<int K>() { for(long n : {1L, 2L, 4L, 5L}) wr1<K>(iota<T>(n, 1)); }); }
template <int K> void wr2(long r, long c) {
   const M m = iota2<T>(r, c, 1);
   ctx = std::string(tn2[K]) + " " + std::to_string(r) + "x" + std::to_string(c);
   for(long i = 0; i < r * c; ++i) {
      V w = m.v; if constexpr(BO) w[i] = !w[i]; else w[i] = lab<T>(70 + i);
      for(int h = 0; h < 4; ++h) target2<K>(m.v, r, c, [&](auto&& o, auto& base, auto& pos, auto& in) {
         mc::at("writing element %ld by method %d of %s", i, h, ctx.c_str());
         auto x = S(T(w[i]));
         if(h == 0) *(o.begin() + i) = x; else if(h == 1) *(o.rbegin() + (r * c - 1 - i)) = x;
         else if(h == 2) (*(RowIt{o}.begin() + i / c))[i % c] = x; else (*(ColIt{o}.begin() + i % c))[i / c] = x;
         after("write", base, pos, in, w, &w);
      });
      mc::trace();
   }
   for(long i = 0; i < r; ++i) { V w = m.v; for(long j = 0; j < c; ++j) w[i * c + j] = lab<T>(9); target2<K>(m.v, r, c, [&](auto&& o, auto& base, auto& pos, auto& in) { mc::at("writing row %ld of %s", i, ctx.c_str()); RowIt R{o}; auto it = R.begin() + i; *it = SL<T>(9); after("row write", base, pos, in, w, &w); }); }
   for(long j = 0; j < c; ++j) { V w = m.v; for(long i = 0; i < r; ++i) w[i * c + j] = lab<T>(9); target2<K>(m.v, r, c, [&](auto&& o, auto& base, auto& pos, auto& in) { mc::at("writing column %ld of %s", j, ctx.c_str()); ColIt R{o}; auto it = R.begin() + j; *it = SL<T>(9); after("column write", base, pos, in, w, &w); }); }
   for(int h = 0; h < 2; ++h) { V w = m.v; long k = 0; if(h == 0) for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) w[i * c + j] = lab<T>(30 + i); else for(long i = 0; i < r; ++i) for(long j = 0; j < c; ++j) w[i * c + j] = lab<T>(30 + j);
      target2<K>(m.v, r, c, [&](auto&& o, auto& base, auto& pos, auto& in) { mc::at("range-for over lines of %s", ctx.c_str()); if(h == 0) for(auto x : RowIt{o}) x = SL<T>(30 + k++); else for(auto x : ColIt{o}) x = SL<T>(30 + k++); after("range-for write", base, pos, in, w, &w); }); }
}
UNIT("writing-2d") { ts2([&]<int K>() { for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {2, 2}, {1, 3}, {3, 2}}) wr2<K>(r, c); }); }
// standard algorithms
template <int K> void algos(const V& v) {
   const long n = v.size();
   auto in_place = [&](const char* w, auto lib, auto mod) { V want = v; mod(want); ctx = std::string(tn[K]) + " " + str(v); mc::at("%s of %s", w, ctx.c_str());
      target<K>(v, [&](auto&& o, auto& base, auto& pos, auto& in) { lib(o); V got; for(long q : pos) got.push_back(base.un(q).val()); mc::step(); if(!bitsv(got, want)) bad(w, got, want); for(long i = 0; i < (long)in.size(); ++i) if(!in[i] && base.un(i).val() != sent(i)) oops("algorithm touches other elements", i); mc::state(hash_(got, K)); }); mc::trace(); };
   auto lt = [](auto a, auto b) { return a < b; };
   in_place("reverse", [](auto&& o) { std::reverse(o.begin(), o.end()); }, [](V& m) { std::reverse(m.begin(), m.end()); });
   in_place("ranges::reverse", [](auto&& o) { std::ranges::reverse(o.begin(), o.end()); }, [](V& m) { std::reverse(m.begin(), m.end()); });
   in_place("fill", [](auto&& o) { std::fill(o.begin(), o.end(), SL<T>(3)); }, [](V& m) { std::fill(m.begin(), m.end(), lab<T>(3)); });
   in_place("fill reversed part", [&](auto&& o) { if(n) std::fill(o.rbegin(), o.rend() - 1, SL<T>(3)); }, [](V& m) { if(m.size()) std::fill(m.begin() + 1, m.end(), lab<T>(3)); });
   in_place("copy_backward", [&](auto&& o) { if(n) std::copy_backward(o.begin(), o.end() - 1, o.end()); }, [](V& m) { if(m.size()) std::copy_backward(m.begin(), m.end() - 1, m.end()); });
   in_place("copy", [&](auto&& o) { if(n) std::copy(o.begin() + 1, o.end(), o.begin()); }, [](V& m) { if(m.size()) std::copy(m.begin() + 1, m.end(), m.begin()); });
   in_place("swap_ranges", [&](auto&& o) { std::swap_ranges(o.begin(), o.begin() + n / 2, o.begin() + (n + 1) / 2); }, [&](V& m) { std::swap_ranges(m.begin(), m.begin() + n / 2, m.begin() + (n + 1) / 2); });
   in_place("replace", [&](auto&& o) { std::replace(o.begin(), o.end(), S(T(dom3()[0])), S(T(dom3()[1]))); }, [&](V& m) { std::replace(m.begin(), m.end(), T(dom3()[0]), T(dom3()[1])); });
   in_place("transform", [&](auto&& o) { std::transform(o.begin(), o.end(), o.begin(), [](auto x) { return x == S(T(dom3()[0])) ? S(T(dom3()[1])) : S(T(dom3()[0])); }); }, [&](V& m) { V d = dom3(); for(std::size_t i = 0; i < m.size(); ++i) m[i] = T(m[i]) == T(d[0]) ? T(d[1]) : T(d[0]); });
   for(long k = 0; k <= n; ++k) {
      in_place("rotate", [&](auto&& o) { std::rotate(o.begin(), o.begin() + k, o.end()); }, [&](V& m) { std::rotate(m.begin(), m.begin() + k, m.end()); });
      if constexpr(!BO) in_place("inplace_merge", [&](auto&& o) { std::sort(o.begin(), o.begin() + k, lt); std::sort(o.begin() + k, o.end(), lt); std::inplace_merge(o.begin(), o.begin() + k, o.end(), lt); }, [&](V& m) { std::sort(m.begin(), m.end()); });
   }
   if constexpr(!BO) {
      in_place("stable_sort", [&](auto&& o) { std::stable_sort(o.begin(), o.end(), lt); }, [](V& m) { std::sort(m.begin(), m.end()); });
      in_place("ranges::sort", [&](auto&& o) { std::ranges::sort(o.begin(), o.end(), lt); }, [](V& m) { std::sort(m.begin(), m.end()); });
      in_place("sort reversed", [&](auto&& o) { std::sort(o.rbegin(), o.rend(), lt); }, [](V& m) { std::sort(m.begin(), m.end()); std::reverse(m.begin(), m.end()); });
      in_place("partial_sort", [&](auto&& o) { std::partial_sort(o.begin(), o.end(), o.end(), lt); }, [](V& m) { std::sort(m.begin(), m.end()); });
      in_place("heap sort", [&](auto&& o) { std::make_heap(o.begin(), o.end(), lt); std::sort_heap(o.begin(), o.end(), lt); }, [](V& m) { std::sort(m.begin(), m.end()); });
      in_place("next_permutation", [&](auto&& o) { std::next_permutation(o.begin(), o.end(), lt); }, [](V& m) { std::next_permutation(m.begin(), m.end()); });
      in_place("partial_sum", [&](auto&& o) { std::partial_sum(o.begin(), o.end(), o.begin()); }, [](V& m) { std::partial_sum(m.begin(), m.end(), m.begin()); });
      in_place("stable_partition", [&](auto&& o) { std::stable_partition(o.begin(), o.end(), [](auto x) { return x > S(T(1)); }); }, [](V& m) { std::stable_partition(m.begin(), m.end(), [](T x) { return x > T(1); }); });
   }
   // reading algorithms
   ctx = std::string(tn[K]) + " " + str(v); mc::at("reading algorithms over %s", ctx.c_str());
   target<K>(v, [&](auto&& o, auto& base, auto&, auto&) {
      const auto& c = o; V d = dom3();
      for(T x : d) {
         long f = std::find(v.begin(), v.end(), x) - v.begin(), k = std::count(v.begin(), v.end(), x);
         mc::step(5);
         if(std::find(c.begin(), c.end(), S(x)) - c.begin() != f || std::ranges::find(c.begin(), c.end(), S(x)) - c.begin() != f) oops("find", f);
         if(std::count(c.begin(), c.end(), S(x)) != k || std::count(c.rbegin(), c.rend(), S(x)) != k) oops("count", k);
         long rf = std::find(v.rbegin(), v.rend(), x) - v.rbegin(); if(std::find(o.rbegin(), o.rend(), S(x)) - o.rbegin() != rf) oops("reverse find", rf);
      }
      { V got; std::transform(c.begin(), c.end(), std::back_inserter(got), [](auto x) { return x.val(); }); if(!bitsv(got, v)) bad("transform out", got, v); }
      { V got, w(v.rbegin(), v.rend()); for(auto i = c.crbegin(); i != c.crend(); ++i) got.push_back((*i).val()); if(!bitsv(got, w)) bad("reverse loop", got, w); }
      if constexpr(!BO) {
         T s = std::accumulate(v.begin(), v.end(), T(0)); if(std::accumulate(c.begin(), c.end(), Strict<T>{}).val() != s) oops("accumulate", n);
         long mn = std::min_element(v.begin(), v.end()) - v.begin(); if(std::min_element(c.begin(), c.end(), lt) - c.begin() != mn) oops("min_element", mn);
         long ad = std::adjacent_find(v.begin(), v.end()) - v.begin(); if(std::adjacent_find(c.begin(), c.end()) - c.begin() != ad) oops("adjacent_find", ad);
         V w = v; std::sort(w.begin(), w.end()); std::sort(o.begin(), o.end(), lt);
         for(T x : d) { long l = std::lower_bound(w.begin(), w.end(), x) - w.begin(); if(std::lower_bound(c.begin(), c.end(), S(x), lt) - c.begin() != l) oops("lower_bound", l); if(std::binary_search(c.begin(), c.end(), S(x), lt) != std::binary_search(w.begin(), w.end(), x)) oops("binary_search", l); }
      }
      if(!std::equal(c.begin(), c.end(), o.begin(), o.end()) || !std::is_permutation(c.begin(), c.end(), o.rbegin(), o.rend())) oops("equal", n);
      mc::step(8);
   });
}
UNIT("algorithms") { V d = dom3(); if(d.size() > 3) d.resize(3); ts([&]<int K>() { for(long n = 0; n <= (mc::thorough ? 5 : 3); ++n) vectors(d, n, [&](const V& v) { algos<K>(v); }); for(long n : {4L, 6L, 19L}) for(long k = 1; k < n; k += (n > 10 ? 3 : 1)) { V v; for(long i = 0; i < n; ++i) v.push_back(lab<T>((i * k) % 11)); algos<K>(v); } }); }
#elif C12_PART == 4
// index ranges: every walk over every shape
UNIT("index-range-2d") {
   for(long r = -1; r <= 4; ++r) for(long c = -1; c <= 4; ++c) {
      ctx = "IndexRange2D " + std::to_string(r) + "x" + std::to_string(c); mc::at("%s", ctx.c_str());
      const bool ok = (r > 0 && c > 0) || (r == 0 && c == 0);
      bool t = throws([&] { IndexRange2D R(r, c); (void)R; }); mc::step();
      if(t == ok) { oops("acceptance of an index range", r, c); continue; }
      if(!ok) continue;
      IndexRange2D R(r, c); const IndexRange2D R2{R};
      auto it = R.begin(), jt = R2.begin();
      for(long k = 0; k <= r * c; ++k) {
         mc::step(8); mc::state(r * 1000 + c * 100 + k);
         if((it == R.end()).val() != (k == r * c) || (it != R.end()).val() != (k != r * c) || !(it == jt).val()) oops("index range comparison", k);
         // comparison with every earlier and later position
         auto z = R.begin(); for(long q = 0; q <= r * c; ++q) { if((z == it).val() != (q == k) || (z != it).val() != (q != k)) oops("index range comparison", k, q); if(q < r * c) ++z; }
         if(k == r * c) { if(!throws([&] { (void)*it; }) || !throws([&] { auto y = it; ++y; }) || !throws([&] { auto y = it; y++; })) oops("index range beyond its end", k); break; }
         if((*it).first.val() != k / c || (*it).second.val() != k % c) oops("index range value", k);
         auto old = it++; auto& ref = ++jt; if(!(old == it).val() == false || &ref != &jt || (*old).first.val() != k / c || (*old).second.val() != k % c) oops("index range ++", k);
         auto as = R.begin(); auto& rr = (as = old); if(&rr != &as || !(as == old).val()) oops("index range assignment", k);
      }
      mc::trace();
   }
   IndexRange2D E; if(!(E.begin() == E.end()).val()) oops("default index range", 0);
   { IndexRange2D A(2, 3), B(3, 2); ctx = "IndexRange2D of different shapes"; mc::step(3); if(!throws([&] { (void)(A.begin() == B.begin()); }) || !throws([&] { (void)(A.begin() != B.begin()); }) || !throws([&] { auto x = A.begin(); x = B.begin(); })) oops("positions of different index ranges", 0); }
}
#endif
