// C15: numeric helper functions against their exact definitions.
#include "dy.hpp"
#ifndef C15_T
#define C15_T double
#endif

namespace {
template <class T> constexpr bool INT = std::is_integral_v<T>;
template <class T> constexpr bool SGN = INT<T> && std::is_signed_v<T>;
template <class T> void uniq(std::vector<T>& v) { std::vector<T> r; for(T x : v) { bool in = false; for(T y : r) in = in || (same(x, y) && (INT<T> || std::memcmp(&x, &y, sizeof(T) == 16 && std::is_same_v<T, long double> ? 10 : sizeof(T)) == 0)); if(!in) r.push_back(x); } v = r; }

// size 0: a few values; 1: representative; 2: everything
template <class T> std::vector<T> lattice(int size) {
   std::vector<T> v;
   if constexpr(INT<T>) {
      using U = std::make_unsigned_t<T>; const int w = sizeof(T) * 8;
      for(int k = 0; k < w; k += size == 2 ? 1 : size ? 9 : 31) for(int d : {-1, 0, 1}) { U u = ((U)1 << k) + (U)d; v.push_back((T)u); v.push_back((T)(U)(0 - u)); }
      for(long i = size == 2 ? -20 : -3; i <= (size == 2 ? 20 : 3); ++i) v.push_back((T)i);
      v.push_back(std::numeric_limits<T>::min()); v.push_back(std::numeric_limits<T>::max());
   } else {
      constexpr int p = FP<T>::p, emin = FP<T>::emin, emax = FP<T>::emax;
      const T eps = two<T>(1 - p), inf = two<T>(emax) * 2;
      std::vector<T> pos = {T(0), T(1), T(2), T(0.5), T(1) / T(3), 1 + eps, two<T>(emin - p + 1), two<T>(emax) * (2 - eps), inf};
      if(size) for(T x : {T(3), 1 - eps / 2, T(1) / T(10), T(7) / T(10), two<T>(p), two<T>(p) - 1, two<T>(p - 1) + 1, two<T>(emax), two<T>(emin), two<T>(emin) * (1 + eps), two<T>(emax / 2) * (1 + eps), two<T>(-emax / 2) * (2 - eps), T(1.5), T(2.5), T(123456789), T(1) / T(1e10)}) pos.push_back(x);
      if(size == 2) for(int k = -12; k <= 12; ++k) for(T x : {two<T>(k * p / 4), two<T>(k * p / 4) * (1 + eps), two<T>(k * p / 4) * (2 - eps), T(k < 0 ? -k : k) / T(10), two<T>(k * (emax / 13)) * (1 + 2 * eps), T(4) / T(3) * two<T>(k)}) pos.push_back(x);
      for(T x : pos) { v.push_back(x); v.push_back(-x); }
      v.push_back(inf - inf);
   }
   uniq(v);
   return v;
}
template <class T> bool finite_(T x) { if constexpr(INT<T>) return true; else return x - x == 0; }

using CT = C15_T;
const std::string tn = tname<CT>();
std::string arg() { return ""; }
template <class X, class... R> std::string arg(X x, R... r) { std::string s = str(x), t = arg(r...); return t.empty() ? s : s + ", " + t; }
template <class... A> void bad(const char* what, const std::string& got, const std::string& want, A... a) {
   mc::at("%s(%s), %s", what, arg(a...).c_str(), tn.c_str());
   mc::fail(tn + ":" + what, "%s(%s) is %s, expected %s", what, arg(a...).c_str(), got.c_str(), want.c_str());
}
template <class R, class... A> void eq(const char* w, R got, R want, A... a) { mc::step(); if(!same(got, want)) bad(w, str(got), str(want), a...); }
template <class... A> void rej(const char* w, bool threw, A... a) { mc::step(); if(!threw) bad(w, "accepted", "rejected", a...); }

template <class T> bool mulfits(T x, T y) { if constexpr(SGN<T>) { T r; return !__builtin_mul_overflow(x, y, &r); } else return true; }

template <class T> void unary(T x) {
   Strict<T> s{x};
   if(!isnan_(x)) { eq("signs", signs(s).val(), T((x > T(0)) - (x < T(0))), x); if(!SGN<T> || x != std::numeric_limits<T>::min()) eq("abss", abss(s).val(), T(x < T(0) ? -x : x), x); }
   if(mulfits(x, x)) { eq("squares", squares(s).val(), T(x * x), x); if(mulfits(x * x, x)) eq("cubes", cubes(s).val(), T(x * x * x), x); }
   if constexpr(!INT<T>) {
      eq("invs", invs(s).val(), T(1) / x, x);
#ifdef STRICT_QUAD_PRECISION
#define F1(N, STD, Q) { T w; if constexpr(std::is_same_v<T, float128>) w = Q(x); else w = std::STD(x); eq(#N, N(s).val(), w, x); if constexpr(!std::is_same_v<T, float128>) static_assert(std::is_same_v<decltype(std::STD(x)), T>); }
#endif
      F1(exps, exp, expq) F1(logs, log, logq) F1(log2s, log2, log2q) F1(log10s, log10, log10q) F1(sqrts, sqrt, sqrtq) F1(cbrts, cbrt, cbrtq) F1(sins, sin, sinq) F1(coss, cos, cosq) F1(tans, tan, tanq) F1(floors, floor, floorq) F1(ceils, ceil, ceilq)
      eq("isnans", isnans(s).val(), x != x, x); eq("isinfs", isinfs(s).val(), x == x && !finite_(x), x); eq("isfinites", isfinites(s).val(), finite_(x), x);
      // defining relations, independent of the elementary function library
      if(finite_(x)) {
         T f = floors(s).val(), c = ceils(s).val();
         mc::step(2);
         if(!(f <= x && Dy::of(x) - Dy::of(f) < Dy(1)) || (finite_(f) && (x < two<T>(FP<T>::p) && x > -two<T>(FP<T>::p)) && Dy::of(f).norm().e < 0)) bad("floors", str(f), "the largest integer not above", x);
         if(!(c >= x && Dy::of(c) - Dy::of(x) < Dy(1)) || ((x < two<T>(FP<T>::p) && x > -two<T>(FP<T>::p)) && Dy::of(c).norm().e < 0)) bad("ceils", str(c), "the smallest integer not below", x);
         if(x >= T(0)) {   // correctly rounded square root
            T r = sqrts(s).val(); Dy d = Dy::of(x), e = Dy::of(r); mc::step();
            if(x > T(0)) { Dy u = Dy::pow2(e.exp() - FP<T>::p); Dy lo = e - u, hi = e + u; if(!(lo * lo <= d && d <= hi * hi)) bad("sqrts", str(r), "the rounded square root", x); }
            else if(r != T(0)) bad("sqrts", str(r), "0", x);
         }
         T i = invs(s).val();
         if(x != T(0) && finite_(i) && i != T(0) && Dy::of(i).exp() >= FP<T>::emin) { mc::step(); Dy q = Dy::of(i) * Dy::of(x) - Dy(1); if(!(q.abs_() <= Dy::pow2(-FP<T>::p + 1))) bad("invs", str(i), "the rounded inverse", x); }
      }
   }
}
template <class T> void binary(T x, T y) {
   if(!isnan_(x) && !isnan_(y)) { eq("mins", mins(S(x), S(y)).val(), y < x ? y : x, x, y); eq("maxs", maxs(S(x), S(y)).val(), y > x ? y : x, x, y); }
   if constexpr(!INT<T>) {
      { T w; if constexpr(std::is_same_v<T, float128>) w = powq(x, y); else w = std::pow(x, y); eq("pows", pows(S(x), S(y)).val(), w, x, y); }
      if(!finite_(x) || !finite_(y)) return;
      const Dy X = Dy::of(x), Y = Dy::of(y);
      if(finite_(x + y) && X.exp() < FP<T>::emax - 1 && Y.exp() < FP<T>::emax - 1) {
         auto [r, s] = two_sums(S(x), S(y)); mc::step();
         if(!finite_(r.val()) || !finite_(s.val()) || r.val() != x + y || !(Dy::of(r.val()) + Dy::of(s.val()) == X + Y)) bad("two_sums", str(r.val()) + " + " + str(s.val()), "the rounded sum and its exact error", x, y);
         if(representable<T>(X + Y)) { mc::step(); if(s.val() != T(0)) bad("two_sums of an exact sum", str(s.val()), "correction zero", x, y); }
      }
      const long e = X.exp() + Y.exp();
      if(finite_(x * y) && (X.m == 0 || Y.m == 0 || (e < FP<T>::emax - 1 && representable<T>(X * Y - Dy::of(T(x * y)))))) {   // no overflow, no underflow of the correction
         auto [r, s] = two_prods(S(x), S(y)); mc::step();
         if(!finite_(r.val()) || !finite_(s.val()) || r.val() != x * y || !(Dy::of(r.val()) + Dy::of(s.val()) == X * Y)) bad("two_prods", str(r.val()) + " + " + str(s.val()), "the rounded product and its exact error", x, y);
      }
   }
}
template <class T> void ternary(T x, T y, T z) {
   const bool bad_iv = !(y <= z);
   T r{};
   const bool anynan = isnan_(x) || isnan_(y) || isnan_(z);
   bool t = throws([&] { r = clamps(S(x), S(y), S(z)).val(); }), t2 = throws([&] { T q = clamps(S(x), Low<T>{y}, High<T>{z}).val(); if(!isnan_(q) && !t && q != r) bad("clamps Low High", str(q), str(r), x, y, z); });
   if(bad_iv || anynan) { rej("clamps", t, x, y, z); rej("clamps Low High", t2, x, y, z); }
   else { if(t || t2) bad("clamps", "rejected", "accepted", x, y, z); else eq("clamps", r, x < y ? y : z < x ? z : x, x, y, z); }
   bool o = 0, c = 0, o2 = 0, c2 = 0;
   bool to = throws([&] { o = in_open(S(x), S(y), S(z)).val(); }), tc = throws([&] { c = in_closed(S(x), S(y), S(z)).val(); });
   bool to2 = throws([&] { o2 = in_open(Value<T>{x}, Low<T>{y}, High<T>{z}).val(); }), tc2 = throws([&] { c2 = in_closed(Value<T>{x}, Low<T>{y}, High<T>{z}).val(); });
   if(bad_iv) { rej("in_open", to, x, y, z); rej("in_closed", tc, x, y, z); rej("in_open tagged", to2, x, y, z); rej("in_closed tagged", tc2, x, y, z); }
   else {
      mc::step(4); if(to || tc || to2 || tc2) bad("in_open/in_closed", "rejected", "accepted", x, y, z);
      eq("in_open", o, y < x && x < z, x, y, z); eq("in_closed", c, y <= x && x <= z, x, y, z); eq("in_open tagged", o2, y < x && x < z, x, y, z); eq("in_closed tagged", c2, y <= x && x <= z, x, y, z);
   }
   if constexpr(!INT<T>) {
      T w; if constexpr(std::is_same_v<T, float128>) w = fmaq(x, y, z); else w = std::fma(x, y, z);
      eq("fmas", fmas(S(x), S(y), S(z)).val(), w, x, y, z);
      if(finite_(x) && finite_(y) && finite_(z) && finite_(w)) { Dy d = Dy::of(x) * Dy::of(y) + Dy::of(z); if(d.m == 0 || (d.exp() >= FP<T>::emin && d.exp() < FP<T>::emax)) { mc::step(); T n = nearest<T>(d); if(w != n) bad("fmas", str(w), str(n) + " (one rounding)", x, y, z); } }
   }
}
template <class T> void fun_one() { auto v = lattice<T>(2); for(T x : v) { mc::at("functions of %s %s", tn.c_str(), str(x).c_str()); unary(x); mc::state(hv(x)); mc::trace(); } if constexpr(!INT<T>) for(int i = -400; i <= 400; ++i) { unary(T(i) / T(8)); unary(T(i) / T(10)); } }
UNIT("functions of one value") { fun_one<CT>(); }
template <class T> void fun_two() { auto v = lattice<T>(2); if constexpr(!INT<T>) for(int k : {1, 2, 3}) for(T b : {T(1), T(3), T(1) / T(3)}) { v.push_back(b * two<T>(FP<T>::p - k) + 1); v.push_back(-b * two<T>(k - FP<T>::p)); } for(T x : v) { mc::at("functions of %s %s and every value", tn.c_str(), str(x).c_str()); for(T y : v) { binary(x, y); mc::state(mc::mix(hv(x), hv(y))); } mc::trace(); } }
UNIT("functions of two values") { fun_two<CT>(); }
template <class T> void fun_three() { auto v = lattice<T>(mc::thorough ? 1 : 0); for(T x : v) for(T y : v) { mc::at("functions of %s %s, %s and every value", tn.c_str(), str(x).c_str(), str(y).c_str()); for(T z : v) { ternary(x, y, z); mc::state(mc::mix(mc::mix(hv(x), hv(y)), hv(z))); } mc::trace(); } }
UNIT("functions of three values") { fun_three<CT>(); }

// ---- integer powers
template <class T_> void ipow() {
   if constexpr(INT<T_>) {
      std::vector<T_> bases; for(long i = -12; i <= 12; ++i) if(SGN<T_> || i >= 0) bases.push_back(i);
      for(T_ b : lattice<T_>(1)) bases.push_back(b);
      std::vector<T_> pw; for(long p = 0; p <= 70; ++p) pw.push_back(p);
      for(T_ p : {T_(1000), std::numeric_limits<T_>::max(), T_(std::numeric_limits<T_>::max() - 1), T_(std::numeric_limits<T_>::max() / 2 + 1)}) pw.push_back(p);
      for(T_ b : bases) {
         mc::at("integer powers of %s", str(b).c_str());
         for(T_ p : pw) {
            if constexpr(SGN<T_>) {
               T_ r = 1; bool fits = true;
               if(p > T_(100) && b != 0 && b != 1 && b != -1) continue;
               if(p > T_(100)) r = b == 0 ? 0 : b == 1 ? 1 : (p & 1) ? -1 : 1;
               else for(T_ i = 0; i < p; ++i) fits = fits && !__builtin_mul_overflow(r, b, &r);
               if(fits) eq("pows", pows(S(b), S(p)).val(), r, b, p);
            } else {   // arithmetic modulo 2^w
               T_ r = 1, x = b; for(T_ q = p; q; q >>= 1, x *= x) if(q & 1) r *= x;
               if(p <= 70) { T_ r2 = 1; for(T_ i = 0; i < p; ++i) r2 *= b; r = r2; }
               eq("pows", pows(S(b), S(p)).val(), r, b, p);
            }
            mc::state(mc::mix(hv(b), hv(p)));
         }
         if constexpr(SGN<T_>) for(T_ p : {T_(-1), T_(-2), T_(std::numeric_limits<T_>::min())}) rej("pows with a negative power", throws([&] { (void)pows(S(b), S(p)); }), b, p);
         mc::trace();
      }
   } else {
      constexpr int p = FP<T_>::p;
      std::vector<T_> bases = lattice<T_>(1);
      for(int i = -30; i <= 30; ++i) { bases.push_back(T_(i) / 10); bases.push_back(T_(i) / 8); }
      std::vector<long> pw; for(long k = 0; k <= 40; ++k) { pw.push_back(k); if(k) pw.push_back(-k); }
      for(long k : {63L, 64L, 65L, 100L, 127L, 128L, 1000L, 1023L}) { pw.push_back(k); pw.push_back(-k); }
      for(T_ b : bases) {
         mc::at("integer powers of %s", str(b).c_str());
         for(long k : pw) {
            T_ w; if constexpr(std::is_same_v<T_, float128>) w = powq(b, T_(k)); else w = std::pow(b, T_(k));
            eq("pows_int", pows_int(S(b), k).val(), w, b, k);
            T_ f = fast_pows_int(S(b), k).val(), f2 = fast_pows_int(S(b), (int)k).val(); mc::step(2);
            if(!same(f, f2)) bad("fast_pows_int", str(f2), str(f), b, k);
            const long a = k < 0 ? -k : k;
            if(isnan_(b) || !finite_(b) || b == T_(0)) { if(!(isnan_(b) && k != 0) && !same(f, w)) bad("fast_pows_int", str(f), str(w), b, k); continue; }
            const Dy B = Dy::of(b); 
            if((std::abs(B.exp()) + 1) * a > FP<T_>::emax - 2 || (b != b + 0) ) { // may over- or underflow: at least no wrong sign and no NaN
               if(isnan_(f) || (f != 0 && (f < 0) != (b < 0 && (a & 1)))) bad("fast_pows_int", str(f), str(w), b, k);
               if(finite_(w) && w != T_(0) && k > 0 && !(w > T_(0) ? (f > w * (T_)0.9 && f < w * (T_)1.1) : (f < w * (T_)0.9 && f > w * (T_)1.1)) && w > two<T_>(FP<T_>::emin + 8)) bad("fast_pows_int", str(f), str(w), b, k);
               continue;
            }
            if(a > 130) { T_ d = f - w; if(d < 0) d = -d; T_ m = w < 0 ? -w : w; if(!(d <= m * two<T_>(12 - p))) bad("fast_pows_int", str(f), str(w), b, k); continue; }
            const Dy E = B.pow(a);
            if(k >= 0 && representable<T_>(E)) { if(!(Dy::of(f) == E)) bad("fast_pows_int", str(f), "the exactly representable power", b, k); }
            else if(k >= 0) { if(!((Dy::of(f) - E).abs_() <= E.abs_() * Dy(2 * a + 2) * Dy::pow2(-p))) bad("fast_pows_int", str(f), str(w) + " within rounding", b, k); }
            else if(representable<T_>(E)) { T_ e = 1; for(long i = 0; i < a; ++i) e *= b; if(!same(f, T_(1) / e)) bad("fast_pows_int", str(f), str(T_(1) / e) + ", the reciprocal of the exactly representable power", b, k); }
            else if(!((Dy::of(f) * E - Dy(1)).abs_() <= Dy(2 * a + 4) * Dy::pow2(-p))) bad("fast_pows_int", str(f), str(w) + " within rounding", b, k);
            mc::state(mc::mix(hv(b), k));
         }
         for(long k : {std::numeric_limits<long>::max(), -std::numeric_limits<long>::max()}) if(b == T_(1) || b == T_(-1) || b == T_(2) || b == T_(0.5)) { T_ f = fast_pows_int(S(b), k).val(); T_ z = 0; eq("fast_pows_int", f, b == T_(1) ? T_(1) : b == T_(-1) ? T_(-1) : (b == T_(2)) == (k > 0) ? T_(1) / z : z, b, k); }
         // power with correction: about twice the working precision
         if(finite_(b)) for(long k = 0; k <= (mc::thorough ? 150 : 40); ++k) {
            const Dy B = Dy::of(b);
            if(b != T_(0) && (std::abs(B.exp()) + 1) * k > FP<T_>::emax - 2 - 2 * p - 10) continue;
            auto [r, s] = pow_prods(S(b), k); mc::step();
            const Dy E = k == 0 ? Dy(1) : B.pow(k);
            if(!finite_(r.val()) || !finite_(s.val()) || !((Dy::of(r.val()) + Dy::of(s.val()) - E).abs_() <= E.abs_() * Dy(4 * k * k) * Dy::pow2(-2 * p))) bad("pow_prods", str(r.val()) + " + " + str(s.val()), "the power to twice the working precision", b, k);
            if(!((Dy::of(r.val()) - E).abs_() <= E.abs_() * Dy(2 * k) * Dy::pow2(-p))) bad("pow_prods", str(r.val()), "the rounded power", b, k);
         }
         for(long k : {-1L, -2L, std::numeric_limits<long>::min()}) rej("pow_prods with a negative power", throws([&] { (void)pow_prods(S(b), k); }), b, k);
         mc::trace();
      }
      for(long k = -200; k <= 200; ++k) { T_ w; if constexpr(std::is_same_v<T_, float128>) w = expq(T_(k)); else w = std::exp(T_(k)); eq("exps_int", exps_int<T_>(k).val(), w, T_(k)); }
   }
}
UNIT("integer powers") { ipow<CT>(); }

#ifdef C15_COMB
UNIT("factorials and binomial coefficients") {
   long f = 1;
   auto ck = [&](const char* n, long a, long b, bool t, long got, bool rejw, long want) {
      mc::step(); mc::at("%s(%ld, %ld)", n, a, b);
      if(t != rejw || (!t && got != want)) mc::fail(n, "%s(%ld, %ld) is %s, expected %s", n, a, b, t ? "rejected" : str(got).c_str(), rejw ? "rejected" : str(want).c_str());
      mc::state(mc::mix(a, b)); mc::trace();
   };
   auto fac = [&](long n, bool r, long w) { long g = 0; bool t = throws([&] { g = factorial(n).val(); }); ck("factorial", n, 0, t, g, r, w); if(n >= -2147483647 && n <= 2147483647) { t = throws([&] { g = factorial(Strict<int>{(int)n}).val(); }); ck("factorial", n, 1, t, g, r, w); } };
   for(long n = 0; n <= 20; ++n) { if(n) f *= n; fac(n, false, f); }
   for(long n : {-1L, -2L, -20L, -2147483648L, std::numeric_limits<long>::min()}) fac(n, true, 0);
   auto bin = [&](long n, long k, bool r, long w) { long g = 0; bool t = throws([&] { g = binom_coeff(n, k).val(); }); ck("binom_coeff", n, k, t, g, r, w); };
   std::vector<__int128> row{1};
   for(long n = 0; n <= 200; ++n) {
      for(long k = 0; k <= n; ++k) if(row[k] <= std::numeric_limits<long>::max()) bin(n, k, false, (long)row[k]);
      for(long k : {-1L, -2L, n + 1, n + 2, std::numeric_limits<long>::max(), std::numeric_limits<long>::min()}) bin(n, k, true, 0);
      std::vector<__int128> nx(n + 2, 1); for(long k = 1; k <= n; ++k) { nx[k] = row[k - 1] + row[k]; if(nx[k] > ((__int128)1 << 100)) nx[k] = (__int128)1 << 100; } row = nx;
   }
   for(long n : {-1L, -5L}) for(long k = -7; k <= 3; ++k) bin(n, k, true, 0);
   for(long n : {1000L, 65536L, 2642246L, 3000000L, 2147483647L, 2147483648L, 3037000500L, 4294967295L, 4294967296L, std::numeric_limits<long>::max()}) for(long k = 0; k <= 4; ++k) {
      __int128 w = 1; bool fits = true; for(long i = 1; i <= k && fits; ++i) { w = w * (n - k + i) / i; fits = w <= std::numeric_limits<long>::max(); }
      if(fits) { bin(n, k, false, (long)w); if(n <= 70000) bin(n, n - k, false, (long)w); }
   }
}
#endif
}  // namespace
