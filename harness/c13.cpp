// C13: strict scalars against the built-in type, for all pairs over a boundary lattice of every type.
#include "lib.hpp"
#ifndef C13_TYPES
#define C13_TYPES int
#endif

namespace {
template <class T> constexpr bool INT = std::is_integral_v<T> && !std::is_same_v<T, bool>;
template <class T> constexpr bool SGN = INT<T> && std::is_signed_v<T>;
template <class T> constexpr bool BO = std::is_same_v<T, bool>;
template <class T> constexpr bool FLO = !std::is_integral_v<T>;
template <class T> constexpr bool QUAD = FLO<T> && !std::is_floating_point_v<T> || sizeof(T) == 16 && !std::is_same_v<T, long double>;

template <class T> bool neg(T x) { if constexpr(std::is_same_v<T, float128>) return signbitq(x); else return std::signbit(x); }
template <class T> bool bsame(T a, T b) {
   if constexpr(FLO<T>) { if(a != a || b != b) return a != a && b != b; return a == b && neg(a) == neg(b); }
   else return a == b;
}
template <class T> void uniq(std::vector<T>& v) {
   std::vector<T> r;
   for(T x : v) { bool in = false; for(T y : r) in = in || bsame(T(x), T(y)); if(!in) r.push_back(x); }
   v = r;
}
template <class T> T two(int k) { T r = 1; for(; k > 0; --k) r *= 2; for(; k < 0; ++k) r /= 2; return r; }
template <class T> std::vector<T> lattice(bool full) {
   std::vector<T> v;
   if constexpr(BO<T>) v = {false, true};
   else if constexpr(INT<T>) {
      using U = std::make_unsigned_t<T>;
      const int w = sizeof(T) * 8;
      for(long i = full ? -33 : -3; i <= (full ? 33 : 3); ++i) v.push_back((T)i);
      for(int k = 0; k < w; k += full || k < 4 || k > w - 4 ? 1 : 5) for(int d : {-1, 0, 1}) { U u = ((U)1 << k) + (U)d; v.push_back((T)u); v.push_back((T)(U)(0 - u)); }
      v.push_back(std::numeric_limits<T>::min()); v.push_back(std::numeric_limits<T>::max());
      for(T d : {T(7), T(10), T(100), T(12345)}) { v.push_back(d); v.push_back(std::numeric_limits<T>::max() / d); v.push_back(std::numeric_limits<T>::min() / d); }
   } else {
      int emin, emax, p;
      if constexpr(std::is_same_v<T, float128>) { emin = -16382; emax = 16383; p = 113; }
      else { emin = std::numeric_limits<T>::min_exponent - 1; emax = std::numeric_limits<T>::max_exponent - 1; p = std::numeric_limits<T>::digits; }
      const T eps = two<T>(1 - p), inf = two<T>(emax) * 2;
      std::vector<T> pos = {T(0), two<T>(emin - p + 1), two<T>(emin) - two<T>(emin - p + 1), two<T>(emin), two<T>(emin) * (1 + eps), T(1), 1 + eps, 1 - eps / 2, T(0.5), T(2), T(3), T(1) / T(3), T(1) / T(10), T(7) / T(10),
         two<T>(p), two<T>(p) + 2, two<T>(p) - 1, two<T>(p - 1) + T(1), two<T>(emax), two<T>(emax) * (2 - eps), inf, two<T>(emax / 2) * (1 + eps), two<T>(-emax / 2), T(1.5), T(2.5), T(1e10), T(1) / T(1e10), T(123456789)};
      for(int k = -12; k <= 12; ++k) if(full) { pos.push_back(two<T>(k * p / 4)); pos.push_back(two<T>(k * p / 4) * (1 + eps)); pos.push_back(T(k < 0 ? -k : k) / T(10)); pos.push_back(two<T>(31 + k / 4) + T(k) / 8); pos.push_back(two<T>(63 + k / 4)); }
      for(T x : pos) { v.push_back(x); v.push_back(-x); }
      v.push_back(inf - inf);
   }
   uniq(v);
   return v;
}

std::string tn;
template <class T> void bad(const char* what, T x, T y, const std::string& got, const std::string& want) {
   mc::at("%s: %s of %s and %s", tn.c_str(), what, str(x).c_str(), str(y).c_str());
   mc::fail(tn + ":" + what, "%s of %s and %s is %s, the built-in type gives %s", what, str(x).c_str(), str(y).c_str(), got.c_str(), want.c_str());
}
template <class T> void eq(const char* w, T x, T y, T got, T want) { mc::step(); if(!bsame(got, want)) bad(w, x, y, str(got), str(want)); }
template <class T> void eqb(const char* w, T x, T y, bool got, bool want) { mc::step(); if(got != want) bad(w, x, y, got ? "true" : "false", want ? "true" : "false"); }

// Operations whose built-in result is defined.
template <class T> bool ok(char op, T x, T y) {
   if constexpr(SGN<T>) {
      T r;
      switch(op) {
         case '+': return !__builtin_add_overflow(x, y, &r);
         case '-': return !__builtin_sub_overflow(x, y, &r);
         case '*': return !__builtin_mul_overflow(x, y, &r);
         case '/': case '%': return y != 0 && !(x == std::numeric_limits<T>::min() && y == -1);
      }
   }
   if constexpr(INT<T>) {
      if(op == '/' || op == '%') return y != 0;
      if(op == '<' || op == '>') return x >= 0 && y >= 0 && (unsigned long)y < sizeof(T) * 8;
   }
   return true;
}
// Reported instead of executed.
template <class T> bool err(char op, T x, T y) {
   if constexpr(INT<T>) {
      if(op == '/' || op == '%') return y == 0;
      if(op == '<' || op == '>') return SGN<T> && (x < 0 || y < 0);
   }
   return false;
}
#define BIN(OP, CH) { \
   if(err<T>(CH, x, y)) { \
      mc::step(2); \
      if(!throws([&] { (void)(Strict<T>{x} OP Strict<T>{y}); })) bad(#OP, x, y, "executed", "an error"); \
      Strict<T> a{x}; if(!throws([&] { a OP##= Strict<T>{y}; })) bad(#OP "=", x, y, "executed", "an error"); \
      if(!bsame(a.val(), x)) bad(#OP "= (operand after the error)", x, y, str(a.val()), str(x)); \
   } else if(ok<T>(CH, x, y)) { \
      T want = (T)(x OP y); \
      const Strict<T> cx{x}, cy{y}; \
      eq(#OP, x, y, (cx OP cy).val(), want); \
      Strict<T> a{x}; auto& r = (a OP##= cy); eq(#OP "=", x, y, a.val(), want); \
      mc::step(); if(&r != &a) bad(#OP "=", x, y, "another object", "a reference to the left operand"); \
      if(bsame(x, y)) { Strict<T> b{x}; b OP##= b; eq(#OP "= itself", x, y, b.val(), want); } \
   } }
template <class T> void pair_ops(T x, T y) {
   const Strict<T> a{x}, b{y};
   eqb("==", x, y, (a == b).val(), x == y); eqb("!=", x, y, (a != b).val(), x != y); eqb("<", x, y, (a < b).val(), x < y);
   eqb("<=", x, y, (a <= b).val(), x <= y); eqb(">", x, y, (a > b).val(), x > y); eqb(">=", x, y, (a >= b).val(), x >= y);
   eqb("equal", x, y, spp::equal(a, b).val(), x == y);
   { Strict<T> c{x}; c = b; eq("=", x, y, c.val(), y); Strict<T> d{c}; eq("copy", x, y, d.val(), y); }
   if constexpr(BO<T>) {
      eqb("&&", x, y, (a && b).val(), x && y); eqb("||", x, y, (a || b).val(), x || y); eqb("^", x, y, (a ^ b).val(), x ^ y);
   } else {
      BIN(+, '+') BIN(-, '-') BIN(*, '*') BIN(/, '/')
      if constexpr(INT<T>) { BIN(%, '%') BIN(<<, '<') BIN(>>, '>') BIN(&, '&') BIN(|, '|') BIN(^, '^') }
      if(ok<T>('+', x, y)) { Strict<T> c{x}; T m = x; bool in = ok<T>('*', T(x + y), y); if(in) { (c += b) *= b; m += y; m *= y; eq("(+=) *=", x, y, c.val(), m); } }
   }
}
template <class T> void one_ops(T x) {
   const Strict<T> a{x};
   eq("val", x, x, a.val(), x);
   eq("explicit conversion", x, x, static_cast<T>(a), x); eq("brace conversion", x, x, T{a}, x);
   eq("conversion of copy", x, x, T(Strict<T>(a)), x);
   if constexpr(BO<T>) { eqb("!", x, x, (!a).val(), !x); bool im = a; eqb("implicit", x, x, im, x); }
   else {
      eq("unary +", x, x, (+a).val(), x);
      if constexpr(SGN<T> || FLO<T>) if(!SGN<T> || x != std::numeric_limits<T>::min()) eq("unary -", x, x, (-a).val(), (T)-x);
      if constexpr(INT<T>) eq("~", x, x, (~a).val(), (T)~x);
      bool up = true, dn = true;
      if constexpr(SGN<T>) { up = x != std::numeric_limits<T>::max(); dn = x != std::numeric_limits<T>::min(); }
      if(up) {
         T m = x; ++m; Strict<T> p{x}, q{x};
         auto& r = ++p; eq("++x", x, x, p.val(), m); mc::step(); if(&r != &p) bad("++x", x, x, "another object", "a reference to the operand");
         eq("x++ (result)", x, x, (q++).val(), x); eq("x++", x, x, q.val(), m);
      }
      if(dn) {
         T m = x; --m; Strict<T> p{x}, q{x};
         auto& r = --p; eq("--x", x, x, p.val(), m); mc::step(); if(&r != &p) bad("--x", x, x, "another object", "a reference to the operand");
         eq("x-- (result)", x, x, (q--).val(), x); eq("x--", x, x, q.val(), m);
      }
   }
}
// Explicit conversions whose built-in result is defined.
template <class D, class U> bool convertible(U x) {
   if constexpr(FLO<U> && INT<D>) {
      float128 q = x;
      return q > float128(std::numeric_limits<D>::min()) - 1 && q < float128(std::numeric_limits<D>::max()) + 1;
   } else return true;
}
template <class D, class U> void conv(const char* member, U x, Strict<D> (*mem)(Strict<U>)) {
   if(!convertible<D>(x)) return;
   D want = static_cast<D>(x);
   auto ck = [&](const char* how, D got) { mc::step(); if(!bsame(got, want)) { std::string w = std::string(how) + "<" + tname<D>() + ">"; bad(w.c_str(), x, x, str(got), str(want)); } };
   ck(member, mem(Strict<U>{x}).val());
   ck("builtin_cast", builtin_cast<D>(x)); ck("builtin_cast of strict", builtin_cast<D>(Strict<U>{x}));
   ck("strict_cast", strict_cast<D>(x).val()); ck("strict_cast of strict", strict_cast<D>(Strict<U>{x}).val());
   if constexpr(!BO<D> && !BO<U>) { ck("real_cast", real_cast<D>(x)); ck("real_cast of strict", real_cast<D>(Strict<U>{x})); }
   if constexpr(FLO<D> && INT<U>) { ck("whole", whole<D>(x).val()); ck("whole of strict", whole<D>(Strict<U>{x}).val()); }
   if constexpr(std::is_same_v<D, long>) { ck("to_index_t", to_index_t(x).val()); ck("to_index_t of strict", to_index_t(Strict<U>{x}).val()); }
   if constexpr(std::is_same_v<D, unsigned long>) { ck("to_size_t", to_size_t(x)); ck("to_size_t of strict", to_size_t(Strict<U>{x})); }
}
template <class T> void convs(T x) {
   using X = Strict<T>;
   conv<bool, T>("sb", x, [](X a) { return a.sb(); }); conv<int, T>("si", x, [](X a) { return a.si(); }); conv<long, T>("sl", x, [](X a) { return a.sl(); });
   conv<unsigned, T>("sui", x, [](X a) { return a.sui(); }); conv<unsigned long, T>("sul", x, [](X a) { return a.sul(); });
   conv<float, T>("sf", x, [](X a) { return a.sf(); }); conv<double, T>("sd", x, [](X a) { return a.sd(); }); conv<long double, T>("sld", x, [](X a) { return a.sld(); });
   conv<float128, T>("sq", x, [](X a) { return a.sq(); });
}
template <class T> void constants() {
   eq("default", T(), T(), Strict<T>{}.val(), T(0)); eq("Zero", T(), T(), Zero<T>.val(), T(0)); eq("One", T(), T(), One<T>.val(), T(1));
   mc::step(2);
   if(sizeof(Strict<T>) != sizeof(T) || alignof(Strict<T>) != alignof(T)) mc::fail(tn + ":layout", "Strict differs in size or alignment from the built-in type");
   if(!std::is_trivially_copyable_v<Strict<T>>) mc::fail(tn + ":layout2", "Strict is not trivially copyable");
   if constexpr(!BO<T>) {
      if constexpr(!INT<T> || SGN<T>) eq("NegOne", T(), T(), NegOne<T>.val(), T(-1));
      eq("Thousand", T(), T(), Thousand<T>.val(), T(1000)); eq("Million", T(), T(), Million<T>.val(), T(1000000)); eq("Billion", T(), T(), Billion<T>.val(), T(1000000000));
   }
}
// Programs: every sequence of statements of a small language over two variables.
template <class T> struct Prog {
   static constexpr int N = INT<T> ? 18 : 12;
   static bool run(int op, T& a, T& b) {      // the built-in program; false: the next statement would not be defined
      T k = 3;
      switch(op) {
         case 0: if(!ok<T>('+', a, b)) return false; a += b; break;
         case 1: if(!ok<T>('-', b, a)) return false; b -= a; break;
         case 2: if(!ok<T>('*', a, b)) return false; a *= b; break;
         case 3: if(!ok<T>('/', b, a)) return false; b /= a; break;
         case 4: if(!ok<T>('+', a, T(1))) return false; b = a++; break;
         case 5: if(!ok<T>('-', b, T(1))) return false; a = --b; break;
         case 6: if(!ok<T>('-', b, T(1)) || !ok<T>('*', a, b)) return false; a = a * b--; break;
         case 7: a = b; break;
         case 8: if(!ok<T>('+', a, k)) return false; a = k + a; break;
         case 9: if(!ok<T>('*', b, b)) return false; b *= b; break;
         case 10: { T t = a; a = b; b = t; break; }
         case 11: a = a < b ? b : a; break;
         default: if constexpr(INT<T>) switch(op) {
            case 12: if(!ok<T>('%', a, b)) return false; a %= b; break;
            case 13: if(!ok<T>('<', a, T(3))) return false; a <<= k; break;
            case 14: if(!ok<T>('>', b, T(3))) return false; b >>= k; break;
            case 15: a ^= b; break;
            case 16: b = ~a & b; break;
            case 17: a |= b; break;
         }
      }
      return true;
   }
   static void run(int op, Strict<T>& a, Strict<T>& b) {
      Strict<T> k{T(3)};
      switch(op) {
         case 0: a += b; break;
         case 1: b -= a; break;
         case 2: a *= b; break;
         case 3: b /= a; break;
         case 4: b = a++; break;
         case 5: a = --b; break;
         case 6: { Strict<T> t = b--; a = a * t; break; }
         case 7: a = b; break;
         case 8: a = k + a; break;
         case 9: b *= b; break;
         case 10: std::swap(a, b); break;
         case 11: a = a < b ? b : a; break;
         default: if constexpr(INT<T>) switch(op) {
            case 12: a %= b; break;
            case 13: a <<= k; break;
            case 14: b >>= k; break;
            case 15: a ^= b; break;
            case 16: b = ~a & b; break;
            case 17: a |= b; break;
         }
      }
   }
};
template <class T> void programs(T a, T b, Strict<T> x, Strict<T> y, int depth, std::string how) {
   for(int op = 0; op < Prog<T>::N; ++op) {
      T a1 = a, b1 = b; Strict<T> x1 = x, y1 = y;
      if(!Prog<T>::run(op, a1, b1)) continue;
      std::string h = how + "," + std::to_string(op);
      mc::at("%s: program %s", tn.c_str(), h.c_str());
      Prog<T>::run(op, x1, y1); mc::step();
      mc::state(mc::mix(hv(a1), hv(b1)));
      if(!bsame(x1.val(), a1) || !bsame(y1.val(), b1)) { mc::fail(tn + ":program", "after statements %s the variables are %s, %s instead of %s, %s", h.c_str(), str(x1.val()).c_str(), str(y1.val()).c_str(), str(a1).c_str(), str(b1).c_str()); continue; }
      mc::trace();
      if(depth > 1) programs(a1, b1, x1, y1, depth - 1, h);
   }
}
template <class T> void all_of_type(int what) {
   tn = tname<T>();
   const bool full = mc::thorough || BO<T>;
   auto v = lattice<T>(true), s = lattice<T>(false);
   if(what == 0) {
      constants<T>();
      for(T x : v) { one_ops(x); convs(x); mc::state(mc::mix(hv(x), 3)); mc::at("%s: unary operations and conversions of %s", tn.c_str(), str(x).c_str()); mc::trace(); }
   } else if(what == 1) {
      for(T x : v) { for(T y : full || FLO<T> ? v : s) { pair_ops(x, y); mc::state(mc::mix(hv(x), hv(y))); if(!full && !FLO<T>) pair_ops(y, x); } mc::at("%s: binary operations of %s and every value", tn.c_str(), str(x).c_str()); mc::trace(); }
      if constexpr(INT<T>) for(long i = SGN<T> ? -70 : 0; i <= 70; ++i) for(long j = SGN<T> ? -70 : 0; j <= 70; ++j) pair_ops<T>(i, j);
   } else if constexpr(!BO<T>) {
      std::vector<T> st = {T(0), T(1), T(7), std::numeric_limits<T>::max()};
      if constexpr(SGN<T>) { st.push_back(-5); st.push_back(std::numeric_limits<T>::min()); }
      if constexpr(FLO<T>) { st.push_back(T(-1) / T(3)); st.push_back(T(1e-30)); }
      for(T a : st) for(T b : st) programs<T>(a, b, Strict<T>{a}, Strict<T>{b}, mc::thorough ? 4 : 3, "a=" + str(a) + ",b=" + str(b) + ":");
   } else { for(int i = 0; i < 4; ++i) pair_ops<bool>(i & 1, i & 2); mc::trace(); mc::state(1); }
}
template <class... Ts> void reg() {
   (mc::units().push_back({std::string("scalars ") + tname<Ts>() + ": unary operations and conversions", [] { all_of_type<Ts>(0); }}), ...);
   (mc::units().push_back({std::string("scalars ") + tname<Ts>() + ": binary operations", [] { all_of_type<Ts>(1); }}), ...);
   (mc::units().push_back({std::string("scalars ") + tname<Ts>() + ": programs", [] { all_of_type<Ts>(2); }}), ...);
}
struct R { R() { reg<C13_TYPES>(); } } r_;

#ifdef C13_WRAP
// ---- tagged values
template <class Wr, class T> void wrap(const char* n, T x, bool nonneg) {
   mc::step(2);
   mc::at("%s of %s %s", n, tname<T>(), str(x).c_str());
   bool want = nonneg && x < 0;
   for(int strict = 0; strict < 2; ++strict) {
      bool ok = true; long got = 0;
      bool t = throws([&] { Wr w = strict ? Wr{Strict<T>{x}} : Wr{x}; got = w.get().val(); });
      ok = want ? t : (!t && got == (long)x);
      if(!ok) mc::fail(std::string(n) + ":" + tname<T>(), "%s{%s} %s", n, str(x).c_str(), want ? "is accepted" : (t ? "is rejected" : ("holds " + str(got)).c_str()));
   }
   mc::state(mc::mix(hv(x), want)); mc::trace();
}
template <template <class> class Wr, class T> void wrapT(const char* n, T x) {
   mc::step(2); mc::at("%s of %s", n, str(x).c_str());
   if(!bsame(Wr<T>{x}.get().val(), x) || !bsame(Wr<T>{Strict<T>{x}}.get().val(), x)) mc::fail(std::string(n) + ":" + tname<T>(), "%s{%s} holds another value", n, str(x).c_str());
   mc::trace();
}
UNIT("tagged integer values") {
   auto each = [&]<class T>(T x) {
      wrap<First>("First", x, true); wrap<Endmost>("Endmost", x, true); wrap<Size>("Size", x, true); wrap<Count>("Count", x, true); wrap<Pos>("Pos", x, true); wrap<Stride>("Stride", x, false); wrap<Index>("Index", x, true);
      wrap<Rows>("Rows", x, true); wrap<Cols>("Cols", x, true); wrap<ImplicitInt>("ImplicitInt", x, false); wrap<ImplicitNonNegInt>("ImplicitNonNegInt", x, true); wrap<ImplicitIntStatic>("ImplicitIntStatic", x, false);
   };
   for(int x : lattice<int>(true)) each(x);
   for(long x : lattice<long>(true)) each(x);
   for(unsigned x : lattice<unsigned>(true)) { mc::step(2); if(Seed{x}.get().val() != x || Seed{Strict<unsigned>{x}}.get().val() != x) mc::fail("Seed", "Seed{%u} holds another value", x); }
   for(bool x : {false, true}) { mc::step(2); if(ImplicitBool{x}.get().val() != x || ImplicitBool{StrictBool{x}}.get().val() != x) mc::fail("ImplicitBool", "ImplicitBool holds another value"); }
   for(long i = -40; i <= 40; ++i) for(long j = -40; j <= 40; ++j) {
      mc::step(8); mc::at("index arithmetic of %ld and %ld", i, j);
      if((ImplicitInt{i} + ImplicitInt{j}).get().val() != i + j || (ImplicitInt{i} - ImplicitInt{j}).get().val() != i - j) mc::fail("ImplicitInt:arithmetic", "sum or difference is wrong");
      if((ImplicitIntStatic{i} + ImplicitIntStatic{j}).get().val() != i + j || (ImplicitIntStatic{i} - ImplicitIntStatic{j}).get().val() != i - j) mc::fail("ImplicitIntStatic:arithmetic", "sum or difference is wrong");
      if((Last{i} + ImplicitInt{j}).get().val() != i - j || (ImplicitInt{j} + Last{i}).get().val() != i - j || (Last{i} - ImplicitInt{j}).get().val() != i + j || ImplicitInt{ImplicitIntStatic{i}}.get().val() != i) mc::fail("Last:arithmetic", "sum or difference is wrong");
   }
}
template <class T> void wrapsT() { for(T x : lattice<T>(false)) { wrapT<Low, T>("Low", x); wrapT<High, T>("High", x); wrapT<Start, T>("Start", x); wrapT<End, T>("End", x); wrapT<Incr, T>("Incr", x); wrapT<Value, T>("Value", x); mc::state(hv(x)); } }
UNIT("tagged values of every type") { wrapsT<bool>(); wrapsT<int>(); wrapsT<long>(); wrapsT<unsigned>(); wrapsT<unsigned long>(); wrapsT<float>(); wrapsT<double>(); wrapsT<long double>(); wrapsT<float128>(); }
using ULONG = unsigned long; using LDOUBLE = long double;
UNIT("literals") {
   auto ck = [](const char* n, auto got, auto want) { static_assert(std::is_same_v<decltype(got), Strict<decltype(want)>>); mc::step(); mc::at("literal %s", n); if(!bsame(got.val(), want)) mc::fail(std::string("literal:") + n, "the literal %s is %s", n, str(got.val()).c_str()); mc::trace(); mc::state(hv(want)); };
#define LI(SUF, T_) ck("0" #SUF, 0##SUF, T_(0)); ck("1" #SUF, 1##SUF, T_(1)); ck("77" #SUF, 77##SUF, T_(77)); ck("2147483647" #SUF, 2147483647##SUF, T_(2147483647)); ck("0x10" #SUF, 0x10##SUF, T_(16)); ck("1'000" #SUF, 1'000##SUF, T_(1000));
   LI(_si, int) LI(_sl, long) LI(_sui, unsigned) LI(_sul, ULONG) LI(_SI, int) LI(_SL, long) LI(_SUI, unsigned) LI(_SUL, ULONG)
   ck("9223372036854775807_sl", 9223372036854775807_sl, 9223372036854775807L); ck("4294967295_sui", 4294967295_sui, 4294967295u); ck("18446744073709551615_sul", 18446744073709551615_sul, 18446744073709551615ul);
#define LF(SUF, T_) ck("0.0" #SUF, 0.0##SUF, T_(0)); ck("0.1" #SUF, 0.1##SUF, (T_)0.1L); ck("1.5" #SUF, 1.5##SUF, T_(1.5)); ck("1e10" #SUF, 1e10##SUF, T_(1e10)); ck("1e-30" #SUF, 1e-30##SUF, (T_)1e-30L); ck("3.14159265358979323846264338327950288" #SUF, 3.14159265358979323846264338327950288##SUF, (T_)3.14159265358979323846264338327950288L);
   LF(_sf, float) LF(_sd, double) LF(_sl, LDOUBLE) LF(_SF, float) LF(_SD, double) LF(_SL, LDOUBLE)
#define LQ(SUF) ck("0" #SUF, 0##SUF, float128(0)); ck("0.1" #SUF, 0.1##SUF, strtoflt128("0.1", nullptr)); ck("1.5" #SUF, 1.5##SUF, float128(1.5)); ck("17" #SUF, 17##SUF, float128(17)); ck("1e-4000" #SUF, 1e-4000##SUF, strtoflt128("1e-4000", nullptr)); ck("3.14159265358979323846264338327950288" #SUF, 3.14159265358979323846264338327950288##SUF, M_PIq); \
   mc::step(2); if(!throws([] { (void)012##SUF; })) mc::fail("literal:octal", "an octal quad literal is accepted"); if(!throws([] { (void)0b1##SUF; })) mc::fail("literal:binary", "a binary quad literal is accepted");
   LQ(_sq) LQ(_SQ)
}
template <class T> void cons(T eps, T pi, T e, T s2) {
   auto ck = [&](const char* n, T g, T w) { mc::step(); mc::at("constant %s<%s>", n, tname<T>()); if(!bsame(g, w)) mc::fail(std::string("constant:") + n + tname<T>(), "%s is %s", n, str(g).c_str()); mc::state(hv(w)); mc::trace(); };
   ck("epsilon", constants::epsilon<T>.val(), eps); ck("pi", constants::pi<T>.val(), pi); ck("e", constants::e<T>.val(), e); ck("sqrt2", constants::sqrt2<T>.val(), s2);
}
UNIT("mathematical constants") {
   cons<float>(0x1p-23f, (float)M_PIq, (float)M_Eq, (float)M_SQRT2q); cons<double>(0x1p-52, (double)M_PIq, (double)M_Eq, (double)M_SQRT2q); cons<long double>(0x1p-63L, (long double)M_PIq, (long double)M_Eq, (long double)M_SQRT2q); cons<float128>(FLT128_EPSILON, M_PIq, M_Eq, M_SQRT2q);
}
#endif
}  // namespace
