// C14: which programs are accepted.  The space explored is a set of programs: every operator and call
// form x every ordered pair of scalar types x operand kinds.  Each program is given to the compiler
// (the type system of the real headers); a reference predicate over (form, types, kinds) says whether
// it must be accepted or rejected.
#include "prog.hpp"

const char* kinds_text = R"(
#define STRICT_QUAD_PRECISION
#define STRICT_ERROR_EXCEPTIONS
#define STRICT_REMOVE_NODISCARD
#include <strictpp/strict.hpp>
#include <utility>
using namespace spp; using namespace spp::place;
namespace k {
template <class T> T& lv();
template <class T> using S = Strict<T>;      template <class T> using K = const Strict<T>;      template <class T> using R = T;
template <class T> using A1 = Array1D<T>;    template <class T> using C1 = const Array1D<T>;    template <class T> using F1 = FixedArray1D<T, 3>;
template <class T> using D1 = Array1D<T, Aligned>;
template <class T> using L1 = decltype(lv<A1<T>>()(even));      template <class T> using M1 = decltype(lv<C1<T>>()(even));
template <class T> using G1 = decltype(lv<A1<T>>()(std::vector<ImplicitInt>{}));
template <class T> using A2 = Array2D<T>;    template <class T> using C2 = const Array2D<T>;    template <class T> using F2 = FixedArray2D<T, 2, 2>;
template <class T> using R1 = decltype(lv<A2<T>>().row(0));
template <class T> using E1 = decltype(array_cast<T>(lv<Array1D<int>>()));
template <class T> using H1 = decltype(const1D(3, Strict<T>{}));
template <class T> using L2 = decltype(lv<A2<T>>()(even, odd));  template <class T> using M2 = decltype(lv<C2<T>>()(even, odd));
template <class T> using G2 = decltype(lv<A2<T>>()(std::vector<ImplicitInt>{}, std::vector<ImplicitInt>{}));
template <class T> using E2 = decltype(array_cast<T>(lv<Array2D<int>>()));
template <class T> using H2 = decltype(transpose(lv<A2<T>>()));
template <class T> void take(T); 
template <class E> int use(E&& e) { if constexpr(BaseType<std::remove_cvref_t<E>>) (void)e.eval(); return 0; }
}
)";

struct Ty { const char* n; bool integer, uns, flt, boolean; };
static const Ty TY[] = {{"bool", 0, 0, 0, 1}, {"int", 1, 0, 0, 0}, {"long", 1, 0, 0, 0}, {"unsigned", 1, 1, 0, 0}, {"unsigned long", 1, 1, 0, 0},
                        {"float", 0, 0, 1, 0}, {"double", 0, 0, 1, 0}, {"long double", 0, 0, 1, 0}, {"float128", 0, 0, 1, 0}};
static const int NT = 9;
struct Kd { const char* n; int rank; bool mut; bool quick; };   // rank -1: built-in value, 0: strict scalar
static const Kd KD[] = {{"R", -1, true, true}, {"S", 0, true, true}, {"K", 0, false, false},
                        {"A1", 1, true, true}, {"C1", 1, false, false}, {"F1", 1, true, false}, {"D1", 1, true, false}, {"L1", 1, true, true}, {"M1", 1, false, false}, {"G1", 1, true, false}, {"R1", 1, true, false}, {"E1", 1, false, true}, {"H1", 1, false, false},
                        {"A2", 2, true, true}, {"C2", 2, false, false}, {"F2", 2, true, false}, {"L2", 2, true, false}, {"M2", 2, false, false}, {"G2", 2, true, false}, {"E2", 2, false, true}, {"H2", 2, false, false}};
static const int NK = sizeof KD / sizeof KD[0];

static string rep(string s, std::initializer_list<std::pair<const char*, string>> r) {
   for(auto& [a, b] : r) for(std::size_t p; (p = s.find(a)) != string::npos;) s.replace(p, std::strlen(a), b);
   return s;
}
static void add(const string& form, const string& name, const string& code, bool ok) {
   progs.push_back({form + " " + name, code, ok, form});
   if(progs.size() >= 4000) flush_all();
}
static string par(const Kd& k, const Ty& t, const char* v) { return string("k::") + k.n + "<" + t.n + ">& " + v; }

enum Need { ANY, REAL, INT, BOOL, INTBOOL, FLT, SIGNED, NEG, SINT };
static bool has(Need n, const Ty& t) {
   switch(n) {
      case ANY: return true; case REAL: return !t.boolean; case INT: return t.integer; case BOOL: return t.boolean;
      case INTBOOL: return t.integer || t.boolean; case FLT: return t.flt; case SIGNED: case SINT: return t.integer && !t.uns; case NEG: return t.flt || (t.integer && !t.uns);
   }
   return false;
}
static bool use_kind(const Kd& k) { return k.quick || mc::thorough; }

struct Bin { const char* op; Need scalar, array; };
static const Bin BIN[] = {{"+", REAL, REAL}, {"-", REAL, REAL}, {"*", REAL, REAL}, {"/", REAL, REAL}, {"%", INT, INT}, {"<<", INT, INT}, {">>", INT, INT},
                          {"&", INT, INT}, {"|", INT, INT}, {"^", INTBOOL, INTBOOL}, {"&&", BOOL, BOOL}, {"||", BOOL, BOOL},
                          {"==", ANY, ANY}, {"!=", ANY, ANY}, {"<", ANY, ANY}, {"<=", ANY, ANY}, {">", ANY, ANY}, {">=", ANY, ANY}};
static void binary(int lo, int hi) {
   for(int o = lo; o < hi; ++o) {
      const Bin& b = BIN[o];
      const bool cmp = o >= 12, arr_cmp = o < 14;
      for(const Kd& x : KD) for(const Kd& y : KD) {
         if(!use_kind(x) || !use_kind(y) || (x.rank < 0 && y.rank < 0)) continue;
         for(const Ty& t : TY) for(const Ty& u : TY) {
            bool same = &t == &u, ok;
            if(x.rank < 0 || y.rank < 0) {
               // A strict boolean converts to the built-in bool by design (conditions); what the language makes
               // of "bool op bool" after that is not the library's.
               if((x.rank == 0 && t.boolean) || (y.rank == 0 && u.boolean)) continue;
               ok = false;
            } else if(x.rank == 0 && y.rank == 0) ok = same && has(b.scalar, t);
            else if(cmp) ok = arr_cmp && same && x.rank == y.rank;
            else ok = same && has(b.array, t) && (x.rank == y.rank || x.rank == 0 || y.rank == 0);
            add(string("binary ") + b.op + (x.rank <= 0 && y.rank <= 0 ? "" : arr_cmp || !cmp ? " array" : " order"), string(x.n) + "<" + t.n + ">," + y.n + "<" + u.n + ">",
                "(" + par(x, t, "x") + ", " + par(y, u, "y") + ") { return x " + b.op + " y; }", ok);
         }
      }
   }
}
UNIT("operators.arith1") { unit_tag = "u1_"; binary(0, 2); close_forms(); }
UNIT("operators.arith2") { unit_tag = "u2_"; binary(2, 4); close_forms(); }
UNIT("operators.int1") { unit_tag = "u3_"; binary(4, 6); close_forms(); }
UNIT("operators.int2") { unit_tag = "u4_"; binary(6, 8); close_forms(); }
UNIT("operators.int3") { unit_tag = "u5_"; binary(8, 10); close_forms(); }
UNIT("operators.bool") { unit_tag = "u6_"; binary(10, 12); close_forms(); }
UNIT("operators.equal") { unit_tag = "u7_"; binary(12, 14); close_forms(); }
UNIT("operators.order") { unit_tag = "u8_"; for(int o = 14; o < 18; ++o) binary(o, o + 1); 
   flush_all(); for(auto it = forms.begin(); it != forms.end();) { if(it->first.find(" order") != string::npos) it = forms.erase(it); else ++it; } close_forms(); }

static const Bin CMP[] = {{"+=", REAL, REAL}, {"-=", REAL, REAL}, {"*=", REAL, REAL}, {"/=", REAL, REAL}, {"%=", INT, INT}, {"<<=", INT, INT}, {">>=", INT, INT}, {"&=", INT, INT}, {"|=", INT, INT}, {"^=", INT, INT}};
static void compound(int lo, int hi) {
   for(int o = lo; o < hi; ++o) {
      const Bin& b = CMP[o];
      for(const Kd& x : KD) for(const Kd& y : KD) {
         if(!use_kind(x) || !use_kind(y) || x.rank < 0) continue;
         for(const Ty& t : TY) for(const Ty& u : TY) {
            bool same = &t == &u, ok = same && y.rank >= 0 && has(b.scalar, t) && x.mut && (x.rank == y.rank || y.rank == 0);
            add(string("compound ") + b.op + (x.rank == 0 ? "" : " array"), string(x.n) + "<" + t.n + ">," + y.n + "<" + u.n + ">",
                "(" + par(x, t, "x") + ", " + par(y, u, "y") + ") -> void { x " + b.op + " y; }", ok);
         }
      }
   }
}
UNIT("compound.arith1") { unit_tag = "v1_"; compound(0, 2); close_forms(); }
UNIT("compound.arith2") { unit_tag = "v2_"; compound(2, 4); close_forms(); }
UNIT("compound.int1") { unit_tag = "v3_"; compound(4, 7); close_forms(); }
UNIT("compound.int2") { unit_tag = "v4_"; compound(7, 10); close_forms(); }

// One strict or built-in operand y of type u and a target type t.
static void construct(int part) {
   struct F { const char* n; const char* code; bool strict_ok, raw_ok; };
   const F fs[] = {{"direct", "{ Strict<%t> z(y); return z; }", 1, 1}, {"brace", "{ Strict<%t> z{y}; return z; }", 1, 1}, {"copy", "{ Strict<%t> z = y; return z; }", 1, 0}, {"copy-brace", "{ Strict<%t> z = {y}; return z; }", 1, 0},
      {"assign", "{ Strict<%t> z{}; z = y; return z; }", 1, 0}, {"assign-brace", "{ Strict<%t> z{}; z = {y}; return z; }", 1, 0}, {"argument", "{ k::take<Strict<%t>>(y); return 0; }", 1, 0}, {"return", "-> Strict<%t> { return y; }", 1, 0},
      {"cast", "{ return static_cast<Strict<%t>>(y); }", 1, 1}, {"functional", "{ return Strict<%t>(y); }", 1, 1}, {"array element", "{ Array1D<%t> a(2); a[0] = y; return 0; }", 1, 0}, {"array element direct", "{ FixedArray2D<%t, 2, 2> a; a(1, 1) = y; return 0; }", 1, 0},
      {"conditional", "{ Strict<%t> z{}; return true ? z : y; }", 1, 0}, {"vector", "{ std::vector<Strict<%t>> v; v.push_back(y); return v; }", 1, 0},
      {"pair", "{ std::pair<Strict<%t>, int> v = {y, 1}; return v; }", 1, 0}, {"list", "{ Array1D<%t> a{y, y}; return a; }", 1, 0}, {"list copy", "{ Array1D<%t> a = {y, y, y}; return a; }", 1, 0}, {"list 2D", "{ Array2D<%t> a{{y, y}, {y, y}}; return a; }", 1, 0},
      {"list assign", "{ Array1D<%t> a(2); a = {y, y}; return a; }", 1, 0}, {"list fixed", "{ FixedArray1D<%t, 2> a{y, y}; return a; }", 1, 0}, {"array fill", "{ Array1D<%t> a(2); a = y; return a; }", 1, 0}, {"array fill 2D", "{ Array2D<%t> a(2, 2); a = y; return a; }", 1, 0},
      {"slice fill", "{ Array1D<%t> a(2); a(even) = y; return a; }", 1, 0}, {"row fill", "{ Array2D<%t> a(2, 2); a.row(0) = y; return a; }", 1, 0}, {"sized fill", "{ Array1D<%t> a(3, y); return a; }", 1, 0}, {"value fill", "{ Array1D<%t> a(Size{3}, Value<%t>{y}); return a; }", 1, 1},
      {"value fill 2D", "{ Array2D<%t> a(Rows{3}, Cols{3}, Value<%t>{y}); return a; }", 1, 1}, {"value fill deduced", "{ Array1D<%t> a(Size{3}, Value{y}); return a; }", 1, 1}, {"value fill 2D deduced", "{ Array2D<%t> a(Rows{3}, Cols{3}, Value{y}); return a; }", 1, 1},
      {"insert", "{ Array1D<%t> a(3); a.insert(1, y); return a; }", 1, 0}, {"insert front", "{ Array1D<%t> a(3); a.insert_front(y); return a; }", 1, 0}, {"insert back", "{ Array1D<%t> a(3); a.insert_back(y); return a; }", 1, 0},
      {"insert value", "{ Array1D<%t> a(3); a.insert(Pos{1}, Value{y}); return a; }", 1, 1}, {"insert front value", "{ Array1D<%t> a(3); a.insert_front(Value{y}); return a; }", 1, 1}, {"insert back value", "{ Array1D<%t> a(3); a.insert_back(Value{y}); return a; }", 1, 1},
      {"any_of", "{ Array1D<%t> a(3); return any_of(a, y); }", 1, 0}, {"all_of", "{ Array2D<%t> a(3, 3); return all_of(a, y); }", 1, 0}, {"none_of", "{ Array1D<%t> a(3); return none_of(a, y); }", 1, 0},
      {"const1D", "{ return const1D<%t>(3, y); }", 1, 0}, {"const2D", "{ return const2D<%t>(3, 3, y); }", 1, 0}, {"const1D value", "{ return const1D<%t>(Size{3}, Value{y}); }", 1, 1}, {"const2D value", "{ return const2D<%t>(Rows{3}, Cols{3}, Value{y}); }", 1, 1},
      {"merge", "{ Array1D<%t> a(3); auto m = merge(a, y); return m.eval(); }", 1, 0}, {"merge front", "{ Array1D<%t> a(3); auto m = merge(y, a); return m.eval(); }", 1, 0}, {"merge many", "{ Array1D<%t> a(3); Strict<%t> z{}; auto m = merge(z, y, a); return m.eval(); }", 1, 0}, {"merge many back", "{ Array1D<%t> a(3); Strict<%t> z{}; auto m = merge(a, z, y); return m.eval(); }", 1, 0}};
   for(const F& f : fs) for(const Ty& t : TY) for(const Ty& u : TY) for(const Kd* y : {&KD[0], &KD[1], &KD[2]}) {
      const bool same = &t == &u, mrg = string(f.n).find("merge") == 0;
      // Errors in merges are not attributed to the program's line either.
      if(part == 0 ? mrg : (!mrg || (part == 1) != (string(f.n).find("many") != string::npos))) continue;
      if(mrg && y->n[0] == 'K' && !mc::thorough) continue;
      bool ok = same && (y->rank == 0 ? f.strict_ok : f.raw_ok);
      if(string(f.n) == "conditional" && y->rank < 0 && (t.boolean || same)) continue;   // bool: design; same type: explicit operator T decides in the language, not in the library
      if(string(f.n) == "conditional" && y->rank == 0 && !same && (t.boolean || u.boolean)) continue;
      add(string("construct ") + f.n, string("Strict<") + t.n + "> from " + y->n + "<" + u.n + ">", "(" + par(*y, u, "y") + ") " + rep(f.code, {{"%t", t.n}}), ok);
   }
   close_forms();
}
UNIT("scalar.construct") { unit_tag = "w_"; construct(0); }
UNIT("scalar.merge") { unit_tag = "wa_"; construct(1); }
UNIT("scalar.merge.two") { unit_tag = "wb_"; construct(2); }
// A strict operand x of type t and a built-in target type u: implicit conversions never, explicit ones only to its own type.
UNIT("scalar.convert") {
   unit_tag = "c_";
   struct F { const char* n; const char* code; bool expl; };
   const F fs[] = {{"init", "{ %u z = x; return z; }", 0}, {"assign", "{ %u z{}; z = x; return z; }", 0}, {"argument", "{ k::take<%u>(x); return 0; }", 0}, {"return", "-> %u { return x; }", 0}, {"brace", "{ %u z = {x}; return z; }", 0},
      {"static_cast", "{ return static_cast<%u>(x); }", 1}, {"direct", "{ %u z(x); return z; }", 1}, {"vector", "{ std::vector<%u> v; v.push_back(x); return v.size(); }", 0}};
   for(const F& f : fs) for(const Ty& t : TY) for(const Ty& u : TY) for(const Kd* x : {&KD[1], &KD[2]}) {
      const bool same = &t == &u;
      bool ok = same && (f.expl || t.boolean);    // a strict boolean converts to bool, by design, and to nothing else
      add(string("convert ") + f.n, string(x->n) + "<" + t.n + "> to " + u.n, "(" + par(*x, t, "x") + ") " + rep(f.code, {{"%u", u.n}}), ok);
   }
   struct G { const char* n; const char* code; Need need; };
   const G gs[] = {{"if", "{ if(x) return 1; return 0; }", BOOL}, {"while", "{ while(x) {} return 0; }", BOOL}, {"ternary", "{ return x ? 1 : 0; }", BOOL}, {"not", "{ return !x; }", BOOL}, {"minus", "{ return -x; }", NEG}, {"plus", "{ return +x; }", REAL}, {"complement", "{ return ~x; }", INT},
      {"++x", "{ ++x; return 0; }", REAL}, {"x++", "{ return x++; }", REAL}, {"--x", "{ --x; return 0; }", REAL}, {"x--", "{ return x--; }", REAL}, {"val", "{ return x.val(); }", ANY}, {"sb", "{ return x.sb(); }", ANY}, {"si", "{ return x.si(); }", ANY}, {"sl", "{ return x.sl(); }", ANY},
      {"sui", "{ return x.sui(); }", ANY}, {"sul", "{ return x.sul(); }", ANY}, {"sf", "{ return x.sf(); }", ANY}, {"sd", "{ return x.sd(); }", ANY}, {"sld", "{ return x.sld(); }", ANY}, {"sq", "{ return x.sq(); }", ANY},
      {"to_size_t", "{ return to_size_t(x); }", ANY}, {"to_index_t", "{ return to_index_t(x); }", ANY}};
   for(const G& f : gs) for(const Ty& t : TY) add(string("scalar ") + f.n, string("S<") + t.n + ">", "(" + par(KD[1], t, "x") + ") " + f.code, has(f.need, t));
   for(const Ty& t : TY) for(const Ty& u : TY) for(const char* f : {"strict_cast", "builtin_cast"}) for(const Kd* x : {&KD[0], &KD[1], &KD[2]})
      add(string("cast ") + f, string(x->n) + "<" + t.n + "> to " + u.n, "(" + par(*x, t, "x") + ") { return " + f + "<" + u.n + ">(x); }", true);
   close_forms();
}
// Named scalar functions of one, two and three arguments.
UNIT("scalar.functions") {
   unit_tag = "f_";
   struct F { const char* n; Need need; };
   const F f1[] = {{"signs", REAL}, {"abss", REAL}, {"invs", FLT}, {"exps", FLT}, {"logs", FLT}, {"log2s", FLT}, {"log10s", FLT}, {"sqrts", FLT}, {"cbrts", FLT}, {"sins", FLT}, {"coss", FLT}, {"tans", FLT}, {"floors", FLT}, {"ceils", FLT}, {"isinfs", FLT}, {"isnans", FLT}, {"isfinites", FLT}, {"squares", REAL}, {"cubes", REAL}};
   for(const F& f : f1) for(const Ty& t : TY) for(const Kd* x : {&KD[0], &KD[1]})
      add(string("function ") + f.n, string(x->n) + "<" + t.n + ">", "(" + par(*x, t, "x") + ") { return " + f.n + "(x); }", x->rank == 0 && has(f.need, t));
   const F f2[] = {{"mins", REAL}, {"maxs", REAL}, {"pows", NEG}, {"two_sums", FLT}, {"two_prods", FLT}, {"within_tol_abs", FLT}, {"within_tol_rel", FLT}, {"abs_error", FLT}, {"rel_error", FLT}, {"rands", REAL}, {"rands_not0", REAL}};
   for(const F& f : f2) for(const Ty& t : TY) for(const Ty& u : TY) for(const Kd* x : {&KD[0], &KD[1]}) for(const Kd* y : {&KD[0], &KD[1]}) {
      if(x->rank < 0 && y->rank < 0) continue;
      bool ok = &t == &u && x->rank == 0 && y->rank == 0 && (string(f.n) == "pows" ? (t.flt || (t.integer)) : has(f.need, t));
      add(string("function ") + f.n, string(x->n) + "<" + t.n + ">," + y->n + "<" + u.n + ">", "(" + par(*x, t, "x") + ", " + par(*y, u, "y") + ") { return " + f.n + "(x, y); }", ok);
   }
   const F f3[] = {{"clamps", REAL}, {"in_open", REAL}, {"in_closed", REAL}, {"fmas", FLT}};
   for(const F& f : f3) for(const Ty& t : TY) for(const Ty& u : TY) for(int pos = 0; pos < 3; ++pos) for(const Kd* y : {&KD[0], &KD[1]}) {
      bool ok = &t == &u && y->rank == 0 && has(f.need, t);
      const char* args[] = {"(y, x, x)", "(x, y, x)", "(x, x, y)"};
      add(string("function ") + f.n, string("S<") + t.n + ">, " + y->n + "<" + u.n + "> at " + std::to_string(pos), "(" + par(KD[1], t, "x") + ", " + par(*y, u, "y") + ") { return " + f.n + args[pos] + "; }", ok);
   }
   const F fl[] = {{"clamps(x, Low{x}, High{y})", REAL}, {"clamps(x, Low{y}, High{x})", REAL}, {"clamps(y, Low{x}, High{x})", REAL}, {"in_open(Value{x}, Low{x}, High{y})", REAL}, {"in_open(Value{y}, Low{x}, High{x})", REAL}, {"in_closed(Value{x}, Low{y}, High{x})", REAL},
      {"rands(Low{x}, High{y})", REAL}, {"rands_not0(Low{y}, High{x})", REAL}, {"semi_rands(Low{x}, High{y})", REAL}, {"sequence(Size{3}, Start{x}, Incr{y})", REAL}, {"linspace(Size{3}, Start{x}, End{y})", FLT}, {"sequence(3, x, y)", REAL}, {"linspace(3, y, x)", FLT},
      {"random(3, x, y)", REAL}, {"random(3, 3, x, y)", REAL}, {"random_not0(3, y, x)", REAL}, {"random(Size{3}, Low{x}, High{y})", REAL}, {"random_not0(Rows{3}, Cols{2}, Low{x}, High{y})", REAL}};
   for(const F& f : fl) for(const Ty& t : TY) for(const Ty& u : TY)
      add(string("call ") + f.n, string("S<") + t.n + ">,S<" + u.n + ">", "(" + par(KD[1], t, "x") + ", " + par(KD[1], u, "y") + ") { (void)" + f.n + "; return 0; }", &t == &u && has(f.need, t));
   close_forms();
}
// Sizes, indices, exponents, seeds and flags: signed integers of either width (strict or built-in) only;
// seeds only unsigned, flags only bool.
UNIT("scalar.indices") {
   unit_tag = "i_";
   const char* idx[] = {"a[y]", "a.un(y)", "a.at(y)", "b(y, 0)", "b(0, y)", "b.row(y)", "b.col(y)", "b.at(y, 1)", "Array1D<double>(y)", "Array2D<double>(y, 3)", "Array2D<double>(3, y)", "Size{y}", "Rows{y}", "Cols{y}", "Pos{y}", "Count{y}", "Index{y}", "First{y}", "Endmost{y}", "Stride{y}", "last - y", "y + last", "Last{y}",
      "a.resize(y)", "b.resize(y, 3)", "b.resize(3, y)", "a.remove(y)", "a.remove(1, y)", "a.insert(y, s)", "a.remove_front(y)", "a.remove_back(y)", "seq(y, 2)", "seq(0, y)", "seq(0, 2, y)", "seqN(y, 2)", "seqN(0, y)", "seqN(0, 2, y)", "a(seq(0, y))", "pows_int(s, y)", "fast_pows_int(s, y)", "exps_int<double>(y)", "pow_prods(s, y)",
      "factorial(y)", "binom_coeff(y, 1)", "binom_coeff(5, y)", "pow_int(a, y)", "fast_pow_int(a, y)", "norm_lp(a, y)", "exclude(a, y)", "exclude(a, 1, y)", "irange(y)", "identity<double>(y)", "e_unit<double>(y, 4)", "e_unit<double>(0, y)", "const1D(y, s)", "const2D(y, 2, s)", "sequence<double>(y)", "linspace(y, s, s)", "a.view2D(y, 2)", "a.view2D(2, y)"};
   for(const char* f : idx) for(const Ty& t : TY) for(const Kd* y : {&KD[0], &KD[1], &KD[2]}) {
      bool ok = t.integer && !t.uns;
      add(string("index ") + f, string(y->n) + "<" + t.n + ">", "(" + par(*y, t, "y") + ", Array1D<double>& a, Array2D<double>& b, Strict<double>& s) { (void)(" + f + "); return 0; }", ok);
   }
   for(const char* f : {"Seed{y}", "semi_rands(Low{s}, High{s}, Seed{y})"}) for(const Ty& t : TY) for(const Kd* y : {&KD[0], &KD[1]})
      add(string("seed ") + f, string(y->n) + "<" + t.n + ">", "(" + par(*y, t, "y") + ", Strict<double>& s) { (void)(" + f + "); return 0; }", string(t.n) == "unsigned");
   for(const char* f : {"a.resize(3, y)", "b.resize(2, 2, y)", "any_of(a, [](auto e) { return e == Zero<double>; }, y)", "all_neg(a, y)"}) for(const Ty& t : TY) for(const Kd* y : {&KD[1]})
      add(string("flag ") + f, string(y->n) + "<" + t.n + ">", "(" + par(*y, t, "y") + ", Array1D<double>& a, Array2D<double>& b) { (void)(" + f + "); return 0; }", t.boolean);
   close_forms();
}
// Array construction and assignment from every kind of every type and rank.
static void arrays(int part, int form_lo = 0, int form_hi = 99, int kind = 0) {
   struct F { const char* n; const char* code; int rank; };
   const F fs[] = {{"own1", "{ Array1D<%t> z(y); return z; }", 1}, {"own1 copy", "{ Array1D<%t> z = y; return z; }", 1}, {"fixed1", "{ FixedArray1D<%t, 3> z(y); return z; }", 1}, {"own2", "{ Array2D<%t> z(y); return z; }", 2}, {"fixed2", "{ FixedArray2D<%t, 2, 2> z(y); return z; }", 2},
      {"argument1", "{ k::take<const Array1D<%t>&>(y); return 0; }", 1}, {"argument2", "{ k::take<const Array2D<%t>&>(y); return 0; }", 2}, {"resize_and_assign1", "{ Array1D<%t> z; z.resize_and_assign(y); return z; }", 1}, {"resize_and_assign2", "{ Array2D<%t> z; z.resize_and_assign(y); return z; }", 2},
      {"insert array", "{ Array1D<%t> z; z.insert(0, y); return z; }", 1}, {"insert_front array", "{ Array1D<%t> z; z.insert_front(y); return z; }", 1}, {"insert_back array", "{ Array1D<%t> z; z.insert_back(Array1D<%t>{}); z.insert_back(y); return z; }", 1}, {"insert_row", "{ Array2D<%t> z; z.insert_row(0, y); return z; }", 1}, {"insert_col", "{ Array2D<%t> z; z.insert_col(0, y); return z; }", 1},
      {"iterators", "{ Array1D<%t> z(y.begin(), y.end()); return z; }", 1}};
   if(part <= 1) {
      for(const F& f : fs) for(const Kd& y : KD) {
         if(&f - fs < form_lo || &f - fs >= form_hi) continue;
         if(y.rank < 1 || !(y.quick || mc::thorough || y.n[0] == 'F' || y.n[0] == 'L')) continue;
         // Errors inside an inherited constructor are not attributed to the program's line, so that each of these
         // programs has to be compiled on its own: fewer kinds in the quick tier.
         const bool inh = (string(f.n) == "own1" || string(f.n) == "own2" || string(f.n) == "own1 copy" || string(f.n).find("argument") == 0 || string(f.n).find("fixed") == 0 || string(f.n) == "iterators");
         if(inh != (part == 0) || (inh && kind != 0 && (kind == 1) != (y.n[0] == 'A'))) continue;
         if(inh && !mc::thorough && y.rank == f.rank && (y.n[0] != 'A' && !(y.n[0] == 'E' && string(f.n).find("own") == 0 && string(f.n).size() == 4))) continue;
         for(const Ty& t : TY) for(const Ty& u : TY) {
            if(string(f.n) == "iterators" && y.rank != 1) continue;
            add(string("array construct ") + f.n, string("<") + t.n + "> from " + y.n + "<" + u.n + ">", "(" + par(y, u, "y") + ") " + rep(f.code, {{"%t", t.n}}), &t == &u && y.rank == f.rank);
         }
      }
   } else {
      for(const Kd& x : KD) for(const Kd& y : KD) {
         if(x.rank < 1 || !(x.quick || mc::thorough || x.n[0] == 'F' || x.n[0] == 'G' || x.n[0] == 'R') || !use_kind(y) || y.rank == 0) continue;
         for(const Ty& t : TY) for(const Ty& u : TY)
            add("array assign", string(x.n) + "<" + t.n + "> = " + y.n + "<" + u.n + ">", "(" + par(x, t, "x") + ", " + par(y, u, "y") + ") -> void { x = y; }", &t == &u && x.rank == y.rank && x.mut);
      }
   }
   close_forms();
}
UNIT("array.construct.own1.array") { unit_tag = "aa_"; arrays(0, 0, 1, 1); }
UNIT("array.construct.own1.other") { unit_tag = "ab_"; arrays(0, 0, 1, 2); }
UNIT("array.construct.copy") { unit_tag = "ac_"; arrays(0, 1, 2); }
UNIT("array.construct.own2.array") { unit_tag = "ad_"; arrays(0, 3, 4, 1); }
UNIT("array.construct.own2.other") { unit_tag = "ae_"; arrays(0, 3, 4, 2); }
UNIT("array.construct.argument1") { unit_tag = "af_"; arrays(0, 5, 6); }
UNIT("array.construct.argument2") { unit_tag = "ag_"; arrays(0, 6, 7); }
UNIT("array.construct.fixed1") { unit_tag = "ah_"; arrays(0, 2, 3); }
UNIT("array.construct.fixed2") { unit_tag = "ai_"; arrays(0, 4, 5); }
UNIT("array.construct.iterators") { unit_tag = "aj_"; arrays(0, 14, 15); }
UNIT("array.construct") { unit_tag = "a_"; arrays(1); }
UNIT("array.assign") { unit_tag = "b_"; arrays(2); }
// Functions of one and two arrays.
static void array_functions(int part, int lo = 0, int hi = 99) {
   struct F { const char* n; Need need; int rank; };
   if(part == 0) {
      const F fs[] = {{"+x", REAL, 0}, {"-x", NEG, 0}, {"~x", INT, 0}, {"!x", BOOL, 0}, {"abs(x)", REAL, 0}, {"exp(x)", FLT, 0}, {"log(x)", FLT, 0}, {"log2(x)", FLT, 0}, {"log10(x)", FLT, 0}, {"sqrt(x)", FLT, 0}, {"cbrt(x)", FLT, 0}, {"sin(x)", FLT, 0}, {"cos(x)", FLT, 0}, {"tan(x)", FLT, 0}, {"inv(x)", FLT, 0}, {"pow_int(x, 2)", FLT, 0}, {"fast_pow_int(x, 2)", FLT, 0},
         {"sum(x)", REAL, 0}, {"prod(x)", REAL, 0}, {"min(x)", REAL, 0}, {"max(x)", REAL, 0}, {"mean(x)", FLT, 0}, {"min_index(x)", REAL, 0}, {"max_index(x)", REAL, 0}, {"norm_inf(x)", FLT, 0}, {"norm1(x)", FLT, 0}, {"norm2(x)", FLT, 0}, {"norm1_scaled(x)", FLT, 0}, {"norm2_scaled(x)", FLT, 0}, {"norm_lp(x, 3)", FLT, 0}, {"norm_lp_scaled(x, 3)", FLT, 0},
         {"has_zero(x)", REAL, 0}, {"all_zeros(x)", REAL, 0}, {"all_neg(x)", REAL, 0}, {"all_pos(x)", REAL, 0}, {"all_non_neg(x)", REAL, 0}, {"all_non_pos(x)", REAL, 0}, {"has_nan(x)", FLT, 0}, {"has_inf(x)", FLT, 0}, {"all_finite(x)", FLT, 0}, {"blas_array(x)", REAL, 0},
         {"stable_sum(x)", FLT, 0}, {"stable_mean(x)", FLT, 0}, {"stable_prod(x)", FLT, 0}, {"stable_norm2(x)", FLT, 0}, {"array_cast<double>(x)", ANY, 0}, {"array_cast<bool>(x)", ANY, 0}, {"array_cast<long>(x)", ANY, 0}, {"x.view1D()", ANY, 2}, {"transpose(x)", ANY, 2}};
      for(const F& f : fs) for(const Kd& x : KD) {
         if(x.rank < 1 || !(use_kind(x) || x.n[0] == 'L') || (f.rank && f.rank != x.rank)) continue;
         if(string(f.n) == "x.view1D()" && x.n[0] != 'A' && x.n[0] != 'L') continue;
         for(const Ty& t : TY) add(string("array function ") + f.n, string(x.n) + "<" + t.n + ">", "(" + par(x, t, "x") + ") { return k::use(" + f.n + "); }", has(f.need, t));
      }
      const F fm[] = {{"sort_increasing(x)", REAL, 0}, {"sort_decreasing(x)", REAL, 0}, {"sort(x, [](auto a, auto b) { return a < b; })", REAL, 0}, {"shuffle(x)", ANY, 0}, {"spp::random(x)", ANY, 0}, {"spp::random_not0(x)", REAL, 0}, {"semi_random(x)", ANY, 0}};
      for(const F& f : fm) for(const Kd& x : KD) {
         if(x.rank < 1 || !(use_kind(x) || x.n[0] == 'L')) continue;
         for(const Ty& t : TY) add(string("array procedure ") + f.n, string(x.n) + "<" + t.n + ">", "(" + par(x, t, "x") + ") -> void { " + f.n + "; }", has(f.need, t) && x.mut);
      }
      close_forms();
      return;
   }
   // two operands of ranks (r1, r2)
   struct G { const char* n; int r1, r2; Need need; };
   const G gs[] = {{"dot_prod(x, y)", 1, 1, REAL}, {"dot_prod(x, y)", 2, 2, REAL}, {"stable_dot_prod(x, y)", 1, 1, FLT}, {"merge(x, y)", 1, 1, ANY}, {"merge(x, x, y)", 1, 1, ANY}, {"merge_horizontal(x, y)", 2, 2, ANY}, {"merge_vertical(x, y)", 2, 2, ANY}, {"merge_vertical(y, x, x)", 2, 2, ANY}, {"matvec_prod(x, y)", 2, 1, REAL}, {"tensor_prod(x, y)", 1, 1, REAL}, {"two_prod(x, y)", 1, 1, FLT}, {"two_prod(x, y)", 2, 2, FLT},
      {"max_abs_error(x, y)", 1, 1, FLT}, {"max_abs_error(x, y)", 2, 2, FLT}, {"max_rel_error(x, y)", 2, 2, FLT}, {"max_rel_error(x, y)", 1, 1, FLT}, {"within_tol_abs(x, y)", 1, 1, FLT}, {"within_tol_abs(x, y)", 2, 2, FLT}, {"within_tol_rel(x, y)", 1, 1, FLT}, {"pow(x, y)", 1, 0, FLT}, {"x.swap(y)", 1, 1, ANY}, {"in_closed_range(x, y, y)", 1, 0, REAL}, {"in_open_range(x, y, y)", 1, 0, REAL}, {"polynomial(x, y)", 1, 0, REAL},
      {"sum(x, y)", 1, 0, REAL}, {"prod(x, y)", 1, 0, REAL}, {"max(x, y)", 2, 0, REAL}, {"min(x, y)", 1, 0, REAL}, {"norm2(x, y)", 1, 0, FLT}, {"mean(x, y)", 1, 0, FLT}, {"spp::random(x, y, y)", 1, 0, REAL}, {"spp::random(x, x, y, y)", 1, 0, REAL}, {"spp::random(x, Low{y}, High{y})", 2, 0, REAL}, {"spp::random_not0(x, y, y)", 2, 0, REAL},
      {"polynomial(x, Zero<%t>, y)", 1, 1, SINT}, {"pow_prod(x, y)", 1, 1, SIGNED}};
   for(const G& g : gs) for(const Kd& x : KD) for(const Kd& y : KD) {
      if(&g - gs < lo || &g - gs >= hi) continue;
      const bool rank_ok = x.rank == g.r1 && y.rank == g.r2;
      if(x.rank < 1 || !use_kind(x) || !use_kind(y)) continue;
      if(y.rank < 1 && g.r2 >= 1) continue;
      if(y.rank >= 1 && g.r2 == 0) continue;
      const bool swap = string(g.n) == "x.swap(y)", proc = string(g.n).find("spp::random") == 0;
      if(swap && (string(x.n) != "A1" || string(y.n) != "A1")) continue;
      if(y.rank < 0 && string(g.n).find("{y}") != string::npos) continue;
      if(proc && !x.mut) continue;
      if(!rank_ok && x.rank != g.r1) continue;      // the first operand has the rank, the second any
      for(const Ty& t : TY) for(const Ty& u : TY) {
         bool ok;
         if(g.need == SINT) { if(t.boolean) continue; ok = rank_ok && (u.integer && !u.uns); }            // polynomial with integer powers
         else if(g.need == SIGNED) { ok = rank_ok && t.flt && u.integer && !u.uns; }
         else ok = rank_ok && &t == &u && has(g.need, t);
         add(string("array pair ") + g.n, string(x.n) + "<" + t.n + ">," + y.n + "<" + u.n + ">", "(" + par(x, t, "x") + ", " + par(y, u, "y") + ") { " + (swap || proc ? "" : "return k::use(") + rep(g.n, {{"%t", t.n}}) + (swap || proc ? "; return 0; }" : "); }"), ok);
      }
   }
   close_forms();
}
UNIT("array.functions") { unit_tag = "g_"; array_functions(0); }
UNIT("array.pairs1") { unit_tag = "ha_"; array_functions(1, 0, 8); }
UNIT("array.pairs2") { unit_tag = "hb_"; array_functions(1, 8, 16); }
UNIT("array.pairs3") { unit_tag = "hc_"; array_functions(1, 16, 24); }
UNIT("array.pairs4") { unit_tag = "hd_"; array_functions(1, 24, 99); }
