// C23, invalid operations: every operation with every parameter of a domain that reaches beyond both ends is a
// program of its own, a constant evaluation; the compiler must accept exactly the valid ones.
#include "prog.hpp"

const char* kinds_text = R"(
#define STRICT_REMOVE_NODISCARD
#include <strictpp/strict.hpp>
#include <utility>
using namespace spp; using namespace spp::place;
namespace k {
using I = Array1D<int>; using D = Array1D<double>; using I2 = Array2D<int>; using D2 = Array2D<double>;
constexpr I a(long n) { I x(n); for(long i = 0; i < n; ++i) x.un(i) = Strict{int(i) + 1}; return x; }
constexpr D d(long n) { D x(n); for(long i = 0; i < n; ++i) x.un(i) = Strict{double(i) + 1}; return x; }
constexpr I2 m(long r, long c) { I2 x(Rows{r}, Cols{c}); for(long i = 0; i < r * c; ++i) x.un(i) = Strict{int(i) + 1}; return x; }
constexpr D2 dm(long r, long c) { D2 x(Rows{r}, Cols{c}); for(long i = 0; i < r * c; ++i) x.un(i) = Strict{double(i) + 1}; return x; }
template <class X> constexpr long use(const X& x) { long h = x.size().val(); for(long i = 0; i < x.size().val(); ++i) h += long(x.un(i).val()); return h; }
}
)";
static string unit_;
static void start(const string& tag, bool exc) {
   unit_tag = tag; decl = "constexpr int p";
   pch_tag = exc ? "x" : "a"; defines = exc ? "#define STRICT_ERROR_EXCEPTIONS\n" : "";
   unit_ = exc ? "exceptions " : "assertions ";
}
// body: statements; the program is  constexpr int pN = [] { body return 0; }();
static void prog(const string& form, const string& body, bool ok) {
   progs.push_back({unit_ + form + ": " + body, " = [] { " + body + "; return 0; }();", ok, unit_ + form});
   if(progs.size() >= 4000) flush_all();
}
static string sL(long x) { return x == std::numeric_limits<long>::min() ? "(-9223372036854775807L-1)" : std::to_string(x) + "L"; }
static string s(long x) { return x == std::numeric_limits<long>::min() ? "(-9223372036854775807-1)" : std::to_string(x); }
static const long MX = std::numeric_limits<long>::max();
static std::vector<long> around(long n) { std::vector<long> r; for(long i = -n - 1; i <= n + 2; ++i) r.push_back(i); for(long x : {MX, MX - 1, -MX, -MX - 1, 1L << 32, -(1L << 32), (1L << 32) + n, 1L << 31}) r.push_back(x); return r; }

static void index1() {
   struct K { const char* n; const char* mk; };
   const K ks[] = {{"array", "auto x = k::a(%n);"}, {"const array", "const auto x = k::a(%n);"}, {"slice", "auto y = k::a(%n); auto x = y(reverse);"}, {"const slice", "const auto y = k::a(%n); auto x = y(all);"}, {"row", "auto y = k::m(2, %n); auto x = y.row(1);"}, {"column", "auto y = k::m(%n, 2); auto x = y.col(1);"}, {"list", "auto y = k::a(%n); std::vector<ImplicitInt> v; for(long i = 0; i < %n; ++i) v.push_back(i); auto x = y(v);"}, {"expression", "auto y = k::a(%n); auto x = y + y;"}, {"irange", "auto x = irange(%n);"}};
   for(const K& kd : ks) for(long n = 0; n <= 3; ++n) {
      if(n == 0 && (string(kd.n) == "row" || string(kd.n) == "column")) continue;
      string mk = kd.mk; for(std::size_t p; (p = mk.find("%n")) != string::npos;) mk.replace(p, 2, s(n));
      for(long i : around(n)) {
         const bool ok = i >= 0 && i < n;
         prog(string("x[i] of ") + kd.n, mk + "(void)x[" + s(i) + "].val()", ok);
         prog(string("x.at(i) of ") + kd.n, mk + "(void)x.at(" + s(i) + ").val()", ok);
         prog(string("x[Strict i] of ") + kd.n, mk + "(void)x[Strict<long>{" + sL(i) + "}].val()", ok);
         if(i > -MX) prog(string("x[last - i] of ") + kd.n, mk + "(void)x[last - " + (i < 0 ? "(" + s(i) + ")" : s(i)) + "].val()", ok);
         prog(string("*(begin + i) of ") + kd.n, mk + "(void)(*(x.begin() + (" + s(i) + "))).val()", ok);
         if(i >= -9 && i < 9) { prog(string("begin()[i] of ") + kd.n, mk + "(void)x.cbegin()[" + s(i) + "].val()", ok); prog(string("walking i of ") + kd.n, mk + "auto it = x.cbegin(); " + (i < 0 ? "for(long q = 0; q > " + s(i) + "; --q) --it;" : "for(long q = 0; q < " + s(i) + "; ++q) ++it;") + " (void)(*it).val()", ok); }
      }
      if(string(kd.n) == "array" || string(kd.n) == "slice" || string(kd.n) == "row" || string(kd.n) == "list") for(long i : around(n)) prog(string("x[i] = of ") + kd.n, mk + "x[" + s(i) + "] = 5_si", i >= 0 && i < n);
   }
   close_forms();
}
static void index2(int part) {
   const char* kd[][2] = {{"array", "auto x = k::m(%r, %c);"}, {"slice", "auto y = k::m(%r, %c); auto x = y(reverse, all);"}, {"transpose", "auto y = k::m(%c, %r); auto x = transpose(y);"}, {"expression", "auto y = k::m(%r, %c); auto x = y * 2_si;"}};
   for(auto& q : kd) if((&q - kd) % 2 == part) for(long r = 0; r <= 2; ++r) for(long c = 0; c <= 3; ++c) {
      if((r == 0) != (c == 0)) continue;
      string mk = q[1];
      for(std::size_t p; (p = mk.find("%r")) != string::npos;) mk.replace(p, 2, s(r));
      for(std::size_t p; (p = mk.find("%c")) != string::npos;) mk.replace(p, 2, s(c));
      for(long i : {-1L, 0L, 1L, 2L, 3L, MX, -MX - 1, 1L << 32}) {
         for(long j : {-1L, 0L, 1L, 2L, 3L, 4L, MX, -MX - 1, 1L << 32}) {
            const bool ok = i >= 0 && i < r && j >= 0 && j < c;
            prog(string("x(i, j) of ") + q[0], mk + "(void)x(" + s(i) + ", " + s(j) + ").val()", ok);
            prog(string("x.at(i, j) of ") + q[0], mk + "(void)x.at(" + s(i) + ", " + s(j) + ").val()", ok);
            if(string(q[0]) == "array") prog("x(i, j) = of array", mk + "x(" + s(i) + ", " + s(j) + ") = 3_si", ok);
            if(i >= 0 && i < 9 && j >= 0 && j < 9) for(long i2 : {0L, 1L, 2L}) for(long j2 : {0L, 1L, 2L, 3L}) if(string(q[0]) != "transpose") {
               prog(string("block of ") + q[0], mk + "(void)k::use(x.block(" + s(i) + ", " + s(j) + ", " + s(i2) + ", " + s(j2) + "))", i <= i2 && i2 < r && j <= j2 && j2 < c);
               if(i2 && j2) prog(string("blockN of ") + q[0], mk + "(void)k::use(x.blockN(" + s(i) + ", " + s(j) + ", " + s(i2) + ", " + s(j2) + "))", i2 > 0 && j2 > 0 && i < r && j < c && i + i2 <= r && j + j2 <= c);
            }
         }
         prog(string("row of ") + q[0], mk + "(void)k::use(x.row(" + s(i) + "))", i >= 0 && i < r);
         prog(string("col of ") + q[0], mk + "(void)k::use(x.col(" + s(i) + "))", i >= 0 && i < c);
         prog(string("diag of ") + q[0], mk + "(void)k::use(x.diag(" + s(i) + "))", r && i > -r && i < c);
         prog(string("rows(list) of ") + q[0], mk + "(void)k::use(x.rows({" + s(i) + "}))", i >= 0 && i < r);
         prog(string("cols(list) of ") + q[0], mk + "(void)k::use(x.cols({" + s(i) + "}))", i >= 0 && i < c);
         if(r && i < 9 && string(q[0]) == "array") for(long j = -1; j <= 7; ++j) prog("view2D", mk + "auto v = x.view1D(); (void)k::use(v.view2D(" + s(i) + ", " + s(j) + "))", i >= 0 && j >= 0 && i * j == r * c && i > 0);
      }
   }
   close_forms();
}
static void slices() {
   for(long n = 0; n <= 3; ++n) {
      const string mk = "auto x = k::a(" + s(n) + "); ";
      for(long st : {-MX - 1, -2L, -1L, 0L, 1L, 2L, MX}) for(long f : {-1L, 0L, 1L, 2L, 3L, 4L, MX}) for(long c : {-1L, 0L, 1L, 2L, 3L, 4L, MX}) {
         const __int128 e = __int128(f) + __int128(st) * (c - 1);
         const bool ok = f >= 0 && c >= 0 && (c == 0 || (f < n && e >= 0 && e < n));
         if(ok && c > 100) continue;
         prog("x(seqN)", mk + "(void)k::use(x(seqN(" + s(f) + ", " + s(c) + ", " + s(st) + ")))", ok);
      }
      for(long i : {-1L, 0L, 1L, 2L, 3L, MX}) for(long j : {-1L, 0L, 1L, 2L, 3L, MX}) {
         prog("x({i, j})", mk + "(void)k::use(x({" + s(i) + ", " + s(j) + "}))", i >= 0 && i < n && j >= 0 && j < n);
         prog("x(complement{i, j})", mk + "(void)k::use(x(place::complement{" + s(i) + ", " + s(j) + "}))", i >= 0 && i < j && j < n);
         prog("remove({i, j})", mk + "x.remove({" + s(i) + ", " + s(j) + "})", i >= 0 && i < j && j < n);
         if(i >= 0) prog("exclude(x, i, j)", mk + "(void)k::use(exclude(x, " + s(i) + ", " + s(j) + "))", i < n && j > 0 && j < 9 && i + j <= n);
      }
      for(long i : around(n)) { prog("firstN", mk + "(void)k::use(x(firstN(" + s(i) + ")))", i >= 0 && i <= n); prog("lastN", mk + "(void)k::use(x(lastN(" + s(i) + ")))", i >= 0 && i <= n); }
   }
   close_forms();
}
static void edits() {
   for(long n = 0; n <= 3; ++n) {
      const string mk = "auto x = k::a(" + s(n) + "); ";
      for(long i : around(n)) {
         const bool in = i >= 0 && i < n, at = i >= 0 && i <= n;
         prog("x.remove(i)", mk + "x.remove(" + s(i) + ")", in);
         prog("x.insert(i, value)", mk + "x.insert(" + s(i) + ", 7_si)", at);
         prog("x.insert(i, array)", mk + "x.insert(" + s(i) + ", k::a(2))", at);
         prog("x.remove_front(i)", mk + "x.remove_front(" + s(i) + ")", i > 0 && i <= n);
         if(i != -MX && i != -MX - 1) prog("x.remove_back(i)", mk + "x.remove_back(" + s(i) + ")", i > 0 && i <= n);
         if(i < 100) { prog("x.resize(i)", mk + "x.resize(" + s(i) + ")", i >= 0); prog("Array(i)", "k::I x(" + s(i) + ")", i >= 0); prog("Array(i, value)", "k::I x(Size{" + s(i) + "}, Value{2_si})", i >= 0); }
         for(long c : {-1L, 0L, 1L, 2L, 3L, 4L, MX}) { prog("x.remove(i, c)", mk + "x.remove(" + s(i) + ", " + s(c) + ")", in && c > 0 && c <= n - i); }
      }
      for(long q = 0; q <= 3; ++q) {
         const string y = "auto y = k::a(" + s(q) + "); ";
         const bool eq = n == q;
         for(const char* op : {"+", "-", "*"}) prog(string("x ") + op + " y", mk + y + "(void)k::use(x " + op + " y)", eq);
         for(const char* op : {"+=", "-=", "*=", "/=", "=", "&=", "|="}) prog(string("x ") + op + " y", mk + y + "x " + op + " y", eq);
         prog("x(all) = y", mk + y + "x(all) = y", eq); prog("x = y expression", mk + y + "x = y + y", eq); prog("x(reverse) += y", mk + y + "x(reverse) += y", eq); prog("generate(x, y)", mk + y + "(void)k::use(spp::generate(x, y, [](auto a, auto b) { return a + b; }))", eq);
         prog("x = move(y)", mk + y + "x = std::move(y)", eq); if(n && q) prog("dot_prod", mk + y + "(void)dot_prod(x, y)", eq);
         prog("fixed = y", y + "FixedArray1D<int, 2> x; x = y", q == 2); prog("fixed(y)", y + "FixedArray1D<int, 2> x(y)", q == 2);
              }
      prog("x(i) after move", mk + "auto y = std::move(x); (void)x[0].val()", false); prog("y[0] after move", mk + "auto y = std::move(x); (void)y[0].val()", n > 0);
      prog("irange_m1", mk + "(void)k::use(irange_m1(x))", n > 0);
   }
   // "(i) after move" is never accepted: give its form an accepted member
   for(const char* u : {""}) { (void)u; prog("x(i) after move", "auto x = k::a(2); auto y = std::move(x); x.resize(1); (void)x[0].val()", true); }
   for(long r = 0; r <= 2; ++r) for(long c = 0; c <= 2; ++c) {
      if((r == 0) != (c == 0)) continue;
      const string mk = "auto x = k::m(" + s(r) + ", " + s(c) + "); ";
      for(long i : {-1L, 0L, 1L, 2L, 3L, MX, -MX - 1}) {
         prog("x.remove_row(i)", mk + "x.remove_row(" + s(i) + ")", i >= 0 && i < r); prog("x.remove_col(i)", mk + "x.remove_col(" + s(i) + ")", i >= 0 && i < c);
         for(long q : {0L, 1L, 2L, 3L}) {
            if(r) { prog("x.insert_row(i, y)", mk + "x.insert_row(" + s(i) + ", k::a(" + s(q) + "))", i >= 0 && i <= r && q == c); prog("x.insert_col(i, y)", mk + "x.insert_col(" + s(i) + ", k::a(" + s(q) + "))", i >= 0 && i <= c && q == r); 
            prog("x.insert_rows(i, y)", mk + "x.insert_rows(" + s(i) + ", k::m(2, " + s(q ? q : 1) + "))", i >= 0 && i <= r && (q ? q : 1) == c); prog("x.insert_cols(i, y)", mk + "x.insert_cols(" + s(i) + ", k::m(" + s(q ? q : 1) + ", 2))", i >= 0 && i <= c && (q ? q : 1) == r); }
            prog("x.remove_rows(i, q)", mk + "x.remove_rows(" + s(i) + ", " + s(q) + ")", i >= 0 && i < r && q > 0 && q <= r - i); prog("x.remove_cols(i, q)", mk + "x.remove_cols(" + s(i) + ", " + s(q) + ")", i >= 0 && i < c && q > 0 && q <= c - i);
         }
      }
      for(long p = -1; p <= 2; ++p) for(long q = -1; q <= 2; ++q) {
         if(p < 0 || q < 0 || (p == 0) != (q == 0)) { prog("Array2D(p, q)", "k::I2 x(Rows{" + s(p) + "}, Cols{" + s(q) + "})", false); prog("x.resize(p, q)", mk + "x.resize(" + s(p) + ", " + s(q) + ")", false); continue; }
         prog("Array2D(p, q)", "k::I2 x(Rows{" + s(p) + "}, Cols{" + s(q) + "})", true); prog("x.resize(p, q)", mk + "x.resize(" + s(p) + ", " + s(q) + ")", true);
         const string y = "auto y = k::m(" + s(p) + ", " + s(q) + "); "; const bool eq = p == r && q == c;
         for(const char* op : {"+", "*"}) prog(string("2D x ") + op + " y", mk + y + "(void)k::use(x " + op + " y)", eq);
         for(const char* op : {"+=", "="}) prog(string("2D x ") + op + " y", mk + y + "x " + op + " y", eq);
         prog("merge_horizontal", mk + y + "(void)k::use(merge_horizontal(x, y))", p == r || r * c == 0 || p * q == 0); prog("merge_vertical", mk + y + "(void)k::use(merge_vertical(x, y))", q == c || r * c == 0 || p * q == 0);
         if(r && p > 0) prog("matvec_prod", mk + "auto y = k::a(" + s(p) + "); (void)k::use(matvec_prod(x, y))", p == c);
      }
   }
   prog("ragged list", "Array2D<int> x{{1_si, 2_si}, {3_si}}", false); prog("ragged list", "Array2D<int> x{{1_si, 2_si}, {3_si, 4_si}}", true); prog("ragged list", "Array2D<int> x{{1_si}, {3_si, 4_si}}", false);
   for(int q = 0; q <= 4; ++q) { string l; for(int i = 0; i < q; ++i) l += (i ? ", 1_si" : "1_si"); if(q) { prog("fixed{list}", "FixedArray1D<int, 3> x{" + l + "}", q == 3); prog("fixed = {list}", "FixedArray1D<int, 3> x; x = {" + l + "}", q == 3); prog("array = {list}", "auto x = k::a(3); x = {" + l + "}", q == 3); } }
   close_forms();
}
static string cased(string l, bool up) { if(up) for(size_t i = l.find('_') + 1; i < l.size(); ++i) l[i] = char(std::toupper(l[i])); return l; }
static void scalars() {
   const char* vals[] = {"0", "1", "-1", "7", "31", "32", "33", "63", "64", "-32", "2147483647", "-2147483647-1"};
   auto val = [](const char* v) -> __int128 { return string(v) == "-2147483647-1" ? -2147483648LL : std::atoll(v); };
   for(const char* x : vals) for(const char* y : vals) {
      const __int128 a = val(x), b = val(y);
      const string in = string("Strict<int> x{") + x + "}, y{" + y + "}; ";
      auto fits = [](__int128 v) { return v >= -2147483648LL && v <= 2147483647LL; };
      prog("int +", in + "(void)(x + y)", fits(a + b)); prog("int -", in + "(void)(x - y)", fits(a - b)); prog("int *", in + "(void)(x * y)", fits(a * b));
      prog("int +=", in + "x += y", fits(a + b)); prog("int *=", in + "x *= y", fits(a * b));
      const bool d = b != 0 && fits(a / (b ? b : 1));
      prog("int /", in + "(void)(x / y)", d); prog("int %", in + "(void)(x % y)", d); prog("int /=", in + "x /= y", d); prog("int %=", in + "x %= y", d);
      const bool sh = b >= 0 && b < 32;
      prog("int >>", in + "(void)(x >> y)", sh && a >= 0); prog("int >>=", in + "x >>= y", sh && a >= 0);
      if(!(sh && a >= 0 && !fits(a << int(b)))) { prog("int <<", in + "(void)(x << y)", sh && a >= 0); prog("int <<=", in + "x <<= y", sh && a >= 0); }
      if(a >= 0 && b >= 0) { const string u = string("Strict<unsigned> x{") + x + "u}, y{" + y + "u}; "; prog("unsigned /", u + "(void)(x / y)", b != 0); prog("unsigned %", u + "(void)(x % y)", b != 0); prog("unsigned <<", u + "(void)(x << y)", b < 32); prog("unsigned >>", u + "(void)(x >> y)", b < 32); prog("unsigned -", u + "(void)(x - y)", true); }
   }
   for(const char* x : vals) { const string in = string("Strict<int> x{") + x + "}; "; const __int128 a = val(x); prog("int -x", in + "(void)(-x)", a != -2147483648LL); prog("int ++x", in + "++x", a != 2147483647LL); prog("int --x", in + "--x", a != -2147483648LL); prog("int abss", in + "(void)abss(x)", a != -2147483648LL); prog("invs", string("(void)invs(Strict<double>{") + (a ? "2" : "0") + ".0})", a != 0); }
   for(long n = -2; n <= 22; ++n) { prog("factorial", "(void)factorial(" + s(n) + ")", n >= 0 && n <= 20); if(n <= 20) for(long q = -1; q <= n + 1 && q <= 21; ++q) prog("binom_coeff", "(void)binom_coeff(" + s(n) + ", " + s(q) + ")", n >= 0 && q >= 0 && q <= n); }
   for(const char* l : {"2147483647_si", "0_si", "4294967295_sui", "0_sui", "9223372036854775807_sl", "0_sl", "18446744073709551615_sul", "0_sul", "0.1_sd", "1.5_sf", "3.4e38_sf", "1e308_sd", "1e4900_sl"}) for(int up = 0; up < 2; ++up) prog("literal", "(void)(" + cased(l, up) + ")", true);
   for(const char* l : {"2147483648_si", "4294967295_si", "18446744073709551615_si", "4294967296_sui", "18446744073709551615_sui", "9223372036854775808_sl", "18446744073709551615_sl"}) for(int up = 0; up < 2; ++up) prog("literal", "(void)(" + cased(l, up) + ")", false);
   for(int lo = -2; lo <= 2; ++lo) for(int hi = -2; hi <= 2; ++hi) for(const char* t : {"int", "double"}) { const string dot = t[0] == 'd' ? ".0" : "", a = string("Strict<") + t + ">{" + s(lo) + dot + "}, Strict<" + t + ">{" + s(hi) + dot + "}"; prog(string("semi_rands ") + t, string("(void)semi_rands<") + t + ">(" + a + ", Seed{3u})", lo < hi || (lo == hi)); }
   for(long n : {-2L, -1L, 0L, 1L, 3L}) { prog("linspace", "(void)k::use(linspace<double>(" + s(n) + ", 0._sd, 1._sd))", n > 0); prog("sequence", "(void)k::use(sequence<int>(" + s(n) + "))", n >= 0); prog("const1D", "(void)k::use(const1D(" + s(n) + ", 1_si))", n >= 0); prog("irange", "(void)k::use(irange(" + s(n) + "))", n >= 0); prog("identity", "(void)k::use(identity<int>(" + s(n) + "))", n >= 0); for(long i : {-1L, 0L, 1L, 2L, 3L, 4L}) prog("e_unit", "(void)k::use(e_unit<int>(" + s(i) + ", " + s(n) + "))", i >= 0 && i < n); }
   close_forms();
}
UNIT("index.1D.exceptions") { start("i_", true); index1(); }
UNIT("index.1D.assertions") { start("i_", false); index1(); }
UNIT("index.2D.exceptions") { start("j_", true); index2(0); }
UNIT("index.2D.other.exceptions") { start("k_", true); index2(1); }
UNIT("index.2D.assertions") { start("j_", false); index2(0); }
UNIT("index.2D.other.assertions") { start("k_", false); index2(1); }
UNIT("slices.exceptions") { start("s_", true); slices(); }
UNIT("slices.assertions") { start("s_", false); slices(); }
UNIT("edits.exceptions") { start("e_", true); edits(); }
UNIT("edits.assertions") { start("e_", false); edits(); }
UNIT("scalars.exceptions") { start("c_", true); scalars(); }
UNIT("scalars.assertions") { start("c_", false); scalars(); }
