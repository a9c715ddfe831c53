// C17: what is printed reads back; malformed input changes nothing.
#include "kinds.hpp"
#include <filesystem>
#include <fstream>
#ifndef C17_T
#define C17_T int
#endif
#ifndef C17_PART
#define C17_PART 0
#endif

namespace {
using T = C17_T;
using V = std::vector<T>;
using M = Mat<T>;
constexpr bool FL = !std::is_integral_v<T>;
constexpr bool EXACT = !FL || std::is_same_v<T, double>;
bool near_(T a, T b) { if(EXACT || a == b) return bits(a, b); T d = a - b, m = a < 0 ? -a : a; if(d < 0) d = -d; return d <= m * (std::is_same_v<T, float> ? T(1e-6) : std::is_same_v<T, long double> ? T(1e-17) : T(1e-30)); }
bool near(const V& a, const V& b) { if(a.size() != b.size()) return false; for(std::size_t i = 0; i < a.size(); ++i) if(!near_(T(a[i]), T(b[i]))) return false; return true; }
template <class T> std::vector<T> values_() {
   using V = std::vector<T>;
   if constexpr(std::is_same_v<T, bool>) return {false, true};
   else {
   V v;
   if constexpr(!FL) {
      using U = std::make_unsigned_t<T>; const int w = sizeof(T) * 8;
      for(int k = 0; k < w; ++k) for(int d : {-1, 0, 1}) { U u = ((U)1 << k) + (U)d; v.push_back((T)u); v.push_back((T)(U)(0 - u)); }
      T p = 1; for(;;) { v.push_back(p); v.push_back(p - 1); v.push_back((T)(0 - (U)p)); T q; if(__builtin_mul_overflow(p, (T)10, &q)) break; p = q; }
      v.push_back(std::numeric_limits<T>::max()); v.push_back(std::numeric_limits<T>::min()); v.push_back(0);
   } else {
      using D = std::conditional_t<std::is_same_v<T, float>, float, double>;
      for(int e = std::numeric_limits<D>::min_exponent - std::numeric_limits<D>::digits; e < std::numeric_limits<D>::max_exponent; e += (e < -1000 || e > 1000 || (e > -70 && e < 70)) ? 1 : 17) for(D m : {D(1), 1 + std::numeric_limits<D>::epsilon(), 2 - std::numeric_limits<D>::epsilon(), D(1.1), D(4) / 3, D(1.7182818284590452)}) { T x = (T)std::ldexp(m, e); v.push_back(x); v.push_back(-x); }
      for(int i = -40; i <= 40; ++i) { v.push_back(T(i)); v.push_back(T(i) / 10); v.push_back(T(i) * T(1e15) + T(1) / 8); }
      v.push_back(-T(0)); v.push_back(std::numeric_limits<D>::max());
   }
   return v;
   }
}
template <class T> std::vector<T> few_() { if constexpr(std::is_same_v<T, bool>) return {false, true}; else if constexpr(FL) return {T(0), T(1) / 3, T(-1e10), T(12345678.75)}; else if constexpr(std::is_unsigned_v<T>) return {0, 9, 10, std::numeric_limits<T>::max()}; else return {0, -10, 99, std::numeric_limits<T>::min(), std::numeric_limits<T>::max()}; }
[[maybe_unused]] V values() { return values_<T>(); }
[[maybe_unused]] V few() { return few_<T>(); }
void bad(const char* w, const char* what, const std::string& detail) { mc::fail(std::string(w) + ":" + tname<T>(), "%s: %s", what, detail.c_str()); }
std::string qt(const std::string& s) { return mc::json(s); }
template <class A> std::string text(const A& a) { std::ostringstream o; o << a; return o.str(); }
void done(const std::string& s) { mc::step(); mc::trace(); mc::state(std::hash<std::string>{}(s)); }
template <class F> void vectors(const V& d, long n, F&& f) {
   V v(n, d[0]); std::vector<std::size_t> ix(n, 0);
   for(;;) { f(v); long k = n - 1; while(k >= 0 && ++ix[k] == d.size()) { ix[k] = 0; v[k] = d[0]; --k; } if(k < 0) return; v[k] = d[ix[k]]; }
}

// ---- the text of an array reads back to the same array, whatever the target held before
template <class A> void back1(const char* w, const std::string& s, const V& want) {
   for(long pre : {0L, 3L}) {
      A a = mk1<T, Unaligned>(V(pre, T(1)));
      bool t = throws([&] { std::istringstream is(s); is >> a; });
      if(t || !near(want, elems(a))) bad(w, "reading back", qt(s) + " gives " + (t ? "an error" : str(elems(a))) + " instead of " + str(want));
      mc::step();
   }
}
template <class A> void back2(const char* w, const std::string& s, const M& want0) {
   M want = want0; want.norm();
   for(long pre : {0L, 2L}) {
      A a = mk2<T, Unaligned>(M{pre, pre ? 3 : 0, V(pre * 3, T(1))});
      bool t = throws([&] { std::istringstream is(s); is >> a; });
      M got = elems2(a);
      if(t || got.r != want.r || got.c != want.c || !near(want.v, got.v)) bad(w, "reading back", qt(s) + " gives " + (t ? "an error" : str(got)) + " instead of " + str(want));
      mc::step();
   }
}
void rt1(const V& v) {
   mc::at("printing and reading %s", str(v).c_str());
   auto a = mk1<T, Unaligned>(v);
   std::string s = text(a);
   back1<Array1D<T>>("1d", s, v); back1<Array1D<T, Aligned>>("1d aligned", s, v);
   array_format.row_style(); std::string s2 = text(a); array_format.reset();
   back1<Array1D<T>>("1d row style", s2, v);
   if(!v.empty()) { M m; m.r = 1; m.c = v.size(); m.v = v; back2<Array2D<T>>("1d in row style read in two dimensions", s2, m); m.r = m.c; m.c = 1; back2<Array2D<T>>("1d read in two dimensions", s, m); }
   done(s);
}
void rt2(const M& m) {
   mc::at("printing and reading %s", str(m).c_str());
   auto a = mk2<T, Unaligned>(m);
   std::string s = text(a);
   back2<Array2D<T>>("2d", s, m); back2<Array2D<T, Aligned>>("2d aligned", s, m);
   back1<Array1D<T>>("2d read in one dimension", s, m.v);
   done(s);
}
M mat(long r, long c, const V& vals, std::size_t off = 0) { M m; m.r = r; m.c = c; for(long i = 0; i < r * c; ++i) m.v.push_back(vals[(off + i) % vals.size()]); return m; }

#if C17_PART == 0
UNIT("scalars") {
   std::string allt; V all = values();
   for(T x : all) {
      mc::at("scalar %s", str(x).c_str());
      std::string s = text(S(x)); allt += s + " ";
      Strict<T> y{T(1)}; bool t = throws([&] { std::istringstream is(s); is >> y; }); mc::step();
      if(t || !near_(x, y.val())) bad("scalar", "reading back", s + " gives " + (t ? "an error" : str(y.val())));
      // text does not depend on the stream's earlier use and is accepted by plain streams
      if constexpr(EXACT) { T z{}; std::istringstream is(s); is >> z; if(!bits(x, z)) bad("scalar text", "the text is another number", s); }
      done(s);
   }
   std::istringstream is(allt);
   for(std::size_t i = 0; i < all.size(); ++i) { Strict<T> y; mc::at("value %zu of a sequence", i); bool t = throws([&] { is >> y; }); mc::step(); if(t || !near_(T(all[i]), y.val())) { bad("scalars", "reading a sequence", str(T(all[i]))); break; } }
   // malformed: an error and no change
   for(std::string m : {"", " ", "\n", "x", "-", "+", "e5", ".", "true", "nan?", "--1", "99999999999999999999999999999999999999999999999999x", "#1"}) {
      if(FL && m[0] == '9') continue;
      Strict<T> y{T(7)}; mc::at("scalar from %s", qt(m).c_str()); bool t = throws([&] { std::istringstream i(m); i >> y; }); mc::step(); mc::trace();
      if(!t || y.val() != T(7)) bad("scalar from malformed text", qt(m).c_str(), t ? "changed" : "accepted");
   }
}
UNIT("one-dimensional arrays") {
   V d = few(), all = values();
   for(long n = 0; n <= 4; ++n) { if(n == 4 && !mc::thorough) d.resize(3); vectors(d, n, rt1); }
   for(long n = 0; n <= (mc::thorough ? 300 : 70); ++n) { rt1(mat(1, n, all, n * 7).v); rt1(V(n, d[1])); }
   for(std::size_t i = 0; i < all.size(); i += mc::thorough ? 1 : 3) { rt1({all[i]}); rt1({all[i], all[(i * 5 + 3) % all.size()], all[i]}); }
}
UNIT("two-dimensional arrays") {
   V d = few(), all = values();
   const long N = mc::thorough ? 18 : 9;
   for(long r = 0; r <= N; ++r) for(long c = 0; c <= N; ++c) if((r == 0) == (c == 0)) { rt2(mat(r, c, all, r * 31 + c * 7)); rt2(mat(r, c, d, r)); rt2(mat(r, c, {d[1]})); }
   for(auto [r, c] : std::vector<std::pair<long, long>>{{17, 3}, {33, 2}, {2, 17}, {3, 33}, {1, 40}, {40, 1}}) rt2(mat(r, c, all, r));
   for(auto [r, c] : std::vector<std::pair<long, long>>{{1, 1}, {1, 2}, {2, 1}, {2, 2}, {1, 3}}) vectors(d, r * c, [&](const V& v) { M m; m.r = r; m.c = c; m.v = v; rt2(m); });
   for(std::size_t i = 0; i < all.size(); i += mc::thorough ? 1 : 3) { rt2(mat(1, 1, {all[i]})); rt2(mat(2, 2, {all[i], T(0), T(1), all[(i * 3 + 1) % all.size()]})); }
}
template <int K> void kinds() {
   V d = few();
   for(long n = 0; n <= 6; ++n) { V v; for(long i = 0; i < n; ++i) v.push_back(d[i % d.size()]); mc::at("printing a %s", kname1[K]); kind1<K>(v, [&](auto&& a, auto) { std::string s = text(a); if(s != text(mk1<T, Unaligned>(v))) bad("1d kinds", kname1[K], "prints " + qt(s)); back1<Array1D<T>>("1d kinds", s, v); done(s); }); }
   for(auto [r, c] : std::vector<std::pair<long, long>>{{0, 0}, {1, 3}, {3, 1}, {2, 2}, {2, 3}, {3, 2}}) { M m = mat(r, c, d, 1); mc::at("printing a %s", kname2[K]); kind2<K>(m, [&](auto&& a, auto) { std::string s = text(a); if(s != text(mk2<T, Unaligned>(m))) bad("2d kinds", kname2[K], "prints " + qt(s)); back2<Array2D<T>>("2d kinds", s, m); done(s); }); }
}
UNIT("every kind of object prints like an array") { [&]<int... K>(std::integer_sequence<int, K...>) { (kinds<K>(), ...); }(std::make_integer_sequence<int, 11>{}); }
struct Cout { std::ostringstream o; std::streambuf* b; Cout() : b(std::cout.rdbuf(o.rdbuf())) {} ~Cout() { std::cout.rdbuf(b); } };
template <class F> std::string captured(F&& f) { Cout c; f(); return c.o.str(); }
UNIT("print functions write the same text") {
   V d = few();
   auto ck = [&](const char* w, const std::string& got, const std::string& want) { mc::at("%s", w); if(got != want) bad("print", w, qt(got) + " instead of " + qt(want)); done(w); };
   for(long n = 0; n <= 5; ++n) {
      V v; for(long i = 0; i < n; ++i) v.push_back(d[i % d.size()]);
      auto a = mk1<T, Unaligned>(v); auto b = mk2<T, Unaligned>(mat(n, n ? 2 : 0, d));
      ck("print(A)", captured([&] { print(a); }), text(a)); ck("print(A, name)", captured([&] { print(a, "N"); }), "N:\n" + text(a)); ck("print(A, B)", captured([&] { print(a, b); }), text(a) + "\n" + text(b));
      ck("printn(A)", captured([&] { printn(a); }), text(a) + "\n"); ck("printn(B, name)", captured([&] { printn(b, "N"); }), "N:\n" + text(b) + "\n");
      ck("print(B)", captured([&] { print(b); }), text(b));
      if(n) { auto x = a.un(0); ck("print(x)", captured([&] { print(x); }), text(x) + "\n"); ck("print(x, name)", captured([&] { print(x, "N"); }), "N:\n" + text(x) + "\n"); ck("printn(x)", captured([&] { printn(x); }), text(x) + "\n\n"); }
   }
   // changed formats are undone by reset
   V v; for(T x : d) v.push_back(x);
   auto a = mk1<T, Unaligned>(v); std::string s = text(a);
   format.precision(3).scientific(false); (void)text(a); format.reset(); ck("after format.reset", text(a), s);
   array_format.detailed(true).row_style(); (void)text(a); array_format.reset(); ck("after array_format.reset", text(a), s);
   { std::ostringstream o; format.precision(2); o << a; format.reset(); o.str(""); o << a; ck("same stream after format.reset", o.str(), s); }
}
UNIT("files") {
   char dir[] = "/tmp/c17.XXXXXX"; if(!::mkdtemp(dir)) { mc::fail("scratch", "no scratch directory"); return; }
   std::string f = std::string(dir) + "/a";
   V all = values();
   for(long n = 0; n <= 20; ++n) {
      V v = mat(1, n, all, n * 3).v; mc::at("file of %ld elements", n);
      auto a = mk1<T, Unaligned>(v); print_to_file(f, a); Array1D<T> b(2); read_from_file(f, b); if(!near(v, elems(b))) bad("file", "reading a file", str(elems(b)) + " instead of " + str(v));
      M m = mat(n % 5, n % 5 ? n / 5 + 1 : 0, all, n); auto a2 = mk2<T, Unaligned>(m); print_to_file(f, a2); Array2D<T, Aligned> b2(1, 1); read_from_file(f, b2); M g = elems2(b2); if(g.r != m.r || g.c != m.c || !near(m.v, g.v)) bad("file 2d", "reading a file", str(g) + " instead of " + str(m));
      if(n) { print_to_file(f, a, "name"); auto keep = b; bool t = throws([&] { read_from_file(f, b); }); if(!t || !bitsv(elems(b), elems(keep))) bad("file", "a titled file", "is accepted or changed the array"); auto keep2 = b2; t = throws([&] { read_from_file(f, b2); }); if(!t || !bitsv(elems2(b2).v, elems2(keep2).v)) bad("file 2d", "a titled file", "is accepted or changed the array"); }
      for(std::string nf : {std::string(dir) + "/missing", std::string(dir), std::string(dir) + "/a/b", std::string()}) {
         mc::at("unreadable path %s", nf.c_str()); auto c = mk1<T, Unaligned>(v); auto c2 = mk2<T, Unaligned>(m);
         bool t = throws([&] { read_from_file(nf, c); }); if(!t || !bitsv(elems(c), v)) bad("file", "an unreadable file", t ? "changed the array" : "is accepted");
         t = throws([&] { read_from_file(nf, c2); }); if(!t || elems2(c2).r != m.r || !bitsv(elems2(c2).v, m.v)) bad("file 2d", "an unreadable file", t ? "changed the array" : "is accepted");
         t = throws([&] { print_to_file(nf == std::string(dir) + "/missing" ? nf + "/x" : nf, c); }); if(!t) bad("file", "an unwritable path", "is accepted"); mc::step(3);
      }
      done("file");
   }
   std::filesystem::remove_all(dir);
}
#else
// ---- malformed input: the model splits the text into tokens; only a text made of numbers of the type may be read
const std::vector<std::pair<std::string, bool>>& tokens() {   // token, is a number of type T
   static std::vector<std::pair<std::string, bool>> t;
   if(t.empty()) {
      t = {{"1", true}, {"x", false}, {"-", false}, {"23", true}, {"+4", true}, {"1x", false}, {"+", false}, {"1,", false}, {"true", false}, {"#", false}};
      if constexpr(FL) { t.push_back({"1.5", true}); t.push_back({"-2e3", true}); t.push_back({"e5", false}); t.push_back({"2e", false}); t.push_back({".", false}); if(std::is_same_v<T, double>) t.push_back({"1e999", false}); }
      else { t.push_back({"1.5", false}); t.push_back({"2e3", false}); t.push_back({"99999999999999999999999", false}); if(std::is_signed_v<T>) { t.push_back({"-7", true}); t.push_back({"-99999999999999999999999", false}); } }
      if constexpr(std::is_same_v<T, bool>) { t = {{"1", true}, {"0", true}, {"2", false}, {"x", false}, {"true", false}, {"-", false}, {"0.5", false}}; }
   }
   return t;
}
T num(const std::string& s) { if constexpr(FL) return (T)std::strtod(s.c_str(), nullptr); else return (T)std::strtol(s.c_str(), nullptr, 10); }
void parse(const std::string& s) {
   mc::at("reading %s", qt(s).c_str());
   // model
   bool ok = true; V v; M m; bool ragged = false, blank = false;
   std::size_t i = 0; long row = 0; bool first = true;
   auto is_num = [&](const std::string& t) { for(auto& [k, b] : tokens()) if(k == t) return b; return false; };
   std::string line; std::vector<std::string> lines; { std::istringstream is(s); while(std::getline(is, line)) lines.push_back(line); }
   (void)i; (void)row;
   for(auto& l : lines) {
      std::istringstream is(l); std::string t; long c = 0;
      while(is >> t) { if(!is_num(t)) ok = false; else v.push_back(num(t)); ++c; }
      if(c == 0) { if(!l.empty() && !first) blank = true; continue; }
      if(first) { m.c = c; first = false; } else if(c != m.c) ragged = true;
      ++m.r;
   }
   {
      const V old = {T(1), T(0), T(1)};
      auto a = mk1<T, Unaligned>(old);
      bool t = throws([&] { std::istringstream is(s); is >> a; }); mc::step();
      if(ok ? (t || !bitsv(elems(a), v)) : (!t || !bitsv(elems(a), old))) bad("malformed 1d", ok ? "well-formed text" : "malformed text", qt(s) + (t ? " is rejected, the target is " : " is accepted, the target is ") + str(elems(a)));
   }
   if(!blank) {
      M old; old.r = 2; old.c = 1; old.v = {T(1), T(0)};
      bool ok2 = ok && !ragged; if(ok2) m.v = v; 
      auto a = mk2<T, Unaligned>(old);
      bool t = throws([&] { std::istringstream is(s); is >> a; }); mc::step();
      M g = elems2(a);
      if(ok2 ? (t || g.r != m.r || g.c != m.c || !bitsv(g.v, m.v)) : (!t || g.r != 2 || !bitsv(g.v, old.v))) bad("malformed 2d", ok2 ? "well-formed text" : "malformed or ragged text", qt(s) + (t ? " is rejected, the target is " : " is accepted, the target is ") + str(g));
   }
   mc::trace(); mc::state(std::hash<std::string>{}(s));
}
void seqs(std::size_t nt, int len, const std::vector<std::string>& seps) {
   std::vector<std::size_t> tk(len, 0), sp(len + 1, 0);
   auto next = [](std::vector<std::size_t>& x, std::size_t lim) { long k = (long)x.size() - 1; while(k >= 0 && ++x[k] == lim) x[k--] = 0; return k >= 0; };
   const std::vector<std::string> lead = {"", "\n", " "}, tail = {"", "\n", " ", "\n\n"};
   do {
      std::vector<std::size_t> s2(len > 0 ? len - 1 : 0, 0);
      do {
         std::string b; for(int i = 0; i < len; ++i) b += tokens()[tk[i]].first + (i + 1 < len ? seps[s2[i]] : "");
         for(auto& l : lead) for(auto& t : tail) if(len < 3 || (l.empty() && t.size() < 2 && t != " ")) parse(l + b + t);
      } while(next(s2, seps.size()));
   } while(next(tk, nt));
}
UNIT("malformed text") {
   seqs(tokens().size(), 0, {" "}); seqs(tokens().size(), 1, {" "}); seqs(tokens().size(), 2, {" ", "\n", "\n\n", "\t"}); seqs(mc::thorough ? tokens().size() : 6, 3, {" ", "\n"}); seqs(3, 4, {" ", "\n"}); if(mc::thorough) { seqs(5, 4, {" ", "\n"}); seqs(3, 5, {" ", "\n"}); }
   // a wrong token at every position of longer inputs (the buffers double at 4, 8, 16, ...)
   for(long n : {4L, 5L, 8L, 9L, 16L, 17L, 33L}) for(long at = 0; at < n; ++at) for(std::string w : {"x", "-", "1x"}) for(bool keep : {false, true}) {
      std::string a, b, c; for(long i = 0; i < n; ++i) { std::string t = i == at ? (keep ? "1 " + w : w) : "1"; a += t + "\n"; b += t + " "; c += t + (i % 2 ? "\n" : " "); }
      if(n > 9 && at > 2 && at < n - 3 && at % 5 && !mc::thorough) continue;
      parse(a); parse(b); parse(c);
   }
   // ragged: one row shorter or longer
   for(long r = 2; r <= 9; ++r) for(long c = 1; c <= 4; ++c) for(long at = 0; at < r; ++at) for(long d : {-1L, 1L, 2L, 9L}) { if(c + d < 1) continue; std::string s; for(long i = 0; i < r; ++i) { for(long j = 0; j < c + (i == at ? d : 0); ++j) s += "1 "; s += "\n"; } parse(s); }
}
template <class T> bool whole_number(const std::string& w, T& x) {
   if constexpr(std::is_same_v<T, float128>) { char* e; x = strtoflt128(w.c_str(), &e); return e != w.c_str() && *e == 0; }
   else { std::istringstream o(w); o >> x; return !o.fail() && o.peek() == EOF; }
}
// Torn text: every prefix of a printed array.
std::vector<std::string> printed() { std::vector<std::string> r; V d = few(); for(long n : {1L, 3L, 9L}) { V v; for(long i = 0; i < n; ++i) v.push_back(d[i % d.size()]); r.push_back(text(mk1<T, Unaligned>(v))); } for(auto [a, b] : std::vector<std::pair<long, long>>{{1, 2}, {2, 3}, {5, 2}, {2, 5}}) r.push_back(text(mk2<T, Unaligned>(mat(a, b, d)))); return r; }
struct FailBuf : std::streambuf {   // delivers n characters, then the device fails
   std::string s; std::size_t n, i = 0; char c;
   FailBuf(std::string t, std::size_t k) : s(std::move(t)), n(k) {}
   int_type underflow() override { if(i == n) throw std::runtime_error("device"); c = s[i++]; setg(&c, &c, &c + 1); return traits_type::to_int_type(c); }
};
UNIT("torn text and failing devices") {
   if constexpr(!std::is_same_v<T, bool>) for(auto& s : printed()) for(std::size_t k = 0; k <= s.size(); ++k) {
      std::string t = s.substr(0, k); mc::at("the first %zu characters of %s", k, qt(s).c_str());
      // model: complete numbers only, and full rows only
      bool ok = true, blank = false; V v; std::vector<long> rows; { std::istringstream is(t); std::string l; while(std::getline(is, l)) { std::istringstream ls(l); std::string w; long c = 0; while(ls >> w) { ++c; T x{}; bool whole = whole_number(w, x); if(!whole) ok = false; else v.push_back(x); } if(c) rows.push_back(c); else if(!l.empty() && !rows.empty()) blank = true; } }
      bool rect = true; for(long c : rows) rect = rect && c == rows[0];
      const V old = {T(1), T(0), T(1)};
      { auto a = mk1<T, Unaligned>(old); bool th = throws([&] { std::istringstream is(t); is >> a; }); mc::step(); if(ok ? th || !bitsv(elems(a), v) : !th || !bitsv(elems(a), old)) bad("torn 1d", "a prefix", qt(t) + (th ? " is rejected, the target is " : " is accepted, the target is ") + str(elems(a))); }
      if(!blank) { M om; om.r = 1; om.c = 3; om.v = old; auto a = mk2<T, Unaligned>(om); bool th = throws([&] { std::istringstream is(t); is >> a; }); mc::step(); M g = elems2(a);
        if(ok && rect ? th || g.r != (long)rows.size() || !bitsv(g.v, v) : !th || g.r != 1 || !bitsv(g.v, old)) bad("torn 2d", "a prefix", qt(t) + (th ? " is rejected, the target is " : " is accepted, the target is ") + str(g)); }
      if constexpr(!std::is_same_v<T, float128>) {
         { FailBuf b(s, k); std::istream is(&b); auto a = mk1<T, Unaligned>(old); bool th = throws([&] { is >> a; }); mc::step(); if(!th || !bitsv(elems(a), old)) bad("failing device 1d", "a device that fails", std::to_string(k) + " characters into " + qt(s) + (th ? " changed the target" : " is accepted")); }
         { FailBuf b(s, k); std::istream is(&b); M om; om.r = 1; om.c = 3; om.v = old; auto a = mk2<T, Unaligned>(om); bool th = throws([&] { is >> a; }); mc::step(); if(!th || elems2(a).r != 1 || !bitsv(elems2(a).v, old)) bad("failing device 2d", "a device that fails", std::to_string(k) + " characters into " + qt(s) + (th ? " changed the target" : " is accepted")); }
      }
      done(t + std::to_string(k));
   }
   else mc::step();
}
UNIT("allocation failures while reading") {
   if constexpr(!std::is_same_v<T, bool>) for(auto& s : printed()) for(int two = 0; two < 2; ++two) for(long k = 0;; ++k) {
      mc::at("reading %s, allocation %ld fails", qt(s).c_str(), k);
      std::istringstream is(s); const V old = {T(1), T(0), T(1)}; M om; om.r = 1; om.c = 3; om.v = old;
      auto a = mk1<T, Unaligned>(old); auto b = mk2<T, Unaligned>(om);
      bool failed = false; mc::injected = false; mc::fail_at = k; mc::inject = true;
      try { if(two) is >> b; else is >> a; } catch(const std::exception&) { failed = true; }
      mc::inject = false; mc::step();
      if(failed && (!bitsv(elems(a), old) || elems2(b).r != 1 || !bitsv(elems2(b).v, old))) bad("allocation failure", "a failed reading", "changed the target");
      if(mc::injected && !failed) { // the stream may have swallowed the failure only if everything was read
         bool same_ = false; { Array1D<T> a2; Array2D<T> b2; std::istringstream i2(s); if(two) { i2 >> b2; same_ = bitsv(elems2(b2).v, elems2(b).v); } else { i2 >> a2; same_ = bitsv(elems(a2), elems(a)); } }
         if(!same_) bad("allocation failure", "a failed reading", "is accepted as " + std::string(two ? str(elems2(b)) : str(elems(a))));
      }
      done(s + std::to_string(k));
      if(!mc::injected) break;
      if(k > 500) { mc::fail("allocation failure loop", "no end"); break; }
   }
   else mc::step();
}
#endif
}  // namespace
