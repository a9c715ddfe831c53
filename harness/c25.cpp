// C25: the format objects decide the printed text.  Explicit state exploration of the settings: every history of setting
// calls up to a depth is executed, the model is the tuple of settings, and after every call the text of
// scalars of every floating type, of arrays and of print functions is compared with the C library's
// rendering under the modelled settings.
#include "lib.hpp"
#include <iomanip>
#include <regex>
#include <sstream>

namespace {
template <class T> using SL = spp::Strict<T>;
struct Fm { bool sci = true; long p[4] = {std::numeric_limits<float>::digits10 + 1, std::numeric_limits<double>::digits10 + 1, std::numeric_limits<long double>::digits10 + 1, 33}; bool operator==(const Fm&) const = default; };
std::string show(const Fm& f) { return std::string(f.sci ? "scientific" : "fixed") + " " + std::to_string(f.p[0]) + "/" + std::to_string(f.p[1]) + "/" + std::to_string(f.p[2]) + "/" + std::to_string(f.p[3]); }
template <class A> std::string text(const A& a) { std::ostringstream o; o << a; return o.str(); }
// reference rendering
template <class T> std::string ref(const Fm& f, T x) {
   static char b[16384];
   if constexpr(std::is_same_v<T, bool>) return x ? "true" : "false";
   else if constexpr(std::is_integral_v<T>) return (std::is_signed_v<T> && x >= T(0) ? "+" : "") + std::to_string(x);
   else if constexpr(std::is_same_v<T, float128>) { quadmath_snprintf(b, sizeof b, f.sci ? "%+#.*QE" : "%+#.*QF", (int)f.p[3], x); return b; }
   else if constexpr(std::is_same_v<T, long double>) { std::snprintf(b, sizeof b, f.sci ? "%+#.*Le" : "%+#.*Lf", (int)f.p[2], x); return b; }
   else { std::snprintf(b, sizeof b, f.sci ? "%+#.*e" : "%+#.*f", (int)f.p[std::is_same_v<T, float> ? 0 : 1], (double)x); return b; }
}
std::vector<std::string> words(const std::string& s) { std::istringstream i(s); std::vector<std::string> r; std::string w; while(i >> w) r.push_back(w); return r; }
std::string join(const std::vector<std::string>& v) { std::string r; for(auto& x : v) r += (r.empty() ? "" : " ") + x; return r; }
std::string norm(const std::string& s) { return join(words(s)); }
bool same_text(const std::string& got, const std::string& want) {   // letter case of the exponent is not part of the property
   std::string a = norm(got), b = norm(want); for(auto* s : {&a, &b}) for(char& c : *s) c = (char)std::tolower(c); return a == b;
}
std::string q(const std::string& s) { return mc::json(s); }
template <class T> std::vector<T> vals() {
   if constexpr(std::is_same_v<T, bool>) return {true, false};
   else if constexpr(std::is_integral_v<T>) return {T(0), T(7), std::numeric_limits<T>::max(), std::numeric_limits<T>::min()};
   else { std::vector<T> v{T(0), -T(0), T(1) / 3, T(-12345678.75), T(9.5), T(1e-30), T(-2) / T(1e9f)}; if constexpr(!std::is_same_v<T, float>) { v.push_back(T(1e200)); v.push_back(T(-1e-200)); } if constexpr(std::is_same_v<T, float128>) v.push_back(T(1e300) * T(1e300) * T(1e300)); return v; }
}
template <class T> void scalars(const Fm& m, const std::string& h, bool brief) {
   for(T x : vals<T>()) {
      const std::string s = text(SL<T>(x)), r = ref(m, x); mc::step();
      if(!same_text(s, r)) mc::fail(std::string("scalar:") + tname<T>(), "after %s (%s) a scalar prints as %s instead of %s", h.c_str(), show(m).c_str(), q(s).c_str(), q(r).c_str());
      if(brief) break;
   }
}
template <class T> void queries(const Fm& m, const std::string& h, int k) {
   const long g = spp::format.precision<T>().val(); if(g != m.p[k]) mc::fail(std::string("query:") + tname<T>(), "after %s (%s) precision<> reports %ld", h.c_str(), show(m).c_str(), g);
}
void observe(const Fm& m, const std::string& h, bool full) {
   mc::at("format.%s", h.c_str());
   scalars<float>(m, h, !full); scalars<double>(m, h, !full); scalars<long double>(m, h, !full); scalars<float128>(m, h, !full);
   queries<float>(m, h, 0); queries<double>(m, h, 1); queries<long double>(m, h, 2); queries<float128>(m, h, 3);
   if(bool(spp::format.is_scientific()) != m.sci) mc::fail("query:is_scientific", "after %s (%s) is_scientific reports %d", h.c_str(), show(m).c_str(), !m.sci);
   mc::state(std::hash<std::string>{}(show(m))); mc::trace();
}
template <class T> void array_text(const Fm& m, const std::string& h) {
   auto v = vals<T>(); spp::Array1D<T> a((long)v.size()); std::string want; for(std::size_t i = 0; i < v.size(); ++i) { a.un((long)i) = SL<T>(T(v[i])); want += ref(m, T(v[i])) + "\n"; }
   std::string s = text(a); mc::step(); if(!same_text(s, want)) mc::fail(std::string("array:") + tname<T>(), "after %s (%s) an array prints as %s instead of %s", h.c_str(), show(m).c_str(), q(s).c_str(), q(want).c_str());
   s = text(a.view2D(1, (long)v.size())); mc::step(); if(!same_text(s, want)) mc::fail(std::string("array2D:") + tname<T>(), "after %s (%s) a two-dimensional view prints as %s instead of %s", h.c_str(), show(m).c_str(), q(s).c_str(), q(want).c_str());
}
struct Op { std::string name; std::function<void()> real; std::function<void(Fm&)> model; bool rejects = false; };
std::vector<Op> ops(bool big) {
   std::vector<Op> r; using spp::format;
   r.push_back({"reset()", [] { format.reset(); }, [](Fm& m) { m = Fm{}; }});
   for(bool b : {true, false}) r.push_back({std::string("scientific(") + (b ? "true)" : "false)"), [b] { format.scientific(b); }, [b](Fm& m) { m.sci = b; }});
   for(long n : big ? std::vector<long>{0, 1, 4, 40, 150} : std::vector<long>{0, 3, 150}) {
      const std::string s = "(" + std::to_string(n) + ")";
      r.push_back({"precision" + s, [n] { format.precision(n); }, [n](Fm& m) { for(long& p : m.p) p = n; }});
      r.push_back({"precision_float" + s, [n] { format.precision_float(n); }, [n](Fm& m) { m.p[0] = n; }});
      r.push_back({"precision_double" + s, [n] { format.precision_double(n); }, [n](Fm& m) { m.p[1] = n; }});
      r.push_back({"precision_long_double" + s, [n] { format.precision_long_double(n); }, [n](Fm& m) { m.p[2] = n; }});
      r.push_back({"precision_quad" + s, [n] { format.precision_quad(n); }, [n](Fm& m) { m.p[3] = n; }});
   }
   r.push_back({"precision(5).scientific(false)", [] { format.precision(5).scientific(false); }, [](Fm& m) { for(long& p : m.p) p = 5; m.sci = false; }});
   r.push_back({"precision_float(2).precision_quad(3).scientific(true)", [] { format.precision_float(2).precision_quad(3).scientific(true); }, [](Fm& m) { m.p[0] = 2; m.p[3] = 3; m.sci = true; }});
   r.push_back({"reset().precision_double(9)", [] { format.reset().precision_double(9); }, [](Fm& m) { m = Fm{}; m.p[1] = 9; }});
   r.push_back({"save, change everything, restore", [] { auto keep = format; format.precision(12).scientific(!keep.is_scientific()); format = keep; }, [](Fm&) {}});
   r.push_back({"precision(-1)", [] { format.precision(-1); }, [](Fm&) {}, true});
   r.push_back({"precision_quad(-3)", [] { format.precision_quad(-3); }, [](Fm&) {}, true});
   return r;
}
void dfs(const std::vector<Op>& o, Fm m, const std::string& h, int depth, decltype(spp::format) real) {
   for(auto& x : o) {
      spp::format = real; Fm n = m; const std::string g = h.empty() ? x.name : h + ", " + x.name; mc::at("format.%s", g.c_str());
      const bool t = throws([&] { x.real(); }); x.model(n); mc::step();
      if(t != x.rejects) mc::fail("rejection", "%s is %s", g.c_str(), t ? "rejected" : "accepted");
      const auto now = spp::format; observe(n, g, depth == 1 || !mc::thorough);
      if(depth > 1) dfs(o, n, g, depth - 1, now);
      spp::format = now;
   }
}
struct Restore { ~Restore() { spp::format.reset(); spp::array_format.reset(); } };
UNIT("every history of format settings, length 2") { Restore r; spp::format.reset(); observe(Fm{}, "(nothing)", true); dfs(ops(true), Fm{}, "", 2, spp::format); }
UNIT("every history of format settings, length 3") { Restore r; spp::format.reset(); if(mc::thorough) dfs(ops(true), Fm{}, "", 3, spp::format); else { auto o = ops(false); for(std::size_t i = 0; i < o.size(); ++i) for(std::size_t j = 0; j < o.size(); ++j) for(std::size_t k = 0; k < o.size(); ++k) { spp::format.reset(); Fm m; std::string h; for(auto x : {i, j, k}) { const bool t = throws([&] { o[x].real(); }); if(t != o[x].rejects) mc::fail("rejection", "%s is %s", o[x].name.c_str(), t ? "rejected" : "accepted"); o[x].model(m); h += (h.empty() ? "" : ", ") + o[x].name; } observe(m, h, false); } } }
UNIT("every state: all values and arrays") {
   Restore r; const std::vector<long> P = mc::thorough ? std::vector<long>{0, 1, 2, 6, 17, 40, 119, 120, 121, 127, 128, 129, 400} : std::vector<long>{0, 2, 17, 40, 121, 150};
   for(bool sci : {true, false}) for(long a : P) for(long b : P) { 
      Fm m; m.sci = sci; m.p[0] = a; m.p[1] = b; m.p[2] = a; m.p[3] = b; spp::format.scientific(sci).precision_float(a).precision_double(b).precision_long_double(a).precision_quad(b);
      observe(m, "state " + show(m), true); array_text<float>(m, "state"); array_text<double>(m, "state"); array_text<long double>(m, "state"); array_text<float128>(m, "state"); array_text<int>(m, "state"); array_text<unsigned long>(m, "state"); array_text<bool>(m, "state"); }
}
UNIT("the stream's own flags do not matter") {
   Restore r; using F = void (*)(std::ostream&);
   const std::vector<std::pair<const char*, F>> pre = {{"nothing", [](std::ostream&) {}}, {"fixed", [](std::ostream& o) { o << std::fixed; }}, {"scientific", [](std::ostream& o) { o << std::scientific; }}, {"hexfloat", [](std::ostream& o) { o << std::hexfloat; }}, {"defaultfloat", [](std::ostream& o) { o << std::defaultfloat; }}, {"noshowpos", [](std::ostream& o) { o << std::noshowpos; }}, {"noshowpoint", [](std::ostream& o) { o << std::noshowpoint; }}, {"precision(2)", [](std::ostream& o) { o << std::setprecision(2); }}, {"precision(60)", [](std::ostream& o) { o << std::setprecision(60); }}, {"boolalpha", [](std::ostream& o) { o << std::boolalpha; }},
      {"a printed float", [](std::ostream& o) { o << SL<float>(1.f); }}, {"a printed int", [](std::ostream& o) { o << SL<int>(3); }}, {"a printed quad", [](std::ostream& o) { o << SL<float128>(float128(1)); }}, {"a printed array", [](std::ostream& o) { o << spp::Array1D<double>(2); }}, {"a printed matrix", [](std::ostream& o) { o << spp::Array2D<long double>(1, 2); }}, {"a bool", [](std::ostream& o) { o << SL<bool>(true); }}};
   for(int st = 0; st < 4; ++st) { Fm m; m.sci = st & 1; if(st & 2) for(long& p : m.p) p = 7; spp::format.reset().scientific(m.sci); if(st & 2) spp::format.precision(7);
      for(auto& a : pre) for(auto& b : pre) {
         auto one = [&](auto x) { using T = decltype(x); std::ostringstream o; a.second(o); b.second(o); o.str(""); o << SL<T>(x); mc::at("%s, %s, then a %s", a.first, b.first, tname<T>()); mc::step(); if(!same_text(o.str(), ref(m, x))) mc::fail(std::string("stream flags:") + tname<T>(), "after %s and %s on the stream, under %s: %s instead of %s", a.first, b.first, show(m).c_str(), q(o.str()).c_str(), q(ref(m, x)).c_str()); };
         one(1.0f / 3); one(-1.0 / 3); one(1.0L / 3); one(float128(1) / 3); one(int(5)); one(long(-5)); one(5ul); one(true);
         mc::trace(); mc::state(std::hash<std::string>{}(std::string(a.first) + b.first)); } }
}
// ---- array layout: detailed() adds labels, row_style() joins a one-dimensional object on one line; nothing else changes
struct Lay { bool det = false, row = false; };
template <class T> std::vector<std::vector<std::string>> expect1(const Fm& m, const Lay& l, const std::vector<T>& v) {
   std::vector<std::vector<std::string>> r; if(l.det && v.empty()) r.push_back({"[]"});
   for(std::size_t i = 0; i < v.size(); ++i) { std::vector<std::string> w; if(l.det) { w.push_back("[" + std::to_string(i) + "]"); w.push_back("="); } w.push_back(ref(m, T(v[i]))); if(l.row && i) r.back().insert(r.back().end(), w.begin(), w.end()); else r.push_back(w); }
   return r;
}
template <class T> std::vector<std::vector<std::string>> expect2(const Fm& m, const Lay& l, long R, long C, const std::vector<T>& v) {
   std::vector<std::vector<std::string>> r; if(l.det && v.empty()) r.push_back({"[]"});
   for(long i = 0; i < R; ++i) { std::vector<std::string> w; for(long j = 0; j < C; ++j) { if(l.det) { w.push_back("[" + std::to_string(i) + ","); w.push_back(std::to_string(j) + "]"); w.push_back("="); } w.push_back(ref(m, T(v[i * C + j]))); } r.push_back(w); }
   return r;
}
std::vector<std::vector<std::string>> got_lines(const std::string& s) { std::vector<std::vector<std::string>> r; std::istringstream i(s); std::string l; while(std::getline(i, l)) { auto w = words(l); if(!w.empty()) r.push_back(w); } for(auto& l2 : r) for(auto& w : l2) for(char& c : w) c = (char)std::tolower(c); return r; }
std::string flat(const std::vector<std::vector<std::string>>& v) { std::string r; for(auto& x : v) r += join(x) + "\n"; return r; }
struct Cout { std::ostringstream o; std::streambuf* b; Cout() : b(std::cout.rdbuf(o.rdbuf())) {} ~Cout() { std::cout.rdbuf(b); } };
template <class F> std::string captured(F&& f) { Cout c; f(); return c.o.str(); }
template <class T> void layouts(const Fm& m, const Lay& l, const std::string& h) {
   auto d = vals<T>();
   auto cmp = [&](const char* w, const std::string& s, std::vector<std::vector<std::string>> e, const char* title) {
      for(auto& x : e) for(auto& y : x) for(char& c : y) c = (char)std::tolower(c);
      if(title) e.insert(e.begin(), {title});
      mc::step(); mc::state(std::hash<std::string>{}(s)); if(got_lines(s) != e) mc::fail(std::string("layout:") + w + ":" + tname<T>(), "after array_format.%s, format %s: %s prints %s instead of %s", h.c_str(), show(m).c_str(), w, q(s).c_str(), q(flat(e)).c_str());
   };
   for(long n : {0L, 1L, 2L, 3L, 11L}) {
      std::vector<T> v; spp::Array1D<T> a(n); for(long i = 0; i < n; ++i) { v.push_back(d[i % d.size()]); a.un(i) = SL<T>(T(v[i])); }
      auto e = expect1(m, l, v); mc::at("array_format.%s, size %ld", h.c_str(), n);
      cmp("operator<<", text(a), e, nullptr); cmp("print", captured([&] { spp::print(a, "t"); }), e, "t:"); cmp("printn", captured([&] { spp::printn(a); }), e, nullptr); cmp("expression", text(a(spp::place::all)), e, nullptr);
   }
   for(auto [R, C] : std::vector<std::pair<long, long>>{{0, 0}, {1, 1}, {1, 3}, {3, 1}, {2, 3}, {11, 2}, {2, 11}}) {
      std::vector<T> v; spp::Array2D<T> a(R, C); for(long i = 0; i < R * C; ++i) { v.push_back(d[i % d.size()]); a.un(i) = SL<T>(T(v[i])); }
      auto e = expect2(m, l, R, C, v); mc::at("array_format.%s, shape %ldx%ld", h.c_str(), R, C);
      cmp("operator<< 2D", text(a), e, nullptr); cmp("print 2D", captured([&] { spp::print(a, "t"); }), e, "t:"); cmp("slice 2D", text(a(spp::place::all, spp::place::all)), e, nullptr);
   }
}
UNIT("every history of array layouts") {
   Restore rs; using spp::array_format;
   struct L { std::string n; std::function<void()> f; std::function<void(Lay&)> g; };
   const std::vector<L> o = {{"detailed(true)", [] { array_format.detailed(true); }, [](Lay& l) { l.det = true; }}, {"detailed(false)", [] { array_format.detailed(false); }, [](Lay& l) { l.det = false; }}, {"row_style()", [] { array_format.row_style(); }, [](Lay& l) { l.row = true; }}, {"col_style()", [] { array_format.col_style(); }, [](Lay& l) { l.row = false; }}, {"reset()", [] { array_format.reset(); }, [](Lay& l) { l = {}; }}, {"row_style().detailed(true)", [] { array_format.row_style().detailed(true); }, [](Lay& l) { l.row = l.det = true; }}, {"save, change, restore", [] { auto k = array_format; array_format.reset().detailed(true).row_style(); array_format = k; }, [](Lay&) {}}};
   std::vector<std::size_t> ix;
   std::function<void(int)> go = [&](int d) {
      if(!ix.empty()) {
         array_format.reset(); Lay l; std::string h; for(auto i : ix) { o[i].f(); o[i].g(l); h += (h.empty() ? "" : ", ") + o[i].n; }
         for(int st = 0; st < (ix.size() == 1 || mc::thorough ? 4 : 1); ++st) { Fm m; m.sci = !(st & 1); if(st & 2) for(long& p : m.p) p = 2; spp::format.reset().scientific(m.sci); if(st & 2) spp::format.precision(2);
            layouts<double>(m, l, h); layouts<int>(m, l, h); if(ix.size() < 3) { layouts<bool>(m, l, h); layouts<unsigned long>(m, l, h); layouts<float128>(m, l, h); layouts<float>(m, l, h); layouts<long double>(m, l, h); } }
         spp::format.reset(); mc::trace();
      }
      if(d) for(std::size_t i = 0; i < o.size(); ++i) { ix.push_back(i); go(d - 1); ix.pop_back(); }
   };
   go(mc::thorough ? 4 : 3);
}
}  // namespace
