// Exploring a space of programs: each is decided by the compiler (on the current headers) and compared
// with a reference verdict.  Programs are compiled in batches, one per line, and the errors attributed
// to lines; every program whose verdict in the batch differs from the reference is compiled again on its
// own, and only that decides.  The includer defines kinds_text (what the programs are preceded by) and
// may change decl (what precedes the program's own text, and its number).
#pragma once
#include "mc.hpp"
#include <fcntl.h>
#include <fstream>
#include <map>
#include <set>
#include <sstream>
#include <sys/file.h>
#include <sys/stat.h>
#include <sys/wait.h>
using std::string;

struct Prog { string name, code; bool ok; string form; };
static string decl = "auto p";            // followed by the program's number
static string defines;                    // extra preprocessor lines
static string pch_tag;                    // names the combination
extern const char* kinds_text;
static string repo() { const char* r = std::getenv("VERIF_REPO"); return r ? r : "/repo"; }

// Precompiled headers are private to one run of the check (the parent process): the compiler does not
// notice that an included header has changed.
static string pch() {
   string h = "pre_" + std::to_string(getppid()) + pch_tag + ".hpp";
   int lock = open((h + ".lock").c_str(), O_CREAT | O_RDWR, 0644);
   flock(lock, LOCK_EX);
   struct stat st;
   if(stat((h + ".gch").c_str(), &st) != 0) {
      std::ofstream(h) << defines << kinds_text;
      string cmd = "LC_ALL=C g++ -std=gnu++20 -w -I" + repo() + " -x c++-header " + h + " -o " + h + ".gch.tmp >" + h + ".log 2>&1 && mv " + h + ".gch.tmp " + h + ".gch";
      if(std::system(cmd.c_str()) != 0) { std::fprintf(stderr, "error: precompiling the headers failed, see %s.log\n", h.c_str()); std::exit(3); }
   }
   flock(lock, LOCK_UN); close(lock);
   return h;
}

// Compiles the programs; returns the set of indices with an error attributed to them, and whether the
// compilation succeeded as a whole.
static bool compile(const std::vector<const Prog*>& ps, const string& tag, std::set<int>& bad, string* text = nullptr) {
   static std::map<string, string> headers;
   string& header = headers[pch_tag];
   if(header.empty()) header = pch();
   const string src = "prog_" + pch_tag + tag + ".cpp", err = src + ".err";
   {
      std::ofstream f(src);
      f << "#include \"" << header << "\"\n";
      int n = 0;
      for(auto p : ps) f << decl << n++ << p->code << "\n";
   }
   const string cmd = "LC_ALL=C g++ -std=gnu++20 -w -fsyntax-only -fmax-errors=0 -fno-diagnostics-show-caret -fdiagnostics-color=never -I" + repo() + " " + src + " 2>" + err;
   int rc = std::system(cmd.c_str());
   std::ifstream f(err);
   string line, all;
   int ctx = -1;
   auto own = [&](const string& l) { return l.compare(0, src.size() + 1, src + ":") == 0 ? std::atoi(l.c_str() + src.size() + 1) - 2 : -1; };
   bool internal = false;
   while(std::getline(f, line)) {
      if(text && all.size() < 4000) all += line + "\n";
      if(line.find("internal compiler error") != string::npos || line.find("Killed") != string::npos) internal = true;
      int o = own(line);
      if(line.find(" error: ") != string::npos || line.find(" fatal error: ") != string::npos) {
         if(o >= 0) bad.insert(o); else if(ctx >= 0) bad.insert(ctx);
         ctx = -1;
      } else if(o >= 0 && line.find("required from") != string::npos) ctx = o;                                   // innermost first
      else if(o >= 0 && ctx < 0 && line.find("in 'constexpr' expansion") != string::npos) ctx = o;              // outermost first
   }
   if(text) *text = all;
   unlink(src.c_str()); unlink(err.c_str());
   if(internal || !WIFEXITED(rc) || WEXITSTATUS(rc) > 1) { std::fprintf(stderr, "error: the compiler failed (%d)\n", rc); std::exit(3); }
   return rc == 0;
}

static std::vector<Prog> progs;
static std::map<string, std::pair<long, long>> forms;     // accepted / rejected per form
static int batch_no = 0;
static string unit_tag;

static void flush_all() {
   const std::size_t B = 500;
   for(std::size_t i = 0; i < progs.size(); i += B) {
      std::vector<const Prog*> ps;
      for(std::size_t j = i; j < std::min(progs.size(), i + B); ++j) ps.push_back(&progs[j]);
      std::set<int> bad;
      mc::at("batch of programs from \"%s\": %s", ps[0]->name.c_str(), ps[0]->code.c_str());
      compile(ps, unit_tag + std::to_string(batch_no++), bad);
      for(std::size_t j = 0; j < ps.size(); ++j) {
         const Prog& p = *ps[j];
         mc::at("%s: program \"%s%s\" must be %s", p.name.c_str(), decl.c_str(), p.code.c_str(), p.ok ? "accepted" : "rejected");
         bool acc = !bad.count((int)j);
         static std::map<string, int> confirmed;
         if(acc != p.ok && confirmed[p.form] < 2) {     // two confirmed violations of a form are enough
            if(std::getenv("C14_DEBUG")) std::fprintf(stderr, "single: %s %s\n", p.name.c_str(), p.code.c_str());
            std::set<int> b1; string text;
            acc = compile({&p}, unit_tag + "x", b1, &text);
            if(acc != p.ok) {
               ++confirmed[p.form];
               std::fprintf(stderr, "%s\n%s\n", p.code.c_str(), text.c_str());
               mc::fail((p.form + (p.ok ? ".rejected" : ".accepted")).c_str(), "%s: the program \"%s%s\" is %s by the compiler and must be %s", p.name.c_str(), decl.c_str(), p.code.c_str(), acc ? "accepted" : "rejected", p.ok ? "accepted" : "rejected");
               if(confirmed.size() > 12) throw mc::Stop{};
            }
         }
         mc::step(); mc::trace();
         if(acc) forms[p.form].first++; else forms[p.form].second++;
         mc::state(std::hash<string>{}(p.name) * 2 + acc);
         mc::sample();
      }
   }
   progs.clear();
}
// A form no instance of which is ever accepted says nothing about mixing types (it may be misspelt).
static void close_forms() {
   flush_all();
   for(auto& [f, n] : forms)
      if(n.first == 0) mc::fail((f + ".never").c_str(), "form %s: none of its %ld programs is accepted, the same-type program included", f.c_str(), n.second);
   forms.clear();
}

