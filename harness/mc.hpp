// Small explicit-enumeration framework shared by every harness in /verif.
//
// A harness registers units (UNIT("name") { ... }).  Inside a unit it enumerates a bounded space
// exhaustively; for every execution it calls
//   mc::at(...)      describe the execution that is about to run (kept in a memory-mapped file, so
//                    that it survives a crash or a hang of the process),
//   mc::step()       one call of the real library was executed and compared with the model,
//   mc::state(h)     an observed (canonical) state / outcome, hashed; distinct ones are counted,
//   mc::trace()      one complete execution was compared with the reference model,
//   mc::fail(...)    the execution disagrees with the model.
// No randomness, no clock, no thread: one unit is one deterministic enumeration.
#pragma once

#include <fcntl.h>
#include <signal.h>
#include <sys/mman.h>
#include <sys/time.h>
#include <unistd.h>

#include <cmath>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <limits>
#include <map>
#include <new>
#include <string>
#include <type_traits>
#include <unordered_set>
#include <vector>

namespace mc {

struct Stop {};  // thrown to leave a unit after enough violations

inline char* cur = nullptr;  // memory-mapped description of the running execution
inline constexpr std::size_t cur_cap = 1u << 14;
inline std::uint64_t n_steps = 0, n_traces = 0, n_state_events = 0;
inline std::unordered_set<std::uint64_t> distinct;
inline constexpr std::size_t distinct_cap = 4'000'000;
inline std::vector<std::string> samples;
inline std::uint64_t next_sample = 1;
struct Viol { std::string key, what, trace; };
inline std::vector<Viol> viols;
inline std::unordered_set<std::string> viol_keys;
inline bool thorough = false;
inline std::string only;

inline void at(const char* fmt, ...) {
   va_list ap; va_start(ap, fmt);
   std::vsnprintf(cur, cur_cap, fmt, ap);
   va_end(ap);
}
inline void at_add(const char* fmt, ...) {
   std::size_t n = std::strlen(cur);
   if(n + 1 >= cur_cap) return;
   va_list ap; va_start(ap, fmt);
   std::vsnprintf(cur + n, cur_cap - n, fmt, ap);
   va_end(ap);
}
inline std::size_t at_mark() { return std::strlen(cur); }
inline void at_reset(std::size_t m) { cur[m] = 0; }

inline void step(std::uint64_t n = 1) { n_steps += n; }
inline std::uint64_t mix(std::uint64_t h, std::uint64_t v) {
   h ^= v + 0x9e3779b97f4a7c15ULL + (h << 6) + (h >> 2);
   h *= 0xff51afd7ed558ccdULL; h ^= h >> 32; return h;
}
inline long live_blocks = 0;      // blocks currently allocated (bookkeeping of mc itself excluded)
struct Unaccounted { long l = live_blocks; bool i; Unaccounted(); ~Unaccounted(); };
inline void state(std::uint64_t h) {
   Unaccounted u;
   ++n_state_events;
   if(distinct.size() < distinct_cap) distinct.insert(h);
}
// A result identified by what was computed: programs built in different configurations must agree on it.
inline std::map<std::string, std::uint64_t> digests;
inline void digest(const std::string& id, std::uint64_t h) {
   Unaccounted u;
   ++n_steps;
   auto& d = digests[id]; d = mix(d, h);
   std::uint64_t k = 17; for(char c : id) k = k * 31 + (unsigned char)c;
   state(mix(k, d));
}
inline void sample() {
   Unaccounted u;
   if(samples.size() < 12) samples.emplace_back(cur);
}
inline void trace() {
   ++n_traces;
   if(n_traces == next_sample) { sample(); next_sample *= 7; }
}
// key: identifies the violation (stable, used to match the known-findings file).
inline void fail(const std::string& key, const char* fmt, ...) {
   char buf[4096]; va_list ap; va_start(ap, fmt); std::vsnprintf(buf, sizeof buf, fmt, ap); va_end(ap);
   Unaccounted u;
   if(viol_keys.insert(key).second) viols.push_back({key, buf, cur});
   if(viols.size() >= 40) throw Stop{};
}

struct Unit { std::string name; std::function<void()> fn; bool deep = false; };  // deep: thorough tier only
inline std::vector<Unit>& units() { static std::vector<Unit> u; return u; }
struct Reg { Reg(std::string n, std::function<void()> f) { units().push_back({std::move(n), std::move(f)}); } };
#define MC_CAT2(a, b) a##b
#define MC_CAT(a, b) MC_CAT2(a, b)
#define UNIT(name) \
   static void MC_CAT(unit_, __LINE__)(); \
   static ::mc::Reg MC_CAT(reg_, __LINE__)(name, MC_CAT(unit_, __LINE__)); \
   static void MC_CAT(unit_, __LINE__)()

inline std::string json(const std::string& s) {
   std::string o = "\"";
   for(unsigned char c : s) {
      if(c == '"' || c == '\\') { o += '\\'; o += char(c); }
      else if(c < 32 || c > 126) { char b[8]; std::snprintf(b, sizeof b, "\\u%04x", c); o += b; }
      else o += char(c);
   }
   return o + "\"";
}

// ------------------------------------------------------------------ allocation seam
// Every allocation of the library goes through the global operator new, replaced here: it counts
// live blocks (leaks, double frees) and can make the k-th allocation fail.
inline bool inject = false;       // fault injection armed
inline Unaccounted::Unaccounted() : i(inject) { inject = false; }
inline Unaccounted::~Unaccounted() { live_blocks = l; inject = i; }
inline long fail_at = -1;         // countdown to the failing allocation
inline long allocs = 0;
inline std::size_t max_block = std::size_t{1} << 31;  // larger requests fail (as real memory would)
inline bool injected = false;     // the armed failure has been delivered
inline void* alloc(std::size_t n, std::size_t al) {
   ++allocs;
   if(inject) {
      if(fail_at-- == 0) { injected = true; throw std::bad_alloc{}; }
   }
   if(n > max_block) throw std::bad_alloc{};
   void* p;
   if(al <= alignof(std::max_align_t)) p = std::malloc(n ? n : 1);
   else { std::size_t m = (n + al - 1) / al * al; p = std::aligned_alloc(al, m ? m : al); }
   if(!p) throw std::bad_alloc{};
   ++live_blocks;
   return p;
}
inline void dealloc(void* p) noexcept {
   if(p) { --live_blocks; std::free(p); }
}

// No progress (no completed step) during 30 s of CPU time is a hang of the running execution.
inline std::uint64_t wd_last = 0;
inline int wd_idle = 0;
inline void watchdog(int) {
   if(n_steps + n_state_events + n_traces != wd_last) { wd_last = n_steps + n_state_events + n_traces; wd_idle = 0; return; }
   if(++wd_idle < 6) return;
   static const char msg[] = "HANG: the running execution does not terminate\n";
   (void)!::write(2, msg, sizeof msg - 1);
   ::_exit(76);
}
inline void start_watchdog() {
   struct sigaction sa{}; sa.sa_handler = watchdog; sa.sa_flags = SA_RESTART; ::sigaction(SIGPROF, &sa, nullptr);
   itimerval it{{5, 0}, {5, 0}}; ::setitimer(ITIMER_PROF, &it, nullptr);
}

inline int run_main(int argc, char** argv) {
   std::string unit, out, tr;
   bool list = false;
   for(int i = 1; i < argc; ++i) {
      std::string a = argv[i];
      if(a == "--list") list = true;
      else if(a == "--thorough") thorough = true;
      else if(a == "--unit" && i + 1 < argc) unit = argv[++i];
      else if(a == "--out" && i + 1 < argc) out = argv[++i];
      else if(a == "--trace" && i + 1 < argc) tr = argv[++i];
   }
   if(list) { for(auto& u : units()) if(!u.deep || thorough) std::printf("%s\n", u.name.c_str()); return 0; }
   int fd = -1;
   if(!tr.empty()) {
      fd = ::open(tr.c_str(), O_RDWR | O_CREAT | O_TRUNC, 0644);
      if(fd < 0 || ::ftruncate(fd, cur_cap) != 0) return 3;
      cur = static_cast<char*>(::mmap(nullptr, cur_cap, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0));
      if(cur == MAP_FAILED) return 3;
   } else cur = static_cast<char*>(std::calloc(1, cur_cap));
   bool found = false;
   for(auto& u : units()) if(u.name == unit) {
      found = true;
      start_watchdog();
      try { u.fn(); }
      catch(Stop&) {}
      catch(std::exception& e) { if(viols.size() < 40) { viols.push_back({"unexpected-exception", e.what(), cur}); } }
   }
   if(!found) return 4;
   std::string js = "{\"unit\":" + json(unit) + ",\"steps\":" + std::to_string(n_steps)
      + ",\"traces\":" + std::to_string(n_traces) + ",\"states\":" + std::to_string(distinct.size())
      + ",\"state_events\":" + std::to_string(n_state_events)
      + ",\"samples\":[";
   for(std::size_t i = 0; i < samples.size(); ++i) js += (i ? "," : "") + json(samples[i]);
   js += "],\"violations\":[";
   for(std::size_t i = 0; i < viols.size(); ++i)
      js += std::string(i ? "," : "") + "{\"key\":" + json(viols[i].key) + ",\"what\":" + json(viols[i].what)
         + ",\"trace\":" + json(viols[i].trace) + "}";
   js += "]";
   if(!digests.empty()) { js += ",\"digests\":{"; bool c = false; for(auto& [k, v] : digests) { js += (c ? "," : "") + json(k) + ":\"" + std::to_string(v) + "\""; c = true; } js += "}"; }
   js += "}\n";
   FILE* f = out.empty() ? stdout : std::fopen(out.c_str(), "w");
   if(!f) return 3;
   std::fputs(js.c_str(), f);
   if(f != stdout) std::fclose(f);
   // Leave without running destructors of objects that a violated invariant may have corrupted.
   std::fflush(nullptr);
   std::_Exit(0);
}

}  // namespace mc

#ifndef MC_NO_NEW
#if defined(__clang__) || defined(__GNUC__)
#pragma GCC diagnostic ignored "-Wmismatched-new-delete"
#endif
void* operator new(std::size_t n) { return mc::alloc(n, 0); }
void* operator new[](std::size_t n) { return mc::alloc(n, 0); }
void* operator new(std::size_t n, std::align_val_t a) { return mc::alloc(n, std::size_t(a)); }
void* operator new[](std::size_t n, std::align_val_t a) { return mc::alloc(n, std::size_t(a)); }
void* operator new(std::size_t n, const std::nothrow_t&) noexcept { try { return mc::alloc(n, 0); } catch(...) { return nullptr; } }
void* operator new[](std::size_t n, const std::nothrow_t&) noexcept { try { return mc::alloc(n, 0); } catch(...) { return nullptr; } }
void* operator new(std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return mc::alloc(n, std::size_t(a)); } catch(...) { return nullptr; } }
void* operator new[](std::size_t n, std::align_val_t a, const std::nothrow_t&) noexcept { try { return mc::alloc(n, std::size_t(a)); } catch(...) { return nullptr; } }
void operator delete(void* p) noexcept { mc::dealloc(p); }
void operator delete[](void* p) noexcept { mc::dealloc(p); }
void operator delete(void* p, std::size_t) noexcept { mc::dealloc(p); }
void operator delete[](void* p, std::size_t) noexcept { mc::dealloc(p); }
void operator delete(void* p, std::align_val_t) noexcept { mc::dealloc(p); }
void operator delete[](void* p, std::align_val_t) noexcept { mc::dealloc(p); }
void operator delete(void* p, std::size_t, std::align_val_t) noexcept { mc::dealloc(p); }
void operator delete[](void* p, std::size_t, std::align_val_t) noexcept { mc::dealloc(p); }
#endif

#ifndef MC_NO_MAIN
int main(int argc, char** argv) { return mc::run_main(argc, argv); }
#endif
