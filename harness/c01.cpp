// C01: every operation sequence over two live dynamic 1D arrays against std::vector.
#include "lib.hpp"
#include <numeric>

namespace {
struct Op { int kind; long p, q; };

template <class T, AlignmentFlag AF> struct W {
   using A1 = Array1D<T, AF>;
   A1 A, B;
   std::vector<T> a, b;
   long fresh = 1;
   long nf() { long k = fresh++; return k % 9 + 1; }
   bool small(long n) const { return n <= 7; }

   static constexpr bool real = !std::is_same_v<T, bool>;
   static constexpr bool integer = std::is_integral_v<T> && real;

   // Executes one operation on the real objects and the model; false when not applicable here.
   bool apply(const Op& o) {
      const long n = (long)a.size(), m = (long)b.size(), p = o.p, q = o.q;
      auto ins = [&](long pos, const std::vector<T>& v) { a.insert(a.begin() + pos, v.begin(), v.end()); };
      switch(o.kind) {
      case 0: { long k = nf(); A = SL<T>(k); std::fill(a.begin(), a.end(), lab<T>(k)); return true; }
      case 1: {  // list assignment, same size only
         long k = fresh; std::vector<T> v;
         if(n > 3) return false;
         for(long i = 0; i < n; ++i) v.push_back(lab<T>(nf()));
         switch(n) { case 0: A = use::List1D<Strict<T>>{}; break; case 1: A = {S<T>(v[0])}; break;
            case 2: A = {S<T>(v[0]), S<T>(v[1])}; break; case 3: A = {S<T>(v[0]), S<T>(v[1]), S<T>(v[2])}; break; }
         (void)k; a = v; return true; }
      case 2: if(n != m) return false; A = B; a = b; return true;
      case 3: if(n != m) return false; A = std::move(B); a = b; b.clear(); return true;
      case 4: { auto& r = A; A = r; return true; }
      case 5: { auto& r = A; A = std::move(r); return true; }
      case 6: A.swap(B); std::swap(a, b); return true;
      case 7: { A1 C(std::move(A)); A.swap(B); B.swap(C); std::swap(a, b); return true; }
      case 8: { long k = nf(); A.swap(A1(p, SL<T>(k))); a.assign(p, lab<T>(k)); return true; }
      case 9: { A.resize(p); long k = nf(); std::size_t old = a.size(); a.resize(p);
         // new elements are unspecified until written: the model writes them
         for(std::size_t i = old; i < a.size(); ++i) { A[(long)i] = SL<T>(k + (long)i); a[i] = lab<T>(k + (long)i); } return true; }
      case 10: { bool same_n = p == n; A.resize(p, false); if(A.size().val() != p) return true;
         if(!same_n) { long k = nf(); for(long i = 0; i < p; ++i) A[i] = SL<T>(k + i); a.clear(); for(long i = 0; i < p; ++i) a.push_back(lab<T>(k + i)); } return true; }
      case 11: A.resize_and_assign(B); a = b; return true;
      case 12: A.resize_and_assign(std::move(B)); a = b; b.clear(); return true;
      case 13: A.resize_and_assign(A); return true;
      case 14: { auto& r = A; A.resize_and_assign(std::move(r)); return true; }
      case 15: { A.resize_and_assign(A(place::reverse)); std::reverse(a.begin(), a.end()); return true; }
      case 16: A.resize_and_assign(A1(p, SL<T>(3))); a.assign(p, lab<T>(3)); return true;
      // removal
      case 20: if(p >= n || q < 1 || p + q > n) return false; A.remove(p, q); a.erase(a.begin() + p, a.begin() + p + q); return true;
      case 21: if(p >= n || q < 1 || p + q > n) return false; A.remove(Pos{p}, Count{q}); a.erase(a.begin() + p, a.begin() + p + q); return true;
      case 22: if(p >= n) return false; A.remove(p); a.erase(a.begin() + p); return true;
      case 23: if(p >= n) return false; A.remove(Pos{p}); a.erase(a.begin() + p); return true;
      case 24: if(p < 1 || p > n) return false; if(q) A.remove_front(Count{p}); else A.remove_front(p); a.erase(a.begin(), a.begin() + p); return true;
      case 25: if(p < 1 || p > n) return false; if(q) A.remove_back(Count{p}); else A.remove_back(p); a.erase(a.end() - p, a.end()); return true;
      case 26: if(n < 1) return false; A.remove_front(); a.erase(a.begin()); return true;
      case 27: if(n < 1) return false; A.remove_back(); a.pop_back(); return true;
      case 28: if(p >= n) return false; if(p == 0) A.remove(last); else A.remove(last - p); a.erase(a.end() - 1 - p); return true;
      case 29: {  // p = subset mask
         if(p >= (1L << n)) return false; std::vector<ImplicitInt> idx; std::vector<T> r;
         for(long i = 0; i < n; ++i) if(p >> i & 1) idx.push_back(i); else r.push_back(a[i]);
         A.remove(idx); a = r; return true; }
      // insertion
      case 30: { if(p > n || !small(n + 1)) return false; long k = nf(); A.insert(p, SL<T>(k)); a.insert(a.begin() + p, lab<T>(k)); return true; }
      case 31: { if(p > n || !small(n + 1)) return false; long k = nf(); A.insert(Pos{p}, Value{SL<T>(k)}); a.insert(a.begin() + p, lab<T>(k)); return true; }
      case 32: { if(!small(n + 1)) return false; long k = nf(); if(q) A.insert_front(Value{SL<T>(k)}); else A.insert_front(SL<T>(k)); a.insert(a.begin(), lab<T>(k)); return true; }
      case 33: { if(!small(n + 1)) return false; long k = nf(); if(q) A.insert_back(Value{SL<T>(k)}); else A.insert_back(SL<T>(k)); a.push_back(lab<T>(k)); return true; }
      case 34: if(p > n || !small(n + m)) return false; if(q) A.insert(Pos{p}, B); else A.insert(p, B); ins(p, b); return true;
      case 35: if(!small(n + m)) return false; A.insert_front(B); ins(0, b); return true;
      case 36: if(!small(n + m)) return false; A.insert_back(B); ins(n, b); return true;
      case 37: { if(p > n || !small(n + n)) return false; A.insert(p, A); auto c = a; ins(p, c); return true; }
      case 38: { if(p > n || !small(n + n)) return false; A.insert(p, A(place::reverse)); auto c = a; std::reverse(c.begin(), c.end()); ins(p, c); return true; }
      case 39: { if(p > n || !small(n + 2)) return false; long k = nf(); A.insert(p, const1D<T>(2, SL<T>(k))); ins(p, {lab<T>(k), lab<T>(k)}); return true; }
      // element writes and construction
      case 50: { if(p >= n) return false; long k = nf(); A[p] = SL<T>(k); a[p] = lab<T>(k); return true; }
      case 51: { if(p >= n) return false; long k = nf(); if(p == 0) A[last] = SL<T>(k); else A[last - p] = SL<T>(k); a[n - 1 - p] = lab<T>(k); return true; }
      case 52: { A1 C(A); C.swap(A); C = SL<T>(0); return true; }            // deep copy
      case 53: { A1 C(std::move(A)); bool e = A.empty().val() && A.size().val() == 0 && A.data() == nullptr; A.resize_and_assign(C); if(!e) a.push_back(lab<T>(9)); return true; }
      case 54: { A1 C(A.begin(), A.end()); A.swap(C); return true; }
      case 55: { A1 C = A.eval(); A.swap(C); return true; }
      case 56: { auto sl = A(place::reverse); A1 C(sl.begin(), sl.end()); A1 D(C.rbegin(), C.rend()); if(!(D == A).val()) return a.push_back(lab<T>(1)), true; A.swap(C); std::reverse(a.begin(), a.end()); return true; }
      case 57: { Array1D<T, AF == Aligned ? Unaligned : Aligned> C(A); C.swap(Array1D<T, AF == Aligned ? Unaligned : Aligned>(B)); A.resize_and_assign(C); a = b; return true; }
      case 58: { A1 C(A(place::reverse)); A = C; std::reverse(a.begin(), a.end()); return true; }
      case 59: { B = A1(m, SL<T>(5)); b.assign(m, lab<T>(5)); return true; }
      case 60: { B.resize_and_assign(A); b = a; return true; }
      case 62: { if(n > 3) return false; A1 C(0);  
                 switch(n) { case 0: { A1 D(use::List1D<Strict<T>>{}); C.swap(D); break; } case 1: { A1 D{S<T>(a[0])}; C.swap(D); break; }
                   case 2: { A1 D{S<T>(a[0]), S<T>(a[1])}; C.swap(D); break; } case 3: { A1 D{S<T>(a[0]), S<T>(a[1]), S<T>(a[2])}; C.swap(D); break; } }
                 A = std::move(C); return true; }
      case 63: { A1 C(Size{n}, Value{SL<T>(4)}); A1 D(Size{n}); D = SL<T>(4); A = D; a.assign(n, lab<T>(4)); if(!(A == C).val()) a.push_back(lab<T>(1)); return true; }
      }
      if constexpr(real) switch(o.kind) {
      case 70: A += SL<T>(p); for(auto& x : a) x += lab<T>(p); return true;
      case 71: if(std::is_unsigned_v<T>) return false; A -= SL<T>(p); for(auto& x : a) x -= lab<T>(p); return true;
      case 72: A *= SL<T>(p); for(auto& x : a) x *= lab<T>(p); return true;
      case 73: if(p == 0) return false; A /= SL<T>(p); for(auto& x : a) x /= lab<T>(p); return true;
      case 80: if(n != m) return false; A += B; for(long i = 0; i < n; ++i) a[i] += b[i]; return true;
      case 81: if(n != m || std::is_unsigned_v<T>) return false; A -= B; for(long i = 0; i < n; ++i) a[i] -= b[i]; return true;
      case 82: if(n != m) return false; A *= B; for(long i = 0; i < n; ++i) a[i] *= b[i]; return true;
      case 83: if(n != m) return false; if(integer) for(auto x : b) if(x == 0) return false; A /= B; for(long i = 0; i < n; ++i) a[i] /= b[i]; return true;
      case 84: A += A; for(auto& x : a) x += x; return true;
      case 85: A *= A; for(auto& x : a) x *= x; return true;
      }
      if constexpr(integer) switch(o.kind) {
      case 74: if(p == 0) return false; A %= SL<T>(p); for(auto& x : a) x %= lab<T>(p); return true;
      case 75: for(auto& x : a) if(x < 0 || x > 100000) return false; A <<= SL<T>(p); for(auto& x : a) x <<= p; return true;
      case 76: for(auto& x : a) if(x < 0) return false; A >>= SL<T>(p); for(auto& x : a) x >>= p; return true;
      case 77: A &= SL<T>(p); for(auto& x : a) x &= lab<T>(p); return true;
      case 78: A |= SL<T>(p); for(auto& x : a) x |= lab<T>(p); return true;
      case 79: A ^= SL<T>(p); for(auto& x : a) x ^= lab<T>(p); return true;
      case 86: if(n != m) return false; for(auto x : b) if(x == 0) return false; A %= B; for(long i = 0; i < n; ++i) a[i] %= b[i]; return true;
      case 87: if(n != m) return false; for(long i = 0; i < n; ++i) if(a[i] < 0 || a[i] > 1000 || b[i] < 0 || b[i] > 12) return false; A <<= B; for(long i = 0; i < n; ++i) a[i] <<= b[i]; return true;
      case 88: if(n != m) return false; for(long i = 0; i < n; ++i) if(a[i] < 0 || b[i] < 0 || b[i] > 12) return false; A >>= B; for(long i = 0; i < n; ++i) a[i] >>= b[i]; return true;
      case 89: if(n != m) return false; A &= B; for(long i = 0; i < n; ++i) a[i] &= b[i]; return true;
      case 90: if(n != m) return false; A |= B; for(long i = 0; i < n; ++i) a[i] |= b[i]; return true;
      case 91: if(n != m) return false; A ^= B; for(long i = 0; i < n; ++i) a[i] ^= b[i]; return true;
      }
      return false;
   }
   bool big() const { for(auto x : a) if(!(x < lab<T>(2000) || std::is_same_v<T, bool>)) return true; return false; }
   static bool obs(const A1& X, const std::vector<T>& x) {
      if(!agree1(X, x)) return false;
      const Strict<T>* d = X.data();
      if(x.empty()) { if(d != nullptr) return false; }
      else {
         if(d == nullptr) return false;
         if(AF == Aligned && reinterpret_cast<std::uintptr_t>(d) % 64) return false;
         for(std::size_t i = 0; i < x.size(); ++i) if(!same(d[i].val(), T(x[i]))) return false;
         if(&X.un(0) != d) return false;
      }
      if(X.bytes().val() != long(x.size() * sizeof(T))) return false;
      if(X.size_m1().val() != (long)x.size() - 1) return false;
      return true;
   }
   bool check() const {
      if(!obs(A, a) || !obs(B, b)) return false;
      if(!a.empty() && !b.empty() && A.data() == B.data()) return false;
      return (A == B).val() == samev(a, b);
   }
};

std::vector<Op> alphabet(int level) {
   std::vector<Op> v;
   auto add = [&](int k, std::vector<long> P = {0}, std::vector<long> Q = {0}) { for(long p : P) for(long q : Q) v.push_back({k, p, q}); };
   const std::vector<long> pos = level ? std::vector<long>{0, 1, 2, 3, 4} : std::vector<long>{0, 1, 2};
   add(0); add(1); add(2); add(3); add(4); add(5); add(6); add(7); add(8, {0, 2, 3});
   add(9, {0, 1, 2, 3, 5}); add(10, {0, 2, 4}); add(11); add(12); add(13); add(14); add(15); add(16, {0, 3});
   add(20, pos, level ? std::vector<long>{1, 2, 3, 4} : std::vector<long>{1, 2, 3}); add(22, pos); add(24, {1, 2, 3}); add(25, {1, 2, 3}); add(26); add(27); add(28, {0, 1, 2});
   if(level) { add(21, pos, {1, 2, 3}); add(23, pos); add(24, {1, 2}, {1}); add(25, {1, 2}, {1}); for(long m = 0; m < 32; ++m) add(29, {m}); }
   else add(29, {0, 1, 2, 3, 5, 6, 7});
   add(30, pos); add(32); add(33); add(34, pos); add(35); add(36); add(37, {0, 1, 2}); add(38, {0, 1}); add(39, {0, 2});
   if(level) { add(31, pos); add(32, {0}, {1}); add(33, {0}, {1}); add(34, pos, {1}); }
   add(50, {0, 1}); add(51, {0, 1}); add(52); add(53); add(54); add(55); add(56); add(57); add(58); add(59); add(60); add(62); add(63);
   if(level) { add(70, {3}); add(71, {1}); add(72, {2}); add(73, {0, 2}); add(74, {3}); add(75, {1}); add(76, {1}); add(77, {6}); add(78, {5}); add(79, {3});
      for(int k = 80; k <= 91; ++k) add(k); }
   else { add(70, {3}); add(80); add(84); }
   return v;
}
std::string show(const Op& o) { return "op" + std::to_string(o.kind) + "(" + std::to_string(o.p) + "," + std::to_string(o.q) + ")"; }

// Exhaustive: every sequence of exactly `depth` operations (with all prefixes checked once).
template <class T, AlignmentFlag AF> void explore(int level, int depth, int part, int parts) {
   auto ops = alphabet(level);
   const std::vector<std::pair<int, int>> inits = level ? std::vector<std::pair<int, int>>{{0, 0}, {1, 1}, {2, 1}, {2, 2}, {3, 2}, {3, 3}, {4, 2}, {5, 0}, {0, 2}}
                                                        : std::vector<std::pair<int, int>>{{0, 2}, {2, 2}, {3, 1}};
   std::vector<int> seq(depth);
   for(auto [n0, m0] : inits) {
      auto run = [&](int d) -> int {  // returns index of first inapplicable op, or d
         bool viol = false;
         const long base = mc::live_blocks;
         int r = d;
         {
            W<T, AF> w;
            w.a = iota<T>(n0, 1); w.b = iota<T>(m0, 11);
            w.A.resize_and_assign(mk1<T, AF>(w.a)); w.B.resize_and_assign(mk1<T, AF>(w.b));
            mc::at("%s/%s A=%d B=%d:", tname<T>(), AF == Aligned ? "aligned" : "unaligned", n0, m0);
            for(int i = 0; i < d; ++i) {
               if(w.big()) { r = i; break; }
               mc::at_add(" op%d(%ld,%ld)", ops[seq[i]].kind, ops[seq[i]].p, ops[seq[i]].q);
               bool ok;
               try { ok = w.apply(ops[seq[i]]); }
               catch(const StrictException& e) { mc::fail("1d-seq-throws:" + show(ops[seq[i]]), "valid operation was rejected: %s", e.what()); viol = true; r = i; break; }
               if(!ok) { r = i; break; }
               mc::step();
               if(i == d - 1 && !w.check()) {
                  mc::fail("1d-seq:" + std::string(tname<T>()) + (AF == Aligned ? "/al:" : "/un:") + show(ops[seq[i]]),
                           "expected A=%s B=%s, got A=%s B=%s", str(w.a).c_str(), str(w.b).c_str(), str(elems(w.A)).c_str(), str(elems(w.B)).c_str());
                  viol = true; r = i; break;
               }
            }
            if(r == d) { mc::state(hash_(w.b, hash_(w.a))); mc::trace(); }
         }
         if(mc::live_blocks != base && !viol) mc::fail("1d-leak", "%ld blocks alive after all arrays died", mc::live_blocks - base);
         return r;
      };
      std::function<void(int)> rec = [&](int d) {
         for(int o = 0; o < (int)ops.size(); ++o) {
            if(d == 0 && o % parts != part) continue;
            seq[d] = o;
            if(run(d + 1) <= d) continue;   // not applicable or violated
            if(d + 1 < depth) rec(d + 1);
         }
      };
      rec(0);
   }
}

// Long arrays: one edit at every boundary position, all sizes in a list (block/threshold effects).
template <class T, AlignmentFlag AF> void large(std::vector<long> sizes) {
   for(long n : sizes) {
      std::vector<long> pos{0, 1, n / 2, n - 1, n, 63, 64, 65};
      std::sort(pos.begin(), pos.end()); pos.erase(std::unique(pos.begin(), pos.end()), pos.end());
      auto a0 = iota<T>(n, 1); auto b0 = iota<T>(n / 2 + 1, 7);
      auto go = [&](const char* nm, long p, long q, auto f, auto g) {
         mc::at("%s/%d size %ld %s p=%ld q=%ld", tname<T>(), AF, n, nm, p, q);
         W<T, AF> w; w.a = a0; w.b = b0; w.A.resize_and_assign(mk1<T, AF>(a0)); w.B.resize_and_assign(mk1<T, AF>(b0));
         f(w); g(w); mc::step();
         if(!w.check()) mc::fail(std::string("1d-large:") + nm, "mismatch at size %ld p=%ld q=%ld", n, p, q);
         mc::state(hash_(w.b, hash_(w.a))); mc::trace();
      };
      using WW = W<T, AF>;
      for(long p : pos) if(p >= 0 && p <= n) {
         go("insert", p, 0, [&](WW& w) { w.A.insert(p, SL<T>(3)); }, [&](WW& w) { w.a.insert(w.a.begin() + p, lab<T>(3)); });
         go("insertB", p, 0, [&](WW& w) { w.A.insert(p, w.B); }, [&](WW& w) { auto c = w.b; w.a.insert(w.a.begin() + p, c.begin(), c.end()); });
         go("insertA", p, 0, [&](WW& w) { w.A.insert(p, w.A); }, [&](WW& w) { auto c = w.a; w.a.insert(w.a.begin() + p, c.begin(), c.end()); });
         for(long q : {1L, 2L, 63L, 64L, 65L, n - p}) if(q >= 1 && p + q <= n) go("remove", p, q, [&](WW& w) { w.A.remove(p, q); }, [&](WW& w) { w.a.erase(w.a.begin() + p, w.a.begin() + p + q); });
         if(p < n) go("removelast", p, 0, [&](WW& w) { w.A.remove(last - p); }, [&](WW& w) { w.a.erase(w.a.end() - 1 - p); });
      }
      for(long k : {0L, 1L, 63L, 64L, 65L, n - 1, n + 1, n + 64}) if(k >= 0)
         go("resize", k, 0, [&](WW& w) { w.A.resize(k); for(long i = n; i < k; ++i) w.A[i] = SL<T>(4); }, [&](WW& w) { w.a.resize(k, lab<T>(4)); });
      go("removeOdd", 0, 0, [&](WW& w) { std::vector<ImplicitInt> ix; for(long i = 1; i < n; i += 2) ix.push_back(i); w.A.remove(ix); },
         [&](WW& w) { std::vector<T> r; for(long i = 0; i < n; i += 2) r.push_back(w.a[i]); w.a = r; });
      go("copy", 0, 0, [&](WW& w) { Array1D<T, AF> C(w.A); w.A = SL<T>(0); w.A = C; }, [&](WW&) {});
      go("iter", 0, 0, [&](WW& w) { Array1D<T, AF> C(w.A.begin(), w.A.end()); w.A.swap(C); }, [&](WW&) {});
      go("move", 0, 0, [&](WW& w) { w.A.resize_and_assign(std::move(w.B)); }, [&](WW& w) { w.a = w.b; w.b.clear(); });
      go("self", 0, 0, [&](WW& w) { auto& r = w.A; w.A = std::move(r); w.A = r; }, [&](WW&) {});
      go("rev", 0, 0, [&](WW& w) { w.A.resize_and_assign(w.A(place::reverse)); }, [&](WW& w) { std::reverse(w.a.begin(), w.a.end()); });
      if constexpr(!std::is_same_v<T, bool>) {
         go("+=", 0, 0, [&](WW& w) { w.A += SL<T>(2); w.A += w.A; }, [&](WW& w) { for(auto& x : w.a) { x += 2; x += x; } });
      }
   }
}
}  // namespace

#ifndef C01_TYPES
#define C01_TYPES int
#endif
template <class... Ts> struct TL {};
template <class T> void reg() {
   std::string n = tname<T>();
   auto addu = [&](std::string s, std::function<void()> f, bool deep = false) { mc::units().push_back({s, f, deep}); };
   addu("depth2/" + n + "/unaligned", [] { explore<T, Unaligned>(1, 2, 0, 1); });
   addu("depth2/" + n + "/aligned", [] { explore<T, Aligned>(1, 2, 0, 1); });
   std::vector<long> sz{5, 31, 32, 33, 63, 64, 65, 127, 128, 129, 257, 1025};
   addu("large/" + n + "/unaligned", [sz] { large<T, Unaligned>(sz); });
   addu("large/" + n + "/aligned", [sz] { large<T, Aligned>(sz); });
#ifdef C01_DEEP
   for(int p = 0; p < 8; ++p) {
      addu("depth3/" + n + "/unaligned/" + std::to_string(p), [p] { explore<T, Unaligned>(mc::thorough ? 1 : 0, 3, p, 8); });
      addu("depth3/" + n + "/aligned/" + std::to_string(p), [p] { explore<T, Aligned>(mc::thorough ? 1 : 0, 3, p, 8); });
      addu("depth4/" + n + "/" + std::to_string(p), [p] { explore<T, Unaligned>(0, 4, p, 8); }, true);
   }
#endif
}
template <class... Ts> void regall(TL<Ts...>) { (reg<Ts>(), ...); }
static int dummy = (regall(TL<C01_TYPES>{}), 0);
