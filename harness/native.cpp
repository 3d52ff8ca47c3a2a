// Native replay: runs a harness entry compiled against the real library with the values of a recorded vector.
// usage: replay ENTRY VECTORFILE     exit 0 finished, 77 failed check, 90 diverged, 91 assumption not met
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <string>
#include <vector>
#include <map>
#include <exception>
#include <typeinfo>
#include <dlfcn.h>
#include <unistd.h>
#include <time.h>
#include "sym.h"
static std::vector<std::pair<std::string, unsigned long long>> vec; static size_t pos = 0;
static std::map<std::string, long long> par;
static bool ended = false;
extern "C" {
uint64_t __sym_bv(const char* n, unsigned w) {
  if (pos >= vec.size()) { if (!ended) { ended = true; printf("VECTOR-END at %s\n", n); fflush(stdout); } return 0; }
  if (vec[pos].first != n) { printf("DIVERGED: asked for %s, recorded %s (input %zu)\n", n, vec[pos].first.c_str(), pos); fflush(stdout); _exit(90); }
  return vec[pos++].second;
}
uint64_t __sym_bvr(const char* n, unsigned w, uint64_t m) { uint64_t v = __sym_bv(n, w); if (v > m) { printf("ASSUMPTION not met\n"); fflush(stdout); _exit(91); } return v; }
int64_t __sym_param(const char* n, int64_t d) { auto i = par.find(n); return i == par.end() ? d : i->second; }
void __sym_assume(bool b) { if (!b) { printf("ASSUMPTION not met\n"); fflush(stdout); _exit(91); } }
void __sym_check(bool b, const char* m) { if (!b) { printf("CHECK FAILED: %s\n", m); fflush(stdout); _exit(77); } }
void __sym_reach(const char*) {}
void __sym_observe(const char* n, uint64_t v) { printf("O %s %llu\n", n, (unsigned long long)v); }
uint64_t __sym_concretize(uint64_t v) { return v; }
bool __sym_symbolic() { return false; }
static int rmode = 0; static unsigned rstate = 12345;
void sym_rand_mode(int m) { rmode = m; rstate = 12345; }
int rand() __THROW { if (rmode == 0) return (int)__sym_bv("rand", 31);
  if (rmode < 0) return -1 - rmode;
  if (rmode > 1) { unsigned w = 1; while ((unsigned)(rmode - 1) >> w) w++; return (int)__sym_bvr("rand", w, (uint64_t)rmode - 1); }
  rstate = rstate * 1103515245u + 12345u; return (int)(rstate >> 1); }
long random() __THROW { return rand(); }
void srand(unsigned s) __THROW { rstate = s; }
void srandom(unsigned s) __THROW { rstate = s; }
time_t time(time_t* t) __THROW { time_t v = rmode == 0 ? (time_t)__sym_bv("time", 31) : 1000000; if (t) *t = v; return v; }
}
int main(int argc, char** argv) {
  if (argc < 3) return 2;
  FILE* f = fopen(argv[2], "r"); if (!f) return 2; char kind; char name[256]; char val[64];
  while (fscanf(f, " %c %255s %63s", &kind, name, val) == 3) { if (kind == 'P') par[name] = strtoll(val, 0, 0); else vec.push_back({name, strtoull(val, 0, 0)}); }
  fclose(f);
  void (*fn)() = (void (*)())dlsym(RTLD_DEFAULT, argv[1]); if (!fn) { printf("no entry %s\n", argv[1]); return 2; }
  alarm(60);
  try { fn(); } catch (std::exception& e) { printf("UNCAUGHT %s: %s\n", typeid(e).name(), e.what()); fflush(stdout); _exit(70); } catch (...) { printf("UNCAUGHT\n"); fflush(stdout); _exit(70); }
  printf("DONE\n"); fflush(stdout); _exit(0);
}
