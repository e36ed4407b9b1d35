// Native runtime for replays: reads the values the solver chose, in creation order.
#include "psx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <unistd.h>
#include <string>
#include <vector>
#include <map>
struct In { std::string name; std::vector<unsigned char> b; };
static std::vector<In> ins; static size_t pos; static std::map<std::string, long long> params; static std::vector<uint64_t> obs; static bool diverged;
static FILE* obsF; static bool freeRun; static uint64_t rnd = 88172645463325252ull;
extern "C" bool psx_replay_diverged() { return diverged; }
extern "C" size_t psx_inputs_left() { return ins.size() - pos; }
static void fin(int c, const char* m) { if (obsF) { for (auto o : obs) fprintf(obsF, "%llx\n", (unsigned long long)o); fflush(obsF); } if (m) { fprintf(stderr, "%s\n", m); } fflush(stderr); _exit(c); }
extern "C" {
void psx_fin(int c) { fin(c, nullptr); }
static void next(void* p, size_t n, const char* name) {
  if (pos >= ins.size()) { if (!diverged) fprintf(stderr, "REPLAY-DIVERGED: no input left for %s\n", name); diverged = true; memset(p, 0, n); return; }
  In& i = ins[pos++]; if (i.name != name) { if (!diverged) fprintf(stderr, "REPLAY-DIVERGED: expected %s, replay has %s\n", name, i.name.c_str()); diverged = true; }
  memset(p, 0, n); memcpy(p, i.b.data(), i.b.size() < n ? i.b.size() : n);
}
void psx_symbolic(void* p, size_t n, const char* name) { if (n == 1 || n == 2 || n == 4 || n == 8) next(p, n, name); else for (size_t i = 0; i < n; i++) next((char*)p + i, 1, name); }
uint8_t psx_u8(const char* n) { uint8_t x; next(&x, 1, n); return x; }
uint16_t psx_u16(const char* n) { uint16_t x; next(&x, 2, n); return x; }
uint32_t psx_u32(const char* n) { uint32_t x; next(&x, 4, n); return x; }
uint64_t psx_u64(const char* n) { uint64_t x; next(&x, 8, n); return x; }
uint64_t psx_range(uint64_t lo, uint64_t hi, const char* n) { if (lo > hi) fin(0, "PSX-ASSUME"); uint64_t x; next(&x, 8, n); if (x < lo || x > hi) { diverged = true; x = lo; } return x; }
uint64_t psx_pick(uint64_t k, const char* n) { if (!k) fin(0, "PSX-ASSUME"); uint64_t x; next(&x, 8, n); if (x >= k) { diverged = true; x = 0; } return x; }
void psx_assume(bool c) { if (!c) fin(0, "PSX-ASSUME"); }
void psx_assert(bool c, const char* m) { if (!c) { fprintf(stderr, "PSX-VIOLATION: %s\n", m); fin(11, nullptr); } }
void psx_fail(const char* m) { fprintf(stderr, "PSX-VIOLATION: %s\n", m); fin(11, nullptr); abort(); }
void psx_cover(const char*) {}
void psx_observe(uint64_t v) { obs.push_back(v); }
uint64_t psx_concretize(uint64_t v) { return v; }
bool psx_possible(bool c) { return c; }
int64_t psx_param(const char* n, int64_t d) { auto it = params.find(n); return it == params.end() ? d : it->second; }
void psx_end() { fin(0, "PSX-END"); abort(); }
void psx_error(const char* m) { fprintf(stderr, "PSX-ERROR: %s\n", m); fin(12, nullptr); abort(); }
bool psx_native() { return true; }
void psx_print(const char* l, uint64_t v) { fprintf(stderr, "PRINT %s %llx\n", l, (unsigned long long)v); }
bool psx_obj_alive(const void*) { return true; }
void psx_dedup() {}
}
#ifndef PSX_MAIN
#define PSX_MAIN
#endif
int main(int argc, char** argv) {
  const char* entry = nullptr; FILE* f = fopen(argv[1], "r"); if (!f) return 12; if (argc > 2) obsF = fopen(argv[2], "w");
  static char line[1 << 16]; static char ent[256];
  while (fgets(line, sizeof line, f)) {
    if (line[0] == '#') { char k[128]; long long v; if (sscanf(line, "#entry %255s", ent) == 1) entry = ent; else if (sscanf(line, "#param %127s %lld", k, &v) == 2) params[k] = v; continue; }
    char* sp = strrchr(line, ' '); if (!sp) continue; *sp = 0; In i; i.name = line; for (char* q = sp + 1; q[0] && q[1] && q[0] != '\n'; q += 2) { unsigned x; sscanf(q, "%2x", &x); i.b.push_back(x); } ins.push_back(i);
  }
  fclose(f); if (!entry) return 12; void* h = dlsym(RTLD_DEFAULT, entry); if (!h) { fprintf(stderr, "no entry %s\n", entry); return 12; }
  (*(void (*)()) h)(); fin(0, "PSX-OK");
}
