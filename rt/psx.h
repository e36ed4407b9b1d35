// Interface between a harness and what runs it: the symbolic engine (psx) or, for replays, the native runtime.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void psx_symbolic(void* p, size_t n, const char* name);
uint8_t psx_u8(const char* name);
uint16_t psx_u16(const char* name);
uint32_t psx_u32(const char* name);
uint64_t psx_u64(const char* name);
uint64_t psx_range(uint64_t lo, uint64_t hi, const char* name);   // symbolic, lo <= x <= hi
uint64_t psx_pick(uint64_t n, const char* name);                  // concrete choice 0..n-1, explored exhaustively
void psx_assume(bool c);
void psx_assert(bool c, const char* msg);
[[noreturn]] void psx_fail(const char* msg);
void psx_cover(const char* label);
void psx_observe(uint64_t v);
uint64_t psx_concretize(uint64_t v);
bool psx_possible(bool c);
int64_t psx_param(const char* name, int64_t dflt);
[[noreturn]] void psx_end(void);
[[noreturn]] void psx_error(const char* msg);
bool psx_native(void);
void psx_print(const char* label, uint64_t v);
uint64_t psx_thread_create(void* fn, void* arg);
uint64_t psx_self(void);
void psx_switch(uint64_t tid);
[[noreturn]] void psx_thread_exit(uint64_t next);
void psx_dedup(void);
bool psx_obj_alive(const void* p);
[[noreturn]] void psx_unwind(void* exn, const void* ti);
}
#define H(name) extern "C" void name()
#ifdef PSX_NATIVE
#define PSX_NOINL __attribute__((noinline))
#else
#define PSX_NOINL __attribute__((noinline))
#endif
