// Harness interface: implemented by the symbolic executor, and by vf_rt.cpp for native replay.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
void     vf_bytes(void* p, size_t n, const char* name);
uint8_t  vf_u8(const char* name);
uint16_t vf_u16(const char* name);
uint32_t vf_u32(const char* name);
uint64_t vf_u64(const char* name);
uint64_t vf_range(uint64_t lo, uint64_t hi, const char* name); // inclusive
uint64_t vf_fork(uint64_t v);                                  // one path per value
void     vf_assume(bool);
void     vf_check(bool, const char* msg);
void     vf_cover(const char* name);
bool     vf_known(const char* id, bool cond);                  // true if cond and id is a listed known finding
uint64_t vf_live_allocs(void);
[[noreturn]] void vf_stop(void);
int      vf_symbolic(void);
void     vf_print(const char* msg, uint64_t v);
}
#define CHECK(c) vf_check((c), #c)
inline uint64_t vf_pick(uint64_t lo, uint64_t hi, const char* name) { return vf_fork(vf_range(lo, hi, name)); }
