// Native implementation of the harness interface: replays one concrete input file.
// exit 0: ran to the end (or vf_stop)   exit 10: a check failed   exit 20: inputs violate an assumption / do not match
#include <dlfcn.h>
#include "vf.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <new>
#include <sstream>
#include <string>
#include <vector>
static std::vector<std::pair<std::string, std::vector<uint8_t>>> in;
static size_t pos = 0;
static long   live = 0;
static void quit(int c) { fflush(stdout); fflush(stderr); _Exit(c); }
void* operator new(size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
void* operator new[](size_t n) { void* p = malloc(n ? n : 1); if (!p) throw std::bad_alloc(); live++; return p; }
void operator delete(void* p) noexcept { if (p) live--; free(p); }
void operator delete[](void* p) noexcept { if (p) live--; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) live--; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) live--; free(p); }
static const std::vector<uint8_t>& next(const char* name)
{
    if (pos >= in.size()) { fprintf(stderr, "VF_END_OF_INPUTS at %s\n", name); quit(21); }
    auto& r = in[pos++];
    std::string want = name;
    for (char& c : want) if (c == ' ') c = '_';
    if (r.first != want) { fprintf(stderr, "VF_INPUT_MISMATCH want %s have %s\n", name, r.first.c_str()); quit(20); }
    return r.second;
}
static uint64_t num(const char* name)
{
    auto& b = next(name);
    uint64_t v = 0;
    for (size_t i = 0; i < b.size() && i < 8; i++) v |= (uint64_t)b[i] << (8 * i);
    return v;
}
extern "C" {
void vf_bytes(void* p, size_t n, const char* name)
{
    auto& b = next(name);
    if (b.size() != n) { fprintf(stderr, "VF_INPUT_MISMATCH size %s\n", name); quit(20); }
    if (n) memcpy(p, b.data(), n);
}
uint8_t  vf_u8(const char* n) { return (uint8_t)num(n); }
uint16_t vf_u16(const char* n) { return (uint16_t)num(n); }
uint32_t vf_u32(const char* n) { return (uint32_t)num(n); }
uint64_t vf_u64(const char* n) { return num(n); }
uint64_t vf_range(uint64_t lo, uint64_t hi, const char* n)
{
    uint64_t v = num(n);
    if (v < lo || v > hi) { fprintf(stderr, "VF_ASSUME range %s\n", n); quit(20); }
    return v;
}
uint64_t vf_fork(uint64_t v) { return v; }
void     vf_assume(bool b) { if (!b) { fprintf(stderr, "VF_ASSUME\n"); quit(20); } }
void     vf_check(bool b, const char* m) { if (!b) { printf("VF_CHECK_FAILED %s\n", m); quit(10); } }
void     vf_cover(const char* n) { printf("VF_COVER %s\n", n); fflush(stdout); }
bool     vf_known(const char* id, bool c)
{
    const char* k = getenv("VF_KNOWN");
    if (!k || !c) return false;
    std::stringstream ss(k); std::string x;
    while (std::getline(ss, x, ',')) if (x == id) { printf("VF_KNOWN %s\n", id); fflush(stdout); return true; }
    return false;
}
uint64_t vf_live_allocs(void) { return (uint64_t)live; }
void     vf_stop(void) { printf("VF_STOP\n"); quit(0); }
int      vf_symbolic(void) { return 0; }
void     vf_print(const char* m, uint64_t v) { fprintf(stderr, "PRINT %s %llx\n", m, (unsigned long long)v); }
}
int main(int argc, char** argv)
{
    {
        std::ifstream f(argc > 1 ? argv[1] : "/dev/stdin");
        std::string line;
        while (std::getline(f, line))
        {
            std::istringstream ls(line); std::string n, h;
            ls >> n >> h;
            if (n.empty() || n[0] == '#') continue;
            std::vector<uint8_t> b;
            for (size_t i = 0; i + 1 < h.size(); i += 2) b.push_back((uint8_t)strtoul(h.substr(i, 2).c_str(), nullptr, 16));
            in.push_back({n, b});
        }
    }
    live = 0;
    void (*entry)() = argc > 2 ? reinterpret_cast<void (*)()>(dlsym(nullptr, argv[2])) : nullptr;
    if (!entry) { fprintf(stderr, "no such entry\n"); quit(30); }
    entry();
    printf("VF_DONE\n");
    quit(0);
}
