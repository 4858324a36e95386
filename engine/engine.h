#pragma once
#include "solver.h"
#include <llvm/IR/Instructions.h>
#include <llvm/IR/Module.h>
#include <map>
#include <set>

struct Val {
    uint64_t c = 0;
    E        e = nullptr;
};

template <class T> struct Ref {
    T* p = nullptr;
    Ref() = default;
    Ref(T* t) : p(t) { if (p) p->rc++; }
    Ref(const Ref& o) : p(o.p) { if (p) p->rc++; }
    Ref(Ref&& o) noexcept : p(o.p) { o.p = nullptr; }
    Ref& operator=(Ref o) noexcept { std::swap(p, o.p); return *this; }
    ~Ref() { if (p && --p->rc == 0) delete p; }
    T* operator->() const { return p; }
    T& operator*() const { return *p; }
    explicit operator bool() const { return p != nullptr; }
};

enum class OK_ : uint8_t { Global, Stack, HeapNew, HeapNewArr, HeapMalloc, Exception };

struct MemObj {
    int         rc = 0;
    uint64_t    base = 0, size = 0;
    OK_         kind = OK_::Global;
    bool        readonly = false;
    const char* site = "";
    std::vector<uint8_t> conc; // concrete bytes
    std::vector<uint8_t> st;   // 0 concrete, 1 symbolic, 2 uninitialised (empty => all concrete)
    std::vector<E>       sym;  // empty if none symbolic
};
struct Chunk {
    int         rc = 0;
    Ref<MemObj> o[64];
};
struct ObjTable {
    std::vector<Ref<Chunk>> ch;
    size_t                  n = 0;
    MemObj* get(size_t i) const { return i < n ? ch[i >> 6]->o[i & 63].p : nullptr; }
    void    set(size_t i, Ref<MemObj> r)
    {
        while (i >= n) { if ((n & 63) == 0) ch.push_back(Ref<Chunk>(new Chunk)); n++; }
        Ref<Chunk>& c = ch[i >> 6];
        if (c->rc > 1) { Chunk* k = new Chunk; for (int j = 0; j < 64; j++) k->o[j] = c->o[j]; c = Ref<Chunk>(k); }
        c->o[i & 63] = std::move(r);
    }
    MemObj* writable(size_t i)
    {
        Ref<Chunk>& c = ch[i >> 6];
        if (c->rc > 1) { Chunk* k = new Chunk; for (int j = 0; j < 64; j++) k->o[j] = c->o[j]; c = Ref<Chunk>(k); }
        Ref<MemObj>& r = c->o[i & 63];
        if (r->rc > 1) { MemObj* m = new MemObj(*r.p); m->rc = 0; r = Ref<MemObj>(m); }
        return r.p;
    }
};

struct Op;
struct CFn;
struct Operand { int32_t s; }; // >=0 register slot, <0 constant index

struct Edge { uint32_t target; std::vector<std::tuple<int32_t, Operand, uint32_t>> copies; };

struct Op {
    unsigned                 opc = 0;
    const llvm::Instruction* I = nullptr;
    int32_t                  dst = -1;
    uint32_t                 w = 0, w2 = 0; // result width / operand width
    uint32_t                 n = 1;         // flattened slot count of the result
    std::vector<Operand>     ops;
    std::vector<uint32_t>    opw; // widths of scalars for store/load of aggregates
    std::vector<uint64_t>    offs;
    uint64_t                 imm = 0;
    std::vector<Edge>        edges;
    std::vector<APInt>       cases;
    CFn*                     callee = nullptr;
    int                      intr = -1; // builtin id
    bool                     executed = false;
};
struct CFn {
    const llvm::Function* F = nullptr;
    bool                  compiled = false;
    uint32_t              nregs = 0;
    std::vector<Op>       ops;
    std::vector<Val>      consts;
    std::vector<int32_t>  argSlot;
    std::vector<uint32_t> argN;
    uint64_t              addr = 0;
    int                   builtin = -1;
    std::string           name;
    uint64_t              calls = 0;
};

struct Frame {
    CFn*     fn;
    uint32_t pc;
    uint32_t base;
    uint32_t stackBase;
};

struct InputRec { std::string name; uint32_t bytes; std::vector<E> vars; };

struct State {
    std::vector<Frame>       frames;
    std::vector<Val>         regs;
    ObjTable                 globals, heap;
    std::vector<Ref<MemObj>> stack;
    std::vector<E>           cs;
    std::vector<std::pair<E, uint64_t>> known;
    Assignment               model;
    std::vector<InputRec>    inputs;
    uint64_t                 steps = 0;
    uint64_t                 liveHeap = 0;
    uint32_t                 forks = 0;
    // exceptions
    uint64_t                 excPtr = 0, excTI = 0;
    std::vector<std::pair<uint64_t, uint64_t>> excInfo; // ptr -> typeinfo
    std::vector<uint64_t>    caught;
    std::vector<std::string> knownHits, coverTrace;
    std::vector<std::pair<std::string, E>> log;
};
