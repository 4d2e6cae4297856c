// A stand-in for asmjit, which this sandbox lacks: it records what the code generator emits and
// interprets it with checked semantics, so that generated code is under the sanitizers and under
// these monitors, and so that callers reach it through ordinary function pointers:
//   - every load and store is an ordinary C++ access (ASan and TSan see it) and is compared with the
//     regions the harness allows (vkjit::Limits)
//   - calls into native code: the stack is aligned as the System V ABI asks, and every register the
//     callee may change is changed
//   - return: callee-saved registers and the stack pointer are what they were
//   - operands are encodable, labels are bound, aligned moves are aligned
#pragma once
#include <atomic>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <memory>
#include <mutex>
#include <stdexcept>
#include <string>
#include <type_traits>
#include <vector>
#include <sys/mman.h>

namespace vkjit {

struct Fault : std::runtime_error { explicit Fault(const std::string &s) : std::runtime_error("generated code: " + s) {} };

// what generated code may touch besides its stack and its constants (when active)
struct Limits {
    bool active = false;
    uintptr_t in = 0, in_end = 0;                     // text, and where its NUL is
    std::vector<std::pair<uintptr_t, uintptr_t>> out; // what it may write
    uint64_t steps = 0;                               // 0: no bound
};
inline Limits &limits() { static thread_local Limits l; return l; }

// The generated parser fills pages of 8 MiB.  A harness may ask for smaller ones before it makes a
// parser: each 8 MiB in an operand becomes that; 'hits' tells whether there was any.
struct Page { int64_t size = 0; int hits = 0; };
inline Page &page() { static thread_local Page p; return p; }
inline int64_t paged(int64_t v) {
    if (!page().size || v != 8388608) return v;
    page().hits++;
    return page().size;
}

struct Stats { std::atomic<uint64_t> instructions{0}, calls{0}, runs{0}, vectors{0}, programs{0}, emitted{0}; };
inline Stats &stats() { static Stats s; return s; }

enum OpCode : uint8_t {
    MOV, MOVZX, ADD, SUB, CMP, TEST, AND, OR, XOR, INC, DEC, SHL, SHR, SAR, NEG, NOT, LEA, PUSH, POP, CALL, RET,
    JMP, JE, JNE, JB, JAE, JBE, JA, JL, JGE, JLE, JG, JS, JNS, MOVDQ, MOVDQA, MOVNTI, FENCE, PCMPISTRI, NOP
};
enum Kind : uint8_t { NONE, GP, XMM, IMM, MEM, MEML, LAB };
struct Op { Kind k = NONE; uint8_t size = 0, reg = 0; int32_t label = -1; int64_t v = 0; };
struct Ins { OpCode op; Op a, b, c; };

struct Code {                       // shared by the holder and the programs made of it
    std::vector<Ins> ins;
    std::vector<int> labels;        // where bound; -1: not yet
    std::vector<const uint8_t *> data;
    std::vector<std::shared_ptr<uint8_t>> keep;
};

struct Entry { const Code *code; size_t pc; };
uint64_t run(uint64_t rdi, uint64_t rsi, uint64_t rdx, const Entry *e);

struct Program {
    Code code;
    uint8_t *stubs = nullptr;
    size_t size = 0;
    std::unique_ptr<Entry[]> entries;
    explicit Program(const Code &c) : code(c) {
        size_t n = c.labels.size() + 1;
        entries.reset(new Entry[n]);
        size = (n * 32 + 4095) & ~(size_t)4095;
        stubs = (uint8_t *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
        for (size_t i = 0; i < n; i++) {
            entries[i] = Entry{&code, i == 0 ? 0 : (c.labels[i - 1] < 0 ? ~(size_t)0 : (size_t)c.labels[i - 1])};
            uint8_t *p = stubs + 32 * i;
            uint64_t a = (uint64_t)&entries[i], b = (uint64_t)&run;
            p[0] = 0x48; p[1] = 0xB9; memcpy(p + 2, &a, 8);          // mov rcx, entry
            p[10] = 0x48; p[11] = 0xB8; memcpy(p + 12, &b, 8);       // mov rax, run
            p[20] = 0xFF; p[21] = 0xE0;                              // jmp rax
        }
        mprotect(stubs, size, PROT_READ | PROT_EXEC);
        stats().programs++;
        stats().emitted += c.ins.size();
    }
    ~Program() { munmap(stubs, size); }
};

// ---- the machine
struct Stack {
    uint8_t *base; size_t size;
    Stack() : size((size_t)64 << 20) {
        base = (uint8_t *)mmap(nullptr, size, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if (base == MAP_FAILED) abort();
    }
    ~Stack() { munmap(base, size); }
};
struct StackPool {                  // one machine may call native code that runs another
    std::vector<std::unique_ptr<Stack>> free;
    std::unique_ptr<Stack> get() {
        if (free.empty()) return std::unique_ptr<Stack>(new Stack);
        auto s = std::move(free.back()); free.pop_back(); return s;
    }
};
inline StackPool &stacks() { static thread_local StackPool p; return p; }

struct Machine {
    const Code &code;
    uint64_t r[16];
    struct X { uint8_t b[16]; } x[16];
    bool zf = false, cf = false, sf = false, of = false;
    std::unique_ptr<Stack> st;
    uint64_t trash = 0x9E3779B97F4A7C15ull;
    uint64_t n = 0, calls = 0, vecs = 0;
    Limits &lim;
    enum { RAX, RCX, RDX, RBX, RSP, RBP, RSI, RDI };
    static const uint64_t RETURN = 0x7B00000000000000ull, LEAVE = 0x7C00DEAD00000000ull;

    explicit Machine(const Code &c) : code(c), st(stacks().get()), lim(limits()) {
        for (int i = 0; i < 16; i++) { r[i] = junk(); for (auto &b : x[i].b) b = (uint8_t)junk(); }
    }
    ~Machine() {
        stats().instructions += n; stats().calls += calls; stats().vectors += vecs; stats().runs++;
        stacks().free.push_back(std::move(st));
    }
    uint64_t junk() { trash ^= trash << 13; trash ^= trash >> 7; trash ^= trash << 17; return trash | 0x4000000000000000ull; }
    [[noreturn]] void fault(const std::string &s) const { throw Fault(s); }
    static uint64_t cut(uint64_t v, int size) { return size >= 8 ? v : v & ((1ull << (8 * size)) - 1); }

    uintptr_t address(const Op &o) const {
        if (o.k == MEML) return (uintptr_t)code.data[(size_t)o.label] + (uintptr_t)o.v;
        return (uintptr_t)(r[o.reg] + (uint64_t)o.v);
    }
    bool in_stack(uintptr_t a, size_t s) const { return a >= r[RSP] && a + s <= (uintptr_t)st->base + st->size; }
    void check_load(const Op &o, uintptr_t a, size_t s) const {
        if (o.k == MEML) return;
        if (in_stack(a, s)) return;
        if (a >= (uintptr_t)st->base && a < (uintptr_t)st->base + st->size) fault("load below the stack pointer");
        if (!lim.active) return;
        uintptr_t past = s >= 16 ? 16 : 1;
        if (a >= lim.in && a + s <= lim.in_end + past) return;
        for (auto &p : lim.out) if (a >= p.first && a + s <= p.second) return;
        fault(a >= lim.in && a <= lim.in_end + 4096 ? "reads behind the end of the input" : "reads outside the input");
    }
    void check_store(uintptr_t a, size_t s) const {
        if (in_stack(a, s)) return;
        if (a >= (uintptr_t)st->base && a < (uintptr_t)st->base + st->size) fault("store below the stack pointer");
        if (!lim.active) return;
        for (auto &p : lim.out) if (a >= p.first && a + s <= p.second) return;
        fault("writes outside the output");
    }
    uint64_t load(const Op &o, int s) const {
        uintptr_t a = address(o);
        check_load(o, a, (size_t)s);
        switch (s) {
        case 1: return *(const uint8_t *)a;
        case 2: { uint16_t v; memcpy(&v, (const void *)a, 2); return v; }
        case 4: { uint32_t v; memcpy(&v, (const void *)a, 4); return v; }
        default: { if (a % 8 == 0) return *(const uint64_t *)a; uint64_t v; memcpy(&v, (const void *)a, 8); return v; }
        }
    }
    void store(const Op &o, uint64_t v, int s) {
        uintptr_t a = address(o);
        if (o.k == MEML) fault("writes a constant");
        check_store(a, (size_t)s);
        switch (s) {
        case 1: *(uint8_t *)a = (uint8_t)v; break;
        case 2: memcpy((void *)a, &v, 2); break;
        case 4: memcpy((void *)a, &v, 4); break;
        default: if (a % 8 == 0) *(uint64_t *)a = v; else memcpy((void *)a, &v, 8);
        }
    }
    X loadx(const Op &o, bool aligned) {
        if (o.k == XMM) return x[o.reg];
        uintptr_t a = address(o);
        if (aligned && a % 16) fault("aligned load of an unaligned vector");
        check_load(o, a, 16);
        X v; memcpy(v.b, (const void *)a, 16);
        return v;
    }
    uint64_t get(const Op &o, int s) const { return o.k == GP ? cut(r[o.reg], s) : o.k == IMM ? cut((uint64_t)o.v, s) : load(o, s); }
    void set(const Op &o, uint64_t v, int s) {
        if (o.k == GP) { if (s >= 4) r[o.reg] = cut(v, s); else r[o.reg] = (r[o.reg] & ~((1ull << (8 * s)) - 1)) | cut(v, s); }
        else store(o, v, s);
    }
    void flags(uint64_t v, int s) { v = cut(v, s); zf = v == 0; sf = (v >> (8 * s - 1)) & 1; }
    uint64_t alu_sub(uint64_t a, uint64_t b, int s) {
        uint64_t v = cut(a - b, s);
        flags(v, s); cf = a < b;
        of = (((a ^ b) & (a ^ v)) >> (8 * s - 1)) & 1;
        return v;
    }
    uint64_t alu_add(uint64_t a, uint64_t b, int s) {
        uint64_t v = cut(a + b, s);
        flags(v, s); cf = v < a;
        of = ((~(a ^ b) & (a ^ v)) >> (8 * s - 1)) & 1;
        return v;
    }
    void push(uint64_t v) {
        if (r[RSP] < (uintptr_t)st->base + 64) fault("stack overflow");
        r[RSP] -= 8;
        *(uint64_t *)r[RSP] = v;
    }
    uint64_t pop() {
        if (r[RSP] + 8 > (uintptr_t)st->base + st->size || r[RSP] < (uintptr_t)st->base) fault("stack underflow");
        uint64_t v = *(uint64_t *)r[RSP];
        r[RSP] += 8;
        return v;
    }
    static int size_of(const Ins &i) { return i.a.k == GP || i.a.size ? (i.a.size ? i.a.size : 8) : i.b.k == GP ? i.b.size : 8; }

    // PCMPISTRI as Intel's manual has it
    int pcmpistri(const X &a, const X &b, int imm) {
        int w = imm & 1 ? 2 : 1, n = 16 / w;
        auto el = [&](const X &v, int i) -> int {
            if (imm & 2) return w == 1 ? (int)(int8_t)v.b[i] : (int)(int16_t)(v.b[2 * i] | v.b[2 * i + 1] << 8);
            return w == 1 ? v.b[i] : v.b[2 * i] | v.b[2 * i + 1] << 8;
        };
        auto len = [&](const X &v) { for (int i = 0; i < n; i++) if (w == 1 ? !v.b[i] : !(v.b[2 * i] | v.b[2 * i + 1])) return i; return n; };
        int la = len(a), lb = len(b), agg = (imm >> 2) & 3;
        uint32_t res = 0;
        for (int j = 0; j < n; j++) {
            bool bit = false;
            if (agg == 0) { for (int i = 0; i < la; i++) if (j < lb && el(a, i) == el(b, j)) bit = true; }
            else if (agg == 1) { for (int i = 0; i + 1 < la; i += 2) if (j < lb && el(a, i) <= el(b, j) && el(b, j) <= el(a, i + 1)) bit = true; }
            else if (agg == 2) bit = j < la && j < lb ? el(a, j) == el(b, j) : j >= la && j >= lb;
            else { bit = true; for (int i = 0; i < la && j + i < n; i++) if (!(j + i < lb && el(a, i) == el(b, j + i))) bit = false; }
            if (bit) res |= 1u << j;
        }
        uint32_t all = n == 16 ? 0xffffu : 0xffu;
        if (imm & 0x10) { if (imm & 0x20) res ^= lb >= n ? all : (1u << lb) - 1; else res ^= all; }
        cf = res != 0; zf = lb < n; sf = la < n; of = res & 1;
        if (!res) return n;
        return imm & 0x40 ? 31 - __builtin_clz(res) : __builtin_ctz(res);
    }

    uint64_t go(uint64_t a1, uint64_t a2, uint64_t a3, size_t pc) {
        r[RDI] = a1; r[RSI] = a2; r[RDX] = a3;
        uintptr_t top = ((uintptr_t)st->base + st->size - 64) & ~(uintptr_t)15;
        r[RSP] = top;
        push(LEAVE);
        uint64_t keep[16];
        memcpy(keep, r, sizeof r);
        if (pc == ~(size_t)0) fault("entered at a label that is not bound");
        for (;;) {
            if (pc >= code.ins.size()) fault("runs off the end of the code");
            const Ins &i = code.ins[pc++];
            n++;
            if (lim.steps && n > lim.steps) fault("does not end");
            switch (i.op) {
            case MOV: { int s = size_of(i); set(i.a, i.b.k == IMM ? (uint64_t)i.b.v : get(i.b, s), s); break; }
            case MOVZX: r[i.a.reg] = get(i.b, i.b.size ? i.b.size : 1); break;
            case ADD: { int s = size_of(i); set(i.a, alu_add(get(i.a, s), get(i.b, s), s), s); break; }
            case SUB: { int s = size_of(i); set(i.a, alu_sub(get(i.a, s), get(i.b, s), s), s); break; }
            case CMP: { int s = size_of(i); alu_sub(get(i.a, s), get(i.b, s), s); break; }
            case TEST: { int s = size_of(i); flags(get(i.a, s) & get(i.b, s), s); cf = of = false; break; }
            case AND: { int s = size_of(i); uint64_t v = get(i.a, s) & get(i.b, s); set(i.a, v, s); flags(v, s); cf = of = false; break; }
            case OR: { int s = size_of(i); uint64_t v = get(i.a, s) | get(i.b, s); set(i.a, v, s); flags(v, s); cf = of = false; break; }
            case XOR: { int s = size_of(i); uint64_t v = get(i.a, s) ^ get(i.b, s); set(i.a, v, s); flags(v, s); cf = of = false; break; }
            case INC: { int s = size_of(i); bool c = cf; set(i.a, alu_add(get(i.a, s), 1, s), s); cf = c; break; }
            case DEC: { int s = size_of(i); bool c = cf; set(i.a, alu_sub(get(i.a, s), 1, s), s); cf = c; break; }
            case NEG: { int s = size_of(i); set(i.a, alu_sub(0, get(i.a, s), s), s); break; }
            case NOT: { int s = size_of(i); set(i.a, ~get(i.a, s), s); break; }
            case SHL: case SHR: case SAR: {
                int s = size_of(i); int k = (int)(i.b.k == GP ? r[RCX] : (uint64_t)i.b.v) & (s == 8 ? 63 : 31);
                uint64_t v = get(i.a, s);
                if (k) {
                    uint64_t w = i.op == SHL ? v << k : i.op == SHR ? v >> k : (uint64_t)((int64_t)(v << (64 - 8 * s)) >> (64 - 8 * s) >> k);
                    cf = i.op == SHL ? (v >> (8 * s - k)) & 1 : (v >> (k - 1)) & 1;
                    of = junk() & 1;
                    flags(w, s); set(i.a, w, s);
                }
                break;
            }
            case LEA: if (i.b.k == MEML) r[i.a.reg] = address(i.b); else r[i.a.reg] = cut(address(i.b), i.a.size); break;
            case PUSH: push(get(i.a, 8)); break;
            case POP: set(i.a, pop(), 8); break;
            case CALL:
                if (i.a.k == LAB) { push(RETURN | pc); pc = (size_t)code.labels[(size_t)i.a.label]; break; }
                native(i.a.k == IMM ? (uint64_t)i.a.v : get(i.a, 8));
                break;
            case RET: {
                uint64_t v = pop();
                if (v == LEAVE) {
                    if (r[RSP] != keep[RSP] + 8) fault("returns with another stack pointer");
                    static const int saved[] = {RBX, RBP, 12, 13, 14, 15};
                    for (int q : saved) if (r[q] != keep[q]) fault("changes callee-saved register " + std::to_string(q));
                    return r[RAX];
                }
                if ((v & RETURN) != RETURN || (v & ~RETURN) >= code.ins.size()) fault("returns to where nobody called from");
                pc = (size_t)(v & ~RETURN);
                break;
            }
#define JCC(c) if (c) pc = (size_t)code.labels[(size_t)i.a.label]; break
            case JMP: JCC(true);
            case JE: JCC(zf);
            case JNE: JCC(!zf);
            case JB: JCC(cf);
            case JAE: JCC(!cf);
            case JBE: JCC(cf || zf);
            case JA: JCC(!cf && !zf);
            case JL: JCC(sf != of);
            case JGE: JCC(sf == of);
            case JLE: JCC(zf || sf != of);
            case JG: JCC(!zf && sf == of);
            case JS: JCC(sf);
            case JNS: JCC(!sf);
#undef JCC
            case MOVDQ: case MOVDQA:
                if (i.a.k == XMM) x[i.a.reg] = loadx(i.b, i.op == MOVDQA);
                else {
                    uintptr_t a = address(i.a);
                    if (i.op == MOVDQA && a % 16) fault("aligned store of an unaligned vector");
                    check_store(a, 16);
                    memcpy((void *)a, x[i.b.reg].b, 16);
                }
                break;
            case MOVNTI: store(i.a, get(i.b, i.b.size), i.b.size); break;
            case FENCE: std::atomic_thread_fence(std::memory_order_seq_cst); break;
            case PCMPISTRI: { X b = loadx(i.b, false); r[RCX] = (uint64_t)pcmpistri(x[i.a.reg], b, (int)i.c.v); vecs++; break; }
            case NOP: break;
            }
        }
    }
    void native(uint64_t f) {
        calls++;
        if (r[RSP] % 16) fault("calls native code with the stack misaligned");
        if (r[RSP] < (uintptr_t)st->base + 4096) fault("stack overflow");
        typedef uint64_t (*F)(uint64_t, uint64_t, uint64_t, uint64_t, uint64_t, uint64_t);
        uint64_t v = ((F)f)(r[RDI], r[RSI], r[RDX], r[RCX], r[8], r[9]);
        static const int lost[] = {RCX, RDX, RSI, RDI, 8, 9, 10, 11};
        for (int q : lost) r[q] = junk();
        for (auto &q : x) for (auto &b : q.b) b = (uint8_t)junk();
        // below the stack pointer nothing survives a call
        memset((void *)(r[RSP] - 256), 0xA5, 256);
        zf = junk() & 1; cf = junk() & 1; sf = junk() & 1; of = junk() & 1;
        r[RAX] = v;
    }
};
inline uint64_t run(uint64_t rdi, uint64_t rsi, uint64_t rdx, const Entry *e) {
    Machine m(*e->code);
    return m.go(rdi, rsi, rdx, e->pc);
}
} // namespace vkjit

namespace asmjit {
typedef uint32_t Error;
enum { kErrorOk = 0, kErrorInvalidArgument = 1 };

struct X86Gp : vkjit::Op { X86Gp(int id = 0, int s = 8) { k = vkjit::GP; reg = (uint8_t)id; size = (uint8_t)s; } };
typedef X86Gp X86Gpq;
struct X86Xmm : vkjit::Op { X86Xmm(int id = 0) { k = vkjit::XMM; reg = (uint8_t)id; size = 16; } };
struct Imm : vkjit::Op { Imm(int64_t x = 0) { k = vkjit::IMM; v = vkjit::paged(x); } };
struct Label : vkjit::Op { Label() { k = vkjit::LAB; } bool isValid() const { return label >= 0; } uint32_t getId() const { return (uint32_t)label; } };
struct X86Mem : vkjit::Op {
    X86Mem() { k = vkjit::MEM; }
    X86Mem(const X86Gp &base, int64_t off, uint32_t s = 0) { k = vkjit::MEM; reg = base.reg; v = vkjit::paged(off); size = (uint8_t)s; }
    X86Mem(const Label &l, int64_t off, uint32_t s = 0) { k = vkjit::MEML; label = l.label; v = off; size = (uint8_t)s; }
};
namespace x86 {
#define VKJIT_GP(n, i) static const X86Gp n(i, 8)
VKJIT_GP(rax, 0); VKJIT_GP(rcx, 1); VKJIT_GP(rdx, 2); VKJIT_GP(rbx, 3); VKJIT_GP(rsp, 4); VKJIT_GP(rbp, 5); VKJIT_GP(rsi, 6); VKJIT_GP(rdi, 7);
VKJIT_GP(r8, 8); VKJIT_GP(r9, 9); VKJIT_GP(r10, 10); VKJIT_GP(r11, 11); VKJIT_GP(r12, 12); VKJIT_GP(r13, 13); VKJIT_GP(r14, 14); VKJIT_GP(r15, 15);
#undef VKJIT_GP
#define VKJIT_GP(n, i) static const X86Gp n(i, 4)
VKJIT_GP(eax, 0); VKJIT_GP(ecx, 1); VKJIT_GP(edx, 2); VKJIT_GP(ebx, 3); VKJIT_GP(ebp, 5); VKJIT_GP(esi, 6); VKJIT_GP(edi, 7);
VKJIT_GP(r8d, 8); VKJIT_GP(r9d, 9); VKJIT_GP(r10d, 10); VKJIT_GP(r11d, 11);
#undef VKJIT_GP
#define VKJIT_GP(n, i) static const X86Gp n(i, 1)
VKJIT_GP(al, 0); VKJIT_GP(cl, 1); VKJIT_GP(dl, 2); VKJIT_GP(bl, 3);
#undef VKJIT_GP
#define VKJIT_X(n) static const X86Xmm xmm##n(n)
VKJIT_X(0); VKJIT_X(1); VKJIT_X(2); VKJIT_X(3); VKJIT_X(4); VKJIT_X(5); VKJIT_X(6); VKJIT_X(7);
VKJIT_X(8); VKJIT_X(9); VKJIT_X(10); VKJIT_X(11); VKJIT_X(12); VKJIT_X(13); VKJIT_X(14); VKJIT_X(15);
#undef VKJIT_X
inline X86Mem ptr(const X86Gp &b, int64_t o = 0, uint32_t s = 0) { return X86Mem(b, o, s); }
inline X86Mem byte_ptr(const X86Gp &b, int64_t o = 0) { return X86Mem(b, o, 1); }
inline X86Mem word_ptr(const X86Gp &b, int64_t o = 0) { return X86Mem(b, o, 2); }
inline X86Mem dword_ptr(const X86Gp &b, int64_t o = 0) { return X86Mem(b, o, 4); }
inline X86Mem qword_ptr(const X86Gp &b, int64_t o = 0) { return X86Mem(b, o, 8); }
} // namespace x86

union Data128 {
    uint8_t ub[16]; int8_t sb[16]; uint16_t uw[8]; int16_t sw[8]; uint32_t ud[4]; uint64_t uq[2];
    Data128() { static std::atomic<uint64_t> n{1}; for (auto &b : ub) b = (uint8_t)((n += 0x9E3779B97F4A7C15ull) >> 56); }   // real ones hold anything
};

struct Arg : vkjit::Op {            // whatever may be an operand
    Arg() {}
    Arg(const vkjit::Op &o) : vkjit::Op(o) {}
    template <typename T, typename = typename std::enable_if<std::is_integral<T>::value>::type> Arg(T x) { k = vkjit::IMM; v = vkjit::paged((int64_t)x); }
};

class CodeEmitter {};
class Logger {
public:
    virtual ~Logger() {}
    virtual Error _log(const char *, size_t) { return 0; }
};
class StringLogger : public Logger { std::string s; public: const char *getString() const { return s.c_str(); } };
class FileLogger : public Logger { public: explicit FileLogger(FILE * = nullptr) {} };
class ErrorHandler {
public:
    virtual ~ErrorHandler() {}
    virtual bool handleError(Error, const char *, CodeEmitter *) = 0;
};
struct CodeInfo {};

class CodeHolder {
public:
    std::shared_ptr<vkjit::Code> code;
    Error init(const CodeInfo &) { code = std::make_shared<vkjit::Code>(); return 0; }
    void setLogger(Logger *) {}
    void setErrorHandler(ErrorHandler *) {}
    intptr_t getLabelOffset(const Label &l) const { return 32 * ((intptr_t)l.label + 1); }
};

class Zone { public: explicit Zone(size_t) {} };
class ConstPool {
public:
    std::vector<uint8_t> bytes;
    explicit ConstPool(Zone *) {}
    Error add(const void *d, size_t size, size_t &offset) {
        for (size_t i = 0; i + size <= bytes.size(); i += size) if (!memcmp(&bytes[i], d, size)) { offset = i; return 0; }
        offset = bytes.size();
        bytes.insert(bytes.end(), (const uint8_t *)d, (const uint8_t *)d + size);
        return 0;
    }
};

class X86Assembler : public CodeEmitter {
    CodeHolder *h;
    void put(vkjit::OpCode op, const Arg &a = Arg(), const Arg &b = Arg(), const Arg &c = Arg()) {
        vkjit::Ins i; i.op = op; i.a = a; i.b = b; i.c = c;
        if (b.k == vkjit::IMM && op != vkjit::MOV && (b.v > 0x7fffffffll || b.v < -0x80000000ll)) throw vkjit::Fault("an immediate that cannot be encoded");
        if (a.k == vkjit::MEM && b.k == vkjit::MEM) throw vkjit::Fault("two memory operands");
        h->code->ins.push_back(i);
    }
public:
    explicit X86Assembler(CodeHolder *c) : h(c) {}
    Label newLabel() { Label l; l.label = (int32_t)h->code->labels.size(); h->code->labels.push_back(-1); h->code->data.push_back(nullptr); return l; }
    Error bind(const Label &l) {
        if (!l.isValid() || h->code->labels[(size_t)l.label] >= 0) throw vkjit::Fault("a label is bound twice or invalid");
        h->code->labels[(size_t)l.label] = (int)h->code->ins.size();
        return 0;
    }
#define VKJIT_2(n, o) Error n(const Arg &a, const Arg &b) { put(vkjit::o, a, b); return 0; }
#define VKJIT_1(n, o) Error n(const Arg &a) { put(vkjit::o, a); return 0; }
#define VKJIT_0(n, o) Error n() { put(vkjit::o); return 0; }
    VKJIT_2(mov, MOV) VKJIT_2(movzx, MOVZX) VKJIT_2(add, ADD) VKJIT_2(sub, SUB) VKJIT_2(cmp, CMP) VKJIT_2(test, TEST) VKJIT_2(and_, AND) VKJIT_2(or_, OR) VKJIT_2(xor_, XOR)
    VKJIT_2(shl, SHL) VKJIT_2(sal, SHL) VKJIT_2(shr, SHR) VKJIT_2(sar, SAR) VKJIT_2(lea, LEA) VKJIT_2(movntdq, MOVDQA) VKJIT_2(movdqa, MOVDQA) VKJIT_2(movdqu, MOVDQ)
    VKJIT_2(movaps, MOVDQA) VKJIT_2(movups, MOVDQ) VKJIT_2(movnti, MOVNTI)
    VKJIT_1(inc, INC) VKJIT_1(dec, DEC) VKJIT_1(neg, NEG) VKJIT_1(not_, NOT) VKJIT_1(push, PUSH) VKJIT_1(pop, POP) VKJIT_1(call, CALL)
    VKJIT_1(jmp, JMP) VKJIT_1(je, JE) VKJIT_1(jz, JE) VKJIT_1(jne, JNE) VKJIT_1(jnz, JNE) VKJIT_1(jb, JB) VKJIT_1(jc, JB) VKJIT_1(jnae, JB) VKJIT_1(jae, JAE) VKJIT_1(jnb, JAE) VKJIT_1(jnc, JAE)
    VKJIT_1(jbe, JBE) VKJIT_1(jna, JBE) VKJIT_1(ja, JA) VKJIT_1(jnbe, JA) VKJIT_1(jl, JL) VKJIT_1(jge, JGE) VKJIT_1(jnl, JGE) VKJIT_1(jle, JLE) VKJIT_1(jng, JLE) VKJIT_1(jg, JG) VKJIT_1(jnle, JG)
    VKJIT_1(js, JS) VKJIT_1(jns, JNS)
    VKJIT_0(ret, RET) VKJIT_0(sfence, FENCE) VKJIT_0(mfence, FENCE) VKJIT_0(lfence, FENCE) VKJIT_0(nop, NOP)
    Error pcmpistri(const Arg &a, const Arg &b, const Arg &c) { put(vkjit::PCMPISTRI, a, b, c); return 0; }
    Error embedConstPool(const Label &l, const ConstPool &p) {
        size_t n = p.bytes.size() + 16;
        uint8_t *m = (uint8_t *)aligned_alloc(16, (n + 15) & ~(size_t)15);
        memset(m, 0, n);
        if (!p.bytes.empty()) memcpy(m, p.bytes.data(), p.bytes.size());
        h->code->keep.emplace_back(m, free);
        h->code->data[(size_t)l.label] = m;
        bind(l);
        return 0;
    }
    Error finalize() { return 0; }
};

class JitRuntime {
    std::mutex mu;
    std::vector<std::unique_ptr<vkjit::Program>> programs;
public:
    CodeInfo getCodeInfo() const { return CodeInfo(); }
    template <typename F> Error add(F *dst, CodeHolder *c) {
        for (auto &i : c->code->ins) for (const vkjit::Op *o : {&i.a, &i.b, &i.c}) {
            if (o->k == vkjit::LAB && c->code->labels.at((size_t)o->label) < 0) throw vkjit::Fault("a jump to a label that is not bound");
            if (o->k == vkjit::MEML && !c->code->data.at((size_t)o->label)) throw vkjit::Fault("a constant that is not embedded");
        }
        std::unique_ptr<vkjit::Program> p(new vkjit::Program(*c->code));
        uint8_t *e = p->stubs;
        memcpy((void *)dst, &e, sizeof e);
        std::lock_guard<std::mutex> l(mu);
        programs.push_back(std::move(p));
        return 0;
    }
    template <typename F> Error release(F f) {
        std::lock_guard<std::mutex> l(mu);
        for (size_t i = 0; i < programs.size(); i++) if ((void *)programs[i]->stubs == (void *)f) { programs.erase(programs.begin() + (long)i); return 0; }
        return kErrorInvalidArgument;
    }
};
} // namespace asmjit
