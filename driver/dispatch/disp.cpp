// Runs factory calls on emulated machines, one process per machine, stepping through every instruction
// executed during the calls; records which back ends' code ran and which instruction sets it used.
// input: M max 1c 1d 7b xcr0 noise <json>   |   c o kind req n   |   u o n   |   d o
#include "otfft.h"
#include "../alloc.h"
#include <cstdio>
#include <cstring>
#include <cstdlib>
#include <csignal>
#include <memory>
#include <string>
#include <array>
#include <vector>
#include <stdexcept>
#include <ucontext.h>
#include <sys/wait.h>
#include <unistd.h>
using namespace OTFFT;
extern "C" { extern uint32_t emu_max, emu_1c, emu_1d, emu_7b, emu_xcr0, emu_noise; extern long emu_cpuid_n, emu_xgetbv_n; int emu_cpu_init(void); void emu_init(void); extern char** environ; }

static unsigned char* MAP; static uintptr_t LO, HI;     // text byte -> 1 SSE2, 2 AVX, 3 AVX2, 4 other library code
static unsigned ran, isa;                              // bit sets
static volatile int on;
enum { I_SSE3 = 1, I_SSSE3 = 2, I_AVX = 4, I_AVX2 = 8, I_FMA = 16, I_512 = 32, I_XSAVE = 64 };
static const char* INAME[] = {"SSE3", "SSSE3", "AVX", "AVX2", "FMA", "AVX512", "XSAVE"};

static inline unsigned classify(const unsigned char* p)
{
    unsigned pre = 0;
    for (;; p++) {
        unsigned char b = *p;
        if (b == 0x66) { if (!pre) pre = 1; }
        else if (b == 0xF2) pre = 3;
        else if (b == 0xF3) pre = 2;
        else if (b == 0x2E || b == 0x36 || b == 0x3E || b == 0x26 || b == 0x64 || b == 0x65 || b == 0x67) ;
        else break;
    }
    if ((*p & 0xF0) == 0x40) p++;
    if (*p == 0x62) return I_512;
    if (*p == 0xC5 || *p == 0xC4) {
        unsigned map = 1, pp, L, W = 0, op;
        if (*p == 0xC5) { pp = p[1] & 3; L = (p[1] >> 2) & 1; op = p[2]; }
        else { map = p[1] & 31; W = p[2] >> 7; pp = p[2] & 3; L = (p[2] >> 2) & 1; op = p[3]; }
        (void)W;
        if (map == 2) {
            unsigned lo = op & 15, hi = op >> 4;
            if ((hi == 9 || hi == 0xA || hi == 0xB) && lo >= 6) return I_FMA;
            if (hi == 9 && lo < 4) return I_AVX2;                                   // gathers
            if (op == 0x16 || op == 0x36 || (op >= 0x45 && op <= 0x47) || op == 0x58 || op == 0x59 || op == 0x5A || op == 0x78 || op == 0x79 || op == 0x8C || op == 0x8E) return I_AVX2;
            if (L && (op <= 0x0B || (op >= 0x1C && op <= 0x1E) || (op >= 0x20 && op <= 0x2B) || (op >= 0x30 && op <= 0x41))) return I_AVX2;
            if ((op == 0x18 || op == 0x19)) return I_AVX;                            // from memory AVX; from a register AVX2 (not told apart)
            return op >= 0xF0 ? 0 : I_AVX;                                           // BMI
        }
        if (map == 3) {
            if (op <= 2 || op == 0x38 || op == 0x39 || op == 0x46) return I_AVX2;
            if (L && (op == 0x0E || op == 0x0F || op == 0x42 || op == 0x4C)) return I_AVX2;
            return op == 0xF0 ? 0 : I_AVX;
        }
        if (L && pp == 1 && ((op >= 0x60 && op <= 0x6D) || (op >= 0x70 && op <= 0x76) || (op >= 0xD1 && op <= 0xD5) || op == 0xD7 || (op >= 0xD8 && op <= 0xE5) || (op >= 0xE8 && op <= 0xEF) || (op >= 0xF1 && op <= 0xFE)))
            return I_AVX2;
        if (L && pp >= 2 && op == 0x70) return I_AVX2;
        return I_AVX;
    }
    if (*p == 0x0F) {
        unsigned op = p[1];
        if (op == 0x38) return p[2] >= 0xF0 ? 0 : I_SSSE3;
        if (op == 0x3A) return I_SSSE3;
        if ((op == 0x7C || op == 0x7D || op == 0xD0) && (pre == 1 || pre == 3)) return I_SSE3;
        if (op == 0x12 && (pre == 2 || pre == 3)) return I_SSE3;
        if (op == 0x16 && pre == 2) return I_SSE3;
        if (op == 0xF0 && pre == 3) return I_SSE3;
        if (op == 0x01 && p[2] == 0xD0) return I_XSAVE;
    }
    return 0;
}

static long steps;
static void trap(int, siginfo_t*, void* v)
{
    ucontext_t* u = (ucontext_t*)v;
    if (!on) { u->uc_mcontext.gregs[REG_EFL] &= ~0x100L; return; }
    steps++;
    uintptr_t a = (uintptr_t)u->uc_mcontext.gregs[REG_RIP];
    if (a < LO || a >= HI) return;
    unsigned c = MAP[a - LO];
    if (!c) return;
    ran |= 1u << c;
    isa |= classify((const unsigned char*)a);
}
static inline __attribute__((always_inline)) void watch() { ran = isa = 0; on = 1; __asm__ volatile ("subq $128,%%rsp; pushfq; orq $0x100,(%%rsp); popfq; addq $128,%%rsp" ::: "memory", "cc"); }
static inline __attribute__((always_inline)) void unwatch() { on = 0; __asm__ volatile ("subq $128,%%rsp; pushfq; andq $~0x100,(%%rsp); popfq; addq $128,%%rsp" ::: "memory", "cc"); }

// what follows a throw, and the mathematical library, is not watched
extern "C" {
void __real___cxa_throw(void*, void*, void (*)(void*));
void __wrap___cxa_throw(void* a, void* t, void (*d)(void*)) { on = 0; __real___cxa_throw(a, t, d); __builtin_unreachable(); }
double __real_sin(double); double __real_cos(double); void __real_sincos(double, double*, double*);
#define WATCH() __asm__ volatile ("subq $128,%%rsp; pushfq; orq $0x100,(%%rsp); popfq; addq $128,%%rsp" ::: "memory", "cc")
double __wrap_sin(double x) { int w = on; on = 0; double r = __real_sin(x); if (w) { on = 1; WATCH(); } return r; }
double __wrap_cos(double x) { int w = on; on = 0; double r = __real_cos(x); if (w) { on = 1; WATCH(); } return r; }
void __wrap_sincos(double x, double* s, double* c) { int w = on; on = 0; __real_sincos(x, s, c); if (w) { on = 1; WATCH(); } }
}

static std::string sets()
{
    std::string r = "\"ran\":[";
    const char* B[] = {"", "SSE2", "AVX", "AVX2"}; bool f = true;
    for (int k = 1; k <= 3; k++) if (ran >> k & 1) { r += std::string(f ? "" : ",") + "\"" + B[k] + "\""; f = false; }
    r += "],\"isa\":["; f = true;
    for (int k = 0; k < 7; k++) if (isa >> k & 1) { r += std::string(f ? "" : ",") + "\"" + INAME[k] + "\""; f = false; }
    const long x = emu_xgetbv_n; emu_xgetbv_n = 0;
    return r + "],\"xcr0\":" + std::to_string(x);
}
struct Obj { char kind = 0; ComplexFFTPtr c; RealFFTPtr r; RealDCTPtr d; int n = 0; };
static OptimizationType req(const std::string& s) { return s == "AUTO" ? OptimizationType::OPTIMIZED_FFT_AUTO : s == "SSE2" ? OptimizationType::OPTIMIZED_FFT_SSE2 : s == "AVX" ? OptimizationType::OPTIMIZED_FFT_AVX : OptimizationType::OPTIMIZED_FFT_AVX2; }

static void child(const std::vector<std::string>& ls, FILE* F)
{
    static Obj obj[64];
    alignas(64) static double x[4096], y[4096];
    unsigned a[6]; int off = 0;
    sscanf(ls[0].c_str(), "M %u %u %u %u %u %u %n", &a[0], &a[1], &a[2], &a[3], &a[4], &a[5], &off);
    emu_cpu_init();
    fprintf(F, "{\"e\":\"cpu\",\"cpu\":%s}\n", ls[0].c_str() + off); fflush(F);
    struct sigaction sa; memset(&sa, 0, sizeof sa); sa.sa_sigaction = trap; sa.sa_flags = SA_SIGINFO | SA_NODEFER; sigaction(SIGTRAP, &sa, nullptr);
    for (size_t i = 1; i < ls.size(); i++) {
        char k, rq[16]; int o, n, exc = 0; const char* s = ls[i].c_str();
        const char* e = "create";
        if (s[0] == 'c') {
            sscanf(s, "c %d %c %15s %d", &o, &k, rq, &n);
            Obj& b = obj[o]; b = Obj(); b.kind = k; b.n = n;
            const OptimizationType t = req(rq);
            { va::In in(o);
            watch();
            try { if (k == 'C') b.c = Factory::createComplexFFT(n, t); else if (k == 'B') b.c = Factory::createBluesteinFFT(n, t); else if (k == 'R') b.r = Factory::createRealFFT(n, t); else b.d = Factory::createDCT(n, t); }
            catch (const std::domain_error&) { exc = 1; } catch (...) { exc = 2; }
            unwatch(); }
            if (!exc && !b.c && !b.r && !b.d) exc = 3;
            fprintf(F, "{\"e\":\"create\",\"o\":%d,\"kind\":\"%c\",\"req\":\"%s\",\"n\":%d,\"exc\":%d,\"live\":%ld,\"steps\":%ld,%s}\n", o, k, rq, n, exc, va::live_blocks(o), steps, sets().c_str());
        } else if (s[0] == 'u') {
            sscanf(s, "u %d %d", &o, &n); e = "use";
            Obj& b = obj[o];
            if (!b.c && !b.r && !b.d) continue;
            for (int j = 0; j < 4096; j++) { x[j] = 1.0 / (j + 1); y[j] = 0; }
            { va::In in(o);
            watch();
            try {
                if (b.c) { if (n != b.n) b.c->setup(n); b.c->fwd((complex_t*)x); b.c->inv((complex_t*)x); }
                else if (b.r) { if (n != b.n) b.r->setup(n); b.r->fwd(x, (complex_t*)y); b.r->inv((complex_t*)y, x); }
                else { if (n != b.n) b.d->setup(n); b.d->fwd(x); b.d->inv(x); }
            } catch (...) { exc = 2; }
            unwatch(); }
            b.n = n;
            fprintf(F, "{\"e\":\"use\",\"o\":%d,\"exc\":%d,\"steps\":%ld,%s}\n", o, exc, steps, sets().c_str());
        } else {
            sscanf(s, "d %d", &o); e = "destroy";
            Obj& b = obj[o];
            if (!b.c && !b.r && !b.d) continue;
            { va::In in(o);
              watch();
              try { b.c.reset(); b.r.reset(); b.d.reset(); } catch (...) { exc = 2; }
              unwatch(); }
            fprintf(F, "{\"e\":\"destroy\",\"o\":%d,\"exc\":%d,\"live\":%ld,\"steps\":%ld,%s}\n", o, exc, va::live_blocks(o), steps, sets().c_str());
        }
        (void)e; fflush(F); steps = 0;
    }
    fclose(F);
    _exit(0);
}

static void load_map(const char* f)
{
    FILE* mf = fopen(f, "r"); unsigned long s, z; int c;
    std::vector<std::array<unsigned long, 3>> rs;
    LO = ~0ul; HI = 0;
    while (fscanf(mf, "%lx %lx %d", &s, &z, &c) == 3) { rs.push_back({s, z, (unsigned long)c}); if (s < LO) LO = s; if (s + z > HI) HI = s + z; }
    MAP = (unsigned char*)calloc(HI - LO + 1, 1);
    for (auto& r : rs) memset(MAP + (r[0] - LO), (int)r[2], r[1]);
    fclose(mf);
}

int main(int n, char** v)
{
    FILE* in = fopen(v[1], "r");
    if (n > 4) fseek(in, atol(v[4]), SEEK_SET);
    char line[1024]; std::vector<std::vector<std::string>> ms; std::vector<long> at;
    long pos = ftell(in);
    while (fgets(line, sizeof line, in)) {
        if (char* e = strchr(line, '\n')) *e = 0;
        if (line[0] == 'M') { if (n > 4 && !ms.empty()) break; ms.emplace_back(); at.push_back(pos); }
        ms.back().push_back(line);
        pos = ftell(in);
    }
    va::fill = 1;
    if (n > 4) { load_map(v[3]); FILE* F = fopen(v[2], "a"); alarm(120); child(ms[0], F); }
    for (size_t k = 0; k < ms.size(); k++) {
        fflush(nullptr);
        const std::string o = std::to_string(at[k]);
        pid_t p = fork();
        if (p == 0) {
            unsigned a[6]; sscanf(ms[k][0].c_str(), "M %u %u %u %u %u %u", &a[0], &a[1], &a[2], &a[3], &a[4], &a[5]);
            char e[200]; snprintf(e, sizeof e, "%u %u %u %u %u %u", a[0], a[1], a[2], a[3], a[4], a[5]);
            setenv("EMU", e, 1);
            execl(v[0], v[0], v[1], v[2], v[3], o.c_str(), (char*)nullptr);
            _exit(99);
        }
        int st = 0; waitpid(p, &st, 0);
        if (!WIFEXITED(st) || WEXITSTATUS(st)) { FILE* F = fopen(v[2], "a"); fprintf(F, "{\"e\":\"crash\",\"what\":\"%s %d\"}\n", WIFSIGNALED(st) ? "signal" : "status", WIFSIGNALED(st) ? WTERMSIG(st) : WEXITSTATUS(st)); fclose(F); }
    }
}
