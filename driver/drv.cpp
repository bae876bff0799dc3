// Replays the specification's behaviours on the real library (public API only) and records what it does.
//   drv SCRIPT OUT
// SCRIPT is a line-based rendering of behaviours elaborated by TLC; OUT gets one JSON line per step.
#include "otfft.h"
#include "otfft_complex.h"
#include "alloc.h"
#include "sig.h"
#include "raw.h"
#ifdef SCHED
#include "sched.h"
static bool g_conc = false;
#define BEGIN_CALL(o, h, ...) if (!g_conc) sch::begin_call(o, {__VA_ARGS__}, h)
#define WORK (long)sch::work()
#define END_CALL(q) if (!g_conc) q << sch::end_call()
#else
#define BEGIN_CALL(o, h, ...)
#define WORK 0L
#define END_CALL(q)
static bool g_conc = false;
#endif
#include <omp.h>
#include <cstring>
#include <fstream>
#include <iostream>
#include <thread>
#include <atomic>
#include <map>
#include <memory>
#include <sstream>
#include <stdexcept>
#include <typeinfo>
#include <csignal>
#include <fcntl.h>
#include <dirent.h>
#include <algorithm>
#include <sys/mman.h>
#include <sys/prctl.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>
#include <cxxabi.h>

using namespace OTFFT;
static int g_threads = 1, g_thr = 1;
static int g_fd = -1;
static const unsigned char CANB = 0xA5;

static void emit(const std::string& s) { std::string l = s + "\n"; size_t o = 0; while (o < l.size()) { ssize_t w = write(g_fd, l.data() + o, l.size() - o); if (w <= 0) _exit(4); o += w; } }

// ---------------------------------------------------------------- buffers
struct Buf {
    char* map = nullptr; size_t maplen = 0; char* lo = nullptr; char* hi = nullptr;  // [lo,hi): accessible
    double* p = nullptr; size_t n = 0; int mode = -1; bool heap = false;
    void release() { if (map) { if (heap) free(map); else munmap(map, maplen); } map = nullptr; p = nullptr; mode = -1; n = 0; }
    // mode: bit0 +8 bytes, bit1 flush with upper guard page, bit2 flush with lower guard page
    void ensure(size_t cnt, int m)
    {
        m &= 7;
        if (p && n == cnt && mode == m) return;
        release();
        size_t bytes = cnt * 8;
        if (m & 6) {
            size_t pg = 4096, body = (bytes + 16 + pg - 1) / pg * pg;
            map = (char*)mmap(nullptr, body + 2 * pg, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
            if (map == MAP_FAILED) { perror("mmap"); _exit(5); }
            maplen = body + 2 * pg; heap = false; lo = map + pg; hi = map + pg + body;
            mprotect(lo, body, PROT_READ | PROT_WRITE);
            if (m & 2) p = (double*)(hi - bytes - ((m & 1) ? 8 : 0)); else p = (double*)(lo + ((m & 1) ? 8 : 0));
        } else {
            maplen = bytes + 64 + 512 + 512; heap = true;
            map = (char*)malloc(maplen);
            if (!map) { perror("malloc"); _exit(5); }
            lo = map; hi = map + maplen;
            uintptr_t a = ((uintptr_t)map + 512 + 63) / 64 * 64 + ((m & 1) ? 8 : 0);
            p = (double*)a;
        }
        n = cnt; mode = m;
        canary();
    }
    void canary() { size_t a = std::min<size_t>((char*)p - lo, 512); memset((char*)p - a, CANB, a); char* e = (char*)(p + n); size_t b = std::min<size_t>(hi - e, 512); memset(e, CANB, b); }
    bool ok() const
    {
        size_t a = std::min<size_t>((char*)p - lo, 512);
        for (size_t i = 1; i <= a; i++) if (((unsigned char*)p)[-(ptrdiff_t)i] != CANB) return false;
        const unsigned char* e = (const unsigned char*)(p + n); size_t b = std::min<size_t>(hi - (const char*)e, 512);
        for (size_t i = 0; i < b; i++) if (e[i] != CANB) return false;
        return true;
    }
    void protect(int prot) { if (!heap) mprotect(lo, hi - lo, prot); }
};

struct Slot {
    char kind = 0; int n = 0;
    ComplexFFTPtr c; RealFFTPtr r; RealDCTPtr d; Raw* raw = nullptr;
    int home = 0; Slot* of = nullptr;      // the slot whose object this one uses (its own, or the one it shares)
    Buf a, b;           // a: complex array (or the DCT's real array); b: the real array of RealFFT
    Buf w1, w2;         // work arrays of the caller's, for the transforms that have none
    void reset() { c.reset(); r.reset(); d.reset(); delete raw; raw = nullptr; }
    Buf* out = nullptr; // last output
};
static std::map<int, Slot> slots;

static uint64_t hash_arr(const double* p, size_t n, int sc)
{
    uint64_t h = 1469598103934665603ull;
    for (size_t i = 0; i < n; i++) {
        double v = p[i]; if (sc) v = ldexp(v, -sc);
        uint64_t w; memcpy(&w, &v, 8);
        h ^= w; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
    }
    return h;
}
static std::string hx(uint64_t h) { char b[20]; snprintf(b, 20, "%016llx", (unsigned long long)h); return b; }
static double noise(uint64_t seed, uint64_t i)
{
    uint64_t z = seed * 0x9E3779B97F4A7C15ull + (i + 1) * 0xBF58476D1CE4E5B9ull;
    z ^= z >> 30; z *= 0xBF58476D1CE4E5B9ull; z ^= z >> 27; z *= 0x94D049BB133111EBull; z ^= z >> 31;
    return ((double)(int64_t)(z >> 11) - 4503599627370496.0) / 4503599627370496.0;
}
static long units(sig::ld err, sig::ld sc)
{
    if (!(err == err) || !(sc == sc)) return 2000000000;
    if (err == 0) return 0;
    if (sc == 0) return 2000000000;
    sig::ld u = err / (sc * 0x1p-52L);
    if (!(u < 1.9e9L)) return 2000000000;
    return (long)ceill(u);
}

static const OptimizationType optOf(char c)
{
    switch (c) { case 'S': return OptimizationType::OPTIMIZED_FFT_SSE2; case 'V': return OptimizationType::OPTIMIZED_FFT_AVX;
                 case 'W': return OptimizationType::OPTIMIZED_FFT_AVX2; default: return OptimizationType::OPTIMIZED_FFT_AUTO; }
}
template <class T> static std::string beOf(const T& p)
{
    if (!p) return "none";
    const auto& rp = *p; const char* nm = typeid(rp).name(); std::string s = nm;
    if (s.find("OTFFT_AVX2") != s.npos) return "AVX2";
    if (s.find("OTFFT_AVX") != s.npos) return "AVX";
    if (s.find("OTFFT_SSE2") != s.npos) return "SSE2";
    return "other";
}

static sig::Sig rdsig(std::istream& in)
{
    int k; in >> k; sig::Sig s;
    if (k < 0) return s;
    for (int i = 0; i < k; i++) { sig::Term t; in >> t.t >> t.i; double a, b; in >> a >> b; t.re = a; t.im = b; in >> t.ph >> t.h >> t.e; s.push_back(t); }
    return s;
}

// ---------------------------------------------------------------- the caller's own state
#ifndef SCHED
struct User { bool on = false; unsigned mx = 0x1f80; unsigned short cw = 0x37f; int thr = 1, dyn = 0, ml = 1, par = 0, peak = 1; };
static User g_user;
static int g_io = -1;
static unsigned getmx() { unsigned v; asm volatile("stmxcsr %0" : "=m"(v)); return v; }
static void setmx(unsigned v) { asm volatile("ldmxcsr %0" : : "m"(v)); }
static unsigned short getcw() { unsigned short v; asm volatile("fnstcw %0" : "=m"(v)); return v; }
static void setcw(unsigned short v) { asm volatile("fldcw %0" : : "m"(v)); }
static int ntasks() { int n = 0; DIR* d = opendir("/proc/self/task"); if (!d) return 0; while (dirent* e = readdir(d)) if (e->d_name[0] != '.') n++; closedir(d); return n; }
// threads that left a team end on their own time: wait for them before counting more than the user allowed
static int settled_tasks(int allowed) { int n = ntasks(); for (int i = 0; i < 400 && n > allowed; i++) { usleep(i < 100 ? 100 : 1000); n = ntasks(); } return n; }
static std::string user_state(unsigned mx, unsigned cw)
{
    std::ostringstream q; omp_sched_t k; int ch; omp_get_schedule(&k, &ch);
    sigset_t ss; pthread_sigmask(SIG_SETMASK, nullptr, &ss); uint64_t m = 0; for (int i = 1; i < 64; i++) if (sigismember(&ss, i) == 1) m |= 1ull << i;
    q << ",\"cl\":{\"mx\":" << (mx & 0xffc0) << ",\"cw\":" << cw << ",\"sm\":\"" << hx(m) << "\",\"th\":" << omp_get_max_threads() << ",\"dy\":" << omp_get_dynamic()
      << ",\"ml\":" << omp_get_max_active_levels() << ",\"sk\":" << (int)k << ",\"sc\":" << ch << "}";
    return q.str();
}
struct Around {
    template <class F> static void call(F&& f, std::ostringstream& q)
    {
        if (!g_user.on || g_conc) { f(); return; }
        unsigned keep = getmx(); unsigned short kcw = getcw();
        unsigned before = g_user.mx & ~0x3fu;
        #pragma omp parallel num_threads(g_user.thr)
        { setmx(before); }
        unsigned mx = 0; unsigned short cw = 0; unsigned fx = 0; int nt = 0; std::exception_ptr ex;
        auto run = [&] {
            setcw(g_user.cw); setmx(before);
            try { f(); } catch (...) { ex = std::current_exception(); }
            mx = getmx(); cw = getcw();
        };
        if (g_user.par) {
            const int P = g_user.par, who = P / 2;
            #pragma omp parallel num_threads(P)
            { if (omp_get_thread_num() == std::min(who, omp_get_num_threads() - 1)) run(); }
        } else run();
        if (g_user.par) g_user.peak = 1 << 30;      // (nested teams are not counted)
        nt = settled_tasks(g_user.peak);
        std::string st = user_state(mx, cw);
        std::vector<unsigned> wk;       // (threads that the next region creates inherit from this one)
        #pragma omp parallel num_threads(g_user.thr)
        if (omp_get_thread_num() > 0) { unsigned v = getmx();
            #pragma omp critical
            { fx |= v & 0x3f; wk.push_back(v & 0xffc0); } }
        #pragma omp parallel num_threads(g_user.thr)
        { setmx(keep); }
        setcw(kcw); setmx(keep);
        fx |= mx & 0x3f;
        std::sort(wk.begin(), wk.end()); wk.erase(std::unique(wk.begin(), wk.end()), wk.end());
        q << st << ",\"wk\":["; for (size_t i = 0; i < wk.size(); i++) q << (i ? "," : "") << wk[i];
        off_t io = g_io >= 0 ? lseek(g_io, 0, SEEK_END) : 0;
        q << "],\"fx\":" << fx << ",\"nt\":" << nt << ",\"io\":" << (long)io;
        if (ex) std::rethrow_exception(ex);
    }
};
#else
struct Around { template <class F> static void call(F&& f, std::ostringstream&) { f(); } };
#endif

static int callop(Slot& me, int op)
{
    Slot& s = me.of ? *me.of : me; complex_t* x = (complex_t*)me.a.p;
    if (s.raw) { s.raw->run(op, me.a.p, me.w1.p, me.w2.p); return 0; }
    switch (s.kind) {
    case 'C': case 'B':
        switch (op) { case 0: s.c->fwd(x); break; case 1: s.c->fwd0(x); break; case 2: s.c->fwdu(x); break; case 3: s.c->fwdn(x); break;
                      case 4: s.c->inv(x); break; case 5: s.c->inv0(x); break; case 6: s.c->invu(x); break; case 7: s.c->invn(x); break; }
        break;
    case 'R':
        switch (op) { case 0: s.r->fwd(me.b.p, x); break; case 1: s.r->fwd0(me.b.p, x); break; case 2: s.r->fwdu(me.b.p, x); break; case 3: s.r->fwdn(me.b.p, x); break;
                      case 4: s.r->inv(x, me.b.p); break; case 5: s.r->inv0(x, me.b.p); break; case 6: s.r->invu(x, me.b.p); break; case 7: s.r->invn(x, me.b.p); break; }
        break;
    case 'D':
        switch (op) { case 0: s.d->fwd(me.a.p); break; case 1: s.d->fwd0(me.a.p); break; case 3: s.d->fwdn(me.a.p); break;
                      case 4: s.d->inv(me.a.p); break; case 5: s.d->inv0(me.a.p); break; case 7: s.d->invn(me.a.p); break; }
        break;
    }
    return 0;
}

static long g_rep = 0;       // how often the next call is repeated
struct Step { std::vector<std::string> lines; };

static std::string heapinfo(int o)
{
    std::ostringstream q;
    q << ",\"blk\":" << va::live_blocks(o) << ",\"tot\":" << va::live_blocks() << ",\"bf\":" << va::badfree << ",\"na\":" << va::count << ",\"hc\":" << (va::check_all() && va::canary == 0 ? 1 : 0);
    return q.str();
}

// the cost of a call, per element: bytes read and written (instrumented build), bytes of memory held at most
struct Cost {
    long base;
    explicit Cost(int o) { base = va::held - va::live_bytes(o); va::peak = va::held; }
    void put(std::ostringstream& q, long n, bool again = false) const {      // again: a setup, of which only what it leaves counts (the old tables may live on until the new ones are there)
        if (g_conc) return; if (n < 1) n = 1; if (again) va::peak = va::held; q << ",\"wb\":" << std::min(2000000000L, (WORK + n - 1) / n) << ",\"mb\":" << std::min(2000000000L, (va::peak - base + n - 1) / n); }
};

static void do_step(int cs, int st, const std::string& line)
{
    std::istringstream in(line);
    std::string cmd; in >> cmd;
    std::ostringstream q; q << "{\"c\":" << cs << ",\"s\":" << st;
    if (cmd == "c" || cmd == "s") {
        int o; in >> o; Slot& s = slots[o]; std::string res = "ok";
        char kind = s.kind, be = 'A'; int n; long fk;
        if (cmd == "c") in >> kind >> n >> be >> fk; else in >> n >> fk;
        if (!g_conc) va::arm(fk);
        Cost cost(o);
        BEGIN_CALL(o, o);
        try { Around::call([&] {
            va::In g(o);
            if (cmd == "c") {
                if (kind == 'C') s.c = Factory::createComplexFFT(n, optOf(be));
                else if (kind == 'R') s.r = Factory::createRealFFT(n, optOf(be));
                else if (kind == 'D') s.d = Factory::createDCT(n, optOf(be));
                else if (kind == 'B') s.c = Factory::createBluesteinFFT(n, optOf(be));
            } else {
                for (long i = g_rep > 1 ? g_rep : 1; i > 0; i--) { if (kind == 'C' || kind == 'B') s.c->setup(n); else if (kind == 'R') s.r->setup(n); else s.d->setup(n); }
                g_rep = 0;
            } }, q);
        } catch (const std::bad_alloc&) { res = "bad_alloc"; }
        catch (const std::domain_error&) { res = "domain_error"; }
        catch (...) { res = "other"; }
        if (cmd == "c") { s.kind = kind; s.out = nullptr; s.home = o; s.of = nullptr; }
        s.n = n;
        END_CALL(q);
        cost.put(q, n, cmd == "s");
        q << ",\"res\":\"" << res << "\",\"fl\":" << va::failed << heapinfo(o);
        if (cmd == "c") q << ",\"be\":\"" << (kind == 'R' ? beOf(s.r) : kind == 'D' ? beOf(s.d) : beOf(s.c)) << "\"";
        if (!g_conc) va::arm(0);
        if (cmd == "c" && res != "ok") { s.kind = 0; }
    } else if (cmd == "d") {
        int o; in >> o; Slot& s = slots[o];
        if (!g_conc) va::count = 0;
        BEGIN_CALL(o, o);
        Around::call([&] { va::In g(o); s.reset(); }, q);
        END_CALL(q);
        q << heapinfo(o);
        s.kind = 0; s.out = nullptr;
    } else if (cmd == "R") {
        // a transform without work arrays of its own, of a named back end
        int o, n; char kind, be; in >> o >> kind >> n >> be; Slot& s = slots[o]; std::string res = "ok";
        if (!raw_available()) { fprintf(stderr, "no raw transforms here\n"); _exit(6); }
        if (!g_conc) va::arm(0);
        Cost cost(o);
        BEGIN_CALL(o, o);
        try { Around::call([&] { va::In g(o); s.raw = raw_make(kind, be, n); }, q); } catch (...) { res = "other"; }
        END_CALL(q);
        cost.put(q, n);
        s.kind = kind; s.n = n; s.out = nullptr; s.home = o; s.of = nullptr;
        q << ",\"res\":\"" << res << "\"" << heapinfo(o);
    } else if (cmd == "h") {
        int o, p; in >> o >> p; Slot& s = slots[o]; Slot& t = slots[p]; s.kind = t.kind; s.n = t.n; s.out = nullptr; s.home = p; s.of = &t;
    } else if (cmd == "g") {
        int o; in >> o; Slot& s = slots[o]; s.kind = 0; s.out = nullptr; s.of = nullptr; s.home = o;
    } else if (cmd == "x") {
        int o, op, fl; std::string src; in >> o >> op >> fl >> src; Slot& s = slots[o];
        bool fwd = op < 4; int n = s.n; size_t N = n; const int home = s.home; const bool raw = (s.of ? s.of : &s)->raw != nullptr;
        Buf* ib; Buf* ob; size_t ic, oc;   // doubles
        bool icx, ocx;
        if (s.kind == 'R') { ib = fwd ? &s.b : &s.a; ob = fwd ? &s.a : &s.b; ic = fwd ? N : 2 * N; oc = fwd ? 2 * N : N; icx = !fwd; ocx = fwd; }
        else if (s.kind == 'D') { ib = ob = &s.a; ic = oc = N; icx = ocx = false; }
        else { ib = ob = &s.a; ic = oc = 2 * N; icx = ocx = true; }
        int sc = 0; long nanat = -1;
        if (src == "K") {
            if (ib->n != ic || !ib->p) { fprintf(stderr, "K without content: %s\n", line.c_str()); _exit(6); }
        } else {
            ib->ensure(ic, fl); ib->canary();
            if (src == "L") {
                sig::Eval e; e.setup(N, rdsig(in));
                double* p = ib->p;
                e.each(N >= (1 << 21) ? g_threads : 1, [&](int, int64_t a, int64_t b, const sig::C* v) {
                    for (int64_t i = a; i < b; i++) { if (icx) { p[2 * i] = (double)v[i - a].re; p[2 * i + 1] = (double)v[i - a].im; } else p[i] = (double)v[i - a].re; }
                });
            } else if (src == "R" || src == "N" || src == "S") {
                // R seed sc: noise * 2^sc;  N seed j: noise with a NaN at element j;  S seed1 seed2: sum of two noises
                long seed, a2; in >> seed >> a2;
                for (size_t i = 0; i < ic; i++) ib->p[i] = noise(seed, i);
                if (src == "R") { sc = (int)a2; if (sc) for (size_t i = 0; i < ic; i++) ib->p[i] = ldexp(ib->p[i], sc); }
                if (src == "S") for (size_t i = 0; i < ic; i++) ib->p[i] += noise(a2, i);
                if (src == "N") { nanat = a2; double nn = __builtin_nan(""); if (icx) ib->p[2 * a2] = ib->p[2 * a2 + 1] = nn; else ib->p[a2] = nn; }
            } else if (src == "Z") for (size_t i = 0; i < ic; i++) ib->p[i] = 0;
            else if (src == "F") for (size_t i = 0; i < ic; i++) ib->p[i] = __builtin_nan("");
            else if (src == "I") for (size_t i = 0; i < ic; i++) ib->p[i] = (i & 1) ? INFINITY : -INFINITY;
            else { fprintf(stderr, "bad src %s\n", src.c_str()); _exit(6); }
            if (s.kind == 'R' && !fwd && (fl & 8)) for (size_t k = N / 2 + 1; k < N; k++) ib->p[2 * k] = ib->p[2 * k + 1] = __builtin_nan("");
        }
        std::vector<double> keep; if (g_rep > 1) keep.assign(ib->p, ib->p + ic);
        if (ob != ib) { ob->ensure(oc, fl); memset(ob->p, 0xFF, oc * 8); ob->canary(); }
        if (raw) {
            // work arrays as the README has them: aligned, of exactly the size it names, holding anything
            auto prep = [&](Buf& w, size_t cnt) { w.ensure(cnt, (fl & 2) && cnt % 8 == 0 ? 2 : (fl & 6) ? 4 : 0); memset(w.p, 0xFF, cnt * 8); w.canary(); };
            prep(s.w1, s.kind == 'C' ? 2 * N : N); if (s.kind == 'D') prep(s.w2, 2 * N);
        }
        bool ro = s.kind == 'R' && fwd; uint64_t hin = 0;
        if (ro) { hin = hash_arr(ib->p, ic, 0); ib->protect(PROT_READ); }
        if (!g_conc) { va::count = 0; va::badfree = 0; }
#ifdef SCHED
        sch::know(o, ib == &s.a ? 0 : 1, (uintptr_t)ib->p, (uintptr_t)(ib->p + ic)); sch::know(o, ob == &s.a ? 0 : 1, (uintptr_t)ob->p, (uintptr_t)(ob->p + oc));
        for (int k = 0; raw && k < 2; k++) { Buf& w = k ? s.w2 : s.w1; if (w.p) sch::know(o, 2 + k, (uintptr_t)w.p, (uintptr_t)(w.p + w.n)); }
        const std::vector<sch::Range> mine = raw ? std::vector<sch::Range>{{(uintptr_t)ob->p, (uintptr_t)(ob->p + oc), true}, {(uintptr_t)s.w1.p, (uintptr_t)(s.w1.p + s.w1.n), true}, {(uintptr_t)s.w2.p, (uintptr_t)(s.w2.p + s.w2.n), true}}
            : std::vector<sch::Range>{{(uintptr_t)ob->p, (uintptr_t)(ob->p + oc), true}, {(uintptr_t)ib->p, (uintptr_t)(ib->p + ic), !ro}};
#endif
        Cost cost(o);
#ifdef SCHED
        if (!g_conc) sch::begin_call(o, mine, home);
#endif
        struct timespec t0, t1; clock_gettime(CLOCK_MONOTONIC, &t0);
        Around::call([&] { va::In g(home); callop(s, op); }, q);
        clock_gettime(CLOCK_MONOTONIC, &t1);
        END_CALL(q);
        cost.put(q, n);
        if (ro) { ib->protect(PROT_READ | PROT_WRITE); q << ",\"in\":" << (hash_arr(ib->p, ic, 0) == hin ? 1 : 0); }
        s.out = ob;
        const long rep = g_rep; g_rep = 0;
        uint64_t h1 = hash_arr(ob->p, oc, sc);
        if (rep > 1) {
            // the same call on the same input again and again (the first call took place on keep's contents)
            long rd = 0;
            for (long i = 1; i < rep; i++) {
                if (ib == ob) memcpy(ib->p, keep.data(), ic * 8); else if (!ro) memcpy(ib->p, keep.data(), ic * 8);
                { va::In g(home); callop(s, op); }
                if (hash_arr(ob->p, oc, sc) != h1) rd++;
            }
            q << ",\"rd\":" << rd;
        }
        q << ",\"can\":" << (ib->ok() && ob->ok() && (!raw || (s.w1.ok() && (s.kind == 'C' || s.w2.ok()))) ? 1 : 0) << ",\"hc\":" << (va::check_all() ? 1 : 0);
        q << ",\"h\":\"" << hx(h1) << "\"";
        if (ro) {
            bool herm = true; const double* y = ob->p;
            for (size_t k = 1; k < N; k++) { size_t m = N - k; if (!(y[2 * k] == y[2 * m] && y[2 * k + 1] == -y[2 * m + 1])) { herm = false; break; } }
            if (N > 0 && !(y[1] == 0)) herm = false;
            q << ",\"herm\":" << (herm ? 1 : 0);
        }
        if (src == "Z") { bool z = true; for (size_t i = 0; i < oc; i++) if (!(ob->p[i] == 0)) z = false; q << ",\"z\":" << (z ? 1 : 0); }
        if (src == "N") {
            long cnt = 0; std::string l;
            for (size_t k = 0; k < N; k++) {
                bool nan = ocx ? (ob->p[2 * k] != ob->p[2 * k] || ob->p[2 * k + 1] != ob->p[2 * k + 1]) : ob->p[k] != ob->p[k];
                if (!nan) { if (cnt < 200) { if (cnt) l += ","; l += std::to_string(k); } cnt++; }
            }
            q << ",\"nnc\":" << cnt << ",\"nn\":[" << l << "]";
        }
        std::string bar; in >> bar;
        if (bar == "E") {
            sig::Eval e; e.setup(N, rdsig(in));
            int T = N >= (1 << 21) ? g_threads : 1;
            std::vector<sig::ld> me(T, 0), mx(T, 0); std::vector<int64_t> at(T, -1); const double* p = ob->p; std::vector<char> bad(T, 0);
            e.each(T, [&](int t, int64_t a, int64_t b, const sig::C* v) {
                for (int64_t i = a; i < b; i++) {
                    sig::ld er, ei, mag;
                    if (ocx) { er = fabsl(p[2 * i] - v[i - a].re); ei = fabsl(p[2 * i + 1] - v[i - a].im); }
                    else { er = fabsl(p[i] - v[i - a].re); ei = 0; }
                    mag = fmaxl(fabsl(v[i - a].re), fabsl(v[i - a].im));
                    if (mag > mx[t]) mx[t] = mag;
                    sig::ld x = fmaxl(er, ei);
                    if (er != er || ei != ei) { if (!bad[t]) at[t] = i; bad[t] = 1; }
                    else if (!bad[t] && x > me[t]) { me[t] = x; at[t] = i; }
                }
            });
            sig::ld E = 0, X = 0; bool b = false; int64_t w = -1;
            for (int t = 0; t < T; t++) { if (bad[t]) { b = true; w = at[t]; } if (me[t] > E) { E = me[t]; if (!b) w = at[t]; } if (mx[t] > X) X = mx[t]; }
            q << ",\"r\":" << (b ? 2000000000 : units(E, X)) << ",\"at\":" << w;
        }
        if (getenv("DRV_TIME")) { q << ",\"us\":" << (long)((t1.tv_sec - t0.tv_sec) * 1000000 + (t1.tv_nsec - t0.tv_nsec) / 1000); }
        q << ",\"na\":" << va::count << ",\"bf\":" << va::badfree;
    } else if (cmd == "m") {
        // distance of the last outputs of two slots
        int a, b; in >> a >> b; Slot& A = slots[a]; Slot& B = slots[b];
        sig::ld e = 0, m = 0; bool bad = A.out == nullptr || B.out == nullptr || A.out->n != B.out->n;
        if (!bad) for (size_t i = 0; i < A.out->n; i++) {
            sig::ld d = fabsl((sig::ld)A.out->p[i] - B.out->p[i]); if (d != d) bad = true; if (d > e) e = d;
            sig::ld g = fmaxl(fabs(A.out->p[i]), fabs(B.out->p[i])); if (g > m) m = g;
        }
        q << ",\"r\":" << (bad ? 2000000000 : units(e, m));
    } else if (cmd == "l") {
        // out_c against out_a + out_b
        int c, a, b; in >> c >> a >> b; Slot &Cc = slots[c], &A = slots[a], &B = slots[b];
        sig::ld e = 0, m = 0; bool bad = !A.out || !B.out || !Cc.out || A.out->n != B.out->n || A.out->n != Cc.out->n;
        if (!bad) for (size_t i = 0; i < A.out->n; i++) {
            sig::ld su = (sig::ld)A.out->p[i] + B.out->p[i], d = fabsl(su - Cc.out->p[i]); if (d != d) bad = true; if (d > e) e = d;
            sig::ld g = fmaxl(fabsl(su), fmaxl(fabs(A.out->p[i]), fabs(B.out->p[i]))); if (g > m) m = g;
        }
        q << ",\"r\":" << (bad ? 2000000000 : units(e, m));
    } else if (cmd == "r") {
        in >> g_rep;
    } else if (cmd == "v") {
        int thr; in >> va::fill >> va::guard >> thr; omp_set_num_threads(thr); g_thr = thr;
#ifndef SCHED
    } else if (cmd == "u") {
        int rc, ftz; in >> rc >> ftz >> g_user.thr >> g_user.dyn >> g_user.ml >> g_user.par; g_user.on = true; g_user.peak = std::max(g_user.peak, g_user.thr);
        g_user.mx = 0x1f80 | (unsigned)(rc & 3) << 13 | (ftz & 1 ? 0x8000 : 0) | (ftz & 2 ? 0x40 : 0);
        g_user.cw = (unsigned short)(0x37f | (rc & 3) << 10);
        omp_set_num_threads(g_user.thr); g_thr = g_user.thr; omp_set_dynamic(g_user.dyn); omp_set_max_active_levels(g_user.ml);
        q << user_state(g_user.mx, g_user.cw);
#else
    } else if (cmd == "w") {
        int T, mode; uint64_t seed; size_t k; in >> T >> mode >> seed >> k; std::vector<int> p(k); for (auto& v : p) in >> v;
        sch::set(T, mode, seed, p);
#endif
    } else if (cmd == "E") {
        // end of a case: everything the case did not destroy is destroyed now by the driver, outside the record
        q << ",\"tot\":" << va::live_blocks() << ",\"bf\":" << va::badfree << ",\"hc\":" << (va::check_all() && va::canary == 0 && va::quarantine_ok() ? 1 : 0);
#ifdef SCHED
        sch::forget_users();
#endif
        for (auto& k : slots) { va::In g(k.first); k.second.reset(); k.second.kind = 0; k.second.out = nullptr; k.second.of = nullptr; }
        bool keep = false; std::string w; if (in >> w) keep = w == "keep";
        if (!keep) { for (auto& k : slots) { k.second.a.release(); k.second.b.release(); k.second.w1.release(); k.second.w2.release(); } slots.clear(); }
        va::forget();
    } else { fprintf(stderr, "bad command %s\n", line.c_str()); _exit(6); }
    q << "}";
    emit(q.str());
}

struct Shared { volatile int cs, st; volatile long beat; };

int main(int argc, char** argv)
{
    if (argc < 3) return 3;
    if (getenv("DRV_THREADS")) g_threads = atoi(getenv("DRV_THREADS"));
    int limit = getenv("DRV_LIMIT") ? atoi(getenv("DRV_LIMIT")) : 90;
    std::ifstream f(argv[1]);
    struct Case { int id, fill, guard, thr; std::vector<std::string> l; };
    std::vector<Case> cases; std::string line;
    while (std::getline(f, line)) {
        if (line.empty()) continue;
        if (line[0] == 'C') { std::istringstream in(line); std::string t; Case c; in >> t >> c.id >> c.fill >> c.guard >> c.thr; cases.push_back(c); }
        else cases.back().l.push_back(line);
    }
#ifndef SCHED
    if (getenv("DRV_CALLER")) {
        // the standard streams are the user's: what arrives there is counted
        fflush(stdout); fflush(stderr);
        g_io = memfd_create("io", MFD_CLOEXEC); if (g_io < 0) return 3;
        dup2(g_io, 1); dup2(g_io, 2); setvbuf(stdout, nullptr, _IONBF, 0);
    }
#endif
    g_fd = open(argv[2], O_CREAT | O_TRUNC | O_WRONLY | O_APPEND, 0644);
    if (g_fd < 0) return 3;
    Shared* sh = (Shared*)mmap(nullptr, 4096, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
    const bool fresh = getenv("DRV_FRESH") != nullptr;      // a process of its own for every case
    size_t next = 0;
    while (next < cases.size()) {
        sh->cs = (int)next; sh->st = 0; sh->beat = 0;
        pid_t pid = fork();
        if (pid == 0) {
            prctl(PR_SET_PDEATHSIG, SIGKILL);
            for (size_t i = next; i < (fresh ? next + 1 : cases.size()); i++) {
                Case& c = cases[i];
                va::fill = c.fill; va::guard = c.guard; omp_set_num_threads(c.thr); g_thr = c.thr;
#ifndef SCHED
                if (g_user.on) { omp_set_dynamic(0); omp_set_max_active_levels(1); g_user = User(); }
#endif
                for (size_t k = 0; k < c.l.size(); k++) {
                    if (c.l[k][0] == 'P') {
                        // P seed / J owner ... / Q : the jobs run as concurrent user threads
                        std::istringstream in(c.l[k]); std::string t; uint64_t seed; int team = 0; in >> t >> seed >> team;
                        emit("{\"c\":" + std::to_string(c.id) + ",\"s\":" + std::to_string(k) + "}");
                        struct L { size_t k; std::string s; };
                        std::vector<std::pair<int, std::vector<L>>> jobs; size_t j = k + 1;
                        for (; c.l[j][0] != 'Q'; j++) {
                            if (c.l[j][0] == 'J') { jobs.push_back({atoi(c.l[j].c_str() + 2), {}}); emit("{\"c\":" + std::to_string(c.id) + ",\"s\":" + std::to_string(j) + "}"); }
                            else jobs.back().second.push_back({j, c.l[j]});
                        }
                        for (auto& jb : jobs) slots[jb.first];
                        int id = c.id;
                        g_conc = true; sh->cs = (int)i; sh->st = (int)k; sh->beat = sh->beat + 1;
#ifdef SCHED
                        std::vector<sch::Job> js;
                        for (auto& jb : jobs) { auto* v = &jb.second; js.push_back({jb.first, slots[jb.first].of ? slots[jb.first].home : jb.first, [v, id] { for (auto& l : *v) do_step(id, (int)l.k, l.s); }}); }
                        std::string r = sch::concurrent(js, seed);
#else
                        // real threads, released together: threads of their own, or the members of an OpenMP team of the user's
                        std::atomic<int> gate{(int)jobs.size()}; std::vector<std::thread> th; int thr = g_thr;
                        if (team) {
                            omp_set_max_active_levels(team); const int J = (int)jobs.size();
                            #pragma omp parallel num_threads(J)
                            {
                                omp_set_num_threads(thr);
                                for (int t = omp_get_thread_num(); t < J; t += omp_get_num_threads()) for (auto& l : jobs[t].second) do_step(id, (int)l.k, l.s);
                            }
                            omp_set_max_active_levels(1);
                        } else
                        for (auto& jb : jobs) { auto* v = &jb.second; th.emplace_back([v, id, &gate, thr] { omp_set_num_threads(thr); gate--; while (gate > 0) {} for (auto& l : *v) do_step(id, (int)l.k, l.s); }); }
                        for (auto& t : th) t.join();
                        std::string r = ",\"arr\":["; for (size_t t = 0; t < jobs.size(); t++) r += (t ? "," : "") + std::to_string(t + 1);
                        r += "],\"pat\":[],\"fps\":[],\"bf\":" + std::to_string(va::badfree);
#endif
                        g_conc = false;
                        emit("{\"c\":" + std::to_string(c.id) + ",\"s\":" + std::to_string(j) + r + "}");
                        k = j; continue;
                    }
                    sh->cs = (int)i; sh->st = (int)k; sh->beat = sh->beat + 1; do_step(c.id, (int)k, c.l[k]); }
            }
            _exit(0);
        }
        long seen = -1; double t0 = 0; int status; bool hang = false;
        for (;;) {
            pid_t r = waitpid(pid, &status, WNOHANG);
            if (r == pid) break;
            struct timespec ts; clock_gettime(CLOCK_MONOTONIC, &ts); double now = ts.tv_sec + ts.tv_nsec * 1e-9;
            if (sh->beat != seen) { seen = sh->beat; t0 = now; }
            else if (now - t0 > limit) { hang = true; kill(pid, SIGKILL); waitpid(pid, &status, 0); break; }
            usleep(2000);
        }
        if (!hang && WIFEXITED(status) && WEXITSTATUS(status) == 0) { if (fresh) { next++; continue; } break; }
        if (!hang && WIFEXITED(status) && WEXITSTATUS(status) >= 3 && WEXITSTATUS(status) <= 6) return WEXITSTATUS(status);
        std::ostringstream q;
        q << "{\"c\":" << cases[sh->cs].id << ",\"s\":" << sh->st << ",\"crash\":\"" << (hang ? "hang" : WIFSIGNALED(status) ? strsignal(WTERMSIG(status)) : "exit") << "\"}";
        emit(q.str());
        break;      // the trace ends here: nothing after the first crash could be judged
    }
    return 0;
}
