#include "sched.h"
#include "alloc.h"
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <map>
#include <sstream>
#include <set>
#include <unordered_map>
#include <pthread.h>
#include <sys/mman.h>
#include <ucontext.h>
#include <unistd.h>

extern "C" char __data_start, _end;
namespace sch {
typedef uintptr_t U;
enum Cls { OWN, UGIVEN, UCONST, STACK, CONSTANT, GLOB, INIT, TLS, SHARED, OTHER, UOTHER, FREED, STRAY, NCLS };
static const char* cname[NCLS] = {"own", "given", "const-in", "stack", "rodata", "global", "init", "tls", "once", "other", "user-other", "freed", "stray"};

struct Cell { uint32_t ep = 0; uint64_t w = 0, r = 0; };
struct Seg { U lo = 1, hi = 0; int kind = 0; int owner = -9; int which = 0; int perm = 0; Cell* sh = nullptr; size_t ncell = 0; };  // kind 0 heap, 1 user, 2 freed, 3 once
static std::vector<Seg*> segs; static long seen_gen = -1;
struct User { int slot, which; U lo, hi; };
static std::vector<User> users; static long user_gen = 0, seen_user = -1;

struct Call { int owner = -9, home = -9; uint32_t fl[NCLS]; std::string note; std::vector<Range> user; int orph = 0; };
static Call call0; static Call* cc = &call0;
static bool active = false;
// inside this runtime: nothing is recorded, and allocations are the runtime's own
static int intrace = 0, saved_inlib = 0;
static void enter() { if (intrace++ == 0) { saved_inlib = va::inlib; va::inlib = 0; } }
static void leave() { if (--intrace == 0) va::inlib = saved_inlib; }

// ---- coroutines
struct Loop { long next, end, incr, chunk; bool up; int done = 0; };
struct Solo { Loop loop; unsigned sec, n; };      // the work-sharing construct of a team of one: each thread's own, one per nesting level
struct Co {
    ucontext_t ctx; char* stk = nullptr; size_t sz = 0; int tid = 0; int st = 0; /*0 ready 1 barrier 2 end*/
    int inlib = 0, intrace = 0, saved = 0; Call* call = nullptr; std::function<void()> body; Solo solo{}; long singles = 0, loops = 0, secs = 0; int lock = 0, inner = 0; struct Team* team = nullptr;
};
struct Team {
    int T; std::vector<Co*> co; ucontext_t back; long single_claimed = 0; std::map<long, Loop> loops; std::map<long, std::pair<unsigned, unsigned>> secs;
    void (*fn)(void*); void* data;
};
static Co* cur = nullptr; static Team* teamp = nullptr;
static int g_T = 1, g_mode = 0; static uint64_t g_rng = 1; static std::vector<int> g_perm; static size_t g_permpos = 0;
static uint32_t epoch = 1; static bool recording = false;    // recording of shared accesses
static long quantum = 1 << 30; static bool preempt = false;
static std::vector<std::pair<Cell*, U>> touched;
static std::unordered_map<U, Cell> misc;        // shared words outside heap blocks and user arrays
static std::string regions;
static uint64_t g_bytes = 0;      // bytes read and written outside the stacks since the call began
static long total_preempt = 0; static bool conc = false;
static std::vector<char*> stackpool; static const size_t STK = 1 << 20;
static U mainlo, mainhi, exelo_ro, datalo, datahi;
struct Map { U lo, hi; bool w; bool file; };
static std::vector<Map> maps;

static uint64_t rnd() { g_rng ^= g_rng << 13; g_rng ^= g_rng >> 7; g_rng ^= g_rng << 17; return g_rng; }

static void load_maps()
{
    maps.clear();
    FILE* f = fopen("/proc/self/maps", "r"); char line[512];
    while (f && fgets(line, sizeof line, f)) {
        unsigned long a, b; char p[8]; char path[400] = ""; unsigned long off; char dev[32]; unsigned long ino;
        if (sscanf(line, "%lx-%lx %7s %lx %31s %lu %399s", &a, &b, p, &off, dev, &ino, path) < 6) continue;
        maps.push_back({a, b, p[1] == 'w', path[0] == '/'});
    }
    if (f) fclose(f);
    pthread_attr_t at; void* s; size_t n; pthread_getattr_np(pthread_self(), &at); pthread_attr_getstack(&at, &s, &n); pthread_attr_destroy(&at);
    mainlo = (U)s; mainhi = (U)s + n;
}
static bool exe_data(U a)      // .data/.bss of the program: file mapping that is writable, or the anonymous piece right behind it
{
    return a >= (U)&__data_start && a < (U)&_end;
}

static void refresh()
{
    enter();
    std::map<U, Seg*> old; for (auto s : segs) old[s->lo] = s;
    std::vector<Seg*> nw; std::vector<va::Block> bl; va::snapshot(bl);
    auto put = [&](U lo, U hi, int kind, int owner, int which) {
        auto it = old.find(lo); Seg* s;
        if (it != old.end() && it->second->hi == hi && it->second->kind == kind && it->second->owner == owner && it->second->which == which) { s = it->second; old.erase(it); }
        else { s = new Seg; s->lo = lo; s->hi = hi; s->kind = kind; s->owner = owner; s->which = which; }
        nw.push_back(s);
    };
    for (auto& b : bl) put(b.p, b.p + b.n, !b.live ? 2 : b.owner == va::ONCE ? 3 : 0, b.owner, 0);
    for (auto& u : users) put(u.lo, u.hi, 1, u.slot, u.which);
    for (auto& o : old) { if (o.second->sh) munmap(o.second->sh, o.second->ncell * sizeof(Cell)); /* touched cells of a dropped segment */
        if (o.second->sh) { std::vector<std::pair<Cell*, U>> k; for (auto& t : touched) if (t.second < o.second->lo || t.second >= o.second->hi) k.push_back(t); touched.swap(k); }
        delete o.second; }
    std::sort(nw.begin(), nw.end(), [](Seg* a, Seg* b) { return a->lo < b->lo; });
    segs.swap(nw);
    seen_gen = va::gen; seen_user = user_gen;
    for (auto s : segs) { s->perm = 0; if (s->kind == 1) for (auto& r : cc->user) if (r.lo == s->lo) s->perm = r.write ? 2 : 1; }
    leave();
}
static Seg nullseg; static Seg* last[2] = {&nullseg, &nullseg};
static Seg* lookup(U a)
{
    if (seen_gen != va::gen || seen_user != user_gen) { refresh(); last[0] = last[1] = &nullseg; }
    size_t lo = 0, hi = segs.size();
    while (lo < hi) { size_t m = (lo + hi) / 2; if (segs[m]->lo <= a) lo = m + 1; else hi = m; }
    if (!lo) return nullptr;
    Seg* s = segs[lo - 1];
    return a < s->hi ? s : nullptr;
}
static void note(const char* w, U a, unsigned n, bool wr)
{
    if (cc->note.size() > 300) return;
    char b[200]; Seg* best = nullptr; long d = 1 << 30;
    for (auto s : segs) { long x = a < s->lo ? (long)(s->lo - a) : (long)(a - s->hi); if (x < d && x >= 0) { d = x; best = s; } }
    snprintf(b, sizeof b, "%s %u bytes %s; ", wr ? "write" : "read", n, w); cc->note += b;
    if (best && d < 4096) { snprintf(b, sizeof b, "%ld bytes %s a %s of %zu bytes (slot %d); ", d, a < best->lo ? "before" : "past", best->kind == 1 ? "user array" : "block", (size_t)(best->hi - best->lo), best->owner); cc->note += b; }
}
static void touch(Cell* c, U a, bool w)
{
    if (c->ep != epoch) { c->ep = epoch; c->w = c->r = 0; touched.push_back({c, a}); }
    uint64_t bit = 1ull << (cur ? cur->tid : 0);
    if (w) c->w |= bit; else c->r |= bit;
}
static void yield_pre();
static void rec(U a, unsigned n, bool w)
{
    if (!active || intrace) return;
    Seg* s = last[w];
    if (seen_gen != va::gen || seen_user != user_gen || !(a >= s->lo && a < s->hi)) s = lookup(a);
    int cls;
    if (s) {
        last[w] = s;
        if (a + n > s->hi) { cls = STRAY; enter(); note("across the end", a, n, w); leave(); }
        else if (s->kind == 0) cls = s->owner == cc->home ? OWN : OTHER;
        else if (s->kind == 1) cls = s->owner != cc->owner || !(s->perm || conc) ? UOTHER : (conc || s->perm == 2) ? UGIVEN : UCONST;
        else if (s->kind == 3) cls = va::once_depth ? INIT : SHARED; else cls = FREED;
        if (cls >= OTHER || ((cls == UCONST || cls == SHARED) && w)) { enter(); note(cname[cls], a, n, w); leave(); }
        cc->fl[cls] |= w ? 2 : 1; g_bytes += n;
        if (recording && !va::once_depth && (!cur || !cur->lock)) {
            enter();
            if (!s->sh) { s->ncell = (s->hi - s->lo) / 4 + 2; s->sh = (Cell*)mmap(nullptr, s->ncell * sizeof(Cell), PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); }
            U e = std::min<U>(a + n, s->hi);
            for (U x = a; x < e; x += 4) touch(&s->sh[(x - s->lo) / 4], x, w);
            leave();
        }
    } else {
        bool own = false;
        if (cur ? (a >= (U)cur->stk && a < (U)cur->stk + cur->sz) : (a >= mainlo && a < mainhi)) { cls = STACK; own = true; }
        else if (a >= mainlo && a < mainhi) cls = STACK;
        else {
            cls = STRAY;
            for (auto p : stackpool) if (a >= (U)p && a < (U)p + STK) cls = STACK;
            if (cls == STRAY) {
                if (exe_data(a)) cls = va::once_depth ? INIT : GLOB;
                else { U fs = (U)__builtin_thread_pointer(); if (a <= fs + 4096 && a + 65536 > fs) { cls = TLS; own = true; }
                    else for (auto& m : maps) if (a >= m.lo && a < m.hi) { if (!m.w) cls = CONSTANT; else if (m.file) cls = GLOB; } }
                if (cls == STRAY) { enter(); note("outside everything", a, n, w); leave(); }
                if (cls == GLOB && w) { enter(); note("global", a, n, w); leave(); }
            }
        }
        cc->fl[cls] |= w ? 2 : 1; if (cls != STACK && cls != TLS) g_bytes += n;
        if (recording && !own && cls != CONSTANT && cls != INIT && (!cur || !cur->lock)) { enter(); for (U x = a; x < a + n; x++) touch(&misc[x], x, w); leave(); }
    }
    if (preempt && cur && !cur->lock && !va::once_depth && --quantum <= 0) yield_pre();
}

// ---- epochs
static std::string list(uint64_t m) { std::string s = "["; for (int i = 0; i < 64; i++) if (m >> i & 1) { if (s.size() > 1) s += ","; s += std::to_string(i + 1); } return s + "]"; }
static std::string where(U a)
{
    Seg* s = lookup(a); char b[120];
    if (!s) { snprintf(b, sizeof b, "%s", exe_data(a) ? "global" : "stack or other"); return b; }
    snprintf(b, sizeof b, "%s %d/%d byte %zu of %zu", s->kind == 1 ? "user array" : "block", s->owner, s->which, (size_t)(a - s->lo), (size_t)(s->hi - s->lo));
    return b;
}
static std::string close_epoch()
{
    enter();
    std::map<std::pair<uint64_t, uint64_t>, std::pair<long, U>> pat; uint64_t shared = 0; long nshared = 0;
    for (auto& t : touched) {
        Cell* c = t.first;
        if (!c->w) { shared |= c->r; nshared++; continue; }
        auto& p = pat[{c->w, c->r}]; if (!p.first++) p.second = t.second;
    }
    std::ostringstream q; q << "\"pat\":["; int k = 0;
    auto bad = [](uint64_t w, uint64_t r) { return (w & (w - 1)) != 0 || (r & ~w) != 0; };
    for (int pass = 0; pass < 2; pass++) for (auto& p : pat) {
        if (bad(p.first.first, p.first.second) != (pass == 0)) continue;
        if (pass == 0 && k > 20) continue;
        q << (k++ ? "," : "") << "{\"w\":" << list(p.first.first) << ",\"r\":" << list(p.first.second) << ",\"n\":" << p.second.first;
        if (pass == 0) q << ",\"at\":\"" << where(p.second.second) << "\"";
        q << "}";
    }
    if (nshared) q << (k ? "," : "") << "{\"w\":[],\"r\":" << list(shared) << ",\"n\":" << nshared << "}";
    q << "]";
    touched.clear(); misc.clear(); epoch++;
    leave();
    return q.str();
}

// ---- switching
static void tramp()
{
    cur->body();
    cur->st = 2;
    Co* c = cur;
    swapcontext(&c->ctx, &c->team->back);
    abort();
}
static char* get_stack()
{
    if (!stackpool.empty()) {
        // stacks in use are those of the current team: hand out by index
    }
    char* p = (char*)mmap(nullptr, STK, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE | MAP_STACK, -1, 0);
    stackpool.push_back(p);
    return p;
}
static void resume(Co* c)
{
    Call* oc = cc; int oi = va::inlib, ot = intrace, os = saved_inlib; Co* ocur = cur;
    cur = c; va::inlib = c->inlib; intrace = c->intrace; saved_inlib = c->saved; if (c->call) cc = c->call;
    last[0] = last[1] = &nullseg;
    swapcontext(&c->team->back, &c->ctx);
    last[0] = last[1] = &nullseg;
    c->inlib = va::inlib; c->intrace = intrace; c->saved = saved_inlib;
    va::inlib = oi; intrace = ot; saved_inlib = os; cc = oc; cur = ocur;
}
static void back() { Co* c = cur; swapcontext(&c->ctx, &c->team->back); }
static void yield_pre() { total_preempt++; back(); }
static void newq() { uint64_t r = rnd(); quantum = 1 + (long)((r & 3) == 0 ? r >> 40 & 7 : (r & 3) == 1 ? r >> 40 & 63 : r >> 40 & 1023); }

static void prepare(Team& t, const std::vector<std::function<void()>>& bodies, int lib)
{
    t.T = (int)bodies.size();
    while ((int)stackpool.size() < t.T) get_stack();
    for (int i = 0; i < t.T; i++) {
        Co* c = new Co; c->tid = i; c->stk = stackpool[i]; c->sz = STK; c->inlib = lib; c->team = &t; c->body = bodies[i]; c->call = cc;
        getcontext(&c->ctx); c->ctx.uc_stack.ss_sp = c->stk; c->ctx.uc_stack.ss_size = c->sz; c->ctx.uc_link = nullptr;
        makecontext(&c->ctx, (void (*)())tramp, 0);
        t.co.push_back(c);
    }
}
// run every member to its next synchronisation point; returns the arrival order (1-based)
static std::vector<int> run_epoch(Team& t)
{
    std::vector<int> arr, ready;
    for (auto c : t.co) if (c->st == 0) ready.push_back(c->tid);
    if (g_mode == 0) {
        std::vector<int> ord;
        if ((int)g_perm.size() >= t.T && g_perm.size() % t.T == 0) {
            for (int i = 0; i < t.T; i++) ord.push_back(g_perm[(g_permpos + i) % g_perm.size()]);
            g_permpos = (g_permpos + t.T) % g_perm.size();
        } else {
            for (int i = 0; i < t.T; i++) ord.push_back(i);
            for (int i = t.T - 1; i > 0; i--) std::swap(ord[i], ord[rnd() % (i + 1)]);
        }
        preempt = false;
        for (int i : ord) if (std::find(ready.begin(), ready.end(), i) != ready.end()) { resume(t.co[i]); arr.push_back(i + 1); }
    } else {
        preempt = true;
        while (!ready.empty()) {
            size_t k = rnd() % ready.size(); Co* c = t.co[ready[k]];
            newq(); resume(c);
            if (c->st != 0) { arr.push_back(c->tid + 1); ready.erase(ready.begin() + k); }
        }
        preempt = false;
    }
    return arr;
}
static void run_team(void (*fn)(void*), void* data, int T)
{
    int lib = va::inlib; enter();
    Team t; Team* otm = teamp; teamp = &t; bool orec = recording; recording = true;
    // what the serial part did before belongs to an earlier epoch
    touched.clear(); misc.clear(); epoch++;
    std::vector<std::function<void()>> b; for (int i = 0; i < T; i++) b.push_back([fn, data] { fn(data); });
    prepare(t, b, lib);
    std::ostringstream q; q << "{\"T\":" << T << ",\"ep\":[";
    int n = 0;
    for (;;) {
        std::vector<int> arr = run_epoch(t);
        int nb = 0, ne = 0; std::string kinds = "["; 
        for (auto c : t.co) { kinds += c->tid ? "," : ""; kinds += c->st == 1 ? "\"bar\"" : "\"end\""; if (c->st == 1) nb++; else ne++; }
        kinds += "]";
        q << (n++ ? "," : "") << "{\"arr\":["; for (size_t i = 0; i < arr.size(); i++) q << (i ? "," : "") << arr[i];
        q << "],\"kind\":" << kinds << ","; q << close_epoch() << "}";
        if (nb == 0) break;
        for (auto c : t.co) if (c->st == 1) c->st = 0;
    }
    q << "]}";
    if (regions.size() < (8u << 20)) { if (!regions.empty()) regions += ","; regions += q.str(); }
    for (auto c : t.co) delete c;
    teamp = otm; recording = orec; leave();
    last[0] = last[1] = &nullseg;
}

void set(int T, int mode, uint64_t seed, const std::vector<int>& perm)
{
    enter(); g_T = T; g_mode = mode; g_rng = seed * 0x9E3779B97F4A7C15ull + 1; if (!g_rng) g_rng = 1; for (int i = 0; i < 8; i++) rnd(); g_perm = perm; g_permpos = 0; leave();
}
void begin_call(int owner, const std::vector<Range>& user, int home)
{
    if (maps.empty()) load_maps();
    cc = &call0; cc->owner = owner; cc->home = home; cc->user = user; memset(cc->fl, 0, sizeof cc->fl); cc->note.clear(); cc->orph = 0; regions.clear(); total_preempt = 0; g_bytes = 0;
    seen_gen = -1; touched.clear(); misc.clear(); epoch++;
    lookup(0); active = true;
}
static std::string fpjson(Call& c)
{
    std::ostringstream q; q << ",\"fp\":["; int k = 0;
    for (int i = 0; i < NCLS; i++) for (int w = 1; w <= 2; w++) if (c.fl[i] & w) q << (k++ ? "," : "") << "[\"" << cname[i] << "\",\"" << (w == 1 ? "R" : "W") << "\"]";
    q << "],\"orph\":" << c.orph;
    if (!c.note.empty()) q << ",\"note\":\"" << c.note << "\"";
    return q.str();
}
std::string end_call()
{
    active = false; enter();
    std::string s = fpjson(*cc) + ",\"reg\":[" + regions + "],\"pre\":" + std::to_string(total_preempt);
    regions.clear(); leave();
    return s;
}
uint64_t work() { return g_bytes; }
std::string concurrent(const std::vector<Job>& jobs, uint64_t seed)
{
    if (maps.empty()) load_maps();
    enter();
    std::vector<Call> calls(jobs.size()); std::vector<std::function<void()>> b;
    cc = &call0; cc->user.clear(); cc->owner = cc->home = -9;
    for (auto& j : jobs) { b.push_back(j.f); }
    Team t; int om = g_mode; int oT = g_T; g_T = 1;
    g_rng = seed * 0x9E3779B97F4A7C15ull + 1; for (int i = 0; i < 8; i++) rnd();
    touched.clear(); misc.clear(); epoch++; seen_gen = -1; lookup(0); regions.clear();
    prepare(t, b, 0);
    for (size_t i = 0; i < jobs.size(); i++) { calls[i].owner = jobs[i].owner; calls[i].home = jobs[i].home; calls[i].user = cc->user; memset(calls[i].fl, 0, sizeof calls[i].fl); t.co[i]->call = &calls[i]; t.co[i]->inlib = 0; }
    recording = true; active = true; conc = true; g_mode = 1; total_preempt = 0;
    std::vector<int> arr = run_epoch(t);
    active = false; recording = false; conc = false; g_mode = om; g_T = oT;
    std::ostringstream q; q << ",\"arr\":["; for (size_t i = 0; i < arr.size(); i++) q << (i ? "," : "") << arr[i];
    q << "]," << close_epoch(); q << ",\"fps\":[";
    for (size_t i = 0; i < jobs.size(); i++) q << (i ? "," : "") << "{\"o\":" << jobs[i].owner << fpjson(calls[i]) << "}";
    q << "],\"pre\":" << total_preempt;
    for (auto c : t.co) delete c;
    leave(); cc = &call0;
    return q.str();
}
void know(int slot, int which, uintptr_t lo, uintptr_t hi)
{
    for (auto& u : users) if (u.slot == slot && u.which == which) { if (u.lo == lo && u.hi == hi) return; u.lo = lo; u.hi = hi; user_gen++; return; }
    users.push_back({slot, which, lo, hi}); user_gen++;
}
void forget_users() { users.clear(); user_gen++; }
}
using namespace sch;

// ---------------------------------------------------------------- OpenMP runtime
// a construct that binds to a team: if the library opened no region, it is the caller's team (if he has one)
static int lone = 0;
static Solo lone_solo{};
static Solo& solo() { return cur ? cur->solo : lone_solo; }
static void binds() { if (active && !(cur ? !conc || cur->inner > 0 : lone > 0)) cc->orph = 1; }
extern "C" {
void GOMP_parallel(void (*fn)(void*), void* data, unsigned nt, unsigned)
{
    int T = nt ? (int)nt : g_T;
    if (active && cur) { Co* c = cur; c->inner++; Solo s = c->solo; fn(data); c->solo = s; c->inner--; return; }   // nested: one level is active
    if (!active || T <= 1) { lone++; Solo s = solo(); fn(data); solo() = s; lone--; return; }
    run_team(fn, data, T);
}
static bool in_team() { return teamp && cur && cur->inner == 0 && cur->team == teamp; }
int omp_get_num_threads(void) { return in_team() ? teamp->T : 1; }
int omp_get_thread_num(void) { binds(); return in_team() ? cur->tid : 0; }
int omp_get_max_threads(void) { return g_T; }
int omp_get_num_procs(void) { return g_T; }
int omp_in_parallel(void) { return in_team(); }
void omp_set_num_threads(int n) { if (n > 0 && active) g_T = n; }
int omp_get_level(void) { return (teamp && cur ? 1 : 0) + (cur ? cur->inner : 0); }
int omp_get_nested(void) { return 0; }
void omp_set_nested(int) {}
void omp_set_dynamic(int) {}
int omp_get_dynamic(void) { return 0; }
int omp_get_thread_limit(void) { return 64; }
int omp_get_max_active_levels(void) { return 1; }
double omp_get_wtime(void) { return 0; }
void GOMP_barrier(void) { binds(); if (!in_team()) return; cur->st = 1; back(); }
bool GOMP_single_start(void) { binds(); if (!in_team()) return true; enter(); long k = ++cur->singles; bool r = false; if (k > teamp->single_claimed) { teamp->single_claimed = k; r = true; } leave(); return r; }
void GOMP_critical_start(void) { if (cur) cur->lock++; }
void GOMP_critical_end(void) { if (cur) cur->lock--; }
void GOMP_critical_name_start(void**) { if (cur) cur->lock++; }
void GOMP_critical_name_end(void**) { if (cur) cur->lock--; }
void GOMP_atomic_start(void) { if (cur) cur->lock++; }
void GOMP_atomic_end(void) { if (cur) cur->lock--; }
// mutexes of the library: whoever holds one is not pre-empted (all threads are coroutines of one)
int __real_pthread_mutex_lock(void*); int __real_pthread_mutex_trylock(void*); int __real_pthread_mutex_unlock(void*);
int __wrap_pthread_mutex_lock(void* m) { int r = __real_pthread_mutex_lock(m); if (!r && cur) cur->lock++; return r; }
int __wrap_pthread_mutex_trylock(void* m) { int r = __real_pthread_mutex_trylock(m); if (!r && cur) cur->lock++; return r; }
int __wrap_pthread_mutex_unlock(void* m) { int r = __real_pthread_mutex_unlock(m); if (!r && cur && cur->lock) cur->lock--; return r; }
void omp_init_lock(void*) {}
void omp_destroy_lock(void*) {}
void omp_set_lock(void*) { if (cur) cur->lock++; }
void omp_unset_lock(void*) { if (cur) cur->lock--; }

static bool loop_next(Loop& l, long* is, long* ie)
{
    long left = l.up ? (l.end - l.next + l.incr - 1) / l.incr : (l.next - l.end - l.incr - 1) / -l.incr;
    if (left <= 0) return false;
    long n = std::min(left, std::max(1l, l.chunk));
    *is = l.next; l.next += n * l.incr; *ie = l.next;
    if (l.up ? *ie > l.end : *ie < l.end) *ie = l.end;
    return true;
}
static bool loop_start(long s, long e, long i, long c, long* is, long* ie)
{
    binds();
    if (!in_team()) { solo().loop = {s, e, i, c, i > 0}; return loop_next(solo().loop, is, ie); }
    enter(); long k = ++cur->loops; if (!teamp->loops.count(k)) teamp->loops[k] = {s, e, i, c, i > 0};
    bool r = loop_next(teamp->loops[k], is, ie); leave();
    if (preempt) back();
    return r;
}
static bool loop_cont(long* is, long* ie)
{
    if (!in_team()) return loop_next(solo().loop, is, ie);
    enter(); bool r = loop_next(teamp->loops[cur->loops], is, ie); leave(); if (preempt) back(); return r;
}
#define LOOP(name) \
bool GOMP_loop_##name##_start(long s, long e, long i, long c, long* is, long* ie) { return loop_start(s, e, i, c, is, ie); } \
bool GOMP_loop_##name##_next(long* is, long* ie) { return loop_cont(is, ie); } \
void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned f);
LOOP(dynamic) LOOP(guided) LOOP(nonmonotonic_dynamic) LOOP(nonmonotonic_guided) LOOP(static)
bool GOMP_loop_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, is, ie); }
bool GOMP_loop_runtime_next(long* is, long* ie) { return loop_cont(is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, is, ie); }
bool GOMP_loop_maybe_nonmonotonic_runtime_next(long* is, long* ie) { return loop_cont(is, ie); }
bool GOMP_loop_nonmonotonic_runtime_start(long s, long e, long i, long* is, long* ie) { return loop_start(s, e, i, 1, is, ie); }
bool GOMP_loop_nonmonotonic_runtime_next(long* is, long* ie) { return loop_cont(is, ie); }
#define ULL(name) \
bool GOMP_loop_ull_##name##_start(bool, unsigned long long s, unsigned long long e, unsigned long long i, unsigned long long c, unsigned long long* is, unsigned long long* ie) { return loop_start((long)s, (long)e, (long)i, (long)c, (long*)is, (long*)ie); } \
bool GOMP_loop_ull_##name##_next(unsigned long long* is, unsigned long long* ie) { return loop_cont((long*)is, (long*)ie); }
ULL(dynamic) ULL(guided) ULL(nonmonotonic_dynamic) ULL(nonmonotonic_guided) ULL(static)
struct PL { void (*fn)(void*); void* d; long s, e, i, c; };
static void pl_fn(void* v)
{
    PL* p = (PL*)v;
    if (in_team()) { enter(); long k = ++cur->loops; if (!teamp->loops.count(k)) teamp->loops[k] = {p->s, p->e, p->i, p->c, p->i > 0}; leave(); } else solo().loop = {p->s, p->e, p->i, p->c, p->i > 0};
    p->fn(p->d);
}
static void ploop(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c) { PL p = {fn, d, s, e, i, c}; GOMP_parallel(pl_fn, &p, nt, 0); }
#define PLOOP(name) void GOMP_parallel_loop_##name(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, long c, unsigned) { ploop(fn, d, nt, s, e, i, c); }
PLOOP(dynamic) PLOOP(guided) PLOOP(nonmonotonic_dynamic) PLOOP(nonmonotonic_guided) PLOOP(static)
void GOMP_parallel_loop_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { ploop(fn, d, nt, s, e, i, 1); }
void GOMP_parallel_loop_maybe_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { ploop(fn, d, nt, s, e, i, 1); }
void GOMP_parallel_loop_nonmonotonic_runtime(void (*fn)(void*), void* d, unsigned nt, long s, long e, long i, unsigned) { ploop(fn, d, nt, s, e, i, 1); }
void GOMP_loop_end(void) { GOMP_barrier(); }
void GOMP_loop_end_nowait(void) {}
unsigned GOMP_sections_next(void)
{
    if (!in_team()) return solo().sec < solo().n ? ++solo().sec : 0;
    enter(); auto& p = teamp->secs[cur->secs]; unsigned r = p.first < p.second ? ++p.first : 0; leave(); return r;
}
unsigned GOMP_sections_start(unsigned n)
{
    binds();
    if (!in_team()) { solo().sec = 0; solo().n = n; return GOMP_sections_next(); }
    enter(); long k = ++cur->secs; if (!teamp->secs.count(k)) teamp->secs[k] = {0u, n}; leave();
    return GOMP_sections_next();
}
void GOMP_sections_end(void) { GOMP_barrier(); }
void GOMP_sections_end_nowait(void) {}
struct PS { void (*fn)(void*); void* d; unsigned n; };
static void ps_fn(void* v)
{
    PS* p = (PS*)v;
    if (in_team()) { enter(); long k = ++cur->secs; if (!teamp->secs.count(k)) teamp->secs[k] = {0u, p->n}; leave(); } else { solo().sec = 0; solo().n = p->n; }
    p->fn(p->d);
}
void GOMP_parallel_sections(void (*fn)(void*), void* d, unsigned nt, unsigned n, unsigned) { PS p = {fn, d, n}; GOMP_parallel(ps_fn, &p, nt, 0); }
void GOMP_taskwait(void) {}
void GOMP_taskyield(void) {}
void GOMP_taskgroup_start(void) {}
void GOMP_taskgroup_end(void) {}
void GOMP_task(void (*fn)(void*), void* data, void (*cpyfn)(void*, void*), long sz, long al, bool, unsigned, void**, int)
{
    if (!cpyfn) { fn(data); return; }
    std::vector<char> buf(sz + al); char* p = (char*)(((U)buf.data() + al - 1) / al * al); cpyfn(p, data); fn(p);
}

// ---------------------------------------------------------------- instrumentation
#define A(p) (uintptr_t)(p)
void __tsan_init(void) {}
void __tsan_func_entry(void*) {}
void __tsan_func_exit(void) {}
#define RW(n) \
void __tsan_read##n(void* p) { rec(A(p), n, false); } \
void __tsan_write##n(void* p) { rec(A(p), n, true); } \
void __tsan_unaligned_read##n(void* p) { rec(A(p), n, false); } \
void __tsan_unaligned_write##n(void* p) { rec(A(p), n, true); } \
void __tsan_volatile_read##n(void* p) { rec(A(p), n, false); } \
void __tsan_volatile_write##n(void* p) { rec(A(p), n, true); } \
void __tsan_unaligned_volatile_read##n(void* p) { rec(A(p), n, false); } \
void __tsan_unaligned_volatile_write##n(void* p) { rec(A(p), n, true); } \
void __tsan_read_write##n(void* p) { rec(A(p), n, false); rec(A(p), n, true); }
RW(1) RW(2) RW(4) RW(8) RW(16)
void __tsan_read_range(void* p, unsigned long n) { rec(A(p), (unsigned)n, false); }
void __tsan_write_range(void* p, unsigned long n) { rec(A(p), (unsigned)n, true); }
void __tsan_vptr_update(void** p, void*) { rec(A(p), 8, true); }
void __tsan_vptr_read(void** p) { rec(A(p), 8, false); }
#define AT(bits, T) \
T __tsan_atomic##bits##_load(const volatile T* p, int) { return *p; } \
void __tsan_atomic##bits##_store(volatile T* p, T v, int) { *p = v; } \
T __tsan_atomic##bits##_exchange(volatile T* p, T v, int) { T o = *p; *p = v; return o; } \
T __tsan_atomic##bits##_fetch_add(volatile T* p, T v, int) { T o = *p; *p = o + v; return o; } \
T __tsan_atomic##bits##_fetch_sub(volatile T* p, T v, int) { T o = *p; *p = o - v; return o; } \
T __tsan_atomic##bits##_fetch_and(volatile T* p, T v, int) { T o = *p; *p = o & v; return o; } \
T __tsan_atomic##bits##_fetch_or(volatile T* p, T v, int) { T o = *p; *p = o | v; return o; } \
T __tsan_atomic##bits##_fetch_xor(volatile T* p, T v, int) { T o = *p; *p = o ^ v; return o; } \
bool __tsan_atomic##bits##_compare_exchange_strong(volatile T* p, T* e, T v, int, int) { if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
bool __tsan_atomic##bits##_compare_exchange_weak(volatile T* p, T* e, T v, int, int) { if (*p == *e) { *p = v; return true; } *e = *p; return false; } \
T __tsan_atomic##bits##_compare_exchange_val(volatile T* p, T e, T v, int, int) { T o = *p; if (o == e) *p = v; return o; }
AT(8, uint8_t) AT(16, uint16_t) AT(32, uint32_t) AT(64, uint64_t)
void __tsan_atomic_thread_fence(int) {}
void __tsan_atomic_signal_fence(int) {}

// the library objects' calls of these are renamed to here
void* sch_memcpy(void* d, const void* s, size_t n) { if (n) { rec(A(s), (unsigned)n, false); rec(A(d), (unsigned)n, true); } return memcpy(d, s, n); }
void* sch_memmove(void* d, const void* s, size_t n) { if (n) { rec(A(s), (unsigned)n, false); rec(A(d), (unsigned)n, true); } return memmove(d, s, n); }
void* sch_memset(void* d, int c, size_t n) { if (n) rec(A(d), (unsigned)n, true); return memset(d, c, n); }

}
