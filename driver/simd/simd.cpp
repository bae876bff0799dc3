// Runs histories of simd_array / simd_malloc operations and records what is observed.
// input lines:  R <type>   |   O <op> <slot> <n> <fail> <v>   |   B ... (a request that cannot be met)
#include "otfft_complex.h"
#include "../alloc.h"
#include <cstdio>
#include <cstring>
#include <string>
#include <new>
using namespace OTFFT;

struct S24 { double a, b, c; };
struct S56 { double a[7]; };
static FILE* F;

template <class T> struct World {
    alignas(64) unsigned char st[2][256];
    bool alive[2] = {false, false};
    T* raw = nullptr;
    long n[3] = {0, 0, 0};
    int v[3] = {0, 0, 0};
    simd_array<T>& A(int s) { return *reinterpret_cast<simd_array<T>*>(st[s]); }
    static T val(int v, long i) { T x; memset((void*)&x, 0, sizeof x); unsigned char* b = (unsigned char*)&x; unsigned h = (unsigned)(v * 2654435761u + i * 40503u); for (size_t k = 0; k < sizeof x; k++) b[k] = (unsigned char)((h >> (k % 23)) + 3 * k); return x; }
    static bool same(const T& a, const T& b) { return memcmp(&a, &b, sizeof a) == 0; }
    void op(bool big, const char* o, int s, long n_, int fail, int v_)
    {
        const std::string op = o;
        int k = s - 1, exc = 0, ok = 1;
        long asked = -1;
        { va::In in(s);
          if (fail) va::arm(1); else va::arm(0);
          try {
            if (op == "ctor0") { new (st[k]) simd_array<T>(); alive[k] = true; }
            else if (op == "ctor") { new (st[k]) simd_array<T>((int)n_); alive[k] = true; n[k] = n_; v[k] = 0; }
            else if (op == "setup") { n[k] = n_; v[k] = 0; A(k).setup((int)n_); }
            else if (op == "destroy") A(k).destroy();
            else if (op == "dtor") { alive[k] = false; A(k).~simd_array<T>(); }
            else if (op == "malloc") { raw = (T*)simd_malloc(n_ * sizeof(T)); n[2] = n_; v[2] = 0; }
            else if (op == "free") { simd_free(raw); raw = nullptr; }
          } catch (const std::bad_alloc&) { exc = 1; } catch (...) { exc = 2; }
          asked = (long)(va::lastreq / sizeof(T));
        }
        T* p = s == 3 ? raw : alive[k] ? &A(k) : nullptr;
        const va::Block* b = p ? va::find((uintptr_t)p) : nullptr;
        if (!b && p) {   // a block without elements has no address of its own
            std::vector<va::Block> all; va::snapshot(all);
            static va::Block hit;
            for (auto& x : all) if (x.live && x.p == (uintptr_t)p) { hit = x; b = &hit; }
        }
        if (op == "write" || op == "writep") {
            v[k] = v_;
            for (long i = 0; i < n[k]; i++) {
                if (s == 3) raw[i] = val(v_, i);
                else if (op == "write") A(k)[(int)i] = val(v_, i);
                else (&A(k))[i] = val(v_, i);
            }
        } else if (op == "read") {
            if (s != 3) {
                const simd_array<T>& c = A(k);
                T* q = &c;
                for (long i = 0; i < n[k]; i++) ok &= same(c[(int)i], val(v[k], i)) && same(A(k)[(int)i], val(v[k], i)) && same(q[i], val(v[k], i)) && &c[(int)i] == q + i;
            } else for (long i = 0; i < n[k]; i++) ok &= same(raw[i], val(v[k], i));
        }
        if (!va::check_all() || !va::quarantine_ok() || va::canary) ok = 0;
        long al = p ? (long)((uintptr_t)p & -(uintptr_t)p) : 0; if (al > 4096) al = 4096;
        fprintf(F, "{\"e\":\"%s\",\"op\":\"%s\",\"s\":%d,\"n\":%ld,\"fail\":%d,\"v\":%d,\"exc\":%d,\"p\":%d,\"al\":%ld,\"q\":%ld,\"live\":%ld,\"bad\":%ld,\"ok\":%d,\"asked\":%ld,\"t\":%ld}\n",
                big ? "big" : "op", o, s, n_, fail, v_, exc, p ? 1 : 0, al, b ? (long)(b->n / sizeof(T)) : -1L, va::live_blocks(), va::badfree, ok, asked, (long)sizeof(T));
        fflush(F);
        va::arm(0);
    }
    void reset() { va::forget(); alive[0] = alive[1] = false; raw = nullptr; v[0] = v[1] = v[2] = 0; }
};

static World<char> w1; static World<short> w2; static World<int> w4; static World<double> w8; static World<complex_t> w16; static World<S24> w24; static World<S56> w56;

int main(int, char** a)
{
    FILE* in = fopen(a[1], "r"); F = fopen(a[2], "w");
    char line[256], o[32]; int s, fail, v, ty = 8; long n;
    while (fgets(line, sizeof line, in)) {
        if (line[0] == 'R') {
            int g = 0;
            sscanf(line + 1, "%d %d", &ty, &g);
            w1.reset(); w2.reset(); w4.reset(); w8.reset(); w16.reset(); w24.reset(); w56.reset();
            va::guard = g;
            fprintf(F, "{\"e\":\"reset\"}\n"); continue;
        }
        sscanf(line + 1, "%31s %d %ld %d %d", o, &s, &n, &fail, &v);
        bool big = line[0] == 'B';
        switch (ty) {
        case 1: w1.op(big, o, s, n, fail, v); break;
        case 2: w2.op(big, o, s, n, fail, v); break;
        case 4: w4.op(big, o, s, n, fail, v); break;
        case 8: w8.op(big, o, s, n, fail, v); break;
        case 16: w16.op(big, o, s, n, fail, v); break;
        case 24: w24.op(big, o, s, n, fail, v); break;
        default: w56.op(big, o, s, n, fail, v); break;
        }
    }
    fclose(F);
}
