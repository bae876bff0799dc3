// Numeric expansion of the specification's abstract signals (spec/Signal.tla).  This file contains no
// transform rule: what a transform must yield is computed by TLC, here its result is only evaluated.
#pragma once
#include <cmath>
#include <cstdint>
#include <vector>
#include <string>
#include <thread>
#include <algorithm>
#include <cstdio>
#include <cstdlib>

namespace sig {
typedef long double ld;
struct C { ld re, im; };
struct Term { std::string t; int64_t i; ld re, im; int64_t ph; int h, e; };
typedef std::vector<Term> Sig;

// zeta_{8N}^a for any a >= 0, with two-level tables in long double
struct Roots {
    int64_t M = 0; int sh = 0; std::vector<C> lo, hi;
    void setup(int64_t m)
    {
        if (m == M) return;
        M = m; sh = 0; while ((1ll << (2 * sh)) < m) sh++;
        int64_t nl = 1ll << sh, nh = (m >> sh) + 1;
        lo.resize(nl); hi.resize(nh);
        auto f = [&](int64_t a) { C c; unit(a, m, c); return c; };
        for (int64_t i = 0; i < nl; i++) lo[i] = f(i % m);
        for (int64_t i = 0; i < nh; i++) hi[i] = f((i << sh) % m);
    }
    // exact octant reduction, so that multiples of pi/4 are exact
    static void unit(int64_t a, int64_t m, C& c)
    {
        // angle 2 pi a / m; m is a multiple of 8
        int64_t o = a / (m / 8), r = a % (m / 8);
        ld t = 2 * M_PIl * (ld)r / (ld)m, co = cosl(t), si = sinl(t);
        const ld q = sqrtl((ld)0.5);
        switch (o & 7) {
        case 0: c = {co, si}; break;
        case 1: c = {q * (co - si), q * (co + si)}; break;
        case 2: c = {-si, co}; break;
        case 3: c = {-q * (co + si), q * (co - si)}; break;
        case 4: c = {-co, -si}; break;
        case 5: c = {-q * (co - si), -q * (co + si)}; break;
        case 6: c = {si, -co}; break;
        default: c = {q * (co + si), -q * (co - si)}; break;
        }
    }
    C at(int64_t a) const
    {
        const C& x = hi[a >> sh]; const C& y = lo[a & ((1ll << sh) - 1)];
        return {x.re * y.re - x.im * y.im, x.re * y.im + x.im * y.re};
    }
};

inline int64_t md(int64_t a, int64_t m) { a %= m; return a < 0 ? a + m : a; }

struct Eval {
    int64_t N, M; Roots R; std::vector<C> amp; Sig s;
    std::vector<int> dense; std::vector<std::pair<int64_t, C>> deltas;
    std::vector<char> ty;
    int64_t qa = 0;
    void setup(int64_t n, const Sig& sg)
    {
        N = n; M = 8 * n; R.setup(M); s = sg; amp.clear(); dense.clear(); deltas.clear(); ty.clear();
        if (N & 1) { int64_t inv4 = 0; for (inv4 = 1; (4 * inv4) % N != 1 % N; inv4++) ; qa = md(-inv4, N); }
        for (size_t k = 0; k < s.size(); k++) {
            const Term& t = s[k];
            C z = R.at(md(t.ph, M));
            ld sc = powl((ld)N, (t.h - (((t.h % 2) + 2) % 2)) / 2);
            if (((t.h % 2) + 2) % 2) sc *= sqrtl((ld)N);
            sc = ldexpl(sc, t.e);
            C a = {sc * (t.re * z.re - t.im * z.im), sc * (t.re * z.im + t.im * z.re)};
            amp.push_back(a);
            char c = 0;
            if (t.t == "d" || t.t == "Dd") { deltas.push_back({md(t.i, N), a}); c = 0; }
            else {
                c = t.t == "t" ? 1 : t.t == "p" ? 2 : t.t == "m" ? 3 : t.t == "q" ? 4 : t.t == "r" ? 5 : t.t == "Dc" ? 6 : t.t == "Ds" ? 7 : -1;
                if (c < 0) { fprintf(stderr, "unknown term type %s\n", t.t.c_str()); exit(3); }
                dense.push_back((int)k);
            }
            ty.push_back(c);
        }
    }
    void block(int64_t a, int64_t b, C* out) const
    {
        for (int64_t p = a; p < b; p++) out[p - a] = {0, 0};
        for (int k : dense) {
            const int64_t i = s[k].i; const C am = amp[k]; const int c = ty[k];
            for (int64_t p = a; p < b; p++) {
                int64_t x = 0; bool real = false;
                switch (c) {
                case 1: x = 8 * md(md(i, N) * p, N); break;
                case 2: x = 4 * (p * p % (2 * N)) + 8 * md(i * p, N); break;
                case 3: x = M - 4 * (p * p % (2 * N)) + 8 * md(i * p, N); break;
                case 4: x = 8 * md(p * p + i * p, N); break;
                case 5: x = 8 * md(qa * (p * p % N) % N + md(i, N) * p % N, N); break;
                case 6: x = 2 * (2 * p + 1) * i; real = true; break;
                case 7: x = 2 * (2 * i + 1) * p; real = true; break;
                }
                C z = R.at(md(x, M));
                if (real) { out[p - a].re += am.re * z.re; out[p - a].im += am.im * z.re; }
                else { out[p - a].re += am.re * z.re - am.im * z.im; out[p - a].im += am.re * z.im + am.im * z.re; }
            }
        }
        for (auto& d : deltas) if (d.first >= a && d.first < b) { out[d.first - a].re += d.second.re; out[d.first - a].im += d.second.im; }
    }
    template <class F> void each(int threads, F f) const   // f(threadIndex, begin, end, values)
    {
        const int64_t B = 4096;
        int64_t nblk = (N + B - 1) / B;
        if (threads > nblk) threads = (int)std::max<int64_t>(1, nblk);
        auto work = [&](int t) {
            std::vector<C> v(std::min<int64_t>(B, N));
            for (int64_t k = t; k < nblk; k += threads) {
                int64_t a = k * B, b = std::min(N, a + B);
                block(a, b, v.data()); f(t, a, b, v.data());
            }
        };
        if (threads <= 1) { work(0); return; }
        std::vector<std::thread> th;
        for (int t = 0; t < threads; t++) th.emplace_back(work, t);
        for (auto& t : th) t.join();
    }
};
}
