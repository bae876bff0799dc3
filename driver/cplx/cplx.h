// Recorder and accuracy measurements for the generated programs over complex_t (checks/c17.py).
#pragma once
#include "otfft_complex.h"
#include <cmath>
#include <cstdio>
#include <cstdlib>
#include <cstdint>
#include <string>
#include <vector>
using OTFFT::complex_t;

static FILE* F;
static volatile double X[64];          // X[k] = k - 32, values the compiler does not know
static int SC = 0;                     // exponent of the scale of the current run
static const char* EXTRA = "";

static double near(double v, int deg, double& err, double mag)
{
    double w = std::ldexp(v, -deg * SC);
    if (!(std::fabs(w) < 1e9)) { err = 1e9; return 99999999; }
    double k = std::nearbyint(w);
    double e = std::fabs(w - k);
    if (e != 0) {
        double m = std::fmax(std::fabs(std::ldexp(mag, -deg * SC)), 1.0);
        e = std::ceil(e / (m * 2.220446049250313e-16));
        if (e > err) err = e;
    }
    return k;
}

// op: the instruction's JSON; d: assigned variable (0: a real); deg: its degree in the scale
static void rec_at(const char* g, int d, int deg, const double* q, double out)
{
    double err = 0; long r[6];
    for (int k = 0; k < 6; k++) {
        int v = k / 2 + 1;
        r[k] = (long)near(q[k], v == d ? deg : 1, err, std::fabs(q[v*2-2]) + std::fabs(q[v*2-1]));
    }
    long o = 0;
    if (d == 0) o = (long)near(out, deg, err, out);
    fprintf(F, "{\"e\":\"op\",\"g\":%s,\"out\":%ld,\"err\":%ld,\"r\":[%ld,%ld,%ld,%ld,%ld,%ld]}\n", g, o, (long)err, r[0], r[1], r[2], r[3], r[4], r[5]);
}
__attribute__((noinline)) static void rec(const char* g, int d, int deg, double a, double b, double c, double e, double f, double h, double out)
{
    double q[6] = {a, b, c, e, f, h};
    rec_at(g, d, deg, q, out);
}
__attribute__((noinline)) static void run(const char* g) { fprintf(F, "{\"e\":\"run\",\"g\":%s}\n", g); }
// a quotient may be rounded: continue with the integers it stands for
__attribute__((noinline)) static complex_t snap(complex_t z) { return complex_t(std::nearbyint(z.Re), std::nearbyint(z.Im)); }
static double octant(double a) { double o = a * (4 / 3.14159265358979323846); return std::fabs(o + 4) < 1e-14 ? 4 : o; }

// ------------------------------------------------ arbitrary operands
typedef long double L;
static uint64_t S = 88172645463325252ull;
static uint64_t rnd() { S ^= S << 13; S ^= S >> 7; S ^= S << 17; return S; }
static double rv(int e)
{
    double m = (double)(1 + (rnd() >> 11)) / 9007199254740992.0;
    int k = (int)(rnd() % 8);
    if (k == 0) return 0.0;
    if (k == 1) m = 1.0;
    if (k == 2) m = 1.0 - std::ldexp(1.0, -53);
    if (rnd() & 1) m = -m;
    return std::ldexp(m, e);
}
static long units(L er, L ei, L mag) // |error| relative to the magnitude of the result
{
    L e = sqrtl(er*er + ei*ei);
    if (e == 0) return 0;
    if (!(e == e)) return 1000000000;
    L u = e / (mag * 2.220446049250313080847e-16L);
    return u < 1e9L ? (long)ceill(u - 1e-6L) : 1000000000;
}
struct Worst { long u = -1; std::string what; };
static void note(Worst& w, long u, const char* f, double a, double b, double c, double d)
{
    if (u > w.u) { char t[200]; snprintf(t, sizeof t, "%s(%a,%a,%a,%a)", f, a, b, c, d); w.u = u; w.what = t; }
}
static void approx(long trials, uint64_t seed)
{
    S ^= seed * 0x9E3779B97F4A7C15ull; rnd(); rnd();
    const char* ops[] = {"add","sub","mul","div","smul","sdiv","conj","neg","jx","mjx","rmul=","rdiv=","mul=","add=","sub=","norm","abs","arg","expj","polar","std"};
    const int n = sizeof ops / sizeof *ops;
    std::vector<Worst> w(n);
    for (long t = 0; t < trials; t++) {
        int e1 = (int)(rnd() % 500) - 250, e2 = (int)(rnd() % 500) - 250;
        if (rnd() % 3 == 0) e2 = e1 + (int)(rnd() % 5) - 2;
        if (rnd() % 4 == 0) e1 = e2 = 0;
        complex_t a(rv(e1), rv(e1 + (rnd() % 2 ? 0 : (int)(rnd() % 60) - 30))), b(rv(e2), rv(e2 + (rnd() % 2 ? 0 : (int)(rnd() % 60) - 30)));
        double x = rv(e2);
        L ar = a.Re, ai = a.Im, br = b.Re, bi = b.Im, lx = x;
        L na = ar*ar + ai*ai, nb = br*br + bi*bi;
        for (int k = 0; k < n; k++) {
            const std::string o = ops[k];
            complex_t z; L r = 0, i = 0; double v = 0; bool real = false;
            if (o == "add") { z = a + b; r = ar + br; i = ai + bi; }
            else if (o == "sub") { z = a - b; r = ar - br; i = ai - bi; }
            else if (o == "mul") { z = a * b; r = ar*br - ai*bi; i = ar*bi + ai*br; }
            else if (o == "div") { if (nb == 0) continue; z = a / b; r = (ar*br + ai*bi) / nb; i = (ai*br - ar*bi) / nb; }
            else if (o == "smul") { z = x * a; r = lx*ar; i = lx*ai; }
            else if (o == "sdiv") { if (x == 0) continue; z = a / x; r = ar/lx; i = ai/lx; }
            else if (o == "conj") { z = conj(a); r = ar; i = -ai; }
            else if (o == "neg") { z = neg(a); r = -ar; i = -ai; }
            else if (o == "jx") { z = jx(a); r = -ai; i = ar; }
            else if (o == "mjx") { z = mjx(a); r = ai; i = -ar; }
            else if (o == "rmul=") { z = a; z *= x; r = ar*lx; i = ai*lx; }
            else if (o == "rdiv=") { if (x == 0) continue; z = a; z /= x; r = ar/lx; i = ai/lx; }
            else if (o == "mul=") { z = a; z *= b; r = ar*br - ai*bi; i = ar*bi + ai*br; }
            else if (o == "add=") { z = a; z += b; r = ar + br; i = ai + bi; }
            else if (o == "sub=") { z = a; z -= b; r = ar - br; i = ai - bi; }
            else if (o == "norm") { real = true; v = norm(a); r = na; }
            else if (o == "abs") { real = true; v = abs(a); r = sqrtl(na); }
            else if (o == "arg") { real = true; v = arg(a); r = atan2l(ai, ar); }
            else if (o == "std") { std::complex<double> s = a; z = s; if (s.real() != a.Re || s.imag() != a.Im) z.Re = NAN; r = ar; i = ai; }
            else {
                double th = rv((int)(rnd() % 14) - 4), rho = o == "polar" ? x : 1.0;
                z = o == "polar" ? OTFFT::polar(rho, th) : OTFFT::expj(th);
                r = (L)rho * cosl((L)th); i = (L)rho * sinl((L)th);
                note(w[k], units(z.Re - r, z.Im - i, fabsl((L)rho)), ops[k], rho, th, 0, 0);
                continue;
            }
            L m = real ? fabsl(r) : sqrtl(r*r + i*i);
            if (!real && m == 0 && (z.Re != 0 || z.Im != 0)) { note(w[k], 1000000000, ops[k], a.Re, a.Im, b.Re, b.Im); continue; }
            if (m == 0) m = 1;
            // products cancel: their error is relative to the operands' sizes
            if (o == "mul" || o == "mul=") m = sqrtl(na) * sqrtl(nb);
            if (o == "mul" || o == "mul=" || o == "smul" || o == "rmul=" || o == "div" || o == "rdiv=" || o == "sdiv") if (m == 0) m = 1;
            note(w[k], units(real ? v - r : z.Re - r, real ? 0 : z.Im - i, m), ops[k], a.Re, a.Im, o == "smul" || o == "rmul=" || o == "rdiv=" || o == "sdiv" ? x : b.Re, b.Im);
        }
    }
    for (int k = 0; k < n; k++) {
        fprintf(F, "{\"e\":\"approx\",\"op\":\"%s\",\"u\":%ld,\"worst\":\"%s\"}\n", ops[k], w[k].u < 0 ? 0 : w[k].u, w[k].what.c_str());
    }
}
