#include "otfft_config.h"
#include "otfft.h"
#include "otfft_misc.h"
#include "otfft_sse2.h"
#include "otfft_avx.h"
#include "otfft_avx2.h"
#include "raw.h"
using OTFFT::complex_t;
template <class F> struct RawC : Raw {
    F f; explicit RawC(int n) : f(n) {}
    void run(int op, double* xp, double* yp, double*) const override
    {
        complex_t *x = (complex_t*)xp, *y = (complex_t*)yp;
        switch (op) { case 0: f.fwd(x, y); break; case 1: f.fwd0(x, y); break; case 2: f.fwdu(x, y); break; case 3: f.fwdn(x, y); break;
                      case 4: f.inv(x, y); break; case 5: f.inv0(x, y); break; case 6: f.invu(x, y); break; case 7: f.invn(x, y); break; }
    }
};
template <class F> struct RawD : Raw {
    F f; explicit RawD(int n) : f(n) {}
    void run(int op, double* x, double* y, double* zp) const override
    {
        complex_t* z = (complex_t*)zp;
        switch (op) { case 0: f.fwd(x, y, z); break; case 1: f.fwd0(x, y, z); break; case 3: f.fwdn(x, y, z); break;
                      case 4: f.inv(x, y, z); break; case 5: f.inv0(x, y, z); break; case 7: f.invn(x, y, z); break; }
    }
};
bool raw_available() { return true; }
Raw* raw_make(char kind, char be, int n)
{
    if (kind == 'C') {
        if (be == 'S') return new RawC<OTFFT_SSE2::FFT0>(n);
        if (be == 'V') return new RawC<OTFFT_AVX::FFT0>(n);
        return new RawC<OTFFT_AVX2::FFT0>(n);
    }
    if (be == 'S') return new RawD<OTFFT_SSE2::DCT0>(n);
    if (be == 'V') return new RawD<OTFFT_AVX::DCT0>(n);
    return new RawD<OTFFT_AVX2::DCT0>(n);
}
