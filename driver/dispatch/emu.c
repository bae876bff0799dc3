// The emulated machine (compiled without vector registers).
#include <stdint.h>
uint32_t emu_max, emu_1c, emu_1d, emu_7b, emu_xcr0, emu_noise;
long emu_cpuid_n, emu_xgetbv_n;
extern char** environ;
static int ready;
// the machine is described by the environment, so that detection during static initialisation sees it too
void emu_init(void)
{
    if (ready) return;
    ready = 1;
    uint32_t v[6] = {0, 0, 0, 0, 0, 0};
    for (char** e = environ; e && *e; e++) {
        const char* s = *e;
        if (s[0] != 'E' || s[1] != 'M' || s[2] != 'U' || s[3] != '=') continue;
        s += 4;
        for (int k = 0; k < 6; k++) { while (*s == ' ') s++; while (*s >= '0' && *s <= '9') v[k] = v[k] * 10 + (uint32_t)(*s++ - '0'); }
    }
    emu_max = v[0]; emu_1c = v[1]; emu_1d = v[2]; emu_7b = v[3]; emu_xcr0 = v[4]; emu_noise = v[5];
}
static const uint32_t vendor[3] = {0x756e6547, 0x6c65746e, 0x49656e69};
void emu_cpuid_c(uint32_t leaf, uint32_t sub, uint32_t* r)
{
    emu_init();
    emu_cpuid_n++;
    if (leaf >= 0x80000000u) { r[0] = leaf == 0x80000000u ? 0x80000008u : 0; r[1] = emu_noise; r[2] = emu_noise; r[3] = emu_noise; return; }
    if (leaf == 0) { r[0] = emu_max; r[1] = vendor[0]; r[2] = vendor[1]; r[3] = vendor[2]; return; }
    if (leaf > emu_max) { r[0] = r[1] = r[2] = r[3] = 0xFFFFFFFFu; return; }    // not a leaf of this processor: the answer means nothing
    if (leaf == 1) { r[0] = 0x000906ea; r[1] = 0x00100800; r[2] = emu_1c; r[3] = emu_1d; return; }
    if (leaf == 7) { if (sub == 0) { r[0] = 0; r[1] = emu_7b; r[2] = emu_noise & 0x1FFFF; r[3] = emu_noise; } else { r[0] = r[1] = r[2] = r[3] = 0; } return; }
    r[0] = r[1] = r[2] = r[3] = emu_noise;
}
void emu_xgetbv_c(uint32_t xcr, uint32_t* r) { emu_init(); emu_xgetbv_n++; r[0] = xcr == 0 ? emu_xcr0 : emu_noise; r[1] = 0; }
// what GCC's __builtin_cpu_supports consults
struct { unsigned vendor, type, subtype, features[1]; } emu_cpu_model;
unsigned emu_cpu_features2[4];
int emu_cpu_init(void)
{
    unsigned f = 0;
    emu_init();
    int ymm = (emu_1c & (1u << 27)) && (emu_xcr0 & 6) == 6;
    if (emu_max >= 1) {
        if (emu_1d & (1u << 25)) f |= 1u << 3;
        if (emu_1d & (1u << 26)) f |= 1u << 4;
        if (emu_1c & 1) f |= 1u << 5;
        if (emu_1c & (1u << 9)) f |= 1u << 6;
        if (emu_1c & (1u << 19)) f |= 1u << 7;
        if (emu_1c & (1u << 20)) f |= 1u << 8;
        if (ymm && (emu_1c & (1u << 28))) f |= 1u << 9;
        if (ymm && emu_max >= 7 && (emu_7b & (1u << 5))) f |= 1u << 10;
    }
    emu_cpu_model.vendor = 1; emu_cpu_model.features[0] = f;
    return 0;
}
