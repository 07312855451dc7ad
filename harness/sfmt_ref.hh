// SFMT-19937 written from its definition (Saito & Matsumoto), on 128-bit integers.
#pragma once
#include <cstdint>
#include <cstring>
struct SfmtRef {
    uint32_t w[624]; int idx;
    typedef unsigned __int128 u128;
    static u128 ld(const uint32_t *p) { u128 v = 0; for (int i = 3; i >= 0; --i) v = v << 32 | p[i]; return v; }
    static void st(uint32_t *p, u128 v) { for (int i = 0; i < 4; ++i) { p[i] = (uint32_t)v; v >>= 32; } }
    explicit SfmtRef(uint32_t seed = 0) { init(seed); }
    void init(uint32_t seed) {
        w[0] = seed; for (int i = 1; i < 624; ++i) w[i] = 1812433253u * (w[i - 1] ^ (w[i - 1] >> 30)) + i;
        static const uint32_t par[4] = {1, 0, 0, 0x13c9e684u};
        uint32_t x = 0; for (int i = 0; i < 4; ++i) x ^= w[i] & par[i];
        if (!(__builtin_popcount(x) & 1)) w[0] ^= 1; // lowest parity bit
        idx = 624;
    }
    void refill() {
        static const uint32_t msk[4] = {0xdfffffefu, 0xddfecb7fu, 0xbffaffffu, 0xbffffff6u};
        for (int i = 0; i < 156; ++i) {
            const uint32_t *a = w + 4 * i, *b = w + 4 * ((i + 122) % 156), *c = w + 4 * ((i + 154) % 156), *d = w + 4 * ((i + 155) % 156);
            uint32_t x[4], y[4], r[4]; st(x, ld(a) << 8); st(y, ld(c) >> 8);
            for (int k = 0; k < 4; ++k) r[k] = a[k] ^ x[k] ^ ((b[k] >> 11) & msk[k]) ^ y[k] ^ (d[k] << 18);
            memcpy(w + 4 * i, r, 16);
        }
        idx = 0;
    }
    uint32_t u32() { if (idx >= 624) refill(); return w[idx++]; }
    uint64_t u64() { uint64_t lo = u32(); return lo | (uint64_t)u32() << 32; } // on even positions
    float s() { float u = (float)(u32() * (1.0 / 4294967296.0)); return u < 1 ? u : 0.99999994f; }
    double d() { uint64_t lo = u32(), v = lo | (uint64_t)u32() << 32; return (v >> 11) * (1.0 / 9007199254740992.0); }
};
