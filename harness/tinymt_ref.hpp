// Independent TinyMT64 (reference parameters), written from the published recursion.
#pragma once
#include <cstdint>
#include <vector>
struct RefTiny {
    uint64_t s0, s1;
    static constexpr uint64_t M1 = 0xfa051f40u, M2 = uint64_t(0xffd0fff4u) << 32, TM = 0x58d02ffeffbfffbcull, MASK = ~uint64_t(0) >> 1;
    static RefTiny from_state(uint64_t a, uint64_t b) { RefTiny r; r.s0 = a; r.s1 = b; return r; }
    static RefTiny seeded(uint64_t seed) {
        uint64_t st[2] = {seed ^ (uint64_t(0xfa051f40u) << 32), uint64_t(0xffd0fff4u) ^ TM};
        for (int i = 1; i < 8; ++i) { uint64_t p = st[(i - 1) % 2]; st[i % 2] ^= uint64_t(i) + 6364136223846793005ull * (p ^ (p / (1ull << 62))); }
        if (!(st[0] & MASK) && !st[1]) { st[0] = 'T'; st[1] = 'M'; }
        return from_state(st[0], st[1]);
    }
    static RefTiny keyed(const std::vector<uint64_t>& key) {
        uint64_t st[4] = {0, 0xfa051f40u, 0xffd0fff4u, TM};
        auto g1 = [](uint64_t x) { return (x ^ (x >> 59)) * 2173292883993ull; };
        auto g2 = [](uint64_t x) { return (x ^ (x >> 59)) * 58885565329898161ull; };
        int len = (int)key.size(), count = len + 1 > 8 ? len + 1 : 8;
        uint64_t r = g1(st[0] ^ st[1] ^ st[3]);
        st[1] += r; r += len; st[2] += r; st[0] = r;
        --count;
        int i = 1;
        for (int j = 0; j < count; ++j) { r = g1(st[i] ^ st[(i + 1) & 3] ^ st[(i + 3) & 3]); st[(i + 1) & 3] += r; r += (j < len ? key[j] : 0) + i; st[(i + 2) & 3] += r; st[i] = r; i = (i + 1) & 3; }
        for (int j = 0; j < 4; ++j) { r = g2(st[i] + st[(i + 1) & 3] + st[(i + 3) & 3]); st[(i + 1) & 3] ^= r; r -= i; st[(i + 2) & 3] ^= r; st[i] = r; i = (i + 1) & 3; }
        uint64_t a = st[0] ^ st[1], b = st[2] ^ st[3];
        if (!(a & MASK) && !b) { a = 'T'; b = 'M'; }
        return from_state(a, b);
    }
    void step() {
        uint64_t a = s0 & MASK, x = a ^ s1;
        x ^= x << 12; x ^= x >> 32; x ^= x << 32; x ^= x << 11;
        uint64_t n0 = s1, n1 = x;
        if (x & 1) { n0 ^= M1; n1 ^= M2; }
        s0 = n0; s1 = n1;
    }
    uint64_t temper() const { uint64_t x = (s0 + s1) ^ (s0 >> 8); return x & 1 ? x ^ TM : x; }
    uint64_t next() { step(); return temper(); }
};
