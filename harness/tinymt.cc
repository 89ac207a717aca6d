// C16 (generator): the repository's TinyMT64 against the independent implementation, for a set of seeds and keys.
#include "xp.hpp"
#include "tinymt64.h"
#include "tinymt_ref.hpp"
using namespace xp;
static void params(tinymt64_t& t, int poison) { memset(&t, poison, sizeof t); t.mat1 = 0xfa051f40; t.mat2 = 0xffd0fff4; t.tmat = UINT64_C(0x58d02ffeffbfffbc); }
static void follow(X& x, tinymt64_t& t, RefTiny r, int len, const char* what) {
    for (int i = 0; i < len; ++i) {
        uint64_t u = r.next(); int kind = i % 6; bool ok; double fr = std::ldexp((double)(u >> 12), -52), d = 0;
        x.states(1, 1);
        switch (kind) {
            case 0: case 5: { uint64_t v = tinymt64_generate_uint64(&t); ok = v == u; d = (double)v; break; }
            case 1: d = tinymt64_generate_double01(&t); ok = d == fr; break;
            case 2: d = tinymt64_generate_doubleOO(&t); ok = std::fabs(d - fr) <= 2.3e-16 && d > 0 && d < 1; break;
            case 3: d = tinymt64_generate_doubleOC(&t); ok = std::fabs(d - (1 - fr)) <= 2.3e-16 && d > 0 && d <= 1; break;
            default: d = tinymt64_generate_double(&t); ok = std::fabs(d - std::ldexp((double)u, -64)) <= 2.3e-16; break;
        }
        x.check();
        if (!ok) x.fail("%s: output %d (kind %d) is %.17g, the reference generator gives %llu", what, i, kind, d, (unsigned long long)u);
    }
    x.trace();
}
int main(int argc, char** argv) {
    return xp_main(argc, argv, [](X& x) {
        if (x.next()) {   // published first outputs for seed 1
            const uint64_t pub[6] = {15503804787016557143ull, 17280942441431881838ull, 2177846447079362065ull, 10087979609567186558ull, 8925138365609588954ull, 13030236470185662861ull};
            x.desc("published outputs for seed 1");
            RefTiny r = RefTiny::seeded(1); tinymt64_t t; params(t, 0); tinymt64_init(&t, 1);
            for (int i = 0; i < 6; ++i) { if (r.next() != pub[i]) { fprintf(stderr, "reference generator is wrong\n"); _exit(99); } x.oracle(); uint64_t v = tinymt64_generate_uint64(&t); x.check(); if (v != pub[i]) x.fail("output %d is %llu, published %llu", i, (unsigned long long)v, (unsigned long long)pub[i]); }
        }
        std::vector<uint64_t> seeds;
        for (uint64_t i = 0; i < (thorough ? 2000 : 300); ++i) { seeds.push_back(i); seeds.push_back(1700000000ull + i); seeds.push_back((i << 20) + 1700000000ull); seeds.push_back(~uint64_t(0) - i); }
        for (int b = 0; b < 64; ++b) { seeds.push_back(1ull << b); seeds.push_back((1ull << b) - 1); seeds.push_back(~(1ull << b)); }
        for (uint64_t s : seeds) for (int poison : {0, 0xff, 0x5a}) {
            if (!x.next()) continue;
            if (x.describing) x.desc(fmt("seed %llu, memory filled with %02x", (unsigned long long)s, poison));
            x.key(mix(s, poison));
            tinymt64_t t; params(t, poison); tinymt64_init(&t, s);
            follow(x, t, RefTiny::seeded(s), thorough ? 3000 : 600, "seeded");
        }
        for (int n = 0; n <= 12; ++n) for (uint64_t a : {uint64_t(0), uint64_t(1), uint64_t(0x0123456789abcdefull), ~uint64_t(0)}) for (int poison : {0, 0xff}) {
            if (!x.next()) continue;
            std::vector<uint64_t> k; for (int i = 0; i < n; ++i) k.push_back(a * (i + 1) + i);
            if (x.describing) x.desc(fmt("key of %d words from %llx", n, (unsigned long long)a));
            x.key(mix(a, n * 7 + poison));
            tinymt64_t t; params(t, poison); tinymt64_init_by_array(&t, k.data(), n);
            follow(x, t, RefTiny::keyed(k), 600, "keyed");
        }
        // chosen states, in particular those that decide each branch of the recursion
        for (int i = 0; i < 64; ++i) for (int j = 0; j < 64; ++j) {
            if (!x.next()) continue;
            uint64_t a = 1ull << i, b = 1ull << j;
            if (x.describing) x.desc(fmt("state bits %d and %d", i, j));
            x.key(mix(i, j));
            tinymt64_t t; params(t, 0); t.status[0] = a; t.status[1] = b;
            follow(x, t, RefTiny::from_state(a, b), 260, "state");
        }
    });
}
