/* appended to the scratch copy of tinymt64.h: reports the generator's state and every draw to the explorer */
#ifndef XP_TINYMT_RECORD
#define XP_TINYMT_RECORD
extern "C" void xp_state(uint64_t, uint64_t, uint32_t, uint32_t, uint64_t);
extern "C" void xp_note(double);
#define XP_REC(name, type, conv) static inline type xp_rec_##name(tinymt64_t* r) { xp_state(r->status[0], r->status[1], r->mat1, r->mat2, r->tmat); type v = tinymt64_generate_##name(r); xp_note(conv); return v; }
XP_REC(doubleOO, double, v)
XP_REC(doubleOC, double, v)
XP_REC(double01, double, v)
XP_REC(double, double, v)
XP_REC(double12, double, v - 1.0)
XP_REC(uint64, uint64_t, v * (1.0 / 18446744073709551616.0))
#define tinymt64_generate_doubleOO xp_rec_doubleOO
#define tinymt64_generate_doubleOC xp_rec_doubleOC
#define tinymt64_generate_double01 xp_rec_double01
#define tinymt64_generate_double xp_rec_double
#define tinymt64_generate_double12 xp_rec_double12
#define tinymt64_generate_uint64 xp_rec_uint64
#endif
