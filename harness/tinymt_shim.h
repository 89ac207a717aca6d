/* appended to the scratch copy of tinymt64.h: every draw of the programs comes from the explorer */
#ifndef XP_TINYMT_SHIM
#define XP_TINYMT_SHIM
extern "C" double xp_draw(void);
extern "C" uint64_t xp_draw64(void);
static inline double xp_arg(tinymt64_t*, double v) { return v; }
static inline uint64_t xp_arg64(tinymt64_t*, uint64_t v) { return v; }
#define tinymt64_generate_doubleOO(r) xp_arg((r), xp_draw())
#define tinymt64_generate_doubleOC(r) xp_arg((r), xp_draw())
#define tinymt64_generate_double01(r) xp_arg((r), xp_draw())
#define tinymt64_generate_double(r) xp_arg((r), xp_draw())
#define tinymt64_generate_double12(r) xp_arg((r), 1.0 + xp_draw())
#define tinymt64_temper_conv(r) xp_arg((r), 1.0 + xp_draw())
#define tinymt64_temper_conv_open(r) xp_arg((r), 1.0 + xp_draw())
#define tinymt64_generate_uint64(r) xp_arg64((r), xp_draw64())
#define tinymt64_temper(r) xp_arg64((r), xp_draw64())
#endif
