// C13 (library): AddressSanitizer + UBSan build, live heap bytes over repeated identical calls.
#include "mem.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
int main(int argc, char** argv) {
    return xp_main(argc, argv, [](X& x) {
        mem_space(x, false, [&](Fn f, const V& u, const V& w) {
            size_t m[4];
            m[0] = __sanitizer_get_current_allocated_bytes();
            for (int k = 0; k < 3; ++k) {
                if (k == 2 && m[1] == m[0] && m[2] == m[1]) return;
                { try { raw(f, u, w); } catch (std::exception&) {} }
                m[k + 1] = __sanitizer_get_current_allocated_bytes();
            }
            if (m[3] > m[2] && m[2] > m[1]) x.fail("%zu bytes are not released after a call (and %zu after the previous identical call)", m[3] - m[2], m[2] - m[1]);
        });
    });
}
