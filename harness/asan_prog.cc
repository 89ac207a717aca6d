// C13 (programs): main() of a program under AddressSanitizer + UBSan on all small files and argument vectors.
#include "prog.hpp"
extern "C" size_t __sanitizer_get_current_allocated_bytes();
using namespace xp;
typedef std::vector<std::string> S;
int main(int argc, char** argv) {
    return xp_main(argc, argv, [](X& x) {
        char t[] = "pXXXXXX"; char* d = mkdtemp(t); if (!d) _exit(97);
        std::string path = std::string(d) + "/f.txt";
        bool mc = mode == "mc";
        auto go = [&](const S& a, const std::string& text) {
            if (!x.next()) return;
            if (x.describing) { std::string q; for (auto& s : a) q += " '" + s + "'"; x.desc(fmt("%s%s on \"%s\"", mc ? "crossprob_mc" : "crossprob", q.c_str(), text.c_str())); }
            uint64_t h = hash_str(text); for (auto& s : a) h = mix(h, hash_str(s));
            x.key(h); x.check();
            prog::put(path, text);
            size_t m[5];
            for (int k = 0; k < 4; ++k) {
                m[k] = __sanitizer_get_current_allocated_bytes();
                if (k == 2 && m[1] == m[2]) return;
                { prog::Res r = prog::run(a); }
            }
            m[4] = __sanitizer_get_current_allocated_bytes();
            if (m[4] > m[3] && m[3] > m[2] && m[2] > m[1]) x.fail("%zu bytes are not released by a run of main", m[4] - m[3]);
        };
        // long runs and long files: counts of points and products of sizes leave the range of int (one run each)
        auto lists = [&](int n, const char* lo, const char* hi) { std::string b, B; for (int i = 0; i < n; ++i) { b += lo; b += ","; B += hi; B += ","; } return b + "\n" + B + "\n"; };
        auto once = [&](const S& a, const std::string& text, const char* what) {
            if (!x.next()) return;
            if (x.describing) x.desc(fmt("%s %s %s%s%s", mc ? "crossprob_mc" : "crossprob", a[0].c_str(), what, mc ? ", simulations: " : "", mc ? a[2].c_str() : ""));
            x.key(mix(hash_str(text), hash_str(a[0] + a.back()))); x.check();
            prog::put(path, text);
            prog::Res r = prog::run(a);
            if (r.sig || r.status || prog::lines(r.out).size() != 1) x.fail("ended with status %d, printed %s", r.status, prog::brief(r.out + r.err).c_str());
        };
        if (mc) for (const char* c : {"ecdf", "poisson"}) {
            std::string one = lists(100000, "0.000001", ""); one = "\n" + one.substr(0, one.find('\n')) + "\n";
            once({c, path, thorough ? "44000" : "22000"}, one, "on 100000 upper bounds");
            if (thorough) once({c, path, "2200000000"}, "\n0.5\n", "on one upper bound");
            for (int n : {32768, 46341, 65536, 100000}) once({c, path, "3"}, lists(n, "0", "1"), fmt("on two lists of %d bounds", n).c_str());
        }
        else for (const char* a : {"ecdf2-mn2017"}) for (int n : {32768, 46341, 65536, 100000}) once({a, path}, lists(n, "0", "1"), fmt("on two lists of %d bounds", n).c_str());
        S algs = mc ? S{"ecdf", "poisson"} : S{"ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-new", "ecdf1-mns2016"};
        auto args = [&](const std::string& a, const std::string& f) { S r = {a, f}; if (mc) r.push_back("20"); return r; };
        const std::string C = std::string("10.,\n x-");
        for (int n = 0; n <= (thorough ? 5 : 4); ++n) words(n, (int)C.size(), [&](const std::vector<int>& w) { std::string s; for (int k : w) s += C[k]; go(args(algs[0], path), s); if (n <= 3) for (size_t i = 1; i < algs.size(); ++i) go(args(algs[i], path), s); });
        // all shapes of lists
        for (int n = 0; n <= 5; ++n) for (int k = 0; k <= 5; ++k) for (auto& a : algs) for (int v = 0; v < 3; ++v) {
            std::string b, B; for (int i = 0; i < n; ++i) b += (i ? "," : "") + fmt("%g", v == 2 ? 0.9 : v * i / 20.0); for (int i = 0; i < k; ++i) B += (i ? "," : "") + fmt("%g", v == 0 ? 1.0 : v == 2 ? 0.1 : 0.5 + i / 20.0);
            for (auto c : {"1", "2", "50"}) { S r = args(a, path); if (mc) r[2] = c; go(r, b + "\n" + B + "\n"); if (!mc) break; }
        }
        // argument vectors
        S w_ = {algs[0], algs[1], path, "", "nosuchfile", "10", "-1"};
        for (int n = 0; n <= 4; ++n) words(n, (int)w_.size(), [&](const std::vector<int>& w) { if (n == 4 && !thorough && w[0] > 1) return; S a; for (int k : w) a.push_back(w_[k]); go(a, "0.1,0.2\n0.5,0.6\n"); });
        go(args(algs[0], d), "x"); go(args(algs[1], d), "x");
        // longer files
        for (int n : {50, 127, 128, 129, 300, 2149, 3000}) for (auto& a : algs) for (int v = 0; v < 3; ++v) {
            if (n > 300 && !mc) continue;
            std::string b, B; for (int i = 0; i < n; ++i) { b += fmt("%.17g,", 0.5 * i / n); B += fmt("%.17g,", 0.5 + 0.5 * (i + 1) / n); }
            go(args(a, path), (v == 1 ? "" : b) + "\n" + (v == 0 ? "" : B) + "\n");
        }
    });
}
