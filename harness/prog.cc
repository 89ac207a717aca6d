// C09 boundaries files, C10 crossprob command line, C17 crossprob_mc command line.
#include "prog.hpp"
#include "ref.hpp"
#include "fam.hpp"
#include <regex>
using namespace xp;
typedef std::vector<double> V;
typedef std::vector<std::string> S;
static std::string dir;   // scratch directory of this worker

// ---- independent reading of a boundaries file ------------------------------------------------
enum Verdict { OK, ERR, UNSPEC };
static bool ws(char c) { return c == ' ' || c == '\t' || c == '\r' || c == '\v' || c == '\f'; }
static Verdict item(const std::string& s, double& v) {
    size_t a = 0, z = s.size();
    while (a < z && ws(s[a])) ++a;
    while (z > a && ws(s[z - 1])) --z;
    if (a == z) return ERR;
    std::string t = s.substr(a, z - a);
    if (a && s.find('\r') < a) return UNSPEC;
    size_t i = 0, d = 0;
    if (t[i] == '+' || t[i] == '-') ++i;
    if (i + 1 < t.size() && t[i] == '0' && (t[i + 1] == 'x' || t[i + 1] == 'X') && i + 2 < t.size()) return UNSPEC;   // hexadecimal
    if (i < t.size() && strchr("iInN", t[i])) return UNSPEC;                                                          // inf, nan
    while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++d;
    if (i < t.size() && t[i] == '.') { ++i; while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++d; }
    if (!d) return ERR;
    if (i < t.size() && (t[i] == 'e' || t[i] == 'E')) {
        ++i; if (i < t.size() && (t[i] == '+' || t[i] == '-')) ++i;
        size_t k = 0; while (i < t.size() && isdigit((unsigned char)t[i])) ++i, ++k;
        if (!k) return ERR;
    }
    if (i != t.size()) return ERR;
    long double w = strtold(t.c_str(), nullptr);
    if (fabsl(w) > 1.7976931348623157e308L) return ERR;
    v = strtod(t.c_str(), nullptr);
    if (w != 0 && fabsl(w) < 2.3e-308L) return fabsl(w) < 1e-330L ? ERR : UNSPEC;
    return OK;
}
static Verdict line(const std::string& l, V& v) {
    v.clear();
    if (l.empty()) return OK;
    S it; size_t a = 0;
    while (true) { size_t c = l.find(',', a); it.push_back(l.substr(a, c == std::string::npos ? c : c - a)); if (c == std::string::npos) break; a = c + 1; }
    if (it.size() == 1) { bool blank = true; for (char c : it[0]) if (!ws(c)) blank = false; if (blank) return UNSPEC; }
    Verdict r = OK;
    if (it.size() > 1) {
        bool blank = true; for (char c : it.back()) if (!ws(c)) blank = false;
        if (blank && !it.back().empty()) r = UNSPEC;      // comma followed by blanks only
        if (blank) it.pop_back();
    }
    for (auto& s : it) { double d = 0; Verdict q = item(s, d); if (q == ERR) return ERR; if (q == UNSPEC) r = UNSPEC; v.push_back(d); }
    return r;
}
static Verdict file(const std::string& s, V& b, V& B) {
    size_t a = s.find('\n');
    if (a == std::string::npos) { V t; Verdict v = line(s, t); return s.empty() || v != UNSPEC ? ERR : UNSPEC; }
    if (a + 1 == s.size()) return ERR;           // no second line
    size_t c = s.find('\n', a + 1);
    Verdict x = line(s.substr(0, a), b), y = line(s.substr(a + 1, c == std::string::npos ? c : c - a - 1), B);
    if (x == ERR || y == ERR) return x == UNSPEC || y == UNSPEC ? UNSPEC : ERR;
    return x == UNSPEC || y == UNSPEC ? UNSPEC : OK;
}
static bool valid(const V& v) { for (size_t i = 0; i < v.size(); ++i) if (v[i] < 0 || v[i] > 1 || (i && v[i] < v[i - 1])) return false; return true; }

static std::string esc(const std::string& s) {
    std::string o; char b[8];
    for (unsigned char c : s.size() > 700 ? s.substr(0, 350) + "....." + s.substr(s.size() - 340) : s) { if (c == '\n') o += "\\n"; else if (c == '\r') o += "\\r"; else if (c == '\t') o += "\\t"; else if (c < 32 || c > 126) { snprintf(b, 8, "\\x%02x", c); o += b; } else o += c; }
    return o;
}
static const char* ALGS[] = {"ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-new", "ecdf1-mns2016"};
static bool two(int a) { return a < 2; }

// expected behaviour of "crossprob ALG file"
static std::string expect(const prog::Res& r, int alg, Verdict v, const V& b, const V& B, double ref) {
    if (v == UNSPEC) return r.sig ? "died" : "";
    if (v == ERR || !valid(b) || !valid(B)) return prog::refused(r);
    bool sizes = two(alg) ? b.size() == B.size() || b.empty() || B.empty() : b.empty() != B.empty();
    if (!sizes) return prog::refused(r);
    int n = (int)std::max(b.size(), B.size());
    if (n == 0) { std::string q = prog::answered(r, 1.0, 1e-12); return q.empty() || prog::refused(r).empty() ? "" : q; }
    // the direct algorithm keeps relative accuracy
    double tol = alg == 0 && n <= 200 ? 1e-11 * (n + 30) * ref : 1e-13 * (n + 30);
    return prog::answered(r, ref, tol);
}
static void read_case(X& x, const std::string& text, int alg, const char* kind) {
    if (!x.next()) return;
    V b, B; Verdict v = file(text, b, B);
    if (x.describing) x.desc(fmt("%s: crossprob %s on file \"%s\"", kind, ALGS[alg], esc(text).c_str()));
    x.key(mix(hash_str(text), alg * 4 + v));
    x.extra(v);
    double ref = 0;
    if (v == OK && valid(b) && valid(B) && (b.size() == B.size() || b.empty() || B.empty())) { RefStats st; ref = ref_noncrossing(b, B, &st); x.states(st.states, st.transitions); x.trace(); }
    std::string path = dir + "/f.txt";
    prog::put(path, text);
    prog::check(x, {ALGS[alg], path}, [&](const prog::Res& r) { return expect(r, alg, v, b, B, ref); });
}
static std::string num(double d, int style) {
    char b[64];
    switch (style % 4) { case 0: snprintf(b, 64, "%.17g", d); break; case 1: snprintf(b, 64, "%.17e", d); break; case 2: snprintf(b, 64, "%.25f", d); break; default: snprintf(b, 64, "%.17G", d); }
    return b;
}
static void body_file(X& x) {
    // 1. all short texts over an alphabet of characters
    const std::string C = std::string("1.0,\n5 e-x\r");
    for (int n = 0; n <= (thorough ? 6 : 5); ++n) words(n, (int)C.size(), [&](const std::vector<int>& w) { std::string s; for (int k : w) s += C[k]; read_case(x, s, 0, "all short texts"); });
    // 2. all pairs of lines built from up to three tokens
    const S good = {"0", "0.25", ".5", "1e0", "+0.125", "2.5E-1", "1."};
    const S bad = {"", "abc", "0.1x", "0.1 0.2", "0.1.2", "1e", "--1", "1e999", "0.1;0.2", "0.1\x01", "1e-999", "-", ".", "0.1f", "0.1L", "0.1d", "1e+", "1e-", "1d-1", "0.1%", "'0.1'", "\"0.1\"", "[0.1", "0.1]", "(0.1)", "1_0", "0.1e1.5", "+-1", "+", "e5", "1ee5", "0,", "0.1/", "#0.1", "0.1#", "1/2", "$0.1", "b=0.1",
        "\xef\xbb\xbf""0.1", "0.1\xa0", "\xa0""0.1", "\x85""0.1", "\xc2\xa0""0.1", "0.1\xff", "\xd9\xa1", "0\xd9\xab""1"};
    S lines1;
    lines1.push_back("");
    auto blanks = [](const std::string& t, int k) { return k == 0 ? t : k == 1 ? " " + t : k == 2 ? t + " " : "\t" + t + "  "; };
    for (auto& a : good) { for (int k = 0; k < 4; ++k) lines1.push_back(blanks(a, k)); lines1.push_back(a + ","); lines1.push_back(a + "\r"); lines1.push_back(a + " ,"); }
    for (size_t i = 0; i < good.size(); ++i) for (size_t j = 0; j < good.size(); ++j) { lines1.push_back(good[i] + "," + good[j]); lines1.push_back(good[i] + " , " + good[j] + ","); }
    for (auto& a : bad) { lines1.push_back(a); lines1.push_back(a + ","); lines1.push_back("0.5," + a); lines1.push_back(a + ",0.5"); lines1.push_back("0.25," + a + ",0.5"); }
    lines1.push_back(std::string("0.1\0 9", 6)); lines1.push_back(std::string("0.1\0,0.5", 8)); lines1.push_back(",,"); lines1.push_back(",0.5"); lines1.push_back("0.5,,"); lines1.push_back("0.1\r\r");
    for (auto& a : lines1) for (auto& b : lines1) {
        read_case(x, a + "\n" + b + "\n", 0, "line pairs");
        if (thorough || a.size() + b.size() < 9) read_case(x, a + "\n" + b, 0, "line pairs, no final newline");
    }
    for (auto& a : lines1) for (int alg = 1; alg < 4; ++alg) { read_case(x, a + "\n\n", alg, "one list"); read_case(x, "\n" + a, alg, "one list"); read_case(x, a + "\r\n" + a + "\r\n", alg, "DOS line ends"); }
    for (auto& a : lines1) { read_case(x, a, 0, "one line only"); read_case(x, a + "\n", 0, "one line only"); read_case(x, a + "\n0.5,1\n", 0, "fixed second line"); }
    // 3. precision: neighbouring numbers, the difference is the probability
    for (int k = 1; k <= 60; ++k) for (int s = 0; s < 4; ++s) for (double c : {0.1, 0.3, 0.7, 0.0123456789}) {
        double d = c; for (int i = 0; i < k; ++i) d = std::nextafter(d, 1.0);
        read_case(x, num(c, s) + "\n" + num(d, s + 1) + "\n", 0, "adjacent doubles");
        read_case(x, num(c, s) + "\n" + num(c + std::pow(0.5, k), s) + "\n", 0, "close doubles");
    }
    // 4. n numbers per line, every style of separator; long lines and long tokens
    for (int n : {1, 2, 3, 7, 30, 100, 200, 400}) for (int s = 0; s < 4; ++s) for (const char* sep : {",", ", ", " ,", ",   \t "}) for (const char* end : {"", ",", "\r"}) for (int side = 0; side < 3; ++side) {
        V b = fam::ks_lower(n, 0.9 / std::sqrt((double)n)), B = fam::ks_upper(n, 0.8 / std::sqrt((double)n));
        std::string lb, lB;
        for (int i = 0; i < n; ++i) { lb += (i ? sep : "") + num(b[i], s); lB += (i ? sep : "") + num(B[i], s); }
        read_case(x, (side == 1 ? "" : lb + end) + "\n" + (side == 2 ? "" : lB + end) + (s % 2 ? "\n" : ""), n > 120 ? 1 : 0, "separators");
    }
    for (int pad : {100, 1000, 4095, 4096, 8191, 8192, 8193, 65535, 65536, 70000, 300000}) for (int k = 0; k < 6; ++k) {
        std::string z(pad, k < 3 ? '0' : ' ');
        std::string t = k == 0 ? "0.25" + z + ",0.5\n0.75,1\n" : k == 1 ? "0.25,0.5" + z + "\n0.75" + z + ",1\n" : k == 2 ? z + ".25,0.5\n0.75,1\n" : k == 3 ? "0.25," + z + "0.5\n" + z + "0.75,1\n" : k == 4 ? "0.25" + z + ",0.5" + z + "\n0.75,1\n" : "0.25,0.5" + z + "x\n0.75,1\n";
        read_case(x, t, 0, "long lines");
    }
    // 5. one defect at every position of a longer file
    for (int n : {30, 300}) for (int p = 0; p < n; p += n > 100 ? 7 : 1) for (int side = 0; side < 2; ++side) for (int k = 0; k < 7; ++k) {
        S t[2]; for (int i = 0; i < n; ++i) { t[0].push_back(num(0.5 * i / n, 0)); t[1].push_back(num(0.5 + 0.5 * (i + 1) / n, 0)); }
        std::string& c = t[side][p];
        switch (k) { case 0: c = ""; break; case 1: c += "x"; break; case 2: c = "zero"; break; case 3: c += " 0.5"; break; case 4: c += "." ; break; case 5: c = "1e999"; break; case 6: t[side].erase(t[side].begin() + p); break; }
        if (k == 0 && p == n - 1) continue;
        if (k == 4) c += "1";
        std::string text; for (int l = 0; l < 2; ++l) { for (size_t i = 0; i < t[l].size(); ++i) text += (i ? ", " : "") + t[l][i]; text += "\n"; }
        read_case(x, text, 1, "one defect");
    }
    // 5a. long items: something wrong (or merely unusual) behind any number of digits
    for (int len : {10, 16, 17, 18, 19, 20, 24, 30, 31, 32, 33, 39, 40, 41, 48, 50, 60, 63, 64, 65, 79, 80, 81, 99, 100, 127, 128, 129, 150, 200, 254, 255, 256, 257, 300, 350, 400, 511, 512, 513, 700, 800, 1023, 1024, 1025}) {
        if (!thorough && len > 300 && len % 100 > 60) continue;
        std::string digits; for (int i = 0; i < len; ++i) digits += "3141592653589793238462643383279502884197169"[i % 43];
        for (const char* head : {"0.", ".", "00.", "0.000"}) {
            std::string z = head + digits;
            for (const char* tail : {"", "0", " ", "\t ", "e0", "e-1", "E-01", "e+0", "e-400", "e400", " 5", "5 5", "  1", ".", ".5", "x", "e", "e-", "-", "+", "-1", "d0", "f", "L", ";1", "/2", "%", "e-1 2", "e-1.5", "e0x", "\"", "'", ":", "_1", "\x01", "\xa0"}) {
                if (head[0] == '.' && strlen(tail) > 2) continue;
                read_case(x, z + tail + ",0.9\n0.95,1\n", 0, "long items");
                if (len <= 64 || thorough) { read_case(x, "0.1, " + z + tail + "\n0.95,1\n", 0, "long items"); read_case(x, "\n" + z + tail, 1, "long items"); }
            }
        }
        for (const char* bad : {" ", ".", "x", "-", "e", "_"}) for (int at : {1, len / 4, len / 2, len - 2, len - 1}) { std::string d = digits; d.insert(at, bad); read_case(x, "0." + d + ",0.9\n0.95,1\n", 0, "long items"); read_case(x, "0.05," + std::string(len, '0') + "." + d + "\n0.95,1\n", 0, "long items"); }
    }
    // 5b. very long lists: every item counts
    for (int n : {4097, 10000, 20000, 40000, 65537, 70000}) for (int style = 0; style < 2; ++style) for (int k = 0; k < 10; ++k) {
        if (n == 40000 && !thorough) continue;
        if (!x.next()) continue;
        S t[2]; double c = 1 - 1.0 / n;
        t[0].assign(n, style ? "0.00000000000000000e+00" : "0"); t[1].assign(n, num(c, 0));
        double want = std::exp(n * std::log1p(-1.0 / n)); std::string what = "all items correct";
        switch (k) {
            case 1: t[0][n - 1] = "abc"; want = -1; what = "last item of the first list is no number"; break;
            case 2: t[1][n - 1] = "0.5x"; want = -1; what = "last item of the second list is no number"; break;
            case 3: t[1][n - 1] = "1.5"; want = -1; what = "last item of the second list exceeds 1"; break;
            case 4: t[0].pop_back(); want = -1; what = "first list is shorter by one"; break;
            case 5: t[1].push_back("1"); want = -1; what = "second list is longer by one"; break;
            case 6: t[0][n - 1] = "1"; want = 0; what = "last item of the first list is 1"; break;
            case 7: for (auto& s : t[1]) s = num(1, style); want = 1; what = "all items of the second list are 1"; break;
            case 8: t[1].clear(); want = 1; what = "second list empty"; break;
            case 9: t[0].clear(); what = "first list empty"; break;
            default: break;
        }
        std::string text; for (int l = 0; l < 2; ++l) { for (size_t i = 0; i < t[l].size(); ++i) { if (i) text += style ? ", " : ","; text += t[l][i]; } text += style && k < 8 ? "\r\n" : "\n"; }
        if (x.describing) x.desc(fmt("crossprob ecdf2-mn2017 on %d zeros and as many numbers 1-1/%d: %s", n, n, what.c_str()));
        x.key(mix(mix(515, n), style * 16 + k));
        std::string path = dir + "/f.txt"; prog::put(path, text);
        prog::check(x, {"ecdf2-mn2017", path}, [&](const prog::Res& r) { return want < 0 ? prog::refused(r) : prog::answered(r, want, 1e-13 * (n + 30)); });
    }
    // 6. the other program's reader uses the same rules (crossprob_mc has no checks of the values): see mode mcfile
}

// crossprob_mc reads with the same rules; values are observed as forced outcomes
static void body_mcfile(X& x) {
    auto one = [&](const std::string& text) {
        for (const char* cmd : {"ecdf", "poisson"}) {
            if (!x.next()) continue;
            V b, B; Verdict v = file(text, b, B);
            if (x.describing) x.desc(fmt("crossprob_mc %s on file \"%s\"", cmd, esc(text).c_str()));
            x.key(mix(hash_str(text), v)); x.extra(v);
            std::string path = dir + "/f.txt"; prog::put(path, text);
            prog::check(x, {cmd, path, "3"}, [&](const prog::Res& r) -> std::string {
                if (v == UNSPEC) return r.sig ? "died" : "";
                if (v == ERR) return prog::refused(r);
                auto l = prog::lines(r.out); double d;
                if (r.status != 0 || l.size() != 1 || !prog::number_line(l[0], &d)) return "a well-formed file was not accepted";
                if (!(d >= 0 && d <= 1)) return "estimate outside [0,1]";
                if (!strcmp(cmd, "ecdf")) {   // outcomes forced whatever the draws
                    bool all = true, none = false;
                    size_t n = std::max(b.size(), B.size());
                    for (double q : b) if (q > 0) all = false;
                    for (double q : B) if (q < 1) all = false;
                    for (double q : b) if (q > 1) none = true;
                    for (double q : B) if (q < 0) none = true;
                    if (!b.empty() && b.size() < n) none = true;
                    if (none && d != 0) return "printed " + l[0] + " but no sample can satisfy these bounds";
                    if (!none && all && d != 1) return "printed " + l[0] + " but every sample satisfies these bounds";
                }
                return "";
            });
        }
    };
    const std::string C = std::string("1.0,\n-x2 ");
    for (int n = 0; n <= (thorough ? 6 : 5); ++n) words(n, (int)C.size(), [&](const std::vector<int>& w) { std::string s; for (int k : w) s += C[k]; one(s); });
    S l; for (auto t : {"", "0", "1", "-1", "2", "0.0", "1,1", "0,0", "0,0,0", "0,2", "-1,1", "1,1,1,", "abc", "0.1 0.2", "0,,0", "1x", "0, 0", " 1 , 1 ", "0\r", "1e999", ",", "0,0,0,0,0,2", "-1,1,1,1,1,1", "1,1,1,1,1,1"}) l.push_back(t);
    for (auto& a : l) for (auto& b : l) for (const char* e : {"\n", ""}) one(a + "\n" + b + e);
    for (auto& a : l) { one(a); one(a + "\n"); one(a + "\n" + a + "\n" + a + "\n"); }
}

static std::string estimate(const prog::Res& r, long N, int forced);
// The file is the one that is named, whatever its name; a missing one is refused although files with similar names exist.
static void body_names(X& x, bool mc) {
    struct Nm { std::string path, file; };   // argument; file to create (the same file by a plain path)
    std::vector<Nm> names;
    std::set<std::string> seen;
    auto add = [&](const std::string& p, const std::string& f) { if (seen.insert(p).second) names.push_back({p, f}); };
    const std::string C = std::string(" \t\n\r\"'\\$%*?~#&;|<>()[]{}!=,:@+^`-._0e\x7f\x80\xc3\xff");
    for (char a : C) { std::string s(1, a); for (auto& n : {s, "f" + s, s + "f", "f" + s + "f", s + s + "f", "f.txt" + s}) if (n != "." && n != "..") add(n, n); }
    for (char a : C) for (char b : C) { std::string n{a, b}; if (n != "..") add(n, n); }
    for (const char* n : {"--", "--help", "-h", "-f", "-1", "...", "nan", "inf", "1e5", "0.1,0.2", "ecdf", "poisson", "ecdf2-mn2017", "ecdf1-new", "f.csv", "f.gz", "f.bz2", "f.json", "f.TXT", "F.txt", "f.txt.bak", "f.txt~", "%s", "%n%n", "%d%s%f", "$HOME", "~", "~root", "NUL", "con", "stdin", "http:", "file:f", "\xc3\xa9t\xc3\xa9", "\xe4\xb8\xad.txt"}) add(n, n);
    for (int k = 3; k <= 255; ++k) if (k < 40 || k % (thorough ? 1 : 8) < 2 || k > 250) add(std::string(k, 'n'), std::string(k, 'n'));
    for (const char* n : {"./f", ".//f", "d/f", "d//f", "d/../f", "./d/./f", "d/d/f", "../CUR/f", "../CUR/d/f"}) add(n, n);
    // long paths through existing directories
    for (int k : {120, 255, 256, 257, 300, 511, 512, 513, 1023, 1024, 1025, 1500, 2047, 2048, 2049, 3000, 4000, 4090}) { std::string n; while ((int)n.size() + 1 < k) n += (int)n.size() + 2 < k ? "./" : "/"; add(n + "f", "f"); if (k < 4000) { n.clear(); while ((int)n.size() + 5 < k) n += "d/../"; while ((int)n.size() + 1 < k) n += n.size() % 2 ? "/" : "."; if (n.size() && n.back() == '.') n += "/"; add(n + "f", "f"); } }
    char here[4096]; if (!getcwd(here, sizeof here)) _exit(97);
    std::string cur = std::string(here) + "/" + dir;
    auto fix = [&](std::string s) { size_t i = s.find("CUR"); if (i != std::string::npos) s.replace(i, 3, dir); return s; };
    size_t rel = names.size();
    for (size_t i = 0; i < rel; ++i) if (i % (thorough ? 1 : 7) == 0 && names[i].path.size() < 3000) names.push_back({cur + "/" + fix(names[i].path), names[i].file});
    const std::string text = "0.1,0.2\n0.6,0.9\n", decoy = "0.3,0.5\n0.6,0.7\n";
    const double ref = ref_noncrossing({0.1, 0.2}, {0.6, 0.9});
    if (chdir(dir.c_str())) _exit(97);
    for (auto& n : names) for (int there = 0; there < 2; ++there) for (const char* c : mc ? std::vector<const char*>{"ecdf", "poisson"} : std::vector<const char*>{"ecdf2-ks2001", "ecdf1-new"}) {
        bool one = !strcmp(c, "ecdf1-new");
        if (one && !there) continue;
        if (!x.next()) continue;
        std::string p = fix(n.path), f = fix(n.file);
        if (x.describing) x.desc(fmt("%s %s with the boundaries file named \"%s\"%s", mc ? "crossprob_mc" : "crossprob", c, esc(p.size() < 300 ? p : p.substr(0, 300) + "...").c_str(), there ? "" : " missing"));
        x.key(mix(hash_str(p), there * 2 + (c[0] == 'p' || one)));
        mkdir("d", 0755); mkdir("d/d", 0755);
        // files with similar names
        S mine = {"f", "n", "f.txt", "ff", "d/f", " ", "d/d/f", "f ", "F"};
        for (auto& q : mine) prog::put(q, decoy);
        unlink(f.c_str());
        if (there) prog::put(f, one ? "0.1,0.2\n\n" : text);
        S a = {c, p}; if (mc) a.push_back("16");
        double want = one ? ref_noncrossing({0.1, 0.2}, {}) : ref;
        prog::check(x, a, [&](const prog::Res& r) -> std::string {
            if (!there) return prog::refused(r);
            if (!mc) return prog::answered(r, want, 1e-12);
            return estimate(r, 16, -1);
        });
        unlink(f.c_str()); for (auto& q : mine) unlink(q.c_str());
    }
    // other kinds of files
    for (int k = 0; k < 9; ++k) for (const char* c : mc ? std::vector<const char*>{"ecdf", "poisson"} : std::vector<const char*>{"ecdf2-ks2001", "ecdf2-mn2017"}) {
        if (!x.next()) continue;
        static const char* what[] = {"a symbolic link", "a chain of symbolic links", "a dangling symbolic link", "a loop of symbolic links", "a directory", "a hard link", "a file nobody may write", "a link to a directory", "a path through a file"};
        if (x.describing) x.desc(fmt("%s %s, the boundaries file is %s", mc ? "crossprob_mc" : "crossprob", c, what[k]));
        x.key(mix(k, c[0] == 'p' || c[6] == 'm'));
        S mine = {"t", "l", "m", "n"}; for (auto& q : mine) unlink(q.c_str());
        mkdir("d", 0755); prog::put("t", text);
        std::string p = "l"; int q = 0;
        if (k == 0) q = symlink("t", "l"); if (k == 1) q = symlink("t", "n") || symlink("n", "m") || symlink("m", "l"); if (k == 2) q = symlink("nowhere", "l"); if (k == 3) q = symlink("m", "l") || symlink("l", "m");
        if (k == 4) p = "d"; if (k == 5) q = link("t", "l"); if (k == 6) { p = "t"; q = chmod("t", 0444); } if (k == 7) q = symlink("d", "l"); if (k == 8) p = "t/f";
        if (q) _exit(97);
        bool ok = k < 2 || k == 5 || k == 6;
        S a = {c, p}; if (mc) a.push_back("16");
        prog::check(x, a, [&](const prog::Res& r) -> std::string { return !ok ? prog::refused(r) : mc ? estimate(r, 16, -1) : prog::answered(r, ref, 1e-12); });
        for (auto& w : mine) unlink(w.c_str());
    }
    if (chdir(here)) _exit(97);
}

static void body_cli(X& x) {
    // files
    struct F { std::string path, text; Verdict v; V b, B; };
    std::vector<F> fs;
    auto add = [&](const std::string& t) { F f; f.text = t; f.v = file(t, f.b, f.B); fs.push_back(f); };
    for (auto t : {"0.1,0.2\n0.6,0.9\n", "0.1,0.2\n\n", "\n0.6,0.9\n", "\n\n", "0.1\n0.6,0.9\n", "0.1,0.2,0.3\n0.6,0.9\n", "0.3\n\n", "\n0.3\n", "0.3\n0.4\n", "0.5\n0.4\n", "0.2,0.1\n0.6,0.9\n", "0.1,0.2\n0.9,0.6\n",
                   "0.1,1.2\n\n", "-0.1,0.2\n\n", "\n0.1,1.2\n", "\n-0.1,0.2\n", "0.2,0.1\n\n", "\n0.9,0.6\n", "abc\n\n", "0.1\n", "", "0,0,0\n1,1,1\n", "0,0,0\n\n", "\n1,1,1\n", "1\n\n", "\n0\n", "0.1,0.2\n1.5,1.7\n", "-2,-1\n0.5,0.6\n", "nan\n\n", "0.1,nan\n0.5,0.6\n",
                   "0.05,0.1,0.3,0.3,0.6\n0.4,0.5,0.5,0.9,1\n", "0.05,0.1,0.3,0.3,0.6\n\n", "\n0.4,0.5,0.5,0.9,1\n"}) add(t);
    // the same with nan is an invalid bound for this program
    for (auto& f : fs) if (f.text.find("nan") != std::string::npos) f.v = ERR;
    const S names = {"ecdf2-ks2001", "ecdf2-mn2017", "ecdf1-new", "ecdf1-mns2016", "", "ecdf2", "ecdf1", "ECDF1-NEW", "ecdf1-new ", " ecdf1-new", "ecdf1-newer", "ecdf2-mn2017x", "ecdf1_new", "ecdf1-m2020", "--help", "poisson", "ecdf", "ecdf2-ks2001\n"};
    for (auto& f : fs) for (auto& nm : names) {
        if (!x.next()) continue;
        if (x.describing) x.desc(fmt("crossprob '%s' on \"%s\"", esc(nm).c_str(), esc(f.text).c_str()));
        x.key(mix(hash_str(nm), hash_str(f.text)));
        int alg = -1; for (int a = 0; a < 4; ++a) if (nm == ALGS[a]) alg = a;
        std::string path = dir + "/f.txt"; prog::put(path, f.text);
        double ref = ref_noncrossing(f.b, f.B);
        prog::check(x, {nm, path}, [&](const prog::Res& r) { return alg < 0 ? prog::refused(r) : expect(r, alg, f.v, f.b, f.B, ref); });
    }
    // argument vectors of every length; unreadable files
    std::string path = dir + "/g.txt";
    S words_ = {"ecdf2-ks2001", "ecdf1-new", "FILE", "", "nosuchfile", "DIR", "--help", "1000"};
    for (int n = 0; n <= 4; ++n) words(n, (int)words_.size(), [&](const std::vector<int>& w) {
        if (!x.next()) return;
        prog::put(path, "0.1,0.2\n\n");
        S a; for (int k : w) a.push_back(words_[k] == "FILE" ? path : words_[k] == "DIR" ? dir : words_[k]);
        std::string d; for (auto& s : a) d += " '" + s + "'";
        if (x.describing) x.desc("crossprob" + d);
        x.key(hash_str(d));
        bool ok = n == 2 && w[0] < 2 && w[1] == 2;
        double ref = ref_noncrossing({0.1, 0.2}, {});
        prog::check(x, a, [&](const prog::Res& r) { return ok ? prog::answered(r, ref, 1e-12) : prog::refused(r); });
    });
    // all small bounds through the four algorithms: the right algorithm, sides and digits
    struct NM { int n, m; };
    std::vector<NM> sz = {{1, 9}, {2, 7}, {3, 5}, {4, 4}}; if (thorough) sz = {{1, 14}, {2, 10}, {3, 7}, {4, 6}, {5, 5}};
    for (auto& s : sz) {
        V g = fam::grid(s.m);
        auto text = [&](const std::vector<int>& i) { std::string t; for (size_t k = 0; k < i.size(); ++k) t += (k ? ", " : "") + num(g[i[k]], 0); return t; };
        monotone(s.n, s.m, [&](const std::vector<int>& i) {
            for (int a = 0; a < 4; ++a) for (int side = 0; side < 2; ++side) read_case(x, side ? "\n" + text(i) + "\n" : text(i) + "\n\n", a, "one-sided");
            monotone(s.n, s.m, [&](const std::vector<int>& j) { for (int a = 0; a < 2; ++a) read_case(x, text(i) + "\n" + text(j) + "\n", a, "two-sided"); });
        });
    }
    // realistic sizes
    for (int n : {10, 50, 127, 128, 129, 200, 500}) for (int a = 0; a < 4; ++a) for (auto& t : fam::two_sided(n, 1)) for (int side = 0; side < 3; ++side) {
        if (a == 0 && n > 200) continue;
        if (!two(a) && side == 0) continue;
        std::string b, B; for (int i = 0; i < n; ++i) { b += num(t.b[i], 0) + (i + 1 < n ? ", " : ""); B += num(t.B[i], 0) + (i + 1 < n ? ", " : ""); }
        read_case(x, (side == 2 ? "" : b) + "\n" + (side == 1 ? "" : B) + "\n", a, "realistic size");
    }
    body_names(x, false);
    // unequal lists of all small lengths
    for (int n = 0; n <= 6; ++n) for (int k = 0; k <= 6; ++k) for (int a = 0; a < 4; ++a) {
        std::string b, B; for (int i = 0; i < n; ++i) b += (i ? "," : "") + num(i / 20.0, 0); for (int i = 0; i < k; ++i) B += (i ? "," : "") + num(0.5 + i / 20.0, 0);
        read_case(x, b + "\n" + B + "\n", a, "all length combinations");
    }
}

// ---- C17 -------------------------------------------------------------------------------------
static std::string estimate(const prog::Res& r, long N, int forced) {   // forced: -1 free, 0, 1
    if (r.sig) return "died";
    if (r.status != 0) return fmt("exit status %d for a valid request", r.status);
    auto l = prog::lines(r.out); double d;
    if (l.size() != 1 || r.out.back() != '\n' || !prog::number_line(l[0], &d)) return "standard output is not one line with a number";
    if (!(d >= 0 && d <= 1)) return "estimate " + l[0] + " is outside [0,1]";
    if (forced >= 0 && d != forced) return fmt("estimate %s, but every simulation must %s", l[0].c_str(), forced ? "succeed" : "fail");
    if (N <= 2000) {
        double k = std::round(d * N);
        char b[40]; snprintf(b, 40, "%.6g", 1.0 - (N - k) / N);
        if (l[0] != b && std::fabs(d - k / N) > 5e-6 * std::max(1e-6, k / N)) return fmt("estimate %s is not a fraction of %ld simulations", l[0].c_str(), N);
    }
    return "";
}
static void body_mccli(X& x) {
    std::string path = dir + "/f.txt";
    auto go = [&](const S& a, const std::string& text, int want, long N, int forced) {  // want 0 refuse 1 answer 2 unspecified
        if (!x.next()) return;
        std::string d; for (auto& s : a) d += " '" + esc(s) + "'";
        if (x.describing) x.desc("crossprob_mc" + d + " on \"" + esc(text) + "\"");
        x.key(mix(hash_str(d), hash_str(text)));
        prog::put(path, text);
        prog::check(x, a, [&](const prog::Res& r) -> std::string {
            if (want == 2) return r.sig ? "died" : "";
            return want ? estimate(r, N, forced) : prog::refused(r);
        });
    };
    // counts: all short strings
    const std::string C = "0129-+ .xe\n";
    auto count = [&](const std::string& s, long& N) -> int {
        size_t i = 0; 
        while (i < s.size() && isspace((unsigned char)s[i])) ++i;
        bool lead = i > 0, plus = false;
        if (i < s.size() && (s[i] == '+' || s[i] == '-')) { if (s[i] == '-') { bool dg = i + 1 < s.size(); (void)dg; return 0; } plus = true; ++i; }
        if (i == s.size()) return 0;
        for (size_t k = i; k < s.size(); ++k) if (!isdigit((unsigned char)s[k])) return 0;
        N = s.size() - i > 18 ? -1 : atol(s.c_str() + i);
        if (N == 0) return 0;
        if (N < 0) return 0;
        return lead || plus ? 2 : 1;
    };
    for (int n = 0; n <= (thorough ? 5 : 4); ++n) words(n, (int)C.size(), [&](const std::vector<int>& w) {
        std::string s; for (int k : w) s += C[k];
        long N = 0; int v = count(s, N);
        for (const char* cmd : {"ecdf", "poisson"}) { if (cmd[0] == 'p' && (v != 1 || n == 4) && !thorough) continue; go({cmd, path, s}, "0.3,0.4\n0.6,0.9\n", v, N, -1); }
    });
    for (auto s : {"9223372036854775808", "-9223372036854775809", "99999999999999999999999", "-9223372036854775808", "100abc", "1e3", "1000.", "0x10", "ten", "1,000", "1 000", "-0", "00", "10 ", "10\n", "\t", "18446744073709551617", "18446744073709551626", "-1", "-1000", "3.7", "5%"}) for (const char* cmd : {"ecdf", "poisson"}) go({cmd, path, s}, "0.3,0.4\n0.6,0.9\n", 0, 0, -1);
    for (auto s : {"007", "0001", "0000000000000000000000012"}) for (const char* cmd : {"ecdf", "poisson"}) go({cmd, path, s}, "0.3,0.4\n0.6,0.9\n", 1, atol(s), -1);
    // every count in a range: exactly that many simulations
    for (long N = 1; N <= (thorough ? 3000 : 700); ++N) {
        go({"ecdf", path, std::to_string(N)}, "0,0\n1,1\n", 1, N, 1);
        go({"ecdf", path, std::to_string(N)}, "0.2,0.4\n0.7,0.9\n", 1, N, -1);
        go({"poisson", path, std::to_string(N)}, "0.1,0.2,0.3,0.4\n0.9\n", 1, N, -1);
        go({"ecdf", path, std::to_string(N)}, "1,1\n\n", 1, N, 0);
        go({"poisson", path, std::to_string(N)}, "1\n0,0\n", 1, N, 0);
    }
    for (long N : {10000L, 65535L, 65536L, 65537L, 100000L, 1000000L, 1000003L}) { go({"ecdf", path, std::to_string(N)}, "0\n1\n", 1, N, 1); go({"ecdf", path, std::to_string(N)}, "1\n\n", 1, N, 0); go({"poisson", path, std::to_string(N)}, "\n0\n", 1, N, 0); }
    for (long N : thorough ? std::vector<long>{2500001, 5000001, 10000000, 16777217, 33554433, 100000001, 300000007} : std::vector<long>{2500001, 5000001, 10000000, 16777217, 33554433}) {
        go({"poisson", path, std::to_string(N)}, "\n0\n", 1, N, 0);
        go({"ecdf", path, std::to_string(N)}, "1\n\n", 1, N, 0);
        go({"ecdf", path, std::to_string(N)}, "0\n1\n", 1, N, 1);
    }
    // huge counts: too many for an answer within seconds, so an end of the run means that not all simulations were made
    const char* huge[] = {"2147483647", "2147483648", "2147483653", "4294967295", "4294967296", "4294967299", "4294967297000", "8589934599", "1099511627777", "281474976710659", "9007199254740993", "9007199254741003", "10000000000000007", "1000000000000000003", "4611686018427387905", "9223372036854775806", "9223372036854775807"};
    for (auto s : huge) for (const char* c : {"ecdf", "poisson"}) for (int f = 0; f < 2; ++f) {
        if (!x.next()) continue;
        const char* text = f ? "0.1,0.2,0.3,0.4\n0.7,0.9\n" : "0.3,0.4\n0.6,0.9\n";
        if (f && c[0] == 'e') text = "0.1,0.2,0.3,0.4\n0.7,0.9,0.95,1\n";
        if (x.describing) x.desc(fmt("crossprob_mc %s FILE %s on \"%s\"", c, s, esc(text).c_str()));
        prog::put(path, text); x.key(mix(hash_str(s), f * 2 + (c[0] == 'e')));
        x.check();
        prog::Res r;
        for (int t = 0; t < 2; ++t) { r = prog::real({c, path, s}, thorough ? 3 : 1); if (r.status == 128 + SIGKILL) break; }
        if (r.sig && r.status == 128 + SIGKILL) continue;
        x.fail("the run ended within a second (exit %s%d, standard output: %s), which %s simulations cannot", r.sig ? "by signal/" : "", r.status, prog::brief(r.out).c_str(), s);
    }
    body_names(x, true);
    // commands, argument vectors, files
    const std::string good = "0.3,0.4\n0.6,0.9\n";
    for (auto c : {"ecdf", "poisson", "", "ECDF", "ecdf ", " poisson", "ecdf2", "ecdf2-ks2001", "poissonx", "pois", "--help", "e"}) for (auto n : {"1", "10", "0", "-1", "abc"}) for (auto f : {0, 1, 2}) {
        bool okc = !strcmp(c, "ecdf") || !strcmp(c, "poisson"), okn = n[0] == '1';
        go({c, f == 0 ? path : f == 1 ? dir + "/missing" : dir, n}, good, okc && okn && f == 0, 10 / (n[1] ? 1 : 10), -1);
    }
    const S w_ = {"ecdf", "poisson", "FILE", "10", "", "missing"};
    for (int n = 0; n <= 4; ++n) words(n, (int)w_.size(), [&](const std::vector<int>& w) {
        S a; for (int k : w) a.push_back(w_[k] == "FILE" ? path : w_[k]);
        bool ok = n == 3 && w[0] < 2 && w[1] == 2 && w[2] == 3;
        go(a, good, ok, 10, -1);
    });
    struct T { const char* t; int want; } files[] = {{"0.3,0.4\n0.6,0.9\n", 1}, {"0.3,0.4\n\n", 1}, {"\n0.6,0.9\n", 1}, {"0.3\n0.6,0.9\n", 1}, {"0.3,0.4,0.5\n0.9\n", 1}, {"0.3,0.4,\n0.6,0.9", 1}, {"0.3\r\n0.5\r\n", 1},
        {"", 0}, {"0.3", 0}, {"0.3\n", 0}, {"abc\n0.5\n", 0}, {"0.3\nabc\n", 0}, {"0.3 0.4\n0.5\n", 0}, {"0.3,,0.4\n0.5\n", 0}, {"0.3,0.4x\n0.6,0.9\n", 0}, {",\n0.5\n", 0}, {"0.3\n,0.5\n", 0}, {"0.3,1e999\n0.6,0.9\n", 0}, {"0.3;0.4\n0.6;0.9\n", 0}};
    for (auto& f : files) for (const char* c : {"ecdf", "poisson"}) for (const char* n : {"1", "17", "400"}) go({c, path, n}, f.t, f.want, atol(n), -1);
}

int main(int argc, char** argv) {
    return xp_main(argc, argv, [](X& x) {
        prog::real_exe = arg1;
        char t[] = "pXXXXXX"; char* d = mkdtemp(t);      // relative to the scratch directory
        if (!d) { perror("mkdtemp"); _exit(97); }
        dir = d;
        if (mode == "file") body_file(x);
        else if (mode == "mcfile") body_mcfile(x);
        else if (mode == "cli") body_cli(x);
        else body_mccli(x);
    });
}
