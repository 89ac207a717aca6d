// Runs a program's main() in this process (renamed target_main), capturing both output streams.
// exit() of the program's objects is redirected to xp_exit().  Every failed judgement is repeated
// with the real executable before it counts.
#pragma once
#include "xp.hpp"
#include <iostream>
#include <csetjmp>
#include <exception>
#include <sys/syscall.h>
#include <sys/mman.h>
#include <sys/stat.h>

extern "C" int target_main(int, char**);
namespace prog {
struct Res { int status; bool sig; std::string out, err; };
static jmp_buf jb; static int exit_code; static bool inside;
static int fd1 = -1, fd2 = -1;
static std::string real_exe;

inline void setup() {
    if (fd1 >= 0) return;
    fd1 = memfd_create("o", 0); fd2 = memfd_create("e", 0);
    fflush(stdout); fflush(stderr);
    dup2(fd1, 1); dup2(fd2, 2);
}
inline std::string slurp(int fd) {
    off_t n = lseek(fd, 0, SEEK_END);
    std::string s(n > 0 ? n : 0, '\0');
    if (n > 0 && pread(fd, &s[0], n, 0) != n) s = "<read error>";
    return s;
}
inline Res run(const std::vector<std::string>& args) {
    setup();
    for (int fd : {1, 2}) { if (ftruncate(fd, 0)) {} lseek(fd, 0, SEEK_SET); }
    std::vector<std::string> a = args; a.insert(a.begin(), "program");
    std::vector<char*> av; for (auto& s : a) av.push_back(&s[0]); av.push_back(nullptr);
    std::cout.clear(); std::cerr.clear(); static std::ios blank(nullptr);
    std::cout.copyfmt(blank); std::cerr.copyfmt(blank);
    Res r; r.sig = false;
    if (setjmp(jb) == 0) {
        inside = true;
        try { r.status = target_main((int)a.size(), av.data()); }
        catch (std::exception& e) { r.status = 134; r.sig = true; std::cerr << "uncaught exception: " << e.what(); }
        catch (...) { r.status = 134; r.sig = true; }
    } else r.status = exit_code;
    inside = false;
    r.status &= 255;
    std::cout.clear(); std::cerr.clear();
    std::cout.flush(); std::cerr.flush(); fflush(stdout); fflush(stderr);
    r.out = slurp(1); r.err = slurp(2);
    return r;
}
inline Res real(const std::vector<std::string>& args, double limit = 60) {
    int a = memfd_create("ro", 0), b = memfd_create("re", 0);
    pid_t p = fork();
    if (p == 0) {
        dup2(a, 1); dup2(b, 2);
        std::vector<std::string> v = args; v.insert(v.begin(), real_exe);
        std::vector<char*> av; for (auto& s : v) av.push_back(&s[0]); av.push_back(nullptr);
        execv(real_exe.c_str(), av.data()); _exit(127);
    }
    int st; double t0 = xp::now();
    while (waitpid(p, &st, WNOHANG) == 0) { if (xp::now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); break; } usleep(1000); }
    Res r; r.sig = WIFSIGNALED(st); r.status = r.sig ? 128 + WTERMSIG(st) : WEXITSTATUS(st);
    r.out = slurp(a); r.err = slurp(b); close(a); close(b);
    return r;
}
inline std::string brief(const std::string& s) { return s.size() > 160 ? s.substr(0, 160) + "..." : s; }
inline void put(const std::string& path, const std::string& s) {
    int fd = open(path.c_str(), O_WRONLY | O_CREAT, 0644);
    if (fd < 0 || pwrite(fd, s.data(), s.size(), 0) != (ssize_t)s.size() || ftruncate(fd, s.size())) { perror("write"); _exit(98); }
    close(fd);
}
inline bool number_line(const std::string& l, double* v = nullptr) {
    const char* p = l.c_str(); while (*p == ' ' || *p == '\t') ++p;
    if (!*p) return false;
    if (!strchr("+-.0123456789in", *p)) return false;
    char* e; double d = strtod(p, &e); if (e == p) return false;
    while (*e == ' ' || *e == '\t' || *e == '\r') ++e;
    if (*e) return false;
    if (v) *v = d;
    return true;
}
inline std::vector<std::string> lines(const std::string& s) { std::vector<std::string> r; size_t a = 0; while (a < s.size()) { size_t b = s.find('\n', a); if (b == std::string::npos) b = s.size(); r.push_back(s.substr(a, b - a)); a = b + 1; } return r; }
static std::set<std::string> echoed;   // lines that may appear because an argument is quoted in an error message
// judge(r) returns "" or what is wrong
template <class J> void check(xp::X& x, const std::vector<std::string>& args, J judge) {
    x.check();
    echoed.clear();
    for (auto& a : args) if (a.find('\n') != std::string::npos) for (auto& l : lines(a)) echoed.insert(l);
    std::string w = judge(run(args));
    if (w.empty()) return;
    Res r = real(args);
    std::string w2 = judge(r);
    if (w2.empty()) { x.extra(7); return; }
    x.fail("%s; exit %s%d, standard output: %s", w2.c_str(), r.sig ? "by signal/" : "", r.status, brief(r.out).c_str());
}
// the program refused: non-zero status, an explanation, no result line
inline std::string refused(const Res& r) {
    if (r.sig) return "died instead of reporting an error";
    if (r.status == 0) return "exit status 0 although the request must be rejected";
    if (r.out.empty() && r.err.empty()) return "no explanation printed";
    for (auto& l : lines(r.out)) if (number_line(l) && !echoed.count(l)) return "printed the number '" + l + "' although the request must be rejected";
    return "";
}
// exactly one line, p to six significant digits
inline std::string answered(const Res& r, double p, double tol) {
    if (r.sig) return "died";
    if (r.status != 0) return xp::fmt("exit status %d for a valid request", r.status);
    auto l = lines(r.out);
    double v;
    if (l.size() != 1 || r.out.back() != '\n' || !number_line(l[0], &v)) return "standard output is not one line with a number";
    char b[40]; 
    double half = p == 0 ? 0 : 0.5001 * std::pow(10.0, std::floor(std::log10(std::fabs(p))) - 5);
    if (!(std::fabs(v - p) <= half + tol)) return xp::fmt("printed %s, exact probability %.9g", l[0].c_str(), p);
    snprintf(b, sizeof b, "%.6g", v);
    if (l[0] != b) return xp::fmt("printed '%s', not a number with six significant digits", l[0].c_str());
    // all six digits must be there
    bool ok = false; for (double q : {p - tol, p, p + tol}) { snprintf(b, sizeof b, "%.6g", q); if (l[0] == b) ok = true; }
    if (!ok && tol < half * 0.01) return xp::fmt("printed %s, expected %.6g", l[0].c_str(), p);
    return "";
}
} // namespace prog
extern "C" void xp_exit(int c) { if (prog::inside) { prog::exit_code = c; longjmp(prog::jb, 1); } _exit(c); }
static time_t xp_clock = 1700000000;
extern "C" time_t xp_time(time_t* t) { if (t) *t = xp_clock; return xp_clock; }
