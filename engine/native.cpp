// Native side of the harness API: evaluates a harness case on one concrete model with the untouched program.
// usage: native CASE MODELFILE RESULTFILE TMPDIR [JITTER]   (JITTER: evaluate an input in the neighbourhood of the model)
// RESULT lines: "F <label>" failed check, "O <name> <value>" observed value, "A" assumption not met, "D" discarded,
//               "M <name> <value>" input used instead of the model's, "C <label>" passed check, "X <what>" uncaught exception, "E" end reached.
#include "harness.hpp"
#include <chrono>
#include <cmath>
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <filesystem>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <set>
#include <sstream>
#include <time.h>
#include <unistd.h>

static std::map<std::string, double> model;
static FILE* res;
static std::string tmp;
static unsigned jitter = 0;
static std::set<std::string> used;
static jmp_buf* target = nullptr;
static int code = 0;
static sx::ClockHook clockHook = nullptr;
static int clockReads = 0;
extern "C" {
[[noreturn]] void __real_exit(int);
[[noreturn]] void __wrap_exit(int c) {
    code = c;
    if (target) longjmp(*target, 1);
    fprintf(res, "X exit %d outside a guarded region\n", c);
    fflush(res);
    _exit(3);
}
}
// the clock the program reads
static long now(long real) { int k = clockReads++; return clockHook ? clockHook(k) : real; }
std::chrono::system_clock::time_point std::chrono::system_clock::now() noexcept {
    timespec t;
    clock_gettime(CLOCK_REALTIME, &t);
    return time_point(duration(::now(t.tv_sec * 1000000000L + t.tv_nsec)));
}
std::chrono::steady_clock::time_point std::chrono::steady_clock::now() noexcept {
    timespec t;
    clock_gettime(CLOCK_MONOTONIC, &t);
    return time_point(duration(::now(t.tv_sec * 1000000000L + t.tv_nsec)));
}
[[noreturn]] static void finish() { fflush(res); std::cout.flush(); _exit(0); }

namespace sx {
double sym(const char* n, double lo, double hi) {
    if (lo == hi) return lo;
    auto it = model.find(n);
    if (it == model.end()) return lo + (hi - lo) / 2;
    if (!jitter || used.count(n)) return it->second;
    // an input in the neighbourhood of the solver's model, without its round numbers
    used.insert(n);
    static std::mt19937 g(jitter);
    double h = (jitter % 2 ? 1e-2 : 1e-5) * std::max(1.0, std::fabs(it->second));
    double v = it->second + h * std::uniform_real_distribution<double>(-1, 1)(g);
    it->second = v = std::min(hi, std::max(lo, v));
    fprintf(res, "M %s %.17g\n", n, v);
    return v;
}
double symi(const char* n, int i, double lo, double hi) { return sym((std::string(n) + "_" + std::to_string(i)).c_str(), lo, hi); }
int choice(const char* n, int k) {
    auto it = model.find(n);
    int v = it == model.end() ? 0 : int(it->second);
    return v < 0 ? 0 : v >= k ? k - 1 : v;
}
int choicei(const char* n, int i, int k) { return choice((std::string(n) + "_" + std::to_string(i)).c_str(), k); }
// Comparisons are three-valued: bit 0 is the verdict in double arithmetic, bit 1 says that the operands differ by no more
// than accumulated rounding, in which case a failing comparison proves nothing about the program.
static bool near(double a, double b) {
    if (a == b || !std::isfinite(a) || !std::isfinite(b)) return false;
    return std::fabs(a - b) <= 1e-12 * std::max(1.0, std::max(std::fabs(a), std::fabs(b)));
}
static Bool cmp(bool v, double a, double b) { return {int(v) | (near(a, b) ? 2 : 0)}; }
Bool lt(double a, double b) { return cmp(a < b, a, b); }
Bool le(double a, double b) { return cmp(a <= b, a, b); }
Bool eq(double a, double b) { return cmp(a == b, a, b); }
Bool close(double a, double b, double t) {
    if (a == b) return {1};
    double d = std::fabs(a - b);
    return {int(d <= t) | (near(d, t) || (std::isfinite(d) && std::fabs(d - t) <= 1e-14 * std::max(std::fabs(a), std::fabs(b))) ? 2 : 0)};
}
Bool operator&&(Bool a, Bool b) {
    if (!a.id || !b.id) return {0};
    return {(a.id & b.id & 1) | ((a.id | b.id) & 2)};
}
Bool operator!(Bool a) { return {a.id ^ 1}; }
Bool operator||(Bool a, Bool b) { return !(!a && !b); }
Bool truth(bool b) { return {b}; }
double ite(Bool c, double a, double b) { return c.id & 1 ? a : b; }
void assume(Bool c) { if (!c.id) { fprintf(res, "A\n"); finish(); } }
void check(Bool c, const char* l) { fprintf(res, "%s %s\n", c.id ? "C" : "F", l); fflush(res); }
void observe(const char* n, double v) { fprintf(res, "O %s %.17g\n", n, v); }
void observei(const char* n, int i, double v) { fprintf(res, "O %s_%d %.17g\n", n, i, v); }
bool finite(double v) { return std::isfinite(v); }
bool decide(Bool c) { if (c.id & 2) { fprintf(res, "D\n"); finish(); } return c.id & 1; }
void discard(const char*) { fprintf(res, "D\n"); finish(); }
bool symbolicMode() { return false; }
std::string tmpdir() { return tmp; }
void mkdirs(const std::string& p) { std::filesystem::create_directories(p); }
void writeFile(const std::string& p, const std::string& c) { std::ofstream o(p, std::ios::binary); o << c; }
std::string readFile(const std::string& p) { std::ifstream i(p, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
bool exists(const std::string& p) { return std::filesystem::exists(p); }
std::string text(double v) { char b[64]; snprintf(b, 64, "%.17g", v); return b; }
static ssize_t put(void* c, const char* b, size_t n) { static_cast<std::string*>(c)->append(b, n); return ssize_t(n); }
static FILE* into(std::string* s) {
    FILE* f = fopencookie(s, "w", {nullptr, put, nullptr, nullptr});
    setvbuf(f, nullptr, _IONBF, 0);
    return f;
}
Outcome guarded(void (*f)(void*), void* arg) {
    Outcome* o = new Outcome;
    Tee *to = new Tee(&o->out, &o->allOut), *te = new Tee(&o->err, &o->allErr);
    auto* bo = std::cout.rdbuf(to);
    auto* be = std::cerr.rdbuf(te);
    FILE *so = stdout, *se = stderr;
    stdout = into(&o->allOut);
    stderr = into(&o->allErr);
    jmp_buf buf;
    jmp_buf* saved = target;
    target = &buf;
    if (setjmp(buf) == 0) {
        try { f(arg); } catch (const std::exception&) { o->threw = true; }
    } else { o->exited = true; o->status = code; }
    target = saved;
    std::cout.rdbuf(bo);
    std::cerr.rdbuf(be);
    fclose(stdout);
    fclose(stderr);
    stdout = so;
    stderr = se;
    return *o;
}
void setSolverHook(SolverHook) {}
void setSolverError(double) {}
void setClock(ClockHook h) { clockHook = h; }
static std::map<std::string, CaseFn>& reg() { static std::map<std::string, CaseFn> r; return r; }
Register::Register(const char* n, CaseFn f) { reg()[n] = f; }
} // namespace sx

int main(int argc, char** argv) {
    if (argc < 5) return 2;
    res = fopen(argv[3], "w");
    if (!res) return 2;
    tmp = argv[4];
    if (argc > 5) jitter = unsigned(atoi(argv[5]));
    std::ifstream in(argv[2]);
    std::string n, v;
    while (in >> n >> v) model[n] = std::strtod(v.c_str(), nullptr);
    if (!sx::reg().count(argv[1])) return 2;
    try {
        sx::reg()[argv[1]]();
    } catch (const std::exception& e) {
        fprintf(res, "X exception %s\n", e.what());
        finish();
    }
    fprintf(res, "E\n");
    finish();
}
