// Harness API.  The same harness source is compiled twice:
//  * through clang -> LLVM IR -> engine/rewrite.py, linked with engine/runtime.cpp (symbolic execution), and
//  * natively with g++ from the untouched sources, linked with engine/native.cpp (replay of solver models).
#pragma once
#include <cstddef>
#include <streambuf>
#include <string>
#include <vector>

namespace sx {

struct Bool { // symbolic: index of a formula; native: 0/1
    int id;
};

/// fresh input, lo <= value <= hi
double sym(const char* name, double lo, double hi);
double symi(const char* name, int i, double lo, double hi);
/// explicit case split over 0..n-1 (the executor explores every alternative)
int choice(const char* name, int n);
int choicei(const char* name, int i, int n);

Bool lt(double a, double b);
Bool le(double a, double b);
inline Bool gt(double a, double b) { return lt(b, a); }
inline Bool ge(double a, double b) { return le(b, a); }
Bool eq(double a, double b);
/// |a-b| <= tol
Bool close(double a, double b, double tol);
Bool operator&&(Bool a, Bool b);
Bool operator||(Bool a, Bool b);
Bool operator!(Bool a);
Bool truth(bool b);
inline Bool implies(Bool a, Bool b) { return !a || b; }
inline Bool iff(Bool a, Bool b) { return (a && b) || (!a && !b); }

double ite(Bool c, double a, double b);
inline double dmax(double a, double b) { return ite(lt(a, b), b, a); }
inline double dmin(double a, double b) { return ite(lt(b, a), b, a); }
inline double dabs(double a) { return ite(lt(a, 0.0), -a, a); }

void assume(Bool c);
void assume(bool) = delete;
/// the property: must hold for every value of the inputs on this path
void check(Bool c, const char* label);
/// value recorded for the symbolic-vs-native comparison of this path
void observe(const char* name, double v);
void observei(const char* name, int i, double v);
/// does this double carry a finite value (symbolic values are finite by construction)
bool finite(double v);
/// fork on a formula
bool decide(Bool c);
/// end this path; it is outside the claim
[[noreturn]] void discard(const char* why);
bool symbolicMode();
/// fresh scratch directory of this path
std::string tmpdir();
void mkdirs(const std::string& p);
void writeFile(const std::string& p, const std::string& content);
std::string readFile(const std::string& p);
bool exists(const std::string& p);
/// decimal text which the code under test will read back as this value
std::string text(double v);

/// Run f; returns -1 if it returned, otherwise the exit status the code under test passed to exit().
/// out, err: what went through std::cout and std::cerr; allOut, allErr: the same in order with what went through C stdio.
struct Outcome {
    bool exited = false, threw = false;
    int status = 0;
    std::string out, err, allOut, allErr;
};
Outcome guarded(void (*f)(void*), void* arg);
template <class F> Outcome guard(F f) {
    return guarded([](void* p) { (*static_cast<F*>(p))(); }, &f);
}

// linear-solver seam (see engine/solver_stub.hpp)
using SolverHook = bool (*)(int n, const double* A, const double* b, double* x);
void setSolverHook(SolverHook h);
void setSolverError(double e); // the relative error a failed solver reports
/// nanoseconds returned by the n-th clock reading
using ClockHook = long (*)(int n);
void setClock(ClockHook h);

/// standard stream of the program while a guarded region runs
class Tee : public std::streambuf {
public:
    std::string *one, *all;
    Tee(std::string* o, std::string* a) : one(o), all(a) {}
    int overflow(int c) override { if (c != EOF) { *one += char(c); *all += char(c); } return c == EOF ? 0 : c; }
    std::streamsize xsputn(const char* s, std::streamsize n) override { one->append(s, size_t(n)); all->append(s, size_t(n)); return n; }
};

using CaseFn = void (*)();
struct Register {
    Register(const char* name, CaseFn f);
};
} // namespace sx

using namespace sx;
#define CASE(n)                                                                                                        \
    static void case_##n();                                                                                            \
    static sx::Register reg_##n(#n, case_##n);                                                                         \
    static void case_##n()
