// Symbolic runtime: NaN-boxed symbolic doubles, path exploration by re-execution, z3 as the decision procedure.
//
// Semantics: a double is either concrete (computed natively, exactly as the real program does) or symbolic (a term over
// the exact reals).  Division by zero, square roots of negative numbers, infinities and NaN are split off as
// separate paths and follow IEEE rules; rounding, overflow and underflow of symbolic arithmetic are not modelled.
#include "harness.hpp"

#include <algorithm>
#include <cerrno>
#include <chrono>
#include <cmath>
#include <csetjmp>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fcntl.h>
#include <fstream>
#include <iostream>
#include <map>
#include <poll.h>
#include <set>
#include <sstream>
#include <sys/resource.h>
#include <sys/stat.h>
#include <sys/types.h>
#include <sys/wait.h>
#include <unistd.h>
#include <unordered_map>
#include <filesystem>
#include <z3++.h>

namespace {
using clk = std::chrono::steady_clock;

// ------------------------------------------------------------------ options
int optJobs          = 8;
int optMaxPaths      = 200000;
int optMaxDecisions  = 4000;
int optPathSeconds   = 120;
double optTotal      = 600;
unsigned optBranchMs = 4000, optCheckMs = 60000;
int optModels        = 60; // end-of-path models exported for native validation
std::string optTmp   = "/tmp";
std::string optCvc5;

// ------------------------------------------------------------------ NaN boxing
constexpr uint64_t BOX = 0x7FFD000000000000ull, BOXM = 0xFFFF000000000000ull;
constexpr uint32_t FBOX = 0x7FE00000u, FBOXM = 0xFFE00000u;
inline uint64_t bitsOf(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline double dblOf(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }
inline bool isBox(double d) { return (bitsOf(d) & BOXM) == BOX; }
inline bool isBoxF(float f) { uint32_t u; memcpy(&u, &f, 4); return (u & FBOXM) == FBOX; }
inline int boxId(double d) { return int(bitsOf(d) & 0xFFFFFFFFu); }
inline double box(int id) { return dblOf(BOX | uint32_t(id)); }

// ------------------------------------------------------------------ terms
enum Op { CONST, VAR, ADD, SUB, MUL, DIV, NEG, SQRT, SIN, COS, ITE, ROUND, FABS, FRESH, UFUN };
struct Node {
    Op op;
    int a = -1, b = -1, c = -1; // children (c: Bool index for ITE is a)
    double k = 0;               // CONST value / ROUND precision
    std::string name;
    z3::expr e;
    std::vector<int> deps; // variable indices (base and defined), sorted
    bool nonneg = false, pos = false;
    bool linear = true;
    double lo = -INFINITY, hi = INFINITY; // enclosure implied by the input ranges
    Node(const z3::expr& x) : e(x) {}
};
struct Formula {
    z3::expr e;
    std::vector<int> deps;
    int kind; // 0 const,1 lt,2 le,3 eq,4 and,5 or,6 not, 7 close
    int a, b;
    double t;
    bool linear = true;
    Formula(const z3::expr& x) : e(x) {}
};
struct VarInfo {
    std::string name;
    int node;
    double lo, hi;
    bool defined;                 // derived variable with definitional constraints
    std::vector<int> defDeps;     // deps of its definition
    std::vector<z3::expr> defs;   // constraints
    bool hasClosure = false;
    std::vector<int> clos;
    bool linear = true;
};

z3::context* C = nullptr;
std::vector<Node> N;
std::vector<Formula> F;
std::vector<VarInfo> Vars;
struct PCon { z3::expr e; std::vector<int> deps; bool linear; };
std::vector<PCon> PC;

// ------------------------------------------------------------------ reporting
int outFd = 1;
void emit(const std::string& s) {
    std::string l = s + "\n";
    size_t off = 0;
    while (off < l.size()) {
        ssize_t w = write(outFd, l.data() + off, l.size() - off);
        if (w <= 0) break;
        off += size_t(w);
    }
}
std::string esc(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '"' || c == '\\') { r += '\\'; r += char(c); }
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, 8, "\\u%04x", c); r += b; }
        else r += char(c);
    }
    return r;
}
std::string num(double d) {
    char b[64];
    if (std::isfinite(d)) snprintf(b, 64, "%.17g", d);
    else snprintf(b, 64, "\"%s\"", std::isnan(d) ? "nan" : d > 0 ? "inf" : "-inf");
    return b;
}

struct Stats { long queries = 0, sat = 0, unsat = 0, unknown = 0, checks = 0, discharged = 0, trivial = 0, branches = 0, concretised = 0; double secs = 0, maxq = 0; } S;
std::map<std::string, std::pair<long, long>> labels; // label -> (evaluated, discharged)

std::vector<int> merge(const std::vector<int>& a, const std::vector<int>& b) {
    if (a == b) return a;
    std::vector<int> r;
    std::set_union(a.begin(), a.end(), b.begin(), b.end(), std::back_inserter(r));
    return r;
}

[[noreturn]] void finishPath(const char* status, const std::string& why);
void undecided(const std::string& what) {
    emit("{\"t\":\"undecided\",\"what\":\"" + esc(what) + "\"}");
}
[[noreturn]] void unsupported(const std::string& what) {
    undecided("unsupported: " + what);
    finishPath("unsupported", what);
}

// ------------------------------------------------------------------ term construction
z3::expr constExpr(double d) {
    // exact rational value of the double
    if (d == std::floor(d) && std::fabs(d) < 1e15) return C->real_val(std::to_string((long long) d).c_str());
    int ex;
    double m = std::frexp(d, &ex); // d = m * 2^ex
    long long im = (long long) std::ldexp(m, 53);
    ex -= 53;
    while (im % 2 == 0 && ex < 0) { im /= 2; ex++; }
    std::string numer = std::to_string(im);
    if (ex >= 0) {
        z3::expr r = C->real_val(numer.c_str());
        for (int i = 0; i < ex; i++) r = r * 2;
        return r.simplify();
    }
    if (-ex < 62) return C->real_val((numer + "/" + std::to_string(1LL << -ex)).c_str());
    z3::expr den = C->real_val(1);
    // 2^-ex as a decimal string
    std::string s = "1";
    for (int i = 0; i < -ex; i++) {
        int carry = 0;
        for (int j = int(s.size()) - 1; j >= 0; j--) { int v = (s[j] - '0') * 2 + carry; s[j] = char('0' + v % 10); carry = v / 10; }
        if (carry) s.insert(s.begin(), char('0' + carry));
    }
    return C->real_val((numer + "/" + s).c_str());
}
std::unordered_map<uint64_t, int> constIdx;
std::map<std::tuple<int, int, int, int>, int> opIdx;

double dn(double x) { return std::isinf(x) ? x : std::nextafter(std::nextafter(x, -INFINITY), -INFINITY); }
double upw(double x) { return std::isinf(x) ? x : std::nextafter(std::nextafter(x, INFINITY), INFINITY); }
double mulI(double a, double b) { return (a == 0 || b == 0) ? 0 : a * b; }
void setSigns(Node& n) { if (n.lo >= 0) n.nonneg = true; if (n.lo > 0) n.pos = true; if (n.nonneg && n.lo < 0) n.lo = 0; }
// one node per canonical polynomial
std::unordered_map<unsigned, std::vector<int>> canonIdx;
int findCanon(const z3::expr& e) {
    auto it = canonIdx.find(e.hash());
    if (it != canonIdx.end()) for (int m : it->second) if (z3::eq(N[m].e, e)) return m;
    return -1;
}
void regCanon(int id) { canonIdx[N[id].e.hash()].push_back(id); }
z3::expr normal(const z3::expr& e) {
    static z3::params* p = nullptr;
    if (!p) { p = new z3::params(*C); p->set("som", true); p->set("som_blowup", 64u); p->set("sort_sums", true); p->set("arith_lhs", false); }
    return e.simplify(*p);
}
// reciprocals are variables of their own: a factor x and its reciprocal cancel within a monomial
std::unordered_map<unsigned, unsigned> baseOfInv; // ast of the reciprocal -> ast of its base
std::unordered_map<unsigned, int> varOfAst;       // ast of a variable -> its number
std::vector<int> invVar;                          // by variable number: node of its base, -1: not a reciprocal
unsigned astId(const z3::expr& e) { return Z3_get_ast_id(*C, e); }
bool isKind(const z3::expr& e, Z3_decl_kind k) { return e.is_app() && e.decl().decl_kind() == k; }
void factors(const z3::expr& e, std::vector<z3::expr>& out) {
    if (isKind(e, Z3_OP_MUL)) { for (unsigned i = 0; i < e.num_args(); i++) factors(e.arg(i), out); return; }
    if (isKind(e, Z3_OP_POWER) && e.arg(1).is_numeral()) {
        int k = 0;
        std::string t = e.arg(1).get_decimal_string(0);
        k = atoi(t.c_str());
        if (k >= 1 && k <= 16) { for (int i = 0; i < k; i++) factors(e.arg(0), out); return; }
    }
    out.push_back(e);
}
bool cancelMono(const z3::expr& m, z3::expr& r) {
    if (!isKind(m, Z3_OP_MUL)) return false;
    std::vector<z3::expr> f;
    factors(m, f);
    bool any = false;
    for (size_t i = 0; i < f.size(); i++) {
        auto it = baseOfInv.find(astId(f[i]));
        if (it == baseOfInv.end()) continue;
        for (size_t j = 0; j < f.size(); j++)
            if (astId(f[j]) == it->second) {
                f.erase(f.begin() + long(std::max(i, j)));
                f.erase(f.begin() + long(std::min(i, j)));
                any = true;
                i = size_t(-1);
                break;
            }
    }
    if (!any) return false;
    r = C->real_val(1);
    for (auto& x : f) r = r * x;
    return true;
}
bool cancelAll(z3::expr& e) {
    z3::expr r(*C);
    if (!isKind(e, Z3_OP_ADD)) { if (!cancelMono(e, r)) return false; e = normal(r); return true; }
    bool any = false;
    z3::expr_vector v(*C);
    for (unsigned i = 0; i < e.num_args(); i++) {
        if (cancelMono(e.arg(i), r)) { any = true; v.push_back(r); } else v.push_back(e.arg(i));
    }
    if (!any) return false;
    e = normal(z3::sum(v));
    return true;
}
void collectVars(const z3::expr& e, std::vector<int>& out, std::unordered_map<unsigned, char>& seen) {
    if (seen[astId(e)]++) return;
    auto it = varOfAst.find(astId(e));
    if (it != varOfAst.end()) { out.push_back(it->second); return; }
    if (e.is_app()) for (unsigned i = 0; i < e.num_args(); i++) collectVars(e.arg(i), out, seen);
}
bool linearPoly(const z3::expr& e) {
    auto mono = [](const z3::expr& m) { return m.is_numeral() || (m.is_app() && m.num_args() == 0) || (isKind(m, Z3_OP_MUL) && m.num_args() == 2 && m.arg(0).is_numeral() && m.arg(1).is_app() && m.arg(1).num_args() == 0); };
    if (!isKind(e, Z3_OP_ADD)) return mono(e);
    for (unsigned i = 0; i < e.num_args(); i++) if (!mono(e.arg(i))) return false;
    return true;
}
int mkConst(double d);
int addNode(Node& n) {
    n.e = normal(n.e);
    bool inv = false;
    for (int v : n.deps) if (v < int(invVar.size()) && invVar[size_t(v)] >= 0) inv = true;
    if (inv && cancelAll(n.e)) {
        std::vector<int> d;
        std::unordered_map<unsigned, char> seen;
        collectVars(n.e, d, seen);
        std::sort(d.begin(), d.end());
        n.deps = d;
        if (linearPoly(n.e)) n.linear = true;
        if (n.e.is_numeral()) {
            double k = std::strtod(n.e.get_decimal_string(40).c_str(), nullptr);
            if (z3::eq(normal(constExpr(k)), n.e)) return mkConst(k);
        }
    }
    int m = findCanon(n.e);
    if (m >= 0) {
        Node& o = N[m];
        o.lo = std::max(o.lo, n.lo); o.hi = std::min(o.hi, n.hi);
        o.nonneg |= n.nonneg; o.pos |= n.pos;
        setSigns(o);
        return m;
    }
    setSigns(n);
    N.push_back(n);
    regCanon(int(N.size()) - 1);
    return int(N.size()) - 1;
}
int mkConst(double d) {
    if (d == 0) d = 0.0;
    auto it = constIdx.find(bitsOf(d));
    if (it != constIdx.end()) return it->second;
    Node n(constExpr(d));
    n.op = CONST; n.k = d; n.nonneg = d >= 0; n.pos = d > 0; n.lo = n.hi = d;
    n.e = normal(n.e);
    N.push_back(n);
    regCanon(int(N.size()) - 1);
    return constIdx[bitsOf(d)] = int(N.size()) - 1;
}
int idOf(double d) { return isBox(d) ? boxId(d) : mkConst(d); }
double valOf(int id) { return N[id].op == CONST ? N[id].k : box(id); }

int newVar(const std::string& name, double lo, double hi, bool defined) {
    int v = int(Vars.size());
    std::string nm = name;
    z3::expr e = C->real_const((nm + "!" + std::to_string(v)).c_str());
    Node n(e);
    n.op = defined ? FRESH : VAR; n.name = name; n.k = v;
    n.deps = {v};
    n.nonneg = !defined && lo >= 0; n.pos = !defined && lo > 0;
    if (!defined) { n.lo = lo; n.hi = hi; }
    N.push_back(n);
    regCanon(int(N.size()) - 1);
    varOfAst[astId(e)] = v;
    VarInfo vi;
    vi.name = name; vi.node = int(N.size()) - 1; vi.lo = lo; vi.hi = hi; vi.defined = defined;
    Vars.push_back(vi);
    if (!defined) {
        Vars[v].defs.push_back(e >= constExpr(lo));
        Vars[v].defs.push_back(e <= constExpr(hi));
    }
    return v;
}
int mk(Op op, int a, int b) {
    auto key = std::make_tuple(int(op), a, b, 0);
    if ((op == ADD || op == MUL) && a > b) key = std::make_tuple(int(op), b, a, 0);
    auto it = opIdx.find(key);
    if (it != opIdx.end()) return it->second;
    Node &x = N[a], &y = N[b < 0 ? a : b];
    Node n(x.e);
    switch (op) {
    case ADD: n.e = x.e + y.e; n.nonneg = x.nonneg && y.nonneg; n.pos = n.nonneg && (x.pos || y.pos); n.lo = dn(x.lo + y.lo); n.hi = upw(x.hi + y.hi); break;
    case SUB: n.e = x.e - y.e; n.lo = dn(x.lo - y.hi); n.hi = upw(x.hi - y.lo); break;
    case MUL: {
        n.e = x.e * y.e; n.nonneg = a == b || (x.nonneg && y.nonneg); n.pos = x.pos && y.pos;
        double p[4] = {mulI(x.lo, y.lo), mulI(x.lo, y.hi), mulI(x.hi, y.lo), mulI(x.hi, y.hi)};
        n.lo = dn(*std::min_element(p, p + 4)); n.hi = upw(*std::max_element(p, p + 4));
        if (a == b) { n.lo = (x.lo <= 0 && x.hi >= 0) ? 0 : dn(std::min(p[0], p[3])); if (n.lo < 0) n.lo = 0; }
        break;
    }
    case NEG: n.e = -x.e; n.lo = -x.hi; n.hi = -x.lo; break;
    default: abort();
    }
    n.linear = x.linear && y.linear && (op != MUL || x.op == CONST || y.op == CONST);
    n.op = op; n.a = a; n.b = b;
    n.deps = b < 0 ? x.deps : merge(x.deps, y.deps);
    int r = addNode(n);
    return opIdx[key] = r;
}

// ------------------------------------------------------------------ formulas
int mkF(const z3::expr& e, const std::vector<int>& deps, int kind, int a, int b, double t, bool lin) {
    Formula f(e);
    f.deps = deps; f.kind = kind; f.a = a; f.b = b; f.t = t; f.linear = lin;
    F.push_back(f);
    return int(F.size()) - 1;
}
int fConst(bool v) { return mkF(C->bool_val(v), {}, 0, v, 0, 0, true); }
bool fIsConst(int f, bool& v) { if (F[f].kind == 0) { v = F[f].a; return true; } return false; }
int fCmp(int kind, int a, int b) { // nodes
    if (N[a].op == CONST && N[b].op == CONST) {
        double x = N[a].k, y = N[b].k;
        return fConst(kind == 1 ? x < y : kind == 2 ? x <= y : x == y);
    }
    if (a == b) return fConst(kind != 1);
    if (N[a].hi < N[b].lo) return fConst(kind != 3);
    if (N[a].lo > N[b].hi) return fConst(false);
    if (kind == 2 && N[a].hi <= N[b].lo) return fConst(true);
    if (kind == 1 && N[a].lo >= N[b].hi) return fConst(false);
    const z3::expr &x = N[a].e, &y = N[b].e;
    z3::expr e = kind == 1 ? (x < y) : kind == 2 ? (x <= y) : (x == y);
    return mkF(e, merge(N[a].deps, N[b].deps), kind, a, b, 0, N[a].linear && N[b].linear);
}

// ------------------------------------------------------------------ solving
struct Slice { std::vector<z3::expr> cons; std::vector<int> vars; bool linear = true; };
Slice sliceFor(const std::vector<int>& seed, bool seedLinear) {
    Slice sl;
    sl.linear = seedLinear;
    std::vector<char> inV(Vars.size(), 0), inC(PC.size(), 0);
    std::vector<int> work;
    auto add = [&](int v) { if (!inV[v]) { inV[v] = 1; work.push_back(v); } };
    for (int v : seed) add(v);
    bool ch = true;
    size_t w = 0;
    while (ch) {
        ch = false;
        for (; w < work.size(); w++) {
            VarInfo& vi = Vars[work[w]];
            for (auto& d : vi.defs) sl.cons.push_back(d);
            if (!vi.linear) sl.linear = false;
            std::vector<int> dd = vi.defDeps;
            for (int v : dd) add(v);
        }
        for (size_t i = 0; i < PC.size(); i++) {
            if (inC[i]) continue;
            bool hit = false;
            for (int v : PC[i].deps) if (inV[v]) { hit = true; break; }
            if (!hit) continue;
            inC[i] = 1;
            sl.cons.push_back(PC[i].e);
            if (!PC[i].linear) sl.linear = false;
            for (int v : PC[i].deps) add(v);
            ch = true;
        }
        if (w < work.size()) ch = true;
    }
    sl.vars = work;
    return sl;
}

enum Res { UNSAT, SAT, UNK };
std::string lastModelText;

Res runSolver(int which, const std::vector<z3::expr>& cons, bool linear, unsigned ms, z3::model* out) {
    try {
        z3::solver s = which == 0 ? z3::solver(*C, linear ? "QF_LRA" : "QF_NRA")
                     : which == 1 ? z3::solver(*C)
                                  : (z3::tactic(*C, "simplify") & z3::tactic(*C, "propagate-values") & z3::tactic(*C, "solve-eqs") &
                                     z3::tactic(*C, "purify-arith") & z3::tactic(*C, "elim-term-ite") & z3::tactic(*C, "solve-eqs") & z3::tactic(*C, "qfnra-nlsat")).mk_solver();
        z3::params p(*C);
        p.set("timeout", ms);
        s.set(p);
        for (auto& c : cons) s.add(c);
        z3::check_result r = s.check();
        if (r == z3::unsat) return UNSAT;
        if (r == z3::sat) { if (out) *out = s.get_model(); return SAT; }
        return UNK;
    } catch (z3::exception& e) {
        return UNK;
    }
}

Res runCvc5(const std::vector<z3::expr>& cons, unsigned ms) {
    if (optCvc5.empty()) return UNK;
    z3::solver s(*C);
    for (auto& c : cons) s.add(c);
    std::string f = optTmp + "/q" + std::to_string(getpid()) + ".smt2";
    { std::ofstream o(f); o << "(set-logic QF_NRA)\n" << s.to_smt2(); }
    std::string cmd = optCvc5 + " --tlimit=" + std::to_string(ms) + " " + f + " 2>/dev/null";
    FILE* p = popen(cmd.c_str(), "r");
    char buf[128] = {0};
    if (p) { if (!fgets(buf, 128, p)) buf[0] = 0; pclose(p); }
    unlink(f.c_str());
    if (!strncmp(buf, "unsat", 5)) return UNSAT;
    return UNK; // a cvc5 "sat" gives no model here: treated as unknown
}

const char* dumpDir = getenv("SX_DUMP");
Res solve(const std::vector<z3::expr>& cons, bool linear, unsigned ms, z3::model* out) {
    auto t0 = clk::now();
    S.queries++;
    Res r = UNK;
    if (linear) r = runSolver(0, cons, true, ms, out);
    if (r == UNK) {
        unsigned quick = std::min(ms, 1500u);
        if (r == UNK) r = runSolver(2, cons, false, quick, out);
        if (r == UNK) r = runSolver(1, cons, false, quick, out);
        if (r == UNK && ms > quick) r = runSolver(2, cons, false, std::min(ms, 15000u), out);
        if (r == UNK && ms > 15000) r = runSolver(1, cons, false, ms / 2, out);
        if (r == UNK && ms > 15000) r = runSolver(2, cons, false, ms, out);
        if (r == UNK && ms >= 15000) r = runCvc5(cons, ms);
    }
    double dt = std::chrono::duration<double>(clk::now() - t0).count();
    S.secs += dt;
    S.maxq = std::max(S.maxq, dt);
    (r == SAT ? S.sat : r == UNSAT ? S.unsat : S.unknown)++;
    if (dumpDir && dt > 1.0) {
        z3::solver s(*C);
        for (auto& c : cons) s.add(c);
        static int k = 0;
        std::ofstream o(std::string(dumpDir) + "/q" + std::to_string(getpid()) + "_" + std::to_string(k++) + "_" +
                        (r == SAT ? "sat" : r == UNSAT ? "unsat" : "unk") + "_" + std::to_string(dt) + ".smt2");
        o << s.to_smt2();
    }
    return r;
}
Res query(const z3::expr& e, const std::vector<int>& deps, bool lin, unsigned ms, z3::model* out = nullptr, Slice* keep = nullptr) {
    Slice sl = sliceFor(deps, lin);
    sl.cons.push_back(e);
    Res r = solve(sl.cons, sl.linear, ms, out);
    if (keep) *keep = sl;
    return r;
}

double numVal(const z3::model& m, const z3::expr& v) {
    z3::expr r = m.eval(v, true);
    if (r.is_numeral()) {
        std::string s = r.get_decimal_string(40);
        if (!s.empty() && s.back() == '?') s.pop_back();
        return std::strtod(s.c_str(), nullptr);
    }
    if (r.is_algebraic()) {
        z3::expr a(*C, Z3_get_algebraic_number_lower(*C, r, 30));
        std::string s = a.get_decimal_string(40);
        if (!s.empty() && s.back() == '?') s.pop_back();
        return std::strtod(s.c_str(), nullptr);
    }
    return 0;
}

std::map<std::string, int> choices;
std::vector<std::string> inputOrder;

bool lastFullModelUnsat = false;
bool poolModel(std::map<int, double>& vals);
/// Model of all inputs satisfying the path condition and `extra`; nice = prefer exactly representable values.
bool fullModel(const z3::expr* extra, const std::vector<int>& deps, bool lin, bool nice, std::map<int, double>& vals, unsigned ms) {
    if (!extra && poolModel(vals)) return true;
    std::vector<char> done(Vars.size(), 0);
    for (int round = -1; round < int(Vars.size()); round++) {
        std::vector<int> seed;
        if (round == -1) { if (!extra) continue; seed = deps; }
        else { if (done[round] || Vars[round].defined) continue; seed = {round}; }
        Slice sl = sliceFor(seed, lin);
        if (round >= 0) {
            // a slice that overlaps an already solved one cannot happen: slices are closed under shared constraints,
            // except through `extra`
            bool overlap = false;
            for (int v : sl.vars) if (done[v]) overlap = true;
            if (overlap) { for (int v : sl.vars) if (done[v] && vals.count(v) && !Vars[v].defined) sl.cons.push_back(N[Vars[v].node].e == constExpr(vals[v])); }
        }
        if (round == -1) sl.cons.push_back(*extra);
        z3::model m(*C);
        Res r = solve(sl.cons, sl.linear, ms, &m);
        if (r != SAT) { lastFullModelUnsat = r == UNSAT; return false; }
        std::vector<int> base;
        for (int v : sl.vars) { done[v] = 1; if (!Vars[v].defined) base.push_back(v); }
        std::sort(base.begin(), base.end());
        for (int v : base) vals[v] = numVal(m, N[Vars[v].node].e);
        if (nice && (base.size() <= 24)) {
            std::vector<z3::expr> cons = sl.cons;
            auto tN = clk::now();
            for (size_t i = 0; i < base.size(); i++) {
                if (std::chrono::duration<double>(clk::now() - tN).count() > 20) break;
                int v = base[i];
                double cur = vals[v];
                bool okv = false;
                for (double q : {4.0, 64.0, 1048576.0}) {
                    double c = std::round(cur * q) / q;
                    if (c < Vars[v].lo || c > Vars[v].hi) continue;
                    cons.push_back(N[Vars[v].node].e == constExpr(c));
                    z3::model m2(*C);
                    if (solve(cons, sl.linear, 400, &m2) == SAT) {
                        for (int u : base) vals[u] = numVal(m2, N[Vars[u].node].e);
                        okv = true;
                        break;
                    }
                    cons.pop_back();
                }
                (void) okv;
            }
        }
    }
    return true;
}
std::string modelJson(const std::map<int, double>& vals) {
    std::string s = "{";
    bool first = true;
    for (auto& kv : vals) {
        if (Vars[kv.first].defined) continue;
        s += (first ? "\"" : ",\"") + esc(Vars[kv.first].name) + "\":" + num(kv.second);
        first = false;
    }
    for (auto& kv : choices) { s += (first ? "\"" : ",\"") + esc(kv.first) + "\":" + std::to_string(kv.second); first = false; }
    return s + "}";
}

// ------------------------------------------------------------------ numeric evaluation of terms under a model
std::map<int, double>* evalVals;
std::vector<double> evalMemo;
std::vector<char> evalHas;
bool evalF(int f);
double evalNode(int id) {
    if (evalHas.size() < N.size()) { evalHas.resize(N.size(), 0); evalMemo.resize(N.size(), 0); }
    if (evalHas[id]) return evalMemo[id];
    Node& n = N[id];
    double r = 0;
    switch (n.op) {
    case CONST: r = n.k; break;
    case VAR: r = (*evalVals)[int(n.k)]; break;
    case ADD: r = evalNode(n.a) + evalNode(n.b); break;
    case SUB: r = evalNode(n.a) - evalNode(n.b); break;
    case MUL: r = evalNode(n.a) * evalNode(n.b); break;
    case NEG: r = -evalNode(n.a); break;
    case DIV: r = evalNode(n.a) / evalNode(n.b); break;
    case SQRT: r = std::sqrt(std::max(0.0, evalNode(n.a))); break;
    case SIN: r = std::sin(evalNode(n.a)); break;
    case COS: r = std::cos(evalNode(n.a)); break;
    case ITE: r = evalF(n.a) ? evalNode(n.b) : evalNode(n.c); break;
    case ROUND: r = evalNode(n.a); break;
    case FRESH: r = evalNode(n.a); break;
    default: r = NAN;
    }
    if (evalHas.size() < N.size()) { evalHas.resize(N.size(), 0); evalMemo.resize(N.size(), 0); }
    evalHas[id] = 1;
    evalMemo[id] = r;
    return r;
}
bool evalF(int f) {
    Formula& x = F[f];
    switch (x.kind) {
    case 0: return x.a;
    case 1: return evalNode(x.a) < evalNode(x.b);
    case 2: return evalNode(x.a) <= evalNode(x.b);
    case 3: return evalNode(x.a) == evalNode(x.b);
    case 4: return evalF(x.a) && evalF(x.b);
    case 5: return evalF(x.a) || evalF(x.b);
    case 6: return !evalF(x.a);
    case 7: return std::fabs(evalNode(x.a) - evalNode(x.b)) <= x.t;
    }
    return false;
}

// ------------------------------------------------------------------ sample pool
// Concrete inputs that satisfy every constraint of the path so far.  They only serve as witnesses that a branch is
// feasible (instead of a satisfiable solver query) and as candidate counterexamples when the solver runs out of time;
// infeasibility and discharged checks always come from the solver or from interval enclosures.
struct Sample {
    std::map<int, double> vals;
    std::vector<double> memo;
    std::vector<char> has;
    bool alive = true;
};
std::vector<Sample> pool;
constexpr int POOL = 40;
bool poolInit = false;
double sampleValue(int k, int v) {
    double lo = Vars[v].lo, hi = Vars[v].hi;
    if (!(hi > lo)) return lo;
    unsigned long h = 1469598103934665603ul;
    for (char c : Vars[v].name) h = (h ^ (unsigned char) c) * 1099511628211ul;
    h = (h ^ (unsigned long) k) * 1099511628211ul;
    h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ul; h ^= h >> 32;
    double u = k == 0 ? 0.5 : (1 + double(h % 1022)) / 1024.0;
    if (k > POOL / 2) { // towards one end of the range
        double t = (1 + double(h % 1022)) / 1024.0;
        u = (h >> 20) & 1 ? t * t * t : 1 - t * t * t;
    }
    return lo + (hi - lo) * u;
}
template <class T> T withSample(Sample& sm, T (*f)(int), int id) {
    for (size_t v = 0; v < Vars.size(); v++)
        if (!Vars[v].defined && !sm.vals.count(int(v))) sm.vals[int(v)] = sampleValue(int(&sm - &pool[0]), int(v));
    auto* saved = evalVals;
    evalVals = &sm.vals;
    evalMemo.swap(sm.memo);
    evalHas.swap(sm.has);
    T r = f(id);
    evalMemo.swap(sm.memo);
    evalHas.swap(sm.has);
    evalVals = saved;
    return r;
}
/// 1 clearly true, 0 clearly false, -1 too close to call
int evalF3(int f) {
    Formula& x = F[f];
    if (x.kind == 0) return x.a;
    if (x.kind == 6) { int k = evalF3(x.a); return k < 0 ? -1 : !k; }
    if (x.kind == 4) { int p = evalF3(x.a), q = evalF3(x.b); return p == 0 || q == 0 ? 0 : p == 1 && q == 1 ? 1 : -1; }
    if (x.kind == 5) { int p = evalF3(x.a), q = evalF3(x.b); return p == 1 || q == 1 ? 1 : p == 0 && q == 0 ? 0 : -1; }
    double a = evalNode(x.a), b = evalNode(x.b), d = a - b, m = 1e-9 * (1 + std::fabs(a) + std::fabs(b));
    if (!std::isfinite(d)) return -1;
    if (x.kind == 7) {
        double noise = 1e-13 * (1 + std::fabs(a) + std::fabs(b));
        return std::fabs(d) + noise < x.t ? 1 : std::fabs(d) - noise > x.t ? 0 : -1;
    }
    if (std::fabs(d) <= m) return x.kind == 3 && N[x.a].op == CONST && N[x.b].op == CONST ? d == 0 : -1;
    return x.kind == 3 ? 0 : d < 0;
}
void startPool() {
    if (poolInit) return;
    poolInit = true;
    pool.reserve(256);
    pool.resize(POOL);
}
void poolAssume(int f, bool v) {
    startPool();
    for (auto& sm : pool)
        if (sm.alive && withSample<int>(sm, evalF3, f) != int(v)) sm.alive = false;
}
/// some sample certainly makes f equal v
Sample* poolFind(int f, bool v) {
    startPool();
    for (auto& sm : pool)
        if (sm.alive && withSample<int>(sm, evalF3, f) == int(v)) return &sm;
    return nullptr;
}

bool poolModel(std::map<int, double>& vals) {
    startPool();
    for (auto& sm : pool) {
        if (!sm.alive) continue;
        withSample<double>(sm, evalNode, mkConst(0));
        vals = sm.vals;
        return true;
    }
    return false;
}

// ------------------------------------------------------------------ path state
std::vector<std::pair<int, long>> prefix; // (kind, value)
std::vector<std::pair<int, long>> trace;
size_t pos = 0;
std::vector<std::pair<std::string, double>> observed;
std::vector<std::string> discards;
bool pathUncertain = false;
int wantModel = 0;
std::string caseName;
std::string scratch;

std::string prefixStr(const std::vector<std::pair<int, long>>& p) {
    std::string s;
    for (auto& d : p) s += std::to_string(d.first) + ":" + std::to_string(d.second) + ",";
    return s;
}
void pushAlternative(std::pair<int, long> d) {
    auto p = trace;
    p.push_back(d);
    emit("{\"t\":\"alt\",\"p\":\"" + prefixStr(p) + "\"}");
}
/// dependencies with the inputs of every derived variable added
std::vector<int> closure(const std::vector<int>& deps) {
    std::vector<int> r = deps;
    for (int v : deps)
        if (Vars[v].defined) {
            if (!Vars[v].hasClosure) { Vars[v].hasClosure = true; Vars[v].clos = closure(Vars[v].defDeps); }
            r = merge(r, Vars[v].clos);
        }
    return r;
}
void addPC(const z3::expr& e, const std::vector<int>& deps, bool lin) { PC.push_back({e, closure(deps), lin}); }
void statsLine() {
    std::string l;
    for (auto& kv : labels)
        l += (l.empty() ? "" : ",") + std::string("\"") + esc(kv.first) + "\":[" + std::to_string(kv.second.first) + "," + std::to_string(kv.second.second) + "]";
    char b[600];
    snprintf(b, 600, "{\"t\":\"stats\",\"q\":%ld,\"sat\":%ld,\"unsat\":%ld,\"unk\":%ld,\"checks\":%ld,\"disch\":%ld,\"triv\":%ld,\"br\":%ld,\"conc\":%ld,\"secs\":%.4f,\"maxq\":%.3f,\"nodes\":%zu,\"vars\":%zu,\"labels\":{",
             S.queries, S.sat, S.unsat, S.unknown, S.checks, S.discharged, S.trivial, S.branches, S.concretised, S.secs, S.maxq, N.size(), Vars.size());
    emit(std::string(b) + l + "}}");
}
bool inFinish = false;
[[noreturn]] void finishPath(const char* status, const std::string& why) {
    if (!inFinish) {
        inFinish = true;
        std::string model, obs;
        if (!strcmp(status, "done")) {
            std::map<int, double> vals;
            if (wantModel) {
                if (fullModel(nullptr, {}, true, wantModel == 2, vals, optCheckMs / 4)) {
                    model = modelJson(vals);
                    evalVals = &vals;
                    for (auto& o : observed) {
                        double v = isBox(o.second) ? evalNode(boxId(o.second)) : o.second;
                        obs += (obs.empty() ? "[\"" : ",[\"") + esc(o.first) + "\"," + num(v) + "]";
                    }
                } else pathUncertain = true;
            }
        }
        emit(std::string("{\"t\":\"end\",\"s\":\"") + status + "\",\"why\":\"" + esc(why) + "\",\"unc\":" + (pathUncertain ? "1" : "0") +
             ",\"dec\":" + std::to_string(trace.size()) + (model.empty() ? "" : ",\"model\":" + model + ",\"obs\":[" + obs + "]") + "}");
        statsLine();
    }
    if (!scratch.empty()) { std::error_code ec; std::filesystem::remove_all(scratch, ec); }
    _exit(0);
}

/// a path that does not end: hand an input of it to the real program, which decides whether it terminates
void suspectHang() {
    std::map<int, double> vals;
    if (poolModel(vals)) emit("{\"t\":\"viol\",\"label\":\"hang:does not terminate\",\"k\":\"hang\",\"model\":" + modelJson(vals) + "}");
}
void crashHandler(int sig) {
    static volatile sig_atomic_t once = 0;
    if (once++) _exit(9);
    alarm(40);
    signal(SIGALRM, SIG_DFL);
    if (sig == SIGALRM) {
        undecided("path time limit");
        suspectHang();
        emit("{\"t\":\"end\",\"s\":\"timeout\",\"why\":\"\",\"unc\":1,\"dec\":0}");
        statsLine();
        _exit(0);
    }
    std::map<int, double> vals;
    std::string m = "{}";
    if (fullModel(nullptr, {}, true, true, vals, 4000)) m = modelJson(vals);
    emit("{\"t\":\"viol\",\"label\":\"crash:signal " + std::to_string(sig) + "\",\"model\":" + m + ",\"k\":\"crash\"}");
    emit("{\"t\":\"end\",\"s\":\"crash\",\"why\":\"signal " + std::to_string(sig) + "\",\"unc\":0,\"dec\":" + std::to_string(trace.size()) + "}");
    statsLine();
    if (!scratch.empty()) { std::error_code ec; std::filesystem::remove_all(scratch, ec); }
    _exit(0);
}

/// a<b (strict) or a<=b is known: narrow the enclosures of the two terms themselves (not of terms built before)
void tighten(int a, int b, bool) {
    if (N[a].op != CONST && N[b].hi < N[a].hi) N[a].hi = N[b].hi;
    if (N[b].op != CONST && N[a].lo > N[b].lo) { N[b].lo = N[a].lo; setSigns(N[b]); }
}
// comparisons already decided on this path: (kind, a, b) -> truth
std::map<std::tuple<int, int, int>, bool> facts;
void learn(int f, bool v) {
    Formula& x = F[f];
    if (x.kind == 6) { learn(x.a, !v); return; }
    if (x.kind == 4 && v) { learn(x.a, true); learn(x.b, true); return; }
    if (x.kind == 5 && !v) { learn(x.a, false); learn(x.b, false); return; }
    int a = x.a, b = x.b;
    auto set = [&](int k, int p, int q, bool t) { facts[{k, p, q}] = t; };
    if ((x.kind == 1 && v) || (x.kind == 2 && !v)) { // a<b resp. b<a
        if (x.kind == 2) std::swap(a, b);
        set(1, a, b, true); set(2, a, b, true); set(1, b, a, false); set(2, b, a, false); set(3, a, b, false); set(3, b, a, false);
        tighten(a, b, true);
    } else if ((x.kind == 2 && v) || (x.kind == 1 && !v)) { // a<=b resp. b<=a
        if (x.kind == 1) std::swap(a, b);
        set(2, a, b, true); set(1, b, a, false);
        tighten(a, b, false);
    } else if (x.kind == 3) {
        set(3, a, b, v); set(3, b, a, v);
        if (v) { set(2, a, b, true); set(2, b, a, true); set(1, a, b, false); set(1, b, a, false); tighten(a, b, false); tighten(b, a, false); }
    }
}
int known(int f) {
    Formula& x = F[f];
    if (x.kind == 0) return x.a;
    if (x.kind == 6) { int k = known(x.a); return k < 0 ? -1 : !k; }
    if (x.kind == 4) { int p = known(x.a), q = known(x.b); return p == 0 || q == 0 ? 0 : p == 1 && q == 1 ? 1 : -1; }
    if (x.kind == 5) { int p = known(x.a), q = known(x.b); return p == 1 || q == 1 ? 1 : p == 0 && q == 0 ? 0 : -1; }
    if (x.kind < 1 || x.kind > 3) return -1;
    auto it = facts.find({x.kind, x.a, x.b});
    if (it != facts.end()) return it->second;
    const Node &a = N[x.a], &b = N[x.b];
    if (x.kind == 1) { if (a.hi < b.lo) return 1; if (a.lo >= b.hi) return 0; }
    if (x.kind == 2) { if (a.hi <= b.lo) return 1; if (a.lo > b.hi) return 0; }
    if (x.kind == 3) { if (a.hi < b.lo || a.lo > b.hi) return 0; }
    return -1;
}
bool branch(int f) {
    bool v;
    if (fIsConst(f, v)) return v;
    int kn = known(f);
    if (kn >= 0) return kn != 0;
    z3::expr se = F[f].e.simplify();
    if (se.is_true()) return true;
    if (se.is_false()) return false;
    S.branches++;
    std::vector<int> deps = F[f].deps;
    bool lin = F[f].linear;
    z3::expr e = F[f].e;
    if (pos < prefix.size()) {
        auto d = prefix[pos++];
        if (d.first > 1) { undecided("non-deterministic replay"); finishPath("error", "prefix mismatch"); }
        trace.push_back(d);
        if (d.first == 0) { addPC(d.second ? e : !e, deps, lin); poolAssume(f, d.second != 0); }
        learn(f, d.second != 0);
        return d.second != 0;
    }
    if ((int) trace.size() >= optMaxDecisions) { undecided("decision bound"); suspectHang(); finishPath("bound", "decisions"); }
    Res rt = poolFind(f, true) ? SAT : query(e, deps, lin, optBranchMs);
    if (rt == UNSAT) { trace.push_back({1, 0}); pos++; learn(f, false); return false; }
    Res rf = poolFind(f, false) ? SAT : query(!e, deps, lin, optBranchMs);
    if (rf == UNSAT) { trace.push_back({1, 1}); pos++; learn(f, true); return true; }
    if (rt == UNK || rf == UNK) pathUncertain = true;
    pushAlternative({0, 0});
    trace.push_back({0, 1});
    pos++;
    addPC(e, deps, lin);
    poolAssume(f, true);
    learn(f, true);
    return true;
}

int fEqZero(int a) { return fCmp(3, a, mkConst(0)); }

// ---- magic numbers: decimal text of symbolic values
constexpr double MAGIC0 = 4500000000000000.0;
std::vector<int> magicNodes;
double fromMagic(double d) {
    if (d >= MAGIC0 && d < MAGIC0 + double(magicNodes.size())) {
        double i = d - MAGIC0;
        if (i == std::floor(i)) return box(magicNodes[size_t(i)]);
    }
    if (-d >= MAGIC0 && -d < MAGIC0 + double(magicNodes.size())) {
        double i = -d - MAGIC0;
        if (i == std::floor(i)) return valOf(mk(NEG, magicNodes[size_t(i)], -1));
    }
    return d;
}
inline double post(double d) { return (d >= MAGIC0 || d <= -MAGIC0) ? fromMagic(d) : d; }
std::string magicText(int node) {
    magicNodes.push_back(node);
    char b[40];
    snprintf(b, 40, "%.0f", MAGIC0 + double(magicNodes.size() - 1));
    return b;
}
void nanSeen(const char*) {}

int derived(const char* nm, Op op, int a, int b, bool nonneg, bool pos_) {
    auto key = std::make_tuple(int(op), a, b, 1);
    auto it = opIdx.find(key);
    if (it != opIdx.end()) return it->second;
    int v = newVar(nm, 0, 0, true);
    int id = Vars[v].node;
    Node& n = N[id];
    n.op = op; n.a = a; n.b = b; n.nonneg = nonneg; n.pos = pos_;
    n.linear = true; // as a variable
    Vars[v].linear = false;
    Vars[v].defDeps = b < 0 ? N[a].deps : merge(N[a].deps, N[b].deps);
    opIdx[key] = id;
    return id;
}

inline int canon(int n) { return n; } // terms are canonical polynomials already
/// coarse enclosure of a derived variable, handed to the solver
void bounds(int v) {
    Node& n = N[Vars[v].node];
    auto coarse = [](double x, bool up) {
        double sc = std::ldexp(1.0, 12 - int(std::floor(std::log2(std::fabs(x)))));
        return (up ? std::ceil(x * sc) : std::floor(x * sc)) / sc;
    };
    if (std::isfinite(n.lo) && n.lo != 0 && std::fabs(n.lo) < 1e12 && std::fabs(n.lo) > 1e-9) Vars[v].defs.push_back(n.e >= constExpr(coarse(n.lo, false)));
    if (std::isfinite(n.hi) && n.hi != 0 && std::fabs(n.hi) < 1e12 && std::fabs(n.hi) > 1e-9) Vars[v].defs.push_back(n.e <= constExpr(coarse(n.hi, true)));
}
double opAbs(double a);
double opAdd(double a, double b) {
    if (!isBox(a) && !isBox(b)) return post(a + b);
    if ((!isBox(a) && !std::isfinite(a))) return a;
    if ((!isBox(b) && !std::isfinite(b))) return b;
    if (!isBox(a) && a == 0) return b;
    if (!isBox(b) && b == 0) return a;
    return valOf(mk(ADD, idOf(a), idOf(b)));
}
double opNeg(double a);
double opSub(double a, double b) {
    if (!isBox(a) && !isBox(b)) return post(a - b);
    if ((!isBox(a) && !std::isfinite(a))) return a;
    if ((!isBox(b) && !std::isfinite(b))) return -b;
    if (!isBox(b) && b == 0) return a;
    if (isBox(a) && isBox(b) && boxId(a) == boxId(b)) return 0.0;
    if (!isBox(a) && a == 0) return opNeg(b);
    return valOf(mk(SUB, idOf(a), idOf(b)));
}
double infTimes(double inf, double s) { // inf * symbolic
    if (std::isnan(inf)) return inf;
    int n = boxId(s);
    if (branch(fEqZero(n))) return NAN;
    if (N[n].nonneg || branch(fCmp(1, mkConst(0), n))) return inf;
    return -inf;
}
double opMul(double a, double b) {
    if (!isBox(a) && !isBox(b)) return a * b;
    if (!isBox(a) && !std::isfinite(a)) return infTimes(a, b);
    if (!isBox(b) && !std::isfinite(b)) return infTimes(b, a);
    if ((!isBox(a) && a == 0) || (!isBox(b) && b == 0)) return 0.0;
    if (!isBox(a) && a == 1) return b;
    if (!isBox(b) && b == 1) return a;
    if (!isBox(a) && a == -1) return opNeg(b);
    if (!isBox(b) && b == -1) return opNeg(a);
    return valOf(mk(MUL, idOf(a), idOf(b)));
}
double opNeg(double a) {
    if (!isBox(a)) return -a;
    if (N[boxId(a)].op == NEG) return box(N[boxId(a)].a);
    return valOf(mk(NEG, boxId(a), -1));
}
/// reciprocal of one factor, a variable
int invVarOf(int d) {
    int one = mkConst(1);
    bool fresh = !opIdx.count(std::make_tuple(int(DIV), one, d, 1));
    int q = derived("i", DIV, one, d, N[d].nonneg, N[d].nonneg);
    if (fresh) {
        int v = N[q].deps[0];
        invVar.resize(Vars.size(), -1);
        invVar[size_t(v)] = d;
        baseOfInv[astId(N[q].e)] = astId(N[d].e);
        Vars[v].defs.push_back(N[q].e * N[d].e == 1);
        if (N[d].lo > 0 || N[d].hi < 0) { N[q].lo = dn(1 / N[d].hi); N[q].hi = upw(1 / N[d].lo); }
        else if (N[d].nonneg) { N[q].lo = dn(1 / N[d].hi); if (N[q].lo < 0) N[q].lo = 0; }
        setSigns(N[q]);
        bounds(v);
        if (N[q].pos) Vars[v].defs.push_back(N[q].e > 0); // sign facts help the nonlinear solver
    }
    return q;
}
/// node without its leading coefficient, where that is a double
int unscaled(int d, double& k) {
    z3::expr e = N[d].e;
    k = 1;
    z3::expr t = e;
    if (isKind(e, Z3_OP_ADD)) for (unsigned i = 0; i < e.num_args(); i++) if (!e.arg(i).is_numeral()) { t = e.arg(i); break; }
    if (!isKind(t, Z3_OP_MUL) || !t.arg(0).is_numeral()) return d;
    double c = std::strtod(t.arg(0).get_decimal_string(40).c_str(), nullptr);
    if (c == 0 || c == 1 || !z3::eq(normal(constExpr(c)), normal(t.arg(0)))) return d;
    k = c;
    auto key = std::make_tuple(int(DIV), d, mkConst(k), 2);
    auto it = opIdx.find(key);
    if (it != opIdx.end()) return it->second;
    Node m(e / t.arg(0));
    m.op = DIV; m.a = d; m.b = mkConst(k);
    m.linear = N[d].linear; m.deps = N[d].deps;
    m.nonneg = N[d].nonneg && k > 0; m.pos = N[d].pos && k > 0;
    m.lo = dn(std::min(N[d].lo / k, N[d].hi / k)); m.hi = upw(std::max(N[d].lo / k, N[d].hi / k));
    return opIdx[key] = addNode(m);
}
/// reciprocal of a polynomial that is not zero: constant factors and the factors of a monomial come out
int invOf(int d) {
    auto key = std::make_tuple(int(DIV), d, -1, 3);
    auto it = opIdx.find(key);
    if (it != opIdx.end()) return it->second;
    // reciprocals within: 1/(a/x + b) = x/(a + b x)
    for (int v : N[d].deps)
        if (v < int(invVar.size()) && invVar[size_t(v)] >= 0 && isKind(N[d].e, Z3_OP_ADD) && varOfAst.count(astId(N[invVar[size_t(v)]].e))) {
            int x = invVar[size_t(v)], m = mk(MUL, d, x);
            if (std::binary_search(N[m].deps.begin(), N[m].deps.end(), v)) { // a higher power
                int m2 = mk(MUL, m, x);
                if (std::binary_search(N[m2].deps.begin(), N[m2].deps.end(), v)) continue;
                x = mk(MUL, x, x);
                m = m2;
            }
            N[m].nonneg |= N[d].nonneg && N[x].nonneg;
            N[m].pos |= N[d].pos && N[x].pos;
            int r = mk(MUL, x, invOf(m));
            if (N[d].lo > 0 || N[d].hi < 0) { N[r].lo = std::max(N[r].lo, dn(1 / N[d].hi)); N[r].hi = std::min(N[r].hi, upw(1 / N[d].lo)); }
            N[r].nonneg |= N[d].nonneg;
            N[r].pos |= N[d].nonneg;
            return opIdx[key] = r;
        }
    z3::expr e = N[d].e, coef = C->real_val(1);
    std::vector<int> parts;
    bool split = false;
    if (isKind(e, Z3_OP_MUL)) {
        std::vector<z3::expr> f;
        factors(e, f);
        split = true;
        for (auto& x : f) {
            if (x.is_numeral()) { coef = coef * x; continue; }
            int m = findCanon(x);
            if (m < 0) { split = false; break; }
            parts.push_back(m);
        }
    } else if (isKind(e, Z3_OP_ADD)) { // make the leading coefficient one
        double k = 1;
        int m = unscaled(d, k);
        if (k != 1) { parts.push_back(m); coef = constExpr(k); split = true; }
    }
    if (!split) return opIdx[key] = invVarOf(d);
    z3::expr r = normal(1 / coef);
    std::vector<int> deps;
    for (int m : parts) { int q = invVarOf(m); r = r * N[q].e; deps = merge(deps, N[q].deps); }
    Node n(r);
    n.op = DIV; n.a = mkConst(1); n.b = d;
    n.deps = deps;
    n.linear = parts.size() == 1;
    n.nonneg = n.pos = N[d].nonneg;
    if (N[d].lo > 0 || N[d].hi < 0) { n.lo = dn(1 / N[d].hi); n.hi = upw(1 / N[d].lo); }
    return opIdx[key] = addNode(n);
}
bool hasFactor(const z3::expr& m, unsigned id) {
    std::vector<z3::expr> f;
    factors(m, f);
    for (auto& x : f) if (astId(x) == id) return true;
    return false;
}
bool allMonos(const z3::expr& e, const z3::expr& x) { // does x divide every monomial?
    if (!isKind(e, Z3_OP_ADD)) return hasFactor(e, astId(x));
    for (unsigned i = 0; i < e.num_args(); i++) if (!hasFactor(e.arg(i), astId(x))) return false;
    return true;
}
int quotient(int n, int d) {
    bool fresh = !opIdx.count(std::make_tuple(int(DIV), n, d, 1));
    int q = derived("q", DIV, n, d, N[n].nonneg && (N[d].nonneg), N[n].pos && N[d].nonneg);
    if (fresh) {
        int v = N[q].deps[0];
        Vars[v].defs.push_back(N[q].e * N[d].e == N[n].e);
        if (N[d].lo > 0 || N[d].hi < 0) {
            double p[4] = {N[n].lo / N[d].lo, N[n].lo / N[d].hi, N[n].hi / N[d].lo, N[n].hi / N[d].hi};
            bool nan = false;
            for (double z : p) if (std::isnan(z)) nan = true;
            if (!nan) { N[q].lo = dn(*std::min_element(p, p + 4)); N[q].hi = upw(*std::max_element(p, p + 4)); setSigns(N[q]); }
        }
        bounds(v);
        // sign facts help the nonlinear solver
        if (N[q].pos) Vars[v].defs.push_back(N[q].e > 0);
        else if (N[q].nonneg) Vars[v].defs.push_back(N[q].e >= 0);
    }
    return q;
}
double opDiv(double a, double b) {
    if (!isBox(a) && !isBox(b)) return a / b;
    if (!isBox(b)) {
        if (std::isnan(b)) return b;
        if (std::isinf(b)) return 0.0;
        if (b == 0) {
            int n = boxId(a);
            if (branch(fEqZero(n))) return NAN;
            bool pz = N[n].nonneg || branch(fCmp(1, mkConst(0), n));
            return (pz ? 1.0 : -1.0) / b;
        }
        if (b == 1) return a;
        // exact division by a constant: multiply by the exact rational reciprocal
        auto key = std::make_tuple(int(DIV), boxId(a), mkConst(b), 2);
        auto it = opIdx.find(key);
        if (it != opIdx.end()) return box(it->second);
        Node n(N[boxId(a)].e / constExpr(b));
        n.op = DIV; n.a = boxId(a); n.b = mkConst(b);
        Node& x = N[boxId(a)];
        n.linear = x.linear; n.deps = x.deps;
        n.nonneg = x.nonneg && b > 0; n.pos = x.pos && b > 0;
        n.lo = dn(std::min(x.lo / b, x.hi / b)); n.hi = upw(std::max(x.lo / b, x.hi / b));
        int r = addNode(n);
        opIdx[key] = r;
        return valOf(r);
    }
    int d = boxId(b);
    if (!isBox(a) && std::isnan(a)) return a;
    if (!N[d].pos && branch(fEqZero(d))) {
        if (!isBox(a)) { if (a == 0) return NAN; return a > 0 ? INFINITY : -INFINITY; }
        int n = boxId(a);
        if (branch(fEqZero(n))) return NAN;
        bool pz = N[n].nonneg || branch(fCmp(1, mkConst(0), n));
        return pz ? INFINITY : -INFINITY;
    }
    if (!isBox(a)) {
        if (a == 0) return 0.0;
        if (std::isinf(a)) { bool pz = N[d].nonneg || branch(fCmp(1, mkConst(0), d)); return pz ? a : -a; }
    }
    int n = idOf(a);
    if (n == d) return 1.0;
    if (N[n].op == CONST) return valOf(mk(MUL, n, invOf(d)));
    // a quotient in which the denominator cancels is simplified, another one becomes a variable of its own
    int p = mk(MUL, n, invOf(d));
    bool reduced = false;
    for (int v : N[invOf(d)].deps) reduced = reduced || !allMonos(N[p].e, N[Vars[v].node].e);
    if (reduced) return valOf(p);
    double k = 1;
    n = unscaled(n, k);
    int q = quotient(n, d);
    return k == 1 ? box(q) : valOf(mk(MUL, mkConst(k), q));
}
double opSqrt(double a) {
    if (!isBox(a)) return std::sqrt(a);
    int n = boxId(a);
    if (N[n].op == MUL && N[n].a == N[n].b) { // sqrt(x*x) = |x|
        return opAbs(box(N[n].a));
    }
    n = canon(n);
    if (!N[n].nonneg && branch(fCmp(1, n, mkConst(0)))) return NAN;
    bool fresh = !opIdx.count(std::make_tuple(int(SQRT), n, -1, 1));
    int s = derived("s", SQRT, n, -1, true, N[n].pos);
    if (fresh) {
        int v = N[s].deps[0];
        Vars[v].defs.push_back(N[s].e * N[s].e == N[n].e);
        N[s].lo = N[n].lo > 0 ? dn(std::sqrt(N[n].lo)) : 0;
        N[s].hi = upw(std::sqrt(N[n].hi));
        setSigns(N[s]);
        bounds(v);
        Vars[v].defs.push_back(N[n].pos ? N[s].e > 0 : N[s].e >= 0);
    }
    return box(s);
}
double mkIte(int f, double a, double b) {
    bool v;
    if (fIsConst(f, v)) return v ? a : b;
    if (bitsOf(a) == bitsOf(b)) return a;
    if ((!isBox(a) && !std::isfinite(a)) || (!isBox(b) && !std::isfinite(b))) return branch(f) ? a : b;
    int x = idOf(a), y = idOf(b);
    Node n(z3::ite(F[f].e, N[x].e, N[y].e));
    n.op = ITE; n.a = f; n.b = x; n.c = y;
    n.deps = merge(F[f].deps, merge(N[x].deps, N[y].deps));
    n.nonneg = N[x].nonneg && N[y].nonneg; n.pos = N[x].pos && N[y].pos;
    n.linear = N[x].linear && N[y].linear && F[f].linear;
    n.lo = std::min(N[x].lo, N[y].lo); n.hi = std::max(N[x].hi, N[y].hi);
    return valOf(addNode(n));
}
double opAbs(double a) {
    if (!isBox(a)) return std::fabs(a);
    int n = boxId(a);
    if (N[n].nonneg) return a;
    if (N[n].hi <= 0) return opNeg(a);
    auto key = std::make_tuple(int(FABS), n, 0, 3);
    auto it = opIdx.find(key);
    if (it != opIdx.end()) return box(it->second);
    double r = mkIte(fCmp(1, n, mkConst(0)), opNeg(a), a);
    if (isBox(r)) { Node& q = N[boxId(r)]; q.nonneg = true; q.lo = std::max(0.0, std::max(N[n].lo, -N[n].hi)); q.hi = std::max(std::fabs(N[n].lo), std::fabs(N[n].hi)); opIdx[key] = boxId(r); }
    return r;
}
/// formula for an IEEE comparison; handles infinities. Returns -1 when the answer is `out`.
int cmpFormula(int pred, double a, double b, bool& out) {
    bool ab = isBox(a), bb = isBox(b);
    bool unord = (!ab && std::isnan(a)) || (!bb && std::isnan(b));
    int rel = pred & 7; // 1 eq 2 gt 3 ge 4 lt 5 le 6 ne 7 ord
    if (pred == 0) { out = false; return -1; }
    if (pred == 15) { out = true; return -1; }
    if (unord) { out = pred >= 8; return -1; }
    if (pred == 7) { out = true; return -1; }
    if (pred == 8) { out = false; return -1; }
    if (!ab && !bb) {
        out = rel == 1 ? a == b : rel == 2 ? a > b : rel == 3 ? a >= b : rel == 4 ? a < b : rel == 5 ? a <= b : a != b;
        return -1;
    }
    if ((!ab && std::isinf(a)) || (!bb && std::isinf(b))) {
        double x = ab ? 0 : a, y = bb ? 0 : b;
        out = rel == 1 ? x == y : rel == 2 ? x > y : rel == 3 ? x >= y : rel == 4 ? x < y : rel == 5 ? x <= y : x != y;
        return -1;
    }
    int x = idOf(a), y = idOf(b);
    int f;
    switch (rel) {
    case 1: f = fCmp(3, x, y); break;
    case 2: f = fCmp(1, y, x); break;
    case 3: f = fCmp(2, y, x); break;
    case 4: f = fCmp(1, x, y); break;
    case 5: f = fCmp(2, x, y); break;
    default: {
        f = fCmp(3, x, y);
        bool v;
        if (fIsConst(f, v)) { out = !v; return -1; }
        f = mkF(!F[f].e, F[f].deps, 6, f, 0, 0, F[f].linear);
    }
    }
    bool v;
    if (fIsConst(f, v)) { out = v; return -1; }
    return f;
}

void autoViolation(const std::string& label, const z3::expr* extra, const std::vector<int>& deps, bool lin) {
    std::map<int, double> vals;
    std::string m = "{}";
    if (fullModel(extra, deps, lin, true, vals, optCheckMs / 4)) m = modelJson(vals);
    else { undecided("no model for " + label); return; }
    emit("{\"t\":\"viol\",\"label\":\"" + esc(label) + "\",\"k\":\"auto\",\"model\":" + m + "}");
}

/// integer part of a symbolic value: explores every feasible integer
double concretise(double a, int mode /*0 trunc 1 floor 2 ceil 3 round*/, double lo, double hi, bool rangeCheck) {
    int n = boxId(a);
    std::vector<int> deps = N[n].deps;
    bool lin = N[n].linear;
    z3::expr x = N[n].e;
    static std::map<std::pair<int, int>, double> memo;
    auto mi = memo.find({n, mode});
    if (mi != memo.end()) return mi->second;
    S.concretised++;
    auto inCell = [&](double v) {
        z3::expr e = constExpr(v);
        if (mode == 1) return x >= e && x < e + 1;
        if (mode == 2) return x > e - 1 && x <= e;
        if (mode == 3) return v > 0 ? (2 * x >= 2 * e - 1 && 2 * x < 2 * e + 1) : v < 0 ? (2 * x > 2 * e - 1 && 2 * x <= 2 * e + 1) : (2 * x > -1 && 2 * x < 1);
        if (v > 0) return x >= e && x < e + 1;
        if (v < 0) return x > e - 1 && x <= e;
        return x > -1 && x < 1;
    };
    auto cellOf = [&](double t) { return mode == 1 ? std::floor(t) : mode == 2 ? std::ceil(t) : mode == 3 ? std::round(t) : std::trunc(t); };
    auto poolCell = [&](double v) {
        startPool();
        for (auto& sm : pool) {
            if (!sm.alive) continue;
            double t = withSample<double>(sm, evalNode, n), eps = 1e-9 * (1 + std::fabs(t));
            if (!(cellOf(t - eps) == v && cellOf(t + eps) == v)) sm.alive = false;
        }
    };
    auto poolHas = [&](double v) {
        startPool();
        for (auto& sm : pool) {
            if (!sm.alive) continue;
            double t = withSample<double>(sm, evalNode, n), eps = 1e-9 * (1 + std::fabs(t));
            if (cellOf(t - eps) == v && cellOf(t + eps) == v) return true;
        }
        return false;
    };
    if (pos < prefix.size()) {
        auto d = prefix[pos++];
        if (d.first != 4 && d.first != 5) { undecided("non-deterministic replay"); finishPath("error", "prefix mismatch"); }
        trace.push_back(d);
        if (d.first == 4) { addPC(inCell(double(d.second)), deps, lin); poolCell(double(d.second)); }
        return memo[{n, mode}] = double(d.second);
    }
    const double elo = N[n].lo, ehi = N[n].hi; // enclosure of the value
    if (rangeCheck && !(elo > lo - 1 && ehi < hi + 1)) {
        z3::expr bad = x >= constExpr(hi) + 1 || x <= constExpr(lo) - 1;
        Res r = query(bad, deps, lin, optBranchMs);
        if (r == SAT) {
            autoViolation("float-to-int conversion out of range", &bad, deps, lin);
            addPC(!bad, deps, lin);
            for (auto& sm : pool) {
                double t = withSample<double>(sm, evalNode, n);
                if (!(t < hi + 0.999 && t > lo - 0.999)) sm.alive = false;
            }
        }
    }
    std::vector<double> found;
    z3::expr block = C->bool_val(true);
    if (std::isfinite(elo) && std::isfinite(ehi) && cellOf(ehi) - cellOf(elo) <= 4) {
        // few candidate integers: keep each one the solver does not refute (keeping an infeasible one only adds a path)
        for (double v = cellOf(elo); v <= cellOf(ehi); v++) {
            if (cellOf(elo) == cellOf(ehi) || poolHas(v) || query(inCell(v), deps, lin, optBranchMs / 4) != UNSAT) found.push_back(v);
        }
    } else while (true) {
        z3::model m(*C);
        Res r = query(block, deps, lin, optBranchMs, &m);
        if (r == UNSAT) break;
        if (r == UNK) { undecided("concretisation of a float-to-int conversion"); pathUncertain = true; break; }
        // exact cell of the model value
        z3::expr mv = m.eval(x, true);
        double t = numVal(m, x), v = cellOf(t);
        double pick = NAN;
        for (double c : {v, v - 1, v + 1}) {
            z3::expr in = m.eval(inCell(c), true);
            if (in.is_true()) { pick = c; break; }
        }
        if (std::isnan(pick)) pick = v;
        found.push_back(pick);
        block = (block && !inCell(pick)).simplify();
        if (found.size() > 64) { undecided("more than 64 feasible integers at a conversion"); break; }
    }
    if (found.empty()) { finishPath("infeasible", "concretise"); }
    std::sort(found.begin(), found.end());
    if (found.size() == 1) { trace.push_back({5, long(found[0])}); pos++; return memo[{n, mode}] = found[0]; }
    for (size_t i = 1; i < found.size(); i++) pushAlternative({4, long(found[i])});
    trace.push_back({4, long(found[0])});
    pos++;
    addPC(inCell(found[0]), deps, lin);
    poolCell(found[0]);
    return memo[{n, mode}] = found[0];
}

double roundedText(int node, int prec, int kind /*0 general sig digits,1 fixed,2 scientific,3 float32*/) {
    if (kind != 1 && ((kind == 2 && prec >= 16) || (kind == 0 && prec >= 17))) return box(node);
    auto key = std::make_tuple(int(ROUND), node, prec, 10 + kind);
    auto it = opIdx.find(key);
    if (it != opIdx.end()) return box(it->second);
    int v = newVar("r", 0, 0, true);
    int id = Vars[v].node;
    N[id].op = ROUND; N[id].a = node;
    opIdx[key] = id;
    Vars[v].defDeps = N[node].deps;
    Vars[v].linear = N[node].linear;
    z3::expr x = N[node].e, r = N[id].e;
    if (kind == 1) {
        z3::expr d = constExpr(0.5 * std::pow(10.0, -prec) * (1 + 1e-9));
        Vars[v].defs.push_back(r - x <= d && x - r <= d);
    } else {
        int digits = kind == 2 ? prec + 1 : (prec == 0 ? 1 : prec);
        double rel = kind == 3 ? std::ldexp(1.0, -24) : 0.5 * std::pow(10.0, 1 - digits) * (1 + 1e-9);
        z3::expr d = constExpr(rel);
        // |r-x| <= rel*|x|, same sign
        Vars[v].defs.push_back(z3::ite(x >= 0, r - x <= d * x && x - r <= d * x, r - x <= -d * x && x - r <= -d * x));
    }
    {
        double m = kind == 1 ? 0.51 * std::pow(10.0, -prec) : 0;
        auto sl = [&](double x) { return std::isinf(x) ? x : std::fabs(x) * 0.51 + m; };
        N[id].lo = N[node].lo - sl(N[node].lo); N[id].hi = N[node].hi + sl(N[node].hi);
        if (kind == 0 || kind == 2 || kind == 3) { if (N[node].lo > 0) N[id].lo = N[node].lo * 0.49; if (N[node].hi < 0) N[id].hi = N[node].hi * 0.49; }
    }
    N[id].nonneg = N[node].nonneg && kind != 1;
    N[id].pos = N[node].pos && kind != 1;
    return box(id);
}
} // namespace

// ====================================================================================== entry points used by the IR
extern "C" {
double __sym_fadd(double a, double b) { return opAdd(a, b); }
double __sym_fsub(double a, double b) { return opSub(a, b); }
double __sym_fmul(double a, double b) { return opMul(a, b); }
double __sym_fdiv(double a, double b) { return opDiv(a, b); }
double __sym_fneg(double a) { return opNeg(a); }
double __sym_sqrt(double a) { return opSqrt(a); }
double __sym_fabs(double a) { return opAbs(a); }
int __sym_fcmp(int pred, double a, double b) {
    if (!isBox(a) && !isBox(b)) {
        bool o;
        cmpFormula(pred, a, b, o);
        return o;
    }
    bool o = false;
    int f = cmpFormula(pred, a, b, o);
    return f < 0 ? o : branch(f);
}
long __sym_fptosi(double a, int w) {
    double lo = -std::ldexp(1.0, w - 1), hi = std::ldexp(1.0, w - 1) - 1;
    if (!isBox(a)) {
        if (!(a > lo - 1 && a < hi + 1)) {
            autoViolation("float-to-int conversion out of range", nullptr, {}, true);
            return w == 64 ? INT64_MIN : long(INT32_MIN);
        }
        return long(a);
    }
    return long(concretise(a, 0, lo, hi, true));
}
long __sym_fptoui(double a, int w) {
    if (!isBox(a)) {
        if (!(a > -1 && a < std::ldexp(1.0, w))) {
            autoViolation("float-to-int conversion out of range", nullptr, {}, true);
            return 0;
        }
        return w == 64 ? long((unsigned long) a) : long(a);
    }
    return long(concretise(a, 0, 0, std::ldexp(1.0, std::min(w, 62)), true));
}
double __sym_floor(double a) { return isBox(a) ? concretise(a, 1, 0, 0, false) : std::floor(a); }
double __sym_ceil(double a) { return isBox(a) ? concretise(a, 2, 0, 0, false) : std::ceil(a); }
double __sym_trunc(double a) { return isBox(a) ? concretise(a, 0, 0, 0, false) : std::trunc(a); }
double __sym_round(double a) { return isBox(a) ? concretise(a, 3, 0, 0, false) : std::round(a); }
double __sym_rint(double a) { return isBox(a) ? concretise(a, 3, 0, 0, false) : std::rint(a); }
double __sym_nearbyint(double a) { return __sym_rint(a); }
long __sym_lround(double a) { return long(__sym_round(a)); }
long __sym_llround(double a) { return long(__sym_round(a)); }
long __sym_lrint(double a) { return long(__sym_rint(a)); }
double __sym_fmin(double a, double b) {
    if (!isBox(a) && !isBox(b)) return std::fmin(a, b);
    bool o;
    int f = cmpFormula(4, a, b, o);
    if (f < 0) return (!isBox(a) && std::isnan(a)) ? b : (!isBox(b) && std::isnan(b)) ? a : o ? a : b;
    return mkIte(f, a, b);
}
double __sym_fmax(double a, double b) {
    if (!isBox(a) && !isBox(b)) return std::fmax(a, b);
    bool o;
    int f = cmpFormula(4, a, b, o);
    if (f < 0) return (!isBox(a) && std::isnan(a)) ? b : (!isBox(b) && std::isnan(b)) ? a : o ? b : a;
    return mkIte(f, b, a);
}
double __sym_fdim(double a, double b) { return __sym_fmax(opSub(a, b), 0.0); }
double __sym_hypot(double a, double b) {
    if (!isBox(a) && !isBox(b)) return std::hypot(a, b);
    return opSqrt(opAdd(opMul(a, a), opMul(b, b)));
}
double __sym_fma(double a, double b, double c) {
    if (!isBox(a) && !isBox(b) && !isBox(c)) return post(std::fma(a, b, c));
    return opAdd(opMul(a, b), c);
}
double __sym_fmod(double a, double b) {
    if (!isBox(a) && !isBox(b)) return std::fmod(a, b);
    return opSub(a, opMul(b, __sym_trunc(opDiv(a, b))));
}
double __sym_frem(double a, double b) { return __sym_fmod(a, b); }
double __sym_copysign(double a, double b) {
    if (!isBox(a) && !isBox(b)) return std::copysign(a, b);
    double m = opAbs(a);
    if (!isBox(b)) return std::signbit(b) ? opNeg(m) : m;
    return mkIte(fCmp(1, boxId(b), mkConst(0)), opNeg(m), m);
}
double __sym_pow(double a, double b) {
    if (!isBox(a) && !isBox(b)) return std::pow(a, b);
    if (!isBox(b)) {
        if (b == 0) return 1;
        if (b == 0.5) return opSqrt(a);
        if (b == 1.5) return opMul(a, opSqrt(a));
        if (b == -0.5) return opDiv(1.0, opSqrt(a));
        if (b == std::floor(b) && std::fabs(b) <= 16) {
            double r = a;
            for (int i = 1; i < int(std::fabs(b)); i++) r = opMul(r, a);
            return b > 0 ? r : opDiv(1.0, r);
        }
    }
    unsupported("pow with a symbolic exponent");
}
static double trig(double a, Op op, const char* nm) {
    int n = boxId(a);
    bool fresh = !opIdx.count(std::make_tuple(int(op), n, -1, 1));
    int s = derived(nm, op, n, -1, false, false);
    if (fresh) {
        int v = N[s].deps[0];
        z3::expr e = N[s].e, x = N[n].e;
        N[s].lo = -1; N[s].hi = 1;
        double al = N[n].lo, ah = N[n].hi; // monotone / unimodal on [-pi/2, pi/2]
        if (al >= -1.5707 && ah <= 1.5707) {
            if (op == SIN) { N[s].lo = std::max(-1.0, std::sin(al) - 1e-12); N[s].hi = std::min(1.0, std::sin(ah) + 1e-12); }
            else { N[s].lo = std::min(std::cos(al), std::cos(ah)) - 1e-12; if (al > 0) N[s].hi = std::cos(al) + 1e-12; if (ah < 0) N[s].hi = std::cos(ah) + 1e-12; }
            setSigns(N[s]);
            bounds(v);
        }
        Vars[v].defs.push_back(e >= -1 && e <= 1);
        if (op == SIN) {
            Vars[v].defs.push_back(z3::implies(x == 0, e == 0));
            Vars[v].defs.push_back(z3::ite(x >= 0, e <= x && e >= -x, e >= x && e <= -x));
        } else {
            Vars[v].defs.push_back(z3::implies(x == 0, e == 1));
        }
        // Lipschitz lemma against every earlier instance; sin^2+cos^2 = 1
        for (size_t u = 0; u < size_t(v); u++) {
            if (!Vars[u].defined) continue;
            Node& o = N[Vars[u].node];
            if (o.op == op && o.a != n) {
                z3::expr dx = N[o.a].e - x, de = o.e - e;
                Vars[v].defs.push_back(z3::ite(dx >= 0, de <= dx && de >= -dx, de >= dx && de <= -dx));
                Vars[v].defDeps = merge(Vars[v].defDeps, merge(N[o.a].deps, o.deps));
            } else if ((o.op == SIN || o.op == COS) && o.op != op && o.a == n) {
                Vars[v].defs.push_back(e * e + o.e * o.e == 1);
                Vars[v].defDeps = merge(Vars[v].defDeps, o.deps);
            }
        }
    }
    return box(s);
}
double __sym_sin(double a) { return isBox(a) ? trig(a, SIN, "sin") : std::sin(a); }
double __sym_cos(double a) { return isBox(a) ? trig(a, COS, "cos") : std::cos(a); }
#define UNSUP1(n, f) double __sym_##n(double a) { if (!isBox(a)) return f(a); unsupported(#n); }
UNSUP1(tan, std::tan) UNSUP1(exp, std::exp) UNSUP1(log, std::log) UNSUP1(log10, std::log10) UNSUP1(log2, std::log2)
UNSUP1(atan, std::atan) UNSUP1(asin, std::asin) UNSUP1(acos, std::acos) UNSUP1(exp2, std::exp2) UNSUP1(expm1, std::expm1)
UNSUP1(log1p, std::log1p) UNSUP1(sinh, std::sinh) UNSUP1(cosh, std::cosh) UNSUP1(tanh, std::tanh) UNSUP1(cbrt, std::cbrt)
double __sym_atan2(double a, double b) { if (!isBox(a) && !isBox(b)) return std::atan2(a, b); unsupported("atan2"); }
double __sym_remainder(double a, double b) { if (!isBox(a) && !isBox(b)) return std::remainder(a, b); unsupported("remainder"); }
bool __sym_fpclass(double a, int mask) {
    if (!isBox(a)) {
        int c = std::isnan(a) ? 3 : std::isinf(a) ? (a < 0 ? 4 : 512) : a == 0 ? (std::signbit(a) ? 32 : 64)
              : std::isnormal(a) ? (a < 0 ? 8 : 256) : (a < 0 ? 16 : 128);
        return (c & mask) != 0;
    }
    int fin = 8 | 16 | 32 | 64 | 128 | 256;
    if ((mask & fin) == fin) return true;
    if ((mask & fin) == 0) return false;
    unsupported("llvm.is.fpclass");
}
// ---- float
static double up(float f) {
    if (!isBoxF(f)) return double(f);
    uint32_t u;
    memcpy(&u, &f, 4);
    return box(int(u & ~FBOXM));
}
static float down(double d) {
    if (!isBox(d)) return float(d);
    int n = boxId(d);
    double r = N[n].op == ROUND && N[n].name == "r" ? d : roundedText(n, 0, 3);
    uint32_t id = uint32_t(boxId(r));
    if (id & FBOXM) unsupported("too many float terms");
    uint32_t u = FBOX | id;
    float f;
    memcpy(&f, &u, 4);
    return f;
}
float __sym_fptrunc(double a) { return isBox(a) ? down(box(boxId(roundedText(boxId(a), 0, 3)))) : float(a); }
double __sym_fpext(float a) { return up(a); }
float __sym_faddf(float a, float b) { return isBoxF(a) || isBoxF(b) ? __sym_fptrunc(opAdd(up(a), up(b))) : a + b; }
float __sym_fsubf(float a, float b) { return isBoxF(a) || isBoxF(b) ? __sym_fptrunc(opSub(up(a), up(b))) : a - b; }
float __sym_fmulf(float a, float b) { return isBoxF(a) || isBoxF(b) ? __sym_fptrunc(opMul(up(a), up(b))) : a * b; }
float __sym_fdivf(float a, float b) { return isBoxF(a) || isBoxF(b) ? __sym_fptrunc(opDiv(up(a), up(b))) : a / b; }
float __sym_fnegf(float a) { return isBoxF(a) ? __sym_fptrunc(opNeg(up(a))) : -a; }
int __sym_fcmpf(int p, float a, float b) { return __sym_fcmp(p, up(a), up(b)); }
long __sym_fptosif(float a, int w) { return __sym_fptosi(up(a), w); }
long __sym_fptouif(float a, int w) { return __sym_fptoui(up(a), w); }
float __sym_sqrtf(float a) { return isBoxF(a) ? __sym_fptrunc(opSqrt(up(a))) : std::sqrt(a); }
float __sym_fabsf(float a) { return isBoxF(a) ? __sym_fptrunc(opAbs(up(a))) : std::fabs(a); }
float __sym_floorf(float a) { return isBoxF(a) ? float(__sym_floor(up(a))) : std::floor(a); }
float __sym_ceilf(float a) { return isBoxF(a) ? float(__sym_ceil(up(a))) : std::ceil(a); }

// ---- text
std::ostream* __sym_os_insert_d(std::ostream* os, double v) {
    if (!isBox(v)) { *os << v; return os; }
    auto ff = os->flags() & std::ios::floatfield;
    int prec = int(os->precision());
    double r = ff == std::ios::fixed ? roundedText(boxId(v), prec, 1) : ff == std::ios::scientific ? roundedText(boxId(v), prec, 2)
             : ff == (std::ios::fixed | std::ios::scientific) ? v : roundedText(boxId(v), prec, 0);
    *os << magicText(boxId(r));
    return os;
}
std::ostream* __sym_os_insert_f(std::ostream* os, float v) { return isBoxF(v) ? __sym_os_insert_d(os, up(v)) : &(*os << v); }
std::istream* __sym_is_extract_d(std::istream* is, double* v) {
    *is >> *v;
    *v = fromMagic(*v);
    return is;
}
std::istream* __sym_is_extract_f(std::istream* is, float* v) {
    double d = 0;
    *is >> d;
    d = fromMagic(d);
    *v = isBox(d) ? __sym_fptrunc(d) : float(d);
    return is;
}
double __sym_strtod(const char* s, char** e) { return fromMagic(strtod(s, e)); }
double __sym_atof(const char* s) { return fromMagic(atof(s)); }
float __sym_strtof(const char* s, char** e) { double d = fromMagic(strtod(s, e)); return isBox(d) ? __sym_fptrunc(d) : float(d); }

static std::string vformat(const char* fmt, va_list ap) {
    std::string out;
    for (const char* p = fmt; *p;) {
        if (*p != '%') { out += *p++; continue; }
        if (p[1] == '%') { out += '%'; p += 2; continue; }
        const char* q = p + 1;
        std::string spec = "%";
        while (*q && strchr("-+ #0", *q)) spec += *q++;
        if (*q == '*') { spec += std::to_string(va_arg(ap, int)); q++; } else while (isdigit(*q)) spec += *q++;
        int prec = -1;
        if (*q == '.') {
            spec += *q++; prec = 0;
            if (*q == '*') { prec = va_arg(ap, int); spec += std::to_string(prec); q++; }
            else while (isdigit(*q)) { prec = prec * 10 + (*q - '0'); spec += *q++; }
        }
        std::string len;
        while (*q && strchr("hlLzjt", *q)) len += *q++;
        char cv = *q ? *q++ : 0;
        char buf[512];
        if (strchr("fFeEgGaA", cv)) {
            double d = va_arg(ap, double);
            if (isBox(d)) {
                if (prec < 0) prec = 6;
                double r = strchr("fF", cv) ? roundedText(boxId(d), prec, 1) : strchr("eE", cv) ? roundedText(boxId(d), prec, 2)
                         : strchr("aA", cv) ? d : roundedText(boxId(d), prec, 0);
                out += magicText(boxId(r));
            } else { snprintf(buf, 512, (spec + cv).c_str(), d); out += buf; }
        } else if (cv == 's') { const char* s = va_arg(ap, const char*); std::vector<char> b(strlen(s) + 600); snprintf(b.data(), b.size(), (spec + cv).c_str(), s); out += b.data(); }
        else if (cv == 'c') { snprintf(buf, 512, (spec + cv).c_str(), va_arg(ap, int)); out += buf; }
        else if (cv == 'p') { snprintf(buf, 512, (spec + cv).c_str(), va_arg(ap, void*)); out += buf; }
        else if (len == "l" || len == "ll" || len == "z" || len == "j" || len == "t") { snprintf(buf, 512, (spec + "l" + cv).c_str(), va_arg(ap, long)); out += buf; }
        else { snprintf(buf, 512, (spec + cv).c_str(), va_arg(ap, int)); out += buf; }
        p = q;
    }
    return out;
}
static std::string *cOut = nullptr, *cErr = nullptr; // where C stdio of the program goes inside a guarded region
static int cPut(FILE* o, const std::string& s) {
    if (o == stdout) { if (cOut) *cOut += s; }
    else if (o == stderr) { if (cErr) *cErr += s; }
    else fputs(s.c_str(), o);
    return int(s.size());
}
int __sym_printf(const char* f, ...) { va_list ap; va_start(ap, f); auto s = vformat(f, ap); va_end(ap); return cPut(stdout, s); }
int __sym_fprintf(FILE* o, const char* f, ...) { va_list ap; va_start(ap, f); auto s = vformat(f, ap); va_end(ap); return cPut(o, s); }
int __sym_puts(const char* s) { return cPut(stdout, std::string(s) + "\n"); }
int __sym_putchar(int c) { cPut(stdout, std::string(1, char(c))); return c; }
int __sym_fputs(const char* s, FILE* o) { return cPut(o, s); }
int __sym_fputc(int c, FILE* o) { cPut(o, std::string(1, char(c))); return c; }
size_t __sym_fwrite(const void* p, size_t z, size_t n, FILE* o) {
    if (o != stdout && o != stderr) return fwrite(p, z, n, o);
    cPut(o, std::string(static_cast<const char*>(p), z * n));
    return n;
}
int __sym_vsnprintf(char* b, size_t n, const char* f, va_list ap) {
    auto s = vformat(f, ap);
    if (n) { size_t k = std::min(n - 1, s.size()); memcpy(b, s.data(), k); b[k] = 0; }
    return int(s.size());
}
int __sym_snprintf(char* b, size_t n, const char* f, ...) { va_list ap; va_start(ap, f); int r = __sym_vsnprintf(b, n, f, ap); va_end(ap); return r; }
int __sym_sprintf(char* b, const char* f, ...) { va_list ap; va_start(ap, f); int r = __sym_vsnprintf(b, 1 << 20, f, ap); va_end(ap); return r; }

// ---- environment
static jmp_buf* exitTarget = nullptr;
static int exitStatus = 0;
[[noreturn]] void __sym_exit(int c) {
    exitStatus = c;
    if (exitTarget) longjmp(*exitTarget, 1);
    autoViolation("crash:unexpected exit", nullptr, {}, true);
    finishPath("exit", "exit(" + std::to_string(c) + ") outside a guarded region");
}
static sx::ClockHook clockHook = nullptr;
static int clockReads = 0;
long __sym_clock_now() { int k = clockReads++; return clockHook ? clockHook(k) : 1700000000000000000L + 1000000L * k; }
long __sym_time(long* t) { if (t) *t = 1700000000L; return 1700000000L; }
} // extern "C"

// ====================================================================================== harness API
namespace sx {
double sym(const char* name, double lo, double hi) {
    if (lo == hi) return lo;
    for (auto& s : inputOrder) if (s == name) { fprintf(stderr, "duplicate input %s\n", name); abort(); }
    inputOrder.push_back(name);
    int v = newVar(name, lo, hi, false);
    return box(Vars[v].node);
}
double symi(const char* name, int i, double lo, double hi) { return sym((std::string(name) + "_" + std::to_string(i)).c_str(), lo, hi); }
int choice(const char* name, int n) {
    long v = 0;
    if (pos < prefix.size()) {
        auto d = prefix[pos++];
        if (d.first != 6) { undecided("non-deterministic replay"); finishPath("error", "prefix mismatch"); }
        trace.push_back(d);
        v = d.second;
    } else {
        for (int i = n - 1; i >= 1; i--) pushAlternative({6, i});
        trace.push_back({6, 0});
        pos++;
    }
    choices[name] = int(v);
    return int(v);
}
int choicei(const char* name, int i, int n) { return choice((std::string(name) + "_" + std::to_string(i)).c_str(), n); }

static int cmpB(int pred, double a, double b) {
    bool o;
    int f = cmpFormula(pred, a, b, o);
    return f < 0 ? fConst(o) : f;
}
Bool lt(double a, double b) { return {cmpB(4, a, b)}; }
Bool le(double a, double b) { return {cmpB(5, a, b)}; }
Bool eq(double a, double b) { return {cmpB(1, a, b)}; }
Bool close(double a, double b, double tol) {
    bool fa = isBox(a) || std::isfinite(a), fb = isBox(b) || std::isfinite(b);
    if (!fa || !fb) return {fConst(!isBox(a) && !isBox(b) && a == b)};
    if (!isBox(a) && !isBox(b)) return {fConst(std::fabs(a - b) <= tol)};
    int x = idOf(a), y = idOf(b);
    if (x == y) return {fConst(true)};
    z3::expr d = N[x].e - N[y].e;
    z3::expr sd = d.simplify(z3::params(*C));
    z3::params p(*C);
    p.set("som", true);
    sd = d.simplify(p);
    if (sd.is_numeral()) {
        z3::expr t = constExpr(tol);
        z3::expr ok = (sd <= t && -sd <= t).simplify();
        if (ok.is_true()) return {fConst(true)};
    }
    z3::expr t = constExpr(tol);
    return {mkF(d <= t && -d <= t, merge(N[x].deps, N[y].deps), 7, x, y, tol, N[x].linear && N[y].linear)};
}
Bool operator&&(Bool a, Bool b) {
    bool v;
    if (fIsConst(a.id, v)) return v ? b : a;
    if (fIsConst(b.id, v)) return v ? a : b;
    return {mkF(F[a.id].e && F[b.id].e, merge(F[a.id].deps, F[b.id].deps), 4, a.id, b.id, 0, F[a.id].linear && F[b.id].linear)};
}
Bool operator||(Bool a, Bool b) {
    bool v;
    if (fIsConst(a.id, v)) return v ? a : b;
    if (fIsConst(b.id, v)) return v ? b : a;
    return {mkF(F[a.id].e || F[b.id].e, merge(F[a.id].deps, F[b.id].deps), 5, a.id, b.id, 0, F[a.id].linear && F[b.id].linear)};
}
Bool operator!(Bool a) {
    bool v;
    if (fIsConst(a.id, v)) return {fConst(!v)};
    return {mkF(!F[a.id].e, F[a.id].deps, 6, a.id, 0, 0, F[a.id].linear)};
}
Bool truth(bool b) { return {fConst(b)}; }
double ite(Bool c, double a, double b) { return mkIte(c.id, a, b); }
bool decide(Bool c) { return branch(c.id); }
bool finite(double v) { return isBox(v) || std::isfinite(v); }
bool symbolicMode() { return true; }

void assume(Bool c) {
    bool v;
    if (fIsConst(c.id, v)) { if (!v) finishPath("assume", ""); return; }
    // recorded like a branch whose other side is dropped
    z3::expr e = F[c.id].e;
    if (pos < prefix.size()) {
        auto d = prefix[pos++];
        if (d.first != 7) { undecided("non-deterministic replay"); finishPath("error", "prefix mismatch"); }
        trace.push_back(d);
        addPC(e, F[c.id].deps, F[c.id].linear);
        poolAssume(c.id, true);
        learn(c.id, true);
        return;
    }
    Res r = poolFind(c.id, true) ? SAT : query(e, F[c.id].deps, F[c.id].linear, optBranchMs);
    if (r == UNSAT) finishPath("assume", "");
    if (r == UNK) pathUncertain = true;
    trace.push_back({7, 1});
    pos++;
    addPC(e, F[c.id].deps, F[c.id].linear);
    poolAssume(c.id, true);
    learn(c.id, true);
}

void check(Bool c, const char* label) {
    // checks inside the replayed prefix were discharged by the path that created this alternative
    auto& L = labels[label];
    bool replayed = pos < prefix.size();
    if (replayed) return;
    L.first++;
    S.checks++;
    bool v;
    if (fIsConst(c.id, v)) {
        if (v) { S.discharged++; S.trivial++; L.second++; return; }
        std::map<int, double> vals;
        if (!fullModel(nullptr, {}, true, true, vals, optCheckMs)) {
            // is the path feasible at all?
            if (lastFullModelUnsat) finishPath("infeasible", label);
            undecided(std::string("no model of the path on which the check fails: ") + label);
            return;
        }
        emit("{\"t\":\"viol\",\"label\":\"" + esc(label) + "\",\"k\":\"check\",\"model\":" + modelJson(vals) + "}");
        return;
    }
    Formula f = F[c.id];
    z3::expr neg = !f.e;
    Res r = query(neg, f.deps, f.linear, std::min(optCheckMs, 4000u));
    if (r == UNK && !poolFind(c.id, false)) r = query(neg, f.deps, f.linear, optCheckMs);
    if (r == UNSAT) { S.discharged++; L.second++; return; }
    if (r == UNK) {
        if (Sample* sm = poolFind(c.id, false)) { // the solver gave up, but this input fails: replayed natively
            emit("{\"t\":\"viol\",\"label\":\"" + esc(label) + "\",\"k\":\"check\",\"model\":" + modelJson(sm->vals) + "}");
            return;
        }
        undecided(std::string("check not decided in time: ") + label);
        return;
    }
    // several candidate counterexamples: with a wide margin first (robust against rounding in the replay)
    std::vector<std::string> models;
    std::vector<z3::expr> attempts;
    if (f.kind == 7) {
        z3::expr d = N[f.a].e - N[f.b].e;
        for (double k : {1e6, 1e3, 30.0}) { z3::expr t = constExpr(std::max(f.t, 1e-12) * k); attempts.push_back(d > t || -d > t); }
    } else if (f.kind == 1 || f.kind == 2) {
        for (double k : {0.1, 1e-3, 1e-6}) attempts.push_back(N[f.a].e - N[f.b].e > constExpr(k));
    }
    attempts.push_back(neg);
    for (auto& a : attempts) {
        if (query(a, f.deps, f.linear, 3000) != SAT && &a != &attempts.back()) continue;
        std::map<int, double> vals;
        if (fullModel(&a, f.deps, f.linear, true, vals, optCheckMs / 2)) models.push_back(modelJson(vals));
        std::map<int, double> vals2;
        if (&a == &attempts.back() && fullModel(&a, f.deps, f.linear, false, vals2, optCheckMs / 2)) models.push_back(modelJson(vals2));
        if (models.size() >= 3) break;
    }
    if (models.empty()) { undecided(std::string("counterexample without a model: ") + label); return; }
    std::string ms;
    for (size_t i = 1; i < models.size(); i++) ms += (i > 1 ? "," : "") + models[i];
    emit("{\"t\":\"viol\",\"label\":\"" + esc(label) + "\",\"k\":\"check\",\"model\":" + models[0] + ",\"more\":[" + ms + "]}");
}
void observe(const char* n, double v) { observed.push_back({n, v}); }
void observei(const char* n, int i, double v) { observed.push_back({std::string(n) + "_" + std::to_string(i), v}); }
void discard(const char* why) { finishPath("discard", why); }
std::string tmpdir() {
    if (scratch.empty()) {
        scratch = optTmp + "/p" + std::to_string(getpid());
        std::filesystem::create_directories(scratch);
    }
    return scratch;
}
void mkdirs(const std::string& p) { std::filesystem::create_directories(p); }
void writeFile(const std::string& p, const std::string& c) { std::ofstream o(p, std::ios::binary); o << c; }
std::string readFile(const std::string& p) { std::ifstream i(p, std::ios::binary); std::stringstream s; s << i.rdbuf(); return s.str(); }
bool exists(const std::string& p) { return std::filesystem::exists(p); }
std::string text(double v) {
    if (isBox(v)) return magicText(boxId(v));
    char b[64];
    snprintf(b, 64, "%.17g", v);
    return b;
}
Outcome guarded(void (*f)(void*), void* arg) {
    Outcome* o = new Outcome;
    Tee *to = new Tee(&o->out, &o->allOut), *te = new Tee(&o->err, &o->allErr);
    auto* bo = std::cout.rdbuf(to);
    auto* be = std::cerr.rdbuf(te);
    auto *so = cOut, *se = cErr;
    cOut = &o->allOut;
    cErr = &o->allErr;
    jmp_buf buf, *saved = exitTarget;
    exitTarget = &buf;
    if (setjmp(buf) == 0) {
        try { f(arg); } catch (const std::exception&) { o->threw = true; }
    } else {
        o->exited = true;
        o->status = exitStatus;
    }
    exitTarget = saved;
    std::cout.rdbuf(bo);
    std::cerr.rdbuf(be);
    cOut = so;
    cErr = se;
    return *o;
}
static SolverHook hook = nullptr;
static double hookError = 1;
void setSolverHook(SolverHook h) { hook = h; }
void setSolverError(double e) { hookError = e; }
void setClock(ClockHook h) { clockHook = h; }
static std::map<std::string, CaseFn>& reg() { static std::map<std::string, CaseFn> r; return r; }
Register::Register(const char* n, CaseFn f) { reg()[n] = f; }
} // namespace sx

extern "C" double sx_solver_error() { return sx::hookError; }
extern "C" int sx_solver_stub(int n, const double* A, const double* b, double* x) {
    if (!sx::hook) unsupported("linear solver reached without a harness hook");
    return sx::hook(n, A, b, x) ? 1 : 0;
}

// ====================================================================================== coordinator
struct Child { pid_t pid; int fd; std::string buf; };
int main(int argc, char** argv) {
    std::string list;
    for (int i = 1; i < argc; i++) {
        std::string a = argv[i];
        auto val = [&]() { return std::string(argv[++i]); };
        if (a == "--case") caseName = val();
        else if (a == "--jobs") optJobs = std::stoi(val());
        else if (a == "--tmp") optTmp = val();
        else if (a == "--timeout") optTotal = std::stod(val());
        else if (a == "--path-timeout") optPathSeconds = std::stoi(val());
        else if (a == "--branch-ms") optBranchMs = unsigned(std::stoi(val()));
        else if (a == "--check-ms") optCheckMs = unsigned(std::stoi(val()));
        else if (a == "--models") optModels = std::stoi(val());
        else if (a == "--max-paths") optMaxPaths = std::stoi(val());
        else if (a == "--cvc5") optCvc5 = val();
        else if (a == "--list") { for (auto& k : sx::reg()) std::cout << k.first << "\n"; return 0; }
    }
    if (!sx::reg().count(caseName)) { std::cerr << "no such case " << caseName << "\n"; return 2; }
    signal(SIGPIPE, SIG_IGN);
    // deepest-first work list, but every `spread`th pop takes the oldest item, so that exported models vary
    std::vector<std::string> work{""};
    std::vector<Child> run;
    long started = 0, ended = 0, modelled = 0;
    auto t0 = clk::now();
    bool stopped = false;
    while (!work.empty() || !run.empty()) {
        double el = std::chrono::duration<double>(clk::now() - t0).count();
        if (!stopped && (el > optTotal || started >= optMaxPaths) && !work.empty()) {
            stopped = true;
            std::cout << "{\"t\":\"undecided\",\"what\":\"exploration stopped at its bound with " << work.size() << " paths pending\"}\n";
            work.clear();
        }
        while (!stopped && (int) run.size() < optJobs && !work.empty()) {
            std::string p = work.back();
            work.pop_back();
            int fds[2];
            if (pipe(fds)) { perror("pipe"); return 2; }
            // models: all of the first ones, then every 8th, until the quota is used
            bool want = modelled < optModels && (started < optModels / 2 || started % 8 == 0);
            if (want) modelled++;
            pid_t pid = fork();
            if (pid == 0) {
                close(fds[0]);
                for (auto& r : run) close(r.fd);
                outFd = fds[1];
                int dn = open("/dev/null", O_RDWR);
                dup2(dn, 0); dup2(dn, 1); if (!getenv("SX_DEBUG")) dup2(dn, 2);
                wantModel = want ? 1 : 0;
                size_t k = 0;
                while (k < p.size()) {
                    size_t c = p.find(':', k), e = p.find(',', c);
                    prefix.push_back({std::stoi(p.substr(k, c - k)), std::stol(p.substr(c + 1, e - c - 1))});
                    k = e + 1;
                }
                struct rlimit rl = {6ull << 30, 6ull << 30};
                setrlimit(RLIMIT_AS, &rl);
                for (int s : {SIGSEGV, SIGABRT, SIGFPE, SIGILL, SIGBUS, SIGALRM}) signal(s, crashHandler);
                alarm(unsigned(optPathSeconds));
                C = new z3::context();
                try {
                    sx::reg()[caseName]();
                } catch (const z3::exception& e) {
                    undecided(std::string("z3: ") + e.msg());
                    finishPath("error", "z3 exception");
                } catch (const std::exception& e) {
                    std::map<int, double> vals;
                    std::string m = "{}";
                    if (fullModel(nullptr, {}, true, true, vals, 10000)) m = modelJson(vals);
                    emit("{\"t\":\"viol\",\"label\":\"crash:uncaught exception\",\"k\":\"crash\",\"model\":" + m + "}");
                    finishPath("exception", e.what());
                }
                finishPath("done", "");
            }
            close(fds[1]);
            run.push_back({pid, fds[0], ""});
            started++;
        }
        std::vector<pollfd> pf;
        for (auto& r : run) pf.push_back({r.fd, POLLIN, 0});
        if (pf.empty()) continue;
        poll(pf.data(), pf.size(), 1000);
        std::vector<Child> keep;
        for (size_t i = 0; i < run.size(); i++) {
            bool dead = false;
            if (pf[i].revents) {
                char b[65536];
                ssize_t k = read(run[i].fd, b, sizeof b);
                if (k > 0) {
                    run[i].buf.append(b, size_t(k));
                    size_t nl;
                    while ((nl = run[i].buf.find('\n')) != std::string::npos) {
                        std::string l = run[i].buf.substr(0, nl);
                        run[i].buf.erase(0, nl + 1);
                        if (l.rfind("{\"t\":\"alt\"", 0) == 0) {
                            size_t s = l.find("\"p\":\"") + 5, e = l.find('"', s);
                            if (!stopped) work.push_back(l.substr(s, e - s));
                            else std::cout << "{\"t\":\"undecided\",\"what\":\"alternative dropped at the bound\"}\n";
                        } else {
                            if (l.rfind("{\"t\":\"end\"", 0) == 0) ended++;
                            std::cout << l << "\n";
                            if (l.rfind("{\"t\":\"viol\"", 0) == 0) std::cout.flush(); // replayed at once
                        }
                    }
                } else dead = true;
            }
            if (dead) {
                int st = 0;
                waitpid(run[i].pid, &st, 0);
                close(run[i].fd);
                if (!WIFEXITED(st) || WEXITSTATUS(st) != 0)
                    std::cout << "{\"t\":\"undecided\",\"what\":\"path process died with status " << st << "\"}\n";
            } else keep.push_back(run[i]);
        }
        run.swap(keep);
        if (el > optTotal + 60) for (auto& r : run) kill(r.pid, SIGKILL);
    }
    std::cout << "{\"t\":\"summary\",\"paths\":" << started << ",\"ended\":" << ended << ",\"wall\":"
              << std::chrono::duration<double>(clk::now() - t0).count() << "}\n";
    return 0;
}
