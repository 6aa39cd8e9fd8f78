#include "common.hpp"
#include "mps_factory.hpp"
#include "pressure_calculator/dirichlet_boundary_condition_generator/free_surface.hpp"
#include "pressure_calculator/explicit.hpp"
#include "pressure_calculator/implicit.hpp"
#include "surface_detector/distribution.hpp"
#include <Eigen/LU>

namespace PC = PressureCalculator;
using Det = std::unique_ptr<SurfaceDetector::Interface>;

// ---------------------------------------------------------------- linear solver seam
static std::vector<double> hookX; // solution handed out by the last solve
static int hookCalls = 0;
static double hookBound = 1e6;
static bool solveHook(int n, const double* A, const double* b, double* x) {
    hookX.assign(size_t(n), 0.0);
    hookCalls++;
    for (int i = 0; i < n; i++) {
        bool unit = true; // a row that reads x_i = constant
        for (int j = 0; j < n; j++) unit = unit && (A[i * n + j] == (i == j ? 1.0 : 0.0));
        hookX[size_t(i)] = unit ? b[i] : symi(("sol" + std::to_string(hookCalls) + "_").c_str(), i, -hookBound, hookBound);
    }
    for (int i = 0; i < n; i++) {
        double s = 0;
        for (int j = 0; j < n; j++) s += A[i * n + j] * hookX[size_t(j)];
        bool unit = true;
        for (int j = 0; j < n; j++) unit = unit && (A[i * n + j] == (i == j ? 1.0 : 0.0));
        if (!unit) assume(eq(s, b[i]));
        x[i] = hookX[size_t(i)];
    }
    return true;
}
/// The reference system (dense, row major).  Symbolically: the solution handed to the code satisfies every reference
/// row; natively: solve the reference system.
static std::vector<double> reference(const std::vector<double>& A, const std::vector<double>& b, const char* label) {
    int n = int(b.size());
    if (symbolicMode()) {
        check(truth(int(hookX.size()) == n), "one unknown per particle");
        if (int(hookX.size()) != n) return std::vector<double>(size_t(n), 0.0);
        for (int i = 0; i < n; i++) {
            double s = -b[size_t(i)];
            for (int j = 0; j < n; j++) s += A[size_t(i * n + j)] * hookX[size_t(j)];
            check(close(s, 0.0, 1e-6), label);
        }
        return hookX;
    }
    Eigen::MatrixXd M(n, n);
    Eigen::VectorXd r(n);
    for (int i = 0; i < n; i++) { r[i] = b[size_t(i)]; for (int j = 0; j < n; j++) M(i, j) = A[size_t(i * n + j)]; }
    Eigen::VectorXd x = M.fullPivLu().solve(r);
    return std::vector<double>(x.data(), x.data() + n);
}

// ---------------------------------------------------------------- states
static const double P2[6][2] = {{2, 2}, {2.5, 2}, {2, 2.625}, {1.375, 2}, {2.25, 1.25}, {2.75, 2.75}};
struct State {
    int dim = 2;
    double l0 = 0.5, reN = 1.375, reL = 1.1875, dt = 0.0625, comp = 0.0, gamma = 0.25;
    double thr = 0.75; // number density threshold ratio
    Lattice N, L;
    Particles ps;
    void lat() { N = lattice(dim, l0, reN); L = lattice(dim, l0, reL); }
    std::unique_ptr<PC::Implicit> implicit(Det det) {
        return std::unique_ptr<PC::Implicit>(new PC::Implicit(dim, l0, reN, reL, dt, comp, gamma,
            std::unique_ptr<PC::DirichletBoundaryConditionGenerator::Interface>(new PC::DirichletBoundaryConditionGenerator::FreeSurface(std::move(det)))));
    }
    std::unique_ptr<PC::Implicit> implicit() { return implicit(Det(new SurfaceDetector::NumberDensity(thr, N.n0))); }
    void neighbors(double re = 1.875) {
        NeighborSearcher ns(re, box(-8, 8, -8, 8, -8, 8), size_t(ps.size()));
        ns.setNeighbors(ps);
    }
    bool inner(const Particle& p) const {
        if (p.type == VType::Ghost || p.type == VType::DummyWall) return false;
        return !decide(lt(p.numberDensity, thr * N.n0));
    }
    /// reference equation: sum_j a w_ij/rho_i (p_i - p_j) + c/dt^2 p_i = gamma/dt^2 (n_i-n0)/n0, p=0 on everything not inner
    void system(std::vector<double>& A, std::vector<double>& b) const {
        int n = ps.size();
        A.assign(size_t(n * n), 0.0);
        b.assign(size_t(n), 0.0);
        double a = 2.0 * dim / (L.n0 * L.lambda);
        for (int i = 0; i < n; i++) {
            const Particle& p = ps[size_t(i)];
            if (!inner(p)) { A[size_t(i * n + i)] = 1; continue; }
            double d = comp / (dt * dt);
            for (int j = 0; j < n; j++) {
                const Particle& q = ps[size_t(j)];
                if (j == i || q.type == VType::Ghost || q.type == VType::DummyWall) continue;
                double w = a * kernel(dist(p.position, q.position), reL) / p.density;
                A[size_t(i * n + j)] -= w;
                d += w;
            }
            A[size_t(i * n + i)] += d;
            b[size_t(i)] = gamma / (dt * dt) * ((p.numberDensity - N.n0) / N.n0);
        }
    }
};
static void compare(State& st, const std::vector<double>& pr, const char* label) {
    std::vector<double> A, b;
    st.system(A, b);
    std::vector<double> x = reference(A, b, label);
    check(truth(int(pr.size()) == st.ps.size()), "one pressure per particle");
    if (int(pr.size()) != st.ps.size()) return;
    for (int i = 0; i < st.ps.size(); i++) {
        check(close(pr[size_t(i)], dmax(x[size_t(i)], 0.0), 1e-4), label);
        check(le(0.0, pr[size_t(i)]), "pressure is never negative");
        if (!st.inner(st.ps[size_t(i)])) check(eq(pr[size_t(i)], 0.0), "pressure is zero on free surface, dummy and ghost particles");
        observei("p", i, pr[size_t(i)]);
    }
}
static void rows(State& st, bool walls = false) {
    const VType t[6] = {VType::Fluid, VType::Wall, walls ? VType::Wall : VType::Fluid, VType::Fluid, VType::DummyWall, VType::Ghost};
    static const double rho[6] = {1, 2, 0.5, 1, 1, 1};
    for (int i = 0; i < 6; i++) {
        addP(st.ps, t[i], Vec(P2[i][0], P2[i][1], 0), Vec::Zero(), rho[i], i % 3 - 1);
        st.ps[size_t(i)].numberDensity = i < 4 ? symi("n", i, 0, 20) : 10.0;
        st.ps[size_t(i)].boundaryCondition = i % 2 ? FluidState::Inner : FluidState::FreeSurface; // leftovers
    }
}
// source terms, coefficients and boundary values in a mixed cluster; compressibility and relaxation arbitrary
CASE(ppe_rows) {
    setSolverHook(solveHook);
    State st;
    st.comp = 0.001;
    st.gamma = sym("gamma", 0.0, 4);
    st.lat();
    rows(st, choice("walls", 2) == 1);
    st.neighbors();
    auto im = st.implicit();
    compare(st, im->calc(st.ps), "pressures solve the Poisson equation of the current state");
}
// a pair at an arbitrary distance, arbitrary densities
CASE(ppe_distance) {
    setSolverHook(solveHook);
    State st;
    st.comp = sym("comp", 0.0001, 0.01);
    st.lat();
    double d = sym("d", 0.25, 1.5);
    VType t1 = typeOf(choice("type1", 4));
    assume(!close(d, st.reL, 1e-6));
    addP(st.ps, typeOf(choice("type0", 2)), Vec(2, 2, 0), Vec::Zero(), sym("rho0", 0.5, 2));
    addP(st.ps, t1, Vec(2 + d, 2, 0), Vec::Zero(), 0.75, 1);
    st.ps[0].numberDensity = sym("n0", 12, 20);
    st.ps[1].numberDensity = 14;
    st.neighbors(4.0);
    auto im = st.implicit();
    compare(st, im->calc(st.ps), "the coupling of two particles depends on their distance, kind and density");
}
// a calculator used for one state is reused for the next one (more inner particles, other neighbours)
CASE(ppe_again) {
    setSolverHook(solveHook);
    State st;
    st.comp = 0.001;
    st.lat();
    rows(st);
    st.neighbors();
    auto im = st.implicit();
    im->calc(st.ps);
    st.ps[2].type = VType::Ghost;
    st.ps[0].position[0] += 0.125;
    st.ps[0].numberDensity = sym("m", 5, 20);
    st.neighbors();
    compare(st, im->calc(st.ps), "nothing of an earlier system enters the next one");
}
CASE(ppe_3d) {
    setSolverHook(solveHook);
    State st;
    st.dim = 3;
    st.comp = 0.001;
    st.reN = 1.0625; st.reL = 1.1875;
    st.lat();
    addP(st.ps, VType::Fluid, Vec(2, 2, 2), Vec::Zero(), 1);
    addP(st.ps, VType::Fluid, Vec(2.5, 2, 2.25), Vec::Zero(), 2);
    addP(st.ps, VType::Wall, Vec(2, 2.5, 1.5), Vec::Zero(), 1);
    addP(st.ps, VType::Fluid, Vec(2, 1.5, 2.5), Vec::Zero(), 1);
    for (auto& p : st.ps) p.numberDensity = symi("n", p.id, 0, 40);
    st.neighbors();
    auto im = st.implicit();
    compare(st, im->calc(st.ps), "the three-dimensional system uses the three-dimensional constants");
}
// the same in the units of water: density, compressibility and time step as documented, pressures of many atmospheres
CASE(ppe_water) {
    setSolverHook(solveHook);
    hookBound = 1e12;
    State st;
    st.comp = 0.45e-9;
    st.gamma = 0.2;
    st.dt = 0.0005;
    st.l0 = 0.0125;
    st.reN = 3.1 * st.l0;
    st.reL = 3.1 * st.l0;
    st.lat();
    static const double rho[4] = {1000, 1000, 680, 1.25};
    for (int i = 0; i < 4; i++) {
        addP(st.ps, i == 1 ? VType::Wall : VType::Fluid, Vec(P2[i][0], P2[i][1], 0) * (st.l0 / 0.5), Vec::Zero(), rho[i], i % 2);
        st.ps[size_t(i)].numberDensity = i < 2 ? symi("n", i, 0, 10 * st.N.n0) : st.N.n0 * (i == 3 ? 1.01 : 0.5);
    }
    st.neighbors(4 * st.l0);
    auto im = st.implicit();
    compare(st, im->calc(st.ps), "pressures solve the Poisson equation in documented units");
}
// the calculator only classifies particles: nothing else of them changes
CASE(ppe_pure) {
    setSolverHook(solveHook);
    State st;
    st.comp = 0.001;
    st.lat();
    rows(st);
    st.ps[0].velocity = symVec("v", -1, 1);
    st.neighbors();
    Particles before = st.ps;
    auto im = st.implicit();
    im->calc(st.ps);
    for (auto& p : st.ps) {
        const Particle& q = before[size_t(p.id)];
        check(truth(p.type == q.type && p.id == q.id && p.neighbors.size() == q.neighbors.size()), "calculating pressure changes no particle's kind or neighbours");
        check(sameV(p.position, q.position) && sameV(p.velocity, q.velocity) && sameV(p.acceleration, q.acceleration), "calculating pressure moves nothing");
        check(eq(p.numberDensity, q.numberDensity) && eq(p.density, q.density), "calculating pressure changes no density");
    }
}
// ghosts are invisible to the pressure of others
CASE(ppe_ghost) {
    setSolverHook(solveHook);
    State st;
    st.comp = 0.001;
    st.lat();
    rows(st);
    st.ps[5].position = symVec("g", 1.5, 2.5, false);
    st.ps[5].numberDensity = sym("gn", 0, 30);
    st.ps[5].density = sym("gr", 0.5, 5);
    st.neighbors();
    auto im = st.implicit();
    compare(st, im->calc(st.ps), "a ghost near fluid does not enter the pressure equation");
}
// a system without solution: the program must stop with a failure status instead of using the failed result
static int failAt = 0;
static bool failHook(int n, const double* A, const double* b, double* x) {
    if (failAt-- > 0) return solveHook(n, A, b, x);
    for (int i = 0; i < n; i++) x[i] = 1e30;
    return false;
}
CASE(solver_failure) {
    // the first, second or third solve of a calculator fails: a singular system natively (no free surface, no compressibility)
    int at = failAt = choice("at", 3);
    setSolverHook(failHook);
    State st;
    st.comp = 0;
    st.lat();
    st.thr = 10 / st.N.n0;
    addP(st.ps, VType::Fluid, Vec(2, 2, 0), Vec::Zero(), 1);
    addP(st.ps, VType::Wall, Vec(2.5, 2, 0), Vec::Zero(), 1);
    double n = sym("n", 15, 30);
    auto im = st.implicit();
    bool returned = false;
    for (int k = 0; k <= at; k++) {
        for (auto& p : st.ps) p.numberDensity = n;
        if (k < at) st.ps[1].numberDensity = 1; // a free surface particle: solvable
        st.neighbors();
        if (k < at) { im->calc(st.ps); continue; }
        Outcome o = guard([&] { im->calc(st.ps); returned = true; });
        check(truth(!returned), "a failed pressure solution is never used");
        check(truth(o.exited && o.status != 0), "a failed pressure solution ends the program with a failure status");
        check(truth(!o.err.empty()), "a failed pressure solution is reported");
    }
}

// failing within a hair of the solution: natively an ill-conditioned system of four particles
CASE(solver_nearly) {
    failAt = 0;
    setSolverHook(failHook);
    setSolverError(1e-9);
    State st;
    st.comp = 0x1p-53; // natively barely solvable: the relative error stays near 1e-10
    st.lat();
    st.thr = 10 / st.N.n0;
    static const double X[4][2] = {{2, 2}, {2.53125, 2.03125}, {2.09375, 2.5625}, {2.625, 2.5}};
    double n = sym("n", 15, 30);
    for (int i = 0; i < 4; i++) {
        addP(st.ps, i ? VType::Fluid : VType::Wall, Vec(X[i][0], X[i][1], 0), Vec::Zero(), 1);
        st.ps[size_t(i)].numberDensity = i % 2 ? n : 15 + i;
    }
    st.neighbors();
    auto im = st.implicit();
    bool returned = false;
    Outcome o = guard([&] { im->calc(st.ps); returned = true; });
    check(truth(!returned), "a pressure solution that did not converge is never used, however close");
    check(truth(o.exited && o.status != 0), "a pressure solution that did not converge ends the program with a failure status");
}

// ---------------------------------------------------------------- classification
CASE(surface_density) {
    setSolverHook(solveHook);
    State st;
    st.comp = 0.001;
    st.lat();
    st.thr = sym("threshold", 0.5, 1.25);
    for (int i = 0; i < 4; i++) {
        addP(st.ps, typeOf(i), Vec(-6.0 + 4 * i, 0, 0), Vec::Zero(), 1);
        st.ps[size_t(i)].numberDensity = symi("n", i, 0, 20);
        st.ps[size_t(i)].boundaryCondition = FluidState(choicei("stale", i, 2) * 3);
    }
    st.neighbors();
    auto im = st.implicit();
    std::vector<double> pr = im->calc(st.ps);
    for (auto& p : st.ps) {
        if (p.type == VType::Ghost || p.type == VType::DummyWall) check(truth(p.boundaryCondition == FluidState::Ignored), "ghost and dummy particles take no part in the pressure equation");
        else if (p.boundaryCondition == FluidState::FreeSurface) check(lt(p.numberDensity, st.thr * st.N.n0), "a free surface particle is below the number density threshold");
        else {
            check(truth(p.boundaryCondition == FluidState::Inner), "fluid and wall particles are either free surface or inner");
            check(le(st.thr * st.N.n0, p.numberDensity), "an inner particle is not below the number density threshold");
        }
    }
}
CASE(surface_distribution) {
    setSolverHook(solveHook);
    State st;
    st.comp = 0.001;
    st.lat();
    double ratio = 0.75;
    if (choice("threshold", 2)) st.thr = 1.5;
    addP(st.ps, typeOf(choice("type0", 2)), Vec(2, 2, 2), Vec::Zero(), 1, 0);
    int k = choice("neighbours", 3);
    if (k > 0) addP(st.ps, typeOf(choice("type1", 4)), Vec(2 + sym("ax", -0.75, 0.75), 2 + sym("ay", -0.75, 0.75), 2 + sym("az", -0.75, 0.75)), Vec::Zero(), 1, 1);
    if (k > 1) addP(st.ps, VType::Wall, Vec(1.5, 2.25, 1.875), Vec::Zero(), 1, -1);
    for (auto& p : st.ps) p.numberDensity = p.id == 0 ? sym("n", 0, 20) : 0.0;
    st.neighbors(4.0);
    Vec sum = Vec::Zero();
    int cnt = 0;
    for (auto& p : st.ps) if (p.id != 0 && p.type != VType::Ghost) { sum += p.position - st.ps[0].position; cnt++; }
    double lim = ratio * st.l0;
    for (int c = 0; c < 3; c++) assume(!close(dabs(sum[c]), lim, 1e-6));
    bool lopsided = cnt == 0 || decide(lt(lim, dabs(sum[0])) || lt(lim, dabs(sum[1])) || lt(lim, dabs(sum[2])));
    bool sparse = decide(lt(st.ps[0].numberDensity, st.thr * st.N.n0));
    PC::DirichletBoundaryConditionGenerator::FreeSurface gen(Det(new SurfaceDetector::Distribution(st.N.n0, st.l0, ratio, st.thr)));
    auto bc = gen.generate(st.ps);
    check(truth(bc.contains(0) == (st.ps[0].boundaryCondition != FluidState::Inner)), "exactly the particles that are not inner get a fixed pressure");
    bool surf = st.ps[0].boundaryCondition == FluidState::FreeSurface;
    check(truth(surf == (sparse && lopsided)), "with the distribution criterion a particle is free surface exactly if it is sparse and its neighbours are lopsided");
    observe("surf", surf);
}

// among many neighbours of all kinds
CASE(surface_crowd) {
    State st;
    st.dim = 3;
    st.lat();
    st.thr = 1.25;
    addP(st.ps, VType::Fluid, Vec(0, 0, 0), Vec::Zero(), 1, 0);
    for (int i = 0; i < 124; i++) {
        int k = i < 62 ? i : i + 1; // the lattice without its centre
        addP(st.ps, typeOf(i % 4), Vec(0.375 * (k % 5 - 2), 0.375 * (k / 5 % 5 - 2), 0.375 * (k / 25 - 2)), Vec::Zero(), 1, i % 3);
    }
    addP(st.ps, VType::Fluid, Vec(sym("ax", -0.4375, 0.4375), sym("ay", -0.4375, 0.4375), 0.1875), Vec::Zero(), 1, 1);
    for (auto& p : st.ps) p.numberDensity = p.id == 0 ? sym("n", 0, 20) : 0.0;
    st.neighbors(4.0);
    Vec sum = Vec::Zero();
    for (auto& p : st.ps) if (p.id != 0 && p.type != VType::Ghost) sum += p.position - st.ps[0].position;
    double ratio = 0.5, lim = ratio * st.l0;
    for (int c = 0; c < 3; c++) assume(!close(dabs(sum[c]), lim, 1e-6));
    bool lopsided = decide(lt(lim, dabs(sum[0])) || lt(lim, dabs(sum[1])) || lt(lim, dabs(sum[2])));
    bool sparse = decide(lt(st.ps[0].numberDensity, st.thr * st.N.n0));
    SurfaceDetector::Distribution d(st.N.n0, st.l0, ratio, st.thr);
    bool surf = d.isFreeSurface(st.ps, st.ps[0]);
    check(truth(surf == (sparse && lopsided)), "the distribution criterion counts all neighbours");
    observe("surf", surf);
}

// ---------------------------------------------------------------- explicit equation of state
CASE(explicit_eos) {
    int dim = 2 + choice("dim", 2);
    double c = sym("c", 1, 50), l0 = 0.5, re = choice("re", 2) ? 1.5625 : 1.0625;
    PC::Explicit ex(re, c, dim, l0);
    Lattice L = lattice(dim, l0, re);
    Particles ps;
    int k = choice("type", 4);
    addP(ps, typeOf(k), Vec::Zero(), Vec::Zero(), sym("rho", 0.001, 2000));
    addP(ps, typeOf(1), Vec(1, 0, 0), Vec::Zero(), 1000);
    ps[0].numberDensity = sym("n", 0, 100 * L.n0);
    ps[1].numberDensity = 2 * L.n0;
    ps[0].pressure = ps[1].pressure = 5; // leftovers
    // neither the surface state nor the fluid type matters
    static const FluidState states[3] = {FluidState::Inner, FluidState::FreeSurface, FluidState::Ignored};
    int m = choice("state", 3);
    ps[0].boundaryCondition = states[m];
    ps[0].fluidType = m - 1;
    ps[1].boundaryCondition = states[2 - m];
    assume(!close(ps[0].numberDensity, L.n0, 1e-6));
    auto pr = ex.calc(ps);
    check(truth(pr.size() == 2), "one pressure per particle");
    double n = ps[0].numberDensity, rho = ps[0].density;
    double e = k == 3 ? 0.0 : ite(lt(L.n0, n), c * c * rho * (n - L.n0) / L.n0, 0.0);
    check(close(pr[0], e, 1e-2), "explicit pressure follows the linear equation of state");
    check(le(0.0, pr[0]), "explicit pressure is never negative");
    check(close(pr[1], c * c * 1000.0, 1e-4), "every particle gets its own explicit pressure");
    if (decide(le(n, L.n0))) check(eq(pr[0], 0.0), "no explicit pressure at or below the reference density");
    observe("p", pr[0]);
}
// in a whole step
CASE(explicit_step) {
    Settings s = baseSettings(2);
    s.pressureCalculationMethod = "Explicit";
    s.soundSpeed = 8;
    s.dt = 0.001953125;
    s.reMax = 1.875;
    s.re_forNumberDensity = 1.0625;
    Particles ps;
    for (int i = 0; i < 5; i++) addP(ps, i == 4 ? VType::DummyWall : i == 2 ? VType::Wall : VType::Fluid, Vec(P2[i][0], P2[i][1], 0), Vec::Zero(), i == 1 ? 500 : 1000);
    // crowd particle 0
    addP(ps, VType::Wall, Vec(sym("x", 1.9375, 2.0625), 1.875, 0), Vec::Zero());
    Input in;
    in.settings = s;
    in.settings.gravity = Vec(0, 0, 0);
    in.particles = ps;
    MPS mps = MPSFactory::create(in);
    mps.stepForward();
    Lattice L = lattice(2, s.particleDistance, s.re_forNumberDensity);
    for (auto& p : mps.particles) {
        double n = 0;
        for (auto& q : ps) if (q.id != p.id && q.type != VType::Ghost) n += kernel(dist(ps[size_t(p.id)].position, q.position), s.re_forNumberDensity);
        double e = s.soundSpeed * s.soundSpeed * p.density * dmax((n - L.n0) / L.n0, 0.0);
        check(close(p.pressure, e, 1e-5), "the pressure stored after an explicit step follows the density of that step");
        observei("p", p.id, p.pressure);
    }
}

// ---------------------------------------------------------------- wiring of the configured solver
static Input wired(Settings& s, int n) {
    Input in;
    s.dt = 0.03125;
    s.reMax = 1.875;
    s.re_forNumberDensity = 1.375;
    s.re_forLaplacian = 1.1875;
    s.re_forGradient = 0.8125;
    s.compressibility = 0.0009765625;
    s.relaxationCoefficientForPressure = 0.25;
    static const double rho[6] = {1, 2, 0.5, 1, 1, 1};
    for (int i = 0; i < n; i++)
        addP(in.particles, i == 1 ? VType::Wall : i == 4 ? VType::DummyWall : VType::Fluid, Vec(P2[i][0], P2[i][1], 0), Vec::Zero(), rho[i]);
    in.settings = s;
    return in;
}
CASE(wired_implicit) {
    setSolverHook(solveHook);
    Settings s = baseSettings(2);
    s.surfaceDetection_numberDensity_threshold = sym("threshold", 0.01, 3);
    s.surfaceDetection_particleDistribution = false;
    Input in = wired(s, 5);
    in.settings.relaxationCoefficientForPressure = s.relaxationCoefficientForPressure = sym("gamma", 0.0625, 2);
    State st;
    st.reN = s.re_forNumberDensity; st.reL = s.re_forLaplacian; st.dt = s.dt; st.comp = s.compressibility; st.gamma = s.relaxationCoefficientForPressure;
    st.thr = s.surfaceDetection_numberDensity_threshold;
    st.l0 = s.particleDistance;
    st.lat();
    st.ps = in.particles;
    for (auto& p : st.ps) {
        p.numberDensity = 0;
        for (auto& q : st.ps) if (q.id != p.id) p.numberDensity += kernel(dist(p.position, q.position), st.reN);
    }
    for (auto& p : st.ps) if (p.type == VType::Fluid || p.type == VType::Wall) assume(!close(p.numberDensity, st.thr * st.N.n0, 1e-6));
    for (auto& p : st.ps) st.inner(p); // fork before the step
    MPS mps = MPSFactory::create(in);
    mps.stepForward();
    std::vector<double> pr;
    for (auto& p : mps.particles) pr.push_back(p.pressure);
    compare(st, pr, "a configured implicit step solves the Poisson equation with the configured constants");
    for (auto& p : mps.particles)
        if (p.type != VType::DummyWall)
            check(truth((p.boundaryCondition == FluidState::Inner) == st.inner(st.ps[size_t(p.id)])), "the configured threshold decides the free surface");
}
CASE(wired_distribution) {
    setSolverHook(solveHook);
    Settings s = baseSettings(2);
    s.surfaceDetection_numberDensity_threshold = choice("dense", 2) ? 0.015625 : 2;
    s.surfaceDetection_particleDistribution = true;
    s.surfaceDetection_particleDistribution_threshold = sym("ratio", 0.25, 4);
    Input in = wired(s, 4);
    MPS mps = MPSFactory::create(in);
    mps.stepForward();
    for (int i = 0; i < 4; i++) {
        Vec sum = Vec::Zero();
        for (int j = 0; j < 4; j++) sum += in.particles[size_t(j)].position - in.particles[size_t(i)].position;
        double m = dmax(dmax(dabs(sum[0]), dabs(sum[1])), dabs(sum[2]));
        assume(!close(m, s.surfaceDetection_particleDistribution_threshold * s.particleDistance, 1e-9));
        bool lop = decide(lt(s.surfaceDetection_particleDistribution_threshold * s.particleDistance, m));
        bool surf = mps.particles[size_t(i)].boundaryCondition == FluidState::FreeSurface;
        check(truth(surf == (s.surfaceDetection_numberDensity_threshold > 1 && lop)), "the configured distribution threshold decides the free surface");
    }
}
CASE(wired_gravity) {
    Settings s = baseSettings(2);
    s.pressureCalculationMethod = "Explicit";
    s.xyzInput = choice("xyz", 2) == 1;
    s.gravity = symVec("g", -10, 10);
    double kg = sym("norm", 0, 20);
    s.gNorm = kg;
    static const double ang[5] = {0, 90, -90, 180, 30};
    int k = choice("angle", 5);
    s.gAngle = ang[k];
    s.reMax = 4;
    Input in;
    in.settings = s;
    addP(in.particles, VType::Fluid, Vec(2, 2, 2), Vec::Zero());
    MPS mps = MPSFactory::create(in);
    mps.stepForward();
    static const double sn[5] = {0, 1, -1, 0, 0.5}, cs[5] = {1, 0, 0, -1, 0.86602540378443865};
    Vec e = s.xyzInput ? s.gravity : Vec(kg * sn[k], -kg * cs[k], 0);
    check(closeV(mps.particles[0].velocity, e * s.dt, 1e-9), s.xyzInput ? "gravity given by components acts as given" : "gravity given by norm and angle is measured from straight down");
    observeV("v", mps.particles[0].velocity);
}
CASE(wired_gravity_angle) {
    Settings s = baseSettings(2);
    s.pressureCalculationMethod = "Explicit";
    s.xyzInput = false;
    s.gNorm = 8;
    s.gAngle = sym("angle", -80, 80);
    s.reMax = 4;
    Input in;
    in.settings = s;
    addP(in.particles, VType::Fluid, Vec(2, 2, 2), Vec::Zero());
    MPS mps = MPSFactory::create(in);
    mps.stepForward();
    Vec g = mps.particles[0].velocity / s.dt;
    check(close(g[0] * g[0] + g[1] * g[1], 64, 1e-6) && eq(g[2], 0.0), "gravity has the configured norm and lies in the plane");
    check(lt(g[1], 0.0), "angles below a right angle point down");
    double th = s.gAngle * 3.14159265358979323846 / 180.0;
    check(close(g[0], 8 * std::sin(th), 1e-7) && close(g[1], -8 * std::cos(th), 1e-7), "the angle is measured in degrees from straight down towards +x");
    observeV("g", g);
}
CASE(wired_method) {
    static const char* names[12] = {"Implicit", "Explicit", "implicit", "", "EXPLICIT", "SemiImplicit", "ImplicitX", "Explicit2", "Im", "Expl", "I", "explicit"};
    int k = choice("name", 12);
    Settings s = baseSettings(2);
    s.soundSpeed = sym("c", 1, 50);
    s.pressureCalculationMethod = names[k];
    s.reMax = 1.875;
    Input in;
    addP(in.particles, VType::Fluid, Vec(2, 2, 0), Vec::Zero());
    addP(in.particles, VType::Fluid, Vec(2.03125, 2, 0), Vec::Zero());
    in.settings = s;
    bool stepped = false;
    double p = 0;
    hookBound = 1e12;
    setSolverHook(solveHook);
    Outcome o = guard([&] {
        MPS mps = MPSFactory::create(in);
        mps.stepForward();
        stepped = true;
        p = mps.particles[0].pressure;
    });
    if (k < 2) {
        check(truth(stepped && !o.exited), "both documented pressure methods run");
        if (k == 1) {
            Lattice L = lattice(2, s.particleDistance, s.re_forNumberDensity);
            double n = s.re_forNumberDensity / 0.03125 - 1.0;
            check(close(p, s.soundSpeed * s.soundSpeed * 1000 * (n - L.n0) / L.n0, 1e-4), "the configured method calculates the pressure");
        }
    } else {
        check(truth(!stepped && o.exited && o.status != 0), "an unknown pressure method is refused with a failure status");
        check(truth(!o.err.empty()), "an unknown pressure method is reported");
    }
}
