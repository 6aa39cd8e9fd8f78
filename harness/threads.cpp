// Built with clang -fopenmp -fsanitize=thread (symbolic and native); engine/omp.cpp runs the threads of every parallel
// loop and records which thread touches which memory.
#include "common.hpp"
#include "mps_factory.hpp"
#include "omp_api.hpp"

static const char* RACE = "no two threads of a parallel loop touch the same memory with one of them writing";
static const char* SAME = "the result does not depend on the number and order of threads";
static const int MANY = 62;

static std::vector<double> systems; // every pressure system that reached the linear solver (symbolic build)
static bool solveHook(int n, const double* A, const double* b, double* x) {
    systems.insert(systems.end(), A, A + n * n);
    systems.insert(systems.end(), b, b + n);
    for (int i = 0; i < n; i++) x[i] = 10.0 + i;
    return true;
}
static Settings busy() {
    Settings s = baseSettings(2);
    s.domain = box(0, 4, 0, 4, -1, 1);
    s.dt = 0.0078125;
    s.kinematicViscosity = 0.25;
    s.collisionDistance = 0.375;
    s.reMax = 1.5;
    s.re_forGradient = 1.25;
    s.re_forNumberDensity = 1.375;
    s.soundSpeed = 8;
    s.gravity = Vec(0.5, -8, 0);
    return s;
}
static void crowd(Particles& ps, bool symbolic) {
    static const VType t[7] = {VType::Fluid, VType::Fluid, VType::Wall, VType::Fluid, VType::DummyWall, VType::Ghost, VType::Fluid};
    static const double x[7][2] = {{2, 2}, {2.5, 2}, {2, 1.5}, {2.5, 2.5}, {2, 1}, {2.25, 2.25}, {3.5, 3.5}};
    for (int i = 0; i < 7; i++) {
        Vec p(x[i][0], x[i][1], 0), v(0.25 * i, 0, 0);
        if (symbolic && i == 1) p[0] = sym("x", 2.25, 2.75);
        if (symbolic && i == 6) v[0] = sym("u", 0, 128); // may leave the domain
        if (t[i] != VType::Fluid) v.setZero();
        addP(ps, t[i], p, v, 1000);
    }
}
static void sameParticles(const Particles& a, const Particles& b) {
    check(truth(a.size() == b.size()), SAME);
    if (a.size() != b.size()) return;
    for (int i = 0; i < a.size(); i++) {
        const Particle &p = a[size_t(i)], &q = b[size_t(i)];
        check(truth(p.type == q.type && p.id == q.id && p.boundaryCondition == q.boundaryCondition), SAME);
        check(closeV(p.position, q.position, 1e-9) && closeV(p.velocity, q.velocity, 1e-9), SAME);
        check(close(p.pressure, q.pressure, 1e-6) && close(p.numberDensity, q.numberDensity, 1e-9), SAME);
        check(truth(p.neighbors.size() == q.neighbors.size()), SAME);
    }
}
static void steps(const Settings& s, const Particles& ps, int n) {
    auto run = [&](int threads, bool reverse) {
        ompConfig(threads, reverse);
        systems.clear();
        Input in;
        in.settings = s;
        in.particles = ps;
        MPS m = MPSFactory::create(in);
        for (int k = 0; k < n; k++) m.stepForward();
        return m.particles;
    };
    setSolverHook(solveHook);
    Particles c = run(MANY, choice("reverse", 2) == 1);
    check(truth(ompRaces() == 0), RACE);
    check(truth(ompRegions() > 0), "the parallel loops ran as such");
    std::vector<double> sc = systems;
    Particles a = run(1, false);
    std::vector<double> sa = systems;
    sameParticles(c, a);
    Particles b = run(3, false); // several iterations per thread
    check(truth(ompRaces() == 0), RACE);
    sameParticles(b, a);
    check(truth(sa.size() == sc.size() && sa.size() == systems.size()), SAME);
    if (sa.size() != sc.size() || sa.size() != systems.size()) return;
    for (size_t i = 0; i < sa.size(); i++) check(close(sa[i], sc[i], 1e-9) && close(sa[i], systems[i], 1e-9), SAME);
    for (auto& p : c) observei("x", p.id, p.position[0]);
}
CASE(threads_explicit) {
    Settings s = busy();
    s.pressureCalculationMethod = "Explicit";
    Particles ps;
    crowd(ps, true);
    steps(s, ps, 1 + int(thorough()));
}
CASE(threads_implicit) {
    Settings s = busy();
    s.pressureCalculationMethod = "Implicit";
    s.surfaceDetection_particleDistribution = choice("distribution", 2) == 1;
    s.surfaceDetection_numberDensity_threshold = 0.25;
    s.compressibility = 0.001;
    if (choice("still", 2)) s.kinematicViscosity = s.collisionDistance = 0; // closed-form positions: fast to decide
    else s.surfaceDetection_particleDistribution = false;
    Particles ps;
    crowd(ps, true);
    ps[6].velocity[0] = 0;
    steps(s, ps, 1);
}
// consecutive steps with everything fixed but one velocity
CASE(threads_steps) {
    Settings s = busy();
    s.pressureCalculationMethod = choice("method", 2) ? "Explicit" : "Implicit";
    s.surfaceDetection_numberDensity_threshold = 0.25;
    s.kinematicViscosity = 0;
    Particles ps;
    crowd(ps, false);
    ps[6].velocity[0] = sym("u", 16, 256);
    steps(s, ps, 3);
}
// a row of touching particles, each colliding with two others
CASE(threads_collision) {
    Settings s = busy();
    s.pressureCalculationMethod = "Explicit";
    s.kinematicViscosity = 0;
    s.collisionDistance = 0.625;
    s.gravity = Vec(0, 0, 0);
    Particles ps;
    for (int i = 0; i < 4; i++)
        addP(ps, i == 3 ? typeOf(choice("type3", 3)) : VType::Fluid, Vec(1.5 + 0.5 * i, 2, 0), Vec(i == 3 ? 0 : i == 1 ? sym("u", -4, 4) : 0.5 - 0.5 * i, 0, 0), 1000);
    steps(s, ps, 1);
}
// search alone: any positions, several particles to a bucket, particles at and beyond the border
CASE(threads_search) {
    Domain d = box(0, 3, 0, 2, 0, 1);
    Particles ps;
    bool more = thorough();
    for (int i = 0; i < 3; i++) addP(ps, typeOf(i), Vec(i < 2 || more ? symi("x", i, 0, 2.875) : 1.5, 0.25 + 0.25 * i, 0.5), Vec::Zero());
    addP(ps, typeOf(3 * choice("type3", 2)), Vec(0.75, 1, 0.5), Vec::Zero());
    addP(ps, VType::Fluid, Vec(2, 1, 0.5), Vec::Zero());
    addP(ps, VType::Fluid, Vec(2.25, 1, 0.5), Vec::Zero());
    auto run = [&](int threads, bool reverse) {
        ompConfig(threads, reverse);
        Particles q = ps;
        NeighborSearcher ns(0.75, d, size_t(q.size()));
        ns.setNeighbors(q);
        ns.setNeighbors(q);
        return q;
    };
    Particles c = run(MANY, choice("reverse", 2) == 1);
    check(truth(ompRaces() == 0), RACE);
    sameParticles(c, run(1, false));
}
