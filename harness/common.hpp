#pragma once
#include "harness.hpp"
#include "input.hpp"
#include "mps.hpp"
#include "particles.hpp"
#include "pressure_calculator/interface.hpp"
#include "surface_detector/interface.hpp"
#include "surface_detector/number_density.hpp"
#include "refvalues.hpp"
#include "weight.hpp"
#include <cmath>
#include <cstdlib>
#include <functional>
#include <memory>
#include <vector>

using Vec = Eigen::Vector3d;
using VType = ParticleType;

inline bool thorough() {
    const char* t = std::getenv("SX_TIER");
    return t && std::string(t) == "thorough";
}

// ---------------------------------------------------------------- configuration used by the physics harnesses
inline Domain box(double xmin, double xmax, double ymin, double ymax, double zmin, double zmax) {
    Domain d{};
    d.xMin = xmin; d.xMax = xmax; d.yMin = ymin; d.yMax = ymax; d.zMin = zmin; d.zMax = zmax;
    d.xLength = xmax - xmin; d.yLength = ymax - ymin; d.zLength = zmax - zmin;
    return d;
}
inline Settings baseSettings(int dim) {
    Settings s;
    s.dim = dim;
    s.particleDistance = 0.5;
    s.dt = 0.0625;
    s.endTime = 1;
    s.outputPeriod = 0.25;
    s.cflCondition = 1e9;
    s.numPhysicalCores = 1;
    s.domain = box(-8, 8, -8, 8, -8, 8);
    s.kinematicViscosity = 0;
    s.defaultDensity = 870;
    s.xyzInput = true;
    s.gravity = Vec::Zero();
    s.gNorm = 0;
    s.gAngle = 0;
    s.surfaceDetection_numberDensity_threshold = 0.97;
    s.surfaceDetection_particleDistribution = false;
    s.surfaceDetection_particleDistribution_threshold = 0.85;
    s.pressureCalculationMethod = "Implicit";
    s.compressibility = 0.45e-9;
    s.relaxationCoefficientForPressure = 0.2;
    s.soundSpeed = 10;
    s.collisionDistance = 0;
    s.coefficientOfRestitution = 0.25;
    s.re_forNumberDensity = 1.5;
    s.re_forGradient = 1.5;
    s.re_forLaplacian = 1.5;
    s.reMax = 1.5;
    s.outputVtkInBinary = false;
    return s;
}

// ---------------------------------------------------------------- independent reference formulas
struct Lattice { double n0 = 0, lambda = 0; };
/// lattice sums over every lattice point within re (brute force, any range)
inline Lattice lattice(int dim, double l0, double re) {
    Lattice r;
    int k = int(re / l0) + 2;
    for (int x = -k; x <= k; x++)
        for (int y = -k; y <= k; y++)
            for (int z = dim == 2 ? 0 : -k; z <= (dim == 2 ? 0 : k); z++) {
                if (!x && !y && !z) continue;
                double d2 = (x * l0) * (x * l0) + (y * l0) * (y * l0) + (z * l0) * (z * l0);
                double d = std::sqrt(d2);
                if (d >= re) continue;
                double w = re / d - 1.0;
                r.n0 += w;
                r.lambda += d2 * w;
            }
    r.lambda /= r.n0;
    return r;
}
inline double dist(const Vec& a, const Vec& b) {
    double dx = b[0] - a[0], dy = b[1] - a[1], dz = b[2] - a[2];
    return std::sqrt(dx * dx + dy * dy + dz * dz);
}
/// kernel value; forks on the cutoff
inline double kernel(double d, double re) { return decide(lt(d, re)) ? re / d - 1.0 : 0.0; }

// ---------------------------------------------------------------- building a solver
struct Probe : PressureCalculator::Interface {
    std::function<std::vector<double>(Particles&)> f;
    int calls = 0;
    std::vector<double> calc(Particles& ps) override {
        calls++;
        if (f) return f(ps);
        return std::vector<double>(size_t(ps.size()), 0.0);
    }
};
inline MPS makeMps(const Settings& s, const Particles& ps, Vec g, std::function<std::vector<double>(Particles&)> f = nullptr) {
    Input in;
    in.settings = s;
    in.particles = ps;
    auto* p = new Probe;
    p->f = std::move(f);
    std::unique_ptr<SurfaceDetector::Interface> det(new SurfaceDetector::NumberDensity(0.97, 1.0));
    return MPS(in, g, std::unique_ptr<PressureCalculator::Interface>(p), std::move(det));
}
inline void addP(Particles& ps, VType t, const Vec& x, const Vec& v, double rho = 1000, int fluidType = 0) {
    ps.add(Particle(ps.size(), t, x, v, rho, fluidType));
}
inline VType typeOf(int k) {
    static const VType t[4] = {VType::Fluid, VType::Wall, VType::DummyWall, VType::Ghost};
    return t[k];
}
inline std::string nm(const char* b, int i, const char* c = "") { return std::string(b) + std::to_string(i) + c; }
inline Vec symVec(const std::string& n, double lo, double hi, bool z = true) {
    Vec v;
    v[0] = sym((n + "x").c_str(), lo, hi);
    v[1] = sym((n + "y").c_str(), lo, hi);
    v[2] = z ? sym((n + "z").c_str(), lo, hi) : 0.0;
    return v;
}
inline Bool closeV(const Vec& a, const Vec& b, double tol) {
    return close(a[0], b[0], tol) && close(a[1], b[1], tol) && close(a[2], b[2], tol);
}
inline Bool sameV(const Vec& a, const Vec& b) { return eq(a[0], b[0]) && eq(a[1], b[1]) && eq(a[2], b[2]); }
inline void observeV(const std::string& n, const Vec& v) {
    for (int k = 0; k < 3; k++) observei(n.c_str(), k, v[k]);
}

// ---------------------------------------------------------------- cut points of a time step
struct Stop {};
/// run one step and end it where pressure is calculated; `f` sees the state at that point
template <class F> inline void untilPressure(const Settings& s, const Particles& ps, Vec g, F f) {
    bool reached = false;
    MPS mps = makeMps(s, ps, g, [&](Particles& q) -> std::vector<double> {
        reached = true;
        f(q);
        throw Stop();
    });
    try { mps.stepForward(); } catch (const Stop&) {}
    check(truth(reached), "the step reaches its pressure calculation");
}
