#include "common.hpp"
#include "pressure_calculator/explicit.hpp"
#include <sstream>

/// the two radii not under study: both larger, both smaller, or one of each
static void radii(double& a, double& b, double small, double large) {
    int k = choice("radii", 4);
    a = k & 1 ? small : large;
    b = k & 2 ? small : large;
}

/// attributes that no law mentions: they must not matter
static void vary(Particle& p) {
    static const FluidState st[5] = {FluidState::Splash, FluidState::FreeSurface, FluidState::Inner, FluidState::SubFreeSurface, FluidState::Ignored};
    p.boundaryCondition = st[p.id % 5];
    p.sourceTerm = 3 - p.id;
}

// =================================================================== gravity and advection
// one fluid particle and a distant second particle of any type
CASE(free_flight) {
    Settings s = baseSettings(2 + choice("dim", 2));
    s.dt = sym("dt", 0.00001, 1);
    s.domain = box(-4096, 4096, -4096, 4096, -4096, 4096);
    s.reMax = 8192;
    Vec g = symVec("g", -100, 100);
    Particles ps;
    Vec x0 = symVec("x", 0.5, 1000), v0 = symVec("v", -1000, 1000);
    double rho = sym("rho", 1, 20000);
    addP(ps, VType::Fluid, x0, v0, rho);
    VType t1 = typeOf(choice("type1", 4));
    Vec x1 = symVec("y", -1000, -5), v1 = symVec("w", -1000, 1000);
    addP(ps, t1, x1, v1);
    untilPressure(s, ps, g, [&](Particles& q) {
        Vec ve = v0 + g * s.dt, xe = x0 + ve * s.dt;
        check(closeV(q[0].velocity, ve, 1e-9), "velocity of a free fluid particle grows by gravity times dt");
        check(closeV(q[0].position, xe, 1e-9), "a free fluid particle moves by its new velocity times dt");
        if (t1 == VType::Fluid) {
            Vec we = v1 + g * s.dt, ye = x1 + we * s.dt;
            check(closeV(q[1].velocity, we, 1e-9), "every fluid particle feels the same gravity");
            check(closeV(q[1].position, ye, 1e-9), "every fluid particle is advected with its own velocity");
        }
        observeV("x", q[0].position);
        observeV("v", q[0].velocity);
    });
}
// three consecutive steps of a lone fluid particle: no force accumulates or gets lost between steps
CASE(free_flight_steps) {
    Settings s = baseSettings(3);
    s.reMax = 4;
    s.dt = 0.0625;
    Vec g = symVec("g", -10, 10);
    Particles ps;
    Vec x0 = symVec("x", 1, 3), v0 = symVec("v", 0.25, 2);
    addP(ps, VType::Fluid, x0, v0);
    MPS mps = makeMps(s, ps, g);
    Vec v = v0, x = x0;
    for (int k = 0; k < 3; k++) {
        mps.stepForward();
        v += g * s.dt;
        x += v * s.dt;
        check(closeV(mps.particles[0].velocity, v, 1e-9), "velocity after each of several steps");
        check(closeV(mps.particles[0].position, x, 1e-9), "position after each of several steps");
    }
    observeV("x", mps.particles[0].position);
}

// =================================================================== viscosity
CASE(viscosity_pair) {
    Settings s = baseSettings(2);
    s.kinematicViscosity = sym("nu", 0, 4);
    s.re_forLaplacian = 1.5;
    s.reMax = 4;
    radii(s.re_forNumberDensity, s.re_forGradient, 0.875, 4);
    Vec g(0, 0, 0);
    Particles ps;
    Vec x0(2, 2, 0), d = symVec("d", -1.75, 1.75, false);
    assume(le(0.25, d[0]) || le(d[0], -0.25));
    Vec v0 = symVec("v", -2, 2, false), v1 = symVec("w", -2, 2, false);
    VType t1 = typeOf(choice("type1", 4));
    addP(ps, VType::Fluid, x0, v0, 1000, 0);
    addP(ps, t1, x0 + d, v1, 800, 1);
    for (auto& p : ps) vary(p);
    Lattice L = lattice(2, s.particleDistance, s.re_forLaplacian);
    double a = s.kinematicViscosity * (2.0 * 2) / (L.n0 * L.lambda);
    Vec e0 = v0, e1 = v1;
    if (t1 != VType::Ghost) {
        double w = kernel(dist(x0, x0 + d), s.re_forLaplacian);
        e0 += a * (v1 - v0) * w * s.dt;
        if (t1 == VType::Fluid) e1 += a * (v0 - v1) * w * s.dt;
    }
    untilPressure(s, ps, g, [&](Particles& q) {
        Vec r0 = q[0].velocity, r1 = q[1].velocity;
        check(closeV(r0, e0, 1e-9), "viscous velocity change of a fluid particle");
        check(closeV(r1, e1, 1e-9), "viscous velocity change of its neighbour");
        if (t1 == VType::Fluid) check(closeV(r0 + r1, v0 + v1, 1e-9), "viscosity conserves the momentum of a fluid pair");
        observeV("v0", r0);
        observeV("v1", r1);
    });
}
// cluster of mixed particles at fixed places, all velocities and the viscosity arbitrary
static void cluster(Particles& ps, std::vector<Vec>& v, int dim, bool symV) {
    static const double p3[6][3] = {{2, 2, 2}, {2.5, 2, 2}, {2, 2.5, 2.25}, {1.375, 2, 1.75}, {2.25, 1.25, 2}, {2, 2, 3.125}};
    static const double p2[6][3] = {{2, 2, 0}, {2.5, 2, 0}, {2, 2.625, 0}, {1.375, 2, 0}, {2.25, 1.25, 0}, {2.75, 2.75, 0}};
    static const VType t[6] = {VType::Fluid, VType::Fluid, VType::Wall, VType::DummyWall, VType::Fluid, VType::Ghost};
    for (int i = 0; i < 6; i++) {
        const double* p = dim == 2 ? p2[i] : p3[i];
        Vec u = symV ? symVec(nm("v", i), -0.5, 0.5, dim == 3) : Vec(Vec::Zero());
        v.push_back(u);
        addP(ps, t[i], Vec(p[0], p[1], p[2]), u, 1000, i % 3 - 1);
        vary(ps[size_t(i)]);
    }
}
static void viscosityCluster(int dim) {
    Settings s = baseSettings(dim);
    s.dt = 0.0009765625;
    double nu = sym("nu", 0, 0.5);
    s.kinematicViscosity = nu;
    s.re_forLaplacian = 1.1875;
    s.reMax = 1.875;
    radii(s.re_forNumberDensity, s.re_forGradient, 0.9375, 1.875);
    s.particleDistance = 0.5;
    Particles ps;
    std::vector<Vec> v;
    cluster(ps, v, dim, true);
    Lattice L = lattice(dim, s.particleDistance, s.re_forLaplacian);
    double a = nu * (2.0 * dim) / (L.n0 * L.lambda);
    std::vector<Vec> e = v;
    for (int i = 0; i < 6; i++) {
        if (ps[size_t(i)].type != VType::Fluid) continue;
        for (int j = 0; j < 6; j++) {
            if (i == j || ps[size_t(j)].type == VType::Ghost) continue;
            double w = kernel(dist(ps[size_t(i)].position, ps[size_t(j)].position), s.re_forLaplacian);
            e[size_t(i)] += a * (v[size_t(j)] - v[size_t(i)]) * w * s.dt;
        }
    }
    bool uniform = choice("uniform", 2) == 1;
    if (uniform) {
        Particles us;
        for (auto& p : ps) addP(us, p.type, p.position, v[0], 1000);
        untilPressure(s, us, Vec::Zero(), [&](Particles& q) {
            for (int i = 0; i < 6; i++) check(closeV(q[size_t(i)].velocity, v[0], 1e-9), "a uniform velocity field has no viscous force");
        });
        return;
    }
    untilPressure(s, ps, Vec::Zero(), [&](Particles& q) {
        for (int i = 0; i < 6; i++) check(closeV(q[size_t(i)].velocity, e[size_t(i)], 1e-8), "viscous velocity change in a cluster of mixed particles");
        for (int i = 0; i < 6; i++) observeV(nm("v", i), q[size_t(i)].velocity);
    });
}
// a lattice with up to 26 neighbours: one velocity free
CASE(viscosity_crowd) {
    Settings s = baseSettings(3);
    s.reMax = 1.25;
    s.re_forLaplacian = 1.0;
    s.dt = 0.0009765625;
    s.kinematicViscosity = 0.5;
    Particles ps;
    for (int i = 0; i < 27; i++) addP(ps, i % 5 == 3 ? VType::Wall : VType::Fluid, Vec(1 + 0.5 * (i % 3), 1 + 0.5 * (i / 3 % 3), 1 + 0.5 * (i / 9)), Vec(0.125 * i, -0.25 * (i % 4), 0), 800 + 50 * i, i % 3);
    for (auto& p : ps) vary(p);
    bool fast = choice("fast", 2);
    if (fast) s.dt = 5.8207660913467407e-11; // so that nothing moves far
    double top = fast ? 1e7 : 8;
    ps[13].velocity = symVec("v", -top, top);
    Lattice L = lattice(3, s.particleDistance, s.re_forLaplacian);
    double a = s.kinematicViscosity * 6.0 / (L.n0 * L.lambda);
    untilPressure(s, ps, Vec::Zero(), [&](Particles& q) {
        for (auto& p : ps) {
            Vec e = p.velocity;
            if (p.type == VType::Fluid)
                for (auto& r : ps)
                    if (r.id != p.id) e += a * (r.velocity - p.velocity) * kernel(dist(p.position, r.position), s.re_forLaplacian) * s.dt;
            check(closeV(q[size_t(p.id)].velocity, e, fast ? 1e-6 : 1e-8), "viscous velocity change among many neighbours");
        }
        observeV("v", q[13].velocity);
    });
}
CASE(viscosity_cluster2) { viscosityCluster(2); }
CASE(viscosity_cluster3) { viscosityCluster(3); }

// =================================================================== fixed particles
CASE(fixed_prediction) {
    // prediction and collision with a fluid particle that may touch either fixed neighbour
    Settings s = baseSettings(2);
    s.dt = 0.0009765625;
    s.collisionDistance = 0.4375;
    s.reMax = 4;
    VType t1 = typeOf(1 + choice("type1", 3)), t2 = typeOf(1 + choice("type2", 3));
    Particles ps;
    Vec x0(sym("x", 1.390625, 2.609375), 2, 0), v0(sym("vx", -4, 4), 0, 0);
    Vec x1(2.625, 2, 0), x2(1.375, 2, 0);
    Vec w1(sym("w", -2, 2), 0, 0), w2(0, sym("u", -2, 2), 0);
    if (choice("order", 2)) {
        addP(ps, t1, x1, w1); addP(ps, VType::Fluid, x0, v0); addP(ps, t2, x2, w2);
    } else {
        addP(ps, VType::Fluid, x0, v0); addP(ps, t1, x1, w1); addP(ps, t2, x2, w2);
    }
    untilPressure(s, ps, Vec(0, -10, 0), [&](Particles& q) {
        for (auto& p : q) {
            const Particle& b = ps[size_t(p.id)];
            if (b.type == VType::Fluid) continue;
            check(sameV(p.position, b.position), "wall, dummy and ghost particles do not move in the prediction and collision phases");
            check(sameV(p.velocity, b.velocity), "wall, dummy and ghost particles keep their velocity in the prediction and collision phases");
            check(truth(p.type == b.type), "wall, dummy and ghost particles keep their kind");
        }
    });
}
// gravity alone
CASE(fixed_gravity) {
    Settings s = baseSettings(3);
    s.reMax = 4;
    s.dt = sym("dt", 0.001, 0.125);
    Vec g = symVec("g", -10, 10);
    Particles ps;
    for (int k = 0; k < 3; k++) addP(ps, typeOf(1 + k), symVec(nm("x", k), -7 + 5 * k, -5 + 5 * k), symVec(nm("v", k), -2, 2));
    Particles before = ps;
    MPS mps = makeMps(s, ps, g);
    mps.stepForward();
    for (auto& p : mps.particles) {
        const Particle& b = before[size_t(p.id)];
        check(sameV(p.position, b.position), "gravity does not move wall, dummy and ghost particles");
        check(sameV(p.velocity, b.velocity), "gravity does not accelerate wall, dummy and ghost particles");
        check(truth(p.type == b.type), "wall, dummy and ghost particles keep their kind in a whole step");
    }
}
CASE(fixed_step) {
    // whole step, pressures arbitrary, geometry fixed
    Settings s = baseSettings(2);
    s.reMax = 1.875;
    Particles ps;
    std::vector<Vec> v;
    cluster(ps, v, 2, false);
    for (auto& p : ps) if (p.type != VType::Fluid) p.velocity = symVec(nm("w", p.id), -2, 2);
    Particles before = ps;
    std::vector<double> pr;
    for (int i = 0; i < 6; i++) pr.push_back(i == 0 || i == 2 || i == 3 ? symi("p", i, 0, 100) : 7.0 * i);
    MPS mps = makeMps(s, ps, Vec::Zero(), [&](Particles&) { return pr; });
    mps.stepForward();
    for (auto& p : mps.particles) {
        if (before[size_t(p.id)].type == VType::Fluid) continue;
        check(sameV(p.position, before[size_t(p.id)].position), "fixed particles keep their position in a whole step");
        check(sameV(p.velocity, before[size_t(p.id)].velocity), "fixed particles keep their velocity in a whole step");
    }
}

// =================================================================== collisions
struct Pair {
    Settings s = baseSettings(2);
    Particles ps;
    Vec xp[2], v[2];
    double rho[2];
    VType t[2];
    bool fluid2;
    double cd, e;
    Vec g = Vec::Zero();
};
/// two particles whose predicted separation is d; gravity, viscosity off
static void collisionPair(Pair& c, const Vec& d, bool symRest) {
    static const double dens[6][2] = {{1024, 1024}, {1024, 512}, {131072, 65536}, {8192, 8192}, {1, 1}, {0.0078125, 1}};
    static const int fluid[6][2] = {{0, 0}, {0, 1}, {1, 1}, {0, -1}, {-1, 2}, {2, 2}};
    c.cd = c.s.collisionDistance = 0.4375; // no other length of the configuration
    c.s.dt = 0.00000095367431640625;
    c.e = c.s.coefficientOfRestitution = symRest ? sym("e", 0, 1) : 0.25;
    c.s.reMax = 4;
    c.s.re_forLaplacian = c.s.re_forGradient = c.s.re_forNumberDensity = 4;
    c.g = Vec(16384, -32768, 0); // weighs as much within a step as the velocities at rest
    int k = choice("types", 7); // fluid-fluid (several densities and fluid types), fluid with each fixed type, in both orders
    c.t[0] = VType::Fluid;
    c.t[1] = k < 3 || k == 6 ? VType::Fluid : typeOf(k - 2);
    c.fluid2 = c.t[1] == VType::Fluid;
    int m = k < 3 ? k : k == 5 ? 0 : k == 6 ? 5 : k;
    c.rho[0] = dens[m][0];
    c.rho[1] = dens[m][1];
    bool swap = choice("order", 2) == 1;
    c.v[0] = symVec("v", -256, 256, false);
    c.v[1] = symVec("w", -256, 256, false);
    if (!c.fluid2) c.v[1] = Vec::Zero();
    c.xp[0] = Vec(2, 2, 0);
    c.xp[1] = c.xp[0] + d;
    for (int j = 0; j < 2; j++) {
        int i = swap ? 1 - j : j;
        Vec start = c.t[i] == VType::Fluid ? Vec(c.xp[i] - c.v[i] * c.s.dt) : c.xp[i];
        addP(c.ps, c.t[i], start, c.t[i] == VType::Fluid ? Vec(c.v[i] - c.g * c.s.dt) : c.v[i], c.rho[i], fluid[m][i]);
        vary(c.ps[size_t(j)]);
    }
    if (swap) { std::swap(c.xp[0], c.xp[1]); std::swap(c.v[0], c.v[1]); std::swap(c.rho[0], c.rho[1]); std::swap(c.t[0], c.t[1]); }
}
static void collisionLaws(const Vec& d, bool symRest) {
    Pair c;
    collisionPair(c, d, symRest);
    bool hit = c.t[0] != VType::Ghost && c.t[1] != VType::Ghost && decide(lt(dist(c.xp[0], c.xp[1]), c.cd));
    untilPressure(c.s, c.ps, c.g, [&](Particles& q) {
        Vec x[2] = {q[0].position, q[1].position}, v[2] = {q[0].velocity, q[1].velocity};
        observeV("x0", x[0]); observeV("x1", x[1]); observeV("v0", v[0]); observeV("v1", v[1]);
        if (!hit) {
            for (int i = 0; i < 2; i++) {
                check(closeV(x[i], c.xp[i], 1e-9), "particles at or beyond the collision distance are not displaced");
                check(closeV(v[i], c.v[i], 1e-9), "particles at or beyond the collision distance keep their velocity");
            }
            return;
        }
        Vec sep = c.xp[1] - c.xp[0];
        double r = dist(c.xp[0], c.xp[1]);
        Vec n(sep[0] / r, sep[1] / r, sep[2] / r);
        double before = (c.v[1] - c.v[0]).dot(n), after = (v[1] - v[0]).dot(n);
        bool approaching = decide(lt(before, 0.0));
        double m[2];
        for (int i = 0; i < 2; i++) m[i] = c.t[i] == VType::Fluid ? 1.0 / c.rho[i] : 0.0;
        double tot = m[0] + m[1];
        for (int i = 0; i < 2; i++)
            if (c.t[i] != VType::Fluid) {
                check(closeV(x[i], c.xp[i], 0.0), "the fixed partner of a collision stays in place");
                check(closeV(v[i], c.v[i], 0.0), "the fixed partner of a collision keeps its velocity");
            }
        if (c.t[0] == VType::Fluid && c.t[1] == VType::Fluid) {
            check(closeV(v[0] * c.rho[0] + v[1] * c.rho[1], c.v[0] * c.rho[0] + c.v[1] * c.rho[1], 1e-6), "a collision conserves momentum");
            check(closeV(x[0] * c.rho[0] + x[1] * c.rho[1], c.xp[0] * c.rho[0] + c.xp[1] * c.rho[1], 1e-6), "a collision keeps the centre of mass");
        }
        // (off-axis the impulse check below already fixes the velocities completely)
        if (approaching && symRest) check(close(after, -c.e * before, 1e-6), "approaching particles separate with the restitution coefficient times the approach speed");
        if (!approaching) for (int i = 0; i < 2; i++) check(closeV(v[i], c.v[i], 1e-9), "separating particles get no impulse");
        // the impulse acts along the line of centres only, shared in inverse proportion to mass
        double J = approaching ? (1 + c.e) * before / tot : 0.0;
        for (int i = 0; i < 2; i++) {
            double sgn = i == 0 ? 1.0 : -1.0;
            check(closeV(v[i], c.v[i] + sgn * J * m[i] * n, 1e-6), "the collision impulse acts along the line of centres");
            check(closeV(x[i], c.xp[i] - sgn * (c.cd - r) * (m[i] / tot) * n, 1e-6), "overlapping particles are pushed apart to the collision distance");
        }
    });
}
CASE(collision_axis) {
    int ax = choice("axis", 3);
    Vec d = Vec::Zero();
    d[ax] = sym("d", -0.75, 0.75);
    assume(le(0.0078125, d[ax]) || le(d[ax], -0.0078125));
    collisionLaws(d, true);
}
CASE(collision_plane) {
    Vec d = symVec("d", 0.0078125, 0.5, false);
    assume(!close(dist(Vec(0, 0, 0), d), 0.4375, 1e-6));
    collisionLaws(d, false);
}
CASE(collision_energy) {
    int ax = choice("axis", 2);
    Vec d = Vec::Zero();
    d[ax] = sym("d", -0.5, 0.5);
    assume(le(0.0078125, d[ax]) || le(d[ax], -0.0078125));
    Pair c;
    collisionPair(c, d, true);
    untilPressure(c.s, c.ps, c.g, [&](Particles& q) {
        double before = 0, after = 0;
        for (int i = 0; i < 2; i++)
            if (c.t[i] == VType::Fluid) {
                before += c.rho[i] / 1024 * c.v[i].squaredNorm();
                after += c.rho[i] / 1024 * q[size_t(i)].velocity.squaredNorm();
            }
        check(le(after, before + 1e-6), "a collision never adds kinetic energy");
        observe("E", after);
    });
}
// three fluid particles in a row: at most neighbouring pairs collide, momentum is conserved in total, a far one is untouched
CASE(collision_three) {
    Settings s = baseSettings(2);
    s.collisionDistance = 0.4375;
    s.coefficientOfRestitution = 0.25;
    s.dt = 0.0009765625;
    s.reMax = 4;
    Particles ps;
    double a = sym("a", 0.125, 0.625), b = sym("b", 0.125, 0.625);
    double xs[4] = {1.5, 1.5 + a, 1.5 + a + b, 3.75};
    double u[4];
    for (int i = 0; i < 4; i++) u[i] = i == 3 ? 0.0 : symi("u", i, -1, 1);
    int perm = choice("perm", 3);
    static const int pm[3][4] = {{0, 1, 2, 3}, {1, 0, 2, 3}, {2, 3, 0, 1}};
    for (int k = 0; k < 4; k++) {
        int i = pm[perm][k];
        addP(ps, VType::Fluid, Vec(xs[i] - u[i] * s.dt, 2, 0), Vec(u[i], 0, 0), 1024);
    }
    untilPressure(s, ps, Vec::Zero(), [&](Particles& q) {
        Vec mom = Vec::Zero(), cm = Vec::Zero();
        for (auto& p : q) { mom += p.velocity; cm += p.position; }
        check(close(mom[0], u[0] + u[1] + u[2], 1e-6), "several collisions in one step conserve momentum");
        check(close(cm[0], xs[0] + xs[1] + xs[2] + xs[3], 1e-6), "several collisions in one step keep the centre of mass");
        for (int k = 0; k < 4; k++)
            if (pm[perm][k] == 3) {
                check(closeV(q[size_t(k)].position, Vec(3.75, 2, 0), 1e-9), "a particle nobody touches is not displaced");
                check(closeV(q[size_t(k)].velocity, Vec(0, 0, 0), 1e-9), "a particle nobody touches keeps its velocity");
            }
        for (auto& p : q) check(close(p.velocity[1], 0.0, 1e-9) && close(p.position[1], 2.0, 1e-9), "collisions along one axis have no effect across it");
    });
}

// =================================================================== number density
CASE(density_pair) {
    Settings s = baseSettings(3);
    s.reMax = 2;
    s.re_forNumberDensity = 1.25;
    radii(s.re_forLaplacian, s.re_forGradient, 0.75, 2);
    Particles ps;
    Vec d = symVec("d", -1, 1);
    assume(le(0.0078125, d[0]) || le(d[0], -0.0078125));
    assume(!close(dist(Vec(0, 0, 0), d), 1.25, 1e-6));
    VType t1 = typeOf(choice("type1", 4));
    addP(ps, VType::Fluid, Vec(1, 1, 1), Vec::Zero(), 1000, 0);
    addP(ps, t1, Vec(1, 1, 1) + d, Vec::Zero(), 700, 2);
    for (auto& p : ps) vary(p);
    ps[0].numberDensity = sym("stale", -5, 5);
    ps[1].numberDensity = sym("stale1", -5, 5);
    double w = kernel(dist(ps[0].position, ps[1].position), s.re_forNumberDensity);
    bool g = t1 == VType::Ghost;
    untilPressure(s, ps, Vec::Zero(), [&](Particles& q) {
        check(close(q[0].numberDensity, g ? 0.0 : w, 1e-9), "number density is the kernel sum over the neighbours");
        check(close(q[1].numberDensity, g ? 0.0 : w, 1e-9), "every non-ghost particle has a number density, ghosts have none");
        observe("n", q[0].numberDensity);
    });
}
// a block with up to 80 neighbours, one more particle moving through it
CASE(density_crowd) {
    Settings s = baseSettings(3);
    s.reMax = 1.75;
    s.re_forNumberDensity = 1.25;
    Particles ps;
    for (int i = 0; i < 64; i++) addP(ps, i % 9 == 4 ? VType::Ghost : typeOf(i % 3), Vec(0.5 * (i % 4), 0.5 * (i / 4 % 4), 0.5 * (i / 16)), Vec::Zero());
    addP(ps, VType::Fluid, Vec(sym("x", -1, 2.5), 0.75, 0.625), Vec::Zero());
    untilPressure(s, ps, Vec::Zero(), [&](Particles& q) {
        for (int i : {0, 21, 22, 25, 37, 42, 63, 64}) {
            double e = 0;
            if (q[size_t(i)].type != VType::Ghost)
                for (auto& r : q)
                    if (r.id != i && r.type != VType::Ghost) e += kernel(dist(q[size_t(i)].position, r.position), s.re_forNumberDensity);
            check(close(q[size_t(i)].numberDensity, e, 1e-7), "number density among many neighbours");
            observei("n", i, q[size_t(i)].numberDensity);
        }
    });
}
// hundreds of neighbours of every kind
CASE(density_packed) {
    Settings s = baseSettings(3);
    s.domain = box(0, 2, 0, 2, 0, 2);
    s.reMax = 1;
    s.re_forNumberDensity = 0.9375;
    Particles ps;
    for (int i = 0; i < 216; i++) addP(ps, i % 13 == 4 ? VType::Ghost : typeOf(i % 3), Vec(0.25 + 0.25 * (i % 6), 0.25 + 0.25 * (i / 6 % 6), 0.25 + 0.25 * (i / 36)), Vec::Zero(), 1000, i % 4 - 1);
    addP(ps, VType::Fluid, Vec(sym("x", 0.8125, 0.9375), 0.8125, 0.875), Vec::Zero());
    untilPressure(s, ps, Vec::Zero(), [&](Particles& q) {
        for (int i : {0, 85, 86, 87, 88, 89, 93, 216}) {
            double e = 0;
            if (q[size_t(i)].type != VType::Ghost)
                for (auto& r : q)
                    if (r.id != i && r.type != VType::Ghost) e += kernel(dist(q[size_t(i)].position, r.position), s.re_forNumberDensity);
            check(close(q[size_t(i)].numberDensity, e, 1e-7), "number density among many neighbours");
            observei("n", i, q[size_t(i)].numberDensity);
        }
    });
}
// number densities are those of the moved, collided particles
CASE(density_moving) {
    Settings s = baseSettings(2);
    s.reMax = 1.875;
    s.re_forNumberDensity = 1.125;
    radii(s.re_forLaplacian, s.re_forGradient, 0.875, 1.875);
    s.collisionDistance = choice("contact", 2) ? 0.03125 : 0.375;
    s.dt = 0.25;
    Particles ps;
    std::vector<Vec> v;
    cluster(ps, v, 2, false);
    double u = sym("u", -1.9375, 2);
    ps[1].velocity = Vec(u, 0, 0);
    untilPressure(s, ps, Vec::Zero(), [&](Particles& q) {
        for (auto& pi : q) {
            double e = 0;
            if (pi.type != VType::Ghost)
                for (auto& pj : q)
                    if (pj.id != pi.id && pj.type != VType::Ghost) e += kernel(dist(pi.position, pj.position), s.re_forNumberDensity);
            check(close(pi.numberDensity, e, 1e-8), "number density belongs to the positions handed to the pressure calculation");
            observei("n", pi.id, pi.numberDensity);
        }
    });
}
// a fluid particle passes through a mixed cluster between two steps: nothing of the first step remains in the second
CASE(density_history) {
    Settings s = baseSettings(2);
    s.reMax = 1.25;
    s.re_forNumberDensity = 1.125;
    Particles ps;
    std::vector<Vec> v;
    cluster(ps, v, 2, false);
    ps[1].type = VType::DummyWall;
    ps[4].type = VType::Wall;
    int k = 0;
    bool out = choice("out", 2) == 1;
    auto f = [&](Particles& q) {
        if (k++ == 1)
            for (auto& pi : q) {
                double e = 0;
                if (pi.type != VType::Ghost)
                    for (auto& pj : q)
                        if (pj.id != pi.id && pj.type != VType::Ghost) e += kernel(dist(pi.position, pj.position), s.re_forNumberDensity);
                check(close(pi.numberDensity, e, 1e-8), "number density of a second step belongs to its own positions");
                observei("n", pi.id, pi.numberDensity);
            }
        return std::vector<double>(size_t(q.size()), 0.0);
    };
    MPS mps = makeMps(s, ps, Vec::Zero(), f);
    guard([&] { mps.stepForward(); });
    mps.particles[0].position = out ? Vec(sym("x", 8.25, 40), 2, 0) : Vec(sym("x", 1.5625, 6), 2.1875, 0);
    guard([&] { mps.stepForward(); });
    check(truth(k == 2), "both steps calculate pressures");
}
// a fluid particle and a partner that may touch it, beside a third particle: densities are those after the collision
CASE(density_contact) {
    Settings s = baseSettings(2);
    s.reMax = 1.875;
    s.re_forNumberDensity = 1.125;
    radii(s.re_forLaplacian, s.re_forGradient, 0.875, 1.875);
    s.collisionDistance = 0.375;
    s.dt = 0.0625;
    int axis = choice("axis", 2);
    VType t1 = typeOf(choice("type1", 4)), t2 = typeOf(choice("type2", 2));
    double d = sym("d", 0.125, 0.75);
    if (choice("side", 2)) d = -d;
    Vec a(2, 2, 0), b = a, c = a;
    b[axis] += d;
    c[1 - axis] += 0.625;
    Vec v = Vec::Zero();
    v[axis] = d < 0 ? -1 : 1;
    Particles ps;
    addP(ps, VType::Fluid, a, v);
    addP(ps, t1, b, Vec::Zero());
    addP(ps, t2, c, Vec::Zero());
    untilPressure(s, ps, Vec::Zero(), [&](Particles& q) {
        for (auto& pi : q) {
            double e = 0;
            if (pi.type != VType::Ghost)
                for (auto& pj : q)
                    if (pj.id != pi.id && pj.type != VType::Ghost) e += kernel(dist(pi.position, pj.position), s.re_forNumberDensity);
            check(close(pi.numberDensity, e, 1e-8), "number density belongs to the positions after the collision");
            observei("n", pi.id, pi.numberDensity);
        }
    });
}

// =================================================================== pressure gradient
static void gradientCluster(int dim) {
    Settings s = baseSettings(dim);
    s.reMax = 1.875;
    s.re_forGradient = 1.0625;
    radii(s.re_forNumberDensity, s.re_forLaplacian, 0.8125, 1.875);
    s.dt = 0.03125;
    Particles ps;
    std::vector<Vec> v;
    cluster(ps, v, dim, false);
    for (auto& p : ps) p.density = 600 + 100 * p.id;
    double top = choice("strong", 2) ? 1e7 : 1000;
    std::vector<double> pr(6);
    for (int i = 0; i < 6; i++) pr[size_t(i)] = i < 3 ? symi("p", i, -top, top) : 0.0;
    pr[3] = sym("pdummy", -1000, 1000);
    pr[4] = 300;
    pr[5] = sym("pghost", -1000, 1000);
    MPS mps = makeMps(s, ps, Vec::Zero(), [&](Particles&) { return pr; });
    mps.stepForward();
    Lattice L = lattice(dim, s.particleDistance, s.re_forGradient);
    auto active = [&](int i) { return ps[size_t(i)].type == VType::Fluid || ps[size_t(i)].type == VType::Wall; };
    for (int i = 0; i < 6; i++) {
        const Particle& p = ps[size_t(i)];
        if (p.type != VType::Fluid) continue;
        double pmin = pr[size_t(i)];
        for (int j = 0; j < 6; j++)
            if (j != i && active(j) && dist(p.position, ps[size_t(j)].position) < s.re_forGradient) pmin = dmin(pmin, pr[size_t(j)]);
        Vec acc = Vec::Zero();
        for (int j = 0; j < 6; j++) {
            if (j == i || !active(j)) continue;
            Vec r = ps[size_t(j)].position - p.position;
            double d = dist(p.position, ps[size_t(j)].position);
            if (d >= s.re_forGradient) continue;
            acc -= r * ((pr[size_t(j)] - pmin) * ((s.re_forGradient / d - 1.0) / (d * d)));
        }
        acc *= dim / L.n0 / p.density;
        Vec ve = acc * s.dt, xe = p.position + acc * s.dt * s.dt;
        check(closeV(mps.particles[size_t(i)].velocity, ve, 1e-6), "pressure changes the velocity by minus the gradient over the density, times dt");
        check(closeV(mps.particles[size_t(i)].position, xe, 1e-6), "the pressure correction of the position is the velocity correction times dt");
        observeV(nm("v", i), mps.particles[size_t(i)].velocity);
    }
}
CASE(gradient_cluster2) { gradientCluster(2); }
CASE(gradient_cluster3) { gradientCluster(3); }
CASE(gradient_pair) {
    // a pair at any separation: repulsive, formula, equal and opposite directions
    Settings s = baseSettings(2);
    s.reMax = 4;
    s.re_forGradient = 1.5;
    radii(s.re_forNumberDensity, s.re_forLaplacian, 1, 4);
    s.dt = 0.03125;
    Particles ps;
    Vec d = symVec("d", -1.25, 1.25, false);
    assume(le(0.25, d[0]) || le(d[0], -0.25));
    assume(!close(dist(Vec(0, 0, 0), d), 1.5, 1e-6));
    VType t1 = typeOf(choice("type1", 4));
    addP(ps, VType::Fluid, Vec(2, 2, 0), Vec::Zero(), 1000, 0);
    addP(ps, t1, Vec(2, 2, 0) + d, Vec::Zero(), 500, 1);
    for (auto& p : ps) vary(p);
    std::vector<double> pr{sym("p0", -100, 100), sym("p1", -100, 100)};
    Lattice L = lattice(2, s.particleDistance, s.re_forGradient);
    bool act = t1 == VType::Fluid || t1 == VType::Wall;
    double r = dist(ps[0].position, ps[1].position);
    double w = kernel(r, s.re_forGradient);
    double low = decide(lt(pr[1], pr[0])) ? pr[1] : pr[0];
    MPS mps = makeMps(s, ps, Vec::Zero(), [&](Particles&) { return pr; });
    mps.stepForward();
    Vec v0 = mps.particles[0].velocity, v1 = mps.particles[1].velocity;
    double f = 2.0 / L.n0 * w * s.dt;
    Vec e0 = Vec::Zero(), e1 = Vec::Zero();
    if (act) {
        e0 = d * (-(pr[1] - low) / (r * r) * f / 1000.0);
        if (t1 == VType::Fluid) e1 = d * ((pr[0] - low) / (r * r) * f / 500.0);
    }
    check(closeV(v0, e0, 1e-6), "pressure force on the first particle of a pair");
    check(closeV(v1, e1, 1e-6), "pressure force on the second particle of a pair");
    check(le(0.0, (v1 - v0).dot(d) + 1e-9), "pressure never pulls two particles together");
    observeV("v0", v0);
}
CASE(gradient_uniform) {
    int dim = 2 + choice("dim", 2);
    Settings s = baseSettings(dim);
    s.reMax = 1.875;
    s.re_forGradient = 1.25;
    Particles ps;
    std::vector<Vec> v;
    cluster(ps, v, dim, false);
    double p = sym("p", -10000, 10000);
    std::vector<double> pr(6, p);
    pr[3] = sym("pdummy", 0, 10000);
    pr[5] = sym("pghost", 0, 10000);
    MPS mps = makeMps(s, ps, Vec::Zero(), [&](Particles&) { return pr; });
    mps.stepForward();
    for (auto& q : mps.particles) {
        check(closeV(q.velocity, Vec::Zero(), 1e-9), "a uniform pressure field exerts no force");
        check(closeV(q.position, ps[size_t(q.id)].position, 1e-9), "a uniform pressure field moves nothing");
    }
}
// a lattice with up to 26 neighbours: one pressure free
CASE(gradient_crowd) {
    Settings s = baseSettings(3);
    s.reMax = 1.25;
    s.re_forGradient = 1.0;
    s.dt = 0.25;
    Particles ps;
    for (int i = 0; i < 27; i++) addP(ps, i % 5 == 3 ? VType::Wall : i == 8 ? VType::DummyWall : VType::Fluid, Vec(1 + 0.5 * (i % 3), 1 + 0.5 * (i / 3 % 3), 1 + 0.5 * (i / 9)), Vec::Zero(), 800 + 10 * i, i % 3);
    for (auto& p : ps) vary(p);
    std::vector<double> pr;
    for (int i = 0; i < 27; i++) pr.push_back(i == 13 ? sym("p", 0, 10000) : 100.0 * (i % 6) + 50);
    MPS mps = makeMps(s, ps, Vec::Zero(), [&](Particles&) { return pr; });
    mps.stepForward();
    Lattice L = lattice(3, s.particleDistance, s.re_forGradient);
    for (auto& p : ps) {
        Vec acc = Vec::Zero();
        if (p.type == VType::Fluid) {
            double low = pr[size_t(p.id)];
            auto near = [&](const Particle& r) { return r.id != p.id && r.type != VType::DummyWall && decide(lt(dist(p.position, r.position), s.re_forGradient)); };
            for (auto& r : ps) if (near(r) && decide(lt(pr[size_t(r.id)], low))) low = pr[size_t(r.id)];
            for (auto& r : ps) {
                if (!near(r)) continue;
                double d = dist(p.position, r.position);
                acc -= (r.position - p.position) * ((pr[size_t(r.id)] - low) * (3.0 / L.n0 * (s.re_forGradient / d - 1.0) / (d * d) / p.density));
            }
        }
        check(closeV(mps.particles[size_t(p.id)].velocity, acc * s.dt, 1e-6), "pressure force among many neighbours");
        check(closeV(mps.particles[size_t(p.id)].position, p.position + acc * s.dt * s.dt, 1e-6), "pressure moves a particle among many neighbours");
    }
    observeV("v", mps.particles[13].velocity);
}
// the pressures of a step are the ones its calculator returned, per particle
CASE(pressure_assigned) {
    Settings s = baseSettings(2);
    s.reMax = 1.875;
    Particles ps;
    std::vector<Vec> v;
    cluster(ps, v, 2, false);
    for (auto& p : ps) { p.pressure = 1 + 10.0 * p.id; if (p.id == 1 || p.id == 4) p.position += Vec(4, p.id, 0); }
    std::vector<double> pr;
    for (int i = 0; i < 6; i++) pr.push_back(symi("p", i, 0, 100));
    MPS mps = makeMps(s, ps, Vec::Zero(), [&](Particles&) { return pr; });
    mps.stepForward();
    for (int i = 0; i < 6; i++) check(eq(mps.particles[size_t(i)].pressure, pr[size_t(i)]), "every particle gets the pressure calculated for it");
}

// =================================================================== Courant number
CASE(courant) {
    Settings s = baseSettings(2 + choice("dim", 2));
    s.reMax = 4;
    s.dt = 0.0625;
    bool fast = choice("fast", 2);
    s.particleDistance = fast ? 0.00006103515625 : 0.5;
    s.re_forNumberDensity = s.re_forGradient = s.re_forLaplacian = 3 * s.particleDistance;
    s.cflCondition = sym("cfl", 0, 1);
    s.domain = box(-64, 64, -64, 64, -64, 64);
    Particles ps;
    double top = fast ? 256 : 4;
    Vec v0(sym("vx", -top, top), 0, 0), v1(0, sym("wy", -3, 3), sym("wz", -3, 3));
    addP(ps, VType::Fluid, Vec(2, 2, 2), v0);
    addP(ps, VType::Wall, Vec(-6, -40, 2), Vec(100, 0, 0));
    addP(ps, VType::Fluid, Vec(2, 2, -6), v1);
    addP(ps, VType::Ghost, Vec(2, 6, -6), Vec(200, 0, 0));
    MPS mps = makeMps(s, ps, Vec::Zero());
    mps.courant = sym("stale", 0, 9);
    Outcome o = guard([&] { mps.stepForward(); });
    double c0 = dabs(v0[0]) * s.dt / s.particleDistance;
    double c1 = std::sqrt(v1[1] * v1[1] + v1[2] * v1[2]) * s.dt / s.particleDistance;
    check(le(c0, mps.courant + 1e-9) && le(c1, mps.courant + 1e-9), "the Courant number bounds that of every fluid particle");
    check(le(mps.courant, dmax(c0, c1) + 1e-9), "the Courant number is attained by some fluid particle");
    bool warned = !o.err.empty();
    if (warned) check(lt(s.cflCondition, mps.courant), "no Courant warning within the limit");
    else check(le(mps.courant, s.cflCondition), "exceeding the Courant limit is reported");
    check(truth(!o.exited && !o.threw), "a Courant warning does not stop the simulation");
    double c = mps.courant;
    observe("c", c);
    Outcome o2 = guard([&] { mps.stepForward(); });
    check(close(mps.courant, c, 1e-9), "at constant velocity the Courant number stays the same");
    check(truth(o2.err.empty() == !warned), "the limit is watched in every step");
    check(truth(!o2.exited && !o2.threw), "a second Courant warning does not stop the simulation either");
}
// the Courant number uses the velocities after the pressure correction
CASE(courant_corrected) {
    Settings s = baseSettings(2);
    s.reMax = 2;
    s.re_forGradient = 1.5;
    Particles ps;
    addP(ps, VType::Fluid, Vec(2, 2, 0), Vec::Zero());
    addP(ps, VType::Wall, Vec(2.5, 2, 0), Vec::Zero());
    double p = sym("p", 0, 1000);
    MPS mps = makeMps(s, ps, Vec::Zero(), [&](Particles&) { return std::vector<double>{0.0, p}; });
    mps.stepForward();
    check(close(mps.courant, dabs(mps.particles[0].velocity[0]) * s.dt / s.particleDistance, 1e-9), "the Courant number is that of the corrected velocities");
    observe("c", mps.courant);
}

// =================================================================== histories: nothing but type, position, velocity, density carries over
static std::unique_ptr<PressureCalculator::Interface> explicitCalc(const Settings& s) {
    return std::unique_ptr<PressureCalculator::Interface>(new PressureCalculator::Explicit(s.re_forNumberDensity, s.soundSpeed, s.dim, s.particleDistance));
}
static MPS explicitMps(const Settings& s, const Particles& ps, Vec g) {
    Input in;
    in.settings = s;
    in.particles = ps;
    std::unique_ptr<SurfaceDetector::Interface> det(new SurfaceDetector::NumberDensity(0.97, 1.0));
    return MPS(in, g, explicitCalc(s), std::move(det));
}
static void sameState(const Particles& a, const Particles& b, double tol, const char* what) {
    check(truth(a.size() == b.size()), what);
    for (auto& p : a) {
        const Particle& q = b[size_t(p.id)];
        check(truth(p.type == q.type && p.id == q.id), what);
        check(closeV(p.position, q.position, tol), what);
        check(closeV(p.velocity, q.velocity, tol), what);
        if (p.type != VType::Ghost) check(close(p.pressure, q.pressure, tol), what);
    }
}
static Settings historySettings() {
    Settings s = baseSettings(2);
    s.reMax = 1.5;
    s.kinematicViscosity = 0.5;
    s.collisionDistance = 0.25;
    s.soundSpeed = 8;
    s.dt = 0.0078125;
    s.cflCondition = 0.0009765625;
    return s;
}
static void historyParticles(Particles& ps, double x, double u) {
    addP(ps, VType::Fluid, Vec(2, 2, 0), Vec(0.25, 0, 0));
    addP(ps, VType::Fluid, Vec(x, 2, 0), Vec(u, 0, 0));
    addP(ps, VType::Wall, Vec(1.5, 2, 0), Vec(0, 0, 0));
    addP(ps, VType::DummyWall, Vec(1, 2, 0), Vec(0, 0, 0));
}
// leftovers in every derived field do not influence a step
CASE(stale_fields) {
    Settings s = historySettings();
    Particles ps;
    historyParticles(ps, sym("x", 2.375, 2.75), 0.0);
    Particles dirty = ps;
    for (auto& p : dirty) {
        p.pressure = symi("sp", p.id, 0, 50);
        p.numberDensity = symi("sn", p.id, 0, 50);
        p.minimumPressure = symi("sm", p.id, -50, 50);
        p.sourceTerm = 3;
        p.boundaryCondition = choice("bc", 2) ? FluidState::Inner : FluidState::FreeSurface;
        p.neighbors.emplace_back(0, 0.25);
        p.neighbors.emplace_back(1, 0.5);
        if (p.id == 0) continue;
    }
    Vec g(0, -8, 0);
    MPS a = explicitMps(s, ps, g), b = explicitMps(s, dirty, g);
    guard([&] { a.stepForward(); b.stepForward(); });
    sameState(a.particles, b.particles, 1e-9, "the result of a step does not depend on leftovers of earlier steps");
    check(close(a.courant, b.courant, 1e-9), "the Courant number does not depend on leftovers of earlier steps");
}
// continuing a run equals restarting from its state
CASE(restart) {
    Settings s = historySettings();
    Particles ps;
    historyParticles(ps, 2.5, sym("u", -1, 1));
    Vec g(0, sym("g", -8, 8), 0);
    MPS a = explicitMps(s, ps, g);
    guard([&] { a.stepForward(); });
    Particles mid;
    for (auto& p : a.particles) addP(mid, p.type, p.position, p.velocity, p.density);
    MPS b = explicitMps(s, mid, g);
    guard([&] { a.stepForward(); b.stepForward(); });
    sameState(a.particles, b.particles, 1e-9, "continuing equals restarting from the saved state");
    observeV("x", a.particles[1].position);
}

// the same with pressures acting in both steps
CASE(restart_pressure) {
    int dim = 2 + choice("dim", 2);
    Settings s = baseSettings(dim);
    s.reMax = 1.5;
    s.re_forGradient = 1.25;
    s.kinematicViscosity = 0.25;
    s.dt = 0.015625;
    Particles ps;
    addP(ps, VType::Fluid, Vec(2, 2, 0), Vec::Zero());
    addP(ps, VType::Fluid, Vec(2.5, 2.25, 0), Vec(0, 0.25, 0), 500);
    addP(ps, VType::Wall, Vec(1.5, 2, 0), Vec::Zero());
    addP(ps, VType::DummyWall, Vec(1, 2, 0), Vec::Zero());
    double p[2] = {sym("p", 0, 1000), sym("q", 0, 1000)};
    int k = 0; // pressures by step
    auto f = [&](Particles&) { return k == 0 ? std::vector<double>{p[0], 500, 200, 0} : std::vector<double>{100, p[1], 0, 0}; };
    MPS a = makeMps(s, ps, Vec(0, -8, 0), f);
    guard([&] { a.stepForward(); });
    Particles mid;
    for (auto& q : a.particles) addP(mid, q.type, q.position, q.velocity, q.density);
    MPS b = makeMps(s, mid, Vec(0, -8, 0), f);
    k = 1;
    guard([&] { a.stepForward(); b.stepForward(); });
    sameState(a.particles, b.particles, 1e-9, "continuing equals restarting from the saved state when pressures act");
    observeV("v", a.particles[1].velocity);
}

// =================================================================== ghosts are invisible
static void ghostCompare(const MPS& a, const MPS& b, const Vec& gx, const Vec& gv) {
    for (auto& p : a.particles) {
        const Particle& q = b.particles[size_t(p.id)];
        check(closeV(p.position, q.position, 1e-9) && closeV(p.velocity, q.velocity, 1e-9), "a ghost does not influence the motion of others");
        check(close(p.pressure, q.pressure, 1e-9) && close(p.numberDensity, q.numberDensity, 1e-9), "a ghost does not influence pressure and density of others");
    }
    check(close(a.courant, b.courant, 1e-9), "a ghost does not influence the Courant number");
    const Particle& g = b.particles[b.particles.size() - 1];
    check(sameV(g.position, gx) && sameV(g.velocity, gv), "a ghost stays where it is");
}
// a ghost on the axis of a fluid particle, touching it or not
CASE(ghost_line) {
    Settings s = historySettings();
    Particles ps;
    historyParticles(ps, 2.5, 0.0);
    Particles with = ps;
    Vec gx(2, 2, 0), gv(0, 0, 0);
    int axis = choice("axis", 2);
    gx[axis] += sym("g", 0.0625, 0.375);
    gv[axis] = -1;
    if (choice("side", 2)) { gx[axis] = 4 - gx[axis]; gv = -gv; }
    addP(with, VType::Ghost, gx, gv);
    with[4].pressure = 50;
    with[4].numberDensity = 20;
    MPS a = explicitMps(s, ps, Vec(0, -8, 0)), b = explicitMps(s, with, Vec(0, -8, 0));
    guard([&] { a.stepForward(); b.stepForward(); });
    ghostCompare(a, b, gx, gv);
}
CASE(ghost_invisible) {
    Settings s = historySettings();
    double x = sym("x", 2.25, 2.75);
    Particles ps;
    historyParticles(ps, x, 0.0);
    Particles with = ps;
    Vec gx = symVec("g", 1.5, 2.5, false), gv = symVec("gv", -1, 1, false);
    addP(with, VType::Ghost, gx, gv);
    with[4].pressure = sym("gp", 0, 100);
    with[4].numberDensity = sym("gn", 0, 100);
    MPS a = explicitMps(s, ps, Vec(0, -8, 0)), b = explicitMps(s, with, Vec(0, -8, 0));
    guard([&] { a.stepForward(); b.stepForward(); });
    ghostCompare(a, b, gx, gv);
}

// =================================================================== planar runs stay planar
CASE(planar) {
    Settings s = baseSettings(2);
    s.reMax = 1.875;
    s.collisionDistance = 0.625;
    s.kinematicViscosity = 0.5;
    s.dt = 0.015625;
    Particles ps;
    std::vector<Vec> v;
    cluster(ps, v, 2, false);
    ps[0].velocity = Vec(sym("ux", -1, 1), sym("uy", -1, 1), 0);
    ps[4].velocity = Vec(sym("wx", -1, 1), 0, 0);
    Vec g = symVec("g", -10, 10, false);
    untilPressure(s, ps, g, [&](Particles& q) {
        for (auto& p : q) check(eq(p.position[2], 0.0) && eq(p.velocity[2], 0.0), "prediction and collision keep a planar flow planar");
    });
}
CASE(planar_pressure) {
    Settings s = baseSettings(2);
    s.reMax = 1.875;
    Particles ps;
    std::vector<Vec> v;
    cluster(ps, v, 2, false);
    std::vector<double> pr;
    for (int i = 0; i < 6; i++) pr.push_back(i < 3 ? symi("p", i, 0, 100) : 10.0 * i);
    MPS mps = makeMps(s, ps, Vec::Zero(), [&](Particles&) { return pr; });
    mps.stepForward();
    for (auto& p : mps.particles) check(eq(p.position[2], 0.0) && eq(p.velocity[2], 0.0), "the pressure correction keeps a planar flow planar");
}

// =================================================================== identity of particles
CASE(identity) {
    Settings s = baseSettings(2);
    s.domain = box(0, 4, 0, 4, -1, 1);
    s.reMax = 2;
    s.collisionDistance = 0.375;
    s.dt = 0.25;
    Particles ps;
    int n = 4;
    for (int i = 0; i < n; i++) {
        VType t = i == 0 ? VType::Fluid : typeOf(choicei("type", i, i == 3 ? 2 : 4));
        addP(ps, t, Vec(0.75 + 0.5 * i, 1, 0), Vec(i == 0 ? sym("u", -8, 8) : 0.0, 0, 0), 1000 + i, 3 + i);
    }
    MPS mps = makeMps(s, ps, Vec::Zero(), [&](Particles& q) { return std::vector<double>(size_t(q.size()), 0.0); });
    guard([&] { mps.stepForward(); });
    check(truth(mps.particles.size() == n), "a step neither creates nor deletes particles");
    for (int i = 0; i < n; i++) {
        const Particle &p = mps.particles[size_t(i)], &q = ps[size_t(i)];
        check(truth(p.id == i), "particle ids stay equal to their index");
        check(truth(p.fluidType == q.fluidType) && eq(p.density, q.density), "fluid type and density never change");
        check(truth(p.type == q.type || (q.type == VType::Fluid && p.type == VType::Ghost)), "the only type change is a fluid particle leaving the domain");
    }
    observe("t0", double(int(mps.particles[0].type)));
}

// =================================================================== symmetry
static void mirrored(int ax, bool perm) {
    Settings s = historySettings();
    s.reMax = 1.5;
    Particles ps, qs;
    double x = sym("x", 0.3125, 0.75), y = 0.25, u = sym("u", -1, 1);
    struct I { VType t; Vec x, v; double rho; };
    std::vector<I> in{{VType::Fluid, Vec(0, 0, 0), Vec(0.25, 0.125, 0), 1000}, {VType::Fluid, Vec(x, y, 0), Vec(u, 0, 0), 1000},
                      {VType::Wall, Vec(perm && choice("near", 2) ? -0.1875 : -0.5, -0.125, 0), Vec(0, 0, 0), 1000}}; // near: it collides
    std::vector<int> order = perm ? std::vector<int>{2, 1, 0} : std::vector<int>{0, 1, 2};
    Vec c(0.75, 0.75, 0);
    if (!perm) c[ax] = 0.75;
    auto M = [&](Vec a) { if (!perm) a[ax] = -a[ax]; return a; };
    for (auto& i : in) addP(ps, i.t, c + i.x, i.v, i.rho);
    Vec c2 = c;
    for (int k : order) addP(qs, in[size_t(k)].t, c2 + M(in[size_t(k)].x), M(in[size_t(k)].v), in[size_t(k)].rho);
    Vec g(1, -4, 0);
    MPS a = explicitMps(s, ps, g), b = explicitMps(s, qs, M(g));
    guard([&] { a.stepForward(); b.stepForward(); });
    for (int k = 0; k < 3; k++) {
        const Particle &p = a.particles[size_t(order[size_t(k)])], &q = b.particles[size_t(k)];
        const char* w = perm ? "renumbering the particles renumbers the result" : "mirroring the input mirrors the result";
        check(closeV(q.position - c2, M(p.position - c), 1e-7), w);
        check(closeV(q.velocity, M(p.velocity), 1e-7), w);
        check(close(q.pressure, p.pressure, 1e-6) && close(q.numberDensity, p.numberDensity, 1e-7), w);
    }
}
CASE(mirror_x) { mirrored(0, false); }
CASE(mirror_y) { mirrored(1, false); }
CASE(renumber) { mirrored(0, true); }

// ---------------------------------------------------------------- place and axes
static void transported(int dim, const int* perm, const Vec& shift, bool freeU, const char* what) {
    Settings s = historySettings();
    s.dim = dim;
    s.cflCondition = 1e9;
    s.domain = box(-2.25, 3, -1.5, 2.5, -1, 4);
    Particles ps, qs;
    auto P = [&](const Vec& a) { return Vec(a[perm[0]], a[perm[1]], a[perm[2]]); };
    double z = dim == 3 ? 0.125 : 0, x = sym("x", 0.3125, 0.75), u = freeU ? sym("u", -1, 1) : 0.75;
    addP(ps, VType::Fluid, Vec(0, 0, 0), Vec(0.25, 0.125, z), 1000);
    addP(ps, VType::Fluid, Vec(x, 0.25, -z), Vec(u, 0, 2 * z), 1000);
    addP(ps, VType::Wall, Vec(choice("near", 2) ? -0.1875 : -0.5, -0.125, z), Vec(0, 0, 0), 1000);
    addP(ps, VType::DummyWall, Vec(0.125, -0.75, 0), Vec(0, 0, 0), 1000);
    addP(ps, VType::Ghost, Vec(0.25, 0.375, 0), Vec(1, 0, 0), 1000);
    addP(ps, VType::Fluid, Vec(2.96875, 1, z), Vec(16, -1, 0), 1000); // leaves the domain in the second step
    for (auto& p : ps) addP(qs, p.type, P(p.position) + shift, P(p.velocity), p.density);
    Vec lo = P(Vec(s.domain.xMin, s.domain.yMin, s.domain.zMin)) + shift, hi = P(Vec(s.domain.xMax, s.domain.yMax, s.domain.zMax)) + shift;
    Settings s2 = s;
    s2.domain = box(lo[0], hi[0], lo[1], hi[1], lo[2], hi[2]);
    Vec g(1, -4, 8 * z);
    MPS a = explicitMps(s, ps, g), b = explicitMps(s2, qs, P(g));
    guard([&] { a.stepForward(); b.stepForward(); });
    for (int k = 0; k < int(ps.size()); k++) {
        const Particle &p = a.particles[size_t(k)], &q = b.particles[size_t(k)];
        check(truth(q.type == p.type), what);
        check(closeV(q.position - shift, P(p.position), 1e-7), what);
        check(closeV(q.velocity, P(p.velocity), 1e-7), what);
        check(close(q.pressure, p.pressure, 1e-6) && close(q.numberDensity, p.numberDensity, 1e-7), what);
    }
    check(close(a.courant, b.courant, 1e-9), what);
}
CASE(shifted) {
    static const int id[3] = {0, 1, 2};
    static const double v[3] = {37, -20.5, 3.0625};
    int k = choice("shift", 3);
    transported(2, id, Vec(v[k], v[(k + 1) % 3], v[(k + 2) % 3]), true, "moving the whole setup moves the result");
}
CASE(axes) {
    static const int swap[3] = {1, 0, 2}, cyc[3] = {1, 2, 0};
    int k = choice("axes", 3);
    transported(k == 0 ? 2 : 3, k == 2 ? cyc : swap, Vec::Zero(), false, "exchanging the axes exchanges them in the result");
}

// ---------------------------------------------------------------- a whole step, all interactions at once
struct Body { VType type; Vec x, v; double rho, n = 0, p = 0; };
/// reference of one step of the explicit method
static double referenceStep(std::vector<Body>& b, const Settings& s, const Vec& g) {
    size_t n = b.size();
    Lattice N = lattice(s.dim, s.particleDistance, s.re_forNumberDensity), G = lattice(s.dim, s.particleDistance, s.re_forGradient),
            L = lattice(s.dim, s.particleDistance, s.re_forLaplacian);
    auto leave = [&] {
        for (auto& q : b)
            for (int c = 0; c < 3; c++) {
                double lo = c == 0 ? s.domain.xMin : c == 1 ? s.domain.yMin : s.domain.zMin, hi = c == 0 ? s.domain.xMax : c == 1 ? s.domain.yMax : s.domain.zMax;
                if (q.type != VType::Ghost && !decide(le(lo, q.x[c]) && le(q.x[c], hi))) q.type = VType::Ghost;
            }
    };
    leave();
    std::vector<Vec> a(n, Vec::Zero());
    for (size_t i = 0; i < n; i++) {
        if (b[i].type != VType::Fluid) continue;
        Vec t = Vec::Zero();
        for (size_t j = 0; j < n; j++)
            if (j != i && b[j].type != VType::Ghost) t += (b[j].v - b[i].v) * kernel(dist(b[i].x, b[j].x), s.re_forLaplacian);
        a[i] = g + t * (s.kinematicViscosity * (2.0 * s.dim) / (L.n0 * L.lambda));
    }
    for (size_t i = 0; i < n; i++)
        if (b[i].type == VType::Fluid) { b[i].v += a[i] * s.dt; b[i].x += b[i].v * s.dt; }
    leave();
    std::vector<Vec> x0;
    for (auto& q : b) x0.push_back(q.x);
    auto inv = [](const Body& q) { return q.type == VType::Fluid ? 1.0 / q.rho : 0.0; };
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < n; j++) { // pairs in contact; no particle is in contact with two others
            if (j == i || b[i].type != VType::Fluid || b[j].type == VType::Ghost || (b[j].type == VType::Fluid && j > i)) continue;
            double d = dist(x0[i], x0[j]);
            if (!decide(lt(d, s.collisionDistance))) continue;
            Vec e = (b[j].x - b[i].x) / d;
            double m = 1.0 / (inv(b[i]) + inv(b[j])), u = (b[j].v - b[i].v).dot(e);
            double q = decide(lt(u, 0.0)) ? -(1 + s.coefficientOfRestitution) * u * m : 0.0, r = (s.collisionDistance - d) * m;
            b[i].v -= e * (q * inv(b[i])); b[i].x -= e * (r * inv(b[i]));
            b[j].v += e * (q * inv(b[j])); b[j].x += e * (r * inv(b[j]));
        }
    leave();
    for (size_t i = 0; i < n; i++) {
        b[i].n = b[i].p = 0;
        if (b[i].type == VType::Ghost) continue;
        for (size_t j = 0; j < n; j++)
            if (j != i && b[j].type != VType::Ghost) b[i].n += kernel(dist(b[i].x, b[j].x), s.re_forNumberDensity);
        if (decide(lt(N.n0, b[i].n))) b[i].p = s.soundSpeed * s.soundSpeed * b[i].rho * (b[i].n - N.n0) / N.n0;
    }
    auto active = [&](size_t j) { return b[j].type == VType::Fluid || b[j].type == VType::Wall; };
    for (size_t i = 0; i < n; i++) {
        a[i] = Vec::Zero();
        if (b[i].type != VType::Fluid) continue;
        double low = b[i].p;
        for (size_t j = 0; j < n; j++)
            if (j != i && active(j) && decide(lt(dist(b[i].x, b[j].x), s.re_forGradient)) && decide(lt(b[j].p, low))) low = b[j].p;
        for (size_t j = 0; j < n; j++) {
            if (j == i || !active(j)) continue;
            double d = dist(b[i].x, b[j].x);
            double w = kernel(d, s.re_forGradient);
            a[i] -= (b[j].x - b[i].x) * ((b[j].p - low) / (d * d) * w * (s.dim / G.n0) / b[i].rho);
        }
    }
    double courant = 0;
    for (size_t i = 0; i < n; i++) {
        if (b[i].type != VType::Fluid) continue;
        b[i].v += a[i] * s.dt;
        b[i].x += a[i] * s.dt * s.dt;
        courant = dmax(courant, dist(Vec::Zero(), b[i].v) * s.dt / s.particleDistance);
    }
    return courant;
}
static Settings wholeSettings(int dim) {
    Settings s = baseSettings(dim);
    s.domain = box(-2, 3, -2, 2.5, -1, 1);
    s.dt = 0.03125;
    s.kinematicViscosity = 0.5;
    s.collisionDistance = 0.3125;
    s.coefficientOfRestitution = 0.375;
    s.soundSpeed = 4;
    s.re_forNumberDensity = dim == 3 ? 0.75 : 1.125;
    s.re_forGradient = 0.9375;
    s.re_forLaplacian = 1.3125;
    s.reMax = 1.3125;
    return s;
}
static std::vector<Body> wholeCluster(int dim, double u, bool touch, bool calm) {
    double z = dim == 3 ? 0.125 : 0, slow = calm ? 0.0625 : 1;
    std::vector<Body> b;
    auto put = [&](VType t, double x, double y, double zz, const Vec& v, double rho) { b.push_back({t, Vec(x, y, zz), v * slow, rho}); };
    put(VType::Fluid, 0, 0, z, Vec(u, 0.25, z), 1000);
    put(VType::Wall, 0.125, -0.5, 0, Vec::Zero(), 1000);
    put(VType::Fluid, touch ? (calm ? 0.3095 : 0.328125) : 0.5, 0.0625, -z, Vec(-0.5, 0, 0), 500);
    put(VType::DummyWall, -0.375, -0.625, z, Vec::Zero(), 1000);
    put(VType::Fluid, -0.125, 0.4375, 2 * z, Vec(0.125, -0.25, z), 1000);
    put(VType::Ghost, 0.1875, 0.25, 0, Vec(3, 3, 0), 800);
    put(VType::Wall, -0.5, 0.125, -z, Vec::Zero(), 1000);
    put(VType::Fluid, 2.9375, 0.3125, 0, Vec(4, 0, 0), 1000); // leaves the domain
    put(VType::Fluid, 0.4375, 0.5, z, Vec(0, 0, -z), 2000);
    put(VType::Fluid, -1.75, 2.25, 0, Vec(calm ? 5 : 16, -3, 0), 1000); // a fast one, alone: the Courant number
    for (int i = 0; i < (dim == 3 ? 24 : 6); i++) // fixed crowd: number densities above the reference
        put(i % 4 == 1 ? VType::DummyWall : VType::Wall, 0.3125 * (i % 6 - 2) + 0.03125, i / 6 == 0 ? -0.9375 : i / 6 == 1 ? 0.8125 : i / 6 == 2 ? -0.8125 : 0.9375, dim == 3 ? 0.25 * (i / 6 - 1) : 0, Vec::Zero(), 1000);
    return b;
}
static const double wholeSpeed[3] = {0.75, 2, -1.5};
static void wholeStep(int dim, int steps) {
    Settings s = wholeSettings(dim);
    int free = steps > 1 ? 2 : choice("free", 2);
    if (free == 0) s.coefficientOfRestitution = sym("restitution", 0, 1);
    bool calm = steps > 1 && choice("calm", 2);
    double slow = calm ? 0.0625 : 1;
    s.soundSpeed = free == 1 ? sym("sound", 1, 8) : 4 * slow;
    double z = dim == 3 ? 0.125 : 0;
    double u = wholeSpeed[choice("speed", 3)];
    std::vector<Body> b = wholeCluster(dim, u, choice("touch", 2), calm);
    Particles ps;
    for (auto& q : b) { addP(ps, q.type, q.x, q.v, q.rho, ps.size() % 3 - 1); vary(ps[size_t(ps.size() - 1)]); }
    Vec g(0.5 * slow, -4 * slow, 2 * z);
    MPS mps = explicitMps(s, ps, g);
    double c = 0;
    for (int t = 0; t < steps; t++) {
        if (steps > 1 && t == steps - 1) // walls of unknown density: their pressure is free in the last step
            for (int k : {1, 6}) b[size_t(k)].rho = mps.particles[size_t(k)].density = symi("rho", k, 100, 5000);
        Outcome o = guard([&] { mps.stepForward(); });
        check(truth(!o.exited && !o.threw), "a step ends normally");
        c = referenceStep(b, s, g);
    }
    const char* what = "a step is gravity and viscosity, motion, collision, density, pressure and correction, in this order";
    for (size_t i = 0; i < b.size(); i++) {
        const Particle& q = mps.particles[i];
        check(truth(q.type == b[i].type), what);
        check(closeV(q.position, b[i].x, 1e-6) && closeV(q.velocity, b[i].v, 1e-6), what);
        check(close(q.pressure, b[i].p, 1e-5) && close(q.numberDensity, b[i].n, 1e-6), what);
    }
    check(close(mps.courant, c, 1e-7), what);
    observeV("v0", mps.particles[0].velocity);
    for (int i = 0; i < 9; i++) observei("p", i, mps.particles[size_t(i)].pressure);
}
CASE(whole_step2) { wholeStep(2, 1); }
CASE(whole_step3) { wholeStep(3, 1); }
CASE(whole_steps) { wholeStep(2, 3); }

// ---------------------------------------------------------------- units
/// lengths by L, times by T, masses by M: the same state in other units
static void units(int dim) {
    static const double scale[4][3] = {{0.0009765625, 0.0078125, 0.0625}, {4096, 0.015625, 16}, {0.0625, 128, 0.0009765625}, {32, 32, 32}};
    const double* k = scale[choice("units", 4)];
    double L = k[0], T = k[1], M = k[2], V = L / T;
    Settings s = wholeSettings(dim), t = s;
    int free = choice("free", 3);
    if (free == 0) s.coefficientOfRestitution = sym("restitution", 0, 1);
    if (free == 1) s.soundSpeed = sym("sound", 1, 2);
    if (free == 2) s.cflCondition = sym("cfl", 0, 4);
    t = s;
    t.particleDistance *= L; t.dt *= T; t.kinematicViscosity *= L * V; t.collisionDistance *= L; t.soundSpeed *= V;
    t.re_forNumberDensity *= L; t.re_forGradient *= L; t.re_forLaplacian *= L; t.reMax *= L;
    t.domain = box(-2 * L, 3 * L, -2 * L, 2.5 * L, -L, L);
    bool calm = choice("calm", 2);
    std::vector<Body> b = wholeCluster(dim, wholeSpeed[choice("speed", 3)], choice("touch", 2), calm);
    Particles ps, qs;
    for (auto& q : b) {
        addP(ps, q.type, q.x, q.v, q.rho);
        addP(qs, q.type, q.x * L, q.v * V, q.rho * (M / (L * L * L)));
    }
    double slow = calm ? 0.0625 : 1;
    Vec g(0.5 * slow, -4 * slow, dim == 3 ? 0.25 : 0);
    MPS a = explicitMps(s, ps, g), c = explicitMps(t, qs, g * (V / T));
    Outcome o1, o2;
    for (int i = 0; i < (free == 2 ? 2 : 1); i++) {
        o1 = guard([&] { a.stepForward(); });
        o2 = guard([&] { c.stepForward(); });
    }
    const char* what = "the same state in other units gives the same result";
    check(truth(o1.exited == o2.exited && o1.threw == o2.threw && o1.err.empty() == o2.err.empty()), "a warning does not depend on the units");
    for (size_t i = 0; i < b.size(); i++) {
        const Particle &p = a.particles[i], &q = c.particles[i];
        check(truth(q.type == p.type), what);
        check(closeV(q.position / L, p.position, 1e-6) && closeV(q.velocity / V, p.velocity, 1e-6), what);
        check(close(q.pressure / (M / (L * T * T)), p.pressure, 1e-5) && close(q.numberDensity, p.numberDensity, 1e-6), what);
    }
    if (free != 1) check(close(c.courant, a.courant, 1e-7), what);
    observeV("v0", a.particles[0].velocity);
}
CASE(units2) { units(2); }
CASE(units3) { units(3); }

// ---------------------------------------------------------------- uniform motion
/// the same fluid seen from a moving system
static void moving(int dim, int steps) {
    Settings s = wholeSettings(dim);
    s.domain = box(-8, 8, -8, 8, -8, 8);
    s.soundSpeed = 1;
    s.particleDistance = 0.625; // the fluid is dense: pressures act
    double z = dim == 3 ? 0.125 : 0;
    static const double drift[4] = {3.25, -0.03125, 0.3, -24};
    Vec u(drift[choice("drift", 4)], choice("across", 2) ? 1.75 : 0, 8 * z);
    int free = steps > 1 ? 2 : choice("free", 2);
    if (free == 0) s.coefficientOfRestitution = sym("restitution", 0, 1);
    if (free == 1) s.soundSpeed = sym("sound", 1, 2);
    bool touch = choice("touch", 2), fast = choice("fast", 2);
    Particles ps, qs;
    auto put = [&](VType t, const Vec& x, const Vec& v, double rho) { addP(ps, t, x, v, rho); addP(qs, t, x, v + u, rho); };
    put(VType::Fluid, Vec(0, 0, z), Vec(fast ? 1.5 : 0.0625, 0.125, 0), 1000);
    put(VType::Fluid, Vec(touch ? 0.3046875 : 0.40625, 0.0625, -z), Vec(0, 0, z), 500);
    put(VType::Ghost, Vec(0.125, 0.1875, 0), Vec(1, 1, 0), 1000);
    put(VType::Fluid, Vec(-0.125, 0.4375, 2 * z), Vec(0.25, -0.125, -z), 1000);
    put(VType::Fluid, Vec(-0.375, -0.25, 0), Vec(0, 0.25, 0), 2000);
    for (int i = 0; i < 3; i++) put(VType::Fluid, Vec(0.375 * i - 0.375, -0.6875, z), Vec(0.0625 * i, 0, 0), 1000);
    put(VType::Fluid, Vec(-4, -6, 0), Vec(0.5, 32, 0), 1000); // alone: decides the Courant number
    Vec g(0.5, -4, 2 * z);
    MPS a = explicitMps(s, ps, g), b = explicitMps(s, qs, g);
    for (int i = 0; i < steps; i++) {
        if (steps > 1 && i == steps - 1) // the density of two is free in the last step
            for (size_t k : {size_t(3), size_t(4)}) a.particles[k].density = b.particles[k].density = symi("rho", int(k), 500, 4000);
        guard([&] { a.stepForward(); b.stepForward(); });
    }
    const char* what = "a uniform motion is added to the result and changes nothing else";
    for (size_t i = 0; i < size_t(ps.size()); i++) {
        const Particle &p = a.particles[i], &q = b.particles[i];
        check(truth(q.type == p.type), what);
        if (p.type == VType::Ghost) continue;
        check(closeV(q.position - u * (s.dt * steps), p.position, 1e-7) && closeV(q.velocity - u, p.velocity, 1e-7), what);
        check(close(q.pressure, p.pressure, 1e-6) && close(q.numberDensity, p.numberDensity, 1e-7), what);
    }
    observeV("v0", b.particles[0].velocity);
    observe("p3", b.particles[3].pressure);
}
CASE(drift2) { moving(2, 1); }
CASE(drift3) { moving(3, 1); }
CASE(drift_steps) { moving(2, 3); }
