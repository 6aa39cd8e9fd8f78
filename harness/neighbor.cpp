#include "common.hpp"
#include <algorithm>
#include <limits>

// expected neighbours by brute force over all pairs; every list must match exactly
static void exactLists(Particles& q, double re, const std::vector<int>& only = {}) {
    for (auto& pi : q) {
        if (pi.type == VType::Ghost) continue;
        if (!only.empty() && std::find(only.begin(), only.end(), pi.id) == only.end()) continue;
        for (auto& pj : q) {
            if (pj.id == pi.id) continue;
            int found = 0;
            double d = -1;
            for (auto& nb : pi.neighbors)
                if (nb.id == pj.id) { found++; d = nb.distance; }
            bool want = false;
            double e = 0;
            if (pj.type != VType::Ghost) {
                e = dist(pi.position, pj.position);
                want = decide(lt(e, re));
            }
            if (want) {
                check(truth(found == 1), "every particle closer than the search radius is listed exactly once");
                if (found == 1) check(close(d, e, 1e-9), "listed distance is the distance between the particles");
            } else {
                check(truth(found == 0), "no ghost and no particle at or beyond the search radius is listed");
            }
        }
        int self = 0, bad = 0;
        for (auto& nb : pi.neighbors) {
            if (nb.id == pi.id) self++;
            if (nb.id < 0 || nb.id >= q.size()) bad++;
        }
        check(truth(self == 0), "a particle is not its own neighbour");
        check(truth(bad == 0), "neighbour ids refer to existing particles");
    }
}
static VType pick(const char* n, int i) {
    static const VType t[3] = {VType::Fluid, VType::Wall, VType::Ghost};
    return t[choicei(n, i, 3)];
}
// three particles on a line parallel to one axis, anywhere in a domain that is not a multiple of the radius
CASE(line) {
    int ax = choice("axis", 3);
    double re = 1.0;
    static const double hi[3] = {2.75, 1.75, 4.25};
    Domain d = box(-0.5, hi[0], -0.5, hi[1], -0.5, hi[2]);
    Particles ps;
    for (int i = 0; i < 3; i++) {
        Vec x(0.25, 1.0, 2.5);
        x[ax] = symi("x", i, -0.5, hi[ax]);
        addP(ps, i == 0 ? VType::Fluid : i == 1 ? VType::Wall : pick("type", i), x, Vec::Zero());
    }
    NeighborSearcher ns(re, d, size_t(ps.size()));
    ns.setNeighbors(ps);
    exactLists(ps, re);
    for (int i = 0; i < 3; i++) observei("n", i, double(ps[size_t(i)].neighbors.size()));
}
// two particles anywhere in 2 x 2 x 2 cells
CASE(pair3d) {
    double re = 1.0;
    Domain d = box(0, 2, 0, 2, 0, 2);
    Particles ps;
    Vec a = symVec("a", 0.25, 1.75), b = symVec("b", 0.25, 1.75);
    double e = dist(a, b);
    assume(!close(e, re, 1e-6));
    addP(ps, VType::Fluid, a, Vec::Zero());
    addP(ps, VType::DummyWall, b, Vec::Zero());
    NeighborSearcher ns(re, d, size_t(ps.size()));
    ns.setNeighbors(ps);
    exactLists(ps, re);
    observe("n0", double(ps[0].neighbors.size()));
}
// searching again after the particles moved (and one became a ghost) gives the lists of the new positions
CASE(again) {
    double re = 1.0;
    Domain d = box(-0.5, 2.75, -0.5, 2.75, -0.5, 2.75);
    Particles ps;
    int k = choice("kind", 3);
    for (int i = 0; i < 3; i++) addP(ps, i == 2 ? typeOf(k) : VType::Fluid, Vec(0.25 + 0.5 * i, 0.75, 0), Vec::Zero(), 1000, i - 1);
    NeighborSearcher ns(re, d, size_t(ps.size()));
    ns.setNeighbors(ps);
    for (int i = 0; i < 2; i++) ps[size_t(i)].position[0] = symi("x", i, -0.5, 2.75);
    if (choice("ghost", 2)) ps[2].type = VType::Ghost;
    ns.setNeighbors(ps);
    exactLists(ps, re);
}
// four particles in one row of cells plus a fifth in the far corner: chains of a bucket
CASE(crowd) {
    double re = 1.0;
    Domain d = box(0, 3, 0, 3, 0, 0);
    Particles ps;
    double x[4] = {0.125, 0.25, 0.5, 2.0};
    for (int i = 0; i < 4; i++) addP(ps, i == 1 ? VType::Wall : VType::Fluid, Vec(x[i], 0.5, 0), Vec::Zero());
    addP(ps, VType::Fluid, Vec(sym("x", 0, 3), 0.5, 0), Vec::Zero());
    addP(ps, VType::Fluid, Vec(2.875, sym("y", 0, 3), 0), Vec::Zero());
    assume(!close(dist(ps[4].position, ps[5].position), re, 1e-6));
    for (int i = 0; i < 4; i++) assume(!close(dist(ps[size_t(i)].position, ps[5].position), re, 1e-6));
    NeighborSearcher ns(re, d, size_t(ps.size()));
    ns.setNeighbors(ps);
    exactLists(ps, re);
}

// a block of 100 particles with up to 40 neighbours each, one more moving through it along any axis
CASE(dense) {
    double re = 1.0;
    Domain d = box(0, 2.25, -1, 1.5, 0, 1.75);
    Particles ps;
    int ax = choice("axis", 3);
    for (int i = 0; i < 5; i++)
        for (int j = 0; j < 5; j++)
            for (int k = 0; k < 4; k++) addP(ps, (i + j + k) % 7 == 3 ? VType::Ghost : (i + k) % 3 == 0 ? VType::Wall : (i + j) % 4 == 1 ? VType::DummyWall : VType::Fluid, Vec(0.1875 + 0.4375 * i, -0.8125 + 0.4375 * j, 0.1875 + 0.4375 * k), Vec::Zero());
    Vec x(1, 0.25, 1);
    x[ax] = ax == 0 ? sym("x", 0, 2.25) : ax == 1 ? sym("x", -1, 1.5) : sym("x", 0, 1.75);
    addP(ps, VType::Fluid, x, Vec::Zero());
    NeighborSearcher ns(re, d, size_t(ps.size()));
    ns.setNeighbors(ps);
    exactLists(ps, re);
    observe("n", double(ps[100].neighbors.size()));
}

// many more neighbours than a regular lattice has: 344 particles, up to 230 neighbours
CASE(packed) {
    double re = 1.0;
    Domain d = box(0, 2, 0, 2, 0, 2);
    Particles ps;
    for (int i = 0; i < 7; i++)
        for (int j = 0; j < 7; j++)
            for (int k = 0; k < 7; k++) addP(ps, (i + j + k) % 11 == 3 ? VType::Ghost : (i + k) % 3 == 0 ? VType::Wall : (i + j) % 4 == 1 ? VType::DummyWall : VType::Fluid, Vec(0.25 + 0.25 * i, 0.25 + 0.25 * j, 0.25 + 0.25 * k), Vec::Zero());
    addP(ps, VType::Fluid, Vec(sym("x", 0.90625, 1.09375), 1.0625, 1), Vec::Zero());
    NeighborSearcher ns(re, d, size_t(ps.size()));
    ns.setNeighbors(ps);
    exactLists(ps, re, {343, 171, 172, 0, 342, 164});
    observe("n", double(ps[343].neighbors.size()));
}

// a domain of 200 thousand cells, with particles at its far corner
CASE(vast) {
    double re = 1.0;
    Domain d = box(-50, 150.25, 1000, 1200.5, -1, 1.5);
    Particles ps;
    int ax = choice("axis", 3);
    Vec x(149.5, 1199.75, 0.75);
    x[ax] = ax == 0 ? sym("x", 148, 150.25) : ax == 1 ? sym("x", 1198, 1200.5) : sym("x", -1, 1.5);
    addP(ps, VType::Fluid, Vec(149.25, 1200, 0.5), Vec::Zero());
    addP(ps, VType::Fluid, x, Vec::Zero());
    addP(ps, VType::Wall, Vec(149.75, 1199.5, 1.25), Vec::Zero());
    addP(ps, VType::Fluid, Vec(-49.75, 1000.25, -0.75), Vec::Zero());
    addP(ps, VType::Fluid, Vec(-49.25, 1000.5, -0.25), Vec::Zero());
    addP(ps, VType::Fluid, Vec(149.5, 1000.25, 0.5), Vec::Zero());
    for (int i = 0; i < 6; i++) if (i != 1) assume(!close(dist(ps[size_t(i)].position, x), re, 1e-6));
    NeighborSearcher ns(re, d, size_t(ps.size()));
    ns.setNeighbors(ps);
    exactLists(ps, re);
    observe("n", double(ps[1].neighbors.size()));
}

// ------------------------------------------------------------------ leaving the domain
static void inOut(Particles& ps, const Domain& d, int k, const Vec& x, VType before) {
    bool in = decide(le(d.xMin, x[0]) && le(x[0], d.xMax) && le(d.yMin, x[1]) && le(x[1], d.yMax) && le(d.zMin, x[2]) && le(x[2], d.zMax));
    Particle& p = ps[size_t(k)];
    if (before == VType::Ghost || !in) check(truth(p.type == VType::Ghost), "a particle outside the domain becomes a ghost");
    else check(truth(p.type == before), "a particle inside the domain keeps its type");
    check(sameV(p.position, x), "the search does not move particles");
    check(sameV(p.velocity, Vec(1, 2, 3 + k)) && sameV(p.acceleration, Vec::Zero()) && eq(p.density, 700) && truth(p.id == k && p.fluidType == 5), "the search changes nothing else about a particle");
    check(eq(p.pressure, 11) && eq(p.numberDensity, 12), "the search changes neither pressure nor density");
    check(eq(p.minimumPressure, 13) && eq(p.sourceTerm, 14) && truth(p.boundaryCondition == FluidState::Inner), "the search does not change the state of a particle");
}
CASE(leave) {
    bool flat = choice("flat", 2); // the domain of a two-dimensional simulation has no height
    Domain d = flat ? box(-1, 1.5, 0, 1.25, 0, 0) : box(-1, 1.5, 0, 1.25, -0.5, 0.5);
    Particles ps;
    Vec a = symVec("a", -50, 50);
    VType t = typeOf(choice("type", 4));
    addP(ps, t, a, Vec(1, 2, 3), 700, 5);
    addP(ps, VType::Fluid, Vec(0.25, 0.5, 0), Vec(1, 2, 4), 700, 5);
    for (auto& p : ps) { p.pressure = 11; p.numberDensity = 12; p.minimumPressure = 13; p.sourceTerm = 14; p.boundaryCondition = FluidState::Inner; }
    NeighborSearcher ns(4.0, d, size_t(ps.size()));
    Outcome o = guard([&] { ns.setNeighbors(ps); });
    check(truth(!o.exited && !o.threw), "an escaping particle does not stop the simulation");
    inOut(ps, d, 0, a, t);
    inOut(ps, d, 1, Vec(0.25, 0.5, 0), VType::Fluid);
    if (ps[0].type == VType::Ghost) check(truth(ps[1].neighbors.empty()), "a particle that left the domain is nobody's neighbour");
    observe("type", double(int(ps[0].type)));
}
// after it left, a particle stays out even if its coordinates are inside again
CASE(stays_out) {
    Domain d = box(-1, 1.5, 0, 1.25, -0.5, 0.5);
    Particles ps;
    addP(ps, VType::Fluid, Vec(sym("far", 2, 50), 0.5, 0), Vec::Zero());
    addP(ps, VType::Fluid, Vec(0.25, 0.5, 0), Vec::Zero());
    NeighborSearcher ns(4.0, d, size_t(ps.size()));
    guard([&] { ns.setNeighbors(ps); });
    ps[0].position[0] = sym("x", -1, 1.5);
    guard([&] { ns.setNeighbors(ps); });
    check(truth(ps[0].type == VType::Ghost), "a ghost stays a ghost");
    check(truth(ps[1].neighbors.empty()), "a ghost inside the domain is nobody's neighbour");
}

// nearly everything, or everything, escapes: at once or one after the other
CASE(exodus) {
    Domain d = box(0, 8, 0, 8, -0.5, 0.5);
    int slow = choice("slow", 2), n = slow ? 40 : 1500;
    Particles ps;
    Vec a(sym("x", -50, 50), 4, 0);
    addP(ps, typeOf(choice("type", 2)), a, Vec::Zero());
    for (int i = 0; i < n; i++) addP(ps, VType::Fluid, slow ? Vec(0.25 + 0.125 * i, 2, 0) : Vec(0.5, -1.0 - i, 0), Vec::Zero());
    NeighborSearcher ns(1.0, d, size_t(ps.size()));
    VType before = ps[0].type;
    for (int t = 0; t < (slow ? 12 : 2); t++) {
        Outcome o = guard([&] { ns.setNeighbors(ps); });
        check(truth(!o.exited && !o.threw), "the search goes on however many particles have escaped");
        int wrong = 0;
        for (int i = 1; i <= n; i++) {
            double x = ps[size_t(i)].position[0], y = ps[size_t(i)].position[1];
            if ((ps[size_t(i)].type == VType::Ghost) != (x > 8 || y < 0)) wrong++;
            if (slow) ps[size_t(i)].position[0] += 1;
        }
        check(truth(wrong == 0), "exactly the particles outside have become ghosts");
        bool in = decide(le(0.0, a[0]) && le(a[0], 8.0));
        check(truth(ps[0].type == (in ? before : VType::Ghost)), "a single particle follows the same rule");
    }
    observe("type", double(int(ps[0].type)));
}

// ------------------------------------------------------------------ memory safety for every position, domain and radius
CASE(grid_any) {
    double re = sym("re", 0.5, 1.25);
    double lx = sym("lx", 0.125, 2), x0 = sym("x0", -2, 2);
    Domain d = box(x0, 0, 0, 1, 0, 0);
    d.xMax = x0 + lx;
    d.xLength = d.xMax - d.xMin;
    Particles ps;
    addP(ps, VType::Fluid, Vec(sym("px", -10, 10), sym("py", -10, 10), 0), Vec::Zero());
    addP(ps, VType::Wall, Vec(sym("qx", -10, 10), 1.0, 0), Vec::Zero());
    NeighborSearcher ns(re, d, size_t(ps.size()));
    guard([&] { ns.setNeighbors(ps); });
    int in = 0;
    for (auto& p : ps) if (p.type != VType::Ghost) in++;
    check(truth(in >= 0), "search returns for every position, domain length and radius");
    observe("in", in);
}
CASE(corner3d) {
    static const double radii[3] = {0.75, 0.5, 1}; // the length of the domain is a multiple of the last two
    double re = radii[choice("radius", 3)];
    Domain d = box(0, 1, 0, 1, 0, 1);
    Particles ps;
    addP(ps, VType::Fluid, symVec("a", 0, 1), Vec::Zero());
    NeighborSearcher ns(re, d, size_t(ps.size()));
    guard([&] { ns.setNeighbors(ps); });
    check(truth(ps[0].type == VType::Fluid), "a particle anywhere in the closed domain can be searched");
}
// non-finite coordinates (a diverged simulation)
CASE(nonfinite) {
    int ax = choice("axis", 3), k = choice("value", 3);
    double bad = k == 0 ? std::numeric_limits<double>::quiet_NaN() : k == 1 ? HUGE_VAL : -HUGE_VAL;
    Domain d = box(0, 1, 0, 1, 0, 1);
    Particles ps;
    Vec x = symVec("a", 0, 1);
    x[ax] = bad;
    addP(ps, VType::Fluid, x, Vec::Zero());
    addP(ps, VType::Fluid, Vec(0.5, 0.5, 0.5), Vec::Zero());
    NeighborSearcher ns(0.75, d, size_t(ps.size()));
    guard([&] { ns.setNeighbors(ps); });
    check(truth(ps[0].type == VType::Ghost), "a particle with a non-finite coordinate becomes a ghost");
    check(truth(ps[1].type == VType::Fluid && ps[1].neighbors.empty()), "the other particles are unaffected");
}
