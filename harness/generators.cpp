// The layouts the two generators write: their main() is run in a scratch directory, the files are read back, and a point that lies
// anywhere in or around the tank must find the material of the documented layout there.
#include "common.hpp"
#include "particles_loader/prof.hpp"
#include "particles_loader/vtu.hpp"
#include <filesystem>
#include <iostream>
#include <sstream>

extern "C" int dambreak_main(int argc, char** argv);    // main() of /repo/generator/generate_dambreak.cpp
extern "C" int hydrostatic_main(int argc, char** argv); // main() of /repo/generator/generate_hydrostatic.cpp

namespace {
struct Rect { double x0, x1, y0, y1; VType kind; };
Bool in(const Rect& r, double x, double y) { return lt(r.x0, x) && lt(x, r.x1) && lt(r.y0, y) && lt(y, r.y1); }

Particles generated(const char* name, int (*entry)(int, char**), int format) {
    std::string dir = tmpdir() + "/work";
    mkdirs(dir);
    auto cwd = std::filesystem::current_path();
    std::filesystem::current_path(dir);
    std::stringstream none;
    auto* old = std::cin.rdbuf(none.rdbuf());
    std::string arg = "generator";
    char* argv[2] = {&arg[0], nullptr};
    Outcome o = guard([&] { entry(1, argv); });
    std::cin.rdbuf(old);
    std::cin.clear();
    std::filesystem::current_path(cwd);
    check(truth(!o.threw && (!o.exited || o.status == 0)), "a generator ends normally");
    std::string base = dir + "/input/" + name + "/input";
    bool there = exists(base + ".prof") && exists(base + ".vtu");
    check(truth(there), "a generator writes the particles as PROF and VTU file");
    if (!there) discard("no file");
    std::pair<double, Particles> r;
    Outcome l = guard([&] {
        if (format) { ParticlesLoader::Vtu v; r = v.load(base + ".vtu", 1000); }
        else { ParticlesLoader::Prof p; r = p.load(base + ".prof", 1000); }
    });
    check(truth(!l.exited && !l.threw), "a generated file can be loaded");
    if (l.exited || l.threw) discard("not loaded");
    check(eq(r.first, 0.0), "a generated state starts at time 0");
    return r.second;
}

/// layers: the first rectangle that contains a point gives its material (Ghost: nothing)
void layout(const char* name, int (*entry)(int, char**), double l0, const std::vector<Rect>& layers, int nx, int ny) {
    int format = choice("format", 2);
    Particles ps = generated(name, entry, format);
    const Rect& all = layers.back();
    double eps = 0.01 * l0, h = l0 / 2, x0 = all.x0 - 2 * l0, y0 = all.y0 - 2 * l0, w = (all.x1 - all.x0 + 4 * l0) / nx, v = (all.y1 - all.y0 + 4 * l0) / ny;
    int bx = choice("column", nx), by = choice("row", ny);
    double fx = sym("x", 0, 1), fy = sym("y", 0, 1);
    double px = x0 + (bx + fx) * w, py = y0 + (by + fy) * v;
    double kind = double(int(VType::Ghost));
    for (size_t k = layers.size(); k-- > 0;) kind = ite(in(layers[k], px, py), double(int(layers[k].kind)), kind);
    Bool right = truth(true), found = eq(kind, double(int(VType::Ghost)));
    double here = 0;
    for (auto& p : ps) {
        double x = p.position.x(), y = p.position.y();
        check(truth(std::abs(p.position.z()) < 1e-12 && p.velocity.norm() < 1e-12 && std::abs(p.density - 1000) < 1e-6), "generated particles rest in the plane at the density of water");
        check(truth(x > x0 + l0 && x < x0 + nx * w - l0 && y > y0 + l0 && y < y0 + ny * v - l0), "no particle lies outside the tank");
        if (x < x0 + bx * w - l0 || x > x0 + (bx + 1) * w + l0 || y < y0 + by * v - l0 || y > y0 + (by + 1) * v + l0) continue;
        Bool inner = lt(dabs(px - x), h - eps) && lt(dabs(py - y), h - eps);
        Bool outer = lt(dabs(px - x), h + eps) && lt(dabs(py - y), h + eps);
        right = right && implies(inner, eq(kind, double(int(p.type))));
        found = found || (outer && eq(kind, double(int(p.type))));
        here = here + ite(inner, 1.0, 0.0);
    }
    check(right, "a particle is of the kind the layout has at its place");
    check(found, "every place of the layout is filled by a particle of its kind");
    check(le(here, 1.0), "no two particles share a place");
    observe("kind", kind);
    observe("here", here);
}
} // namespace

CASE(dambreak) {
    double l = 0.025, h = l / 2;
    layout("dambreak", dambreak_main, l,
           {{-h, 0.25 + h, -h, 0.5 + h, VType::Fluid}, {-h, 1 + h, -h, 0.6 + h, VType::Ghost}, {-2 * l - h, 1 + 2 * l + h, -2 * l - h, 0.6 + h, VType::Wall},
            {-4 * l - h, 1 + 4 * l + h, 0.6 - 2 * l - h, 0.6 + h, VType::Wall}, {-4 * l - h, 1 + 4 * l + h, -4 * l - h, 0.6 + h, VType::DummyWall}}, 7, 5);
}
CASE(hydrostatic) {
    double l = 0.012;
    layout("hydrostatic", hydrostatic_main, l,
           {{-0.18, 0.18, 0, 0.48, VType::Fluid}, {-0.18, 0.18, 0, 0.6, VType::Ghost}, {-0.18 - 2 * l, 0.18 + 2 * l, -2 * l, 0.6, VType::Wall},
            {-0.18 - 4 * l, 0.18 + 4 * l, -4 * l, 0.6, VType::DummyWall}}, 6, 7);
}
