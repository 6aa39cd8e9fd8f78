#include "common.hpp"
#include "diskfault.hpp"
#include "particles_loader/csv.hpp"
#include "particles_loader/prof.hpp"
#include "particles_loader/vtu.hpp"
#include "simulation.hpp"
#include "generator_src/generator_dialogue.hpp"
#include <cstring>
#include <filesystem>
#include <iostream>
#include <sstream>

extern "C" int mps_main(int argc, char** argv); // main() of /repo/src/main.cpp

static std::string S(double v) { return text(v); }
static Bool near6(double got, double want) { return le(dabs(got - want), dabs(want) * 6e-6 + 1e-12); }
static Bool nearV(const Vec& a, const Vec& b) { return near6(a[0], b[0]) && near6(a[1], b[1]) && near6(a[2], b[2]); }
static std::string L(const Vec& v) { return "[" + S(v[0]) + ", " + S(v[1]) + ", " + S(v[2]) + "]"; }

// ---------------------------------------------------------------- a run of the whole program, lone fluid particle
struct Run {
    double dt = 0.0625, start = 0, end = 1, period = 0.25;
    Vec x0 = Vec(1, 2, 0), v0 = Vec(0.5, 0, 0), g = Vec(0, -8, 0);
    std::string in, out, yml, particles, method = "Explicit", binary, nu = "1.0e-6", cfl = "1000";
    explicit Run(const std::string& tag = "") {
        setClock([](int) { return 1700000000000000000L; }); // the progress report is outside the claims
        in = tmpdir() + "/in" + tag;
        out = tmpdir() + "/out" + tag;
        mkdirs(in);
        mkdirs(out);
    }
    std::string prof() const {
        return S(start) + "\n2\n1 " + S(x0[0]) + " " + S(x0[1]) + " " + S(x0[2]) + " " + S(v0[0]) + " " + S(v0[1]) + " " + S(v0[2]) + "\n2 -30 -30 0 0 0 0\n";
    }
    void write() {
        if (particles.empty()) { particles = in + "/p.prof"; writeFile(particles, prof()); }
        std::string y = "dim: 2\nparticleDistance: 0.5\ndt: " + S(dt) + "\nendTime: " + S(end) + "\noutputPeriod: " + S(period) +
            "\ncflCondition: " + cfl + "\nnumPhysicalCores: 1\ndomainMin: [-64, -64, -1]\ndomainMax: [64, 64, 1]\ndefaultDensity: 1000\nkinematicViscosity: " + nu + "\ngravity: " + L(g) +
            "\nsurfaceDetection-numberDensity-threshold: 0.97\nsurfaceDetection-particleDistribution: true\nsurfaceDetection-particleDistribution-threshold: 0.85\n"
            "pressureCalculationMethod: " + method + "\ncompressibility: 0.45e-9\nrelaxationCoefficientForPressure: 0.2\nsoundSpeed: 10\ncollisionDistanceRatio: 0.5\n"
            "coefficientOfRestitution: 0.2\nradiusRatioForNumberDensity: 8\nradiusRatioForGradient: 8\nradiusRatioForLaplacian: 8\n" + binary + "particlesPath: " + particles + "\n";
        yml = in + "/s.yml";
        writeFile(yml, y);
    }
    Outcome go() {
        write();
        return guard([&] {
            std::filesystem::path a = yml, b = out;
            Simulation s(a, b);
            s.run();
        });
    }
    std::string file(const char* ext, int k) const {
        std::string n = std::to_string(k);
        while (n.size() < 4) n = "0" + n;
        return out + "/" + ext + "/output_" + n + "." + ext;
    }
    int count(const char* ext) const {
        int n = 0;
        std::error_code ec;
        for (auto& e : std::filesystem::directory_iterator(out + "/" + ext, ec)) { (void) e; n++; }
        return n;
    }
};
static std::pair<double, Particles> readBack(const Run& r, int fmt, int k) {
    if (fmt == 0) { ParticlesLoader::Prof l; return l.load(r.file("prof", k), 1000); }
    if (fmt == 1) { ParticlesLoader::Csv l; return l.load(r.file("csv", k), 1000); }
    ParticlesLoader::Vtu l;
    return l.load(r.file("vtu", k), 1000);
}
static const char* EXT[3] = {"prof", "csv", "vtu"};

/// what the run must leave behind: the states after the listed numbers of steps, in order
static void expectFiles(const Run& r, const std::vector<int>& steps, bool contents = true) {
    for (int f = 0; f < 3; f++) {
        check(truth(r.count(EXT[f]) == int(steps.size())), "exactly the scheduled files are written, in every format");
        for (int k = 0; k < int(steps.size()); k++) {
            bool there = exists(r.file(EXT[f], k));
            check(truth(there), "the output files are numbered consecutively from 0000");
            if (!there || !contents) continue;
            auto [t, ps] = readBack(r, f, k);
            int n = steps[size_t(k)];
            check(near6(t, r.start + n * r.dt), "an output file carries the time at which it was due");
            check(truth(ps.size() == 2), "an output file holds all particles");
            if (ps.size() != 2) continue;
            Vec v = r.v0 + r.g * (n * r.dt);
            Vec x = r.x0 + r.v0 * (n * r.dt) + r.g * (r.dt * r.dt * (n * (n + 1) / 2.0));
            check(nearV(ps[0].velocity, v) && nearV(ps[0].position, x), "an output file shows the state at its time");
            check(truth(ps[0].type == VType::Fluid && ps[1].type == VType::Wall), "an output file keeps the kinds of the particles");
        }
    }
}
/// reference schedule: the start, then every step that reaches the next multiple of the output period
static std::vector<int> schedule(const Run& r, int* total = nullptr) {
    std::vector<int> s{0};
    int n = 0;
    while (decide(lt(r.start + n * r.dt, r.end))) {
        n++;
        if (decide(le(r.period * double(s.size()), n * r.dt))) s.push_back(n);
    }
    if (total) *total = n;
    return s;
}
static void good(const Outcome& o) { check(truth(!o.exited && !o.threw), "a valid run ends normally"); }

// the disk fills up at some point of a run
CASE(disk_full_run) {
    double part = sym("part", 0, 1);
    std::string vtk = choice("binary", 2) ? "outputVtkInBinary: true\n" : "";
    auto make = [&](const char* tag) {
        Run r(tag);
        r.end = 0.1875;
        r.period = 0.0625;
        r.binary = vtk;
        r.g = Vec(0, sym("g", -9, -1), 0);
        return r;
    };
    Run r = make("");
    long size = 0;
    {
        r.write();
        Disk d;
        std::string y = readFile(r.yml);
        Outcome o = guard([&] { std::filesystem::path a = r.yml, b = r.out; Simulation s(a, b); s.run(); });
        good(o);
        size = diskWritten;
    }
    if (size == 0) return; // written past the interposed calls: the fault cannot be injected
    Run q("b");
    q.end = r.end; q.period = r.period; q.binary = vtk; q.g = r.g;
    q.write();
    Outcome o;
    bool done = false;
    {
        Disk d(part * double(size - 1), choice("freed", 2) == 1);
        o = guard([&] { std::filesystem::path a = q.yml, b = q.out; Simulation s(a, b); s.run(); done = true; });
    }
    check(truth(!done && (o.threw || (o.exited && o.status != 0))), "a run whose results cannot be written completely fails");
    check(truth(q.count("prof") <= 4 && r.count("prof") == 4), "nothing is written beyond the schedule");
}

// end time, start time, time step and output period arbitrary
CASE(schedule) {
    Run r;
    r.g = Vec(0, -8, 0);
    r.dt = sym("dt", 0.0625, 0.25);
    r.start = sym("start", 0, 2);
    double span = sym("span", -0.25, thorough() ? 0.75 : 0.4375);
    r.end = r.start + span;
    r.period = sym("period", 0.03125, 0.5);
    // avoid demanding one side of an exact tie that rounding may decide either way
    for (int k = 0; k < 14; k++) assume(!close(span, k * r.dt, 1e-9));
    for (int k = 1; k < 13; k++)
        for (int m = 1; m <= k; m++) assume(!close(r.period * m, k * r.dt, 1e-9));
    Outcome o = r.go();
    good(o);
    int n = 0;
    auto s = schedule(r, &n);
    expectFiles(r, s, true);
    observe("files", double(s.size()));
}
// the number of steps
CASE(end_time) {
    Run r;
    r.dt = 0.125;
    r.start = sym("start", -2, 2);
    double span = sym("span", -1, 1.25);
    r.end = r.start + span;
    for (int k = 0; k < 14; k++) assume(!close(span, k * r.dt, 1e-9));
    r.write();
    double last = 0;
    int steps = -1;
    Outcome o = guard([&] {
        std::filesystem::path a = r.yml, b = r.out;
        Simulation s(a, b);
        s.run();
        last = s.time;
        steps = s.timeStep;
    });
    good(o);
    check(close(last, r.start + steps * r.dt, 1e-9), "simulated time advances by the time step");
    check(le(r.end, last), "a run continues until its end time is reached");
    if (steps > 0) check(lt(last - r.dt, r.end), "a run stops at the first step that reaches its end time");
    else check(le(r.end, r.start), "a run that starts before its end time does something");
    observe("steps", steps);
}
// hundreds of steps
CASE(long_run) {
    Run r;
    int n = thorough() ? 2500 : 700;
    r.dt = 0x1p-10;
    r.start = sym("start", -1, 10);
    r.end = r.start + (n + sym("part", -1.4, 1.4)) * r.dt;
    r.period = 4;
    for (int k = n - 3; k < n + 4; k++) assume(!close(r.end - r.start, k * r.dt, 1e-9));
    r.g = Vec::Zero();
    r.write();
    double last = 0;
    int steps = -1;
    Outcome o = guard([&] {
        std::filesystem::path a = r.yml, b = r.out;
        Simulation s(a, b);
        s.run();
        last = s.time;
        steps = s.timeStep;
    });
    good(o);
    check(close(last, r.start + steps * r.dt, 1e-9), "simulated time advances by the time step in long runs");
    check(le(r.end, last), "a long run continues until its end time is reached");
    check(lt(last - r.dt, r.end), "a long run stops at the first step that reaches its end time");
    observe("steps", steps);
}
// ties are exact for binary fractions: output exactly at multiples of the period
CASE(schedule_exact) {
    Run r;
    r.dt = 0.0625;
    r.start = 0.25 * choice("start", 3);
    static const double per[4] = {0.0625, 0.125, 0.1875, 0.25};
    r.period = per[choice("period", 4)];
    r.end = r.start + 0.5;
    r.x0[0] = sym("x", -2, 2);
    Outcome o = r.go();
    good(o);
    auto s = schedule(r);
    check(truth(int(s.size()) == 1 + int(0.5 / r.period)), "a period dividing the run gives its number of files plus one");
    expectFiles(r, s);
}
// more files than fit the four digits of the names
CASE(many_files) {
    Run r;
    r.dt = 0.0009765625;
    r.period = 0.0009765625;
    int n = 10001;
    r.end = n * r.dt;
    r.v0 = Vec(sym("u", -0.03125, 0.03125), 0, 0);
    r.g = Vec(0, 0, 0);
    Outcome o = r.go();
    good(o);
    std::vector<int> s;
    for (int k = 0; k <= n; k++) s.push_back(k);
    expectFiles(r, s, false);
    for (int k : {9, 10, 99, 100, 999, 1000, 9999, 10000, n}) {
        auto [t, ps] = readBack(r, 0, k);
        check(near6(t, k * r.dt), "the number of a file gives its time when every step is saved");
        check(nearV(ps[0].position, Vec(r.x0 + r.v0 * (k * r.dt))), "a late file shows the late state");
    }
}
// text or binary VTK files; both pressure methods
CASE(vtk_option) {
    int b = choice("binary", 3);
    Run r;
    r.method = choice("method", 2) ? "Explicit" : "Implicit";
    if (r.method == "Implicit") setSolverHook([](int n, const double* A, const double* b, double* x) {
        for (int i = 0; i < n; i++) x[i] = b[i] / A[i * n + i];
        return true;
    });
    r.binary = b == 0 ? "" : b == 1 ? "outputVtkInBinary: true\n" : "outputVtkInBinary: false\n";
    r.end = 0.125;
    r.period = 0.0625;
    r.x0[0] = sym("x", -2, 2);
    Outcome o = r.go();
    good(o);
    for (int k = 0; k < 3; k++) {
        std::string v = readFile(r.file("vtu", k));
        check(truth((v.find("AppendedData") != std::string::npos) == (b == 1)), "VTK files are binary exactly when asked for");
        check(truth((v.find("format=\"ascii\"") != std::string::npos) == (b != 1)), "VTK files are text unless binary is asked for");
        auto [t, ps] = readBack(r, 0, k);
        check(near6(t, k * r.dt) && truth(ps.size() == 2), "the other formats do not depend on the VTK option");
    }
}
// the option holds for every file of a longer run
CASE(vtk_late) {
    Run r;
    r.dt = r.period = 0.0009765625;
    int n = thorough() ? 1010 : 130;
    r.end = n * r.dt;
    r.v0 = Vec(sym("u", -1, 1), 0, 0);
    bool b = choice("binary", 2);
    if (b) r.binary = "outputVtkInBinary: true\n";
    Outcome o = r.go();
    good(o);
    for (int k = 0; k <= n; k++) {
        std::string v = readFile(r.file("vtu", k));
        check(truth((v.find("AppendedData") != std::string::npos) == b && (v.find("format=\"ascii\"") != std::string::npos) != b), "every VTK file of a run is binary exactly when asked for");
    }
}
// a saved state can be used as the input of another run, which continues it
CASE(restart_run) {
    int fmt = choice("format", 3);
    Run a("a"), b("b");
    a.dt = b.dt = 0.0625;
    a.period = b.period = 0.0625;
    a.start = sym("start", 0, 1);
    a.v0 = Vec(sym("u", 0.25, 1), sym("w", 0.25, 1), 0);
    a.g = b.g = Vec(0, 2, 0);
    a.end = a.start + 0.21875;
    Outcome oa = a.go();
    good(oa);
    int k = choice("from", 3);
    b.particles = a.file(EXT[fmt], k);
    check(truth(exists(b.particles)), "the state to restart from was saved");
    if (!exists(b.particles)) return;
    b.end = a.end;
    Outcome ob = b.go();
    good(ob);
    check(truth(exists(b.out + "/" + std::filesystem::path(b.particles).filename().string())), "the state a run was restarted from is kept with its results");
    int n = 4 - k;
    for (int f = 0; f < 3; f++) check(truth(b.count(EXT[f]) == n + 1), "a restarted run performs the remaining steps");
    auto [ta, pa] = readBack(a, 0, 4);
    if (!exists(b.file("prof", n))) return;
    auto [tb, pb] = readBack(b, 0, n);
    check(le(dabs(ta - tb), 1e-4), "a restarted run continues the time of the saved state");
    check(truth(pa.size() == pb.size()), "a restarted run has the particles of the saved state");
    for (int i = 0; i < 2; i++)
        for (int c = 0; c < 3; c++) {
            check(le(dabs(pa[size_t(i)].position[c] - pb[size_t(i)].position[c]), 1e-3), "a restarted run reaches the same positions as the uninterrupted one");
            check(le(dabs(pa[size_t(i)].velocity[c] - pb[size_t(i)].velocity[c]), 1e-4), "a restarted run reaches the same velocities as the uninterrupted one");
        }
}
// the same input gives the same results, whatever the clock shows, wherever the files are and whatever ran before
CASE(reproducible) {
    bool implicit = choice("method", 2);
    double u = implicit ? 1.5 : sym("u", 1.25, 1.75), y = implicit ? 0.125 : 0;
    std::string method = implicit ? "Implicit" : "Explicit", vtk = choice("binary", 2) ? "outputVtkInBinary: true\n" : "";
    setSolverHook([](int n, const double*, const double*, double* x) { for (int i = 0; i < n; i++) x[i] = 3.5 * i; return true; });
    auto make = [&](Run& r) {
        r.end = 0.15625;
        r.period = 0.125; // the first and the last step are not saved
        r.cfl = "0.75";
        r.nu = implicit ? "0.5" : "0";
        r.method = method;
        r.binary = vtk;
        r.g = implicit ? Vec(0.5, -4, 0) : Vec(0.5, 0, 0);
        r.particles = r.in + "/p.csv";
        writeFile(r.particles, "0\n5\ndensity,type,fluidType,x,y,z,vx,vy,vz\n1000,1,1,1,0,0," + S(u) + ",0,0\n500,1,2,1.53125," + S(y) + ",0," + S(-u) + ",0,0\n1000,2,0,0.5,-0.5,0,0,0,0\n1000,3,0,-1,-0.5,0,0,0,0\n1000,1,1,63.9375,5,0,4,0,0\n");
    };
    Run a("a");
    make(a);
    Outcome oa = a.go();
    good(oa);
    if (choice("before", 2)) { // another run in between
        Run c("c");
        c.end = 0.25;
        c.v0 = Vec(7, -3, 0); // beyond the Courant limit of the others
        c.dt = 0.125;
        c.nu = "0.01";
        Outcome oc = c.go();
        good(oc);
    }
    Run b("elsewhere/and-deeper");
    make(b);
    writeFile(b.out + "/notes.txt", "unrelated");
    static long now;
    now = 1700000000123456789L;
    setClock([](int k) { now += k % 3 == 2 ? -7200000000000L : 5400000000001L; return now; }); // hours pass, and the clock is set back
    Outcome ob = b.go();
    good(ob);
    const char* what = "the same input gives the same results";
    for (int f = 0; f < 3; f++) {
        check(truth(a.count(EXT[f]) == 2 && b.count(EXT[f]) == 2), what);
        for (int k = 0; k < 2 && exists(a.file(EXT[f], k)) && exists(b.file(EXT[f], k)); k++) {
            if (f == 2 && !vtk.empty()) { check(truth(readFile(a.file(EXT[f], k)).size() == readFile(b.file(EXT[f], k)).size()), what); continue; }
            auto [ta, pa] = readBack(a, f, k);
            auto [tb, pb] = readBack(b, f, k);
            check(near6(ta, tb) && truth(pa.size() == 5 && pb.size() == 5), what);
            for (int i = 0; i < 5 && pa.size() == 5 && pb.size() == 5; i++) {
                const Particle &p = pa[size_t(i)], &q = pb[size_t(i)];
                check(truth(p.type == q.type && p.fluidType == q.fluidType), what);
                check(nearV(p.position, q.position) && nearV(p.velocity, q.velocity) && near6(p.density, q.density), what);
            }
        }
    }
    check(truth(readFile(b.out + "/notes.txt") == "unrelated"), "other files next to the results are left alone");
}
// two fluids of different densities collide after the restart; only CSV files carry several fluids
CASE(restart_mixed) {
    Run a("a"), b("b");
    a.end = b.end = 0.15625; // 3 steps
    a.period = b.period = 0.0625;
    a.g = b.g = Vec::Zero();
    a.nu = b.nu = "0";
    int what = choice("free", 3);
    double rho = what == 0 ? sym("rho", 500, 4000) : what == 1 ? 500 : 4000, u = what ? sym("u", 1.25, 1.75) : 1.5;
    a.particles = a.in + "/p.csv";
    // 0.53125 apart, limit 0.25: they collide in the second step, far from the limit
    writeFile(a.particles, "0\n3\ndensity,type,fluidType,x,y,z,vx,vy,vz\n" + S(rho) + ",1,1,1,0,0," + S(u) + ",0,0\n1000,1,2,1.53125,0,0," + S(-u) + ",0,0\n1000,3,0,-30,-30,0,0,0,0\n");
    Outcome oa = a.go();
    good(oa);
    int k = choice("from", 2);
    b.particles = a.file("csv", k);
    check(truth(exists(b.particles)), "the state to restart from was saved");
    if (!exists(b.particles)) return;
    Outcome ob = b.go();
    good(ob);
    int n = 3 - k;
    check(truth(b.count("csv") == n + 1), "a restarted run performs the remaining steps");
    if (!exists(b.file("csv", n)) || !exists(a.file("csv", 3))) return;
    auto [ta, pa] = readBack(a, 1, 3);
    auto [tb, pb] = readBack(b, 1, n);
    check(truth(pa.size() == 3 && pb.size() == 3), "a restarted run has the particles of the saved state");
    if (pa.size() != 3 || pb.size() != 3) return;
    for (int i = 0; i < 3; i++) {
        const Particle &p = pa[size_t(i)], &q = pb[size_t(i)];
        check(near6(p.density, q.density) && truth(p.fluidType == q.fluidType && p.type == q.type), "a restarted run keeps the fluids of the saved state");
        for (int c = 0; c < 3; c++)
            check(le(dabs(p.position[c] - q.position[c]), 1e-3) && le(dabs(p.velocity[c] - q.velocity[c]), 1e-2), "fluids of several densities interact after a restart as in the uninterrupted run");
    }
}
// ---- the progress report
struct Progress { int step = 0, files = 0; double dt = 0, t = 0, fin = 0, ave = 0, last = 0, courant = 0, elapsed = 0, remain = 0; bool ok = true; };
static double numberAt(const std::string& line, const char* key, bool& ok) {
    size_t a = line.find(key);
    if (a == std::string::npos) { ok = false; return 0; }
    const char* b = line.c_str() + a + strlen(key);
    char* e = nullptr;
    double v = std::strtod(b, &e);
    ok = ok && e != b;
    return v;
}
static double clockAt(const std::string& line, const char* key, bool& ok) {
    size_t a = line.find(key);
    long h = 0, m = 0, s = 0;
    if (a == std::string::npos || sscanf(line.c_str() + a + strlen(key), "%ldh %ldm %lds", &h, &m, &s) != 3) { ok = false; return 0; }
    return double(h) * 3600 + double(m) * 60 + double(s);
}
static std::vector<Progress> report(const Outcome& o) {
    std::vector<Progress> r;
    std::stringstream ss(o.allOut);
    std::string l;
    while (std::getline(ss, l)) {
        if (l.find("Courant=") == std::string::npos) continue;
        Progress p;
        p.step = atoi(l.c_str());
        p.dt = numberAt(l, "dt=", p.ok);
        p.t = numberAt(l, " t=", p.ok);
        p.fin = numberAt(l, "fin=", p.ok);
        p.ave = numberAt(l, "ave=", p.ok);
        p.last = numberAt(l, "last=", p.ok);
        p.courant = numberAt(l, "Courant=", p.ok);
        double files = numberAt(l, "out=", p.ok);
        p.files = int(files);
        p.elapsed = clockAt(l, "elapsed=", p.ok);
        p.remain = clockAt(l, "remain=", p.ok);
        r.push_back(p);
    }
    return r;
}
static Bool shown(double got, double want, double tol) { return le(dabs(got - want), tol * 1.001); }
CASE(progress_values) {
    Run r;
    r.dt = choice("dt", 2) ? 0.0625 : 0.25;
    r.start = sym("start", 0, 100);
    r.end = r.start + 3 * r.dt - 0.015625;
    r.period = choice("period", 3) * 0.0625 + 0.0625;
    r.v0 = Vec(sym("u", 1, 8), 0, 0);
    r.g = Vec(sym("g", -1, 1), 0, 0);
    Outcome o = r.go();
    good(o);
    auto ps = report(o);
    std::vector<int> due = schedule(r);
    check(truth(ps.size() == 3), "every step is reported once");
    for (int k = 0; k < int(ps.size()); k++) {
        const Progress& p = ps[size_t(k)];
        int n = k + 1, files = 0;
        for (int d : due) files += d < n;
        check(truth(p.ok && p.step == n), "progress lines are numbered by the steps done");
        if (!p.ok) continue;
        check(shown(p.t, r.start + n * r.dt, 0.0005), "a progress line shows the time reached");
        check(shown(p.fin, r.end, 0.05), "a progress line shows the end time");
        check(shown(p.dt, r.dt, r.dt == 0.0625 ? 0.0025 : 0.05), "a progress line shows the time step");
        check(shown(p.courant, (r.v0[0] + n * r.dt * r.g[0]) * r.dt / 0.5, 0.005), "a progress line shows the Courant number of its step");
        check(truth(p.files == files), "a progress line shows the number of files written so far");
    }
    std::stringstream ss(o.allErr);
    std::string l;
    int n = 0;
    while (std::getline(ss, l)) {
        size_t a = l.find(": t=");
        if (a == std::string::npos) continue;
        n++;
        bool ok = true;
        double t = numberAt(l, ": t=", ok);
        check(truth(ok && atoi(l.c_str()) == n), "the log numbers the steps");
        check(shown(t, r.start + n * r.dt, 0.0005), "the log shows the time of each step");
    }
    check(truth(n == 3), "the log has one line per step");
}
/// the clock stands still except while a step is computed: it advances when the step reports its Courant number
static long clockNow;
struct Ticker : std::streambuf {
    std::streambuf* to;
    std::string line;
    const long* steps;
    int n = 0;
    Ticker(std::streambuf* t, const long* s) : to(t), steps(s) {}
    void put(char c) {
        if (c != '\n') { line += c; return; }
        if (line.find("Courant") != std::string::npos) clockNow += steps[n++ % 4];
        line.clear();
    }
    int overflow(int c) override { if (c != EOF) { put(char(c)); to->sputc(char(c)); } return 0; }
    std::streamsize xsputn(const char* s, std::streamsize k) override { for (int i = 0; i < k; i++) put(s[i]); return to->sputn(s, k); }
};
CASE(progress_times) {
    static const long MS = 1000000L;
    static const long lengths[5][4] = {{250 * MS, 125 * MS, 2000 * MS, 500 * MS}, {61500 * MS, 30250 * MS, 90000 * MS, 1000 * MS},
                                       {3725250 * MS, 3600000 * MS, 7322000 * MS, 100 * MS}, {400000000 * MS, 1000 * MS, 59999 * MS, 86400000 * MS}, {1700000, 250900000, 999600, 3700000}};
    const long* steps = lengths[choice("lengths", 5)];
    Run r;
    r.cfl = "0.001";
    r.start = choice("start", 2) ? 3 : 0;
    r.end = r.start + 4 * r.dt - (choice("odd", 2) ? 0.015625 : 0);
    r.v0 = Vec(sym("u", 1, 8), 0, 0);
    r.g = Vec::Zero();
    clockNow = 1700000000123456789L;
    setClock([](int) { return clockNow; });
    r.write();
    Outcome o = guard([&] {
        auto* old = std::cerr.rdbuf();
        Ticker t(old, steps);
        std::cerr.rdbuf(&t);
        std::filesystem::path a = r.yml, b = r.out;
        Simulation s(a, b);
        s.run();
        std::cerr.rdbuf(old);
    });
    good(o);
    auto ps = report(o);
    check(truth(ps.size() == 4), "every step is reported once");
    double sum = 0, total = (r.end - r.start) / r.dt;
    for (int k = 0; k < int(ps.size()) && k < 4; k++) {
        const Progress& p = ps[size_t(k)];
        check(truth(p.ok), "a progress line shows all its times");
        if (!p.ok) continue;
        double d = double(steps[k]) * 1e-9;
        sum += d;
        check(shown(p.last, d, 0.0005), "a progress line shows the time its step took");
        check(shown(p.ave, sum / (k + 1), 0.0005), "a progress line shows the mean time per step");
        check(shown(p.elapsed, sum, 1), "a progress line shows the time elapsed since the start");
        double rest = sum / (k + 1) * total - sum;
        if (rest >= 0) check(shown(p.remain, rest, 1.01), "a progress line extrapolates the time remaining");
    }
    bool ok = true;
    check(shown(clockAt(o.allOut, "Total Simulation time = ", ok), sum, 1) && truth(ok), "the run ends with the total time it took");
}
// ---------------------------------------------------------------- command line
static Outcome program(std::vector<std::string> args, int* rc) {
    return guard([&] {
        std::vector<char*> v;
        args.insert(args.begin(), "mps");
        for (auto& a : args) v.push_back(&a[0]);
        v.push_back(nullptr);
        *rc = mps_main(int(args.size()), v.data());
    });
}
// files of other programs in the directory of the results
static const char* OTHER[6] = {"/notes.tmp", "/.hidden", "/run.log", "/prof/old.dat", "/sub/data.csv", "/csv/other.csv~"};
static void others(const Run& r) {
    for (auto d : {"/prof", "/sub", "/csv"}) mkdirs(r.out + d);
    for (auto f : OTHER) writeFile(r.out + f, std::string("keep ") + f);
}
static void othersKept(const Run& r) {
    for (auto f : OTHER) check(truth(readFile(r.out + f) == std::string("keep ") + f), "other files in the directory of the results are left alone");
}
// two runs in the same directory
CASE(rerun) {
    Run r;
    others(r);
    r.end = 0.0625;
    r.period = 0.0625;
    r.v0 = Vec(sym("u", -1, 1), 0, 0);
    Outcome o = r.go();
    good(o);
    std::string keep[3];
    for (int f = 0; f < 3; f++) keep[f] = readFile(r.file(EXT[f], 1));
    r.v0 = Vec(7, 7, 0);
    int what = choice("changed", 2);
    if (what == 0) r.particles = ""; // same settings name and particle file name
    else { r.in = tmpdir() + "/in2"; mkdirs(r.in); r.particles = ""; }
    int rc = 0;
    bool cmd = choice("program", 2);
    if (cmd) r.write();
    Outcome p = cmd ? program({"-s", r.yml, "-o", r.out}, &rc) : r.go();
    check(truth(p.exited && p.status != 0 && !p.err.empty()), "a second run in a used result directory is refused with a failure status");
    for (int f = 0; f < 3; f++) check(truth(readFile(r.file(EXT[f], 1)) == keep[f]), "results of an earlier run are not overwritten");
    othersKept(r);
}

CASE(command_line) {
    Run r;
    r.end = 0.125;
    r.period = 0.0625;
    r.v0 = Vec(sym("u", -1, 1), 0, 0);
    r.write();
    int form = choice("form", 3), rc = -77;
    std::vector<std::string> a = form == 0 ? std::vector<std::string>{"-s", r.yml, "-o", r.out} : form == 1 ? std::vector<std::string>{"--output", r.out, "--setting", r.yml}
                                           : std::vector<std::string>{"-o", r.out, "--setting", r.yml};
    bool used = choice("used", 2);
    if (used) others(r);
    Outcome o = program(a, &rc);
    good(o);
    check(truth(rc == 0), "a successful run of the program reports success");
    if (used) othersKept(r);
    else expectFiles(r, {0, 1, 2});
}
CASE(command_line_errors) {
    Run r;
    r.end = 0.125;
    r.v0 = Vec(sym("u", -1, 1), 0, 0);
    r.write();
    int form = choice("form", 9), rc = 0;
    std::string no = tmpdir() + "/missing";
    static const char* dummy = "";
    (void) dummy;
    std::vector<std::vector<std::string>> f{{}, {"-s", r.yml}, {"-o", r.out}, {"-s", no, "-o", r.out}, {"-s", r.yml, "-o", no}, {"-s", r.yml, "-o", r.out, "-x"},
                                            {"-s", r.yml, "-o", r.out, "extra"}, {"-s", r.yml, "-o"}, {r.yml, r.out}};
    Outcome o = program(f[size_t(form)], &rc);
    bool failed = o.threw || (o.exited && o.status != 0) || (!o.exited && rc != 0);
    check(truth(failed), "a wrong command line ends the program with a failure status");
    check(truth(!o.err.empty() || o.threw), "a wrong command line is explained");
    check(truth(!exists(no)), "a missing directory is not created");
    check(truth(r.count("prof") == 0 && !exists(r.out + "/s.yml")), "nothing is written after a wrong command line");
}
// the program refuses what the loader refuses, before anything is computed
CASE(bad_input) {
    Run r;
    int what = choice("what", 14);
    auto part = [&](const char* name, const std::string& text) { r.particles = r.in + "/" + name; writeFile(r.particles, text); };
    auto setting = [&](const char* key, const std::string& line) { // replace the line of a key
        r.write();
        std::string y = readFile(r.yml), k = std::string("\n") + key + ":";
        size_t a = y.find(k);
        check(truth(a != std::string::npos), "the setting exists");
        writeFile(r.yml, y.substr(0, a + 1) + line + y.substr(y.find('\n', a + 1) + (line.empty() ? 1 : 0)));
    };
    const std::string t = S(sym("t", 0, 1)), head = t + "\n1\n", cols = "type,fluidType,x,y,z,vx,vy,vz\n";
    bool late = false; // the setting file is written already
    switch (what) {
    case 0: r.method = "Magic"; break;
    case 1: part("p.prof", t + "\n3\n0 0 0 0 0 0 0\n"); break;
    case 2: r.particles = r.in + "/none.prof"; break;
    case 3: part("p.txt", "0\n0\n"); break;
    case 4: writeFile(r.out + "/s.yml", "old"); break;
    case 5: setting("dt", "dt: fast"); late = true; break;
    case 6: setting("dt", ""); late = true; break;
    case 7: setting("gravity", "gravity: [0, " + t + "]"); late = true; break;
    case 8: setting("endTime", "endTime: [" + t); late = true; break; // not YAML
    case 9: part("p.csv", head + "type,x\n1,0\n"); break;
    case 10: part("p.vtu", "<?xml version='1.0'?>\n"); break;
    case 11: part("p.prof", t + "\n1\n0 a 0 0 0 0 0\n"); break;
    case 12: part("p.csv", ""); break;
    case 13: part("p.csv", head + cols + "1,0,1,two,0,0,0,0\n"); break;
    }
    if (!late) r.write();
    int rc = 0;
    Outcome o = program({"-s", r.yml, "-o", r.out}, &rc);
    check(truth(o.threw || (o.exited && o.status != 0) || (!o.exited && rc != 0)), "an invalid input ends the program with a failure status");
    check(truth(!o.err.empty() || o.threw), "an invalid input is explained");
    check(truth(r.count("prof") == 0), "no result is written for an invalid input");
}

// ---------------------------------------------------------------- generator dialogue
struct Stdin {
    std::streambuf* old;
    std::stringstream s;
    explicit Stdin(const std::string& t) : s(t) { old = std::cin.rdbuf(s.rdbuf()); std::cin.clear(); }
    ~Stdin() { std::cin.rdbuf(old); std::cin.clear(); }
};
CASE(dialogue) {
    int present = choice("present", 8), wanted = 1 + choice("wanted", 7), kind = choice("answer", 8);
    static const char* answers[8] = {"y\n", "Y\n", "n\n", "N\n", "", "maybe\nyes\n", "no\nq\n\ny\n", "1\nn\ny\n"};
    static const bool ok[8] = {true, true, false, false, false, false, true, false};
    Particles ps;
    addP(ps, VType::Fluid, symVec("x", -10, 10), symVec("v", -10, 10));
    addP(ps, VType::DummyWall, Vec(1, 2, 3), Vec::Zero());
    std::string dir = tmpdir() + "/gen/input";
    std::vector<std::string> ext;
    bool clash = false;
    for (int f = 0; f < 3; f++) {
        std::string e = std::string(".") + EXT[f];
        if (wanted >> f & 1) ext.push_back(e);
        if (present >> f & 1) { mkdirs(dir); writeFile(dir + "/input" + e, "old"); clash = clash || (wanted >> f & 1); }
    }
    if (!present && kind % 2) mkdirs(dir);
    Outcome o = guard([&] {
        Stdin in(answers[kind]);
        GeneratorDialogue d;
        d.generatorDialogue(dir, ps, ext);
    });
    std::cin.clear();
    bool written = !clash || ok[kind];
    for (int f = 0; f < 3; f++) {
        std::string p = dir + "/input." + EXT[f];
        bool was = present >> f & 1, want = wanted >> f & 1;
        if (!written || !want) {
            check(truth(exists(p) == was && (!was || readFile(p) == "old")), "a generator never replaces or creates a file without consent");
            continue;
        }
        check(truth(exists(p) && readFile(p) != "old"), "a generator writes every requested file");
        if (!exists(p) || readFile(p) == "old") continue;
        std::pair<double, Particles> r;
        if (f == 0) { ParticlesLoader::Prof l; r = l.load(p, 1000); }
        if (f == 1) { ParticlesLoader::Csv l; r = l.load(p, 1000); }
        if (f == 2) { ParticlesLoader::Vtu l; r = l.load(p, 1000); }
        check(eq(r.first, 0.0) && truth(r.second.size() == 2), "a generated file starts at time 0 with all particles");
        if (r.second.size() != 2) continue;
        check(nearV(r.second[0].position, ps[0].position) && nearV(r.second[0].velocity, ps[0].velocity) && truth(r.second[0].type == VType::Fluid && r.second[1].type == VType::DummyWall), "a generated file holds the generated particles");
    }
    if (!written) check(truth(o.exited), "a refused request ends the generator");
    else check(truth(!o.exited && !o.threw), "a granted request is carried out");
}
CASE(dialogue_extension) {
    static const char* bad[5] = {".txt", "prof", ".PROF", "", ".vtk"};
    int k = choice("ext", 6);
    Particles ps;
    addP(ps, VType::Fluid, symVec("x", -10, 10), Vec::Zero());
    std::string dir = tmpdir() + "/gen";
    std::vector<std::string> ext{".prof"};
    if (k < 5) ext.insert(ext.begin() + choice("at", 2), bad[k]); else ext.clear();
    Outcome o = guard([&] {
        Stdin in("y\n");
        GeneratorDialogue d;
        d.generatorDialogue(dir, ps, ext);
    });
    std::cin.clear();
    check(truth(o.exited && !o.err.empty()), "an unknown or empty list of formats is refused");
    check(truth(!exists(dir + "/input.prof")), "nothing is written when a requested format is unknown");
}
