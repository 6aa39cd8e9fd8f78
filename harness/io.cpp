#include "common.hpp"
#include "diskfault.hpp"
#include "loader.hpp"
#include "particles_exporter.hpp"
#include "particles_loader/csv.hpp"
#include "particles_loader/prof.hpp"
#include "particles_loader/vtu.hpp"
#include "saver.hpp"
#include <algorithm>
#include <cctype>
#include <cstring>
#include <iostream>
#include <map>
#include <sstream>

static std::string S(double v) { return text(v); }
/// value as it appears after being printed with six significant digits
static Bool near6(double got, double want) { return le(dabs(got - want), dabs(want) * 6e-6); }
static Bool nearV(const Vec& a, const Vec& b) { return near6(a[0], b[0]) && near6(a[1], b[1]) && near6(a[2], b[2]); }

// ---------------------------------------------------------------- symbolic particles
struct Row { int type, fluid; Vec x, v; double rho; };
static std::vector<Row> rowsOf(int n, bool symTypes) {
    std::vector<Row> r;
    for (int i = 0; i < n; i++) {
        Row q;
        q.type = symTypes && i == 0 ? choice("type", 4) : (i + 1) % 4;
        q.fluid = i == 0 ? -3 : i * 7;
        q.x = symVec(nm("x", i), -100, 100);
        q.v = symVec(nm("v", i), -50, 50);
        q.rho = symi("rho", i, 0, 5000);
        r.push_back(q);
    }
    return r;
}
/// concrete rows of many magnitudes behind the symbolic ones
static void manyRows(std::vector<Row>& r, int n) {
    static const double m[8] = {1, -1e-9, 1e9, -0.0125, 0, 123456, 6.5e-5, -31.25};
    for (int i = int(r.size()); i < n; i++) {
        auto v = [&](int k) { return m[(i + k) % 8] * (1 + (i * 7 + k) % 5); };
        r.push_back({i % 4, i % 300, Vec(v(0), v(1), v(2)), Vec(v(3), v(4), v(5)), 1.0 + i % 4000});
    }
}
static const int MANY = 1300;

// =================================================================== loaders
CASE(prof_load) {
    double t0 = sym("t0", -10, 10), rho = sym("rho", 1, 5000);
    int n = choice("n", 5);
    auto r = rowsOf(n < 4 ? n : 1, true);
    if (n == 4) manyRows(r, n = MANY);
    std::string f = S(t0) + "\n" + std::to_string(n) + "\n";
    for (auto& q : r) f += std::to_string(q.type) + " " + S(q.x[0]) + " " + S(q.x[1]) + " " + S(q.x[2]) + " " + S(q.v[0]) + " " + S(q.v[1]) + " " + S(q.v[2]) + "\n";
    std::string p = tmpdir() + "/a.prof";
    int form = choice("form", 3);
    if (form == 1) f.pop_back(); // no newline at the end
    if (form == 2) { std::string g = " "; for (char ch : f) g += ch == '\n' ? std::string(" \r\n") : ch == ' ' ? std::string("  \t") : std::string(1, ch); f = g; }
    writeFile(p, f);
    ParticlesLoader::Prof l;
    auto [t, ps] = l.load(p, rho);
    check(eq(t, t0), "the start time of a profile file is read");
    check(truth(ps.size() == n), "every particle of a profile file is read");
    for (int i = 0; i < std::min(n, int(ps.size())); i++) {
        const Particle& q = ps[size_t(i)];
        check(truth(q.id == i && int(q.type) == r[size_t(i)].type), "number and kind of a particle come from the profile file");
        check(sameV(q.position, r[size_t(i)].x) && sameV(q.velocity, r[size_t(i)].v), "position and velocity come from the profile file");
        check(eq(q.density, rho) && truth(q.fluidType == 0), "profile particles get the default density and fluid type");
        check(truth(q.neighbors.empty()) && eq(q.pressure, 0.0), "a loaded particle starts without pressure and neighbours");
    }
}
// a file that ends early or contains something else than numbers
CASE(prof_broken) {
    std::vector<std::string> tok{S(sym("t0", 0, 1)), "2"};
    for (int i = 0; i < 2; i++) {
        tok.push_back("1");
        for (int k = 0; k < 6; k++) tok.push_back(S(symi("a", 6 * i + k, -1, 1)));
    }
    int how = choice("defect", 4);
    bool garbage = how == 1;
    int cut = how < 2 ? choice("cut", int(tok.size())) : -1;
    if (how == 2) {                                          // another number of rows than announced
        static const char* said[5] = {"0", "1", "3", "-1", "-2147483648"};
        tok[1] = said[choice("announced", 5)];
    }
    if (how == 3) {                                          // no rows, but not announced as none
        static const char* said[3] = {"1", "-1", "none"};
        tok[1] = said[choice("announced", 3)];
        tok.resize(2);
    }
    std::string f;
    for (int i = 0; i < int(tok.size()); i++) {
        if (i == cut && !garbage) break;
        f += (i == cut ? std::string("abc") : tok[size_t(i)]) + (i < 2 ? "\n" : " ");
    }
    std::string p = tmpdir() + "/a.prof";
    writeFile(p, f);
    bool loaded = false;
    Outcome o = guard([&] {
        ParticlesLoader::Prof l;
        l.load(p, 1000);
        loaded = true;
    });
    check(truth(!loaded && (o.threw || (o.exited && o.status != 0))), "a truncated or malformed profile file is refused");
}
CASE(csv_load) {
    // columns in any order, optional columns present or absent
    static const char* names[9] = {"type", "fluidType", "x", "y", "z", "vx", "vy", "vz", "density"};
    static const int orders[4][9] = {{0, 1, 2, 3, 4, 5, 6, 7, 8}, {8, 7, 6, 5, 4, 3, 2, 1, 0}, {2, 3, 4, 0, 5, 6, 7, 8, 1}, {5, 3, 8, 0, 7, 2, 1, 6, 4}};
    int o = choice("order", 4);
    bool fl = choice("fluid", 2) == 1, de = choice("density", 2) == 1;
    double t0 = sym("t0", 0, 10), rho = sym("rho", 1, 5000);
    int n = choice("many", 2) ? MANY : 3;
    auto r = rowsOf(3, false);
    r[2].x[1] = -r[2].x[1];
    manyRows(r, n);
    std::vector<int> col;
    for (int k = 0; k < 9; k++) {
        int c = orders[o][k];
        if ((c == 1 && !fl) || (c == 8 && !de)) continue;
        col.push_back(c);
    }
    std::string f = S(t0) + "\n" + std::to_string(n) + "\n";
    for (size_t k = 0; k < col.size(); k++) f += (k ? "," : "") + std::string(names[col[k]]);
    f += "\n";
    for (int i = 0; i < n; i++) {
        Row& q = r[size_t(i)];
        for (size_t k = 0; k < col.size(); k++) {
            int c = col[k];
            std::string v = c == 0 ? std::to_string(q.type) : c == 1 ? std::to_string(q.fluid) : c < 5 ? S(q.x[c - 2]) : c < 8 ? S(q.v[c - 5])
                          : i == 1 ? std::string("-1") : S(q.rho);
            f += (k ? "," : "") + v;
        }
        f += "\n";
    }
    std::string p = tmpdir() + "/a.csv";
    if (o == 1) { std::string g; for (char ch : f) g += ch == '\n' ? std::string("\r\n") : ch == ',' ? std::string(" ,\t") : std::string(1, ch); f = g; }
    if (o == 2) f.pop_back(); // no newline at the end
    writeFile(p, f);
    ParticlesLoader::Csv l;
    auto [t, ps] = l.load(p, rho);
    check(close(t, t0, 1e-9), "the start time of a CSV file is read");
    check(truth(ps.size() == n), "every row of a CSV file is read");
    for (int i = 0; i < std::min(n, int(ps.size())); i++) {
        const Particle& q = ps[size_t(i)];
        const Row& w = r[size_t(i)];
        check(truth(q.id == i && int(q.type) == w.type), "number and kind of a particle come from the CSV file");
        check(closeV(q.position, w.x, 1e-9), "the position comes from the columns named x, y, z in any order");
        check(closeV(q.velocity, w.v, 1e-9), "the velocity comes from the columns named vx, vy, vz in any order");
        check(truth(q.fluidType == (fl ? w.fluid : 0)), "the fluid type comes from its column or is 0");
        check(close(q.density, de && i != 1 ? w.rho : rho, 1e-9), "the density comes from its column; absent or negative means the default");
    }
}
CASE(csv_broken) {
    int k = choice("defect", 10);
    std::string num = S(sym("a", -1, 1));
    std::string f = "0\n1\n";
    std::string h = "type,x,y,z,vx,vy,vz\n", row = "1," + num + ",0,0,0,0,0\n";
    if (k == 0) f += h + "1," + num + ",0,0\n";              // too few columns
    if (k == 1) f += h + "1,abc,0,0,0,0," + num + "\n";      // not a number
    if (k == 2) f += "type,x,y,z,vx,vy,vz,colour\n1," + num + ",0,0,0,0,0,7\n"; // unknown column
    if (k == 3) f = "start\n1\n" + h + row;                  // no time
    if (k == 4) f += "type,x,y,z,vx,vy,vz,x\n1," + num + ",0,0,0,0,0,0\n"; // duplicate column
    if (k == 5) {                                            // a mandatory column is missing
        static const char* names[7] = {"type", "x", "y", "z", "vx", "vy", "vz"};
        int drop = choice("missing", 7);
        std::string hh, rr;
        for (int c = 0; c < 7; c++) {
            if (c == drop) continue;
            hh += std::string(hh.empty() ? "" : ",") + names[c];
            rr += std::string(rr.empty() ? "" : ",") + (c == 0 ? std::string("1") : num);
        }
        f += hh + "\n" + rr + "\n";
    }
    if (k == 6) {                                            // fewer or more rows than announced
        int said = choice("announced", 4), rows = choice("rows", 3);
        if (said == rows) return;
        f = "0\n" + std::to_string(said) + "\n" + h;
        for (int i = 0; i < rows; i++) f += row;
    }
    if (k == 7) {                                            // an empty cell
        int hole = choice("hole", 9);
        bool blank = choice("blank", 2) == 1;
        f += "type,x,y,z,vx,vy,vz,density,fluidType\n";
        for (int c = 0; c < 9; c++) f += std::string(c ? "," : "") + (c == hole ? (blank ? " " : "") : c == 0 || c == 8 ? "1" : num);
        f += "\n";
    }
    if (k == 8) {                                            // the file ends in the middle
        std::string whole = f + "type,x,y,z,vx,vy,vz\n1,1,2,3,4,5,6\n";
        static const int cuts[] = {0, 1, 2, 3, 4, 10, 23, 24, 25, 26, 30, 34, 35, 36};
        f = whole.substr(0, size_t(cuts[choice("cut", 14)]));
    }
    if (k == 9) {                                            // time or number of rows followed by something or not finite
        static const char* bad[5] = {"1x", "1 1", "nan", "inf", "1.5.5"};
        std::string b = bad[choice("bad", 5)];
        bool time = choice("time", 2);
        f = (time ? b : "0") + "\n" + (time ? "1" : b) + "\n" + h + row;
    }
    std::string p = tmpdir() + "/a.csv";
    writeFile(p, f);
    bool loaded = false;
    Outcome o = guard([&] {
        ParticlesLoader::Csv l;
        l.load(p, 1000);
        loaded = true;
    });
    check(truth(!loaded && (o.threw || (o.exited && o.status != 0))), "a malformed CSV file is refused");
}
// a hand-written VTU file: arrays in any order, optional arrays, unrelated arrays
CASE(vtu_load) {
    double t0 = sym("t0", 0, 10), rho = sym("rho", 1, 5000);
    int n = 2;
    auto r = rowsOf(n, false);
    auto arr = [&](const char* name, const std::string& body) { return std::string("<DataArray type=\"Float64\" Name=\"") + name + "\" NumberOfComponents=\"1\" format=\"ascii\">\n" + body + "</DataArray>\n"; };
    std::string X, V, T, F, D, N, P;
    bool neg = choice("negative", 2) == 1;
    for (int i = 0; i < n; i++) {
        Row& q = r[size_t(i)];
        X += S(q.x[0]) + " " + S(q.x[1]) + " " + S(q.x[2]) + "\n";
        V += S(q.v[0]) + " " + S(q.v[1]) + " " + S(q.v[2]) + "\n";
        T += std::to_string(q.type) + "\n";
        F += std::to_string(q.fluid + 4) + "\n";
        D += (neg && i == 0 ? std::string("-1") : S(q.rho)) + "\n";
        N += S(symi("nd", i, 1, 20)) + "\n";
        P += S(symi("pr", i, 0, 99)) + "\n";
    }
    int layout = choice("layout", 3);
    bool withD = choice("density", 2) == 1, withF = choice("fluid", 2) == 1, withV = layout != 1 || withD;
    std::string time = "<FieldData>\n<DataArray type=\"Float64\" Name=\"Time\" NumberOfTuples=\"1\" format=\"ascii\">\n" + S(t0) + "\n</DataArray>\n</FieldData>\n";
    std::string pos = "<Points>\n" + arr("Position", X) + "</Points>\n";
    std::string data = "<PointData>\n";
    if (layout == 1 && withD) data += arr("Density", D);
    data += arr("Particle Type", T) + (withV ? arr("Velocity", V) : "") + arr("Pressure", P) + arr("Number Density", N) + arr("Number Density Ratio", N);
    if (withF) data += arr("Fluid Type", F);
    if (layout != 1 && withD) data += arr("Density", D);
    data += "</PointData>\n";
    std::string f = "<?xml version='1.0' encoding='UTF-8'?>\n<VTKFile type=\"UnstructuredGrid\">\n";
    f += layout == 0 ? pos + data + time : layout == 1 ? time + pos + data : time + data + pos;
    std::string p = tmpdir() + "/a.vtu";
    writeFile(p, f + "</VTKFile>\n");
    ParticlesLoader::Vtu l;
    auto [t, ps] = l.load(p, rho);
    check(eq(t, t0), "the start time of a VTU file is read");
    check(truth(ps.size() == n), "every particle of a VTU file is read");
    for (int i = 0; i < std::min(n, int(ps.size())); i++) {
        const Particle& q = ps[size_t(i)];
        const Row& w = r[size_t(i)];
        check(truth(q.id == i && int(q.type) == w.type), "number and kind of a particle come from the VTU file");
        check(sameV(q.position, w.x) && sameV(q.velocity, withV ? w.v : Vec(Vec::Zero())), "position and velocity come from the VTU file (at rest without velocities)");
        check(truth(q.fluidType == (withF ? w.fluid + 4 : 0)), "the fluid type comes from the VTU file or is 0");
        check(eq(q.density, withD && !(neg && i == 0) ? w.rho : rho), "the density comes from the density array only; absent or negative means the default");
    }
}
CASE(vtu_broken) {
    int k = choice("defect", 11);
    std::string num = S(sym("a", -1, 1));
    auto arr = [&](const char* name, const std::string& body) { return std::string("<DataArray Name=\"") + name + "\" format=\"ascii\">\n" + body + "</DataArray>\n"; };
    std::string pos = num + " 1 2\n0 0 " + num + "\n", vel = "0 0 " + num + "\n1 1 1\n", type = "1\n2\n", fluid = "0\n0\n", rho = "1000\n1000\n", time = "0\n";
    if (k == 5) {                                            // an array shorter or longer than the others
        std::string* a[5] = {&pos, &vel, &type, &fluid, &rho};
        std::string& which = *a[choice("array", 5)];
        if (choice("longer", 2)) which += which; else which = which.substr(0, which.find('\n') + 1);
    }
    if (k == 8) {                                            // several particles on a line
        std::string* a[5] = {&pos, &vel, &type, &fluid, &rho};
        int only = choice("packed", 6);
        for (int i = 0; i < 5; i++)
            if (only == 5 || only == i) (*a[i])[a[i]->find('\n')] = ' ';
    }
    if (k == 10) {                                           // something behind a number
        std::string* a[6] = {&pos, &vel, &type, &fluid, &rho, &time};
        std::string& which = *a[choice("array", 6)];
        which.insert(which.find('\n'), choice("glued", 2) ? "x" : " x");
    }
    if (k == 0) pos = num + " 1\n0 0 0\n";
    if (k == 1) vel = num + " x 0\n0 0 0\n";
    if (k == 2) type = "1\nfluid\n";
    if (k == 4) { static const char* bad[4] = {"now\n", "nan\n", "inf\n", "\n"}; time = bad[choice("bad", 4)]; }
    std::string f = "<VTKFile>\n" + arr("Position", pos) + arr("Velocity", vel);
    if (k != 6) f += arr("Particle Type", type);
    f += arr("Fluid Type", fluid) + arr("Density", rho);
    if (k != 9) f += arr("Time", time);
    if (k == 3) f += choice("encoding", 2) ? "<AppendedData encoding=\"raw\">\n_xx\n</AppendedData>\n" : "  <AppendedData encoding=\"base64\">_AAA=</AppendedData>\n";
    f += "</VTKFile>\n";
    if (k == 7) {                                            // the file ends after some line
        std::vector<size_t> ends{0};
        for (size_t i = 0; i + 1 < f.size(); i++) if (f[i] == '\n') ends.push_back(i + 1);
        f = f.substr(0, ends[size_t(choice("cut", int(ends.size())))]);
    }
    std::string p = tmpdir() + "/a.vtu";
    writeFile(p, f);
    bool loaded = false;
    Outcome o = guard([&] {
        ParticlesLoader::Vtu l;
        l.load(p, 1000);
        loaded = true;
    });
    check(truth(!loaded && (o.threw || (o.exited && o.status != 0))), "a malformed, truncated or binary VTU file is refused");
}
CASE(missing_file) {
    int k = choice("format", 3);
    std::string p = tmpdir() + "/none";
    double rho = sym("rho", 1, 5000);
    bool loaded = false;
    Outcome o = guard([&] {
        if (k == 0) { ParticlesLoader::Prof l; l.load(p, rho); }
        if (k == 1) { ParticlesLoader::Csv l; l.load(p, rho); }
        if (k == 2) { ParticlesLoader::Vtu l; l.load(p, rho); }
        loaded = true;
    });
    check(truth(!loaded && (o.threw || (o.exited && o.status != 0))), "a missing particle file is refused");
}

// =================================================================== exporters
static Particles exported(int n, bool derived) {
    Particles ps;
    auto r = rowsOf(n < 3 ? n : 1, true);
    if (n == 3) manyRows(r, MANY);
    for (auto& q : r) {
        addP(ps, VType(q.type), q.x, q.v, q.rho, q.fluid);
        Particle& p = ps[size_t(ps.size() - 1)];
        if (derived) {
            p.pressure = p.id > 2 ? 12.5 * p.id * (p.id % 3 - 1) : symi("p", p.id, -1e5, 1e5);
            p.numberDensity = p.id > 2 ? 0.5 + p.id % 60 : symi("n", p.id, 0, 30);
            p.boundaryCondition = p.id == 0 ? FluidState(choice("bc", 5)) : FluidState((p.id * 2) % 5);
        }
    }
    return ps;
}
static void roundTrip(int fmt) {
    Particles ps = exported(choice("n", 4), true);
    double t0 = sym("t0", 0, 100);
    ParticlesExporter e;
    e.setParticles(ps);
    std::string p = tmpdir() + "/a";
    std::pair<double, Particles> got;
    if (fmt == 0) { e.toProf(p, t0); ParticlesLoader::Prof l; got = l.load(p, 1000); }
    if (fmt == 1) { e.toCsv(p, t0); ParticlesLoader::Csv l; got = l.load(p, 1000); }
    if (fmt == 2) { e.toVtu(p, t0, sym("ref", 1, 20), false); ParticlesLoader::Vtu l; got = l.load(p, 1000); }
    check(near6(got.first, t0), "a written file carries the time");
    check(truth(got.second.size() == ps.size()), "a written file contains every particle");
    for (int i = 0; i < std::min(ps.size(), got.second.size()); i++) {
        const Particle &a = ps[size_t(i)], &b = got.second[size_t(i)];
        check(truth(a.id == b.id && a.type == b.type), "reading back a written file gives the same particle kinds in the same order");
        check(truth(b.fluidType == (fmt == 0 ? 0 : a.fluidType)), "reading back a written file gives the same fluid types");
        check(nearV(b.position, a.position), "reading back a written file gives the same positions");
        check(nearV(b.velocity, a.velocity), "reading back a written file gives the same velocities");
        if (fmt == 1) check(near6(b.density, a.density), "reading back a written CSV file gives the same densities");
        else check(eq(b.density, 1000.0), "a written file does not distort the density (it carries none)");
    }
}
CASE(roundtrip_prof) { roundTrip(0); }
CASE(roundtrip_csv) { roundTrip(1); }
CASE(roundtrip_vtu) { roundTrip(2); }

/// numbers of one array of an ASCII VTU file; the array must carry the given attributes
static std::vector<double> section(const std::string& f, const std::string& name, const std::string& type, int comps, bool& ok) {
    std::vector<double> v;
    size_t a = f.find("Name=\"" + name + "\"");
    ok = ok && a != std::string::npos;
    if (a == std::string::npos) return v;
    size_t b = f.rfind('<', a), e = f.find('>', a), end = f.find("</DataArray>", a);
    ok = ok && e != std::string::npos && end != std::string::npos && f.find("Name=\"" + name + "\"", a + 1) == std::string::npos;
    if (!ok) return v;
    std::string tag = f.substr(b, e - b);
    ok = ok && tag.find("type=\"" + type + "\"") != std::string::npos;
    if (comps) ok = ok && tag.find("NumberOfComponents=\"" + std::to_string(comps) + "\"") != std::string::npos;
    std::stringstream ss(f.substr(e + 1, end - e - 1));
    std::string w;
    while (ss >> w) v.push_back(std::strtod(w.c_str(), nullptr));
    return v;
}
struct Arr { const char* name; const char* type; int comps; std::function<double(const Particle&, int)> f; bool exact; };
static std::vector<Arr> arrays(double ref) {
    return {
        {"Position", "Float64", 3, [](const Particle& p, int k) { return p.position[k]; }, false},
        {"Particle Type", "Int32", 1, [](const Particle& p, int) { return double(int(p.type)); }, true},
        {"Velocity", "Float64", 3, [](const Particle& p, int k) { return p.velocity[k]; }, false},
        {"Pressure", "Float64", 1, [](const Particle& p, int) { return p.pressure; }, false},
        {"Number Density", "Float64", 1, [](const Particle& p, int) { return p.numberDensity; }, false},
        {"Number Density Ratio", "Float64", 1, [ref](const Particle& p, int) { return p.numberDensity / ref; }, false},
        {"Boundary Condition", "Int32", 1, [](const Particle& p, int) { return double(int(p.boundaryCondition)); }, true},
        {"Fluid Type", "Int32", 1, [](const Particle& p, int) { return double(p.fluidType); }, true},
        {"connectivity", "Int64", 1, [](const Particle& p, int) { return double(p.id); }, true},
        {"offsets", "Int64", 1, [](const Particle& p, int) { return double(p.id + 1); }, true},
        {"types", "UInt8", 1, [](const Particle&, int) { return 1.0; }, true},
    };
}
/// elements of a VTK file, checked for nesting: path of every element -> its attributes
static bool xmlTree(const std::string& f, bool ascii, std::multimap<std::string, std::map<std::string, std::string>>& tree, std::string& trailing) {
    std::vector<std::string> open;
    size_t i = 0;
    auto name = [](char c) { return std::isalnum(static_cast<unsigned char>(c)) || c == '_' || c == '-' || c == ':'; };
    while ((i = f.find('<', i)) != std::string::npos) {
        if (f.compare(i, 2, "<?") == 0) { if (i) return false; i = f.find("?>", i); continue; }
        if (f.compare(i, 4, "<!--") == 0) { i = f.find("-->", i); continue; }
        size_t e = f.find('>', i);
        if (e == std::string::npos) return false;
        std::string t = f.substr(i + 1, e - i - 1);
        i = e;
        if (t[0] == '/') {
            if (open.empty() || open.back() != t.substr(1)) return false;
            open.pop_back();
            if (open.empty()) { trailing = f.substr(e + 1); return true; }
            continue;
        }
        bool closed = t.back() == '/';
        if (closed) t.pop_back();
        size_t k = 0;
        while (k < t.size() && name(t[k])) k++;
        std::string tag = t.substr(0, k);
        std::map<std::string, std::string> at;
        while (k < t.size()) {
            size_t before = k;
            while (k < t.size() && std::isspace(static_cast<unsigned char>(t[k]))) k++;
            if (k == t.size()) break;
            if (k == before) return false; // attributes are separated
            size_t b = k;
            while (k < t.size() && name(t[k])) k++;
            if (k == b || k + 1 >= t.size() || t[k] != '=' || (t[k + 1] != '"' && t[k + 1] != '\'')) return false;
            size_t q = t.find(t[k + 1], k + 2);
            if (q == std::string::npos || !at.emplace(t.substr(b, k - b), t.substr(k + 2, q - k - 2)).second) return false;
            k = q + 1;
        }
        std::string path;
        for (auto& o : open) path += o + "/";
        tree.emplace(path + tag, at);
        if (!closed) open.push_back(tag);
        if (tag == "AppendedData" && !ascii) { // raw bytes
            i = f.rfind("</AppendedData>");
            if (i == std::string::npos) return false;
        }
    }
    return false; // the root element is never closed
}
static void structure(const std::string& f, bool ascii, int n) {
    std::multimap<std::string, std::map<std::string, std::string>> tree;
    std::string rest;
    bool ok = xmlTree(f, ascii, tree, rest);
    check(truth(ok && rest.find_first_not_of(" \r\n") == std::string::npos), "a VTK file is well-formed XML");
    if (!ok) return;
    auto one = [&](const std::string& path, std::map<std::string, std::string> want) {
        if (tree.count(path) != 1) return false;
        auto& at = tree.find(path)->second;
        for (auto& w : want) if (!at.count(w.first) || at.at(w.first) != w.second) return false;
        return true;
    };
    std::map<std::string, std::string> root{{"type", "UnstructuredGrid"}, {"byte_order", "LittleEndian"}};
    if (!ascii) root["header_type"] = "UInt64";
    std::string c = std::to_string(n), G = "VTKFile/UnstructuredGrid", P = G + "/Piece";
    check(truth(one("VTKFile", root) && one(G, {}) && one(P, {{"NumberOfPoints", c}, {"NumberOfCells", c}}) && one(P + "/Points", {}) && one(P + "/PointData", {}) && one(P + "/Cells", {})),
          "a VTK file is one piece of an unstructured grid with points, point data and cells");
    auto holds = [&](const std::string& path, std::vector<std::string> names) {
        std::vector<std::string> got;
        auto r = tree.equal_range(path + "/DataArray");
        for (auto x = r.first; x != r.second; ++x) {
            got.push_back(x->second.count("Name") ? x->second.at("Name") : "");
            if (!x->second.count("format") || (x->second.at("format") == "appended") == ascii) return false;
        }
        std::sort(got.begin(), got.end());
        std::sort(names.begin(), names.end());
        return got == names;
    };
    check(truth(holds(P + "/Points", {"Position"}) && holds(P + "/Cells", {"connectivity", "offsets", "types"})), "points and cells hold exactly their arrays");
    check(truth(holds(P + "/PointData", {"Particle Type", "Velocity", "Pressure", "Number Density", "Number Density Ratio", "Boundary Condition", "Fluid Type"})), "the point data hold exactly the quantities of the particles");
    check(truth(holds(G + "/FieldData", {"Time"}) && one(G + "/FieldData/DataArray", {{"NumberOfTuples", "1"}, {"type", "Float64"}})), "the field data hold the time");
    if (!ascii) check(truth(one("VTKFile/AppendedData", {{"encoding", "raw"}})), "the appended block belongs to the file");
}
CASE(vtu_ascii) {
    Particles ps = exported(choice("n", 4), true);
    double t0 = sym("t0", 0, 100), ref = sym("ref", 1, 20);
    ParticlesExporter e;
    e.setParticles(ps);
    std::string p = tmpdir() + "/a.vtu";
    e.toVtu(p, t0, ref, false);
    std::string f = readFile(p);
    structure(f, true, ps.size());
    std::string cnt = std::to_string(ps.size());
    check(truth(f.find("NumberOfPoints=\"" + cnt + "\"") != std::string::npos && f.find("NumberOfCells=\"" + cnt + "\"") != std::string::npos), "the piece announces one point and one cell per particle");
    check(truth(f.find("<AppendedData") == std::string::npos), "an ASCII file has no binary part");
    for (auto& a : arrays(ref)) {
        bool ok = true;
        std::vector<double> v = section(f, a.name, a.type, a.comps, ok);
        check(truth(ok), "every array of the VTU file is present once with its type");
        check(truth(int(v.size()) == a.comps * ps.size()), "every array of the VTU file has one entry per particle and component");
        if (int(v.size()) != a.comps * ps.size()) continue;
        for (auto& q : ps)
            for (int k = 0; k < a.comps; k++) {
                double got = v[size_t(q.id * a.comps + k)], want = a.f(q, k);
                check(a.exact ? eq(got, want) : near6(got, want), (std::string("the ASCII VTU file shows the particles' ") + a.name).c_str());
            }
    }
    bool ok = true;
    std::vector<double> t = section(f, "Time", "Float64", 0, ok);
    check(truth(ok && t.size() == 1), "the VTU file carries the time once");
    if (t.size() == 1) check(near6(t[0], t0), "the VTU file carries the time of the state");
}
template <class T> static T raw(const std::string& s, size_t at) {
    T t;
    std::memcpy(&t, s.data() + at, sizeof t);
    return t;
}
CASE(vtu_binary) {
    Particles ps = exported(choice("n", 4), true);
    double t0 = sym("t0", 0, 100), ref = sym("ref", 1, 20);
    ParticlesExporter e;
    e.setParticles(ps);
    std::string p = tmpdir() + "/a.vtu";
    e.toVtu(p, t0, ref, true);
    std::string f = readFile(p);
    structure(f, false, ps.size());
    std::string cnt = std::to_string(ps.size());
    check(truth(f.find("NumberOfPoints=\"" + cnt + "\"") != std::string::npos && f.find("NumberOfCells=\"" + cnt + "\"") != std::string::npos), "the binary piece announces one point and one cell per particle");
    check(truth(f.find("header_type=\"UInt64\"") != std::string::npos && f.find("byte_order=\"LittleEndian\"") != std::string::npos), "the binary file announces its header type and byte order");
    size_t app = f.find("<AppendedData encoding=\"raw\">");
    size_t us = app == std::string::npos ? app : f.find('_', app);
    check(truth(us != std::string::npos), "the binary file has a raw appended block");
    if (us == std::string::npos) return;
    std::string head = f.substr(0, app), bin = f.substr(us + 1);
    size_t total = 0;
    auto block = [&](const std::string& name, const std::string& type, int comps, size_t bytes, size_t& at) {
        size_t a = head.find("Name=\"" + name + "\"");
        if (a == std::string::npos) return false;
        size_t b = head.rfind('<', a), e2 = head.find('>', a);
        std::string tag = head.substr(b, e2 - b);
        if (tag.find("type=\"" + type + "\"") == std::string::npos || tag.find("format=\"appended\"") == std::string::npos) return false;
        if (comps && tag.find("NumberOfComponents=\"" + std::to_string(comps) + "\"") == std::string::npos) return false;
        size_t o = tag.find("offset=\"");
        if (o == std::string::npos) return false;
        size_t off = std::strtoul(tag.c_str() + o + 8, nullptr, 10);
        if (off + 8 + bytes > bin.size()) return false;
        at = off + 8;
        total += 8 + bytes;
        return raw<uint64_t>(bin, off) == bytes;
    };
    for (auto& a : arrays(ref)) {
        size_t w = std::string(a.type) == "Float64" || std::string(a.type) == "Int64" ? 8 : std::string(a.type) == "Int32" ? 4 : 1, at = 0;
        bool ok = block(a.name, a.type, a.comps, w * size_t(a.comps * ps.size()), at);
        check(truth(ok), "every binary array is found at its offset with its exact length");
        if (!ok) continue;
        for (auto& q : ps)
            for (int k = 0; k < a.comps; k++) {
                size_t i = at + w * size_t(q.id * a.comps + k);
                double got = std::string(a.type) == "Float64" ? raw<double>(bin, i) : w == 8 ? double(raw<int64_t>(bin, i)) : w == 4 ? double(raw<int32_t>(bin, i)) : double(raw<uint8_t>(bin, i));
                check(close(got, a.f(q, k), a.exact ? 0.0 : 1e-12), (std::string("the binary VTU file shows the particles' ") + a.name).c_str());
            }
    }
    size_t at = 0;
    bool ok = block("Time", "Float64", 0, 8, at);
    check(truth(ok), "the binary file carries the time once");
    if (ok) check(eq(raw<double>(bin, at), t0), "the binary file carries the time of the state");
    check(truth(bin.size() >= total && bin.compare(total, std::string::npos, "\n</AppendedData>\n</VTKFile>\n") == 0), "the appended block holds exactly its arrays");
}
// the files of a run show the ratio to the reference density of the configured radius and dimension
CASE(saved_ratio) {
    Settings s = baseSettings(2 + choice("dim", 2));
    s.re_forNumberDensity = 1.5625;
    s.re_forGradient = 1.0625;
    s.re_forLaplacian = 1.8125;
    s.reMax = 1.8125;
    Particles ps;
    for (int i = 0; i < 3; i++) addP(ps, typeOf(i), Vec(0.5 * i, 0, 0), Vec::Zero());
    MPS mps = makeMps(s, ps, Vec::Zero());
    for (auto& p : mps.particles) p.numberDensity = symi("n", p.id, 0, 30);
    mkdirs(tmpdir() + "/r");
    bool bin = choice("binary", 2);
    Saver saver(tmpdir() + "/r", bin);
    double t = sym("t", 0, 10);
    saver.save(mps, t);
    std::string f = readFile(tmpdir() + "/r/vtu/output_0000.vtu");
    double n0 = lattice(s.dim, s.particleDistance, s.re_forNumberDensity).n0;
    if (!bin) {
        bool ok = true;
        std::vector<double> v = section(f, "Number Density Ratio", "Float64", 1, ok);
        check(truth(ok && v.size() == 3), "a saved VTK file has the density ratios");
        if (!ok || v.size() != 3) return;
        for (auto& p : mps.particles) check(near6(v[size_t(p.id)], p.numberDensity / n0), "saved density ratios refer to the reference density of the run");
    } else {
        size_t a = f.find("Name=\"Number Density Ratio\""), o = a == std::string::npos ? a : f.find("offset=\"", a), u = f.find("<AppendedData");
        if (u != std::string::npos) u = f.find('_', u);
        check(truth(o != std::string::npos && u != std::string::npos), "a saved VTK file has the density ratios");
        if (o == std::string::npos || u == std::string::npos) return;
        size_t at = u + 1 + std::strtoul(f.c_str() + o + 8, nullptr, 10) + 8;
        if (at + 24 > f.size()) return;
        for (auto& p : mps.particles) check(close(raw<double>(f, at + 8 * size_t(p.id)), p.numberDensity / n0, 1e-12), "saved density ratios refer to the reference density of the run");
    }
}
CASE(exporter_reuse) {
    // one exporter writes a sequence of states, into other files or over the earlier one: each file shows the state handed over last
    Particles a = exported(2, true);
    Particles b;
    int fmt = choice("format", 3), nb = choice("nb", 3), over = choice("over", 2);
    for (int i = 0; i < nb; i++) {
        addP(b, VType(choicei("later", i, 4)), symVec(i ? "cx" : "bx", -10, 10), symVec(i ? "cv" : "bv", -10, 10), 900 + i, 9 - 20 * i);
        b[size_t(i)].pressure = -3 - i;
        b[size_t(i)].numberDensity = 4 + i;
        b[size_t(i)].boundaryCondition = FluidState(i);
    }
    ParticlesExporter e;
    std::string p = tmpdir() + "/a", q = over ? p : tmpdir() + "/b";
    double t1 = sym("t1", 0, 10), t2 = sym("t2", 0, 10);
    auto out = [&](const std::string& f, double t) { if (fmt == 0) e.toProf(f, t); else if (fmt == 1) e.toCsv(f, t); else e.toVtu(f, t, 2.0, false); };
    auto same = [&](const std::string& f, double t, const Particles& w, const char* label) {
        ParticlesLoader::Prof l0;
        ParticlesLoader::Csv l1;
        ParticlesLoader::Vtu l2;
        auto r = fmt == 0 ? l0.load(f, 1000) : fmt == 1 ? l1.load(f, 1000) : l2.load(f, 1000);
        check(near6(r.first, t), label);
        check(truth(r.second.size() == w.size()), label);
        for (int i = 0; i < std::min(w.size(), r.second.size()); i++) {
            const Particle &x = r.second[size_t(i)], &y = w[size_t(i)];
            check(nearV(x.position, y.position) && nearV(x.velocity, y.velocity) && truth(x.type == y.type && (fmt == 0 || x.fluidType == y.fluidType)), label);
            if (fmt == 1) check(near6(x.density, y.density), label);
        }
        if (fmt != 2) return;
        std::string text = readFile(f);
        for (auto& c : arrays(2.0)) {
            bool ok = true;
            std::vector<double> v = section(text, c.name, c.type, c.comps, ok);
            check(truth(ok && int(v.size()) == c.comps * w.size()), label);
            for (int i = 0; ok && i < int(v.size()); i++) check(near6(v[size_t(i)], c.f(w[size_t(i / c.comps)], i % c.comps)), label);
        }
    };
    e.setParticles(a);
    out(p, t1);
    e.setParticles(b);
    out(q, t2);
    if (!over) same(p, t1, a, "an earlier file keeps the earlier state");
    same(q, t2, b, "a later file shows the later state and nothing else");
}
CASE(unwritable) {
    int fmt = choice("format", 4);
    Particles ps = exported(1, false);
    ParticlesExporter e;
    e.setParticles(ps);
    std::string p = tmpdir() + "/no/such/dir/file";
    bool done = false;
    Outcome o = guard([&] {
        if (fmt == 0) e.toProf(p, 0); else if (fmt == 1) e.toCsv(p, 0); else e.toVtu(p, 0, 1.0, fmt == 3);
        done = true;
    });
    check(truth(!done && o.exited && o.status != 0 && !o.err.empty()), "a result that cannot be written ends the program with a failure status");
}

// the disk fills up at some point of writing
CASE(disk_full) {
    int fmt = choice("format", 4);
    double part = sym("part", 0, 1);
    Particles ps = exported(2, false);
    auto out = [&](const std::string& f) {
        ParticlesExporter e;
        e.setParticles(ps);
        if (fmt == 0) e.toProf(f, 0.5); else if (fmt == 1) e.toCsv(f, 0.5); else e.toVtu(f, 0.5, 2.0, fmt == 3);
    };
    long size = 0;
    {
        Disk d;
        out(tmpdir() + "/whole");
        size = diskWritten;
    }
    if (size == 0) { // written past the interposed calls: the fault cannot be injected
        check(truth(!readFile(tmpdir() + "/whole").empty()), "the writer writes to the file it is given");
        return;
    }
    bool done = false;
    Outcome o;
    {
        Disk d(part * double(size - 1), choice("freed", 2) == 1);
        o = guard([&] { out(tmpdir() + "/cut"); done = true; });
    }
    check(truth(!done && o.exited && o.status != 0 && !o.err.empty()), "a result that cannot be written completely ends the program with a failure status");
    {
        Disk d{double(size)};
        o = guard([&] { out(tmpdir() + "/again"); });
    }
    check(truth(!o.exited && !o.threw && readFile(tmpdir() + "/again").size() == readFile(tmpdir() + "/whole").size()), "a result that fits is written completely");
}

// =================================================================== settings
struct Yml {
    std::vector<std::pair<std::string, std::string>> kv;
    void set(const std::string& k, const std::string& v) {
        for (auto& e : kv) if (e.first == k) { e.second = v; return; }
        kv.push_back({k, v});
    }
    void drop(const std::string& k) {
        for (size_t i = 0; i < kv.size(); i++) if (kv[i].first == k) { kv.erase(kv.begin() + long(i)); return; }
    }
    std::string str() const {
        std::string s;
        for (auto& e : kv) s += e.first + ": " + e.second + "\n";
        return s;
    }
};
static Yml baseYml() {
    Yml y;
    y.kv = {{"dim", "2"}, {"particleDistance", "0.5"}, {"dt", "0.001"}, {"endTime", "2.0"}, {"outputPeriod", "0.04"}, {"cflCondition", "0.3"}, {"numPhysicalCores", "4"},
            {"domainMin", "[-1, -2, -3]"}, {"domainMax", "[1, 2, 3]"}, {"defaultDensity", "1000.0"}, {"kinematicViscosity", "1.0e-06"}, {"gravity", "[0, -9.8, 0]"},
            {"surfaceDetection-numberDensity-threshold", "0.97"}, {"surfaceDetection-particleDistribution", "true"}, {"surfaceDetection-particleDistribution-threshold", "0.85"},
            {"pressureCalculationMethod", "Implicit"}, {"compressibility", "0.45e-09"}, {"relaxationCoefficientForPressure", "0.2"}, {"soundSpeed", "17.1"},
            {"collisionDistanceRatio", "0.5"}, {"coefficientOfRestitution", "0.2"}, {"radiusRatioForNumberDensity", "3.1"}, {"radiusRatioForGradient", "2.1"},
            {"radiusRatioForLaplacian", "3.1"}, {"particlesPath", "./p.prof"}};
    return y;
}
struct Dirs { std::string in, out; };
static Dirs dirs() {
    Dirs d{tmpdir() + "/in", tmpdir() + "/out"};
    mkdirs(d.in);
    mkdirs(d.out);
    writeFile(d.in + "/p.prof", "0.5\n1\n1 0.1 0.2 0.3 0 0 0\n");
    return d;
}
static Input loadFrom(const Dirs& d, const std::string& yml) {
    writeFile(d.in + "/s.yml", yml);
    Loader l;
    return l.load(d.in + "/s.yml", d.out);
}
CASE(settings_numbers) {
    Yml y = baseYml();
    struct F { const char* key; double Settings::*f; };
    static const F fs[] = {{"particleDistance", &Settings::particleDistance}, {"dt", &Settings::dt}, {"endTime", &Settings::endTime}, {"outputPeriod", &Settings::outputPeriod},
        {"cflCondition", &Settings::cflCondition}, {"defaultDensity", &Settings::defaultDensity}, {"kinematicViscosity", &Settings::kinematicViscosity},
        {"surfaceDetection-numberDensity-threshold", &Settings::surfaceDetection_numberDensity_threshold},
        {"surfaceDetection-particleDistribution-threshold", &Settings::surfaceDetection_particleDistribution_threshold}, {"compressibility", &Settings::compressibility},
        {"relaxationCoefficientForPressure", &Settings::relaxationCoefficientForPressure}, {"soundSpeed", &Settings::soundSpeed}, {"coefficientOfRestitution", &Settings::coefficientOfRestitution},
        {"gravity-norm", &Settings::gNorm}, {"gravity-angle", &Settings::gAngle}};
    std::vector<double> v;
    for (auto& f : fs) { bool angle = f.f == &Settings::gAngle, l0 = f.f == &Settings::particleDistance; v.push_back(sym(f.key, angle ? -720 : 0, angle ? 720 : l0 ? 100 : 1e9)); y.set(f.key, S(v.back())); }
    Vec g = symVec("g", -2000, 2000), lo = symVec("lo", -100, 50), hi = symVec("hi", -40, 200);
    for (int c = 0; c < 3; c++) assume(lt(lo[c], hi[c]));
    auto list = [&](const Vec& a) { return "[" + S(a[0]) + ", " + S(a[1]) + ", " + S(a[2]) + "]"; };
    y.set("gravity", list(g)); y.set("domainMin", list(lo)); y.set("domainMax", list(hi));
    double rc = sym("rc", 0, 3), rn = sym("rn", 0.5, 50), rg = sym("rg", 0.5, 50), rl = sym("rl", 0.5, 50);
    y.set("collisionDistanceRatio", S(rc)); y.set("radiusRatioForNumberDensity", S(rn)); y.set("radiusRatioForGradient", S(rg)); y.set("radiusRatioForLaplacian", S(rl));
    int dim = 2 + choice("dim", 2);
    y.set("dim", std::to_string(dim));
    y.set("numPhysicalCores", "7");
    Settings s = loadFrom(dirs(), y.str()).settings;
    for (size_t i = 0; i < v.size(); i++) check(eq(s.*fs[i].f, v[i]), (std::string("setting read under its documented key: ") + fs[i].key).c_str());
    check(sameV(s.gravity, g), "gravity is read by component");
    check(eq(s.domain.xMin, lo[0]) && eq(s.domain.yMin, lo[1]) && eq(s.domain.zMin, lo[2]) && eq(s.domain.xMax, hi[0]) && eq(s.domain.yMax, hi[1]) && eq(s.domain.zMax, hi[2]), "the domain box is read by corner and axis");
    check(close(s.domain.xLength, hi[0] - lo[0], 1e-9) && close(s.domain.yLength, hi[1] - lo[1], 1e-9) && close(s.domain.zLength, hi[2] - lo[2], 1e-9), "the domain lengths follow from the corners");
    double l0 = s.particleDistance;
    check(close(s.collisionDistance, rc * l0, 1e-9), "the collision distance is its ratio times the particle distance");
    check(close(s.re_forNumberDensity, rn * l0, 1e-9) && close(s.re_forGradient, rg * l0, 1e-9) && close(s.re_forLaplacian, rl * l0, 1e-9), "every effective radius is its own ratio times the particle distance");
    check(le(s.re_forNumberDensity, s.reMax) && le(s.re_forGradient, s.reMax) && le(s.re_forLaplacian, s.reMax), "the search radius covers every effective radius");
    check(close(s.reMax, dmax(dmax(rn, rg), rl) * l0, 1e-9), "the search radius is the largest effective radius");
    check(truth(s.dim == dim && s.numPhysicalCores == 7), "integer settings are read");
}
CASE(settings_options) {
    Yml y = baseYml();
    int xyz = choice("xyz", 3), bin = choice("binary", 3), dist = choice("dist", 2), m = choice("method", 2);
    double n = sym("norm", 1, 20);
    if (xyz) y.set("xyz-input", xyz == 1 ? "true" : "false");
    if (bin) y.set("outputVtkInBinary", bin == 1 ? "true" : "false");
    if (choice("norm", 2)) y.set("gravity-norm", S(n)); else n = 0;
    y.set("surfaceDetection-particleDistribution", dist ? "true" : "false");
    y.set("pressureCalculationMethod", m ? "Explicit" : "Implicit");
    Settings s = loadFrom(dirs(), y.str()).settings;
    check(truth(s.xyzInput == (xyz != 2)), "gravity is given by components unless switched off");
    check(truth(s.outputVtkInBinary == (bin == 1)), "VTK output is ASCII unless switched to binary");
    check(eq(s.gNorm, n) && eq(s.gAngle, 0.0), "unset gravity norm and angle are zero");
    check(truth(s.surfaceDetection_particleDistribution == (dist == 1)), "the distribution criterion is switched by its key");
    check(truth(s.pressureCalculationMethod == (m ? "Explicit" : "Implicit")), "the pressure method is read");
}
CASE(settings_missing) {
    static const char* keys[] = {"dim", "particleDistance", "dt", "endTime", "outputPeriod", "cflCondition", "numPhysicalCores", "domainMin", "domainMax", "defaultDensity", "kinematicViscosity",
        "surfaceDetection-numberDensity-threshold", "surfaceDetection-particleDistribution", "surfaceDetection-particleDistribution-threshold", "pressureCalculationMethod", "compressibility",
        "relaxationCoefficientForPressure", "soundSpeed", "collisionDistanceRatio", "coefficientOfRestitution", "radiusRatioForNumberDensity", "radiusRatioForGradient", "radiusRatioForLaplacian", "particlesPath", "gravity"};
    static const char* vectors[3] = {"gravity", "domainMin", "domainMax"};
    int how = choice("how", 4), k = choice("key", how < 2 ? 25 : 3);
    Yml y = baseYml();
    y.set("endTime", S(sym("end", 1, 2)));
    std::string a = S(sym("first", -5, 5));
    if (how == 2) y.set(vectors[k], choice("length", 2) ? "[" + a + ", 1]" : "[" + a + "]"); // components missing
    else if (how == 3) { static const char* bad[3] = {"[x, 1, 2]", "[1, x, 2]", "[1, 2, ]"}; y.set(vectors[k], bad[choice("component", 3)]); }
    else if (how == 0) y.drop(keys[k]); else y.set(keys[k], std::string(keys[k]) == "pressureCalculationMethod" || std::string(keys[k]) == "particlesPath" ? "[]" : "nonsense");
    Dirs d = dirs();
    bool loaded = false;
    Outcome o = guard([&] { loadFrom(d, y.str()); loaded = true; });
    check(truth(!loaded && (o.threw || (o.exited && o.status != 0))), "a missing or unreadable mandatory setting is refused");
}

// =================================================================== whole input
CASE(input_load) {
    int fmt = choice("format", 3);
    double t0 = sym("t0", 0, 9), rho = sym("rho", 1, 5000);
    auto r = rowsOf(2, false);
    Dirs d{tmpdir() + "/in", tmpdir() + "/out"};
    std::string sub = choice("subdir", 2) ? "data/" : "";
    mkdirs(d.in + "/" + sub);
    mkdirs(d.out);
    static const char* ext[3] = {".prof", ".csv", ".vtu"};
    std::string f, name = std::string("particles") + ext[fmt];
    if (fmt < 2) f = S(t0) + "\n2\n" + (fmt == 1 ? "type,x,y,z,vx,vy,vz\n" : "");
    else f = "<VTKFile>\n<DataArray Name=\"Time\">\n" + S(t0) + "\n</DataArray>\n<DataArray Name=\"Particle Type\">\n1\n2\n</DataArray>\n<DataArray Name=\"Position\">\n";
    for (auto& q : r) {
        const char* c = fmt == 1 ? "," : " ";
        if (fmt < 2) f += std::to_string(q.type) + c;
        f += S(q.x[0]) + c + S(q.x[1]) + c + S(q.x[2]);
        if (fmt < 2) f += c + S(q.v[0]) + c + S(q.v[1]) + c + S(q.v[2]);
        f += "\n";
    }
    if (fmt == 2) f += "</DataArray>\n</VTKFile>\n";
    int tail = choice("tail", 3);
    if (tail == 1) f.pop_back(); // no newline at the end
    if (tail == 2 && fmt != 1) for (int i = 0; i < (fmt == 2 ? 1500 : 2); i++) f += std::string(40, ' ') + "\n"; // blanks
    writeFile(d.in + "/" + sub + name, f);
    Yml y = baseYml();
    y.set("defaultDensity", S(rho));
    y.set("particlesPath", "./" + sub + name);
    std::string yml = y.str();
    // a particle file of the same name lies in the current directory
    mkdirs(tmpdir() + "/cwd/" + sub);
    static const char* decoy[3] = {"7\n0\n", "7\n0\ntype,x,y,z,vx,vy,vz\n", "<VTKFile>\n<DataArray Name=\"Time\">\n7\n</DataArray>\n<DataArray Name=\"Position\">\n</DataArray>\n</VTKFile>\n"};
    writeFile(tmpdir() + "/cwd/" + sub + name, decoy[fmt]);
    auto cwd = std::filesystem::current_path();
    std::filesystem::current_path(tmpdir() + "/cwd");
    Input in;
    Outcome o = guard([&] { in = loadFrom(d, yml); });
    std::filesystem::current_path(cwd);
    check(truth(!o.exited && !o.threw), "a run loads its input whatever the current directory holds");
    check(close(in.startTime, t0, 1e-9), "the run starts at the time of its particle file");
    check(truth(in.particles.size() == 2), "the run starts with the particles of its particle file, found relative to the settings file");
    for (int i = 0; i < std::min(2, in.particles.size()); i++) {
        check(closeV(in.particles[size_t(i)].position, r[size_t(i)].x, 1e-9), "the run starts with the positions of its particle file");
        check(close(in.particles[size_t(i)].density, rho, 1e-9), "particles without density get the default density of the settings");
    }
    check(truth(readFile(d.out + "/s.yml") == yml && readFile(d.out + "/" + name) == f), "both input files are copied unchanged next to the results");
    check(truth(readFile(d.in + "/s.yml") == yml && readFile(d.in + "/" + sub + name) == f), "the input files themselves stay unchanged");
    // the copies are files of their own: later changes of the input leave them alone
    writeFile(d.in + "/s.yml", "changed\n");
    writeFile(d.in + "/" + sub + name, "changed\n");
    check(truth(readFile(d.out + "/s.yml") == yml && readFile(d.out + "/" + name) == f), "the copies next to the results do not follow later changes of the input");
}
CASE(input_no_overwrite) {
    Dirs d = dirs();
    int which = choice("which", 3);
    Yml y = baseYml();
    y.set("endTime", S(sym("a", 1, 2)));
    // an unrelated file or the very same content
    std::string old = choice("same", 2) ? which == 0 ? y.str() : readFile(d.in + "/p.prof") : "precious";
    std::string target = d.out + (which == 0 ? "/s.yml" : "/p.prof");
    if (which < 2) writeFile(target, old);
    bool loaded = false;
    Outcome o = guard([&] { loadFrom(d, y.str()); loaded = true; });
    if (which == 2) { check(truth(loaded), "loading into an empty result directory succeeds"); return; }
    check(truth(readFile(target) == old), "a file of an earlier run is never overwritten by the input copy");
    check(truth(!loaded && o.exited && o.status != 0 && !o.err.empty()), "finding a file of an earlier run ends the program with a failure status");
}
CASE(input_extension) {
    static const char* ext[5] = {".txt", "", ".PROF", ".csv2", ".vtk"};
    int k = choice("ext", 5);
    Dirs d = dirs();
    std::string n = std::string("q") + ext[k];
    writeFile(d.in + "/" + n, "0\n1\n1 " + S(sym("a", 0, 1)) + " 0 0 0 0 0\n");
    Yml y = baseYml();
    y.set("particlesPath", n);
    bool loaded = false;
    Outcome o = guard([&] { loadFrom(d, y.str()); loaded = true; });
    check(truth(!loaded && o.exited && o.status != 0 && !o.err.empty()), "a particle file of unknown format is refused with a failure status");
}
