From 86f700f848743f3caec364d09fdf60a3e4379748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:34 +0000
Subject: [PATCH 01/14] fix: treat a particle with a non-finite position as out
 of domain

NaN compares false with every bound, so such a particle passed the domain
test and indexed the buckets with the undefined result of (int)NaN.
---
 src/bucket.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index d616aa3..10324e6 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -38,11 +38,11 @@ void Bucket::storeParticles(Particles& particles) {
             continue;
 
         bool isInDomain = true;
-        if (p.position.x() < domain.xMin || domain.xMax < p.position.x())
+        if (!(domain.xMin <= p.position.x() && p.position.x() <= domain.xMax))
             isInDomain = false;
-        if (p.position.y() < domain.yMin || domain.yMax < p.position.y())
+        if (!(domain.yMin <= p.position.y() && p.position.y() <= domain.yMax))
             isInDomain = false;
-        if (p.position.z() < domain.zMin || domain.zMax < p.position.z())
+        if (!(domain.zMin <= p.position.z() && p.position.z() <= domain.zMax))
             isInDomain = false;
         if (!isInDomain) {
             cerr << "WARNING: particle " << p.id << " is out of domain." << endl;
-- 
2.43.0


From b2b8447ff6bae114acc85e9bcea9fadb0a1582c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:17 +0000
Subject: [PATCH 02/14] fix: use std::abs in the distribution criterion

Unqualified abs is int abs(int) unless some header happens to import the
floating-point overloads (e.g. with EIGEN_DONT_VECTORIZE or without SSE), and
then every offset below one length unit counts as zero.
---
 src/surface_detector/distribution.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/surface_detector/distribution.cpp b/src/surface_detector/distribution.cpp
index 5ccc4e7..5705147 100644
--- a/src/surface_detector/distribution.cpp
+++ b/src/surface_detector/distribution.cpp
@@ -1,6 +1,7 @@
 #include "distribution.hpp"
 
 #include <Eigen/Dense>
+#include <cmath>
 
 using SurfaceDetector::Distribution;
 
@@ -43,13 +44,13 @@ bool Distribution::subDetection(const Particles& particles, const Particle& part
 
     auto threshold = distributionThresholdRatio * particleDistance;
 
-    if (abs(rij_sum.x()) > threshold) {
+    if (std::abs(rij_sum.x()) > threshold) {
         return true;
 
-    } else if (abs(rij_sum.y()) > threshold) {
+    } else if (std::abs(rij_sum.y()) > threshold) {
         return true;
 
-    } else if (abs(rij_sum.z()) > threshold) {
+    } else if (std::abs(rij_sum.z()) > threshold) {
         return true;
 
     } else {
-- 
2.43.0


From 55480959566931c3af3d8e93601e8b329cfe739a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 03/14] fix: do not read the number density of a vtu file as
 density

The search for "Density" also matched the arrays "Number Density" and
"Number Density Ratio" written by the exporter, so a run restarted from its
own output used number densities as mass densities.
---
 src/particles_loader/vtu.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index d66ab11..e02ac97 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -99,8 +99,8 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             }
         }
 
-        // Extract densities
-        if (line.find("Density") != std::string::npos) {
+        // Extract densities ("Number Density" and "Number Density Ratio" are different quantities)
+        if (line.find("\"Density\"") != std::string::npos || line.find("'Density'") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
                 std::istringstream iss(line);
-- 
2.43.0


From 6522feae11edc88b6658075fd50b6f500192a6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 04/14] fix: reject truncated or malformed prof files

Particles beyond the readable part of the file were created with
uninitialised positions and velocities.
---
 src/particles_loader/prof.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/particles_loader/prof.cpp b/src/particles_loader/prof.cpp
index 74cfc74..d1c0de5 100644
--- a/src/particles_loader/prof.cpp
+++ b/src/particles_loader/prof.cpp
@@ -23,6 +23,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
     int particleSize = 0;
     ifs >> startTime;
     ifs >> particleSize;
+    if (ifs.fail()) {
+        cerr << "invalid prof file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
     for (int i = 0; i < particleSize; i++) {
         int type_int = 0;
         ParticleType type;
@@ -31,6 +35,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
         ifs >> type_int;
         ifs >> pos.x() >> pos.y() >> pos.z();
         ifs >> vel.x() >> vel.y() >> vel.z();
+        if (ifs.fail()) {
+            cerr << "invalid prof file: " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
 
         type = static_cast<ParticleType>(type_int);
         particles.add(Particle(particles.size(), type, pos, vel, defaultDensity));
-- 
2.43.0


From 92ad64ef4973d603deeb3cf0a78713771cf12afe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:21 +0000
Subject: [PATCH 05/14] fix: cancel the overwrite dialogue at end of input

A failed read left the answer empty and the question was repeated forever.
---
 generator/generator_src/generator_dialogue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/generator_src/generator_dialogue.cpp b/generator/generator_src/generator_dialogue.cpp
index 9752dbe..2538d74 100644
--- a/generator/generator_src/generator_dialogue.cpp
+++ b/generator/generator_src/generator_dialogue.cpp
@@ -37,7 +37,10 @@ void GeneratorDialogue::generatorDialogue(
             std::string response;
             while (true) {
                 std::cout << "Are you sure you want to overwrite the input files? (y/n): ";
-                std::cin >> response;
+                if (!(std::cin >> response)) {
+                    std::cout << "The request has been cancelled." << std::endl;
+                    std::exit(0);
+                }
                 if (response == "n" || response == "N") {
                     std::cout << "The request has been cancelled." << std::endl;
                     std::exit(0);
-- 
2.43.0


From 7548dd16ddbe80b9c84c1558ca7a8e8bc1397947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 06/14] fix: refuse csv files without a mandatory column

---
 src/particles_loader/csv.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index d0bcb40..08a9211 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -21,6 +21,12 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
     double numParticles = std::stod(in.next_line());
 
     in.read_header(io::ignore_missing_column, "type", "fluidType", "x", "y", "z", "vx", "vy", "vz", "density");
+    for (const auto& column : {"type", "x", "y", "z", "vx", "vy", "vz"}) {
+        if (!in.has_column(column)) {
+            cerr << "missing column " << column << " in csv file: " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
+    }
     int type;
     int fluidType = 0;
     double x, y, z, vx, vy, vz;
-- 
2.43.0


From a222bfcf492f04e3784e93faaba7574ee65e2f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:16 +0000
Subject: [PATCH 07/14] fix: refuse csv files with missing rows or empty cells

---
 src/particles_loader/csv.cpp | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index 08a9211..272745e 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -6,17 +6,28 @@
 #include <csv.h>
 #include <fstream>
 #include <iostream>
+#include <stdexcept>
 #include <string>
 
 using ParticlesLoader::Csv;
 using std::cerr;
 using std::endl;
 
+// Trims the cells of a row and refuses empty ones, which would be read as zero
+struct TrimNonEmpty : io::trim_chars<' ', '\t'> {
+    static void trim(char*& begin, char*& end) {
+        io::trim_chars<' ', '\t'>::trim(begin, end);
+        if (begin == end) {
+            throw std::runtime_error("empty cell in csv file");
+        }
+    }
+};
+
 Csv::Csv() {
 }
 
 std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensity) {
-    io::CSVReader<9> in(path.string());
+    io::CSVReader<9, TrimNonEmpty> in(path.string());
     double startTime    = std::stod(in.next_line());
     double numParticles = std::stod(in.next_line());
 
@@ -41,6 +52,11 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
         particles.add(Particle(particles.size(), static_cast<ParticleType>(type), pos, vel, density, fluidType));
     }
 
+    if (particles.size() != numParticles) {
+        cerr << "the number of particles does not match the number of rows in csv file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
+
     return std::make_pair(startTime, particles);
 }
 
-- 
2.43.0


From f1a4d0e45ae548c34ed5884cc3ccb887b18556e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:52 +0000
Subject: [PATCH 08/14] fix: refuse truncated vtu files and data arrays of
 different lengths

---
 src/particles_loader/vtu.cpp | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index e02ac97..1e5e6f5 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -22,13 +22,22 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
 
     // Check if the file contains "<AppendedData>" tag
     std::string line;
+    bool complete = false;
     while (std::getline(ifs, line)) {
+        if (line.find("</VTKFile>") != std::string::npos) {
+            complete = true;
+        }
         if (line.find("<AppendedData") != std::string::npos) {
             cerr << "Error: Binary VTU files are not supported: " << fs::absolute(path) << endl;
             std::exit(-1);
         }
     }
 
+    if (!complete) {
+        cerr << "Error: VTU file is incomplete: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
+
     // Reset the file stream to the beginning for further processing
     ifs.clear();
     ifs.seekg(0, std::ios::beg);
@@ -114,6 +123,12 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
 
     // Construct particles
     size_t numParticles = positions.size();
+    auto isIncomplete   = [&](size_t size) { return size != 0 && size != numParticles; };
+    if (types.size() != numParticles || isIncomplete(velocities.size()) || isIncomplete(fluidTypes.size()) ||
+        isIncomplete(densities.size())) {
+        cerr << "Error: data arrays of different lengths in VTU file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
     for (size_t i = 0; i < numParticles; ++i) {
         Eigen::Vector3d pos = positions[i];
         Eigen::Vector3d vel = (i < velocities.size()) ? velocities[i] : Eigen::Vector3d(0, 0, 0);
-- 
2.43.0


From 2b8f74f723a6754f9457c0dd604234c84e34748a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:48 +0000
Subject: [PATCH 09/14] fix: refuse vtu files without a time or with several
 particles on a line

---
 src/particles_loader/vtu.cpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index 1e5e6f5..044b2d6 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -1,5 +1,6 @@
 #include "vtu.hpp"
 
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -65,7 +66,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 std::istringstream iss(line);
                 double x, y, z;
-                if (!(iss >> x >> y >> z)) {
+                if (!(iss >> x >> y >> z) || !(iss >> std::ws).eof()) {
                     throw std::runtime_error("Invalid position data format");
                 }
                 positions.emplace_back(x, y, z);
@@ -77,7 +78,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 std::istringstream iss(line);
                 double vx, vy, vz;
-                if (!(iss >> vx >> vy >> vz)) {
+                if (!(iss >> vx >> vy >> vz) || !(iss >> std::ws).eof()) {
                     throw std::runtime_error("Invalid velocity data format");
                 }
                 velocities.emplace_back(vx, vy, vz);
@@ -89,7 +90,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 int type;
                 std::istringstream iss(line);
-                if (!(iss >> type)) {
+                if (!(iss >> type) || !(iss >> std::ws).eof()) {
                     throw std::runtime_error("Invalid particle type data format");
                 }
                 types.push_back(type);
@@ -101,7 +102,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 int fluidType;
                 std::istringstream iss(line);
-                if (!(iss >> fluidType)) {
+                if (!(iss >> fluidType) || !(iss >> std::ws).eof()) {
                     throw std::runtime_error("Invalid fluid type data format");
                 }
                 fluidTypes.push_back(fluidType);
@@ -113,7 +114,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
                 std::istringstream iss(line);
-                if (!(iss >> density)) {
+                if (!(iss >> density) || !(iss >> std::ws).eof()) {
                     throw std::runtime_error("Invalid density data format");
                 }
                 densities.push_back(density);
@@ -121,6 +122,11 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         }
     }
 
+    if (std::isnan(startTime)) {
+        cerr << "Error: no time in VTU file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
+
     // Construct particles
     size_t numParticles = positions.size();
     auto isIncomplete   = [&](size_t size) { return size != 0 && size != numParticles; };
-- 
2.43.0


From 3fd8da3d5e83f11df3e1ea6ca2d1f376757bbbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:29 +0000
Subject: [PATCH 10/14] fix: stop when a result file cannot be written
 completely

---
 src/particles_exporter.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/particles_exporter.cpp b/src/particles_exporter.cpp
index fb0e6c9..7384fed 100644
--- a/src/particles_exporter.cpp
+++ b/src/particles_exporter.cpp
@@ -10,6 +10,15 @@ using std::cerr;
 using std::endl;
 namespace fs = std::filesystem;
 
+/// @brief Close a written file and stop if it could not be written completely (e.g. because the disk is full)
+static void closeFile(std::ofstream& ofs, const fs::path& path) {
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "cannot write " << path << endl;
+        std::exit(-1);
+    }
+}
+
 bool ParticlesExporter::isBigEndian() const {
     uint32_t i         = 1; // 0x00000001
     uint8_t first_byte = *reinterpret_cast<uint8_t*>(&i);
@@ -64,6 +73,7 @@ void ParticlesExporter::toProf(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << " " << p.velocity.y() << " " << p.velocity.z();
         ofs << endl;
     }
+    closeFile(ofs, path);
 }
 void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
     std::ofstream ofs(path);
@@ -177,6 +187,7 @@ void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, con
     ofs << "</FieldData>" << endl;
     ofs << "</UnstructuredGrid>" << endl;
     ofs << "</VTKFile>" << endl;
+    closeFile(ofs, path);
 }
 
 void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
@@ -341,6 +352,7 @@ void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, co
     ofs << "_" << binaryData.str() << endl;
     ofs << "</AppendedData>" << endl;
     ofs << "</VTKFile>" << endl;
+    closeFile(ofs, path);
 }
 
 void ParticlesExporter::toVtu(
@@ -370,4 +382,5 @@ void ParticlesExporter::toCsv(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << "," << p.velocity.y() << "," << p.velocity.z();
         ofs << endl;
     }
+    closeFile(ofs, path);
 }
-- 
2.43.0


From 8183f591c5c14599e3e06fc592d6131ab05d260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:00 +0000
Subject: [PATCH 11/14] fix: save the density of the particles in csv files

---
 src/particles_exporter.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/particles_exporter.cpp b/src/particles_exporter.cpp
index 7384fed..405a689 100644
--- a/src/particles_exporter.cpp
+++ b/src/particles_exporter.cpp
@@ -374,12 +374,13 @@ void ParticlesExporter::toCsv(const fs::path& path, const double& time) {
 
     ofs << time << endl;
     ofs << particles.size() << endl;
-    ofs << "type,fluidType,x,y,z,vx,vy,vz" << endl;
+    ofs << "type,fluidType,x,y,z,vx,vy,vz,density" << endl;
     for (const auto& p : particles) {
         ofs << static_cast<int>(p.type) << ",";
         ofs << p.fluidType << ",";
         ofs << p.position.x() << "," << p.position.y() << "," << p.position.z() << ",";
-        ofs << p.velocity.x() << "," << p.velocity.y() << "," << p.velocity.z();
+        ofs << p.velocity.x() << "," << p.velocity.y() << "," << p.velocity.z() << ",";
+        ofs << p.density;
         ofs << endl;
     }
     closeFile(ofs, path);
-- 
2.43.0


From c151ec6878b45aa77784a44b0a6eb5c2cea96c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:55 +0000
Subject: [PATCH 12/14] fix: refuse profile files with more particles than
 announced

---
 src/particles_loader/prof.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/prof.cpp b/src/particles_loader/prof.cpp
index d1c0de5..75fc68a 100644
--- a/src/particles_loader/prof.cpp
+++ b/src/particles_loader/prof.cpp
@@ -23,7 +23,7 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
     int particleSize = 0;
     ifs >> startTime;
     ifs >> particleSize;
-    if (ifs.fail()) {
+    if (ifs.fail() || particleSize < 0) {
         cerr << "invalid prof file: " << fs::absolute(path) << endl;
         std::exit(-1);
     }
@@ -43,6 +43,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
         type = static_cast<ParticleType>(type_int);
         particles.add(Particle(particles.size(), type, pos, vel, defaultDensity));
     }
+    if (!(ifs >> std::ws).eof()) {
+        cerr << "more particles than announced in prof file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
 
     return {startTime, particles};
 }
-- 
2.43.0


From 952d78c2bafe54d03bc24ddfc847fd5e69c460b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:03 +0000
Subject: [PATCH 13/14] fix: refuse CSV and VTU files whose time or count is
 followed by something or not finite

---
 src/particles_loader/csv.cpp | 15 +++++++++++++--
 src/particles_loader/vtu.cpp |  6 +++++-
 2 files changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index 272745e..28c1850 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -3,6 +3,7 @@
 #include "../particles.hpp"
 
 #include <Eigen/Dense>
+#include <cmath>
 #include <csv.h>
 #include <fstream>
 #include <iostream>
@@ -23,13 +24,23 @@ struct TrimNonEmpty : io::trim_chars<' ', '\t'> {
     }
 };
 
+// Reads the only number of a line above the header (padded with empty cells if saved by a spreadsheet)
+static double numberOfLine(const std::string& line) {
+    size_t end   = 0;
+    double value = std::stod(line, &end);
+    if (line.find_first_not_of(" \t\r,", end) != std::string::npos || !std::isfinite(value)) {
+        throw std::runtime_error("invalid number in csv file: " + line);
+    }
+    return value;
+}
+
 Csv::Csv() {
 }
 
 std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensity) {
     io::CSVReader<9, TrimNonEmpty> in(path.string());
-    double startTime    = std::stod(in.next_line());
-    double numParticles = std::stod(in.next_line());
+    double startTime    = numberOfLine(in.next_line());
+    double numParticles = numberOfLine(in.next_line());
 
     in.read_header(io::ignore_missing_column, "type", "fluidType", "x", "y", "z", "vx", "vy", "vz", "density");
     for (const auto& column : {"type", "x", "y", "z", "vx", "vy", "vz"}) {
diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index 044b2d6..84126e1 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -58,7 +58,11 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         // Extract start time
         if (line.find("Time") != std::string::npos) {
             std::getline(ifs, line);
-            startTime = std::stod(line);
+            size_t end = 0;
+            startTime  = std::stod(line, &end);
+            if (line.find_first_not_of(" \t\r", end) != std::string::npos || !std::isfinite(startTime)) {
+                throw std::runtime_error("Invalid time data format");
+            }
         }
 
         // Extract particle positions
-- 
2.43.0


From 60defac19dc4feda27d836b650428b689c07f279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:27:25 +0000
Subject: [PATCH 14/14] fix: sum the reference constants over every lattice
 neighbour within the radius

---
 src/refvalues.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/refvalues.cpp b/src/refvalues.cpp
index 281bb71..fffa5d3 100644
--- a/src/refvalues.cpp
+++ b/src/refvalues.cpp
@@ -9,8 +9,9 @@
 RefValues::RefValues(int dim, double particleDistance, double re) {
     assert(dim == 2 || dim == 3);
     assert(particleDistance < re);
-    int iZ_start = -4;
-    int iZ_end   = 5;
+    int range    = (int) ceil(re / particleDistance); // of the lattice neighbors within re
+    int iZ_start = -range;
+    int iZ_end   = range + 1;
     if (dim == 2) {
         iZ_start = 0;
         iZ_end   = 1;
@@ -18,8 +19,8 @@ RefValues::RefValues(int dim, double particleDistance, double re) {
 
     this->n0     = 0.0;
     this->lambda = 0.0;
-    for (int iX = -4; iX < 5; iX++) {
-        for (int iY = -4; iY < 5; iY++) {
+    for (int iX = -range; iX <= range; iX++) {
+        for (int iY = -range; iY <= range; iY++) {
             for (int iZ = iZ_start; iZ < iZ_end; iZ++) {
                 if (((iX == 0) && (iY == 0)) && (iZ == 0))
                     continue;
-- 
2.43.0

