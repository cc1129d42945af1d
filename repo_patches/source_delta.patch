From 15bf47b5cd7b3ba84cf7ccb3a3002d150c7b31b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 01/21] fix: do not load the number density of a vtu file as
 particle density

---
 src/particles_loader/vtu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index d66ab11..37c60a0 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -100,7 +100,8 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         }
 
         // Extract densities
-        if (line.find("Density") != std::string::npos) {
+        // The name has to match exactly: "Number Density" and "Number Density Ratio" are different arrays.
+        if (line.find("\"Density\"") != std::string::npos || line.find("'Density'") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 double density;
                 std::istringstream iss(line);
-- 
2.43.0


From ba967786313279b5e524b4b49f65af441a0d76c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 02/21] fix: cancel the generator dialogue at end of input
 instead of asking forever

---
 generator/generator_src/generator_dialogue.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/generator/generator_src/generator_dialogue.cpp b/generator/generator_src/generator_dialogue.cpp
index 9752dbe..9de09f3 100644
--- a/generator/generator_src/generator_dialogue.cpp
+++ b/generator/generator_src/generator_dialogue.cpp
@@ -37,7 +37,10 @@ void GeneratorDialogue::generatorDialogue(
             std::string response;
             while (true) {
                 std::cout << "Are you sure you want to overwrite the input files? (y/n): ";
-                std::cin >> response;
+                if (!(std::cin >> response)) {
+                    // The input has ended, so no confirmation can be given any more.
+                    response = "n";
+                }
                 if (response == "n" || response == "N") {
                     std::cout << "The request has been cancelled." << std::endl;
                     std::exit(0);
-- 
2.43.0


From c50b6bf07f68ebdd9699c668f82672da2d363942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 03/21] fix: treat particles with a NaN position as out of
 domain instead of crashing

---
 src/bucket.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index d616aa3..e0a912b 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -37,12 +37,13 @@ void Bucket::storeParticles(Particles& particles) {
         if (p.type == ParticleType::Ghost)
             continue;
 
+        // Written so that a position that is not a number is out of the domain, too.
         bool isInDomain = true;
-        if (p.position.x() < domain.xMin || domain.xMax < p.position.x())
+        if (!(domain.xMin <= p.position.x() && p.position.x() <= domain.xMax))
             isInDomain = false;
-        if (p.position.y() < domain.yMin || domain.yMax < p.position.y())
+        if (!(domain.yMin <= p.position.y() && p.position.y() <= domain.yMax))
             isInDomain = false;
-        if (p.position.z() < domain.zMin || domain.zMax < p.position.z())
+        if (!(domain.zMin <= p.position.z() && p.position.z() <= domain.zMax))
             isInDomain = false;
         if (!isInDomain) {
             cerr << "WARNING: particle " << p.id << " is out of domain." << endl;
-- 
2.43.0


From 632605fbbbe5059b8b829e0b8853089df4fbe895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 04/21] fix: sum the reference values over the whole effective
 radius

---
 src/refvalues.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/refvalues.cpp b/src/refvalues.cpp
index 281bb71..fac026b 100644
--- a/src/refvalues.cpp
+++ b/src/refvalues.cpp
@@ -9,8 +9,10 @@
 RefValues::RefValues(int dim, double particleDistance, double re) {
     assert(dim == 2 || dim == 3);
     assert(particleDistance < re);
-    int iZ_start = -4;
-    int iZ_end   = 5;
+    // The lattice has to cover the whole effective radius.
+    int range    = (int) std::ceil(re / particleDistance);
+    int iZ_start = -range;
+    int iZ_end   = range + 1;
     if (dim == 2) {
         iZ_start = 0;
         iZ_end   = 1;
@@ -18,8 +20,8 @@ RefValues::RefValues(int dim, double particleDistance, double re) {
 
     this->n0     = 0.0;
     this->lambda = 0.0;
-    for (int iX = -4; iX < 5; iX++) {
-        for (int iY = -4; iY < 5; iY++) {
+    for (int iX = -range; iX <= range; iX++) {
+        for (int iY = -range; iY <= range; iY++) {
             for (int iZ = iZ_start; iZ < iZ_end; iZ++) {
                 if (((iX == 0) && (iY == 0)) && (iZ == 0))
                     continue;
-- 
2.43.0


From 77358565d483a731f18aecb4934e40f217296ae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:22 +0000
Subject: [PATCH 05/21] fix: reject a truncated prof file instead of making up
 particles

---
 src/particles_loader/prof.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/particles_loader/prof.cpp b/src/particles_loader/prof.cpp
index 74cfc74..3a55a6b 100644
--- a/src/particles_loader/prof.cpp
+++ b/src/particles_loader/prof.cpp
@@ -31,6 +31,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
         ifs >> type_int;
         ifs >> pos.x() >> pos.y() >> pos.z();
         ifs >> vel.x() >> vel.y() >> vel.z();
+        if (ifs.fail()) {
+            cerr << "invalid or truncated prof file: " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
 
         type = static_cast<ParticleType>(type_int);
         particles.add(Particle(particles.size(), type, pos, vel, defaultDensity));
-- 
2.43.0


From 6802be8be86993dd1c75080c16041892e95fef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:52 +0000
Subject: [PATCH 06/21] fix: reject a prof file without a valid header

---
 src/particles_loader/prof.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/particles_loader/prof.cpp b/src/particles_loader/prof.cpp
index 3a55a6b..7719974 100644
--- a/src/particles_loader/prof.cpp
+++ b/src/particles_loader/prof.cpp
@@ -23,6 +23,10 @@ std::pair<double, Particles> Prof::load(const fs::path& path, double defaultDens
     int particleSize = 0;
     ifs >> startTime;
     ifs >> particleSize;
+    if (ifs.fail()) {
+        cerr << "invalid or truncated prof file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
     for (int i = 0; i < particleSize; i++) {
         int type_int = 0;
         ParticleType type;
-- 
2.43.0


From 5a9f832675b24026522848fd940e20cbbd26581d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:55 +0000
Subject: [PATCH 07/21] fix: report snapshots that could not be written
 completely

---
 src/particles_exporter.cpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/src/particles_exporter.cpp b/src/particles_exporter.cpp
index fb0e6c9..c3f6b12 100644
--- a/src/particles_exporter.cpp
+++ b/src/particles_exporter.cpp
@@ -64,6 +64,11 @@ void ParticlesExporter::toProf(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << " " << p.velocity.y() << " " << p.velocity.z();
         ofs << endl;
     }
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "cannot write " << path << endl;
+        std::exit(-1);
+    }
 }
 void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
     std::ofstream ofs(path);
@@ -177,6 +182,11 @@ void ParticlesExporter::toVtuAscii(const fs::path& path, const double& time, con
     ofs << "</FieldData>" << endl;
     ofs << "</UnstructuredGrid>" << endl;
     ofs << "</VTKFile>" << endl;
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "cannot write " << path << endl;
+        std::exit(-1);
+    }
 }
 
 void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, const double& n0ForNumberDensity) {
@@ -341,6 +351,11 @@ void ParticlesExporter::toVtuBinary(const fs::path& path, const double& time, co
     ofs << "_" << binaryData.str() << endl;
     ofs << "</AppendedData>" << endl;
     ofs << "</VTKFile>" << endl;
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "cannot write " << path << endl;
+        std::exit(-1);
+    }
 }
 
 void ParticlesExporter::toVtu(
@@ -370,4 +385,9 @@ void ParticlesExporter::toCsv(const fs::path& path, const double& time) {
         ofs << p.velocity.x() << "," << p.velocity.y() << "," << p.velocity.z();
         ofs << endl;
     }
+    ofs.close();
+    if (ofs.fail()) {
+        cerr << "cannot write " << path << endl;
+        std::exit(-1);
+    }
 }
-- 
2.43.0


From ea7d9f07abf07e0ff32f00a5e4281d0818d9e408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 08/21] fix: run scripts changed and cleared another directory
 if the path of the tree has blanks

---
 scripts/runner.sh      | 2 +-
 scripts/safe_runner.sh | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/runner.sh b/scripts/runner.sh
index f96bc4f..7c07336 100755
--- a/scripts/runner.sh
+++ b/scripts/runner.sh
@@ -10,7 +10,7 @@ errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-cd $(dirname $0)/..
+cd "$(dirname "$0")/.." || exit 1
 
 # create output directory if not exist
 mkdir -p ${outputDir}
diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index a69a5f3..94e95b8 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -22,7 +22,7 @@ errorLogFile="${outputDir}/error.log"
 consoleLogFile="${outputDir}/console.log"
 
 # go to root directory so that we can activate the script from any directory
-cd $(dirname $0)/..
+cd "$(dirname "$0")/.." || exit 1
 
 # create output directory if not exist
 mkdir -p ${outputDir}
-- 
2.43.0


From 696b0b110c980f064421e443d0fb15129c4998c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 09/21] fix: safe_runner.sh made stray directories and no run
 for a note with blanks

---
 scripts/safe_runner.sh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index 94e95b8..8ca337b 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -25,7 +25,7 @@ consoleLogFile="${outputDir}/console.log"
 cd "$(dirname "$0")/.." || exit 1
 
 # create output directory if not exist
-mkdir -p ${outputDir}
+mkdir -p "${outputDir}"
 
 # run simulation
-./build/mps --setting ${settingFile} --output ${outputDir} 2> ${errorLogFile} | tee ${consoleLogFile}
+./build/mps --setting "${settingFile}" --output "${outputDir}" 2> "${errorLogFile}" | tee "${consoleLogFile}"
-- 
2.43.0


From 4c0d08beef5b2867f92beb93b52a86724b7d08af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 10/21] fix: safe_runner.sh overwrote the logs of a run started
 in the same second

---
 scripts/safe_runner.sh | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/safe_runner.sh b/scripts/safe_runner.sh
index 8ca337b..3d771e4 100755
--- a/scripts/safe_runner.sh
+++ b/scripts/safe_runner.sh
@@ -24,8 +24,9 @@ consoleLogFile="${outputDir}/console.log"
 # go to root directory so that we can activate the script from any directory
 cd "$(dirname "$0")/.." || exit 1
 
-# create output directory if not exist
-mkdir -p "${outputDir}"
+# create output directory, which must not exist yet (it would hold the results of another run)
+mkdir -p "$(dirname "${outputDir}")"
+mkdir "${outputDir}" || exit 1
 
 # run simulation
 ./build/mps --setting "${settingFile}" --output "${outputDir}" 2> "${errorLogFile}" | tee "${consoleLogFile}"
-- 
2.43.0


From f00d12f5f1a9c7dfd5a574b1535a5b4dbe9d8de9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:20 +0000
Subject: [PATCH 11/21] fix: load the positions of vtu files of older versions,
 among them the shipped ones

---
 src/particles_loader/vtu.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index 37c60a0..a8423f9 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -52,7 +52,8 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         }
 
         // Extract particle positions
-        if (line.find("Position") != std::string::npos) {
+        // Files of older versions have the name in lower case.
+        if (line.find("Position") != std::string::npos || line.find("'position'") != std::string::npos) {
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 std::istringstream iss(line);
                 double x, y, z;
-- 
2.43.0


From bbb74f7ec1624c55fd69ea1f8c6e2101de51ebbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 12/21] fix: reject incomplete ASCII vtu files instead of
 making up particles

---
 src/particles_loader/vtu.cpp | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index a8423f9..0fab6de 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -1,5 +1,6 @@
 #include "vtu.hpp"
 
+#include <cmath>
 #include <fstream>
 #include <iostream>
 #include <sstream>
@@ -42,6 +43,8 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
     std::vector<int> types;
     std::vector<int> fluidTypes;
     std::vector<double> densities;
+    bool hasPositions = false;
+    bool isComplete   = false;
 
     // Parse VTU file
     while (std::getline(ifs, line)) {
@@ -54,6 +57,7 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         // Extract particle positions
         // Files of older versions have the name in lower case.
         if (line.find("Position") != std::string::npos || line.find("'position'") != std::string::npos) {
+            hasPositions = true;
             while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
                 std::istringstream iss(line);
                 double x, y, z;
@@ -112,10 +116,23 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
                 densities.push_back(density);
             }
         }
+
+        if (line.find("</VTKFile>") != std::string::npos) {
+            isComplete = true;
+        }
+    }
+
+    // Arrays may be missing, but not parts of them
+    size_t numParticles      = positions.size();
+    auto isMissingOrComplete = [&](size_t size) { return size == 0 || size == numParticles; };
+    if (std::isnan(startTime) || !hasPositions || !isComplete || !isMissingOrComplete(velocities.size()) ||
+        !isMissingOrComplete(types.size()) || !isMissingOrComplete(fluidTypes.size()) ||
+        !isMissingOrComplete(densities.size())) {
+        cerr << "invalid or truncated vtu file: " << fs::absolute(path) << endl;
+        std::exit(-1);
     }
 
     // Construct particles
-    size_t numParticles = positions.size();
     for (size_t i = 0; i < numParticles; ++i) {
         Eigen::Vector3d pos = positions[i];
         Eigen::Vector3d vel = (i < velocities.size()) ? velocities[i] : Eigen::Vector3d(0, 0, 0);
-- 
2.43.0


From 0dd4656eafb849e7c019903eb1935722ff4749c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 13/21] fix: reject csv files without the columns a particle
 needs

---
 src/particles_loader/csv.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index d0bcb40..44a9a9e 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -21,6 +21,12 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
     double numParticles = std::stod(in.next_line());
 
     in.read_header(io::ignore_missing_column, "type", "fluidType", "x", "y", "z", "vx", "vy", "vz", "density");
+    for (const auto& column : {"type", "x", "y", "z", "vx", "vy", "vz"}) {
+        if (!in.has_column(column)) {
+            cerr << "csv file has no column " << column << ": " << fs::absolute(path) << endl;
+            std::exit(-1);
+        }
+    }
     int type;
     int fluidType = 0;
     double x, y, z, vx, vy, vz;
-- 
2.43.0


From 4b63392eebd3a5150d40cf25d112efbd9bf1b8ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:40 +0000
Subject: [PATCH 14/21] fix: reject csv files with fewer particles than they
 announce

---
 src/particles_loader/csv.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/particles_loader/csv.cpp b/src/particles_loader/csv.cpp
index 44a9a9e..9142341 100644
--- a/src/particles_loader/csv.cpp
+++ b/src/particles_loader/csv.cpp
@@ -40,6 +40,10 @@ std::pair<double, Particles> Csv::load(const fs::path& path, double defaultDensi
         }
         particles.add(Particle(particles.size(), static_cast<ParticleType>(type), pos, vel, density, fluidType));
     }
+    if (particles.size() < numParticles) {
+        cerr << "truncated csv file: " << fs::absolute(path) << endl;
+        std::exit(-1);
+    }
 
     return std::make_pair(startTime, particles);
 }
-- 
2.43.0


From b5e982b324a9cbb1f40783b7aa186fa05486994d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 15/21] fix: keep walls in place when the impulse of a
 collision overflows

---
 src/mps.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/mps.cpp b/src/mps.cpp
index b5d570b..bb13007 100644
--- a/src/mps.cpp
+++ b/src/mps.cpp
@@ -132,12 +132,15 @@ void MPS::collision() {
                 if (relVel < 0.0)
                     impulse = -(1 + settings.coefficientOfRestitution) * relVel * mass;
                 pi.velocity -= impulse * invMi * normal;
-                pj.velocity += impulse * invMj * normal;
+                // Walls do not move, even if the impulse is infinite.
+                if (pj.type == ParticleType::Fluid)
+                    pj.velocity += impulse * invMj * normal;
 
                 double depth           = settings.collisionDistance - neighbor.distance;
                 double positionImpulse = depth * mass;
                 pi.position -= positionImpulse * invMi * normal;
-                pj.position += positionImpulse * invMj * normal;
+                if (pj.type == ParticleType::Fluid)
+                    pj.position += positionImpulse * invMj * normal;
 
                 // cerr << "WARNING: Collision between particles " << pi.id << " and " << pj.id << " occurred."
                 // << endl;
-- 
2.43.0


From 00e66a8aabda43d2f7982505f0d8084b46d7f611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 16/21] fix: find neighbors that rounding puts two cells apart

---
 src/neighbor_searcher.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/neighbor_searcher.cpp b/src/neighbor_searcher.cpp
index 8232476..698a6d8 100644
--- a/src/neighbor_searcher.cpp
+++ b/src/neighbor_searcher.cpp
@@ -5,7 +5,9 @@
 NeighborSearcher::NeighborSearcher(const double& re, const Domain& domain, const size_t& particleSize) {
     this->re     = re;
     this->domain = domain;
-    this->bucket = Bucket(re, domain, particleSize);
+    // The cells are a bit wider than the radius. Otherwise rounding of the positions in the domain could put two
+    // particles closer than the radius two cells apart.
+    this->bucket = Bucket(re * (1.0 + 1e-6), domain, particleSize);
 }
 
 void NeighborSearcher::setNeighbors(Particles& particles) {
-- 
2.43.0


From 8138cc5267f41ecc74f73a545f8a2e29a095bebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:27:27 +0000
Subject: [PATCH 17/21] fix: stop when the time step is too small to advance
 the time

---
 src/simulation.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/simulation.cpp b/src/simulation.cpp
index 587e2fa..dfdc10a 100644
--- a/src/simulation.cpp
+++ b/src/simulation.cpp
@@ -31,6 +31,11 @@ void Simulation::run() {
     saver.save(mps, time);
 
     while (time < endTime) {
+        if (time + dt <= time) {
+            cerr << "dt = " << dt << " is too small to advance the time from t = " << time << endl;
+            std::exit(-1);
+        }
+
         auto timeStepStartTime = chrono::system_clock::now();
 
         mps.stepForward();
-- 
2.43.0


From e7a84ecb690840c3096d243a7079977ecf079bc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 18/21] fix: read ASCII vtu arrays with several values per line

---
 src/particles_loader/vtu.cpp | 84 +++++++++++++++++++-----------------
 1 file changed, 44 insertions(+), 40 deletions(-)

diff --git a/src/particles_loader/vtu.cpp b/src/particles_loader/vtu.cpp
index 0fab6de..7965860 100644
--- a/src/particles_loader/vtu.cpp
+++ b/src/particles_loader/vtu.cpp
@@ -11,6 +11,45 @@ using ParticlesLoader::Vtu;
 using std::cerr;
 using std::endl;
 
+namespace {
+
+/**
+ * @brief Read the numbers of an ASCII data array, however they are distributed over its lines
+ * @param ifs file stream, just after the line of the opening tag
+ * @param errorMessage message if there is something else than numbers
+ */
+template <typename T> std::vector<T> readDataArray(std::ifstream& ifs, const char* errorMessage) {
+    std::vector<T> values;
+    std::string line;
+    while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
+        std::istringstream iss(line);
+        for (T value; iss >> value;) {
+            values.push_back(value);
+        }
+        if (!iss.eof()) {
+            throw std::runtime_error(errorMessage);
+        }
+    }
+    return values;
+}
+
+/**
+ * @brief Read the vectors of an ASCII data array
+ */
+std::vector<Eigen::Vector3d> readVectorArray(std::ifstream& ifs, const char* errorMessage) {
+    auto values = readDataArray<double>(ifs, errorMessage);
+    if (values.size() % 3 != 0) {
+        throw std::runtime_error(errorMessage);
+    }
+    std::vector<Eigen::Vector3d> vectors;
+    for (size_t i = 0; i < values.size(); i += 3) {
+        vectors.emplace_back(values[i], values[i + 1], values[i + 2]);
+    }
+    return vectors;
+}
+
+} // namespace
+
 Vtu::Vtu() {
 }
 
@@ -58,63 +97,28 @@ std::pair<double, Particles> Vtu::load(const fs::path& path, double defaultDensi
         // Files of older versions have the name in lower case.
         if (line.find("Position") != std::string::npos || line.find("'position'") != std::string::npos) {
             hasPositions = true;
-            while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
-                std::istringstream iss(line);
-                double x, y, z;
-                if (!(iss >> x >> y >> z)) {
-                    throw std::runtime_error("Invalid position data format");
-                }
-                positions.emplace_back(x, y, z);
-            }
+            positions    = readVectorArray(ifs, "Invalid position data format");
         }
 
         // Extract velocities
         if (line.find("Velocity") != std::string::npos) {
-            while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
-                std::istringstream iss(line);
-                double vx, vy, vz;
-                if (!(iss >> vx >> vy >> vz)) {
-                    throw std::runtime_error("Invalid velocity data format");
-                }
-                velocities.emplace_back(vx, vy, vz);
-            }
+            velocities = readVectorArray(ifs, "Invalid velocity data format");
         }
 
         // Extract particle types
         if (line.find("Particle Type") != std::string::npos) {
-            while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
-                int type;
-                std::istringstream iss(line);
-                if (!(iss >> type)) {
-                    throw std::runtime_error("Invalid particle type data format");
-                }
-                types.push_back(type);
-            }
+            types = readDataArray<int>(ifs, "Invalid particle type data format");
         }
 
         // Extract fluid types
         if (line.find("Fluid Type") != std::string::npos) {
-            while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
-                int fluidType;
-                std::istringstream iss(line);
-                if (!(iss >> fluidType)) {
-                    throw std::runtime_error("Invalid fluid type data format");
-                }
-                fluidTypes.push_back(fluidType);
-            }
+            fluidTypes = readDataArray<int>(ifs, "Invalid fluid type data format");
         }
 
         // Extract densities
         // The name has to match exactly: "Number Density" and "Number Density Ratio" are different arrays.
         if (line.find("\"Density\"") != std::string::npos || line.find("'Density'") != std::string::npos) {
-            while (std::getline(ifs, line) && line.find("</DataArray>") == std::string::npos) {
-                double density;
-                std::istringstream iss(line);
-                if (!(iss >> density)) {
-                    throw std::runtime_error("Invalid density data format");
-                }
-                densities.push_back(density);
-            }
+            densities = readDataArray<double>(ifs, "Invalid density data format");
         }
 
         if (line.find("</VTKFile>") != std::string::npos) {
-- 
2.43.0


From efeed0f108094740dc5256a3b5945ded18e17d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:10 +0000
Subject: [PATCH 19/21] fix: convert prof files with tabs or without a line end
 after the last particle

---
 scripts/prof_to_csv.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/prof_to_csv.sh b/scripts/prof_to_csv.sh
index 173919e..0d48e4d 100755
--- a/scripts/prof_to_csv.sh
+++ b/scripts/prof_to_csv.sh
@@ -16,7 +16,7 @@ head -n2 "$input_file" > "$output_file"
 echo "type,x,y,z,vx,vy,vz" >> "$output_file"
 
 # Convert the rest of the input file to csv format (start from the third line)
-tail -n +3 "$input_file" | while IFS=" " read -r type x y z vx vy vz; do
+tail -n +3 "$input_file" | while IFS=$' \t\r' read -r type x y z vx vy vz || [[ -n "$type" ]]; do
     # Skip the line if the type is empty or not a number
     if [[ -z "$type" || ! "$type" =~ ^[0-9]+$ ]]; then
         continue
-- 
2.43.0


From 56e642b55c890c66b176ff5808d4c70c2a225998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:20 +0000
Subject: [PATCH 20/21] fix: refuse domains with more cells than can be
 numbered, or reversed ones, instead of crashing

---
 src/bucket.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/bucket.cpp b/src/bucket.cpp
index e0a912b..1fa4771 100644
--- a/src/bucket.cpp
+++ b/src/bucket.cpp
@@ -1,5 +1,9 @@
 #include "bucket.hpp"
 
+#include <cmath>
+#include <cstdlib>
+#include <limits>
+
 using std::cerr;
 using std::endl;
 
@@ -11,6 +15,14 @@ Bucket::Bucket(const double& reMax, const Domain& domain, const size_t& particle
     this->length = reMax;
     this->domain = domain;
 
+    // The cells are numbered by int.
+    double cells = (std::trunc(domain.xLength / length) + 3) * (std::trunc(domain.yLength / length) + 3) *
+                   (std::trunc(domain.zLength / length) + 3);
+    if (!(0 <= cells && cells <= std::numeric_limits<int>::max())) {
+        cerr << "The domain is too large for cells of size " << length << ", or reversed." << endl;
+        std::exit(-1);
+    }
+
     this->numX = (int) (domain.xLength / length) + 3;
     this->numY = (int) (domain.yLength / length) + 3;
     this->numZ = (int) (domain.zLength / length) + 3;
-- 
2.43.0


From e2808734017cbdbf755a5f2591f40205460ca1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:50:25 +0000
Subject: [PATCH 21/21] fix: refuse pressures that do not solve the pressure
 equation although the solver reports success

---
 src/pressure_calculator/pressure_poisson_equation.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pressure_calculator/pressure_poisson_equation.cpp b/src/pressure_calculator/pressure_poisson_equation.cpp
index 191cab3..8159d63 100644
--- a/src/pressure_calculator/pressure_poisson_equation.cpp
+++ b/src/pressure_calculator/pressure_poisson_equation.cpp
@@ -46,7 +46,12 @@ std::vector<double> PressurePoissonEquation::solve() {
     Eigen::BiCGSTAB<Eigen::SparseMatrix<double, Eigen::RowMajor>> solver;
     solver.compute(coefficientMatrix);
     Eigen::VectorXd pressure = solver.solve(sourceTerm);
-    if (solver.info() != Eigen::Success) {
+
+    // The solver judges its success by a residual that it updates in every iteration. When the matrix is (nearly)
+    // singular, that one can vanish although the equation is far from being solved, so the real residual is checked.
+    bool isSolved = solver.info() == Eigen::Success &&
+                    (coefficientMatrix * pressure - sourceTerm).norm() <= 1.0e-6 * sourceTerm.norm();
+    if (!isSolved) {
         cerr << "Pressure calculation failed." << endl;
         std::exit(-1);
     }
-- 
2.43.0

