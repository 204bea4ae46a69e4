From d9401490d9cac59ee207cbdcecf2062b04a1f6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 01/33] fix: create missing HDF5 groups

H5Gget_objinfo returns a negative value when the group does not exist;
stored in a bool it never compared equal to 0, so no group was ever created
and every run aborted when the first dataset was added.
---
 Source/IO/Output/HDF5Output.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index ef52608..63595a6 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -30,12 +30,13 @@ void HDF5Output::AddGroup(std::string groupName)
     if (m_group != NULL)
     {
         delete m_group;
+        m_group = NULL;
     }
-    bool status;
+    herr_t status;
     H5E_BEGIN_TRY {
         status = H5Gget_objinfo(m_file->getId(), groupName.c_str(), 0, NULL);
     } H5E_END_TRY
-    if (status == 0)
+    if (status < 0)
     {
         m_group = new H5::Group(m_file->createGroup(groupName.c_str()));
     }
-- 
2.43.0


From 2b80fc59b3b4cac2195d7fb75b48112b0834a04e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 02/33] fix: report output files that could not be written

HDF5 writes most of the file when it is closed; the H5File destructor
swallows that error, so a full disk gave a damaged file and exit status 0.
---
 Source/IO/Output/HDF5Output.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index 63595a6..973b54a 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -22,6 +22,20 @@ m_fileName(fileName), m_group(NULL)
 HDF5Output::~HDF5Output()
 {
     delete m_group;
+    // The H5File destructor swallows errors met when the cached data reaches
+    // the disk, so close explicitly and do not report success if that fails.
+    if (m_file != NULL)
+    {
+        try
+        {
+            m_file->close();
+        } catch (H5::Exception& error)
+        {
+            std::cerr << "Error: Failed to write output file \"" << m_fileName
+                      << "\"." << std::endl;
+            exit(1);
+        }
+    }
     delete m_file;
 }
 
-- 
2.43.0


From e429b5a9bf98eac48adaa1d52b8da5955983beac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:23:27 +0000
Subject: [PATCH 03/33] fix: data race on the source's particle counter

Threads of the event loop read and increased m_partCount unsynchronised, so
primaries were simulated twice or never, or the run died with "source
depleted".
---
 Source/Particles/SourceGenerator.cpp | 33 ++++++++++++++++------------
 1 file changed, 19 insertions(+), 14 deletions(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index fda3748..0aa0669 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -40,38 +40,44 @@ SourceGenerator::~SourceGenerator()
 
 ParticleList* SourceGenerator::GenerateList()
 {
-    if (m_partCount == m_nPart)
+    // Events are generated from several threads at once
+    unsigned int index;
+#ifdef USEOPENMP
+    #pragma omp atomic capture
+#endif
+    index = m_partCount++;
+    if (index >= m_nPart)
     {
         std::cerr << "Error: Particle source depleted." << std::endl;
         std::exit(1);
     }
-    ParticleList* list = new ParticleList(std::to_string(m_partCount));
+    ParticleList* list = new ParticleList(std::to_string(index));
 
-    ThreeVector partPosition = ThreeVector(m_xPos[m_partCount],
-                                           m_yPos[m_partCount],
-                                           m_zPos[m_partCount]);
+    ThreeVector partPosition = ThreeVector(m_xPos[index],
+                                           m_yPos[index],
+                                           m_zPos[index]);
     partPosition = m_rotaion * partPosition + m_position;
 
-    ThreeVector partDirection = ThreeVector(std::sin(m_thetaDir[m_partCount])
-                                          * std::cos(m_phiDir[m_partCount]),
-                                            std::sin(m_thetaDir[m_partCount])
-                                          * std::sin(m_phiDir[m_partCount]),
-                                            std::cos(m_thetaDir[m_partCount]));
+    ThreeVector partDirection = ThreeVector(std::sin(m_thetaDir[index])
+                                          * std::cos(m_phiDir[index]),
+                                            std::sin(m_thetaDir[index])
+                                          * std::sin(m_phiDir[index]),
+                                            std::cos(m_thetaDir[index]));
     partDirection = m_rotaion * partDirection;
 
     if (m_type == "Photon" || m_type == "photon")
     {
-        Photon* part = new Photon(m_energy[m_partCount], partPosition,
+        Photon* part = new Photon(m_energy[index], partPosition,
             partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else if (m_type == "Electron" || m_type == "electron")
     {
-        Lepton* part = new Lepton(1.0, -1.0, m_energy[m_partCount],
+        Lepton* part = new Lepton(1.0, -1.0, m_energy[index],
             partPosition, partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else if (m_type == "Positron" || m_type == "positron")
     {
-        Lepton* part = new Lepton(1.0, 1.0, m_energy[m_partCount],
+        Lepton* part = new Lepton(1.0, 1.0, m_energy[index],
             partPosition, partDirection, 1, 0, m_track);
         list->AddParticle(part);
     } else
@@ -80,7 +86,6 @@ ParticleList* SourceGenerator::GenerateList()
         std::cerr << "Exiting!\n";
         exit(-1);
     }
-    m_partCount++;
     return list;
 }
 
-- 
2.43.0


From 84a79bc241e786b77123f7f58c6ed483e1b0c801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:10 +0000
Subject: [PATCH 04/33] fix: histograms ignored the requested particle property

'm_type == "Energy" || "energy"' is always true, so every histogram was an
energy histogram whatever its type.
---
 Source/IO/Output/Histogram.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 572f49f..2b01204 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -44,7 +44,7 @@ void Histogram::AppParticle(Particle* part)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			m_entries++;
 			double energy = part->GetEnergy();
@@ -53,7 +53,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, energy);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			m_entries++;
 			double xPos = part->GetPosition()[0];
@@ -62,7 +62,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			m_entries++;
 			double yPos = part->GetPosition()[1];
@@ -71,7 +71,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			m_entries++;
 			double zPos =  part->GetPosition()[2];
@@ -80,7 +80,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PX" || "px")
+		} else if (m_type == "PX" || m_type == "px")
 		{
 			m_entries++;
 			double xPos = part->GetMomentum()[0];
@@ -89,7 +89,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PY" || "py")
+		} else if (m_type == "PY" || m_type == "py")
 		{
 			m_entries++;
 			double yPos = part->GetMomentum()[1];
@@ -98,7 +98,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PZ" || "pz")
+		} else if (m_type == "PZ" || m_type == "pz")
 		{
 			m_entries++;
 			double zPos =  part->GetMomentum()[2];
@@ -123,7 +123,7 @@ void Histogram::Fill(ParticleList* partList)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -136,7 +136,7 @@ void Histogram::Fill(ParticleList* partList)
 				}
 			}
 			
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -148,7 +148,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -160,7 +160,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
-- 
2.43.0


From 25ede8a877951084839e1c0f15550f7adc688efc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 05/33] fix: data race on histogram bins

Events are added to the shared histograms from several threads; unsynchronised
increments lost counts. The number of entries also started uninitialised.
---
 Source/IO/Output/Histogram.cpp | 43 ++++++++++++++++++++++++++++++++++
 1 file changed, 43 insertions(+)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 2b01204..f32a4a5 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -26,6 +26,7 @@ void Histogram::Initialise(std::string name, std::string particle , std::string
 	m_type = type;
 	m_time = time;
 	m_nBins = nBins;
+	m_entries = 0;
 	m_binCentres = new double [nBins];
 	m_binValues  = new double [m_nBins];
 	double detla = (maxBin - minBin) / (m_nBins - 1.0);
@@ -46,65 +47,107 @@ void Histogram::AppParticle(Particle* part)
 	{
 		if (m_type == "Energy" || m_type == "energy")
 		{
+#ifdef USEOPENMP
+			#pragma omp atomic
+#endif
 			m_entries++;
 			double energy = part->GetEnergy();
 			if (energy > m_binCentres[0] && energy < m_binCentres[m_nBins-1])
 			{
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, energy);
+#ifdef USEOPENMP
+				#pragma omp atomic
+#endif
 				m_binValues[index]++;
 			}
 		} else if (m_type == "X" || m_type == "x")
 		{
+#ifdef USEOPENMP
+			#pragma omp atomic
+#endif
 			m_entries++;
 			double xPos = part->GetPosition()[0];
 			if (xPos > m_binCentres[0] && xPos < m_binCentres[m_nBins-1])
 			{
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
+#ifdef USEOPENMP
+				#pragma omp atomic
+#endif
 				m_binValues[index]++;
 			}
 		} else if (m_type == "Y" || m_type == "y")
 		{
+#ifdef USEOPENMP
+			#pragma omp atomic
+#endif
 			m_entries++;
 			double yPos = part->GetPosition()[1];
 			if (yPos > m_binCentres[0] && yPos < m_binCentres[m_nBins-1])
 			{
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
+#ifdef USEOPENMP
+				#pragma omp atomic
+#endif
 				m_binValues[index]++;
 			}
 		} else if (m_type == "Z" || m_type == "z")
 		{
+#ifdef USEOPENMP
+			#pragma omp atomic
+#endif
 			m_entries++;
 			double zPos =  part->GetPosition()[2];
 			if (zPos > m_binCentres[0] && zPos < m_binCentres[m_nBins-1])
 			{
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
+#ifdef USEOPENMP
+				#pragma omp atomic
+#endif
 				m_binValues[index]++;
 			}
 		} else if (m_type == "PX" || m_type == "px")
 		{
+#ifdef USEOPENMP
+			#pragma omp atomic
+#endif
 			m_entries++;
 			double xPos = part->GetMomentum()[0];
 			if (xPos > m_binCentres[0] && xPos < m_binCentres[m_nBins-1])
 			{
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
+#ifdef USEOPENMP
+				#pragma omp atomic
+#endif
 				m_binValues[index]++;
 			}
 		} else if (m_type == "PY" || m_type == "py")
 		{
+#ifdef USEOPENMP
+			#pragma omp atomic
+#endif
 			m_entries++;
 			double yPos = part->GetMomentum()[1];
 			if (yPos > m_binCentres[0] && yPos < m_binCentres[m_nBins-1])
 			{
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
+#ifdef USEOPENMP
+				#pragma omp atomic
+#endif
 				m_binValues[index]++;
 			}
 		} else if (m_type == "PZ" || m_type == "pz")
 		{
+#ifdef USEOPENMP
+			#pragma omp atomic
+#endif
 			m_entries++;
 			double zPos =  part->GetMomentum()[2];
 			if (zPos > m_binCentres[0] && zPos < m_binCentres[m_nBins-1])
 			{
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
+#ifdef USEOPENMP
+				#pragma omp atomic
+#endif
 				m_binValues[index]++;
 			}		
 		} else
-- 
2.43.0


From e9a98ced292c5f766d225c349f27cc337a61c43c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 06/33] fix: data race on the track store

Threads of the event loop appended to the shared track vectors without
synchronisation.
---
 Source/IO/Output/OutputManager.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 4534b31..7394d17 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -315,6 +315,10 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
 
 void OutputManager::StoreTrack(ParticleList* partList, unsigned int eventID)
 {
+    // The track store is shared by all the threads of the event loop
+#ifdef USEOPENMP
+    #pragma omp critical (StoreTrack)
+#endif
     for (unsigned int i = 0; i < partList->GetNPart(); i++)
     {
 
-- 
2.43.0


From 2275fd9cb95d1f7c99e90ca480c65a2cd1c9cb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 07/33] fix: threads shared one random number generator

The Mersenne twister was used from all threads without synchronisation, which
repeats draws and can read past the end of its state.
---
 Source/Tools/MCTools.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Tools/MCTools.hh b/Source/Tools/MCTools.hh
index 5453eeb..aaa6a03 100644
--- a/Source/Tools/MCTools.hh
+++ b/Source/Tools/MCTools.hh
@@ -33,7 +33,7 @@ namespace MCTools
         const Eigen::VectorXd& covar, const Eigen::VectorXd& skew);
 #endif
 
-    static std::random_device rd;
-    static std::mt19937 generator(rd());
+    // One generator for each thread: they are not safe to share
+    static thread_local std::mt19937 generator(std::random_device{}());
 }
 #endif
\ No newline at end of file
-- 
2.43.0


From 1a9908528ba11916058c7f52a2237bbdd0a9330c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 08/33] fix: inverted photon sampling in StochasticEmission

A photon was kept with probability 1 - sample_fraction, so none was kept with
the default of 1, while kept ones were weighted by 1 / sample_fraction.
---
 Source/Physics/Processes/StochasticEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index f778378..82de4c9 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -41,7 +41,7 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
         ThreeVector gammaP = gammaE * part->GetDirection();
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
-        if (gammaE > m_eMin && m_sampleFrac < MCTools::RandDouble(0, 1))
+        if (gammaE > m_eMin && MCTools::RandDouble(0, 1) < m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
                 part->GetDirection(), part->GetWeight() / m_sampleFrac,
-- 
2.43.0


From 925a5798fc7dd5cf47da74b4635e2e0a5983fff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 09/33] fix: RunManager double free and leak between runs

A beamOn call that was refused (or failed) left dangling pointers which the
next call or the destructor deleted again, and the processes of earlier runs
were never deleted.
---
 Source/Python/RunManager.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 8be6b80..5863207 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -29,6 +29,7 @@ RunManager::~RunManager()
     delete m_field;
     delete m_generator;
     delete m_pusher;
+    for (Process* process : m_processList) delete process;
     m_processList.clear();
 }
 
@@ -132,6 +133,10 @@ void RunManager::beamOn(int events, int threads)
     delete m_pusher;
     delete m_generator;
     delete m_field;
+    m_pusher = nullptr;
+    m_generator = nullptr;
+    m_field = nullptr;
+    for (Process* process : m_processList) delete process;
     m_processList.clear();
 
     // Check for time / field properties
-- 
2.43.0


From e9e0f1c9289f5c5beb98282090330ca1646f368d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 10/33] fix: setPhysics refused "classical" and took "clasical"
 for Quantum

---
 Source/Python/RunManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 5863207..f3f7994 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -66,7 +66,7 @@ void RunManager::setField(const std::string& fieldType, double maxField,
 
 void RunManager::setPhysics(const std::string& physics)
 {
-    if (physics == "Classical" || physics == "clasical" ||
+    if (physics == "Classical" || physics == "classical" ||
         physics == "Semiclassical" || physics == "semiclassical" ||
         physics == "Quantum" || physics == "quantum")
     {
-- 
2.43.0


From d7402a55629387c8d3377ffa0bf6225dcbbe6250 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:11 +0000
Subject: [PATCH 11/33] fix: refuse an input file that cannot be read

A read error was taken for the end of the file and an unreadable file for an
empty one, so the run went on with part of its configuration.
---
 Source/IO/Input/INIReader.cpp | 5 +++++
 Source/IO/Input/ini.cpp       | 6 +++++-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index c2969d6..be752d1 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -31,6 +31,11 @@ INIReader::INIReader(const string& filename)
     }
 
     _error = ini_parse(filename.c_str(), ValueHandler, this);
+    if (_error < 0)
+    {
+        std::cerr << "Error: SFQED input could not be read." << std::endl;
+        exit(1);
+    }
 }
 
 int INIReader::ParseError() const
diff --git a/Source/IO/Input/ini.cpp b/Source/IO/Input/ini.cpp
index 82d02a2..d7b01bb 100644
--- a/Source/IO/Input/ini.cpp
+++ b/Source/IO/Input/ini.cpp
@@ -214,7 +214,11 @@ int ini_parse_stream(ini_reader reader, void* stream, ini_handler handler,
 /* See documentation in header file. */
 int ini_parse_file(FILE* file, ini_handler handler, void* user)
 {
-    return ini_parse_stream((ini_reader)fgets, file, handler, user);
+    int error = ini_parse_stream((ini_reader)fgets, file, handler, user);
+    /* fgets() also stops at a read error, which must not pass for the end */
+    if (ferror(file))
+        return -1;
+    return error;
 }
 
 /* See documentation in header file. */
-- 
2.43.0


From 3f527b14765a07a749bf26e258898ae09a0ba18e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 12/33] fix: refuse physics tables that cannot be read in full

The state of the streams was never looked at, so a truncated table or a read
error silently gave wrong rates and spectra.
---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 7 +++++++
 Source/Physics/Processes/PhotonEmission.cpp        | 7 +++++++
 2 files changed, 14 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 5301af9..1f765d0 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -141,6 +141,13 @@ void NonLinearBreitWheeler::LoadTables()
             fractFile >> m_eFract_dataTable[i][j];
         }
     }
+
+    if (!tFile || !fractFile || !epsilonFile || !chiFile)
+    {
+        std::cerr << "ERROR: Pair production data tables could not be read!"
+                  << std::endl;
+        exit(1);
+    }
 }
 
 void NonLinearBreitWheeler::UnloadTables()
diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index 6d6ee55..672e34f 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -138,6 +138,13 @@ void PhotonEmission::LoadTables()
 
         }
     }
+
+    if (!hFile || !phEnFile || !chiMinFile)
+    {
+        std::cerr << "ERROR: Photon emission data tables could not be read!"
+                  << std::endl;
+        exit(1);
+    }
 }
 
 void PhotonEmission::UnloadTables()
-- 
2.43.0


From dae18d350303a55fad5310db3155cf6c7bde1213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 13/33] fix: converted photons were still reported

A photon that has turned into a pair was listed in the final photons and the
histograms next to the pair, which counts its energy twice.
---
 Source/Exec/QEDCASC.cpp            | 6 ++++--
 Source/IO/Output/OutputManager.cpp | 2 ++
 Source/Python/RunManager.cpp       | 1 +
 3 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f05f9bc..89247cf 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -216,7 +216,8 @@ int main(int argc, char* argv[])
                     {
                         for (unsigned int k = 0; k < event->GetNPart(); k++)
                         {
-                            if (histograms[histCount]->GetParticle() == 
+                            if (event->GetParticle(k)->IsAlive() &&
+                                histograms[histCount]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
                                 histograms[histCount]->AppParticle(event->GetParticle(k));
@@ -241,7 +242,8 @@ int main(int argc, char* argv[])
             {
                 for (unsigned int l = 0; l < event->GetNPart(); l++)
                 {
-                    if (histograms[k]->GetParticle() == 
+                    if (event->GetParticle(l)->IsAlive() &&
+                        histograms[k]->GetParticle() == 
                         event->GetParticle(l)->GetName())
                     {
                         histograms[k]->AppParticle(event->GetParticle(l));
diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 7394d17..573d899 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -239,6 +239,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID]   = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron") m_electronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Positron") m_positronCount[eventID]++;
             if (partList->GetParticle(i)->GetName() == "Photon") m_photonCount[eventID]++;
@@ -251,6 +252,7 @@ void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bo
         m_photonCount[eventID] = 0;
         for (unsigned int i = 0; i < partList->GetNPart(); i++)
         {
+            if (partList->GetParticle(i)->IsAlive() == false) continue;
             if (partList->GetParticle(i)->GetName() == "Electron")
             {
                 electronData[m_electronCount[eventID]*8]   = eventID;
diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index f3f7994..358fa39 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -247,6 +247,7 @@ void RunManager::beamOn(int events, int threads)
         // Store final particle properties
         for (long unsigned int j = 0; j < event->GetNPart(); ++j)
         {
+            if (event->GetParticle(j)->IsAlive() == false) continue;
             if (event->GetParticle(j)->GetCharge() == -1)
             {
                 m_electron_P_X[tid].push_back(event->GetParticle(j)->GetMomentum()[0] 
-- 
2.43.0


From 265cfba60c9a89cd837398e33f1e5e064d81e309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:00 +0000
Subject: [PATCH 14/33] fix: runs with several sources aborted on output

Particles and tracks were written after every source to the same data sets, so
the second source with output (or tracking) aborted the run. Write them once,
after all the sources, numbering the events through.
---
 Source/Exec/QEDCASC.cpp            | 20 ++++++++++++++------
 Source/IO/Output/OutputManager.cpp | 15 ++++++++-------
 2 files changed, 22 insertions(+), 13 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 89247cf..4d90672 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -187,10 +187,16 @@ int main(int argc, char* argv[])
     double startTime = omp_get_wtime();
 #endif
     // enter main loop
+    bool outSource(false);
+    unsigned int firstEvent(0);
     for (unsigned int i = 0; i < generators.size(); i++) // Loop sources
     {
         // set up the full event store
-        if (inParticles[i].Output == true) out->InitSource(generators[i]->GetSourceNumber());
+        if (inParticles[i].Output == true)
+        {
+            out->InitSource(firstEvent + generators[i]->GetSourceNumber());
+            outSource = true;
+        }
 
 #ifdef USEOPENMP
         int threadEvents = generators[i]->GetSourceNumber();
@@ -202,7 +208,7 @@ int main(int argc, char* argv[])
             ParticleList* event = generators[i]->GenerateList();
 
             // Store full event info
-            if (inParticles[i].Output == true) out->StoreSource(event, j, true);
+            if (inParticles[i].Output == true) out->StoreSource(event, firstEvent + j, true);
 
             unsigned int histCount(0);
             double time(0);
@@ -252,7 +258,7 @@ int main(int argc, char* argv[])
             }
 
             // Store source data and tracking
-            if (inParticles[i].Output == true) out->StoreSource(event, j, false);
+            if (inParticles[i].Output == true) out->StoreSource(event, firstEvent + j, false);
             if (inGeneral.tracking == true) out->StoreTrack(event, j);
 
             // Free up the sapce
@@ -269,12 +275,14 @@ int main(int argc, char* argv[])
             }
 #endif
         }
+        if (inParticles[i].Output == true) firstEvent += generators[i]->GetSourceNumber();
+    }
+    // The events of all the sources go to the same data sets
 #ifdef USEMPI
-        out->OutputEventsMPI(inParticles[i].Output, inGeneral.tracking);
+    out->OutputEventsMPI(outSource, inGeneral.tracking);
 #else
-        out->OutputEvents(inParticles[i].Output, inGeneral.tracking);
+    out->OutputEvents(outSource, inGeneral.tracking);
 #endif
-    }
 
 #ifdef USEOPENMP
     std::cout << "Simulation complete in time: "; 
diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 573d899..7d6cea9 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -209,13 +209,14 @@ void OutputManager::ListProperties(ParticleList* partList, std::string setName)
 
 void OutputManager::InitSource(unsigned int nEvents)
 {
-    m_primaryEvent  = std::vector<double*>(nEvents);
-    m_electronEvent = std::vector<double*>(nEvents);
-    m_positronEvent = std::vector<double*>(nEvents);
-    m_photonEvent   = std::vector<double*>(nEvents);
-    m_electronCount = std::vector<unsigned int>(nEvents);
-    m_positronCount = std::vector<unsigned int>(nEvents);
-    m_photonCount   = std::vector<unsigned int>(nEvents);
+    // Keep the events of the sources before this one
+    m_primaryEvent.resize(nEvents);
+    m_electronEvent.resize(nEvents);
+    m_positronEvent.resize(nEvents);
+    m_photonEvent.resize(nEvents);
+    m_electronCount.resize(nEvents);
+    m_positronCount.resize(nEvents);
+    m_photonCount.resize(nEvents);
 }
 
 void OutputManager::StoreSource(ParticleList* partList, unsigned int eventID, bool primary)
-- 
2.43.0


From 8eebb528c3983e77f46fbccf2b024c11e1a2d508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:27 +0000
Subject: [PATCH 15/33] fix: leptons made by pair production were not tracked

---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index 4d90672..e419835 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -144,7 +144,7 @@ int main(int argc, char* argv[])
     if (inPhysics.PairProduction == true)
     {
         NonLinearBreitWheeler* breitWheeler = new NonLinearBreitWheeler(field, 
-            inGeneral.timeStep, false);
+            inGeneral.timeStep, inGeneral.tracking);
         processList.push_back(breitWheeler);
     }
 
-- 
2.43.0


From b9df52628d33ea60ebcf6c620eab8b05cfdf8e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 16/33] fix: fill every histogram at its own time, whatever the
 order in the input

---
 Source/Exec/QEDCASC.cpp | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index e419835..85a8539 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -210,26 +210,26 @@ int main(int argc, char* argv[])
             // Store full event info
             if (inParticles[i].Output == true) out->StoreSource(event, firstEvent + j, true);
 
-            unsigned int histCount(0);
+            // Histograms can be listed in any order and share a time
+            std::vector<bool> histFilled(histograms.size(), false);
             double time(0);
             while(time < inGeneral.timeEnd) // loop time
             {
                 // Check if time for histogram
-                if (histCount < histograms.size())
+                for (unsigned int l = 0; l < histograms.size(); l++)
                 {
-                 //   std::cout << histCount << " " << histograms[histCount]->GetTime() << std::endl;
-                    if(time >= histograms[histCount]->GetTime())
+                    if(!histFilled[l] && time >= histograms[l]->GetTime())
                     {
                         for (unsigned int k = 0; k < event->GetNPart(); k++)
                         {
                             if (event->GetParticle(k)->IsAlive() &&
-                                histograms[histCount]->GetParticle() == 
+                                histograms[l]->GetParticle() == 
                                 event->GetParticle(k)->GetName())
                             {
-                                histograms[histCount]->AppParticle(event->GetParticle(k));
+                                histograms[l]->AppParticle(event->GetParticle(k));
                             }
                         }
-                        histCount++;
+                        histFilled[l] = true;
                     }
                 }
                 // Push particles and interact
@@ -244,8 +244,9 @@ int main(int argc, char* argv[])
                 time += inGeneral.timeStep;
             }
             // fill any non filled histograms
-            for (unsigned int k = histCount; k < histograms.size(); k++)
+            for (unsigned int k = 0; k < histograms.size(); k++)
             {
+                if (histFilled[k]) continue;
                 for (unsigned int l = 0; l < event->GetNPart(); l++)
                 {
                     if (event->GetParticle(l)->IsAlive() &&
-- 
2.43.0


From 28d473ab1f9b7647586394e93d2641d3c682b619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:28 +0000
Subject: [PATCH 17/33] fix: a particle that a full list refuses was never
 freed

---
 Source/Particles/ParticleList.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Particles/ParticleList.cpp b/Source/Particles/ParticleList.cpp
index e0c3238..d5384b6 100644
--- a/Source/Particles/ParticleList.cpp
+++ b/Source/Particles/ParticleList.cpp
@@ -29,5 +29,6 @@ void ParticleList::AddParticle(Particle *part)
 	{
 		std::cerr << "Error: Particle list too small!\n";
 		std::cerr << "New particles will be forgotten\n";
+		delete part;
 	}
 }
\ No newline at end of file
-- 
2.43.0


From 4bccebb508e64c9d5ca70d433342f239b2c44a16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:53 +0000
Subject: [PATCH 18/33] fix: an error while a data set is closed was ignored

The destructor of H5::DataSet swallows the error met when buffered values are
written, so a run could report success for a file with missing values.
---
 Source/IO/Output/HDF5Output.cpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index 973b54a..2e3a750 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -70,6 +70,9 @@ void HDF5Output::AddArray1D(double* data, hsize_t length, std::string dataName)
     H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(), 
         H5::PredType::NATIVE_DOUBLE, H5::DataSpace(1, &length)));
     set->write(data, H5::PredType::NATIVE_DOUBLE);
+    // Buffered data may reach the disk only now, and the destructor does not
+    // report errors.
+    set->close();
     delete set;
 }
 
@@ -80,6 +83,9 @@ void HDF5Output::AddArray2D(double* data, hsize_t xLength, hsize_t yLength,
     H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(),
         H5::PredType::NATIVE_DOUBLE, H5::DataSpace(2, dimensions)));
     set->write(data, H5::PredType::NATIVE_DOUBLE);
+    // Buffered data may reach the disk only now, and the destructor does not
+    // report errors.
+    set->close();
     delete set;
 }
 
@@ -91,5 +97,8 @@ void HDF5Output::AddArray3D(double* data, hsize_t xLength, hsize_t yLength,
     H5::DataSet* set = new H5::DataSet(m_file->createDataSet(dataName.c_str(),
         H5::PredType::NATIVE_DOUBLE, H5::DataSpace(3, dimensions)));
     set->write(data, H5::PredType::NATIVE_DOUBLE);
+    // Buffered data may reach the disk only now, and the destructor does not
+    // report errors.
+    set->close();
     delete set;
 }
\ No newline at end of file
-- 
2.43.0


From 22477dbd4390da8ae1a28058fe0dcdd0a13f47f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:28 +0000
Subject: [PATCH 19/33] fix: a failed allocation cut vectors of the input short

Stream extraction turns bad_alloc into the bad bit, so the remaining
components were silently zero.
---
 Source/IO/Input/INIReader.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index be752d1..517760f 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -123,6 +123,12 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
         vector[i] = value;
         i++;
     }
+    // A stream reports a failed memory allocation as bad, not as an exception
+    if (stream.bad())
+    {
+        std::cerr << "ERROR: ThreeVector could not be read.\n";
+        exit(1);
+    }
     return vector;
 }
 
-- 
2.43.0


From 1945d400bbb42cd809a0c62c81cbc103f0f697d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:37 +0000
Subject: [PATCH 20/33] fix: beamOn ended the interpreter for an unknown
 particle type

setGenerator now refuses the type, as setField and setPhysics do.
---
 Source/Python/RunManager.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 358fa39..5249620 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -86,8 +86,18 @@ void RunManager::setGenerator(const std::string& particleType,
     double radius, double duration, double divergence, 
     const ThreeVector& position, const ThreeVector& direction)
 {
-    m_genSet = true;
-    m_particleType = particleType;
+    if (particleType == "Electron" || particleType == "electron" ||
+        particleType == "Positron" || particleType == "positron" ||
+        particleType == "Photon" || particleType == "photon")
+    {
+        m_genSet = true;
+        m_particleType = particleType;
+    } else
+    {
+        m_genSet = false;
+        std::cerr << "Error: Unknown particle type." << std::endl;
+        return;
+    }
     m_energyDist = energyDist;
     m_energyParam1 = energyParam1 / m_units->RefEnergy(); 
     m_energyParam2 = energyParam2 / m_units->RefEnergy();
-- 
2.43.0


From dcb9df509e2c7d4c0f8dc57a06b66e324d518ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:35 +0000
Subject: [PATCH 21/33] fix: a failed allocation in beamOn left results of two
 simulations

---
 Source/Python/RunManager.cpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 5249620..ad0d587 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -203,10 +203,15 @@ void RunManager::beamOn(int events, int threads)
         m_energyParam1, m_energyParam2, m_radius, m_particleDuration, 
         m_divergence, m_position, m_direction);
 
-    m_input_P_X = std::vector<std::vector<double>>(threads);
-    m_electron_P_X = std::vector<std::vector<double>>(threads);
-    m_positron_P_X = std::vector<std::vector<double>>(threads);
-    m_photon_P_X = std::vector<std::vector<double>>(threads);
+    // Replace all the old results or, if there is no memory, none of them
+    std::vector<std::vector<double>> input_P_X(threads);
+    std::vector<std::vector<double>> electron_P_X(threads);
+    std::vector<std::vector<double>> positron_P_X(threads);
+    std::vector<std::vector<double>> photon_P_X(threads);
+    m_input_P_X.swap(input_P_X);
+    m_electron_P_X.swap(electron_P_X);
+    m_positron_P_X.swap(positron_P_X);
+    m_photon_P_X.swap(photon_P_X);
 
     long unsigned int nEvents = m_generator->GetSourceNumber();
     
-- 
2.43.0


From 65bf9a0dd0ed6570b9a9bdae3fdf5343b6471754 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:35:59 +0000
Subject: [PATCH 22/33] fix: beamOn without threads ended the interpreter

---
 Source/Python/RunManager.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index ad0d587..29c7df9 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -128,6 +128,13 @@ void RunManager::usePairProduction(bool useBW)
 
 void RunManager::beamOn(int events, int threads)
 {
+    if (events < 0 || threads < 1)
+    {
+        std::cerr << "Error: beamOn() needs a number of events that is not "
+                     "negative and at least one thread."
+                  << std::endl;
+        return;
+    }
 
     // If threads set then check for openMP install
 #ifndef USEOPENMP
-- 
2.43.0


From 1a70b20dd629720c5cfc82254dbed3f6569c6ac9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:32 +0000
Subject: [PATCH 23/33] fix: sources sent their particles along a reflected
 direction

---
 Source/Particles/SourceGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index 0aa0669..3db41fe 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -31,7 +31,7 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
     }
     
-    m_rotaion = m_direction.RotateToAxis(ThreeVector(0, 0, 1));
+    m_rotaion = ThreeVector(0, 0, 1).RotateToAxis(m_direction);
 }
 
 SourceGenerator::~SourceGenerator()
-- 
2.43.0


From 69cc4ff77e7a652146f65d8c0fd2c515dd67466a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 24/33] fix: a photon that turns its lepton round left in the
 wrong direction

---
 Source/Physics/Processes/StochasticEmission.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index 82de4c9..db0bf9a 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -38,13 +38,15 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
     {
         double chi = CalculateChi(eta);
         double gammaE = 2.0 * chi * part->GetGamma() / eta;
-        ThreeVector gammaP = gammaE * part->GetDirection();
+        // The photon leaves along the direction the lepton had before the recoil
+        ThreeVector direction = part->GetDirection();
+        ThreeVector gammaP = gammaE * direction;
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
         if (gammaE > m_eMin && MCTools::RandDouble(0, 1) < m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
-                part->GetDirection(), part->GetWeight() / m_sampleFrac,
+                direction, part->GetWeight() / m_sampleFrac,
                 part->GetTime(), m_track);
             partList->AddParticle(photon);
         }
-- 
2.43.0


From cacdc19d0744aac8bc104100dcb826832b1d7471 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 25/33] fix: pairs of little energy had momenta that are no
 numbers

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 1f765d0..9126cd0 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -20,6 +20,8 @@ NonLinearBreitWheeler::~NonLinearBreitWheeler()
 void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) const
 {
     if (part->GetType() != "Photon" || part->IsAlive() == false) return;
+    // Not enough energy for the rest masses of the pair
+    if (part->GetEnergy() <= 2.0) return;
 
     double chi = CalculateChi(part);
     double logt = Numerics::Interpolate1D(m_t_chiAxis, m_t_dataTable,
@@ -32,8 +34,9 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetOpticalDepth() < 0.0)
     {
         double split = CalculateSplit(chi);
-        double pEnergy = split * part->GetEnergy();
-        double eEnergy = (1.0 - split) * part->GetEnergy();
+        // The rest masses come first, what remains is shared
+        double pEnergy = 1.0 + split * (part->GetEnergy() - 2.0);
+        double eEnergy = 1.0 + (1.0 - split) * (part->GetEnergy() - 2.0);
         ThreeVector pMomentum =  std::sqrt(pEnergy * pEnergy - 1.0) * part->GetDirection();
         ThreeVector eMomentum =  std::sqrt(eEnergy * eEnergy - 1.0) * part->GetDirection();
         Lepton* positron = new Lepton(1.0, 1.0, part->GetPosition(), pMomentum,
-- 
2.43.0


From afef0832a094d997a054dfa4fe1753705d130410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:53 +0000
Subject: [PATCH 26/33] fix: pairs of strong fields had more energy than their
 photon

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 9126cd0..9e67c46 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -1,3 +1,4 @@
+#include <algorithm>
 #include <fstream>
 
 #include "NonLinearBreitWheeler.hh"
@@ -60,7 +61,9 @@ double NonLinearBreitWheeler::CalculateSplit(double chi) const
         m_eFract_fractAxis, m_efract_length, rand);
     double highValue = Numerics::Interpolate1D(m_eFract_dataTable[lowIndex+1],
         m_eFract_fractAxis, m_efract_length, rand);
-    return (1.0 - frac) * lowValue + frac * highValue;
+    // Below the first sample the extrapolation can go below zero
+    return std::max((1.0 - frac) * lowValue + frac * highValue,
+        m_eFract_fractAxis[0] * rand);
 }
 
 double NonLinearBreitWheeler::CalculateChi(Particle* part) const
-- 
2.43.0


From e47cd0a9c085732dc3a30ca7099c7bc1c97d1b55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:44 +0000
Subject: [PATCH 27/33] fix: a photon that had met no field never converted

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 9e67c46..683ee6c 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -25,6 +25,9 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetEnergy() <= 2.0) return;
 
     double chi = CalculateChi(part);
+    // There is no rate, nor a logarithm, where the field vanishes
+    if (chi <= 0.0) return;
+
     double logt = Numerics::Interpolate1D(m_t_chiAxis, m_t_dataTable,
         m_t_length, std::log10(chi));
     double deltaOD = m_dt * UnitsSystem::alpha * chi * std::pow(10.0, logt)
-- 
2.43.0


From ff397cda8dc933cec60fde3aa864abeb691a3823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:58 +0000
Subject: [PATCH 28/33] fix: photons of the classical model carried too little
 energy

---
 Source/Physics/Processes/ContinuousEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/ContinuousEmission.cpp b/Source/Physics/Processes/ContinuousEmission.cpp
index 3c5f54d..482cb48 100644
--- a/Source/Physics/Processes/ContinuousEmission.cpp
+++ b/Source/Physics/Processes/ContinuousEmission.cpp
@@ -33,7 +33,7 @@ void ContinuousEmission::Interact(Particle *part, ParticleList *partList) const
     if (eta < 1.0e-12 || m_classical)
     {
         logh = 0.7193;
-        double chiMin = std::exp(m_h_etaAxis[0]);
+        double chiMin = std::pow(10.0, m_h_etaAxis[0]);
         // Extrapolate table for classical (stolen from Chris Arran).
         chi = CalculateChi(chiMin) * (eta / chiMin)  * (eta / chiMin);
     } else
-- 
2.43.0


From 51d3eef9edff53a87e4c61fc9973c7f7d773808b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 29/33] fix: a source without a direction had particles with no
 direction

INIReader::GetThreeVector() ignored its default value: a left-out vector
was zero. The default direction of a source and of a plane wave, [0 0 1],
became [0 0 0], and the momenta were no numbers.
---
 Source/IO/Input/INIReader.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index 517760f..2677a24 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -106,6 +106,10 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
     };
 
     string valstr = Get(section, name, "");
+    if (valstr.empty())
+    {
+        return default_value;
+    }
     NotNumber nn;
     std::string::iterator end = std::remove_if(valstr.begin(), valstr.end(), nn);
     std::string allNumbers(valstr.begin(), end);
-- 
2.43.0


From 69765b7ff785f05bb3dab356afbd5f00e3192197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 30/33] fix: vectors with numbers like 1E6 were read as 16

---
 Source/IO/Input/INIReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index 2677a24..d983a7a 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -95,7 +95,7 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
     {
         bool operator()(const char c) 
         {
-            if (c == '.' || c == '-' || c == ' ' || c == 'e' || std::isdigit(c))
+            if (c == '.' || c == '-' || c == ' ' || c == 'e' || c == 'E' || std::isdigit(c))
             {
                 return false;
             } else
-- 
2.43.0


From f4ca33765922778cfde3f2ac113eab7dd20e31af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:40 +0000
Subject: [PATCH 31/33] fix: sources without an energy distribution were not
 mono-energetic

The input file's default distribution, mono, was unknown to the source,
which then took energies between energy_mean and energy_sig = 0.
---
 Source/Particles/SourceGenerator.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index 3db41fe..35f4c46 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -23,6 +23,9 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
     if (distro == "gaussian" || distro == "Gaussian")
     {
         m_energy = MCTools::SampleNorm(energy1, energy2, nPart);
+    } else if(distro == "mono" || distro == "Mono")
+    {
+        m_energy = std::vector<double>(nPart, energy1);
     } else if(distro == "linear" || distro == "Linear")
     {
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
-- 
2.43.0


From a1446531a30fad69cdefcd0e957df484f23ee8dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 32/33] fix: refuse a time step that is not greater than zero,
 with which a run never ends

---
 Source/IO/Input/FileParser.cpp | 6 ++++++
 Source/Python/RunManager.cpp   | 2 +-
 2 files changed, 7 insertions(+), 1 deletion(-)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index c4ce767..8c9f324 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -68,6 +68,12 @@ void FileParser::ReadGeneral()
     m_general.timeEnd = m_reader->GetReal("General", "time_end", 0) / m_units->RefTime();
     m_general.fileName = m_reader->GetString("General", "file_name", "out.h5");
     m_general.tracking = m_reader->GetBoolean("General", "tracking", false);
+    if (!(m_general.timeStep > 0))
+    {
+        std::cerr << "Input error: \"time_step\" must be a number greater than zero\n";
+        std::cerr << "Exiting!\n";
+        exit(1);
+    }
 
     if (m_checkOutput == true)
     {
diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 29c7df9..c595175 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -157,7 +157,7 @@ void RunManager::beamOn(int events, int threads)
     m_processList.clear();
 
     // Check for time / field properties
-    if (m_timeStep == 0 || !m_fieldSet || !m_physSet || !m_genSet)
+    if (!(m_timeStep > 0) || !m_fieldSet || !m_physSet || !m_genSet)
     {
         std::cerr << "Error in beamOn(): RunManager.setTime(...), "
                       "RunManager.setGenerator(...) and RunManager.setField(...) "
-- 
2.43.0


From 576dca9600b161dd4f9b8f216f5585afb78dc60b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:39:05 +0000
Subject: [PATCH 33/33] fix: refuse a sampling fraction outside 0 to 1 in the
 input file, as the Python interface does

---
 Source/IO/Input/FileParser.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/Source/IO/Input/FileParser.cpp b/Source/IO/Input/FileParser.cpp
index 8c9f324..522200b 100644
--- a/Source/IO/Input/FileParser.cpp
+++ b/Source/IO/Input/FileParser.cpp
@@ -192,6 +192,12 @@ void FileParser::ReadPhysics()
     m_physics.MinEnergy = m_reader->GetReal("Physics", "min_energy", 0) / m_units->RefEnergy();
     m_physics.SampleFraction = m_reader->GetReal("Physics", "sample_fraction", 1);
     m_physics.PairProduction = m_reader->GetBoolean("Physics", "pair_production", false);
+    if (!(m_physics.SampleFraction >= 0 && m_physics.SampleFraction <= 1))
+    {
+        std::cerr << "Input error: \"sample_fraction\" must be between 0 and 1\n";
+        std::cerr << "Exiting!\n";
+        exit(1);
+    }
 
     if (m_checkOutput == true)
     {
-- 
2.43.0

