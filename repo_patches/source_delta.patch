From 627bb8c0e1d13f9d2d3593598985a41ab0207a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 01/38] fix: ThreeVector::Direction returns a unit vector

---
 Source/Tools/ThreeVector.hh | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index 0647c27..fd5a6d1 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -88,8 +88,7 @@ public:
 		dir[0] = point[0] - m_data[0];
 		dir[1] = point[1] - m_data[1];
 		dir[2] = point[2] - m_data[2];
-		dir.Norm();
-		return dir;
+		return dir.Norm();
 	}
 
 	// Returns the matrix required to rotate the vecotor onto the second
-- 
2.43.0


From 72cdacf9751fb7e4fb6d3bf0a1d9fd313152809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 02/38] fix: RotateToAxis turns antiparallel vectors onto any
 axis

---
 Source/Tools/ThreeVector.hh | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/Source/Tools/ThreeVector.hh b/Source/Tools/ThreeVector.hh
index fd5a6d1..38f0c8b 100644
--- a/Source/Tools/ThreeVector.hh
+++ b/Source/Tools/ThreeVector.hh
@@ -98,9 +98,17 @@ public:
 		// Fist we need to check if the vectors are ainti parallel as this method fails
 		if ((this->Norm() + axis.Norm()).Mag2() <= 1e-10)
 		{
-			rotation[0][0] = -1.0;
-			rotation[1][1] =  1.0;
-			rotation[2][2] = -1.0;
+			// Turn by half a revolution about a direction perpendicular to the axis
+			ThreeVector perp = axis.Cross(ThreeVector(1, 0, 0));
+			if (perp.Mag2() <= 1e-10 * axis.Mag2()) perp = axis.Cross(ThreeVector(0, 1, 0));
+			perp = perp.Norm();
+			for (unsigned int i = 0; i < 3; i++)
+			{
+				for (unsigned int j = 0; j < 3; j++)
+				{
+					rotation[i][j] = 2.0 * perp[i] * perp[j] - (i == j ? 1.0 : 0.0);
+				}
+			}
 		} else
 		{
 			ThreeVector norm1 = this->Norm();
-- 
2.43.0


From 435b8f4add2dca370a9e39ee3bc624d72aa57e24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 03/38] fix: Interpolate1D uses the last interval for a query
 at the last sample

---
 Source/Tools/Numerics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 444fac7..4957c00 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -41,7 +41,7 @@ double Numerics::Interpolate1D(double* samplePoints, double* sampleData, unsigne
 		               				  / (samplePoints[end] - samplePoints[end-1]));
 	} else
 	{
-		int lIndex(0), hIndex(1);
+		int lIndex(sampleSize - 2), hIndex(sampleSize - 1);
 		for (unsigned int i = 0; i < sampleSize; i++)
 		{
 			if (queryPoint < samplePoints[i])
-- 
2.43.0


From 4687fdd19b21f0ee29a72f8159946a107620cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 04/38] fix: SetSeed seeds the generator the samplers draw from

---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index e195e70..f648017 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -4,7 +4,7 @@
 
 void MCTools::SetSeed(int seed)
 {
-    std::srand(seed);
+    generator.seed(seed);
 }
 
 double MCTools::RandDouble(double low, double high)
-- 
2.43.0


From 6b9e93d0b931906e3ac52726963572e47d1b747d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 05/38] fix: RandDiscrete can return the first index

---
 Source/Tools/MCTools.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/MCTools.cpp b/Source/Tools/MCTools.cpp
index f648017..019b8ad 100644
--- a/Source/Tools/MCTools.cpp
+++ b/Source/Tools/MCTools.cpp
@@ -37,7 +37,7 @@ unsigned int MCTools::RandDiscrete(const std::vector<double>& distro)
     }
     double rand = RandDouble(0.0, *(cdf.end() - 1));
     unsigned int sample(0);
-    for (unsigned int i = 1; i < distro.size(); i++)
+    for (unsigned int i = 0; i < distro.size(); i++)
     {
         if (rand < cdf[i])
         {
-- 
2.43.0


From 9db5dddff624dc7e5d863dbe12adbc14eeb9b771 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 06/38] fix: plane wave magnetic field is perpendicular to the
 electric field

---
 Source/Physics/Fields/EMField/PlaneEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/PlaneEMField.cpp b/Source/Physics/Fields/EMField/PlaneEMField.cpp
index fd088b9..6a68d58 100644
--- a/Source/Physics/Fields/EMField/PlaneEMField.cpp
+++ b/Source/Physics/Fields/EMField/PlaneEMField.cpp
@@ -29,7 +29,7 @@ void PlaneEMField::GetField(double time, const ThreeVector &position,
     eField[2] = 0;
     eField = m_rotationInv * eField;
 
-    bField[0] = E0 * std::sin(m_polAngle);
+    bField[0] = -1.0 * E0 * std::sin(m_polAngle);
     bField[1] = E0 * std::cos(m_polAngle);
     bField[2] = 0;
     bField = m_rotationInv * bField;
-- 
2.43.0


From 2ba205b36c1d1016a9d43a516e42ae41f367b675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 07/38] fix: Gaussian pulse magnetic field is perpendicular to
 the electric field

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 76c638b..c95dff8 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -47,7 +47,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 	eField[2] = 0;
 	eField = m_rotationInv * eField;
 
-	bField[0] = E0 * std::sin(m_polAngle);
+	bField[0] = -1.0 * E0 * std::sin(m_polAngle);
 	bField[1] = E0 * std::cos(m_polAngle);
 	bField[2] = 0;
 	bField = m_rotationInv * bField;
-- 
2.43.0


From 46e0edd282f26884b81bc040da8b7247c2c15763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 08/38] fix: Gaussian pulse is focused at the configured focus

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index c95dff8..37f5943 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -27,7 +27,7 @@ GaussianEMField::~GaussianEMField()
 void GaussianEMField::GetField(double time, const ThreeVector &position,
 						  ThreeVector &eField, ThreeVector &bField) const
 {
-	ThreeVector position_p = m_rotaion * position;
+	ThreeVector position_p = m_rotaion * (position - m_focusPos);
 	double t0 		 = (m_startPos - m_focusPos).Mag();
 	double r2 		 = position_p[0] * position_p[0] + position_p[1] * position_p[1];
 	double rayleigh  = m_waveNum * m_waist * m_waist / 2.0;
-- 
2.43.0


From 4c186d2bb020956674293bb7e4bf2a80021d48fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 09/38] fix: Gaussian pulse carrier propagates in time

---
 Source/Physics/Fields/EMField/GaussianEMField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/GaussianEMField.cpp b/Source/Physics/Fields/EMField/GaussianEMField.cpp
index 37f5943..67d5060 100644
--- a/Source/Physics/Fields/EMField/GaussianEMField.cpp
+++ b/Source/Physics/Fields/EMField/GaussianEMField.cpp
@@ -38,7 +38,7 @@ void GaussianEMField::GetField(double time, const ThreeVector &position,
 										   / (rayleigh * rayleigh));
 	double E0 = m_maxE * (m_waist / beamWaist) 
 				* std::exp(-1.0 * r2 / (beamWaist * beamWaist))
-				* std::cos(position_p[2] * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
+				* std::cos((position_p[2] - time) * m_waveNum + r2 * m_waveNum / (2.0 * curvature)) 
 				* std::exp(-1.0 * (time - t0 - position_p[2]) 
 							* (time - t0 - position_p[2]) / (m_tau * m_tau));
 	
-- 
2.43.0


From 0628d2543e24ec9fd3a585f17254df2367d37ce1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 10/38] fix: focusing pulse is focused at the configured focus

---
 Source/Physics/Fields/EMField/FocusingField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index c10d862..33e5cec 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -26,7 +26,7 @@ FocusingField::~FocusingField()
 void FocusingField::GetField(double time, const ThreeVector &position,
     ThreeVector &eField, ThreeVector &bField) const
 {
-    ThreeVector position_p = m_rotaion * position;
+    ThreeVector position_p = m_rotaion * (position - m_focusPos);
     double xe = position_p[0] / m_waist;
     double ye = position_p[1] / m_waist;
     double ze = position_p[2] / m_rayleigh;
-- 
2.43.0


From 57d7289b14e2fb6864cc81080e39dee15d1d1535 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 11/38] fix: focusing pulse carrier propagates in time

---
 Source/Physics/Fields/EMField/FocusingField.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 33e5cec..0391b8a 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -35,7 +35,7 @@ void FocusingField::GetField(double time, const ThreeVector &position,
     double curvature = position_p[2] + m_rayleigh * m_rayleigh
         / (position_p[2] + 1e-99);
     double phi_G = std::atan(ze);
-    double phi = m_waveNum * (position_p[2] - r2 / (2.0 * curvature));
+    double phi = m_waveNum * (time - position_p[2] - r2 / (2.0 * curvature));
     double w = m_waist * std::sqrt(1 + ze * ze);
     double E_0 = m_maxE * std::exp(- r2 / (w * w) - (time - m_t0 - position_p[2])
             * (time - m_t0 - position_p[2]) / (m_tau * m_tau));
-- 
2.43.0


From a9e4ddab54cc338bd0ea02f1c20308aff38a10ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 12/38] fix: focusing pulse polarisation is a rigid rotation

---
 Source/Physics/Fields/EMField/FocusingField.cpp | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/Source/Physics/Fields/EMField/FocusingField.cpp b/Source/Physics/Fields/EMField/FocusingField.cpp
index 0391b8a..3dd1566 100644
--- a/Source/Physics/Fields/EMField/FocusingField.cpp
+++ b/Source/Physics/Fields/EMField/FocusingField.cpp
@@ -76,14 +76,16 @@ void FocusingField::GetField(double time, const ThreeVector &position,
         * S[5] / 4.0 + rho2 * rho2 *rho2 * rho2 * S[6] / 32.0));
     bField[2] = E_0 * ye * (m_eps * C[1] + m_eps * m_eps * m_eps * (C[2] / 2.0
         + rho2 * C[3] / 2.0 - rho2 * rho2 * C[4] / 4.0));
-    eField[0] = eField[0] * std::cos(m_polAngle)
+    double eX = eField[0];
+    eField[0] = eX * std::cos(m_polAngle)
         - eField[1] * std::sin(m_polAngle) ;
-    eField[1] = eField[0] * std::sin(m_polAngle)
+    eField[1] = eX * std::sin(m_polAngle)
         + eField[1] * std::cos(m_polAngle);
     eField = m_rotationInv * eField;
-    bField[0] = bField[0] * std::cos(m_polAngle)
+    double bX = bField[0];
+    bField[0] = bX * std::cos(m_polAngle)
         - bField[1] * std::sin(m_polAngle) ;
-    bField[1] = bField[0] * std::sin(m_polAngle)
+    bField[1] = bX * std::sin(m_polAngle)
         + bField[1] * std::cos(m_polAngle);
     bField = m_rotationInv * bField;
 }
\ No newline at end of file
-- 
2.43.0


From 05dd99d4a97344106143897fbcbe4e8a4e5b4852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 13/38] fix: a lepton created with an energy has that energy

---
 Source/Particles/Lepton.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/Source/Particles/Lepton.cpp b/Source/Particles/Lepton.cpp
index f283046..d7c1d87 100644
--- a/Source/Particles/Lepton.cpp
+++ b/Source/Particles/Lepton.cpp
@@ -1,3 +1,6 @@
+#include <algorithm>
+#include <cmath>
+
 #include "Lepton.hh"
 
 Lepton::Lepton(double mass, double charge, const ThreeVector &position, 
@@ -16,8 +19,8 @@ Particle(mass, charge, position, momentum, weight, time, tracking)
 Lepton::Lepton(double mass, double charge, double energy,
     const ThreeVector &position, const ThreeVector &direction, double weight,
     double time, bool tracking):
-Particle(mass, charge, position, energy * direction.Norm(), weight, time,
-    tracking)
+Particle(mass, charge, position, std::sqrt(std::max(energy * energy - mass * mass,
+    0.0)) * direction.Norm(), weight, time, tracking)
 {
     if (charge == -1)
     {
-- 
2.43.0


From 8c4f7ce37c16eccf1f9fa978530839c3a5526a6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 14/38] fix: particle sources emit along the configured
 direction

---
 Source/Particles/SourceGenerator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Particles/SourceGenerator.cpp b/Source/Particles/SourceGenerator.cpp
index fda3748..8117632 100644
--- a/Source/Particles/SourceGenerator.cpp
+++ b/Source/Particles/SourceGenerator.cpp
@@ -31,7 +31,7 @@ m_type(type), m_nPart(nPart), m_partCount(0), m_track(track)
         m_energy = MCTools::SampleUniform(energy1, energy2, nPart);
     }
     
-    m_rotaion = m_direction.RotateToAxis(ThreeVector(0, 0, 1));
+    m_rotaion = ThreeVector(0, 0, 1).RotateToAxis(m_direction);
 }
 
 SourceGenerator::~SourceGenerator()
-- 
2.43.0


From f34aa4dc2998cd3add55978bab08b0534af3fd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 15/38] fix: track entries carry the time the particle has been
 moved to

---
 Source/Physics/ParticlePushers/ParticlePusher.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/ParticlePushers/ParticlePusher.cpp b/Source/Physics/ParticlePushers/ParticlePusher.cpp
index 8acd850..54c1f3f 100644
--- a/Source/Physics/ParticlePushers/ParticlePusher.cpp
+++ b/Source/Physics/ParticlePushers/ParticlePusher.cpp
@@ -16,8 +16,8 @@ void ParticlePusher::PushParticle(Particle *part)
     {
         ThreeVector positionNew = part->GetPosition() + (m_dt / part->GetMomentum().Mag())
                                  * part->GetMomentum();
-        part->UpdateTrack(positionNew, part->GetMomentum());
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, part->GetMomentum());
     } else  // Particle is charged
     {
         ThreeVector posK1, posK2, posK3, posK4;
@@ -58,8 +58,8 @@ void ParticlePusher::PushParticle(Particle *part)
                                   * (posK1 + 2.0 * posK2 + 2.0 * posK3 + posK4);
         ThreeVector momentumNew = part->GetMomentum() + (m_dt / 6.0) 
                                   * (momK1 + 2.0 * momK2 + 2.0 * momK3 + momK4);
-        part->UpdateTrack(positionNew, momentumNew);
         part->UpdateTime(m_dt);
+        part->UpdateTrack(positionNew, momentumNew);
     }
 }
 
-- 
2.43.0


From 828437ca2c113060f98274bb1a01c00ed20e2672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 16/38] fix: stochastic emission keeps the requested fraction
 of photons

---
 Source/Physics/Processes/StochasticEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/StochasticEmission.cpp b/Source/Physics/Processes/StochasticEmission.cpp
index f778378..82de4c9 100644
--- a/Source/Physics/Processes/StochasticEmission.cpp
+++ b/Source/Physics/Processes/StochasticEmission.cpp
@@ -41,7 +41,7 @@ void StochasticEmission::Interact(Particle *part, ParticleList *partList) const
         ThreeVector gammaP = gammaE * part->GetDirection();
         part->UpdateTrack(part->GetPosition(), part->GetMomentum() - gammaP);
         // Add new partles to the simulation
-        if (gammaE > m_eMin && m_sampleFrac < MCTools::RandDouble(0, 1))
+        if (gammaE > m_eMin && MCTools::RandDouble(0, 1) < m_sampleFrac)
         {
             Photon* photon = new Photon(gammaE, part->GetPosition(), 
                 part->GetDirection(), part->GetWeight() / m_sampleFrac,
-- 
2.43.0


From e5a770ea4ef0bc5b58459f2972fa4233bcde76f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 17/38] fix: pair production leaves photons outside the field
 unchanged

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 5301af9..131a1cd 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -22,6 +22,7 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetType() != "Photon" || part->IsAlive() == false) return;
 
     double chi = CalculateChi(part);
+    if (chi <= 0.0) return;     // no field, nothing to interact with
     double logt = Numerics::Interpolate1D(m_t_chiAxis, m_t_dataTable,
         m_t_length, std::log10(chi));
     double deltaOD = m_dt * UnitsSystem::alpha * chi * std::pow(10.0, logt)
-- 
2.43.0


From b66c070df819eb3437c889a2cbcadd3523510a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 18/38] fix: photon chi axis is spaced by its own length

---
 Source/Physics/Processes/PhotonEmission.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index 6d6ee55..0fb8cd8 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -123,7 +123,7 @@ void PhotonEmission::LoadTables()
         double logMinChi = std::log10(m_phEn_chiMinAxis[i]);
         m_phEn_etaAxis[i] = logMinEta + i * deltaEta;
         double deltaChi = (m_phEn_etaAxis[i] - std::log10(2.0)
-            - logMinChi)  / (m_phEn_etaLength - 1.0);
+            - logMinChi)  / (m_phEn_chiLength - 1.0);
         for (unsigned int j = 0; j < m_phEn_chiLength; j++)
         {
             m_phEn_chiAxis[i][j] = logMinChi + j * deltaChi;
-- 
2.43.0


From 0885c7a7a1ddeb989b84660970f9f5f9199969aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 19/38] fix: a missing tables path is refused

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 1 +
 Source/Physics/Processes/PhotonEmission.cpp        | 1 +
 2 files changed, 2 insertions(+)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 131a1cd..120b36c 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -79,6 +79,7 @@ void NonLinearBreitWheeler::LoadTables()
         std::cout << "Error: Enviromental variable \"QED_TABLES_PATH\" "; 
         std::cout << "is not set!" << std::endl;
         std::cout <<  "Please set QED_TABLES_PATH to point to tables directory." << std::endl;
+        exit(1);
     }
 
     std::string path(tablePath);
diff --git a/Source/Physics/Processes/PhotonEmission.cpp b/Source/Physics/Processes/PhotonEmission.cpp
index 0fb8cd8..3cd8b74 100644
--- a/Source/Physics/Processes/PhotonEmission.cpp
+++ b/Source/Physics/Processes/PhotonEmission.cpp
@@ -56,6 +56,7 @@ void PhotonEmission::LoadTables()
         std::cout << "is not set!" << std::endl;
         std::cout <<  "Please set QED_TABLES_PATH to point to tables directory."
                   << std::endl;
+        exit(1);
     }
 
     std::string path(tablePath);
-- 
2.43.0


From bc579939d96a15c89905c919090d713d0fc4d157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 20/38] fix: histograms bin the configured quantity

---
 Source/IO/Output/Histogram.cpp | 22 +++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 572f49f..2b01204 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -44,7 +44,7 @@ void Histogram::AppParticle(Particle* part)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			m_entries++;
 			double energy = part->GetEnergy();
@@ -53,7 +53,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, energy);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			m_entries++;
 			double xPos = part->GetPosition()[0];
@@ -62,7 +62,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			m_entries++;
 			double yPos = part->GetPosition()[1];
@@ -71,7 +71,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			m_entries++;
 			double zPos =  part->GetPosition()[2];
@@ -80,7 +80,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, zPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PX" || "px")
+		} else if (m_type == "PX" || m_type == "px")
 		{
 			m_entries++;
 			double xPos = part->GetMomentum()[0];
@@ -89,7 +89,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, xPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PY" || "py")
+		} else if (m_type == "PY" || m_type == "py")
 		{
 			m_entries++;
 			double yPos = part->GetMomentum()[1];
@@ -98,7 +98,7 @@ void Histogram::AppParticle(Particle* part)
 				unsigned int index = Numerics::ArrayIndex(m_binCentres, m_nBins, yPos);
 				m_binValues[index]++;
 			}
-		} else if (m_type == "PZ" || "pz")
+		} else if (m_type == "PZ" || m_type == "pz")
 		{
 			m_entries++;
 			double zPos =  part->GetMomentum()[2];
@@ -123,7 +123,7 @@ void Histogram::Fill(ParticleList* partList)
 		exit(1);
 	} else
 	{
-		if (m_type == "Energy" || "energy")
+		if (m_type == "Energy" || m_type == "energy")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -136,7 +136,7 @@ void Histogram::Fill(ParticleList* partList)
 				}
 			}
 			
-		} else if (m_type == "X" || "x")
+		} else if (m_type == "X" || m_type == "x")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -148,7 +148,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Y" || "y")
+		} else if (m_type == "Y" || m_type == "y")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
@@ -160,7 +160,7 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
-		} else if (m_type == "Z" || "z")
+		} else if (m_type == "Z" || m_type == "z")
 		{
 			for (unsigned int i = 0; i < partList->GetNPart(); i++)
 			{
-- 
2.43.0


From a749df2acb49acdf2d6d5b3e16d76c1c5a637bff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 21/38] fix: a histogram starts without entries

---
 Source/IO/Output/Histogram.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 2b01204..d202068 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -26,6 +26,7 @@ void Histogram::Initialise(std::string name, std::string particle , std::string
 	m_type = type;
 	m_time = time;
 	m_nBins = nBins;
+	m_entries = 0;
 	m_binCentres = new double [nBins];
 	m_binValues  = new double [m_nBins];
 	double detla = (maxBin - minBin) / (m_nBins - 1.0);
-- 
2.43.0


From 81f51829930788f1dadb582bc928a8b5cf4f0ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 22/38] fix: normalising an empty histogram leaves it empty

---
 Source/IO/Output/Histogram.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index d202068..4cc527d 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -211,6 +211,7 @@ void Histogram::Normalise()
 		{
 			sum += m_binValues[i];
 		}
+		if (sum == 0) return;
 		for (unsigned int i = 0; i < m_nBins; i++)
 		{
 			m_binValues[i] /= sum;
-- 
2.43.0


From 4bc01f867fab0421f60200ad2a2f34196c137e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 23/38] fix: AddGroup creates groups the file does not have yet

---
 Source/IO/Output/HDF5Output.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index ef52608..63595a6 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -30,12 +30,13 @@ void HDF5Output::AddGroup(std::string groupName)
     if (m_group != NULL)
     {
         delete m_group;
+        m_group = NULL;
     }
-    bool status;
+    herr_t status;
     H5E_BEGIN_TRY {
         status = H5Gget_objinfo(m_file->getId(), groupName.c_str(), 0, NULL);
     } H5E_END_TRY
-    if (status == 0)
+    if (status < 0)
     {
         m_group = new H5::Group(m_file->createGroup(groupName.c_str()));
     }
-- 
2.43.0


From ee6d9c88b11e9b2ec183bb949e83a1cd9d026e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 24/38] fix: HDF5Output starts without a sub group

---
 Source/IO/Output/HDF5Output.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Output/HDF5Output.cpp b/Source/IO/Output/HDF5Output.cpp
index 63595a6..086967d 100644
--- a/Source/IO/Output/HDF5Output.cpp
+++ b/Source/IO/Output/HDF5Output.cpp
@@ -3,12 +3,12 @@
 #include "HDF5Output.hh"
 
 HDF5Output::HDF5Output():
-m_file(NULL), m_group(NULL)
+m_file(NULL), m_group(NULL), m_subGroup(NULL)
 {
 }
 
 HDF5Output::HDF5Output(std::string fileName, bool append):
-m_fileName(fileName), m_group(NULL)
+m_fileName(fileName), m_group(NULL), m_subGroup(NULL)
 {
     if (append == true)
     {
@@ -21,6 +21,7 @@ m_fileName(fileName), m_group(NULL)
 
 HDF5Output::~HDF5Output()
 {
+    delete m_subGroup;
     delete m_group;
     delete m_file;
 }
-- 
2.43.0


From fb5167a3e0efe8b6fcffed0f1920d4abf42c6447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 25/38] fix: gamma tracks are written without a unit

---
 Source/IO/Output/OutputManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 4534b31..51dcee8 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -481,7 +481,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             }
             for (unsigned int j = 0; j < m_gammaTrack[i].size(); j++)
             {
-                gammaBuff[j] = m_gammaTrack[i][j] * time;
+                gammaBuff[j] = m_gammaTrack[i][j];
             }
             m_outputFile->AddArray2D(posBuff, m_positionTrack[i].size(), 3, eventName + "/Position");
             m_outputFile->AddArray2D(momBuff, m_momentumTrack[i].size(), 3, eventName + "/Momentum");
-- 
2.43.0


From 32de52d3c1468fe78e4e57f0f0134d0a034023a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 26/38] fix: event tracks get their group also after a particle
 list was written

---
 Source/IO/Output/OutputManager.cpp | 4 ++--
 Source/IO/Output/OutputManager.hh  | 1 +
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 51dcee8..479db3f 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -431,10 +431,10 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
     // Output tracking info
     if (outTrack == true)
     {
-        if (m_partListBool == false)
+        if (m_partTrackBool == false)
         {
             m_outputFile->AddGroup("Particles/ParticleTrack");
-            m_partListBool = true;
+            m_partTrackBool = true;
         }
 
         // Get the units system
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index d4b8e75..ff1c718 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -69,6 +69,7 @@ private:
     // Boolians to avoid adding the same group twice
     bool m_singlePartBool = false;
     bool m_partListBool = false;
+    bool m_partTrackBool = false;
     bool m_particleSourceBool = false;
 
     // Structures holding data for source outputs
-- 
2.43.0


From f164ffd139312bff7b83829d4c298c63392ba6c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 27/38] fix: tracks are written once when several sources are
 simulated

---
 Source/IO/Output/OutputManager.cpp | 6 +++---
 Source/IO/Output/OutputManager.hh  | 1 +
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/Source/IO/Output/OutputManager.cpp b/Source/IO/Output/OutputManager.cpp
index 479db3f..e2e36de 100644
--- a/Source/IO/Output/OutputManager.cpp
+++ b/Source/IO/Output/OutputManager.cpp
@@ -451,8 +451,8 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             time = m_units->RefTime();
         }
 
-        // Loop through all the tracks
-        for (unsigned int i = 0; i < m_idTrack.size(); i++)
+        // Loop through all the tracks that have not been written yet
+        for (unsigned int i = m_tracksWritten; i < m_idTrack.size(); i++)
         {
             std::string eventName = "Particles/ParticleTrack/Event" + std::to_string(i);
             m_outputFile->AddGroup(eventName);
@@ -493,7 +493,7 @@ void OutputManager::OutputEvents(bool outSource, bool outTrack)
             delete[] timeBuff;
             delete[] gammaBuff;
         }
-
+        m_tracksWritten = m_idTrack.size();
     }
 }
 
diff --git a/Source/IO/Output/OutputManager.hh b/Source/IO/Output/OutputManager.hh
index ff1c718..20c91f6 100644
--- a/Source/IO/Output/OutputManager.hh
+++ b/Source/IO/Output/OutputManager.hh
@@ -83,6 +83,7 @@ private:
 
     // structures holding data for tracking output
     std::vector<unsigned int> m_idTrack;
+    unsigned int m_tracksWritten = 0;   // number of tracks already in the file
     std::vector<std::vector<ThreeVector>> m_positionTrack;
     std::vector<std::vector<ThreeVector>> m_momentumTrack;
     std::vector<std::vector<double>> m_timeTrack;
-- 
2.43.0


From 7f58c5a47430e2bd858541fbd820b10cfa43bba8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 28/38] fix: three-vectors accept commas, signs and upper case
 exponents

---
 Source/IO/Input/INIReader.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index c2969d6..8afc313 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -90,7 +90,8 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
     {
         bool operator()(const char c) 
         {
-            if (c == '.' || c == '-' || c == ' ' || c == 'e' || std::isdigit(c))
+            if (c == '.' || c == '-' || c == '+' || c == 'e' || c == 'E'
+                || std::isdigit((unsigned char) c))
             {
                 return false;
             } else
@@ -102,9 +103,8 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
 
     string valstr = Get(section, name, "");
     NotNumber nn;
-    std::string::iterator end = std::remove_if(valstr.begin(), valstr.end(), nn);
-    std::string allNumbers(valstr.begin(), end);
-    std::stringstream stream(allNumbers);
+    std::replace_if(valstr.begin(), valstr.end(), nn, ' ');
+    std::stringstream stream(valstr);
 
     ThreeVector vector;
     int i = 0;
-- 
2.43.0


From e308bffe46e7da4eac316a6546f2f4671017e9bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 29/38] fix: GetThreeVector returns the default for an absent
 option

---
 Source/IO/Input/INIReader.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/IO/Input/INIReader.cpp b/Source/IO/Input/INIReader.cpp
index 8afc313..4e1e9ff 100644
--- a/Source/IO/Input/INIReader.cpp
+++ b/Source/IO/Input/INIReader.cpp
@@ -118,7 +118,7 @@ ThreeVector INIReader::GetThreeVector(const std::string& section, const std::str
         vector[i] = value;
         i++;
     }
-    return vector;
+    return i == 0 ? default_value : vector;
 }
 
 bool INIReader::HasValue(const std::string& section, const std::string& name) const
-- 
2.43.0


From 79a649ef6966f2c06db27569ab27beafb985beb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 30/38] fix: accept the documented lower case spelling of the
 classical model

---
 Source/Python/RunManager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 8be6b80..6e67db3 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -65,7 +65,7 @@ void RunManager::setField(const std::string& fieldType, double maxField,
 
 void RunManager::setPhysics(const std::string& physics)
 {
-    if (physics == "Classical" || physics == "clasical" ||
+    if (physics == "Classical" || physics == "classical" ||
         physics == "Semiclassical" || physics == "semiclassical" ||
         physics == "Quantum" || physics == "quantum")
     {
-- 
2.43.0


From ae025a278e348672219e8bf9593ed85f9b407eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 31/38] fix: a refused run leaves no dangling objects behind

---
 Source/Python/RunManager.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/Source/Python/RunManager.cpp b/Source/Python/RunManager.cpp
index 6e67db3..7e7171d 100644
--- a/Source/Python/RunManager.cpp
+++ b/Source/Python/RunManager.cpp
@@ -29,7 +29,7 @@ RunManager::~RunManager()
     delete m_field;
     delete m_generator;
     delete m_pusher;
-    m_processList.clear();
+    for (auto& process : m_processList) delete process;
 }
 
 void RunManager::setTime(double timeStep, double timeEnd)
@@ -132,6 +132,10 @@ void RunManager::beamOn(int events, int threads)
     delete m_pusher;
     delete m_generator;
     delete m_field;
+    m_pusher = nullptr;
+    m_generator = nullptr;
+    m_field = nullptr;
+    for (auto& process : m_processList) delete process;
     m_processList.clear();
 
     // Check for time / field properties
-- 
2.43.0


From 5cdeb2e9fdf685be0ab757fcebed465022753c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 32/38] fix: short command line arguments are refused instead
 of crashing

---
 Source/Exec/QEDCASC.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f05f9bc..f7d8d5c 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -54,7 +54,7 @@ int main(int argc, char* argv[])
         {
             std::cout << "This is how to use the code\n";
             return 1;
-        } else if (argument.substr(argument.size() - 4) == ".ini")
+        } else if (argument.size() >= 4 && argument.substr(argument.size() - 4) == ".ini")
         {
 
         } else
-- 
2.43.0


From 7af09fa14944d75424ec976483e07a140d81408b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:48 +0000
Subject: [PATCH 33/38] fix: all histograms due at a step are filled at that
 step

---
 Source/Exec/QEDCASC.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/Source/Exec/QEDCASC.cpp b/Source/Exec/QEDCASC.cpp
index f7d8d5c..db9d6e6 100644
--- a/Source/Exec/QEDCASC.cpp
+++ b/Source/Exec/QEDCASC.cpp
@@ -209,7 +209,7 @@ int main(int argc, char* argv[])
             while(time < inGeneral.timeEnd) // loop time
             {
                 // Check if time for histogram
-                if (histCount < histograms.size())
+                while (histCount < histograms.size())
                 {
                  //   std::cout << histCount << " " << histograms[histCount]->GetTime() << std::endl;
                     if(time >= histograms[histCount]->GetTime())
@@ -223,6 +223,9 @@ int main(int argc, char* argv[])
                             }
                         }
                         histCount++;
+                    } else
+                    {
+                        break;
                     }
                 }
                 // Push particles and interact
-- 
2.43.0


From 55683126bcaa2515da2b2bb520c8f5a4f1a5439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:48 +0000
Subject: [PATCH 34/38] fix: momentum histograms can be filled from a list

---
 Source/IO/Output/Histogram.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/Source/IO/Output/Histogram.cpp b/Source/IO/Output/Histogram.cpp
index 4cc527d..0e5952d 100644
--- a/Source/IO/Output/Histogram.cpp
+++ b/Source/IO/Output/Histogram.cpp
@@ -173,6 +173,13 @@ void Histogram::Fill(ParticleList* partList)
 					m_binValues[index]++;
 				}
 			}
+		} else if (m_type == "PX" || m_type == "px" || m_type == "PY" || m_type == "py"
+				   || m_type == "PZ" || m_type == "pz")
+		{
+			for (unsigned int i = 0; i < partList->GetNPart(); i++)
+			{
+				AppParticle(partList->GetParticle(i));
+			}
 		} else
 		{
 			std::cerr << "Error: Particle property \"" << m_type << "\" not found\n";
-- 
2.43.0


From c2a8c8982ec721641d168d866c7889ee192b5530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:40 +0000
Subject: [PATCH 35/38] fix: Interpolate1D extrapolates above the table along
 the last segment

---
 Source/Tools/Numerics.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/Source/Tools/Numerics.cpp b/Source/Tools/Numerics.cpp
index 4957c00..14a647a 100644
--- a/Source/Tools/Numerics.cpp
+++ b/Source/Tools/Numerics.cpp
@@ -37,7 +37,7 @@ double Numerics::Interpolate1D(double* samplePoints, double* sampleData, unsigne
 		// value is not within the range so we need to use extrapolation
 		int end = sampleSize - 1;
 		queryData = sampleData[end] + (sampleData[end] - sampleData[end-1]) 
-									  * ((queryPoint - samplePoints[end-1])
+									  * ((queryPoint - samplePoints[end])
 		               				  / (samplePoints[end] - samplePoints[end-1]));
 	} else
 	{
-- 
2.43.0


From 18c448c41750c002b6cdb7438fa16fe36287c8e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:40 +0000
Subject: [PATCH 36/38] fix: radiation reaction leaves a lepton at rest finite

---
 Source/Physics/ParticlePushers/LandauPusher.cpp         | 2 +-
 Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/ParticlePushers/LandauPusher.cpp b/Source/Physics/ParticlePushers/LandauPusher.cpp
index 909a227..55b6491 100644
--- a/Source/Physics/ParticlePushers/LandauPusher.cpp
+++ b/Source/Physics/ParticlePushers/LandauPusher.cpp
@@ -13,7 +13,7 @@ ThreeVector LandauPusher::PushMomentum(double mass, double charge, const ThreeVe
 	double beta  = std::sqrt(1.0 - 1.0 / (gamma * gamma));
 
 	// calculate eta value
-	ThreeVector partDir = momentum.Norm();
+	ThreeVector partDir = momentum.Mag2() > 0 ? momentum.Norm() : ThreeVector(0, 0, 0);
 	ThreeVector ePara = Efield.Dot(partDir) * partDir;
 	ThreeVector ePerp = Efield - ePara;
 	
diff --git a/Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp b/Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp
index be8c9dc..d30cf12 100644
--- a/Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp
+++ b/Source/Physics/ParticlePushers/ModifiedLandauPusher.cpp
@@ -15,7 +15,7 @@ ThreeVector ModifiedLandauPusher::PushMomentum(double mass, double charge,
     double beta  = std::sqrt(1.0 - 1.0 / (gamma * gamma));
 
     // calculate eta value
-    ThreeVector partDir = momentum.Norm();
+    ThreeVector partDir = momentum.Mag2() > 0 ? momentum.Norm() : ThreeVector(0, 0, 0);
     ThreeVector ePara = Efield.Dot(partDir) * partDir;
     ThreeVector ePerp = Efield - ePara;
     
-- 
2.43.0


From 44ee6b23b886f355501dae83b960222722c5c64d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:37 +0000
Subject: [PATCH 37/38] fix: a particle at rest has no direction instead of an
 undefined one

---
 Source/Particles/Particle.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/Source/Particles/Particle.cpp b/Source/Particles/Particle.cpp
index ed8a8e2..c332312 100644
--- a/Source/Particles/Particle.cpp
+++ b/Source/Particles/Particle.cpp
@@ -55,6 +55,8 @@ void Particle::UpdateOpticalDepth(double dtau)
 
 ThreeVector Particle::GetDirection() const
 {
+	// a particle at rest has no direction
+	if (m_momentum.Mag2() == 0) return ThreeVector(0, 0, 0);
 	return m_momentum.Norm();
 }
 
-- 
2.43.0


From 13c11570e1bd44ac8d2b540403ccabe5be434bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:50 +0000
Subject: [PATCH 38/38] fix: pair production below the rest energy (no NaN
 momentum, no energy outside the photon's)

---
 Source/Physics/Processes/NonLinearBreitWheeler.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/Source/Physics/Processes/NonLinearBreitWheeler.cpp b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
index 120b36c..dbff14a 100644
--- a/Source/Physics/Processes/NonLinearBreitWheeler.cpp
+++ b/Source/Physics/Processes/NonLinearBreitWheeler.cpp
@@ -1,3 +1,5 @@
+#include <algorithm>
+#include <cmath>
 #include <fstream>
 
 #include "NonLinearBreitWheeler.hh"
@@ -23,6 +25,7 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
 
     double chi = CalculateChi(part);
     if (chi <= 0.0) return;     // no field, nothing to interact with
+    if (part->GetEnergy() <= 2.0) return;   // not enough energy for a pair
     double logt = Numerics::Interpolate1D(m_t_chiAxis, m_t_dataTable,
         m_t_length, std::log10(chi));
     double deltaOD = m_dt * UnitsSystem::alpha * chi * std::pow(10.0, logt)
@@ -33,8 +36,10 @@ void NonLinearBreitWheeler::Interact(Particle *part, ParticleList *partList) con
     if (part->GetOpticalDepth() < 0.0)
     {
         double split = CalculateSplit(chi);
-        double pEnergy = split * part->GetEnergy();
-        double eEnergy = (1.0 - split) * part->GetEnergy();
+        // Each lepton gets at least its rest energy
+        double pEnergy = std::max(1.0, std::min(split * part->GetEnergy(),
+            part->GetEnergy() - 1.0));
+        double eEnergy = std::max(1.0, part->GetEnergy() - pEnergy);
         ThreeVector pMomentum =  std::sqrt(pEnergy * pEnergy - 1.0) * part->GetDirection();
         ThreeVector eMomentum =  std::sqrt(eEnergy * eEnergy - 1.0) * part->GetDirection();
         Lepton* positron = new Lepton(1.0, 1.0, part->GetPosition(), pMomentum,
-- 
2.43.0

