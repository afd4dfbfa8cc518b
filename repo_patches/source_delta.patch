From e1fa7bbe00ef50c0658eb00b7002c531ed7f655b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 01/61] fix: theta propagator reuses stale background in odd
 stages

The CPU theta propagator refreshed the axion mass, scale factor and R''/R
only for the even stages; the third RKN stage was kicked with the values of
the second. Reload them for every stage, as the saxion propagator does.
---
 include/propagator/propClass.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 009cd8a..0668959 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -534,6 +534,10 @@
 
 			const double c1 = c[s], c2 = c[s+1], d1 = cD[s], d2 = cD[s+1];
 
+			ppar.massA2 = axion->AxionMassSq();
+			ppar.R      = *axion->RV();
+			ppar.Rpp    = axion->Rpp();
+
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, 2*BO, V , precision, xBlock, yBlock, zBlock, wMod, VQcd);
 			axion->sendGhosts(FIELD_M, COMM_WAIT);
 			propThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), ppar, dz, c1, d1, BO, 2*BO, precision, xBlock, yBlock, zBlock, wMod, VQcd);
-- 
2.43.0


From f2c23f50f60cfd886fff54d0e8cccbd3d7bb77fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 02/61] fix: rho damping in double precision only summed the
 first lane of M*A

The permute immediate swapped only the lower 128-bit lane, so every second
site got a wrong radial acceleration in V_DAMP_RHO double precision runs.
---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index a518fd9..712e52c 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -380,7 +380,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
@@ -1315,7 +1315,7 @@ inline	void	updateVXeon(const void * __restrict__ m_, void * __restrict__ v_, Pr
 					// mel = M, mMx = A
 					tmp = opCode(mul_pd, mel, mMx);
 #if	defined(__AVX__)// || defined(__AVX512F__)
-					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000001), tmp);
+					auto vecma = opCode(add_pd, opCode(permute_pd, tmp, 0b00000101), tmp);
 #else
 					auto vecma = opCode(add_pd, opCode(shuffle_pd, tmp, tmp, 0b00000001), tmp);
 #endif
-- 
2.43.0


From 0986054f5aec9bdcb1fd5cbd5441110a24e7cec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 03/61] fix: sign of the N=2 QCD force in the double precision
 saxion kernel

Single precision adds mA2 R^2/2 conj(Phi) (potential 1-Re^2+Im^2), double
precision subtracted it, so the same run had inverted minima depending on the
precision. updateVXeon had the opposite mix-up.
---
 include/propagator/propXeon.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/propagator/propXeon.h b/include/propagator/propXeon.h
index 712e52c..ca7cf02 100755
--- a/include/propagator/propXeon.h
+++ b/include/propagator/propXeon.h
@@ -303,7 +303,7 @@ inline	void	propagateKernelXeon(const void * __restrict__ m_, void * __restrict_
 						mMx = opCode(add_pd, mMx, opCode(mul_pd, opCode(set1_pd, zQ), opCode(sub_pd, zRVec, mel)));
 					break;
 					case V_QCD2:
-						mMx = opCode(sub_pd, mMx, opCode(mul_pd,zNVec,mel));
+						mMx = opCode(add_pd, mMx, opCode(mul_pd,zNVec,mel));
 					break;
 					case V_QCDC:
 						tmp2 = opCode(div_pd,
@@ -1608,7 +1608,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 					mMx = opCode(add_ps, mMx, opCode(mul_ps, opCode(set1_ps, zQ), opCode(sub_ps, zRVec, mel)));
 				break;
 				case V_QCD2:
-					mMx = opCode(sub_ps, mMx, opCode(mul_ps,zNVec,mel));
+					mMx = opCode(add_ps, mMx, opCode(mul_ps,zNVec,mel));
 				break;
 				case V_QCDL:
 				case V_QCDC:
-- 
2.43.0


From 15c5f2bfbb5c09d3a67040e1e503e9825a451889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:37 +0000
Subject: [PATCH 04/61] fix: cosine QCD force in double precision used the
 wrong permutation

vqcd0_pd has to return (y*y, x*y) for each complex number; the immediates made
it return (y*y, x*x)-like products, so V_QCDC runs in double precision felt a
wrong force.
---
 include/utils/triSimd.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/utils/triSimd.h b/include/utils/triSimd.h
index e37961b..427099d 100644
--- a/include/utils/triSimd.h
+++ b/include/utils/triSimd.h
@@ -529,9 +529,9 @@ inline _MData_	opCode(md2_pd, const _MData_ &x)
 inline _MData_	opCode(vqcd0_pd, const _MData_ &x)
 {
 #if defined(__AVX__)
-	return	opCode(mul_pd, opCode(permute_pd, x, 0b00010001), opCode(permute_pd, x, 0b01010101));  //(y,x)*(y,y)
+	return	opCode(mul_pd, opCode(permute_pd, x, 0b01010101), opCode(permute_pd, x, 0b11111111));  //(y,x)*(y,y)
 #else
-	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b0001), opCode(shuffle_pd, x, x, 0b0101));
+	return	opCode(mul_pd, opCode(shuffle_pd, x, x, 0b01), opCode(shuffle_pd, x, x, 0b11));
 #endif
 }
 #undef	_MData_
-- 
2.43.0


From 6a231b1e91a7a94efc58c982b16577b0b185ea6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 05/61] fix: string maps were displaced by Ng-1 slices

---
 lib/strings/stringXeon.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/strings/stringXeon.cpp b/lib/strings/stringXeon.cpp
index eab9ffc..0ea2bd2 100755
--- a/lib/strings/stringXeon.cpp
+++ b/lib/strings/stringXeon.cpp
@@ -1046,5 +1046,7 @@ StringData	stringCpu	(Scalar *field)
 	const size_t V = field->Size();
 	field->exchangeGhosts(FIELD_M);
 	field->setSD(SD_MAP);
-	return (stringKernelXeon(field->mCpu(), field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
+	/* the kernel expects one ghost slice below the field, there are Ng */
+	const void *m = static_cast<char *>(field->mStart()) - S*field->DataSize();
+	return (stringKernelXeon(m, field->Length(), field->Depth(), S, V+S, field->rLength(), field->rDepth(), field->Precision(), field->sData()));
 }
-- 
2.43.0


From ceca8babf4ba6568a8a0af851551e6c80cf35773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 06/61] fix: kinetic energies in double precision were
 truncated to an integer factor

---
 lib/energy/energyXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index f3379d1..ba4fc1f 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -47,7 +47,7 @@ void	energyKernelXeon(const void * __restrict__ m_, const void * __restrict__ v_
 	const size_t Vo     = ppar.Vo;
 	const size_t Vf     = ppar.Vf;
 	const size_t Vt     = ppar.Vt;
-	const size_t iR2    = 1./R/R;
+	const double iR2    = 1./R/R;
 
 	const size_t Sf = Lx*Lx;
 
-- 
2.43.0


From 9853a6e1f5abc25d43c7eb3bfeb0c060766db4de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:53 +0000
Subject: [PATCH 07/61] fix: mean and masked modulus sums of the double
 precision energies

---
 lib/energy/energyXeon.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index ba4fc1f..2ee5e61 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -135,7 +135,7 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 
 			double tmpS[2*step] __attribute__((aligned(Align)));
 
-			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho)
+			#pragma omp for schedule(static) reduction(+:Vrho,Vth,Krho,Kth,Gxrho,Gxth,Gyrho,Gyth,Gzrho,Gzth,VrhoM,VthM,KrhoM,KthM,GxrhoM,GxthM,GyrhoM,GythM,GzrhoM,GzthM,Rrho,RrhoM,nummask)
 			for (size_t idx = Vo; idx < Vf; idx += step)
 			{
 				size_t X[3], idxPx, idxMx, idxPy, idxMy, idxPz, idxMz, idxP0, idxV0;
@@ -604,7 +604,7 @@ if (emask & EN_ENE){
 								KthM   += tmpS[1] + tmpS[3];
 
 								opCode(store_pd, tmpS, opCode(mul_pd,Frho,Mask));
-								RrhoM  +=  tmpS[0] + tmpS[2] + tmpS[4] + tmpS[6];
+								RrhoM  += tmpS[0] + tmpS[2];
 #else
 								opCode(store_pd, tmpS, opCode(mul_pd,tGx,Mask));
 								GxrhoM +=  tmpS[0];
@@ -643,6 +643,7 @@ if (emask & EN_ENE){
 		eRes[TH_POT] = Vth  *zQ;
 		eRes[RH_KIN] = Krho *.5*iR2;
 		eRes[TH_KIN] = Kth  *.5*iR2;
+		eRes[RH_RHO] = Rrho;
 
 		eRes[RH_GRXM] = GxrhoM*o2;
 		eRes[TH_GRXM] = GxthM *o2;
-- 
2.43.0


From 0bb909e13eb53928521179afd74f0808fcf3c521 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:25:09 +0000
Subject: [PATCH 08/61] fix: N=2 axion potential energy

---
 lib/energy/energyXeon.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/energy/energyXeon.cpp b/lib/energy/energyXeon.cpp
index 2ee5e61..7a4dba7 100755
--- a/lib/energy/energyXeon.cpp
+++ b/lib/energy/energyXeon.cpp
@@ -429,8 +429,8 @@ LogMsg(VERB_PARANOID,"Sf %d Vt %d NN %d", Sf, Vt, NN);LogFlush();
 						mCg = opCode(mul_pd, hVec, opCode(md2_pd, opCode(mul_pd,mTp,mTp) ));
 					break;
 					case V_QCD2:
-						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, Gry, Grz)));
+						/* (1 - Re(Phi)^2/|Phi|^2)/2 ; Gry is no longer the square at this point */
+						mCg = opCode(mul_pd, hVec, opCode(sub_pd, one, opCode(div_pd, opCode(mul_pd, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
@@ -1087,8 +1087,8 @@ if (emask & EN_ENE){
 						mCg = opCode(mul_ps, hVec, opCode(md2_ps, opCode(mul_ps,mTp,mTp) ));
 					break;
 					case V_QCD2:
-						/* (1 - Im(Phi)^2/|Phi|^2)/2 = */
-						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, Gry, Grz)));
+						/* (1 - Re(Phi)^2/|Phi|^2)/2 ; Gry is no longer the square at this point */
+						mCg = opCode(mul_ps, hVec, opCode(sub_ps, one, opCode(div_ps, opCode(mul_ps, Grx, Grx), Grz)));
 					break;
 					case V_QCDC:
 						/* (1 - Re(|phi)/|Phi|) */
-- 
2.43.0


From b93436ed359746db94938c046afe1d4e7f6ad3a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 09/61] fix: the CPU tuner never ends or divides by zero on
 lattices with less than four rows per block

---
 include/utils/tunable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/utils/tunable.h b/include/utils/tunable.h
index 5bef5df..12a4704 100644
--- a/include/utils/tunable.h
+++ b/include/utils/tunable.h
@@ -94,7 +94,7 @@
 						yBlock++;
 					}	while ((ySize % yBlock) != 0);
 				} else {
-					yBlock = 3;
+					yBlock = (ySize > 3) ? 3 : 0;
 					do {
 						yBlock++;
 					}	while ((ySize % yBlock) != 0);
-- 
2.43.0


From 43b9029a099b781b70ed6e5d455b21474aa60a7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:12 +0000
Subject: [PATCH 10/61] fix: an unwritable or damaged tuning cache crashed the
 run or left the other ranks behind

---
 lib/propagator/propagator.cpp | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/propagator/propagator.cpp b/lib/propagator/propagator.cpp
index 7b7a2a3..6644e96 100755
--- a/lib/propagator/propagator.cpp
+++ b/lib/propagator/propagator.cpp
@@ -558,11 +558,14 @@ LogMsg (VERB_NORMAL, "Missing tuning cache file %s, will create a new one", tune
 			std::string tDev(field->Device() == DEV_GPU ? "Gpu" : "Cpu");
 LogMsg(VERB_HIGH,"[tp] Reading cache file %s",tuneName);
 			do {
-				fscanf (cacheFile, "%s %d %d %lu %lu %u %u %u %u %lu\n", reinterpret_cast<char*>(&mDev), &rMpi, &rThreads, &rLx, &rLz, &fType, &rBx, &rBy, &rBz, &Nghost);
+				if (fscanf (cacheFile, "%7s %d %d %lu %lu %u %u %u %u %lu\n", reinterpret_cast<char*>(&mDev), &rMpi, &rThreads, &rLx, &rLz, &fType, &rBx, &rBy, &rBz, &Nghost) != 10) {
+					LogMsg (VERB_NORMAL, "Malformed line in tuning cache file %s, ignoring the rest", tuneName);
+					break;
+				}
 				std::string fDev(mDev);
 LogMsg(VERB_HIGH,"[tp] Read: MPI %d, threads %d, Ng %d, Lx,Lz (%d,%d) rBx,y,z (%d,%d,%d)  ",rMpi, rThreads, Nghost, rLx, rLz, rBx, rBy, rBz);
 				if (rMpi == commSize() && rThreads == omp_get_max_threads() && rLx == field->Length() && rLz == field->Depth() && fType == myField && fDev == tDev && Nghost == field->getNg()) {
-					if ((field->Device() == DEV_CPU && (rBx <= prop->BlockX() && rBy <= field->Surf()/prop->BlockX() && rBz <= field->Depth())) ||
+					if ((field->Device() == DEV_CPU && (rBx > 0 && rBy > 0 && rBz > 0 && rBx <= prop->BlockX() && rBy <= field->Surf()/prop->BlockX() && rBz <= field->Depth())) ||
 					    (field->Device() == DEV_GPU	&& (rBx <= prop->MaxBlockX() && rBy <= prop->MaxBlockY() && rBz <= prop->MaxBlockZ()))) {
 						found = true;
 LogMsg(VERB_HIGH,"[tp] X!!");
@@ -755,16 +758,10 @@ LogMsg (VERB_HIGH,   "[tp] Start tuning ... ");
 		if (!newFile) {
 			if ((cacheFile = fopen(tuneName, "a")) == nullptr) {
 				LogError ("Error: can't open cache file, can't save tuning results");
-				commSync();
-				prof.stop();
-				prof.add(prop->Name(), 0., 0.);
 			}
 		} else {
 			if ((cacheFile = fopen(tuneName, "w")) == nullptr) {
 				LogError ("Error: can't create cache file, can't save tuning results");
-				commSync();
-				prof.stop();
-				prof.add(prop->Name(), 0., 0.);
 			}
 		}
 
@@ -779,9 +776,11 @@ LogMsg (VERB_HIGH,   "[tp] Start tuning ... ");
 			fType = 3;
 
 		std::string myDev(field->Device() == DEV_GPU ? "Gpu" : "Cpu");
-		fprintf (cacheFile, "%s %d %d %lu %lu %u %u %u %u %lu\n", myDev.c_str(), commSize(), omp_get_max_threads(), field->Length(), field->Depth(),
+		if (cacheFile != nullptr) {
+			fprintf (cacheFile, "%s %d %d %lu %lu %u %u %u %u %lu\n", myDev.c_str(), commSize(), omp_get_max_threads(), field->Length(), field->Depth(),
 									fType, prop->TunedBlockX(), prop->TunedBlockY(), prop->TunedBlockZ(), field->getNg());
-		fclose  (cacheFile);
+			fclose  (cacheFile);
+		}
 	}
 LogMsg (VERB_NORMAL, "\n");
 
-- 
2.43.0


From 614010c572c0d26cceea23836abc60ea6e7d90c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:34 +0000
Subject: [PATCH 11/61] fix: several ranks removing a stale stop/abort file
 raced and one of them gave up

---
 lib/utils/parse.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index c4ef53e..fdc6d49 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -2,6 +2,7 @@
 #include <cstdlib>
 #include <cstring>
 #include <cmath>
+#include <cerrno>
 #include <limits>
 #include <sys/stat.h>
 #include <vector>
@@ -2676,7 +2677,7 @@ if (icdatst.cType == CONF_SMOOTH )
 	if (!((capa  = fopen("./stop", "r")) == nullptr)) {
 		fclose (capa);
 		printf("Stop file detected! ... ");
-		if( remove( "./stop" ) != 0 ){
+		if( remove( "./stop" ) != 0 && errno != ENOENT ){
 			printf("and cannot be deleted. Exit!\n");
 			exit(1);
 		} else
@@ -2685,7 +2686,7 @@ if (icdatst.cType == CONF_SMOOTH )
 	if (!((capa  = fopen("./abort", "r")) == nullptr)) {
 		fclose (capa);
 		printf("Abort file detected! ... ");
-		if( remove( "./abort" ) != 0 ){
+		if( remove( "./abort" ) != 0 && errno != ENOENT ){
 			printf("and cannot be deleted. Exit!\n");
 			exit(1);
 		} else
-- 
2.43.0


From e492c58b1fe735bde4f3464db6200c9f275652b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:21 +0000
Subject: [PATCH 12/61] fix: Paxion/Naxion kernels updated rows twice when the
 block does not divide the lattice

---
 include/propagator/propNaxXeon.h | 4 ++--
 include/propagator/propPaxXeon.h | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/propagator/propNaxXeon.h b/include/propagator/propNaxXeon.h
index 15093c8..241e6ba 100644
--- a/include/propagator/propNaxXeon.h
+++ b/include/propagator/propNaxXeon.h
@@ -138,7 +138,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
@@ -347,7 +347,7 @@ LogMsg(VERB_PARANOID,"[pX] z0 %d zF %d zM %d bY %d bSizeZ %d bSizeY %d [NN %d]",
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz, idxP0, idxV0;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 
 			X[0] = xC;
diff --git a/include/propagator/propPaxXeon.h b/include/propagator/propPaxXeon.h
index 9ed1901..988ab18 100644
--- a/include/propagator/propPaxXeon.h
+++ b/include/propagator/propPaxXeon.h
@@ -121,7 +121,7 @@ inline	void	propagatePaxKernelXeon(const void * __restrict__ m_, void * __restri
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
@@ -324,7 +324,7 @@ else
 			size_t X[2], idxMx, idxPx, idxMy, idxPy, idxMz, idxPz;
 			size_t idx = zC*(YC*XC) + yC*XC + xC;
 
-			if (idx >= Vf)
+			if ((yC >= YC) || (zC >= zF))
 				continue;
 			{
 				X[0] = xC;
-- 
2.43.0


From 8edbc652b44adc3a3f309d319d750f2aa3d235e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:10 +0000
Subject: [PATCH 13/61] fix: tuning cache lines of the other field types
 carried an uninitialised number

---
 lib/propagator/propagator.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/propagator/propagator.cpp b/lib/propagator/propagator.cpp
index 6644e96..25dc78a 100755
--- a/lib/propagator/propagator.cpp
+++ b/lib/propagator/propagator.cpp
@@ -543,7 +543,7 @@ LogMsg (VERB_NORMAL, "Missing tuning cache file %s, will create a new one", tune
 		} else {
 			int	     rMpi, rThreads;
 			size_t       rLx, rLz, Nghost;
-			unsigned int rBx, rBy, rBz, fType, myField ;
+			unsigned int rBx, rBy, rBz, fType, myField = 4;
 			if      (field->Field() == FIELD_SAXION)
 				myField = 0;
 			else if (field->Field() == FIELD_AXION)
@@ -765,7 +765,7 @@ LogMsg (VERB_HIGH,   "[tp] Start tuning ... ");
 			}
 		}
 
-		unsigned int fType ;
+		unsigned int fType = 4;
 		if      (field->Field() == FIELD_SAXION)
 			fType = 0;
 		else if (field->Field() == FIELD_AXION)
-- 
2.43.0


From 1f4063c42cb6535a3b32e0befb4873ddcb591f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:57 +0000
Subject: [PATCH 14/61] fix: diagnostic text files that cannot be opened
 crashed rank 0

---
 lib/WKB/WKB.cpp     |  2 ++
 lib/fft/fftCode.cpp | 12 +++++++-----
 2 files changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/WKB/WKB.cpp b/lib/WKB/WKB.cpp
index 91e0b98..447466c 100644
--- a/lib/WKB/WKB.cpp
+++ b/lib/WKB/WKB.cpp
@@ -409,9 +409,11 @@ namespace AxionWKB {
 	char base[256];
 	sprintf(base, "out/lookup-%0.2f>%0.2f.txt", zIni,zEnd);
 	file_wk = fopen(base,"w+");
+	if (file_wk != NULL) {
 	for (size_t i=0; i<powMax; i++)
 		fprintf(file_wk,"%lf %lf\n",k2Table[i], superTable[i]);
 	fclose(file_wk);
+	}
 	}
 		tk::spline sss;
 		sss.set_points(k2Table,superTable);
diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index 0869994..bacddce 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -546,7 +546,7 @@ namespace AxionFFT {
 						fftwf_execute(static_cast<fftwf_plan>(planForward));
 						current = std::chrono::high_resolution_clock::now();
 						elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(current - start);
-						if (myRank == 0 ){
+						if (myRank == 0 && file_fft != NULL){
 							// fprintf(file_fft,"prec(single) dir(forward) plan(%s) type(%d) time(%f)\n", fftplanTypes, type, elapsed.count()*1.0);
 							fprintf(file_fft,"0 0 %d %f\n", type, elapsed.count()*1.0);
 							}
@@ -556,7 +556,7 @@ namespace AxionFFT {
 						fftwf_execute(static_cast<fftwf_plan>(planBackward));
 						current = std::chrono::high_resolution_clock::now();
 						elapsed = std::chrono::duration_cast<std::chrono::milliseconds>(current - start);
-						if (myRank == 0 ){
+						if (myRank == 0 && file_fft != NULL){
 							// fprintf(file_fft,"prec(single) dir(backwar) plan(%s) type(%d) time(%f)\n", fftplanTypes, type, elapsed.count()*1.0);
 							fprintf(file_fft,"0 1 %d %f\n", type, elapsed.count()*1.0);
 						}
@@ -588,7 +588,7 @@ namespace AxionFFT {
 				return;
 		}
 
-		if (myRank ==0)
+		if (myRank ==0 && file_fft != NULL)
 			fclose(file_fft);
 		LogFlush();
 		LogMsg (VERB_PARANOID, "Executing FFT %p -> %p done",pfrom,pto);
@@ -672,8 +672,10 @@ namespace AxionFFT {
 		file_fft = NULL;
 		if (commRank() ==0){
 			file_fft = fopen(outfftName,"w+");
-			fprintf(file_fft, "%s\n",fftplanTypes);
-			fclose(file_fft);
+			if (file_fft != NULL) {
+				fprintf(file_fft, "%s\n",fftplanTypes);
+				fclose(file_fft);
+			}
 		}
 
 		if (init == true) {
-- 
2.43.0


From 6c0f06f9d8ee7f11661c1253a741f0f8b1d1c972 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 15/61] fix: text attributes of HDF5 files overran their
 buffers or leaked stack bytes

---
 lib/io/readWrite.pHdf5.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 779a710..beb3c21 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -225,7 +225,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	hid_t	mSpace, vSpace, memSpace, dataType, totalSpace;
 	hsize_t	total, slice, slab, offset;
 
-	char	prec[16], fStr[16], lStr[16], rStr[16], dStr[16], vStr[32], vPQStr[32], icStr[16], smStr[16];
+	char	prec[32] = "", fStr[32] = "", lStr[32] = "", rStr[32] = "", dStr[32] = "", vStr[32] = "", vPQStr[32] = "", icStr[32] = "", smStr[32] = "";
 	int	length = 32;
 
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
@@ -762,7 +762,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		hid_t	attr_type;
 		hsize_t	slab, offset;
 		FieldPrecision	precision;
-		char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16];
+		char	prec[32] = "", fStr[32] = "", lStr[32] = "", icStr[32] = "", vStr[32] = "", vPQStr[32] = "", smStr[32] = "";
 		int	length = 32;
 		const hsize_t maxD[1] = { H5S_UNLIMITED };
 		size_t	dataSize;
@@ -1581,7 +1581,7 @@ void	createMeas (Scalar *axion, int index)
 {
 	hid_t	plist_id, dataType;
 
-	char	prec[16], fStr[16], lStr[16], icStr[16], vStr[32], vPQStr[32], smStr[16], dStr[16], rStr[16];
+	char	prec[32] = "", fStr[32] = "", lStr[32] = "", icStr[32] = "", vStr[32] = "", vPQStr[32] = "", smStr[32] = "", dStr[32] = "", rStr[32] = "";
 	int	length = 32;
 
 //	const hsize_t maxD[1] = { H5S_UNLIMITED };
-- 
2.43.0


From f59bfe30a1b6d6fc1f815e1826d5db4d685835cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 16/61] fix: the PQ potentials 2 and 3 of a configuration file
 were not recognised when read back

---
 lib/io/readWrite.pHdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index beb3c21..8d7f2a1 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1088,9 +1088,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "VPQ 1"))
 						vqcdType |= V_PQ1;
-					else if ( !strcmp(vStr, "VPQ2"))
+					else if ( !strcmp(vStr, "VPQ 2") || !strcmp(vStr, "VPQ2"))
 						vqcdType |= V_PQ2;
-					else if ( !strcmp(vStr, "VPQ3"))
+					else if ( !strcmp(vStr, "VPQ 3") || !strcmp(vStr, "VPQ3"))
 						vqcdType |= V_PQ3;
 					else {
 						LogError ("Error reading file %s: invalid PQ potential type %s. Use PQ1", base, vStr);
-- 
2.43.0


From 83f95d88ad77e792f671e0ff1f504f24c9f5af2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:20 +0000
Subject: [PATCH 17/61] fix: the restriction of the evolution to theta was lost
 in configuration files

---
 lib/io/readWrite.pHdf5.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 8d7f2a1..3e7920b 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -429,8 +429,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		caspr(V_NONE,dStr,"None")
 	}
 
-	switch (vqcdType & V_EVOL_RHO)	{
+	switch (vqcdType & V_EVOL)	{
 		caspr(V_EVOL_RHO,rStr,"Only Rho")
+		caspr(V_EVOL_THETA,rStr,"Only Theta")
 		default:
 		caspr(V_NONE,rStr,"Full")
 	}
@@ -1133,6 +1134,8 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 					if (!strcmp(vStr, "Only Rho"))
 						vqcdType |= V_EVOL_RHO;
+					else if (!strcmp(vStr, "Only Theta"))
+						vqcdType |= V_EVOL_THETA;
 					else if (!strcmp(vStr, "Full"))
 						vqcdType |= V_NONE;
 					else {
@@ -1734,8 +1737,9 @@ void	createMeas (Scalar *axion, int index)
 		caspr(V_NONE,dStr,"None")
 	}
 
-	switch (vqcdType & V_EVOL_RHO)	{
+	switch (vqcdType & V_EVOL)	{
 		caspr(V_EVOL_RHO,rStr,"Only Rho")
+		caspr(V_EVOL_THETA,rStr,"Only Theta")
 		default:
 		caspr(V_NONE,rStr,"Full")
 	}
-- 
2.43.0


From 9ff296734a86c86e381ee65b8b3a53ddfeef646e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 18/61] fix: a configuration file that cannot be opened left
 the field pointer undefined

---
 lib/io/readWrite.pHdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 3e7920b..5fb206d 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -797,7 +797,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 		if ((file_id = H5Fopen (base, H5F_ACC_RDONLY, plist_id)) < 0)
 		{
-			*axion == nullptr;
+			*axion = nullptr;
 			LogError ("Error opening file %s", base);
 			return;
 		}
@@ -5391,7 +5391,7 @@ double	readEDens (Cosmos *myCosmos, Scalar **axion, int index)
 	/*	Open the file and release the plist	*/
 	if ((file_id = H5Fopen (base, H5F_ACC_RDONLY, plist_id)) < 0)
 	{
-		*axion == nullptr;
+		*axion = nullptr;
 		LogError ("Error opening file %s", base);
 		return 0.0;
 	}
-- 
2.43.0


From 08f0a7705f591adc3e2a719e8bd64a980967fb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 19/61] fix: a run went on with a configuration whose data
 could not be read

---
 lib/io/readWrite.pHdf5.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 5fb206d..c1dce97 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1419,11 +1419,15 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 		/*	Open a dataset for the whole axion data	*/
 
-		if ((mset_id = H5Dopen (file_id, "/m", H5P_DEFAULT)) < 0)
+		if ((mset_id = H5Dopen (file_id, "/m", H5P_DEFAULT)) < 0) {
 			LogError ("Error opening dataset");
+			exit (1);
+		}
 
-		if ((vset_id = H5Dopen (file_id, "/v", H5P_DEFAULT)) < 0)
+		if ((vset_id = H5Dopen (file_id, "/v", H5P_DEFAULT)) < 0) {
 			LogError ("Error opening dataset");
+			exit (1);
+		}
 
 		memSpace = H5Screate_simple(1, &slab, NULL);	// Slab
 		mSpace   = H5Dget_space (mset_id);
@@ -1446,7 +1450,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 			if ((mErr < 0) || (vErr < 0)) {
 				LogError ("Error reading dataset from file");
-				return;
+				exit (1);
 			}
 		}
 
-- 
2.43.0


From 8da1da13d86fc3cd8d6498d84678dc8776d9b813 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 20/61] fix: a configuration that could not be written ended
 the run with status 0 or unnoticed

---
 lib/io/readWrite.pHdf5.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index c1dce97..cd01646 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -673,7 +673,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	if ((mset_id < 0) || (vset_id < 0))
 	{
 		LogError ("Error creating datasets");
-		exit (0);
+		exit (1);
 	}
 
 	/*	We read 2D slabs as a workaround for the 2Gb data transaction limitation of MPIO	*/
@@ -704,11 +704,11 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		if (mErr < 0)
 		{
 			LogError ("Error writing dataset");
-			exit(0);
+			exit (1);
 		}
 		if (axion->Field() != FIELD_NAXION)
 			if (vErr < 0){
-				LogError ("Error writing dataset"); exit(0);}
+				LogError ("Error writing dataset"); exit (1);}
 
 		//commSync();
 	}
@@ -726,7 +726,8 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	H5Pclose (chunk_id);
 	H5Sclose (totalSpace);
 	H5Pclose (plist_id);
-	H5Fclose (file_id);
+	if (H5Fclose (file_id) < 0)
+		LogError ("Error closing file %s, the configuration is incomplete", base);
 
 	prof.stop();
 	prof.add(std::string("Write configuration"), 0., (2.*total*dataSize + 81.)*1e-9);
-- 
2.43.0


From 9465a3e08b9ad153705a3d64cf7813b38bf4c983 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:36 +0000
Subject: [PATCH 21/61] fix: the expansion exponent of a configuration file and
 --frw were both ignored when reading it

---
 include/utils/parse.h      | 2 ++
 lib/io/readWrite.pHdf5.cpp | 6 +++++-
 lib/utils/parse.cpp        | 1 +
 3 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/utils/parse.h b/include/utils/parse.h
index bcfa1d5..953d43f 100644
--- a/include/utils/parse.h
+++ b/include/utils/parse.h
@@ -67,6 +67,8 @@ extern bool uPrec;
 //extern bool uPot;
 extern bool uZin;
 extern bool uZfn;
+extern bool uMI;
+extern bool uFR;
 extern bool aMod;
 extern bool spectral;
 extern bool fpectral;
diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index cd01646..ed2e957 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -866,7 +866,11 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			readAttribute (file_id, &fTmp,  "Frw",          H5T_NATIVE_DOUBLE);
 
 			// note: command line is given precedence
-			if (myCosmos->Frw() != fTmp) {
+			if (!uFR && !uMI) {
+				myCosmos->SetFrw(fTmp);
+				if (fTmp == 0.0)
+					myCosmos->SetMink(true);
+			} else if (myCosmos->Frw() != fTmp) {
 				LogMsg (VERB_NORMAL, "Commandline input for frw (%.2f) does not match h5read value (%.2f); frw set to input %.2f",myCosmos->Frw(),fTmp,myCosmos->Frw());
 				fTmp = myCosmos->Frw();
 				if (fTmp == 0.0 ){
diff --git a/lib/utils/parse.cpp b/lib/utils/parse.cpp
index fdc6d49..3f1a8f4 100755
--- a/lib/utils/parse.cpp
+++ b/lib/utils/parse.cpp
@@ -778,6 +778,7 @@ int	parseArgs (int argc, char *argv[])
 				printf("Warning: Contracting Universe?\n");
 			}
 
+			uFR = true;
 			PARSE2;
 		}
 
-- 
2.43.0


From 29bec2e7573e56b03c40368c1a0098067779adb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 22/61] fix: writing a restart file destroyed the previous one
 before the new one was complete

---
 lib/io/readWrite.pHdf5.cpp | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index ed2e957..92ebf41 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -274,7 +274,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	if (!restart)
 	sprintf(base, "%s/%s.%05d", outDir, outName, index);
 	else
-		sprintf(base, "%s/%s.restart", outDir, outName);
+		sprintf(base, "%s/%s.restart.tmp", outDir, outName);	// replaces the last restart file once it is complete
 
 	/*	Create the file and release the plist	*/
 	if ((file_id = H5Fcreate (base, H5F_ACC_TRUNC, H5P_DEFAULT, plist_id)) < 0)
@@ -726,8 +726,29 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	H5Pclose (chunk_id);
 	H5Sclose (totalSpace);
 	H5Pclose (plist_id);
+	int complete = 1;
+
 	if (H5Fclose (file_id) < 0)
+	{
 		LogError ("Error closing file %s, the configuration is incomplete", base);
+		complete = 0;
+	}
+
+	if (restart)
+	{
+		MPI_Allreduce(MPI_IN_PLACE, &complete, 1, MPI_INT, MPI_MIN, MPI_COMM_WORLD);
+
+		if (complete && (myRank == 0))
+		{
+			char last[256];
+			sprintf(last, "%s/%s.restart", outDir, outName);
+
+			if (rename(base, last) != 0)
+				LogError ("Error renaming %s to %s", base, last);
+		}
+
+		commSync();
+	}
 
 	prof.stop();
 	prof.add(std::string("Write configuration"), 0., (2.*total*dataSize + 81.)*1e-9);
-- 
2.43.0


From 0a97cd5ce85039142f35b889e81dc8383c53dc6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:48 +0000
Subject: [PATCH 23/61] fix: a restart file could replace the previous one
 before its data had reached the disk

---
 lib/io/readWrite.pHdf5.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 92ebf41..a1b1cdd 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -728,6 +728,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 	H5Pclose (plist_id);
 	int complete = 1;
 
+	if (restart && (H5Fflush (file_id, H5F_SCOPE_GLOBAL) < 0))	// on disk before it replaces the last one
+		complete = 0;
+
 	if (H5Fclose (file_id) < 0)
 	{
 		LogError ("Error closing file %s, the configuration is incomplete", base);
-- 
2.43.0


From 4b02e1d6cfd83f832cae10ca67fd8a509ae5b005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 24/61] fix: a configuration with missing or unreadable
 attributes was used with undefined parameters

---
 lib/io/readWrite.pHdf5.cpp | 55 +++++++++++++++++++++++++-------------
 1 file changed, 36 insertions(+), 19 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index a1b1cdd..4ede199 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -162,7 +162,7 @@ herr_t	readAttribute(hid_t file_id, void *data, const char *name, hid_t h5_type)
 	{
 		if ((status = H5Aread (attr, h5_type, data)) < 0)
 			LogError ("Error reading attribute %s", name);
-		status = H5Aclose(attr);
+		H5Aclose(attr);
 
 		if        (h5_type == H5T_NATIVE_HSIZE){
 				LogMsg (VERB_HIGH, "h5read attribute %s = %d", name, *(static_cast<size_t*>(data)));
@@ -834,6 +834,14 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		H5Tset_size (attr_type, length);
 		H5Tset_strpad (attr_type, H5T_STR_NULLTERM);
 
+		/* Attributes without which there is no configuration to go on with */
+
+		bool incomplete = false;
+		auto required = [&] (hid_t loc, void *data, const char *name, hid_t type) {
+			if (readAttribute (loc, data, name, type) < 0)
+				incomplete = true;
+		};
+
 		//	GRID PARAMETERS
 		//  --------------
 		//  (do not change, except precision, which does automatically)
@@ -844,10 +852,10 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 			uint ux_read;
 			uint uz_read;
-			readAttribute (file_id, fStr,   "Field type",   attr_type);
-			readAttribute (file_id, &ux_read, "Size",         H5T_NATIVE_UINT);
-			readAttribute (file_id, &uz_read, "Depth",        H5T_NATIVE_UINT);
-			readAttribute (file_id, prec,   "Precision",    attr_type);
+			required (file_id, fStr,   "Field type",   attr_type);
+			required (file_id, &ux_read, "Size",         H5T_NATIVE_UINT);
+			required (file_id, &uz_read, "Depth",        H5T_NATIVE_UINT);
+			required (file_id, prec,   "Precision",    attr_type);
 			size_t Nx_read = (size_t) ux_read;
 			size_t Nz_read = (size_t) uz_read;
 
@@ -863,7 +871,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 			/* conformal time now (ADM units) */
 
-			readAttribute (file_id, &zTmp,  "z",            H5T_NATIVE_DOUBLE);
+			required (file_id, &zTmp,  "z",            H5T_NATIVE_DOUBLE);
 			readAttribute (file_id, &RTmp,  "R",            H5T_NATIVE_DOUBLE);
 
 			// note: Field will be created with z=zTmp, R = R(z)
@@ -875,19 +883,19 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 			/* initial time of the read simulation */
 
-			readAttribute (file_id, &zInit, "zInitial", H5T_NATIVE_DOUBLE);
+			required (file_id, &zInit, "zInitial", H5T_NATIVE_DOUBLE);
 
 			/* final, stopping time  */
 
 			if (!uZfn) {
-				readAttribute (file_id, &zFinl,  "zFinal",  H5T_NATIVE_DOUBLE);
+				required (file_id, &zFinl,  "zFinal",  H5T_NATIVE_DOUBLE);
 			} else {
 				LogMsg (VERB_NORMAL, "zFinal (commandline): %f",zFinl);
 			}
 
 			/* expansion parameter; cosmology, R = z^frw  */
 
-			readAttribute (file_id, &fTmp,  "Frw",          H5T_NATIVE_DOUBLE);
+			required (file_id, &fTmp,  "Frw",          H5T_NATIVE_DOUBLE);
 
 			// note: command line is given precedence
 			if (!uFR && !uMI) {
@@ -908,7 +916,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			// note: if no value is read in commandline, PhysSize() gives 0
 			if (myCosmos->PhysSize() == 0.0) {
 				double lSize;
-				readAttribute (file_id, &lSize, "Physical size", H5T_NATIVE_DOUBLE);
+				required (file_id, &lSize, "Physical size", H5T_NATIVE_DOUBLE);
 				myCosmos->SetPhysSize(lSize);
 			} else {
 				LogMsg (VERB_NORMAL, "PhysSize (commandline): %f", myCosmos->PhysSize());
@@ -922,11 +930,11 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			if (restart)
 			{
 
-				readAttribute (file_id, &fIndex, "index", H5T_NATIVE_INT);
+				required (file_id, &fIndex, "index", H5T_NATIVE_INT);
 				LogOut(" Reading index is %d\n",fIndex);
 				LogMsg (VERB_NORMAL, "RESTART RUN! index %d\n",fIndex);
-				readAttribute (file_id, &zInit, "zInitial", H5T_NATIVE_DOUBLE);
-				readAttribute (file_id, &zTmp,  "z",        H5T_NATIVE_DOUBLE);
+				required (file_id, &zInit, "zInitial", H5T_NATIVE_DOUBLE);
+				required (file_id, &zTmp,  "z",        H5T_NATIVE_DOUBLE);
 				LogOut("Reading zTmp = %f, zInit=%f \n",zTmp,zInit);
 				LogMsg (VERB_NORMAL, "Reading zTmp = %f, zInit=%f \n",zTmp,zInit);
 			}
@@ -940,6 +948,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			/*	Open potential group	*/
 			auto status = H5Lexists (file_id, "/potential", H5P_DEFAULT);
 
+			if (status < 0)
+				incomplete = true;
+
 			if (status <= 0)
 				LogMsg(VERB_NORMAL, "Potential data not available, using defaults");
 			else
@@ -956,7 +967,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 				// note: if no value is read in commandline, QcdExp() gives -1.e8
 				if (myCosmos->QcdExp() == -1.e8) {
 					double nQcd;
-					readAttribute (vGrp_id, &nQcd,  "nQcd",	  H5T_NATIVE_DOUBLE);
+					required (vGrp_id, &nQcd,  "nQcd",	  H5T_NATIVE_DOUBLE);
 					myCosmos->SetQcdExp(nQcd);
 					double nQcd2;
 					herr_t test = readAttribute (vGrp_id, &nQcd2,  "nQcd2",	  H5T_NATIVE_DOUBLE);
@@ -974,7 +985,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 				// note: if no value is read in commandline, Indi3() gives -1.e8
 				if (myCosmos->Indi3() == -1.e8) {
 					double indi3;
-					readAttribute (vGrp_id, &indi3, "Indi3", H5T_NATIVE_DOUBLE);
+					required (vGrp_id, &indi3, "Indi3", H5T_NATIVE_DOUBLE);
 					myCosmos->SetIndi3(indi3);
 				} else
 					LogMsg (VERB_NORMAL, "Indi3 (commandline) = %.2f",myCosmos->Indi3());
@@ -984,7 +995,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 				if (myCosmos->ZThRes() == -1.e8) {
 					double zthrs;
-					readAttribute (vGrp_id, &zthrs, "z Threshold", H5T_NATIVE_DOUBLE);
+					required (vGrp_id, &zthrs, "z Threshold", H5T_NATIVE_DOUBLE);
 					myCosmos->SetZThRes(zthrs);
 				} else
 					LogMsg (VERB_NORMAL, "z Threshold (commandline) = %.3e",myCosmos->ZThRes());
@@ -993,7 +1004,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 
 				if (myCosmos->ZRestore() == -1.e8) {
 					double zrest;
-					readAttribute (vGrp_id, &zrest, "z Restore", H5T_NATIVE_DOUBLE);
+					required (vGrp_id, &zrest, "z Restore", H5T_NATIVE_DOUBLE);
 					myCosmos->SetZRestore(zrest);
 				} else
 					LogMsg (VERB_NORMAL, "z Restore (commandline) = %.3e",myCosmos->ZRestore());
@@ -1020,7 +1031,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 				if (myCosmos->Lambda() == -1.e8) {
 					double	lda, lz2e;
 
-					readAttribute (vGrp_id, &lda,   "Lambda",      H5T_NATIVE_DOUBLE);
+					required (vGrp_id, &lda,   "Lambda",      H5T_NATIVE_DOUBLE);
 					myCosmos->SetLambda(lda);
 
 					readAttribute (vGrp_id, &lStr,  "Lambda type", attr_type);
@@ -1057,7 +1068,7 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 				bool damping = false;
 				if (myCosmos->Gamma() == -1.e8) {
 					double gm;
-					readAttribute (vGrp_id, &gm, "Gamma", H5T_NATIVE_DOUBLE);
+					required (vGrp_id, &gm, "Gamma", H5T_NATIVE_DOUBLE);
 					myCosmos->SetGamma(gm);
 				}
 				else{
@@ -1279,6 +1290,12 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		/* we do not need this anymore */
 		H5Tclose (attr_type);
 
+		if (incomplete)
+		{
+			LogError ("Error reading file %s: the configuration is incomplete", base);
+			exit(1);
+		}
+
 
 			//    PRECISION
 			//    ---------
-- 
2.43.0


From 067a48e8bb3e880f9cc20be74ff48cbe38654cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:00 +0000
Subject: [PATCH 25/61] fix: datasets of another size than the configuration
 announces were read in part

---
 lib/io/readWrite.pHdf5.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 4ede199..24197cd 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1479,6 +1479,11 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 		mSpace   = H5Dget_space (mset_id);
 		vSpace   = H5Dget_space (vset_id);
 
+		if ((H5Sget_simple_extent_npoints(mSpace) != (hssize_t) (slab*Nz_read)) || (H5Sget_simple_extent_npoints(vSpace) != (hssize_t) (slab*Nz_read))) {
+			LogError ("Error reading file %s: the size of the datasets is not that of the configuration", base);
+			exit (1);
+		}
+
 		for (hsize_t zDim = 0; zDim < Nz ; zDim++)
 		{
 
-- 
2.43.0


From 617eb6990b07a71f43a8864136c0536bd2f62cb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:20 +0000
Subject: [PATCH 26/61] fix: a rank that could not read its data went on to the
 next collective read

---
 lib/io/readWrite.pHdf5.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 24197cd..c41fbe9 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1497,9 +1497,9 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			/*	Read raw data	*/
 
 			auto mErr = H5Dread (mset_id, dataType, memSpace, mSpace, plist_id, (static_cast<char *> ((*axion)->mStart())+slab*zDim*dataSize));
-			auto vErr = H5Dread (vset_id, dataType, memSpace, vSpace, plist_id, (static_cast<char *> ((*axion)->vStart())+slab*zDim*dataSize));
 
-			if ((mErr < 0) || (vErr < 0)) {
+			// no collective call can follow the one that failed on this rank
+			if ((mErr < 0) || (H5Dread (vset_id, dataType, memSpace, vSpace, plist_id, (static_cast<char *> ((*axion)->vStart())+slab*zDim*dataSize)) < 0)) {
 				LogError ("Error reading dataset from file");
 				exit (1);
 			}
-- 
2.43.0


From 10102ffc20a5e9075de6d94d0ff62fc114e8a8c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:31 +0000
Subject: [PATCH 27/61] fix: an attribute that could not be written crashed the
 run while reporting it

---
 lib/io/readWrite.pHdf5.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index c41fbe9..5b5590e 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -63,7 +63,7 @@ herr_t	writeAttribute(hid_t file_id, void *data, const char *name, hid_t h5_type
 	if ((attr    = H5Acreate2 (file_id, name, h5_type, attr_id, H5P_DEFAULT, H5P_DEFAULT)) < 0)
 		LogError ("Error creating attribute %s", name);
 	if ((status  = H5Awrite (attr, h5_type, data)) < 0)
-		LogError ("Error writing attribute %s to file");
+		LogError ("Error writing attribute %s to file", name);
 	H5Sclose (attr_id);
 	H5Aclose (attr);
 
-- 
2.43.0


From dcfc526918bc34e35c691905a243a4370fe97e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 28/61] fix: the logger crashed the run or lost messages when
 its threads met

The stack of messages was pushed to by the OMP threads and the main thread
while the detached flushing thread sorted, printed and cleared it, with only a
non atomic flag in between, and that thread made MPI calls although MPI is
initialized as funneled. A mutex guards the stack now, the flushing thread
does no communication and it is joined before MPI is shut down.
---
 include/utils/logger.h | 50 ++++++++++++++++++++++--------------------
 1 file changed, 26 insertions(+), 24 deletions(-)

diff --git a/include/utils/logger.h b/include/utils/logger.h
index e643cd4..a4aed8c 100644
--- a/include/utils/logger.h
+++ b/include/utils/logger.h
@@ -12,6 +12,8 @@
 	#include<cstddef>
 	#include<algorithm>
 	#include<thread>
+	#include<mutex>
+	#include<atomic>
 
 	#include<cstdarg>
 	#include<cstring>
@@ -121,8 +123,9 @@
 				const LogMpi		mpiType;
 				std::vector<Msg>	msgStack;
 				const VerbosityLevel	verbose;
-				bool			logRunning;
-				volatile bool		logWriting ;
+				std::atomic<bool>	logRunning;
+				std::thread		flusher;
+				std::mutex		logMutex;	// Guards the stack and the file, shared with the flusher and the OMP threads
 
 				void	printMsg	(const Msg &myMsg) noexcept {
 					if (myMsg.time(logStart)/1000 < 1000000) {
@@ -142,32 +145,24 @@
 					if (omp_get_thread_num() != 0)
 						return;
 
-					while (logWriting == true);
-
-					logWriting = true;
 					auto it = msgStack.cbegin();
 
 					if (it != msgStack.cend()) {
 						printMsg(*it);
 						msgStack.erase(it);
 					}
-					logWriting = false;
 				}
 
 				void	flushStack	() noexcept {
 					if (omp_get_thread_num() != 0)
 						return;
 
-					while (logWriting == true);
-
-					logWriting = true;
 					std::sort(msgStack.begin(), msgStack.end(), [logStart = logStart](Msg a, Msg b) { return (a.time(logStart) < b.time(logStart)); } );
 
 					for (auto it = msgStack.cbegin(); it != msgStack.cend(); it++)
 						printMsg(*it);
 
 					msgStack.clear();
-					logWriting = false;
 				}
 
 				void	flushDisk	() {
@@ -199,7 +194,6 @@
 							MPI_Recv(packed, mSize, MPI_CHAR, srcRank, level, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
 							//Msg msg(static_cast<void*>(packed));
 							// Put the message in the stack
-							while (logWriting == true) {}
 							//msgStack.push_back(std::move(msg));
 							msgStack.emplace_back(static_cast<void*>(packed));
 							msgPending = true;
@@ -211,10 +205,7 @@
 
 			public:
 				 Logger(const int index, const LogMpi mpiType, const VerbosityLevel verbosity) : mpiType(mpiType), verbose(verbosity) {
-
-					 /* LogWriting is created false to avoid inf-loops */
-					 // printf("Rank %d Logger started %s\n", commRank(), logWriting ? "true" : "false" );
-					logWriting = false ;
+					logRunning = false;
 
 					bool			test;
 					struct stat		buffer;
@@ -239,24 +230,33 @@
 						oFile.open(ss.str().c_str(), std::ofstream::out);
 						banner();
 
-						std::thread([&](){
+						// MPI is initialized as funneled, so this thread only moves the stack to the disk
+						flusher = std::thread([&](){
 							while (logRunning) {
 								std::this_thread::sleep_for(std::chrono::microseconds(logFreq));
-								flushLog();
+								std::lock_guard<std::mutex> lock(logMutex);
+								flushStack();
+								flushDisk();
 							}
-						}).detach();
+						});
 					}
 
 				}
 
 				// Stops logger in preparation for an MPI shutdown
-				void	stop		() { logRunning = false; usleep(logFreq); }
+				void	stop		() {
+					logRunning = false;
+					if (flusher.joinable())
+						flusher.join();
+				}
 
 				// Receives pending MPI messages and flushes them to disk
 				void	flushLog	() {
 					if (omp_get_thread_num() != 0)
 						return;
 
+					std::lock_guard<std::mutex> lock(logMutex);
+
 					// Get all the messages
 					if (mpiType == ALL_RANKS) {
 						getMpiMsg (LOG_MSG);
@@ -269,6 +269,8 @@
 
 				~Logger()
 				{
+					stop();
+
 					int noMpi;
 					MPI_Finalized(&noMpi);
 					if (noMpi == 0)
@@ -277,10 +279,8 @@
 					// 	printf("rank %d MPI not finalised\n ",commRank());
 
 					if (commRank()==0)
-						{ stop();
-							oFile.close();
-						}
-					}
+						oFile.close();
+				}
 
 				auto	runTime() {
 					auto	cTime = std::chrono::high_resolution_clock::now();
@@ -300,6 +300,8 @@
 					if (mpiType == ZERO_RANK && myRank != 0)
 						return;
 
+					std::lock_guard<std::mutex> lock(logMutex);
+
 					switch	(level) {
 
 						case	LOG_MSG:
@@ -331,7 +333,7 @@
 						}
 					}
 
-					if (mpiLogger) {	// If we are using MPI
+					if (mpiLogger && omp_get_thread_num() == 0) {	// If we are using MPI, only the main thread can call it
 						if (myRank == 0) {
 							// Get all the pending error messages. If found any, prepare to flush the stack
 							if (getMpiMsg (LOG_ERROR))	// We use this if not to overwrite mustFlush
-- 
2.43.0


From 7856b26015dd55fa84bf87babb4cd37cc6f9f4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 29/61] fix: log messages being sent to rank 0 were moved or
 overwritten in flight

Erasing from the middle of the stack, or growing it, copied the messages
without their MPI request, so those behind were sent twice and the buffers of
the pending sends were reused or freed. A list leaves them where they are.
---
 include/utils/logger.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/utils/logger.h b/include/utils/logger.h
index a4aed8c..45e9fd7 100644
--- a/include/utils/logger.h
+++ b/include/utils/logger.h
@@ -7,6 +7,7 @@
 	#include<fstream>
 	#include<iomanip>
 	#include<vector>
+	#include<list>
 	#include<chrono>
 	#include<memory>
 	#include<cstddef>
@@ -121,7 +122,7 @@
 				std::chrono::time_point<std::chrono::high_resolution_clock> logStart;
 				std::ofstream		oFile;
 				const LogMpi		mpiType;
-				std::vector<Msg>	msgStack;
+				std::list<Msg>		msgStack;	// A list, so messages being sent are never moved
 				const VerbosityLevel	verbose;
 				std::atomic<bool>	logRunning;
 				std::thread		flusher;
@@ -157,7 +158,7 @@
 					if (omp_get_thread_num() != 0)
 						return;
 
-					std::sort(msgStack.begin(), msgStack.end(), [logStart = logStart](Msg a, Msg b) { return (a.time(logStart) < b.time(logStart)); } );
+					msgStack.sort([logStart = logStart](const Msg &a, const Msg &b) { return (a.time(logStart) < b.time(logStart)); } );
 
 					for (auto it = msgStack.cbegin(); it != msgStack.cend(); it++)
 						printMsg(*it);
-- 
2.43.0


From 9a6f0a36aed27462f2091b4c44b2d6edc23a6ade Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:44 +0000
Subject: [PATCH 30/61] fix: a log message longer than its buffer read beyond
 it, or stopped the run

---
 include/utils/logger.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/utils/logger.h b/include/utils/logger.h
index 45e9fd7..b9043c6 100644
--- a/include/utils/logger.h
+++ b/include/utils/logger.h
@@ -58,6 +58,9 @@
 					size = vsnprintf (buffer, MSG_SIZE - 1 - basePack, format, args);
 					va_end (args);
 
+					// vsnprintf returns the length of the whole message, even if it did not fit
+					size = std::max(0, std::min(size, (int) (MSG_SIZE - 2 - basePack)));
+
 					data.assign(buffer, size);
 
 					timestamp = std::chrono::high_resolution_clock::now();
-- 
2.43.0


From 06380360e459420ba80528d563c99e5ef6299327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:17 +0000
Subject: [PATCH 31/61] fix: log messages of the other ranks were lost at
 LogFlush and at the end

Flushing the log on a rank other than zero cleared its stack, printing it to a
file that it never opens, and nobody collected what was still on its way when
the program finished. They keep their messages until they are sent, and all of
them are collected before MPI is finalized.
---
 include/utils/logger.h | 44 +++++++++++++++++++++++++++++++++++++++++-
 lib/comms/comms.cpp    |  1 +
 2 files changed, 44 insertions(+), 1 deletion(-)

diff --git a/include/utils/logger.h b/include/utils/logger.h
index b9043c6..c1da213 100644
--- a/include/utils/logger.h
+++ b/include/utils/logger.h
@@ -129,6 +129,7 @@
 				const VerbosityLevel	verbose;
 				std::atomic<bool>	logRunning;
 				std::thread		flusher;
+				long long int		nMpi;		// Number of messages sent to rank 0, or received by it
 				std::mutex		logMutex;	// Guards the stack and the file, shared with the flusher and the OMP threads
 
 				void	printMsg	(const Msg &myMsg) noexcept {
@@ -200,6 +201,7 @@
 							// Put the message in the stack
 							//msgStack.push_back(std::move(msg));
 							msgStack.emplace_back(static_cast<void*>(packed));
+							nMpi++;
 							msgPending = true;
 						}
 					}	while (flag);
@@ -210,6 +212,7 @@
 			public:
 				 Logger(const int index, const LogMpi mpiType, const VerbosityLevel verbosity) : mpiType(mpiType), verbose(verbosity) {
 					logRunning = false;
+					nMpi       = 0;
 
 					bool			test;
 					struct stat		buffer;
@@ -261,6 +264,10 @@
 
 					std::lock_guard<std::mutex> lock(logMutex);
 
+					// The other ranks do not print, they keep their messages until they are sent
+					if (commRank() != 0)
+						return;
+
 					// Get all the messages
 					if (mpiType == ALL_RANKS) {
 						getMpiMsg (LOG_MSG);
@@ -271,6 +278,38 @@
 					flushDisk();
 				}
 
+				// Makes sure that the messages of all the ranks reach rank 0, must be called by all the ranks
+				void	drain	() {
+					if (mpiType != ALL_RANKS || commSize() == 1)
+						return;
+
+					std::lock_guard<std::mutex> lock(logMutex);
+
+					long long int	total = 0;
+
+					if (commRank() != 0)
+						for (auto &msg : msgStack)
+							if (msg.mpiReq() == MPI_REQUEST_NULL) {
+								MPI_Isend(msg.pack(), msg.msg().length() + basePack, MPI_CHAR, 0, LOG_MSG, MPI_COMM_WORLD, &msg.mpiReq());
+								nMpi++;
+							}
+
+					long long int	mine  = (commRank() == 0) ? 0 : nMpi;
+					MPI_Reduce(&mine, &total, 1, MPI_LONG_LONG_INT, MPI_SUM, 0, MPI_COMM_WORLD);
+
+					if (commRank() == 0) {
+						while (nMpi < total) {
+							getMpiMsg (LOG_MSG);
+							getMpiMsg (LOG_ERROR);
+						}
+					} else {
+						for (auto &msg : msgStack)
+							MPI_Wait(&msg.mpiReq(), MPI_STATUS_IGNORE);
+
+						msgStack.clear();
+					}
+				}
+
 				~Logger()
 				{
 					stop();
@@ -347,8 +386,10 @@
 							if (level == LOG_ERROR) {
 								for (auto it = msgStack.begin(); it != msgStack.end();) {
 									MPI_Request& req = it->mpiReq();
-									if (req == MPI_REQUEST_NULL)
+									if (req == MPI_REQUEST_NULL) {
 										MPI_Isend(it->pack(), it->msg().length() + basePack, MPI_CHAR, 0, level, MPI_COMM_WORLD, &req);
+										nMpi++;
+									}
 									MPI_Wait(&req, MPI_STATUS_IGNORE);
 									it = msgStack.erase(it);
 								}
@@ -360,6 +401,7 @@
 									MPI_Request& req = it->mpiReq();
 									if (req == MPI_REQUEST_NULL) {
 										MPI_Isend(it->pack(), it->msg().length() + basePack, MPI_CHAR, 0, level, MPI_COMM_WORLD, &req);
+										nMpi++;
 										it++;
 									} else {
 										MPI_Test(&req, &flag, MPI_STATUS_IGNORE);
diff --git a/lib/comms/comms.cpp b/lib/comms/comms.cpp
index b97950a..d6ff3db 100644
--- a/lib/comms/comms.cpp
+++ b/lib/comms/comms.cpp
@@ -249,6 +249,7 @@ int	initComms (int argc, char *argv[], int size, DeviceType dev, LogMpi logMpi,
 void	endComms()
 {
 	AxionsLog::myLog->stop();
+	AxionsLog::myLog->drain();
 	AxionsLog::myLog->flushLog();
 	MPI_Barrier(MPI_COMM_WORLD);
 	MPI_Finalize();
-- 
2.43.0


From 2088749d0e1af53aa84d5bd7b58e58ae1da0bb4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:06 +0000
Subject: [PATCH 32/61] fix: reducing an axion field overwrote the field itself
 instead of filling the reduced one

---
 lib/reducer/reducer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/reducer/reducer.cpp b/lib/reducer/reducer.cpp
index 2153335..c5b0f21 100755
--- a/lib/reducer/reducer.cpp
+++ b/lib/reducer/reducer.cpp
@@ -262,7 +262,7 @@ Scalar*	Reducer<Float>::runCpu	()
 				memcpy(mD, fOut, volData);
 			} else {
 				// Copy m to the second axionField
-				memcpy(mIn, fOut, volData);
+				memcpy(outField->mStart(), fOut, volData);
 			}
 
 			transformField<Float,complex<Float>,Float,true>(vIn, fMid, fOut, "pSpecAx");
-- 
2.43.0


From d4ceabeb8692be3a64c88a111a235cd61dbc9e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 33/61] fix: the velocity was filtered with y and z
 interchanged when a saxion field is reduced

---
 lib/fft/fftCode.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/fft/fftCode.cpp b/lib/fft/fftCode.cpp
index bacddce..5f6ac1f 100755
--- a/lib/fft/fftCode.cpp
+++ b/lib/fft/fftCode.cpp
@@ -216,10 +216,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftwf_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
@@ -417,10 +417,10 @@ namespace AxionFFT {
 						}
 
 						if (dFft & FFT_FWD)
-							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType));
+							planForward  = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, v,  m2, MPI_COMM_WORLD, FFTW_FORWARD,  fftplanType | FFTW_MPI_TRANSPOSED_OUT));
 
 						if (dFft & FFT_BCK)
-							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType));
+							planBackward = static_cast<void *>(fftw_mpi_plan_dft_3d(Lz, Lx, Lx, m2, m2, MPI_COMM_WORLD, FFTW_BACKWARD, fftplanType | FFTW_MPI_TRANSPOSED_IN));
 						break;
 
 					case	FFT_SPAX:
-- 
2.43.0


From c9883b917edc10818b28d355057a9a22221e39e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:10 +0000
Subject: [PATCH 34/61] fix: fields expanded by a non-integer factor, or by
 other factors in z, were extrapolated and raced

---
 include/utils/simpleops.h | 22 ++++++++++------------
 1 file changed, 10 insertions(+), 12 deletions(-)

diff --git a/include/utils/simpleops.h b/include/utils/simpleops.h
index b5f4507..6467e84 100644
--- a/include/utils/simpleops.h
+++ b/include/utils/simpleops.h
@@ -193,7 +193,8 @@
 		Lmin = ceil(n*N'/N)
 		Lmax = floor((n+1)*N'/N)
 		*/
-		double r = ((double) nx)/((double) Nx);
+		double r  = ((double) nx)/((double) Nx);
+		double rZ = ((double) nz)/((double) Nz);
 
 		#pragma omp parallel default(shared)
 		{
@@ -206,14 +207,13 @@
 			double dx, dy, dz;
 			#pragma omp for schedule(static)
 			for (size_t riz = 0; riz < nz; riz++) {
-			 iz0 = (riz*Nz)/nz;
-			 izM = ((riz+1)*Nz)/nz;
-			 if ((riz+1)*Nz % nz ==0) izM--;
+			 // the points of the extended grid in this cell: riz <= iz*nz/Nz < riz+1
+			 iz0 = (riz*Nz + nz - 1)/nz;
+			 izM = ((riz+1)*Nz - 1)/nz;
 
 			 for (size_t riy = 0; riy < nx; riy++) {
-				iy0 = (riy*Nx)/nx;
-				iyM = ((riy+1)*Nx)/nx;
-                                if ((riy+1)*Nx % nx ==0) iyM--;
+				iy0 = (riy*Nx + nx - 1)/nx;
+				iyM = ((riy+1)*Nx - 1)/nx;
 				for (size_t rix = 0; rix < nx; rix++) {
 					rpx = (rix+1) % nx;
 					rpy = (riy+1) % nx;
@@ -235,14 +235,12 @@
 					// if (riz*Nz % nz) iz0++;
 					//iy0 = (riy*Nx)/nx;
 					// if (riy*Nx % nx) iy0++;
-					ix0 = (rix*Nx)/nx;
-					// if (rix*Nx % nx) ix0++;
+					ix0 = (rix*Nx + nx - 1)/nx;
 					//izM = ((riz+1)*Nz)/nz;
 					//if ((riz+1)*Nz % nz ==0) izM--;
 					//iyM = ((riy+1)*Nx)/nx;
 					//if ((riy+1)*Nx % nx ==0) iyM--;
-					ixM = ((rix+1)*Nx)/nx;
-					if ((rix+1)*Nz % nx ==0) ixM--;
+					ixM = ((rix+1)*Nx - 1)/nx;
 
 
 					for (size_t iz = iz0; iz <= izM; iz++) {
@@ -252,7 +250,7 @@
 
 								dx = r*ix - ((double) rix);
 								dy = r*iy - ((double) riy);
-								dz = r*iz - ((double) riz);
+								dz = rZ*iz - ((double) riz);
 
 
 								s[ix+Nx*(iy+Nx*iz)] =
-- 
2.43.0


From c748341003eb087b098e7bae444f37daa3625036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:57 +0000
Subject: [PATCH 35/61] fix: a configuration reduced while it is read was
 zeroed by the planning of the FFTs

---
 lib/io/readWrite.pHdf5.cpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index 5b5590e..f65bb5f 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -1603,9 +1603,19 @@ void	writeConf (Scalar *axion, int index, const bool restart)
 			AxionFFT::removePlan("SpSx");
 			AxionFFT::removePlan("RdSxV");
 			LogMsg(VERB_NORMAL, "[rc] 3 - insert plans for correct size axion");
+			// Planning overwrites the arrays, keep the reduced field meanwhile
+			size_t redBytes = (*axion)->Size()*(*axion)->DataSize();
+			std::vector<char> mRed(redBytes), vRed(redBytes);
+			memcpy(mRed.data(), (*axion)->mStart(), redBytes);
+			memcpy(vRed.data(), (*axion)->vStart(), redBytes);
 			AxionFFT::initPlan (*axion, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
-			AxionFFT::initPlan (*axion, FFT_SPSX,       FFT_FWDBCK,     "SpSx");
-			AxionFFT::initPlan (*axion, FFT_RDSX_V,     FFT_FWDBCK,    "RdSxV");
+			// As in the constructor, an axion field has no room for the plans of the saxion
+			if ((*axion)->Field() == FIELD_SAXION) {
+				AxionFFT::initPlan (*axion, FFT_SPSX,       FFT_FWDBCK,     "SpSx");
+				AxionFFT::initPlan (*axion, FFT_RDSX_V,     FFT_FWDBCK,    "RdSxV");
+			}
+			memcpy((*axion)->mStart(), mRed.data(), redBytes);
+			memcpy((*axion)->vStart(), vRed.data(), redBytes);
 			LogMsg(VERB_NORMAL, "[rc] 4 - Reduction complete!");
 			// LogMsg(VERB_NORMAL, "[rc] 8 - Remove auxion");
 			// delete auxion; kkils the FFTs do not use!
-- 
2.43.0


From 1d5ffbf720ed01a5379c503c3d1545e85f1b0d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:32 +0000
Subject: [PATCH 36/61] fix: the linear potential spectrum of the saxion takes
 the phase, not its complement

---
 lib/utils/kgvops.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/utils/kgvops.cpp b/lib/utils/kgvops.cpp
index 510f51f..6e68388 100644
--- a/lib/utils/kgvops.cpp
+++ b/lib/utils/kgvops.cpp
@@ -912,7 +912,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_FLAT:
 								// m2sa[odx]  = Rscale*std::sqrt(2*(1-da[0]/std::sqrt(da[0]*da[0]+da[1]*da[1])));
 								m2sa[odx]  = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = Rscale   * std::atan2(da[0],da[1]);
+								m2sax[odx] = Rscale   * std::atan2(da[1],da[0]);
 							break;
 					case SPMASK_REDO:
 					case SPMASK_BALL:
@@ -921,7 +921,7 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 										m2sax[odx]= 0 ; }
 								else {
 										m2sa[odx] = 2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-										m2sax[odx] = Rscale*std::atan2(da[0],da[1]); }
+										m2sax[odx] = Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_GAUS:
 					case SPMASK_DIFF:
@@ -931,12 +931,12 @@ void buildc_v(Scalar *field, PadIndex pi, Float zaskaFF)
 					case SPMASK_VIL: {
 								Float mskk = std::sqrt(da[0]*da[0]+da[1]*da[1])/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 					case SPMASK_VIL2: {
 								Float mskk = (da[0]*da[0]+da[1]*da[1])/Rscale/Rscale;
 								m2sa[odx]  = mskk*2.*Rscale * std::sin(0.5*std::atan2(da[1],da[0]));
-								m2sax[odx] = mskk*Rscale*std::atan2(da[0],da[1]); }
+								m2sax[odx] = mskk*Rscale*std::atan2(da[1],da[0]); }
 							break;
 				} //end mask
 			}
-- 
2.43.0


From 58433e2faf656fd950ec72ae3ced469d29d94b13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:40 +0000
Subject: [PATCH 37/61] fix: the fast potential spectrum masks the site it
 measures

---
 lib/spectrum/spectrum.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index a35c7c5..0211d44 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -1205,7 +1205,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 					#pragma omp parallel for schedule(static)
 					for (size_t iz=0; iz < Lz; iz++) {
 						size_t zo = Ly*(Ly+2)*iz ;
-						size_t zi = Ly*Ly*iz ;
+						size_t zi = LyLy*(iz+1) ;
 						size_t zp = Ly*Ly*(iz+1) ;
 						for (size_t iy=0; iy < Ly; iy++) {
 							size_t yo = (Ly+2)*iy ;
@@ -1225,7 +1225,7 @@ void	SpecBin::nRun	(nRunType nrt) {
 											m2sa[odx] = mass*Rscale*std::arg(ma[idx]-zaskaF);
 											break;
 									case SPMASK_REDO:
-											if (strdaa[idx] & STRING_MASK){
+											if (strdaa[idx-LyLy] & STRING_MASK){
 													m2sa[odx] = 0 ;
 											}
 											else{
-- 
2.43.0


From b58e610ff9b10282f3a1cc76a45ac89f9cfb9791 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 38/61] fix: 2D energy maps of slices held by other ranks read
 beyond the local slab

---
 lib/io/readWrite.pHdf5.cpp | 16 ++++++----------
 1 file changed, 6 insertions(+), 10 deletions(-)

diff --git a/lib/io/readWrite.pHdf5.cpp b/lib/io/readWrite.pHdf5.cpp
index f65bb5f..7cac68d 100644
--- a/lib/io/readWrite.pHdf5.cpp
+++ b/lib/io/readWrite.pHdf5.cpp
@@ -4109,7 +4109,10 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 	const hsize_t maxD[1] = { H5S_UNLIMITED };
 	hsize_t slb  = axion->Surf();
 	hsize_t lSz  = axion->Length();
-	char *dataE  = static_cast<char *>(axion->m2Cpu()) + dataSize*axion->Surf()*slicenumbertoprint;
+	/* slice in the rank that prints it */
+	int slicenumber = slicenumbertoprint % axion->Depth();
+	int prank       = slicenumbertoprint / axion->Depth();
+	char *dataE  = static_cast<char *>(axion->m2Cpu()) + dataSize*axion->Surf()*slicenumber;
 	// char eCh[16] = dataname;
 
 	LogMsg (VERB_NORMAL, "[wem] Writing 2D energy map to Hdf5 measurement file");
@@ -4145,13 +4148,6 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 		dataType = H5T_NATIVE_FLOAT;
 	}
 
-	int slicenumber = slicenumbertoprint ;
-	if (slicenumbertoprint > axion->Depth())
-	{
-		LogMsg (VERB_NORMAL, "Sliceprintnumberchanged to 0");
-		slicenumber = 0;
-	}
-
 	/*	Create a group for map data if it doesn't exist	*/
 	auto status = H5Lexists (meas_id, "/map", H5P_DEFAULT);
 
@@ -4176,7 +4172,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 		exit (1);
 	}
 
-	if (myRank != 0) {
+	if (myRank != prank) {
 		H5Sselect_none(mapSpace);
 	}
 
@@ -4232,7 +4228,7 @@ void	writeEMapHdf5s	(Scalar *axion, int slicenumbertoprint, char *eCh)
 
 	hsize_t offset = 0;
 
-	if (myRank == 0) {
+	if (myRank == prank) {
 		H5Sselect_hyperslab(eSpace, H5S_SELECT_SET, &offset, NULL, &slb, NULL);
 	} else {
 		H5Sselect_none(eSpace);
-- 
2.43.0


From 6015222d978234cff8dbd857f692d167f3669082 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:13 +0000
Subject: [PATCH 39/61] fix: histograms of the field started one slice after
 the beginning of its memory, in the ghosts when there are several

---
 lib/meas/measa.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/meas/measa.cpp b/lib/meas/measa.cpp
index 83147ef..84ad710 100755
--- a/lib/meas/measa.cpp
+++ b/lib/meas/measa.cpp
@@ -849,7 +849,7 @@ writePMapHdf5s (axiona, LAB);
 					// complex<Float> shhhs = (shs,0.);
 					// Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
 					// 				 [s=shhhs] (complex<Float> x) { return (double) arg(x-s); });
-					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> thBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 									 [] (complex<Float> x) { return (double) arg(x); });
 					thBin.run();
 					writeBinner(thBin, "/bins", "thetaB");
@@ -864,7 +864,7 @@ writePMapHdf5s (axiona, LAB);
 					// complex<Float> shhhs = (shs,0.);
 					// Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
 					// 					[z=z_now,s=shhhs] (complex<Float> x) { return (double) abs(x-s)/z; } );
-					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,complex<Float>> rhoBin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										[z=R_now] (complex<Float> x) { return (double) abs(x)/z; } );
 					rhoBin.run();
 					writeBinner(rhoBin, "/bins", "rhoB");
@@ -873,7 +873,7 @@ writePMapHdf5s (axiona, LAB);
 					{
 						// LogOut("binL ");
 						LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+						Binner<3000,complex<Float>> logth2Bin(static_cast<complex<Float> *>(axiona->mStart()), axiona->Size(),
 										 [] (complex<Float> x) { return (double) log10(1.0e-10+pow(arg(x),2)); });
 						logth2Bin.run();
 						writeBinner(logth2Bin, "/bins", "logtheta2B");
@@ -884,7 +884,7 @@ writePMapHdf5s (axiona, LAB);
 		{
 			// LogOut("binthetha ");
 			LogMsg(VERB_NORMAL, "[Meas %d] bin theta ",indexa);
-				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+				Binner<3000,Float> thBin(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 								 [z=R_now] (Float x) { return (double) (x/z); });
 				thBin.run();
 				writeBinner(thBin, "/bins", "thetaB");
@@ -898,7 +898,7 @@ writePMapHdf5s (axiona, LAB);
 				{
 					// LogOut("bintt2 ");
 					LogMsg(VERB_NORMAL, "[Meas %d] bin log10 theta^2 ",indexa);
-					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mCpu()) + axiona->Surf(), axiona->Size(),
+					Binner<3000,Float> logth2Bin2(static_cast<Float *>(axiona->mStart()), axiona->Size(),
 									 [z=R_now] (Float x) -> float { return (double) log10(1.0e-10+pow(x/z,2)); });
 					logth2Bin2.run();
 					writeBinner(logth2Bin2, "/bins", "logtheta2B");
-- 
2.43.0


From 731e1d5b49de5ca18d7e72e493ad02a9c7c4ad33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:50 +0000
Subject: [PATCH 40/61] fix: histograms of data whose first element is infinite
 or not a number were empty

---
 include/utils/binner.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/utils/binner.h b/include/utils/binner.h
index 9848468..718b14d 100644
--- a/include/utils/binner.h
+++ b/include/utils/binner.h
@@ -5,6 +5,7 @@
 	#include <algorithm>
 	#include <cmath>
 	#include <functional>
+	#include <limits>
 	#include <string>
 	#include <mpi.h>
 
@@ -103,15 +104,15 @@
 		if ((inData == nullptr) || (dSize == 0))
 			return ;
 
-		auto	car = filter(inData[0]);
-		auto	cir = filter(inData[0]);
+		double	car = -std::numeric_limits<double>::infinity();
+		double	cir =  std::numeric_limits<double>::infinity();
 		int	anf =0;
 		int Ninf = 0;
 
 		if (PaddedLength == DataLength) {
 
 			#pragma omp parallel for schedule(static) reduction(max:car) reduction(min:cir) reduction(+:anf)
-			for (size_t idx=1; idx<dSize; idx++) {
+			for (size_t idx=0; idx<dSize; idx++) {
 
 				double tmp = filter(inData[idx]);
 
@@ -129,7 +130,7 @@
 		} else if (PaddedLength > DataLength) {
 			LogMsg (VERB_NORMAL, "Padded loop");LogFlush();
 			#pragma omp parallel for schedule(static) reduction(max:car) reduction(min:cir) reduction(+:anf)
-			for (size_t idx=1; idx<dSize; idx++) {
+			for (size_t idx=0; idx<dSize; idx++) {
 
 				if (idx%PaddedLength >= DataLength)
 					continue;
-- 
2.43.0


From aa9bba4dc39587a0e4dad726f2196419e5247186 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:55 +0000
Subject: [PATCH 41/61] fix: mending the phase changed the velocity by 2 pi,
 which is the jump of the conformal velocity only when the scale factor grows
 linearly

---
 lib/scalar/mendThetaXeon.cpp | 36 +++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/lib/scalar/mendThetaXeon.cpp b/lib/scalar/mendThetaXeon.cpp
index 9f229fc..f2f2331 100755
--- a/lib/scalar/mendThetaXeon.cpp
+++ b/lib/scalar/mendThetaXeon.cpp
@@ -36,7 +36,7 @@
 
 /* Uses m2 as aux field to store F and B on a line/line basis
 distribution is n-th thread nth 4 lines of m2 */
-inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
+inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, void * __restrict__ m2_, void * __restrict__ s_, const double R, const double vP, const size_t Lx, const size_t Lz, const size_t Sf, FieldPrecision precision)
 {
 	size_t countF = 0;
 	size_t countB = 0;
@@ -80,7 +80,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_pd, +zP);
 		const _MData_ mVec  = opCode(set1_pd, -zP);
-		const _MData_ vVec  = opCode(set1_pd, 2.*M_PI);
+		const _MData_ vVec  = opCode(set1_pd, vP);
 		const _MData_ cVec  = opCode(set1_pd, zP*2.);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -433,7 +433,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 		const _MData_ pVec  = opCode(set1_ps, +zP);
 		const _MData_ mVec  = opCode(set1_ps, -zP);
-		const _MData_ vVec  = opCode(set1_ps, 2.f*M_PI);
+		const _MData_ vVec  = opCode(set1_ps, vP);
 		const _MData_ cVec  = opCode(set1_ps, zP*2.f);
 
 		#pragma omp parallel default(shared) reduction(+:countF,countB,count)
@@ -825,7 +825,7 @@ inline  size_t	mendThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v
 
 
 template<typename Float, const int step>
-inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Float * __restrict__ m2, const double R, const double vP, const size_t Lx, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t countF = 0;
@@ -905,11 +905,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDf > zP) {
 						mPy -= 2.*zP;
-						vPy -= 2.*M_PI;
+						vPy -= vP;
 						countF++;
 					} else if (mDf < zP) {
 						mPy += 2.*zP;
-						vPy += 2.*M_PI;
+						vPy += vP;
 						countF++;
 					}
 
@@ -926,11 +926,11 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 				{
 					if (mDfB > zP) {
 						melB -= 2.*zP;
-						vPyB -= 2.*M_PI;
+						vPyB -= vP;
 						countB++;
 					} else if (mDfB < zP) {
 						melB += 2.*zP;
-						vPyB += 2.*M_PI;
+						vPyB += vP;
 						countB++;
 					}
 
@@ -997,7 +997,7 @@ inline  size_t	mendThetaSlice(Float * __restrict__ m, Float * __restrict__ v, Fl
 /* TODO iterate until a jumpless line is found */
 
 template<typename Float>
-inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const size_t Lz, const size_t Sf, size_t NN)
+inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, const double R, const double vP, const size_t Lz, const size_t Sf, size_t NN)
 {
 	const double zP = M_PI*R;
 	size_t count = 0;
@@ -1056,11 +1056,11 @@ inline  size_t	mendThetaLine(Float * __restrict__ m, Float * __restrict__ v, con
 				while (abs(mDf) > zP) {
 					if (mDf > zP) {
 						mPz -= 2.*zP;
-						vPz -= 2.*M_PI;
+						vPz -= vP;
 						count++;
 					} else {
 						mPz += 2.*zP;
-						vPz += 2.*M_PI;
+						vPz += vP;
 						count++;
 					}
 
@@ -1081,30 +1081,32 @@ size_t	mendThetaXeon (Scalar *field)
 	constexpr int	dStep = Align/sizeof(double);
 	constexpr int	fStep = Align/sizeof(float);
 	const double	R     = *(field->RV());
+	/* the velocity R theta' + R' theta jumps by 2 pi R' when theta jumps by 2 pi */
+	const double	vP    = 2.*M_PI*field->BckGnd()->Frw()*R/(*(field->zV()));
 	size_t		tJmp = 0;
 	unsigned long tota = 0;
 
 	switch (field->Precision()) {
 		case	FIELD_DOUBLE:
-		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()), R, vP, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<double, dStep>(static_cast<double*>(field->mCpu()), static_cast<double*>(field->vCpu()),static_cast<double*>(field->m2Cpu()),  R, vP, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, vP, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		case	FIELD_SINGLE:
-		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaLine(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), R, vP, field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] line %lu jumps",tota);
-		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, field->Length(), field->Depth(), field->Surf(), field->getNg());
+		tJmp += mendThetaSlice<float, fStep>(static_cast<float *>(field->mCpu()), static_cast<float *>(field->vCpu()), static_cast<float *>(field->m2Cpu()), R, vP, field->Length(), field->Depth(), field->Surf(), field->getNg());
 		MPI_Allreduce(&tJmp, &tota, 1, MPI_UNSIGNED_LONG, MPI_SUM, MPI_COMM_WORLD);
 		LogMsg(VERB_HIGH,"[mT] Slice %lu jumps",tota);
 		if (tJmp > 0) LogMsg(VERB_HIGH,"[mT] Warnng: jumps in line/slice are not safe!");
-		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, field->Length(), field->Depth(), field->Surf(), field->Precision());
+		tJmp += mendThetaKernelXeon(field->mStart(), field->vCpu(), field->m2Cpu(), field->sData(), R, vP, field->Length(), field->Depth(), field->Surf(), field->Precision());
 		break;
 
 		default:
-- 
2.43.0


From 9c5653f996566064f34f8344438796ef562ac0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 42/61] fix: initial conditions with --mode0 had amplitude or
 phase 1 for every positive value

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index f20b8ac..ccb9bd0 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -34,7 +34,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	size_t local_z_start = rank*Lz;
 
 	/* used from ic */
-	double mod0  = ic.mode0 > 0.0;
+	double mod0  = ic.mode0;
 	double kCri  = ic.kcr;
 	/* for string wave */
 	int div = ic.kMax; // number of strings in one dimension
-- 
2.43.0


From a04ba5a5f7e61906e42a37f0386702ee5594b633 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 43/61] fix: axiton initial conditions were those of parametric
 resonance in double precision

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index ccb9bd0..c398e7a 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -435,7 +435,7 @@ void	randConf (Scalar *field, IcData ic)
 				randXeon<double,CONF_PARRES> (ma, field, ic);
 				break;
 			case CONF_AXITON:
-				randXeon<double,CONF_PARRES> (ma, field, ic);
+				randXeon<double,CONF_AXITON> (ma, field, ic);
 				break;
 			case CONF_STRWAVE:
 				randXeon<double,CONF_STRWAVE> (ma, field, ic);
-- 
2.43.0


From 037c2506e7011c17e6d49c2050899a81db7ef274 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 44/61] fix: explicit initial conditions assumed a cubic box

---
 lib/gen/randXeon.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index c398e7a..2a8c465 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -29,7 +29,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 	const size_t V  = field->Size();
 	const double L  = field->BckGnd()->PhysSize();
 	int rank = commRank();
-	size_t Lz = Lx/commSize();
+	size_t Lz = field->Depth();
 	size_t Tz = field->TotalDepth();
 	size_t local_z_start = rank*Lz;
 
@@ -162,7 +162,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float theta = ((Float) ((x-Lx/2)*(x-Lx/2)+(y-Lx/2)*(y-Lx/2)+z*z));
 						theta = exp(-theta*kCri2)*mod0;
 						m[idx] = std::complex<Float>(cos(theta), sin(theta));
@@ -179,7 +179,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -197,7 +197,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						z = iz;
 						y = iy;
 						x = ix;
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						if (iy>Lx/2) { y = y-Lx; }
 						if (ix>Lx/2) { x = x-Lx; }
 						Float theta = ((Float) (x*x + y*y + z*z));
@@ -250,7 +250,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 						x = ix;
 						if(1){
 						//CENTERED AT GRID, z=0
-						if (iz>Lx/2) { z = z-Lx; }
+						if (iz>Tz/2) { z = z-Tz; }
 						Float aL = ((Float) Lx)*((Float) strR);	//RADIUS
 						rho2 = (z)*(z)+(y-Lx/2)*(y-Lx/2);
 						Float rho = sqrt((Float) rho2)	;
-- 
2.43.0


From 38bd7110aba9e3cafb14a4fdb34fa7e1db98f823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 45/61] fix: the string wave initial condition multiplied
 whatever the memory of the field held

---
 lib/gen/randXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/randXeon.cpp b/lib/gen/randXeon.cpp
index 2a8c465..07773bf 100644
--- a/lib/gen/randXeon.cpp
+++ b/lib/gen/randXeon.cpp
@@ -376,7 +376,7 @@ void	randXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData ic)
 				}
 				std::complex<Float> eee = std::complex<Float>(cos(theta), sin(theta));
 				for (size_t iz =0; iz<Lz; iz++){
-					m[idx+iz*Sf] *= eee;
+					m[idx+iz*Sf] = eee;
 				}
 			}
 		}
-- 
2.43.0


From 3cd06cf14b5f1a4b34cd6f2b377c002951a3ab56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:18 +0000
Subject: [PATCH 46/61] fix: the damping of the prepropagator stayed on after
 it

---
 lib/gen/prepropa.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/prepropa.cpp b/lib/gen/prepropa.cpp
index 9e00995..92311b5 100644
--- a/lib/gen/prepropa.cpp
+++ b/lib/gen/prepropa.cpp
@@ -216,7 +216,7 @@ void	prepropa2  (Scalar *axiona)
 		}
 
 		if (axiona->BckGnd()->ICData().pregammo > 0.0){
-			axiona->BckGnd()->SetGamma( axiona->BckGnd()->Gamma());
+			axiona->BckGnd()->SetGamma(gamma_aux);
 			LogMsg(VERB_NORMAL,"[prep] ReSet damping to gam = %f (was %f)",axiona->BckGnd()->Gamma(),gamma_aux);
 		}
 
-- 
2.43.0


From b08738817109697369d890ca2484ebc05147a23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:47 +0000
Subject: [PATCH 47/61] fix: initial velocities of kmax, vilgor and lola
 configurations were those of radiation domination for any --frw

---
 lib/gen/genConf.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 2a0123d..daa99e0 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -397,6 +397,7 @@ void	ConfGenerator::runCpu	()
 				if (myCosmos->ICData().normcore)
 					normCoreField	(axionField);
 				memcpy	   (axionField->vCpu(), static_cast<char *> (axionField->mStart()), axionField->DataSize()*axionField->Size());
+				scaleField (axionField, FIELD_V, myCosmos->Rp(*axionField->zV())*(*axionField->RV()));	// rho' = R'
 				if ( !(ic.kickalpha == 0.0) )
 					scaleField (axionField, FIELD_V, 1.0+ic.kickalpha);
 				scaleField (axionField, FIELD_M, *axionField->RV());
@@ -511,6 +512,7 @@ void	ConfGenerator::runCpu	()
 				double   hzi = *axionField->zV()/2.0;
 
 				memcpy	   (axionField->vCpu(), static_cast<char *> (axionField->mStart()), axionField->DataSize()*axionField->Size());
+				scaleField (axionField, FIELD_V, myCosmos->Rp(*axionField->zV())*(*axionField->RV()));	// rho' = R'
 				scaleField (axionField, FIELD_M, *axionField->RV());
 			}
 
@@ -651,6 +653,7 @@ void	ConfGenerator::runCpu	()
 			double	   lTmp = axionField->BckGnd()->Lambda()/((*axionField->RV()) * (*axionField->RV()));
 			double	   ood2 = 1./(axionField->Delta()*axionField->Delta());
 			memcpy     (axionField->vCpu(), static_cast<char *> (axionField->mStart()), axionField->DataSize()*axionField->Size());
+			scaleField (axionField, FIELD_V, myCosmos->Rp(*axionField->zV())*(*axionField->RV()));	// rho' = R'
 			scaleField (axionField, FIELD_M, *axionField->RV());
 
 			auto	   S  = axionField->Surf();
@@ -831,6 +834,7 @@ void	ConfGenerator::conflola(Cosmos *myCosmos, Scalar *axionField)
 	  if (myCosmos->ICData().normcore)
 	    normCoreField	(axionField);
 	  memcpy	   (axionField->vCpu(), static_cast<char *> (axionField->mStart()), axionField->DataSize()*axionField->Size());
+	  scaleField (axionField, FIELD_V, myCosmos->Rp(*axionField->zV())*(*axionField->RV()));	// rho' = R'
 	  if ( !(ic.kickalpha == 0.0) )
 	    scaleField (axionField, FIELD_V, 1.0+ic.kickalpha);
 	  scaleField (axionField, FIELD_M, *axionField->RV());
-- 
2.43.0


From 6c4e822870028d6f77f11856db347c9e00354af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:09 +0000
Subject: [PATCH 48/61] fix: scaling the velocity wrote beyond the end of its
 memory with more than one ghost slice, and scaling an axion field scaled its
 velocity too

---
 lib/scalar/scaleXeon.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/scalar/scaleXeon.cpp b/lib/scalar/scaleXeon.cpp
index fdd82b5..ba63e4c 100644
--- a/lib/scalar/scaleXeon.cpp
+++ b/lib/scalar/scaleXeon.cpp
@@ -18,10 +18,12 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 			{
 				case FIELD_M:
 				field = static_cast<complex<double>*> (sField->mCpu());
+				vol   = (vol*sField->DataSize())/sizeof(complex<double>);	// the data of an axion is real
 				break;
 
 				case FIELD_V:
 				field = static_cast<complex<double>*> (sField->vCpu());
+				vol   = (sField->Surf()*(sField->Depth()+2)*sField->DataSize())/sizeof(complex<double>);	// v has two extra slices, not 2 Ng
 				break;
 
 				case FIELD_M2:
@@ -56,10 +58,12 @@ void	scaleXeon (Scalar *sField, FieldIndex fIdx, double factor)
 			{
 				case FIELD_M:
 				field = static_cast<complex<float> *> (sField->mCpu());
+				vol   = (vol*sField->DataSize())/sizeof(complex<float>);	// the data of an axion is real
 				break;
 
 				case FIELD_V:
 				field = static_cast<complex<float> *> (sField->vCpu());
+				vol   = (sField->Surf()*(sField->Depth()+2)*sField->DataSize())/sizeof(complex<float>);	// v has two extra slices, not 2 Ng
 				break;
 
 				case FIELD_M2:
-- 
2.43.0


From c54215cd1b31c8daa8a907a6fa5f6c67dd536dc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 49/61] fix: threads overwrote the axion velocity another one
 had still to read when it is added to strings

---
 lib/gen/genConf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index daa99e0..bc3ad2e 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1100,7 +1100,7 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				complex<float> *co_v = static_cast<complex<float>*>(axionField->vCpu());
 				float *f_m  = static_cast<float*>(axionField->m2Cpu());
 				float *f_v  = static_cast<float*>(axionField->vCpu());
-				#pragma omp parallel for default(shared) schedule(static)
+				/* the real and the complex velocity share memory, only works from the end to the beginning */
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
 					float theta  = f_m[idx]/R;
@@ -1117,7 +1117,7 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				complex<double> *co_v = static_cast<complex<double>*>(axionField->vCpu());
 				double *f_m  = static_cast<double*>(axionField->m2Cpu());
 				double *f_v  = static_cast<double*>(axionField->vCpu());
-				#pragma omp parallel for default(shared) schedule(static)
+				/* the real and the complex velocity share memory, only works from the end to the beginning */
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
 					float theta  = f_m[idx]/R;
-- 
2.43.0


From 6666ebe22410c81d0ad5e769c7ea943688ee95ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:33 +0000
Subject: [PATCH 50/61] fix: cole initial conditions wrote to an uninitialised
 pointer and divided by an uninitialised mean over the local sites

---
 lib/gen/genConf.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index bc3ad2e..6f4676c 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -889,6 +889,7 @@ void	ConfGenerator::confcole(Cosmos *myCosmos, Scalar *axionField)
 		mopa.kCrt = axionField->BckGnd()->PhysSize()/(6.283185307179586*(*axionField->zV())*ic.kcr);
 		mopa.mocoty = MOM_COLE;
 		mopa.cmplx = true;
+		mopa.mp = axionField->m2Cpu();
 	momConf(axionField, mopa);
 	myPlan.run(FFT_BCK);
 
@@ -1642,7 +1643,7 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 	/* Computes the average value of rho for normalisation purposes */
 	LogMsg(VERB_NORMAL,"[GEN] any mean %d ",ftipo);
 	void* meandro ;
-	double mean, Mean;
+	double mean = 0., Mean;
 
 	switch(ftipo){
 		case FIELD_M:
@@ -1678,8 +1679,8 @@ double	ConfGenerator::anymean(FieldIndex ftipo)
 		}
 
 	MPI_Allreduce(&mean, &Mean, 1, MPI_DOUBLE, MPI_SUM, MPI_COMM_WORLD);
-	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->eSize()));
-	return Mean/((double) axionField->eSize());
+	LogMsg(VERB_NORMAL,"[GEN] mean %.10e ",Mean/((double) axionField->TotalSize()));
+	return Mean/((double) axionField->TotalSize());
 } //end rhomean
 
 
-- 
2.43.0


From 5b32b8aca6ff23cf9685d69938db76fcfe86689d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:54 +0000
Subject: [PATCH 51/61] fix: the phase around strings read from a file jumped
 between ranks, and boxes were assumed to be cubic

---
 lib/gen/anystringXeon.cpp | 38 +++++++++++++-------------------------
 lib/gen/genConf.cpp       |  2 +-
 2 files changed, 14 insertions(+), 26 deletions(-)

diff --git a/lib/gen/anystringXeon.cpp b/lib/gen/anystringXeon.cpp
index 7cfe933..cca3e82 100644
--- a/lib/gen/anystringXeon.cpp
+++ b/lib/gen/anystringXeon.cpp
@@ -92,7 +92,7 @@ void	anystringXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData
 	//const int fwdNeig = (rank + 1) % nSplit;
 	const int bckNeig = (rank - 1 + nSplit) % nSplit;
 
-	size_t Lz = Lx/commSize();
+	size_t Lz = field->Depth();
 	size_t Tz = field->TotalDepth();
 	size_t local_z_start = rank*Lz;
 
@@ -221,38 +221,26 @@ void	anystringXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData
 
 	/* initial condition can be changed later */
 	if (rank == 0)
-		th[0] == 0.;
+		th[0] = 0.;
 
 	// Build theta(0,0,z)
 	for (int cRank = 0; cRank < commSize(); cRank++) {
 
-		const int cBckNeig = (cRank - 1 + nSplit) % nSplit;
+		if (rank != cRank)
+			continue;
+
+		// the line starts where that of the previous rank ends
+		if (cRank > 0)
+			MPI_Recv(&th[0], sizeof(Float), MPI_CHAR, bckNeig, cRank, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
 
 		// calculate the line
-		if (rank == cRank)
-			for (size_t idx=Sf,iz=0; iz<nz; iz++,idx+=Sf)
-			{
-				th[idx] = th[idx-Sf] + Bz[iz];
-// printf("[asX] bz[%d] %f thz[%d] %f\n",idx,Bz[iz],iz,th[idx]);
-			}
+		for (size_t idx=Sf,iz=0; iz<nz; iz++,idx+=Sf)
+			th[idx] = th[idx-Sf] + Bz[iz];
 
 		// send the last value of theta
-		if (commSize() == 1) {
-			th[0] = 0.; //th[Sf*nz];
-		} else {
-			if (rank == cBckNeig) {
-				// We can overflow V in vCpu cause it has two extra ghost slices (and is complex)
-				MPI_Send(&th[Sf*(nz)], sizeof(Float), MPI_CHAR, cRank, cRank, MPI_COMM_WORLD);
-				LogMsg(VERB_NORMAL,"[asX] rank %d send %f for local_z=-1",cBckNeig,th[Sf*(nz)]);
-				// printf("[asX] rank %d send %f for local_z=-1",cBckNeig,th[Sf*(nz)]);
-			}
-
-			if (rank == cRank) {
-				MPI_Recv(&th[0]  , sizeof(Float), MPI_CHAR, bckNeig, cRank, MPI_COMM_WORLD, MPI_STATUS_IGNORE);
-				LogMsg(VERB_NORMAL,"[asX] rank %d received %f for local_z=-1",cRank,th[0]);
-				// printf("[asX] rank %d received %f for local_z=-1",cRank,th[0]);
-			}
-		}
+		// We can overflow V in vCpu cause it has two extra ghost slices (and is complex)
+		if (cRank + 1 < commSize())
+			MPI_Send(&th[Sf*nz], sizeof(Float), MPI_CHAR, cRank + 1, cRank + 1, MPI_COMM_WORLD);
 	}
 
 	LogMsg(VERB_NORMAL,"[asX] theta(0,0,z) built");
diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 6f4676c..24d220e 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1490,7 +1490,7 @@ void	ConfGenerator::confstring2(Cosmos *myCosmos, Scalar *axionField)
     	LogMsg(VERB_NORMAL, "[STR] Found ! ");
     	int ii = 0;
     	double xa, ya, za;
-    	bool ep;
+    	int ep = 0;
     	char line[256]; // Assuming a maximum line length of 256 characters
 
     	while (fgets(line, sizeof(line), stringFile) != nullptr) {
-- 
2.43.0


From cb3719fc816d0d5f11ee6c16ede19a014ddbe3c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:03 +0000
Subject: [PATCH 52/61] fix: smoothing overwrote the axion waves strings were
 added to, and their cores lost the scale factor

---
 lib/gen/genConf.cpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index 24d220e..ee7cf22 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1067,11 +1067,15 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 		if (xit > 0.0)
 		{
 			LogMsg(VERB_NORMAL,"[GEN] Creating string on top of SPAX! \n");
-			/* moves ctheta to m2*/
-			memcpy	   (m2, ms, axionField->DataSize()*axionField->Size());
-			float *lerdo = static_cast<float*>(axionField->m2Cpu());
+			/* keeps ctheta behind its velocity, which is real too, m2 is needed to smooth and for the cores */
+			size_t rb = axionField->Precision()*axionField->Size();
+			memcpy	   (vs+rb, ms, rb);
 			putxi(xit,ic.kMax);
 			normaliseField(axionField, FIELD_M);
+			if (ic.normcore)
+				normCoreField	(axionField);
+			/* moves ctheta to m2*/
+			memcpy	   (m2, vs+rb, rb);
 		}
 
 		/* Build the scalar field merging the extra waves
@@ -1127,9 +1131,6 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 					co_v[idx] = complex<double>(Rp,thetap)*co_m[idx];
 				}
 			}
-		/* Normalise cores? */
-		if (myCosmos->ICData().normcore)
-			normCoreField	(axionField);
 	}
 	LogMsg(VERB_NORMAL,"[GEN] CONF_SPAX end! \n");
 } // endconf spectrum axions
-- 
2.43.0


From fcd5164d5b6af23735cdcf72e4a3994edd3e0f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:17 +0000
Subject: [PATCH 53/61] fix: smoothing with --lowmem used memory that is not
 allocated, and cores left their result in the velocity

---
 lib/gen/smoothXeon.cpp      | 13 +++++++++----
 lib/scalar/normCoreXeon.cpp |  9 +++++----
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/lib/gen/smoothXeon.cpp b/lib/gen/smoothXeon.cpp
index eb40312..db62cbc 100644
--- a/lib/gen/smoothXeon.cpp
+++ b/lib/gen/smoothXeon.cpp
@@ -1,5 +1,6 @@
 #include <complex>
 #include <cstring>
+#include <vector>
 
 #include "scalar/scalarField.h"
 #include "utils/index.h"
@@ -63,14 +64,18 @@ void	smoothXeon (Scalar *field, const size_t iter, const double alpha)
 	LogMsg(VERB_SILENT,"[smo] Called smoothXeon");
 	field->exchangeGhosts(FIELD_M);
 
+	/* there is no m2 in lowmem runs */
+	vector<char> tmp(field->LowMem() ? field->DataSize()*field->Size() : 0);
+	void *aux = field->LowMem() ? static_cast<void*>(tmp.data()) : field->m2Cpu();
+
 	switch	(field->Precision())
 	{
 		case	FIELD_DOUBLE:
 		for (size_t it=0; it<iter; it++)
 		{
 			LogMsg(VERB_HIGH,"[smo] Smoothing step %d",it);
-			iteraXeon(static_cast<const complex<double>*>(field->mStart()), static_cast<complex<double>*>(field->m2Cpu()), field->Length(), field->Surf(), field->Size(), alpha);
-			memcpy (static_cast<char *>(field->mStart()), static_cast<char*>(field->m2Cpu()), field->DataSize()*field->Size());
+			iteraXeon(static_cast<const complex<double>*>(field->mStart()), static_cast<complex<double>*>(aux), field->Length(), field->Surf(), field->Size(), alpha);
+			memcpy (static_cast<char *>(field->mStart()), static_cast<char*>(aux), field->DataSize()*field->Size());
 			field->exchangeGhosts(FIELD_M);
 		}
 		break;
@@ -79,8 +84,8 @@ void	smoothXeon (Scalar *field, const size_t iter, const double alpha)
 		for (size_t it=0; it<iter; it++)
 		{
 			LogMsg(VERB_HIGH,"[smo] Smoothing step %d",it);
-			iteraXeon(static_cast<const complex<float>*>(field->mStart()), static_cast<complex<float>*>(field->m2Cpu()), field->Length(), field->Surf(), field->Size(), static_cast<float>(alpha));
-			memcpy (static_cast<char *>(field->mStart()), static_cast<char*>(field->m2Cpu()), field->DataSize()*field->Size());
+			iteraXeon(static_cast<const complex<float>*>(field->mStart()), static_cast<complex<float>*>(aux), field->Length(), field->Surf(), field->Size(), static_cast<float>(alpha));
+			memcpy (static_cast<char *>(field->mStart()), static_cast<char*>(aux), field->DataSize()*field->Size());
 			field->exchangeGhosts(FIELD_M);
 		}
 		break;
diff --git a/lib/scalar/normCoreXeon.cpp b/lib/scalar/normCoreXeon.cpp
index e7c679f..26e1b9d 100755
--- a/lib/scalar/normCoreXeon.cpp
+++ b/lib/scalar/normCoreXeon.cpp
@@ -1,5 +1,6 @@
 #include <complex>
 #include <cstring>
+#include <vector>
 #include "comms/comms.h"
 
 #include "scalar/scalarField.h"
@@ -29,10 +30,10 @@ void normCoreKernelXeon (Scalar *field)
 	complex<Float> *mCp = static_cast<complex<Float>*> (field->mStart());
 	complex<Float> *maux;
 
-	if (field->LowMem()){
-		maux = static_cast<complex<Float>*> (field->vCpu());
-		LogError("NormcoreXeon deletes v!!!");
-	}
+	vector<complex<Float>> tmp(field->LowMem() ? n3 : 0);	// there is no m2 in lowmem runs
+
+	if (field->LowMem())
+		maux = tmp.data();
 	else
 		maux = static_cast<complex<Float>*> (field->m2Cpu());
 
-- 
2.43.0


From bb06bae9d06d2797a8822add8544385040375e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:17 +0000
Subject: [PATCH 54/61] fix: saxion runs with --lowmem crashed planning a
 transform of memory they do not have

---
 lib/scalar/scalarField.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index 3165347..f90c2e5 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -463,7 +463,8 @@ const std::complex<float> If(0.,1.);
 		AxionFFT::initFFT(prec);
 
 		/* For spectra, reducer, genConf */
-		AxionFFT::initPlan (this, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
+		if (m2 != nullptr)	// the saxion has no m2 in lowmem runs
+			AxionFFT::initPlan (this, FFT_PSPEC_AX,  FFT_FWDBCK, "pSpecAx");
 
 		if (fieldType == FIELD_SAXION) {
 			if (!lowmem) {
-- 
2.43.0


From 8a58d723b075083dec30b5c170848c676446e64a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:09 +0000
Subject: [PATCH 55/61] fix: axion waves were added to strings in single
 precision in double precision runs

---
 lib/gen/genConf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/gen/genConf.cpp b/lib/gen/genConf.cpp
index ee7cf22..ccbf9ad 100755
--- a/lib/gen/genConf.cpp
+++ b/lib/gen/genConf.cpp
@@ -1125,8 +1125,8 @@ void	ConfGenerator::confspax(Cosmos *myCosmos, Scalar *axionField)
 				/* the real and the complex velocity share memory, only works from the end to the beginning */
 				for (size_t pidx = 0; pidx < vol; pidx++){
 					size_t idx = vol-pidx-1;
-					float theta  = f_m[idx]/R;
-					float thetap = f_v[idx]/R-theta*Rp;
+					double theta  = f_m[idx]/R;
+					double thetap = f_v[idx]/R-theta*Rp;
 					co_m[idx] = co_m[idx]*exp(complex<double>(0.0,theta))*R;
 					co_v[idx] = complex<double>(Rp,thetap)*co_m[idx];
 				}
-- 
2.43.0


From 32e76641873356060a2d10331acaadff29d23aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:26 +0000
Subject: [PATCH 56/61] fix: the gradients around strings read from a file
 overlapped in ranks much deeper than wide

---
 lib/gen/anystringXeon.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gen/anystringXeon.cpp b/lib/gen/anystringXeon.cpp
index cca3e82..313e268 100644
--- a/lib/gen/anystringXeon.cpp
+++ b/lib/gen/anystringXeon.cpp
@@ -84,7 +84,7 @@ void	anystringXeon (std::complex<Float> * __restrict__ m, Scalar *field, IcData
 	Float* th = static_cast<Float*> (field->vCpu());
 	Float* Bx = static_cast<Float*> (field->m2Cpu());
 	Float* By = static_cast<Float*> (field->m2half()) ;
-	Float* Bz = static_cast<Float*> (field->m2half()) + 2*Sf;
+	Float* Bz = static_cast<Float*> (field->m2half()) + Lx*field->Depth();
 
 	/*	For MPI		*/
 	const int nSplit  = commSize();
-- 
2.43.0


From 217753ec3409958e489605674d17b05da40b4a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:10 +0000
Subject: [PATCH 57/61] fix: the ball mask leaves the string map as it found it

The corners of the pierced plaquettes were left marked as strings, so that
every further mask (another radius, another kind) grew by one site.
---
 lib/spectrum/spectrum.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index 0211d44..f4887bb 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -3260,6 +3260,14 @@ void	SpecBin::masker	(double radius_mask, StatusM2 out, bool l_cummask) {
 						   and labels it STRING_MASK*/
 							prof.start();
 						maskball	(radius_mask, STRING_ONLY, STRING_MASK);
+
+						/* the corners marked above carry all string bits, something no string does;
+						   remove them so that the string map, and masks computed from it later, do not change */
+						#pragma omp parallel for schedule(static)
+						for (size_t idx=0; idx < field->Size(); idx++) {
+							if ((strdaa[idx] & STRING_ONLY) == STRING_ONLY)
+								strdaa[idx] &= ~STRING_ONLY;
+						}
 							prof.stop();
 								prof.add(std::string("M3.BALL"), 0.0, 0.0);
 					} // end internal CASE REDO and GAUS case switch
-- 
2.43.0


From cc072f08e21b21c04c15fad4555f999a99090108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:03:24 +0000
Subject: [PATCH 58/61] fix: threads no longer lose ghost planes of the ball
 mask

The depth a ball reaches into the neighbour's slices was raised with an atomic
read and a separate atomic write, so a smaller value could replace a larger one.
---
 lib/spectrum/spectrum.cpp | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index f4887bb..6efcac9 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -513,6 +513,13 @@ int inflsq(double aux)
 	return ts;
 }
 
+/* raises *p to val as one operation, whatever the other threads write there */
+static inline void atomicMax(short *p, short val)
+{
+	short aux = __atomic_load_n(p, __ATOMIC_RELAXED);
+	while (val > aux && !__atomic_compare_exchange_n(p, &aux, val, false, __ATOMIC_RELAXED, __ATOMIC_RELAXED));
+}
+
 /* masks a spherical ball around a set of points with mpi
    using strdata matrix */
 void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL) {
@@ -600,7 +607,6 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 				for (int x=0; x < Ly; x++) {
 					size_t idx = zi + yi + x;
 
-					short aux;
 					short load;
 					/* Signals by any defect */
 					if (strdaa[idx] & DEFECT_LABEL){
@@ -625,26 +631,14 @@ void	SpecBin::maskball	(double radius_mask, char DEFECT_LABEL, char MASK_LABEL)
 									{
 										ml++;
 										load = (short) -(z+dz);
-										#pragma omp atomic read
-										 	aux = mFG[(size_t) Ly*yii+xii];
-
-										if ( load > aux ){
-											#pragma omp atomic write
-												mFG[(size_t) Ly*yii+xii] = load;
-										}
+										atomicMax(mFG + ((size_t) Ly*yii+xii), load);
 									}
 									else {
 										if (z + dz >= (int) Lz)
 										{
 											mr++;
 											load = (short) (z + dz + 1 - (int) Lz);
-											#pragma omp atomic read
-												aux = mBG[(size_t) (Ly*yii+xii)];
-
-											if (load > aux){
-												#pragma omp atomic write
-													mBG[(size_t) (Ly*yii+xii)] = load;
-											}
+											atomicMax(mBG + ((size_t) Ly*yii+xii), load);
 										}
 										else
 										{
-- 
2.43.0


From 7546df5c35917e2a422521d402ecd49c358e06ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:06:44 +0000
Subject: [PATCH 59/61] fix: the diffused mask on ranks with fewer than two
 ghost widths of slices

Exchanging ghosts of the complex field overwrote the real map with the copy of
its last slice; exchange just the slice that is needed.
---
 lib/spectrum/spectrum.cpp | 19 +++++++------------
 1 file changed, 7 insertions(+), 12 deletions(-)

diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index 6efcac9..b32aa4f 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -3133,27 +3133,22 @@ void	SpecBin::masker	(double radius_mask, StatusM2 out, bool l_cummask) {
 						/* Size of the ghost region in Float (assume this funciton is called in Saxion mode)*/
 						size_t GR = field->getNg()*LyLy*(field->DataSize()/field->Precision());
 
-						/* I need char pointers to the last slice, backghost, both Float and std::complex_Float */
+						/* I need char pointers to the last slice, backghost */
 
 						char *m2lsC  = static_cast<char *>(field->m2Start()) + field->Surf()*(field->Depth()-1)*field->Precision();
 						char *m2bgC  = static_cast<char *>(field->m2Start()) + field->Size()*field->Precision();
-						char *m2lscC = static_cast<char *>(field->m2Start()) + field->Surf()*(field->Depth()-field->getNg())*field->DataSize();
-						char *m2bgcC = static_cast<char *>(field->m2BackGhost());
 
 						size_t SurfTotalSize = LyLy*field->Precision();
 
 						/* Smoothing iteration loop */
 						for (size_t it=0; it<iter+1; it++)
 						{
-							/* exchange ghosts Float using the Complex-based function */
-									// copy last slice into the last std::complex slice (will be sent)
-									// the first slice is already at position m2Start
-									memcpy	(m2lscC, m2lsC, SurfTotalSize);
-									field->exchangeGhosts(FIELD_M2);
-									// move the slice received at the std::complex backghost into the Float-backghost
-									memmove	(m2bgC, m2bgcC, SurfTotalSize);
-									// move the slice received at the frontghost into the Float-Frontghost (defined by m2Start)
-									memmove	(m2C+(GR-LyLy)*field->Precision(), m2C, SurfTotalSize);
+							/* exchange one slice of Floats with each neighbour:
+							the first slice is sent back and received at the Float-backghost
+							the last slice is sent forward and received at the Float-frontghost (defined by m2Start) */
+									char *m2fgC = m2C+(GR-LyLy)*field->Precision();
+									field->sendGeneral(COMM_SDRV, SurfTotalSize, MPI_BYTE, m2sC, m2bgC, m2lsC, m2fgC);
+									field->sendGeneral(COMM_WAIT, SurfTotalSize, MPI_BYTE, m2sC, m2bgC, m2lsC, m2fgC);
 
 							/* Smooth and copy to m2_aux m2aF
 							(m2h does not work because is precisely the Float-backghost) */
-- 
2.43.0


From 28051623577485d53b200e85e8a2c3fe64bc6aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:27 +0000
Subject: [PATCH 60/61] fix: axiton masks no longer depend on what the string
 map held before

A mask that does not accumulate took the bits of earlier strings, or of memory
never written, for marks of an earlier mask.
---
 lib/scalar/scalarField.cpp | 2 ++
 lib/spectrum/spectrum.cpp  | 4 ++--
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/scalar/scalarField.cpp b/lib/scalar/scalarField.cpp
index f90c2e5..dcbe36a 100755
--- a/lib/scalar/scalarField.cpp
+++ b/lib/scalar/scalarField.cpp
@@ -355,6 +355,8 @@ const std::complex<float> If(0.,1.);
 	LogMsg(VERB_NORMAL, "[sca] Setting m,v to 0");
 	memset (m, 0, fSize*v3);
 	memset (v, 0, fSize*(n2*(nLz + 2)));
+	if (str != nullptr)
+		memset (str, 0, n3);
 	if (fieldType == FIELD_FAXION){
 		memset (rho, 0, fSize*v3);
 		memset (vho, 0, fSize*v3);
diff --git a/lib/spectrum/spectrum.cpp b/lib/spectrum/spectrum.cpp
index b32aa4f..e63bdf2 100755
--- a/lib/spectrum/spectrum.cpp
+++ b/lib/spectrum/spectrum.cpp
@@ -3481,8 +3481,8 @@ void	SpecBin::masker	(double radius_mask, StatusM2 out, bool l_cummask) {
 			if( tthres > 3)
 				tthres = 3;
 
-			// l_cummask, Axit2 mask if previous point has this label
-			StringType ST_CS = STRING_XY_POSITIVE;
+			// l_cummask, Axit2 mask if previous point has this label (otherwise earlier marks do not count)
+			StringType ST_CS = STRING_NOTHING;
 			if (l_cummask) {
 				ST_CS = STRING_WALL;
 				LogMsg(VERB_NORMAL,"[masker axion] Cumulative masking (%d, WALL=64,...)",ST_CS);
-- 
2.43.0


From ecd9c6cedd115d9017b1efed94e4867bf345242f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:32:51 +0000
Subject: [PATCH 61/61] fix: axion spectral propagator includes the R''/R term
 of the equation of motion

---
 include/propagator/propClass.h      |  4 ++--
 include/propagator/sPropThetaXeon.h | 12 +++++++-----
 2 files changed, 9 insertions(+), 7 deletions(-)

diff --git a/include/propagator/propClass.h b/include/propagator/propClass.h
index 0668959..9cc2585 100755
--- a/include/propagator/propClass.h
+++ b/include/propagator/propClass.h
@@ -618,7 +618,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, d0, maa, axion->Rpp(), fMom, Lx, S, V+S, precision);
 			*z += dz*d[s];
 			axion->updateR();
 		}
@@ -636,7 +636,7 @@
 			}
 
 			applyLaplacian(axion);
-			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, fMom, Lx, S, V+S, precision);
+			sPropThetaKernelXeon(axion->mCpu(), axion->vCpu(), axion->m2Cpu(), R, dz, c0, 0.0, maa, axion->Rpp(), fMom, Lx, S, V+S, precision);
 		}
 		axion->setM2     (M2_DIRTY);
 	}
diff --git a/include/propagator/sPropThetaXeon.h b/include/propagator/sPropThetaXeon.h
index 583aaae..fd5d00b 100755
--- a/include/propagator/sPropThetaXeon.h
+++ b/include/propagator/sPropThetaXeon.h
@@ -27,7 +27,7 @@
 #endif
 
 void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const void * __restrict__ m2_, double *R, const double dz, const double c, const double d,
-			     const double aMass2, const double fMom, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
+			     const double aMass2, const double Rpp, const double fMom, const size_t Lx, const size_t Vo, const size_t Vf, FieldPrecision precision, const size_t pad=2)
 {
 	const size_t Sf = Lx*Lx;
 
@@ -70,6 +70,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const _MData_ dzcVec = opCode(set1_pd, dzc);
 		const _MData_ dzdVec = opCode(set1_pd, dzd);
 		const _MData_ fMVec  = opCode(set1_pd, fMom);
+		const _MData_ rpVec  = opCode(set1_pd, Rpp);
 
 		#pragma omp parallel default(shared)
 		{
@@ -86,11 +87,11 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 				vel = opCode(load_pd, &v[idxMz]);
 
 #if	defined(__AVX512F__) || defined(__FMA__)
-				acu = opCode(fnmadd_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)), opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])));
+				acu = opCode(fnmadd_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec)), opCode(fmadd_pd, rpVec, mel, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2]))));
 				tmp = opCode(fmadd_pd, acu, dzcVec, vel);
 				m2l = opCode(fmadd_pd, tmp, dzdVec, mel);
 #else
-				acu = opCode(sub_pd, opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2])), opCode(mul_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec))));
+				acu = opCode(sub_pd, opCode(add_pd, opCode(mul_pd, rpVec, mel), opCode(mul_pd, fMVec, opCode(loadu_pd, &m2[idxM2]))), opCode(mul_pd, zQVec, opCode(sin_pd, opCode(mul_pd, mel, izVec))));
 				tmp = opCode(add_pd, vel, opCode(mul_pd, acu, dzcVec));
 				m2l = opCode(add_pd, mel, opCode(mul_pd, tmp, dzdVec));
 #endif
@@ -147,6 +148,7 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 		const _MData_ dzcVec = opCode(set1_ps, dzc);
 		const _MData_ dzdVec = opCode(set1_ps, dzd);
 		const _MData_ fMVec  = opCode(set1_ps, fMom);
+		const _MData_ rpVec  = opCode(set1_ps, Rpp);
 
 		#pragma omp parallel default(shared)
 		{
@@ -164,11 +166,11 @@ void	sPropThetaKernelXeon(void * __restrict__ m_, void * __restrict__ v_, const
 
 
 #if	defined(__AVX512F__) || defined(__FMA__)
-				acu = opCode(fnmadd_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)), opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])));
+				acu = opCode(fnmadd_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec)), opCode(fmadd_ps, rpVec, mel, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2]))));
 				tmp = opCode(fmadd_ps, acu, dzcVec, vel);
 				m2l = opCode(fmadd_ps, tmp, dzdVec, mel);
 #else
-				acu = opCode(sub_ps, opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2])), opCode(mul_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec))));
+				acu = opCode(sub_ps, opCode(add_ps, opCode(mul_ps, rpVec, mel), opCode(mul_ps, fMVec, opCode(loadu_ps, &m2[idxM2]))), opCode(mul_ps, zQVec, opCode(sin_ps, opCode(mul_ps, mel, izVec))));
 				tmp = opCode(add_ps, vel, opCode(mul_ps, acu, dzcVec));
 				m2l = opCode(add_ps, mel, opCode(mul_ps, tmp, dzdVec));
 #endif
-- 
2.43.0

