From c0b5b329d488b74697c241eb879355607024e366 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 001/130] fix: SCHLICK_VK is registered under its own name

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 138e1fc..6eb71d3 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -45,7 +45,7 @@ std::map<params::input, const param_info> create_map()
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_TD_PD, param_info("RUSIN_TH_TD_PD", 3, "Isotropic Half angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::ISOTROPIC_TV_TL_DPHI, param_info("ISOTROPIC_TV_TL_DPHI", 3, "Isotropic Light/View angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_VH, param_info("RUSIN_VH", 3, "Vector representation of the Half angle only")));
-	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_VK, param_info("SCHLICK_VH", 3, "Vector representation of the Back angle only")));
+	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_VK, param_info("SCHLICK_VK", 3, "Vector representation of the Back angle only")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::ISOTROPIC_TL_TV_PROJ_DPHI, param_info("ISOTROPIC_TL_TV_PROJ_DPHI", 3, "Isoptropic projected phi parametrization.")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_TL_TK_PROJ_DPHI, param_info("SCHLICK_TL_TK_PROJ_DPHI", 3, "Isoptropic projected phi parametrization centered around the back vector.")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RETRO_TL_TVL_PROJ_DPHI, param_info("RETRO_TL_TVL_PROJ_DPHI", 3, "Isoptropic retro projected phi parametrization.")));
-- 
2.43.0


From f7517ad8e0dbc0b933d2eb94afdb371eda83d188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 002/130] fix: RUSIN_TH_PH_TD can be converted, so it has a
 name and a dimension

---
 sources/core/params.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 6eb71d3..af071a6 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -43,6 +43,7 @@ std::map<params::input, const param_info> create_map()
 
 	/* 3D Params */
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_TD_PD, param_info("RUSIN_TH_TD_PD", 3, "Isotropic Half angle parametrization")));
+	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_TH_PH_TD, param_info("RUSIN_TH_PH_TD", 3, "Half angle parametrization without the azimuth of the difference vector")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::ISOTROPIC_TV_TL_DPHI, param_info("ISOTROPIC_TV_TL_DPHI", 3, "Isotropic Light/View angle parametrization")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::RUSIN_VH, param_info("RUSIN_VH", 3, "Vector representation of the Half angle only")));
 	_map.insert(std::make_pair<params::input, const param_info>(params::SCHLICK_VK, param_info("SCHLICK_VK", 3, "Vector representation of the Back angle only")));
-- 
2.43.0


From a0d7284cdb48f3871885741b5ce687ec1aee501a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 003/130] fix: COS_TLR is the cosine between the light and the
 reflected view direction

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index af071a6..948e4dd 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -477,7 +477,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			outvec[0] = invec[0]*invec[3] + invec[1]*invec[4] + invec[2]*invec[5];
 			break;
 		case params::COS_TLR:
-			outvec[0] = invec[0]*invec[3] - (invec[1]*invec[4] + invec[2]*invec[5]);
+			outvec[0] = invec[2]*invec[5] - (invec[0]*invec[3] + invec[1]*invec[4]);
 			break;
 
 			// 2D Parametrizations
-- 
2.43.0


From 825c305b60312dfe49b12f5cd67f350c6db2bcc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 004/130] fix: COS_TK converts to unit directions

---
 sources/core/params.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 948e4dd..e48aa1b 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -105,10 +105,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			half_to_cartesian(acos(invec[0]), 0.0, 0.0, 0.0, outvec);
 			break;
 		case params::COS_TK:
-			outvec[0] = invec[0]*invec[0]-1.0;
+			outvec[0] = - sqrt(1.0-invec[0]*invec[0]);
 			outvec[1] = 0.0;
 			outvec[2] = invec[0];
-			outvec[3] = 1.0-invec[0]*invec[0];
+			outvec[3] = sqrt(1.0-invec[0]*invec[0]);
 			outvec[4] = 0.0;
 			outvec[5] = invec[0];
 			break;
-- 
2.43.0


From 2aeec4a55a773b832d32ee24a67b31a70f7e8b67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 005/130] fix: SCHLICK_VK converts to unit directions that have
 this back vector

---
 sources/core/params.cpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index e48aa1b..ab66733 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -207,14 +207,13 @@ void params::to_cartesian(const double* invec, params::input intype,
 		case params::RUSIN_VH:
             half_to_cartesian(acos(invec[2]), atan2(invec[1], invec[0]), 0.0, 0.0, outvec);
 			break;
-        // \todo I should handle the phi_k in the conversion to CARTESIAN
       case params::SCHLICK_VK:
-            outvec[0] = invec[2]*invec[2]-1.0;
-            outvec[1] = 0.0;
-            outvec[2] = invec[2];
-            outvec[3] = 1.0-invec[2]*invec[2];
-            outvec[4] = 0.0;
-            outvec[5] = invec[2];
+            outvec[0] = - invec[0];
+            outvec[1] = - invec[1];
+            outvec[2] =   invec[2];
+            outvec[3] =   invec[0];
+            outvec[4] =   invec[1];
+            outvec[5] =   invec[2];
             break;
 		case ISOTROPIC_TL_TV_PROJ_DPHI:
 		{
-- 
2.43.0


From 7fd94b4e24a28f8fe54a0da591da2e8f4e6ab59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 006/130] fix: ISOTROPIC_TL_TV_PROJ_DPHI uses the same sign of
 dphi both ways

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index ab66733..4d926c1 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -593,7 +593,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 		{
 			const double theta_l = acos(invec[5]);
 			const double theta_v = acos(invec[2]);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(invec[1], invec[0]);
+			const double dphi    = atan2(invec[1], invec[0]) - atan2(invec[4], invec[3]);
 			outvec[0] = theta_l;
 			outvec[1] = theta_v * cos(dphi);
 			outvec[2] = theta_v * sin(dphi);
-- 
2.43.0


From e2640f786b1cddcaec64737ec256907e3d4b9873 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 007/130] fix: SCHLICK_TL_TK_PROJ_DPHI uses the same sign of
 dphi both ways

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 4d926c1..11a0ff1 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -639,7 +639,7 @@ void params::from_cartesian(const double* invec, params::input outtype,
 			const double vkz     = invec[2]+invec[5];
 			const double norm    = sqrt(vkx*vkx + vky*vky + vkz*vkz);
 			const double theta_k = acos(vkz / norm);
-			const double dphi    = atan2(invec[4], invec[3]) - atan2(vky/norm, vkx/norm);
+			const double dphi    = atan2(vky/norm, vkx/norm) - atan2(invec[4], invec[3]);
 			outvec[0] = acos(invec[5]);
 			outvec[1] = theta_k * cos(dphi);
 			outvec[2] = theta_k * sin(dphi);
-- 
2.43.0


From 26eb2c515f7b7b288b1bfd2743b9923b60433a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 008/130] fix: STEREOGRAPHIC to CARTESIAN inverts the
 projection

---
 sources/core/params.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 11a0ff1..ecce1b1 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -375,16 +375,16 @@ void params::to_cartesian(const double* invec, params::input intype,
          // vector outvec[0,1,2]
          const double normL = invec[0]*invec[0] + invec[1]*invec[1];
          const double alphL = (1.0 - normL) / (1.0 + normL);
-         outvec[0] = invec[0] + alphL;
-         outvec[1] = invec[1] + alphL;
+         outvec[0] = invec[0] * (1.0 + alphL);
+         outvec[1] = invec[1] * (1.0 + alphL);
          outvec[2] = alphL;
 
          // Project the 2D direction on the surface invec[2,3] to the Light
          // vector outvec[3,4,5]
          const double normV = invec[2]*invec[2] + invec[3]*invec[3];
          const double alphV = (1.0 - normV) / (1.0 + normV);
-         outvec[3] = invec[2] + alphV;
-         outvec[4] = invec[3] + alphV;
+         outvec[3] = invec[2] * (1.0 + alphV);
+         outvec[4] = invec[3] * (1.0 + alphV);
          outvec[5] = alphV;
 		}
          break;
-- 
2.43.0


From 6cc24e04571fced732c393a086e99043930dce7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 009/130] fix: RETRO_TL_TVL_PROJ_DPHI to CARTESIAN keeps the
 azimuth of the view direction

---
 sources/core/params.cpp | 17 ++++-------------
 1 file changed, 4 insertions(+), 13 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index ecce1b1..4712be3 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -271,20 +271,11 @@ void params::to_cartesian(const double* invec, params::input intype,
 			// Compute the cosine of the outgoing vector using the
 			// spherical law of cosines
 			const double cos_v = cos_l*cos_vl + cos_phi*sin_l*sin_vl;
-			const double sin_v = sqrt(1.0 - std::min(cos_v*cos_v, 1.0));
 
-			if(sin_v != 0.0)
-			{
-				const double sin_dphi = (sin_vl*sin_phi) / sin_v;
-
-				outvec[0] = sin_v * sqrt(1.0 - std::min(sin_dphi*sin_dphi, 1.0));
-				outvec[1] = sin_v * sin_dphi;
-			}
-			else
-			{
-				outvec[0] = 0.0;
-				outvec[1] = 0.0;
-			}
+			// The view direction is at the angle theta_vl from the light
+			// direction, and cos_phi points from it to the normal.
+			outvec[0] = sin_l*cos_vl - cos_phi*cos_l*sin_vl;
+			outvec[1] = - sin_phi*sin_vl;
 			outvec[2] = cos_v;
 			outvec[3] = sin(invec[0]);
 			outvec[4] = 0.0;
-- 
2.43.0


From ff946ba78961189d9d979df9063cdb930dc80e6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 010/130] fix: STARK_3D to CARTESIAN puts the back vector at
 azimuth phi_B, not phi_B + pi

---
 sources/core/params.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 4712be3..3883d5e 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -296,7 +296,7 @@ void params::to_cartesian(const double* invec, params::input intype,
 #define STARK_BUILDING_THETA
 
 #ifdef STARK_BUILDING_THETA
-			const double Theta  = atan2(-Hz, invec[0]*cosPhi);
+			const double Theta  = atan2(Hz, -invec[0]*cosPhi);
 			const double cosThe = cos(Theta);
 			const double sinThe = sin(Theta);
 #else
-- 
2.43.0


From dab30d384a01e4b87976fe83b2c3adf0f192988c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 011/130] fix: NEUMANN_3D to CARTESIAN uses B = (L-V)/2 as
 documented

---
 sources/core/params.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/core/params.cpp b/sources/core/params.cpp
index 3883d5e..45d4596 100644
--- a/sources/core/params.cpp
+++ b/sources/core/params.cpp
@@ -322,10 +322,10 @@ void params::to_cartesian(const double* invec, params::input intype,
 			const double sinPhi = sin(invec[2]);
 
 			// Build the projected Half and Back vectors
-			outvec[0] =   invec[0] + cosPhi*invec[1];
-			outvec[1] =   sinPhi*invec[1];
-			outvec[3] =   invec[0] - cosPhi*invec[1];
-			outvec[4] = - sinPhi*invec[1];
+			outvec[0] =   invec[0] - cosPhi*invec[1];
+			outvec[1] = - sinPhi*invec[1];
+			outvec[3] =   invec[0] + cosPhi*invec[1];
+			outvec[4] =   sinPhi*invec[1];
 
 			// Safeguard, if the vectors are not under unit length return an
 			// invalid configuration
-- 
2.43.0


From 46573487031951ffda49daa53d0ea6f35a573dee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 012/130] fix: INV_STERADIAN_COSINE_FACTOR has a dimension

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index a89fb93..10c2997 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -298,6 +298,7 @@ class params
             {
                 // 1D Parametrizations
                 case params::INV_STERADIAN:
+                case params::INV_STERADIAN_COSINE_FACTOR:
                 case params::ENERGY:
                     return 1;
                     break;
-- 
2.43.0


From ffecbbe6d8818c4df65aa0cba5bf1c2410fefb2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:32 +0000
Subject: [PATCH 013/130] fix: averaging an output vector starts from zero

---
 sources/core/params.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/params.h b/sources/core/params.h
index 10c2997..734ccf7 100644
--- a/sources/core/params.h
+++ b/sources/core/params.h
@@ -229,6 +229,7 @@ class params
           // input vector values.
           else if(outdim == 1)
           {
+            outvec[0] = 0.0;
             for(int i=0; i<indim; ++i) 
             { 
                 outvec[0] += invec[i]; 
-- 
2.43.0


From cb6bf03139e8c85455d90eb9bb4a2a44bd2b8e91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 014/130] fix: Beckmann derivative with respect to the
 roughness

---
 sources/plugins/nonlinear_function_beckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 0851ea8..581bda3 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -163,7 +163,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = /*g[i] */ expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * h[2])/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*h[2]/(a2*dh2*h[2]));
+				 jac[i*nbParameters() + j*2+1] = -/* g[i] */ _ks[i] * (expo/fac) * (2.0/a) * (1.0 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
-- 
2.43.0


From 48d268cf5b92583bc0a15dfb69b463cff2d0438b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:21 +0000
Subject: [PATCH 015/130] fix: retro Beckmann derivative with respect to the
 roughness

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 3498d86..26c843d 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -152,7 +152,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*2+0] = expo / fac;
 
 				 // df / da_x
-				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/(4.0/*x[2]*x[5]*/)) * ((2* a * dot)/(M_PI*a2*a2*dh2)) * (1 + (dh2 - 1.0)*dot/(a2*dh2*dot));
+				 jac[i*nbParameters() + j*2+1] = - _ks[i] * (expo/fac) * (2.0/a) * (1.0 + (dh2 - 1.0)/(a2*dh2));
 			 }
 			 else
 			 {
-- 
2.43.0


From ded83cb6d49cd6b3a52f4d7240da6d61fd90d5aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 016/130] fix: retro Beckmann uses the dot product of the light
 and view directions

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 26c843d..1362bab 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -53,7 +53,7 @@ vec beckmann_function::value(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
 	vec res = vec::Zero(_parameters.dimY());
@@ -132,7 +132,7 @@ vec beckmann_function::parametersJacobian(const vec& x) const
 	}
 	else
 	{
-		dot = std::max(x[0]*x[3] +  x[2]*x[4] +  x[2]*x[5], 0.0);
+		dot = std::max(x[0]*x[3] +  x[1]*x[4] +  x[2]*x[5], 0.0);
 	}
 
     vec jac(_parameters.dimY()*nbParameters());
-- 
2.43.0


From 763c292a5a7cd5b24fa26adc907b4bdd3cb99e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:22 +0000
Subject: [PATCH 017/130] fix: retro Beckmann loads the lobe type it saves

---
 sources/plugins/nonlinear_function_retrobeckmann/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index 1362bab..a82d1b6 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -225,7 +225,7 @@ bool beckmann_function::load(std::istream& in)
 	}
 
 	in >> token;
-	if(token.compare("RETRO") != 0) 
+	if(token.compare("RETRO") == 0) 
 	{ 
 		_use_back_param = false;
 	}
-- 
2.43.0


From 0b131f35a60b06ab0972af8904eb3c51ce183e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 018/130] fix: Ward derivatives with respect to the roughness

---
 sources/plugins/nonlinear_function_ward/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_ward/function.cpp b/sources/plugins/nonlinear_function_ward/function.cpp
index 7fe5e1c..a859635 100644
--- a/sources/plugins/nonlinear_function_ward/function.cpp
+++ b/sources/plugins/nonlinear_function_ward/function.cpp
@@ -143,10 +143,10 @@ vec ward_function::parametersJacobian(const vec& x) const
 				 jac[i*nbParameters() + j*3+0] = fact * gauss;
 
 				 // df / da_x
-                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * (1.0/ax) * (((2.0*h[0]*hx_ax) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+1] = _ks[i] * fact * (1.0/ax) * gauss * ((2.0*hx_ax*hx_ax) / (h[2]*h[2]) - 1);
 
 				 // df / da_y
-                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * (1.0/ay) * (((2.0*h[1]*hy_ay) / h[2]) * gauss - 1);
+                 jac[i*nbParameters() + j*3+2] = _ks[i] * fact * (1.0/ay) * gauss * ((2.0*hy_ay*hy_ay) / (h[2]*h[2]) - 1);
 			 }
 			 else
 			 {
-- 
2.43.0


From 9a49b63ed724bf81cda287e5af53f4007ece634e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 019/130] fix: normalized Schlick Fresnel allocates its
 parameters

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp    | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index 1adffad..f04da10 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -29,6 +29,7 @@ ALTA_DLL_EXPORT function* provide_function(const parameters& params)
 schlick::schlick(const alta::parameters& params):
     nonlinear_function(params.set_input(6, params::CARTESIAN))
 {
+    R.resize(params.dimY());
 }
 
 //! Load function specific files
-- 
2.43.0


From 93ccd24c059a811675758b695a06e518b8f3089e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 020/130] fix: normalized Schlick Fresnel derivative with
 respect to R

---
 .../plugins/nonlinear_fresnel_normalized_schlick/function.cpp   | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
index f04da10..6a7adfd 100644
--- a/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_normalized_schlick/function.cpp
@@ -191,7 +191,7 @@ vec schlick::parametersJacobian(const vec& x) const
         for(int j=0; j<nY; ++j)
         {
             if(i == j) {
-                jac[j*_parameters.dimY() + i] = - (1.0/R[i]) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
+                jac[j*_parameters.dimY() + i] = - (1.0/(R[i]*R[i])) * pow(1.0 - clamp(dotVH, 0.0, 1.0), 5.0);
             } else {
                 jac[j*_parameters.dimY() + i] = 0.0;
             }
-- 
2.43.0


From eefccb8c6c4c7955ccd39fb2a7f3b4df5dcbfe8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 021/130] fix: ABC derivatives are null where the value is null

---
 sources/plugins/nonlinear_function_abc/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 62d4dce..81d5be4 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -107,9 +107,9 @@ vec abc_function::parametersJacobian(const vec& x) const
 	 {
 		 for(int j=0; j<_parameters.dimY(); ++j)
 		 {
-			 if(i == j)
+			 const double hn = 1.0 - x[0];
+			 if(i == j && hn >= 0.0 && hn <= 1.0)
 			 {
-				 const double hn = 1.0 - x[0];
 				 const double f  = 1.0 + _b[i]*hn;
 				 const double denom = pow(f, _c[i]);
 				 const double fact  = 1.0 / denom;
-- 
2.43.0


From 816e50111a1d441f91bb4c3962c6eafbf0835d91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 022/130] fix: retro Blinn derivative with respect to ks is
 null where the value is null

---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index b140bec..05d4d3e 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -138,7 +138,7 @@ vec retroblinn_function::parametersJacobian(const vec& x) const
 			if(i == j)
 			{
 				// df / dk_s
-				jac[i*nbParameters() + j*2+0] = std::pow(x[0], _N[j]);
+				jac[i*nbParameters() + j*2+0] = (x[0] >= 0.0) ? std::pow(x[0], _N[j]) : 0.0;
 
 				// df / dN
                 if(x[0] <= 0.0)
-- 
2.43.0


From 7ac826b42df0660eaf5d35da0b465042776187a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 023/130] fix: retro Yoo value does not depend on an
 uninitialized vector

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8236e32..a14a48e 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -49,7 +49,7 @@ vec yoo_function::value(const vec& x) const
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		const double q = 2.0 * M_PI * x[0] / 633.0;
-		res[i] *= _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+		res[i] = _kr[i] * factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
 	}
 	return res;
 }
-- 
2.43.0


From 0d2b76e4613cc44d8ce98a4540eebaa6c6beb76a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 024/130] fix: retro Yoo has two parameters per channel

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index a14a48e..8c63ae6 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -63,7 +63,7 @@ int yoo_function::nbParameters() const
 //! Get the vector of parameters for the function
 vec yoo_function::parameters() const 
 {
-	vec res(3*_parameters.dimY());
+	vec res(2*_parameters.dimY());
 	for(int i=0; i<_parameters.dimY(); ++i)
 	{
 		res[i*2 + 0] = _kr[i];
-- 
2.43.0


From e3eb1ee1dca926ebf47cd726deea7feae2ec6666 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 025/130] fix: retro Yoo derivative with respect to the
 transport mean free path

---
 .../plugins/nonlinear_function_retroyoo/function.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 8c63ae6..7b28d62 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -110,13 +110,17 @@ vec yoo_function::parametersJacobian(const vec& x) const
 			if(i == j)
 			{
 				const double q = 2.0 * M_PI * x[0] / 633.0;
-				const double base = factor * (2.4 + 1.0 / (1.0 + q*_lt[i]*_lt[i])) * (1.0 + (1.0 - exp(- 2.0 * q * 0.7 * _lt[i]) / (q*_lt[i])));
+				const double ql   = q*_lt[i];
+				const double expo = exp(- 2.0 * q * 0.7 * _lt[i]);
+				const double A    = 2.4 + 1.0 / (1.0 + ql*_lt[i]);
+				const double B    = 1.0 + (1.0 - expo / ql);
+				const double dA   = - 2.0 * ql / ((1.0 + ql*_lt[i]) * (1.0 + ql*_lt[i]));
+				const double dB   = expo * (1.4 / _lt[i] + 1.0 / (ql*_lt[i]));
 				// df / dk_r
-				jac[i*nbParameters() + j*2+0] = base;
+				jac[i*nbParameters() + j*2+0] = factor * A * B;
 
 				// df / dl_t
-				// \todo
-				jac[i*nbParameters() + j*2+1] = _kr[i] * base;
+				jac[i*nbParameters() + j*2+1] = _kr[i] * factor * (dA * B + A * dB);
 			}
 			else
 			{
-- 
2.43.0


From 52b17c1ac262caaf6202f086d0f1deaf7d6b46c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 026/130] fix: retro Yoo does not save a tag it cannot load

---
 sources/plugins/nonlinear_function_retroyoo/function.cpp | 2 --
 1 file changed, 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retroyoo/function.cpp b/sources/plugins/nonlinear_function_retroyoo/function.cpp
index 7b28d62..3a08f42 100644
--- a/sources/plugins/nonlinear_function_retroyoo/function.cpp
+++ b/sources/plugins/nonlinear_function_retroyoo/function.cpp
@@ -191,8 +191,6 @@ void yoo_function::save_call(std::ostream& out, const arguments& args) const
 	if(is_alta)
 	{
 		out << "#FUNC nonlinear_function_retroyoo" << std::endl ;
-		out << "#TYPE ";
-
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
 			out << "Kr " << _kr[i] << std::endl;
-- 
2.43.0


From 13770e609464f328b06e4b995a7e54dab376c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 027/130] fix: Smith shadowing derivative with respect to the
 roughness

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 6877bb1..b448375 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -229,12 +229,12 @@ vec smith::parametersJacobian(const vec& x) const
     for(int i=0; i<nY; ++i)
         for(int j=0; j<nY; ++j)
         {
-			  if(i == j && x[2] < 1.0) 
+			  if(i == j && x[2] != 1.0) 
 			  {
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
 
-				  jac[j*_parameters.dimY() + i] = (-1.0 / pow(1.0 + v[i], 2)) * exp(-0.5 * r*r) * (r*r*r/w[i] - 2.0*r/w[i]) / sqrt(2.0 * M_PI) ;
+				  jac[j*_parameters.dimY() + i] = - v[i]*v[i] * exp(-0.5 * r*r) / (r * w[i] * sqrt(2.0 * M_PI)) ;
 			  }
 			  else 
 			  {
-- 
2.43.0


From 8cef61b9e996082b2c553748598e66b406155324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 028/130] fix: Smith shadowing is saved under the name of its
 plugin

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index b448375..6c3f5fd 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -51,7 +51,7 @@ bool smith::load(std::istream& in)
 			  return false;
     }
 
-    // Checking for the comment line #FUNC nonlinear_fresnel_smith
+    // Checking for the comment line #FUNC nonlinear_shadowing_smith
     std::string token;
     in >> token;
     if(token != "#FUNC")
@@ -61,7 +61,7 @@ bool smith::load(std::istream& in)
     }
 
     in >> token;
-    if(token != "nonlinear_fresnel_smith")
+    if(token != "nonlinear_shadowing_smith")
     {
         std::cerr << "<<ERROR>> parsing the stream. function name is not the next token." << std::endl;
         return false;
@@ -81,7 +81,7 @@ void smith::save_call(std::ostream& out, const arguments& args) const
 
     if(is_alta)
     {
-        out << "#FUNC nonlinear_fresnel_smith" << std::endl ;
+        out << "#FUNC nonlinear_shadowing_smith" << std::endl ;
         for(int i=0; i<_parameters.dimY(); ++i)
         {
             out << "R " << w[i] << std::endl;
-- 
2.43.0


From 13f24d5ecbf20fddd1d5d71c9aeaf23b86b96bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 029/130] fix: Schlick shadowing is saved under the name of its
 plugin

---
 sources/plugins/nonlinear_shadowing_schlick/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index 3646faa..abe63f3 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -60,7 +60,7 @@ bool schlick_masking::load(std::istream& in)
     }
 
     in >> token;
-    if(token != "nonlinear_masking_schlick")
+    if(token != "nonlinear_shadowing_schlick")
     {
         std::cerr << "<<ERROR>> parsing the stream. function name is not the next token." << std::endl;
         return false;
@@ -80,7 +80,7 @@ void schlick_masking::save_call(std::ostream& out, const arguments& args) const
 
     if(is_alta)
     {
-        out << "#FUNC nonlinear_masking_schlick" << std::endl ;
+        out << "#FUNC nonlinear_shadowing_schlick" << std::endl ;
         for(int i=0; i<_parameters.dimY(); ++i)
         {
             out << "K " << w[i] << std::endl;
-- 
2.43.0


From 4f70a8037711363a19dfefbac1d6a17765c93cb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 030/130] fix: retro Schlick is saved under the name of its
 plugin

---
 sources/plugins/nonlinear_fresnel_retroschlick/function.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
index 03ed6b5..dd8a4af 100644
--- a/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
+++ b/sources/plugins/nonlinear_fresnel_retroschlick/function.cpp
@@ -134,7 +134,7 @@ bool retro_schlick::load(std::istream& in)
 			return false;
 	}
 
-	// Checking for the comment line #FUNC nonlinear_fresnel_retro_schlick
+	// Checking for the comment line #FUNC nonlinear_fresnel_retroschlick
 	std::string token;
 	in >> token;
 	if(token != "#FUNC")
@@ -144,7 +144,7 @@ bool retro_schlick::load(std::istream& in)
 	}
 
 	in >> token;
-	if(token != "nonlinear_fresnel_retro_schlick")
+	if(token != "nonlinear_fresnel_retroschlick")
 	{
 		std::cerr << "<<ERROR>> parsing the stream. function name is not the next token." << std::endl;
 		return false;
@@ -163,7 +163,7 @@ void retro_schlick::save_call(std::ostream& out, const arguments& args) const
 
 	if(is_alta)
 	{
-		out << "#FUNC nonlinear_fresnel_retro_schlick" << std::endl ;
+		out << "#FUNC nonlinear_fresnel_retroschlick" << std::endl ;
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
 			out << "R " << R[i] << std::endl;
-- 
2.43.0


From 017f8255a6022d2928d71c8bc6195072c4128c96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:02 +0000
Subject: [PATCH 031/130] fix: the diffuse function has no parameter unless
 FIT_DIFFUSE

---
 sources/plugins/nonlinear_function_diffuse/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_diffuse/function.cpp b/sources/plugins/nonlinear_function_diffuse/function.cpp
index 1431c44..930126e 100644
--- a/sources/plugins/nonlinear_function_diffuse/function.cpp
+++ b/sources/plugins/nonlinear_function_diffuse/function.cpp
@@ -135,7 +135,7 @@ vec diffuse_function::parameters() const
         res[i*3 + 0] = _kd[i];
     }
 #else
-    vec res(1);
+    vec res(0);
 #endif
     return res;
 }
@@ -172,7 +172,7 @@ vec diffuse_function::parametersJacobian(const vec& x) const
 			}
 		}
 #else
-	vec jac(1);
+	vec jac(0);
 #endif
 
     return jac;
-- 
2.43.0


From b8580c980fb66c515fd3b065c873a2fdd5663aab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 032/130] fix: Walter-Smith shadowing uses the published
 coefficient 2.276

---
 sources/plugins/nonlinear_shadowing_walter_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index 6916c43..ba909e9 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -136,7 +136,7 @@ WalterSmith::save_body(std::ostream& out, const arguments& args) const
         << "\t } else { "  << std::endl
         << "\t\t " << std::endl
         << "\t\t float num   = (3.535 + 2.181*a)*a;"  << std::endl
-        << "\t\t float denom = (2.267 + 2.577*a)*a + 1.0;" << std::endl
+        << "\t\t float denom = (2.276 + 2.577*a)*a + 1.0;" << std::endl
         << "\t\t return num/denom;" << std::endl
         << "\t }"
         << "}" << std::endl << std::endl;
@@ -325,7 +325,7 @@ double  WalterSmith::shadowTerm( double a ) const
     else
     {
       double const num   = (3.535 + 2.181*a)*a;
-      double const denom = (2.267 + 2.577*a)*a + 1.0;
+      double const denom = (2.276 + 2.577*a)*a + 1.0;
 
       return num / denom;
     }
-- 
2.43.0


From d8f2edecf079576a38f18437d1a9374a9cec4704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 033/130] fix: Walter-Smith derivative is null where the
 shadowing term is constant

---
 .../plugins/nonlinear_shadowing_walter_smith/function.hpp   | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
index 600e043..bc3cae9 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.hpp
@@ -220,6 +220,12 @@ inline
 float
 WalterSmith::partialDerivative( float alpha, float tangent_value) const
 {
+  // The shadowing term is constant beyond 1.6
+  if( 1.0 / ( alpha * tangent_value ) >= 1.6 )
+  {
+    return 0.0f;
+  }
+
   //Exported from Maple 
   float const t1 = tangent_value;
   float const t2 = alpha * t1;
-- 
2.43.0


From c00543d5c9f5f2ca1471d4f8879d37dd0897d8d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 034/130] fix: retro spherical Gaussian is centered on the
 light direction

---
 .../nonlinear_function_spherical_gaussian/function.cpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index f486e3d..06d52dc 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -65,6 +65,10 @@ double spherical_gaussian_function::compute_dot(const vec& x) const
 	{
 		params::convert(&x[0], params::CARTESIAN, params::COS_TK, &dot);
 	}
+	else if(_type == Retro)
+	{
+		params::convert(&x[0], params::CARTESIAN, params::COS_TLV, &dot);
+	}
 	else if(_type == Moment)
 	{
 		double spherical[4];
-- 
2.43.0


From 64223d661243779817c3c8c58450e2fd260d3f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 035/130] fix: derivative of the moment spherical Gaussian with
 respect to a

---
 .../nonlinear_function_spherical_gaussian/function.cpp     | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index 06d52dc..b126667 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -212,12 +212,13 @@ vec spherical_gaussian_function::parametersJacobian(const vec& x) const
 			 // df / da
 			 double spherical[4];
 			 params::convert(&x[0], params::CARTESIAN, params::SPHERICAL_TL_PL_TV_PV, &spherical[0]);
-			 spherical[1] += 0.5* M_PI;
+			 const double phi = spherical[1];
+			 spherical[1] = _a*phi + 1.5*M_PI;
 
 			 double cart[6];
 			 params::convert(&spherical[0], params::SPHERICAL_TL_PL_TV_PV, params::CARTESIAN, &cart[0]);
-			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4] + cart[2]*cart[5];
-			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * _a * dot2;
+			 double dot2 = cart[0]*cart[3] + cart[1]*cart[4];
+			 jac[i*nbParameters() + nbParameters()-1] = _ks[i] * _n[i] * exp(_n[i] * (dot - 1)) * phi * dot2;
 
 		 }
 	 }
-- 
2.43.0


From 5ed66ff4181075fae182829dba29a49bc4935440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 036/130] fix: the type of a spherical Gaussian lobe is saved
 and loaded

---
 .../function.cpp                               | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
index b126667..167703f 100644
--- a/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
+++ b/sources/plugins/nonlinear_function_spherical_gaussian/function.cpp
@@ -293,6 +293,21 @@ bool spherical_gaussian_function::load(std::istream& in)
         return false;
 	}
 
+	// Parse the lobe type, a mirror lobe when there is none
+	_type = Mirror;
+	in >> std::ws;
+	if(in.peek() == '#')
+	{
+		int type = Mirror;
+		in >> token >> type;
+		if(token.compare("#TYPE") != 0 || type < Mirror || type > Moment)
+		{
+			std::cerr << "<<ERROR>> parsing the stream. The lobe type is not valid." << std::endl;
+			return false;
+		}
+		_type = static_cast<enum type>(type);
+	}
+
 	// Parse the lobe
     for(int i=0; i<_parameters.dimY(); ++i)
 	{
@@ -320,6 +335,7 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
     if(is_alta)
     {
 		out << "#FUNC nonlinear_function_spherical_gaussian" << std::endl ;
+		out << "#TYPE " << static_cast<int>(_type) << std::endl;
 
          for(int i=0; i<nY; ++i)
 		 {
@@ -329,7 +345,7 @@ void spherical_gaussian_function::save_call(std::ostream& out, const arguments&
 	
 		 if(_type == Moment)
 		 {
-			 out << "a  " << _a;
+			 out << "a  " << _a << std::endl;
 		 }
 
 		 out << std::endl;
-- 
2.43.0


From 5714d98b0eb1f7b15c4dcbdef6204ea83e740595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 037/130] fix: lafortune_function initializes its number of
 lobes

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index d5a8033..167e20b 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -29,7 +29,8 @@ ALTA_DLL_EXPORT function* provide_function(const alta::parameters& params)
 }
 
 lafortune_function::lafortune_function(const alta::parameters& params) :
-    nonlinear_function(params)
+    nonlinear_function(params),
+    _n(1), _isotropic(false)
 {
     auto nY = params.dimY();
 
-- 
2.43.0


From d7d811fc61ffaec9bb866560a8321b81e1ce3d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 038/130] fix: each Lafortune lobe loads its own exponent

---
 sources/plugins/nonlinear_function_lafortune/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 167e20b..5defa41 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -417,7 +417,7 @@ bool lafortune_function::load(std::istream& in)
 			in >> token >> _C[(n*_nY + i)*3 + 0];
             in >> token >> _C[(n*_nY + i)*3 + 1];
 			in >> token >> _C[(n*_nY + i)*3 + 2];
-			in >> token >> _N[i];
+			in >> token >> _N[n*_nY + i];
 		}
 
 	}
-- 
2.43.0


From a83572fa249d527e9f54394d50ca169187aefc72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:36 +0000
Subject: [PATCH 039/130] fix: the diffuse term of a Lafortune function is
 saved and loaded

---
 .../nonlinear_function_lafortune/function.cpp | 30 +++++++++++++++++--
 1 file changed, 28 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 5defa41..907d209 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -407,8 +407,27 @@ bool lafortune_function::load(std::istream& in)
 	 in >> token >> nb_lobes;
 	 setNbLobes(nb_lobes);
 
-	// Parse the lobe
     const int _nY = _parameters.dimY();
+
+	// Parse the diffuse term, null when there is none
+	in >> std::ws;
+	const bool has_diffuse = in.peek() == '#';
+	if(has_diffuse)
+	{
+		in >> token;
+		if(token != "#KD")
+		{
+			std::cerr << "<<ERROR>> parsing the stream. The #KD is not the next line defined." << std::endl;
+			return false;
+		}
+	}
+	for(int i=0; i<_nY; ++i)
+	{
+		_kd[i] = 0.0;
+		if(has_diffuse) { in >> _kd[i]; }
+	}
+
+	// Parse the lobe
 	for(int n=0; n<_n; ++n)
 	{
 		for(int i=0; i<_nY; ++i)
@@ -437,13 +456,20 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
         out << "#FUNC nonlinear_function_lafortune" << std::endl ;
         out << "#NB_LOBES " << _n << std::endl ;
 
+        out << "#KD";
+        for(int i=0; i<_nY; ++i)
+        {
+            out << " " << _kd[i];
+        }
+        out << std::endl;
+
         for(int n=0; n<_n; ++n)
         {
 
             for(int i=0; i<_nY; ++i)
             {
                 out << "Cx " << _C[(n*_nY + i)*3 + 0] << std::endl;
-                out << "Cx " << _C[(n*_nY + i)*3 + 1] << std::endl;
+                out << "Cy " << _C[(n*_nY + i)*3 + 1] << std::endl;
                 out << "Cz " << _C[(n*_nY + i)*3 + 2] << std::endl;
                 out << "N  " << _N[n*_nY + i] << std::endl;
 
-- 
2.43.0


From 46eeed8002621c5db4ecd672a87f39bc3abc44b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 040/130] fix: bootstrap from a file without a header
 terminates

---
 sources/core/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 1534a1e..a79131b 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -574,7 +574,7 @@ void compound_function::bootstrap(const ::ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				// Load the file
 				// For each individual element, the input file is parsed
@@ -972,7 +972,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				{
 					std::getline(file, line) ;
 				}
-				while(line != "#ALTA HEADER END");
+				while(file.good() && line != "#ALTA HEADER END");
 
 				std::streampos pos = file.tellg();
 
-- 
2.43.0


From 64050f45598738bed295864020baed44ef6edd74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:47 +0000
Subject: [PATCH 041/130] fix: bootstrap of a product does not rewind before
 its first function

---
 sources/core/function.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index a79131b..cd26ba9 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -989,6 +989,7 @@ void product_function::bootstrap(const ptr<data> d, const arguments& args)
 				
 				// If the second function cannot be loaded, put the input stream
 				// in the previous state and bootstrap normaly this function.
+				pos = file.tellg();
 				if(!f2->load(file))
 				{
 					file.seekg(pos);
-- 
2.43.0


From 55a478cfb1964128dcfe075008a1e0b0ef89d5d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:58 +0000
Subject: [PATCH 042/130] fix: the output parametrization of a function is
 saved

---
 sources/core/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index cd26ba9..c765383 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -136,7 +136,7 @@ void function::save_header(std::ostream& out, const arguments& args) const
 		out << "#CMD " << args.get_cmd() << std::endl;
 		out << "#DIM " << parametrization().dimX() << " " << parametrization().dimY() << std::endl;
 		out << "#PARAM_IN  " << params::get_name(parametrization().input_parametrization()) << std::endl;
-		//out << "#PARAM_OUT " << params::get_name(output_parametrization()) << std::endl;*
+		out << "#PARAM_OUT " << params::get_name(parametrization().output_parametrization()) << std::endl;
 		if(args.is_defined("export-append")) 
 		{
 			out << args["export-append"] << std::endl;
-- 
2.43.0


From 5eb61241575839371f70bc2be6febbad1a079796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:21 +0000
Subject: [PATCH 043/130] fix: Smith's masking is one only when its own
 direction is the normal

---
 sources/plugins/nonlinear_shadowing_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_smith/function.cpp b/sources/plugins/nonlinear_shadowing_smith/function.cpp
index 6c3f5fd..c4bdf4b 100644
--- a/sources/plugins/nonlinear_shadowing_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_smith/function.cpp
@@ -147,7 +147,7 @@ vec smith::value(const vec& x) const
 {
 	vec res(_parameters.dimY());
     //RP: The Step functions are missing ???? !!!
-	if(x[2] == 1.0)
+	if(x[5] == 1.0)
 	{
 		for(int i=0; i<_parameters.dimY(); ++i)
 		{
@@ -229,7 +229,7 @@ vec smith::parametersJacobian(const vec& x) const
     for(int i=0; i<nY; ++i)
         for(int j=0; j<nY; ++j)
         {
-			  if(i == j && x[2] != 1.0) 
+			  if(i == j && x[5] != 1.0) 
 			  {
 				  const double mu = x[5] / sqrt(x[3]*x[3] + x[4]*x[4]);
 				  const double r = mu / w[i];
-- 
2.43.0


From d55cd67832d5123cb765d3307665a2acbc5a8fd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:21 +0000
Subject: [PATCH 044/130] fix: the header ends where the format says, and never
 inside binary data

---
 sources/core/args.h | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 15ee362..e3aae46 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -486,16 +486,18 @@ class arguments
 							if (key == "ALTA") {
 								std::string first, second;
 								linestream >> first >> second;
-								if (second == "HEADER")	{
+								if (first == "END" || second == "END") {
+									break;
+								} else if (second == "HEADER") {
 
 									// Add the header type
-									if (first != "END") {
-										args.update("TYPE", second);
-									} else {
-										break;
-									}
+									args.update("TYPE", first);
 								}
 
+                    // What follows is binary data, not a header
+							} else if (key == "BEGIN_STREAM") {
+								break;
+
                     // Store the line into the argument
 							} else {
 								while(!linestream.eof()	&& std::isspace(linestream.peek()))	{
-- 
2.43.0


From e4c0acc42986e56249fe812331e5b0853be891b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 045/130] fix: --dt-max takes the larger size for the lower
 bound too

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index cf76980..5a3b260 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -129,7 +129,7 @@ static void read_confidence_interval(std::istream& input,
         }
         else if(args.is_defined("dt-max"))
         {
-            v(dimX +   dimY+i) = v(dimX + i) + std::max(v(dimX + i) * min_dt, min_dt);
+            v(dimX +   dimY+i) = v(dimX + i) + std::min(v(dimX + i) * min_dt, min_dt);
             v(dimX + 2*dimY+i) = v(dimX + i) + std::max(v(dimX + i) * max_dt, max_dt);
         }
         else
-- 
2.43.0


From 8c30b20cc435f4195ff3dd324a92e8adf691258f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 046/130] fix: upper bound of a symmetrical interval is above
 the value

---
 sources/core/vertical_segment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 8b8ca79..6a395a0 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -125,7 +125,7 @@ void vertical_segment::get(int i, vec& x, vec& yl, vec& yu) const
 	case SYMMETRICAL_CONFIDENCE_INTERVAL:
 	    yl = y - row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
-	    yu = y - row.segment(_parameters.dimX() + _parameters.dimY(),
+	    yu = y + row.segment(_parameters.dimX() + _parameters.dimY(),
 			         _parameters.dimY());
 	    break;
 	
-- 
2.43.0


From 346314583ea7aa5e69855f4e3e903f20e7a046e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 047/130] fix: the documented --data-positive option is
 honoured

---
 sources/core/data_storage.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 5a3b260..001f647 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -141,7 +141,7 @@ static void read_confidence_interval(std::istream& input,
         // You can enforce the vertical segment to stay in the positive
         // region using the --data-positive command line argument. Note
         // that the data point is also clamped to zero if negative.
-        if(args.is_defined("dt-positive"))
+        if(args.is_defined("data-positive") || args.is_defined("dt-positive"))
         {
             v(dimX +        i) = std::max(v(dimX +        i), 0.0);
             v(dimX +   dimY+i) = std::max(v(dimX +   dimY+i), 0.0);
-- 
2.43.0


From 18f47419b30b255a0f535c8b3c8b47c4fb316278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:22 +0000
Subject: [PATCH 048/130] fix: default tolerance of data::equals is not 1

---
 sources/core/data.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/data.h b/sources/core/data.h
index ecd7797..cb35c9b 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -82,7 +82,7 @@ class data
     //! \brief Return true if this object is equal to DATA ±ε.
     virtual bool equals(const data& data,
                         double epsilon =
-                        std::pow(1.0, -int(std::numeric_limits<double>::digits10 - 1)));
+                        std::pow(10.0, -int(std::numeric_limits<double>::digits10 - 1)));
 
 
     const parameters& parametrization() const {
-- 
2.43.0


From d90186df9db0805ca66bdb9a2a5d5ee4eaaf39fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 049/130] fix: text data can give an interval for every output,
 as documented

---
 sources/core/data_storage.cpp | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 001f647..19ed455 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -85,10 +85,23 @@ static int number_from_ci_kind(vertical_segment::ci_kind kind)
                ? 1 : 0);
 }
 
+// Return the interval kinds listed in VS, the value of a '#VS' header: one
+// number per output.
+static std::vector<vertical_segment::ci_kind>
+ci_kinds_from_header(const std::string& vs)
+{
+    std::vector<vertical_segment::ci_kind> kinds;
+    std::stringstream stream(vs);
+    int number;
+    while (stream >> number)
+        kinds.push_back(ci_kind_from_number(number));
+    return kinds;
+}
+
 // Read a confidence interval on the output parameters from INPUT into V.
 static void read_confidence_interval(std::istream& input,
                                      vecref v,
-                                     vertical_segment::ci_kind kind,
+                                     const std::vector<vertical_segment::ci_kind>& kinds,
                                      unsigned int dimX,
                                      unsigned int dimY,
                                      const alta::arguments& args)
@@ -99,7 +112,11 @@ static void read_confidence_interval(std::istream& input,
     {
         double min_dt = 0.0, max_dt = 0.0;
 
-        if(i == 0 && kind == vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL)
+        // Outputs that VS does not mention have no interval in INPUT.
+        const auto kind = i < kinds.size()
+            ? kinds[i] : vertical_segment::NO_CONFIDENCE_INTERVAL;
+
+        if(kind == vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL)
         {
             input >> min_dt ;
             input >> max_dt ;
@@ -107,7 +124,7 @@ static void read_confidence_interval(std::istream& input,
             //max_dt = max_dt-v(dimX + i);
             min_dt = -min_dt;
         }
-        else if(i == 0 && kind == vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL)
+        else if(kind == vertical_segment::SYMMETRICAL_CONFIDENCE_INTERVAL)
         {
             double dt ;
             input >> dt ;
@@ -185,7 +202,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
   std::cout << "<<DEBUG>> data will remove outside of " << ymin << " -> " << ymax << " y-interval" << std::endl;
 #endif
 
-  auto kind = ci_kind_from_number(header.get_int("VS"));
+  auto kinds = ci_kinds_from_header(header["VS"]);
   std::vector<double> content;
 
   std::cout << "<<INFO>> Starting to load file ... " << std::endl;
@@ -221,7 +238,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
       Map<VectorXd> v(&content[start], row_count);
 
       // Read the confidence interval data if available.
-      read_confidence_interval(linestream, v, kind,
+      read_confidence_interval(linestream, v, kinds,
                                dim.first, dim.second, args);
 
       // Check if we need to filter out what we just read according to ARGS.
-- 
2.43.0


From a9c792c3e42a1dea3a32afb0213a4cb3b4c41fb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:13 +0000
Subject: [PATCH 050/130] fix: rows of text data that lack numbers are an
 error, not garbage

---
 sources/core/data_storage.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 19ed455..aec1991 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -215,7 +215,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
     std::stringstream linestream(line) ;
 
     // Discard comments and empty lines.
-    if(line.empty() || linestream.peek() == '#')
+    if(line.find_first_not_of(" \t\r") == std::string::npos || linestream.peek() == '#')
     {
       continue ;
     }
@@ -223,6 +223,9 @@ alta::data* alta::load_data_from_text(std::istream& input,
     {
       auto start = content.size();
 
+      // A row that lacks numbers is an error, as it is in binary files.
+      linestream.exceptions(std::ios_base::failbit);
+
       // Read the data point x and y coordinates
       for(int i=0; i < dim.first + dim.second; ++i)
       {
-- 
2.43.0


From 81dc874468ac308c55dc57fd2755e7142d824ec1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:41 +0000
Subject: [PATCH 051/130] fix: --data-correct-cosine divides values and their
 bounds by both cosines

---
 sources/core/data_storage.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index aec1991..757bf6b 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -39,16 +39,16 @@ static bool cosine_correction(vecref v, unsigned int dimX, unsigned int dimY,
 {
     using namespace alta;
 
-    assert(v.size() == dimX + dimY);
+    assert(v.size() == dimX + 3 * dimY);
 
-    // Correction of the data by 1/cosine(theta_L)
+    // Divide the values, and their bounds, by cosine(theta_L) cosine(theta_V)
     double factor = 1.0;
     double cart[6];
     params::convert(&v(0), in_param, params::CARTESIAN, cart);
     if(cart[5] > 0.0 && cart[2] > 0.0)
     {
-        factor = 1.0/cart[5]*cart[2];
-        for(unsigned int i = 0; i < dimY; ++i)
+        factor = cart[5]*cart[2];
+        for(unsigned int i = 0; i < 3 * dimY; ++i)
         {
             std::cout << "i = " << i << " dimx = " << dimX
                       << " + = " << i + dimX << " | " << v.size()
@@ -254,8 +254,7 @@ alta::data* alta::load_data_from_text(std::istream& input,
       }
       else if (args.is_defined("data-correct-cosine"))
       {
-          if (!cosine_correction(v.segment(0, dim.first + dim.second),
-                                 dim.first, dim.second, in_param))
+          if (!cosine_correction(v, dim.first, dim.second, in_param))
               content.resize(start);
       }
     }
-- 
2.43.0


From 20402a60d3309ff20629c5360a2db1566069a142 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 052/130] fix: a negative number can be the value of a
 command-line option

---
 sources/core/args.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index e3aae46..32adfe1 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -66,7 +66,7 @@ class arguments
             if(++i < argc)
             {
                 std::string next(argv[i]) ;
-                if(next[0] == '-')
+                if(next.compare(0, 2, "--") == 0)
                 {
                     --i;
                 }
-- 
2.43.0


From bc6b0837969fabc06400d2b78d252c6a5839b32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 053/130] fix: a scalar given for a vector option keeps its
 precision

---
 sources/core/args.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 32adfe1..0241c6e 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -266,7 +266,9 @@ class arguments
 				}
 			}
 
-			float val = get_float(key, default_value);
+			// Keep the precision the elements of [a, b, c] have
+			double val = is_defined(key) ? atof(_map.find(key)->second.c_str())
+			                             : default_value;
 			for(int i=0; i<size; ++i)
 			{
 				res[i] = val;
-- 
2.43.0


From 47f0d364b6ccf63196b209261b8d7943a807d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:07 +0000
Subject: [PATCH 054/130] fix: pairs with missing elements are not left
 uninitialised

---
 sources/core/args.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/core/args.h b/sources/core/args.h
index 0241c6e..a93ee9b 100644
--- a/sources/core/args.h
+++ b/sources/core/args.h
@@ -363,7 +363,8 @@ class arguments
 				std::string str = _map.find(key)->second;
 				std::stringstream sstream(str);
 
-				T first, second;
+				// Elements that are missing keep the value T()
+				T first = T(), second = T();
 				sstream >> first >> second;
 
 				// Update the pair
-- 
2.43.0


From 151c312fff90fe458f7ccb7b635c150d268939dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 055/130] fix: degrees of coefficients added by
 rational_function_1d::update

---
 sources/core/rational_function.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 7d2bced..0ba7e5d 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -182,7 +182,9 @@ void rational_function_1d::update(const vec& in_a,
   const unsigned int np = in_a.size();
   const unsigned int nq = in_b.size();
 
-	// Resize the coefficient vector if they do not match
+	// Resize the coefficient vector if they do not match. The degrees of the
+	// additional coefficients have to be defined too.
+	resize(np, nq);
 	if(np != _p_coeffs.size()) {
 		_p_coeffs.resize(np);
 	}
-- 
2.43.0


From f59fc8187190dd6e6857c2fd9baed6c3f68eb4cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 056/130] fix: p(x) and q(x) of a rational function add to an
 uninitialised value

---
 sources/core/rational_function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 0ba7e5d..ff0b99e 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -265,7 +265,7 @@ void rational_function_1d::resize(unsigned int np, unsigned int nq)
 // Get the p_i and q_j function
 vec rational_function_1d::p(const vec& x) const
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _p_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
@@ -277,7 +277,7 @@ vec rational_function_1d::p(const vec& x) const
 }
 vec rational_function_1d::q(const vec& x) const 
 {
-	vec res(1) ;
+	vec res = vec::Zero(1) ;
 
 	const unsigned int np = _q_coeffs.size() ;
 	for(unsigned int i=0; i<np; ++i)
-- 
2.43.0


From f3466240fb5dfe7dd87f14c141dab65aec062f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:33:40 +0000
Subject: [PATCH 057/130] fix: a rational function is printed to the given
 stream

---
 sources/core/rational_function.cpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index ff0b99e..87aa4aa 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -487,27 +487,27 @@ std::ostream& operator<< (std::ostream& out, const rational_function_1d& r)
    const unsigned int np = p.size();
    const unsigned int nq = q.size();
 
-	std::cout << "p = [" ;
+	out << "p = [" ;
 	for(unsigned int i=0; i<np; ++i)
 	{
 		if(i != 0)
 		{
-			std::cout << ", " ;
+			out << ", " ;
 		}
-     std::cout << p[i];
+     out << p[i];
 	}
-	std::cout << "]" << std::endl ;
+	out << "]" << std::endl ;
 
-	std::cout << "q = [" ;
+	out << "q = [" ;
 	for(unsigned int i=0; i<nq; ++i)
 	{
 		if(i != 0)
 		{
-			std::cout << ", " ;
+			out << ", " ;
 		}
-     std::cout << q[i];
+     out << q[i];
 	}
-	std::cout << "]" << std::endl ;
+	out << "]" << std::endl ;
 
 	return out ;
 }
-- 
2.43.0


From 84dcd92ecf1cdca0a7162abab3ec3d4eb280a875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 058/130] fix: ceres fitter: Jacobian of the logarithmic
 residual

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 202a7ce..3ebd01f 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -74,7 +74,7 @@ class CeresFunctor : public ceres::CostFunction
 
 			if(dy != NULL)
 			{
-				df(_di, dy);
+				df(_yi, dy);
 			}
 
 			return true;
@@ -82,7 +82,7 @@ class CeresFunctor : public ceres::CostFunction
 
 		// The parameter of the function _f should be set prior to this function
 		// call. If not it will produce undesirable results.
-		virtual void df(const vec& di, double ** fjac) const
+		virtual void df(const vec& yi, double ** fjac) const
 		{
 			// Get the jacobian of the function at position x_i for the current
 			// set of parameters (set prior to function call)
@@ -95,7 +95,7 @@ class CeresFunctor : public ceres::CostFunction
 				// Fill the columns of the matrix
 				for(int j=0; j<_f->nbParameters(); ++j)
 				{
-                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + di[i]) : _jac[i*_f->nbParameters() + j]);
+                    fjac[0][i*_f->nbParameters() + j] = - ((_log_fit) ? _jac[i*_f->nbParameters() + j]/(1.0 + yi[i]) : _jac[i*_f->nbParameters() + j]);
 				}
          }
 		}
-- 
2.43.0


From d8e3a9d88c9f73c3161b4295f5ee60ec71d8d9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 059/130] fix: ceres fitter: gradient and parameter tolerances
 overwrote the function tolerance

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 3ebd01f..5e59c2b 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -213,13 +213,13 @@ void nonlinear_fitter_ceres::set_parameters(const arguments& args)
     std::string const GRADIENT_TOLERANCE_OPTION = "ceres-gradient-tolerance";
     if( args.is_defined(GRADIENT_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
+      options.gradient_tolerance = args.get_double(GRADIENT_TOLERANCE_OPTION, 1e-10); //Default value = 1e-10
     }
 
     std::string const PARAMETER_TOLERANCE_OPTION = "ceres-parameter-tolerance";
     if( args.is_defined(PARAMETER_TOLERANCE_OPTION))
     {
-      options.function_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
+      options.parameter_tolerance = args.get_double(PARAMETER_TOLERANCE_OPTION, 1e-8); //Default value = 1e-8
     }
 
 
-- 
2.43.0


From d0bf5ae2830369fa3dabda1a85965e964a4f70f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 060/130] fix: ceres fitter: report the failure of the solver

---
 sources/plugins/nonlinear_fitter_ceres/fitter.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
index 5e59c2b..1af7e70 100644
--- a/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_ceres/fitter.cpp
@@ -176,6 +176,12 @@ bool nonlinear_fitter_ceres::fit_data(const ptr<data>& d, ptr<function>& fit, co
 #ifdef DEBUG
 	 std::cout << summary.BriefReport() << std::endl;
 #endif
+	 if(!summary.IsSolutionUsable())
+	 {
+		 std::cerr << "<<ERROR>> the solver failed: " << summary.message << std::endl;
+		 return false;
+	 }
+
 	 std::cout << "<<INFO>> found parameters: " << p << std::endl;
 
 	 nf->setParameters(p);
-- 
2.43.0


From 85f3e60cf83eec63bd969ee5e189a838d8401c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:42 +0000
Subject: [PATCH 061/130] fix: nlopt fitter: the relative function tolerance
 was set on the parameters

---
 sources/plugins/nonlinear_fitter_nlopt/fitter.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
index a5ea002..476e062 100644
--- a/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
+++ b/sources/plugins/nonlinear_fitter_nlopt/fitter.cpp
@@ -251,16 +251,16 @@ bool nonlinear_fitter_nlopt::fit_data(const ptr<data>& d, ptr<function>& fit, co
 	//Cf. here : http://ab-initio.mit.edu/wiki/index.php/NLopt_Introduction#Termination_conditions
 
 	//Set by default 1e-4 as relative function tolerance
-	nlopt_set_xtol_rel(opt, 1e-4);
+	nlopt_set_ftol_rel(opt, 1e-4);
 
 	//Parse  other options related to stopping criterion
 	std::string const FUNC_TOLERANCE = "nlop-relative-function-tolerance";
 	if( args.is_defined(FUNC_TOLERANCE) )
 	{
 			double const new_func_tol = args.get_double(FUNC_TOLERANCE,1e-4);			
-			res = nlopt_set_xtol_rel(opt, new_func_tol );		
+			res = nlopt_set_ftol_rel(opt, new_func_tol );		
 			
-			if( res < 0 ) { print_nlopt_error(res, "nlopt_set_xtol_rel"); }
+			if( res < 0 ) { print_nlopt_error(res, "nlopt_set_ftol_rel"); }
 	}
 
 	//Absolute Tolerance Function on a value
-- 
2.43.0


From 95ffa3b467e79df1ec24fa132c8d3b912ef9014e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 062/130] fix: parallel rational fitter: the linear term of the
 quadratic program was not initialised

---
 sources/plugins/rational_fitters/quadratic_program.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadratic_program.h b/sources/plugins/rational_fitters/quadratic_program.h
index 196a806..1b31321 100644
--- a/sources/plugins/rational_fitters/quadratic_program.h
+++ b/sources/plugins/rational_fitters/quadratic_program.h
@@ -99,7 +99,7 @@ class quadratic_program
          const int n = CI.cols();
 
          Eigen::MatrixXd G (m, m) ;
-         Eigen::VectorXd g (m) ;
+         Eigen::VectorXd g (m) ; g.setZero();
          Eigen::VectorXd ci(n) ;
          Eigen::MatrixXd CE(m, 0) ;
          Eigen::VectorXd ce ;
-- 
2.43.0


From 494a0bdcd6ff770d8ba69f1f4bee6d18e6be0d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 063/130] fix: parallel rational fitter: do not use the
 coefficients of an unsolved program

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index f9da136..bd761c1 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -329,10 +329,10 @@ class rational_fitter_parallel : public fitter
 #endif
             Eigen::VectorXd x(n);
             bool solves_qp = qp.solve_program(x, delta, p, q);
-            r->update(p, q);
 
             if(solves_qp)
             {
+               r->update(p, q);
                if(qp.test_constraints(ny, r, d))
                {
 #ifdef DEBUG
-- 
2.43.0


From 73120d38379a49c16a6bda6cce7ffc0d6716656d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 064/130] fix: parallel rational fitter: --nb-starting-points
 was ignored

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index bd761c1..44ddd46 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -139,7 +139,7 @@ class rational_fitter_parallel : public fitter
          const int _max_np = args.get_int("np", _min_np);
          std::cout << "<<INFO>> N in  [" << _min_np << ", " << _max_np << "]"  << std::endl ;
 
-         const int nb_starting_points = args.get_int("nb-starting-points", 100);
+         nb_starting_points = std::max(args.get_int("nb-starting-points", 100), 2);
          std::cout << "<<INFO>> number of data point used in start: " << nb_starting_points << std::endl;
 
          const int  step      = args.get_int("np-step", 1);
-- 
2.43.0


From 39843ae3864f082b5607a49c97056e3df3fa880a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:58 +0000
Subject: [PATCH 065/130] fix: parallel rational fitter: the program with all
 the constraints was never solved

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 44ddd46..8f5f662 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -348,7 +348,7 @@ class rational_fitter_parallel : public fitter
 #endif
                return false;
             }
-         } while(qp.nb_constraints() < 2*m);
+         } while(qp.nb_constraints() <= 2*m);
 
          return false;
       }
-- 
2.43.0


From b517a7db5507fa281bdcee7090149416548071ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:57:25 +0000
Subject: [PATCH 066/130] fix: parallel rational fitter: rows overlapped when
 the intervals are made from the data

---
 sources/plugins/rational_fitters/quadprog_parallel.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/rational_fitters/quadprog_parallel.cpp b/sources/plugins/rational_fitters/quadprog_parallel.cpp
index 8f5f662..94b0570 100644
--- a/sources/plugins/rational_fitters/quadprog_parallel.cpp
+++ b/sources/plugins/rational_fitters/quadprog_parallel.cpp
@@ -111,21 +111,21 @@ class rational_fitter_parallel : public fitter
                const vec x = dat->get(i);
 
                for(int k=0; k<x.size(); ++k) {
-                  content[i + k] = x[k];
+                  content[i*elem_size + k] = x[k];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
+                  content[i*elem_size + k + dat->parametrization().dimX() + dat->parametrization().dimY()] =
                      (1.0 - args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
                }
                for(int k=0; k<dat->parametrization().dimY(); ++k) {
-                  content[i + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
+                  content[i*elem_size + k + dat->parametrization().dimX() + 2*dat->parametrization().dimY()] =
                      (1.0 + args.get_float("dt", 0.1)) * x[k + dat->parametrization().dimX()];
                }
             }
 
             ptr<vertical_segment> vs(new vertical_segment(dat->parametrization(),
                      dat->size(),
-                     std::shared_ptr<double>(content)));
+                     std::shared_ptr<double>(content, std::default_delete<double[]>())));
 
             d = vs;
          }
-- 
2.43.0


From 06a90bb6f9881ef43775772acdfe95321297a544 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:04 +0000
Subject: [PATCH 067/130] fix: quadratic programming solver: concurrent solves
 wrote a global vector

---
 external/quadprog++/QuadProg++.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/external/quadprog++/QuadProg++.cc b/external/quadprog++/QuadProg++.cc
index ed390c4..184e3b1 100644
--- a/external/quadprog++/QuadProg++.cc
+++ b/external/quadprog++/QuadProg++.cc
@@ -160,7 +160,6 @@ void partial_sort(ValuesType &values, MatrixType &M, VectorType &m, int start, i
   } while (mid != ncut );
 }
 
-VectorXd g_u;
 
 double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
                                  Ref<const MatrixXd> CE, Ref<const VectorXd> ce0,
@@ -584,7 +583,6 @@ double solve_quadprog_with_guess(Ref<const MatrixXd> L, Ref<const VectorXd> g0,
     return std::numeric_limits<double>::max();
   }
 
-  g_u = u;
 
   if(active_set)
     *active_set = A.head(iq);
-- 
2.43.0


From cab6c36c29880316dd755824a0f3ce5bd2781f76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:06:29 +0000
Subject: [PATCH 068/130] fix: data2data: the count of incorrect configurations
 was updated by several threads at once

---
 sources/softs/data2data/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index b1b4df3..908639b 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -231,7 +231,7 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 
     unsigned int stats_incorrect = 0;
 
-#pragma omp parallel for
+#pragma omp parallel for reduction(+:stats_incorrect)
 		for(int i=0; i<d_out->size(); ++i)
 		{
         vec temp(d_in->parametrization().dimX());
-- 
2.43.0


From a19ef3f346ca972c33684c7993951d956b868f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 069/130] fix: refuse truncated or mismatching MERL files with
 a catchable error

---
 sources/plugins/data_io/merl.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index 5042c55..a934192 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -426,7 +426,8 @@ private: //methods
 static bool read_brdf(std::istream& input, double* &brdf)
 {
 		int dims[3];
-    input.read((char *) &dims, sizeof dims);
+    if (!input.read((char *) &dims, sizeof dims))
+        return false;
 		int n = dims[0] * dims[1] * dims[2];
 		if (n != BRDF_SAMPLING_RES_THETA_H *
         BRDF_SAMPLING_RES_THETA_D *
@@ -438,7 +439,8 @@ static bool read_brdf(std::istream& input, double* &brdf)
 
     input.read((char *) brdf, 3 * n * sizeof(double));
 
-		return true;
+		// A truncated file does not fill the table.
+		return !input.fail();
 }
 
 
@@ -455,7 +457,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
     if(!read_brdf(input, result->brdf))
 		{
         std::cerr << "<<ERROR>> unable to load the data as a MERL file" << std::endl ;
-        throw;
+        delete result;
+        throw std::ios_base::failure("invalid MERL file");
 		}
 
     return result;
-- 
2.43.0


From 90d6eb876ffc6a47fc8cf4c39cbfe837c20d6e2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 070/130] fix: report that a MERL file cannot be written
 instead of crashing

---
 sources/plugins/data_io/merl.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sources/plugins/data_io/merl.cpp b/sources/plugins/data_io/merl.cpp
index a934192..3fe2413 100644
--- a/sources/plugins/data_io/merl.cpp
+++ b/sources/plugins/data_io/merl.cpp
@@ -113,6 +113,8 @@ public: // methods
 	void save(const std::string& filename) const
 	{
 		FILE *f = fopen(filename.c_str(), "wb");
+		if(f == NULL)
+			throw std::ios_base::failure("unable to open " + filename);
 
 		int dims[3];
 		dims[0] = BRDF_SAMPLING_RES_THETA_H;
-- 
2.43.0


From 956f6f04141c9e811a0e5f2a9c20ded7d7bb4c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 071/130] fix: UTIA tables start with zeros, not with
 uninitialised memory

---
 sources/plugins/data_io/utia.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 065f52d..28585b9 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -103,7 +103,7 @@ public:
 		this->npv = NPV;
 		this->planes = 3;
 		this->nPerPlane = N_PER_PLANE;
-		this->Bd = new double[planes*nti*npi*ntv*npv];
+		this->Bd = new double[planes*nti*npi*ntv*npv]();
 
 		_min = vec(4);
 	    _min[0] = 0.0;
-- 
2.43.0


From 0b8899b2b0e0a0cfac1af82d6096664d39075e89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 072/130] fix: save binary UTIA files in the format that is
 loaded

---
 sources/plugins/data_io/utia.cpp | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 28585b9..3b15038 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -140,13 +140,7 @@ public:
 			delete[] temp;
 		} else {
 			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
-			int count = 0;
-			for(int isp=0;isp<planes;isp++)	{
-			  for(int ni=0;ni<nti*npi;ni++)
-			    for(int nv=0;nv<ntv*npv;nv++) {
-			    	stream << Bd[count++];
-			    }
-			}
+			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
 		}
 	}
 
-- 
2.43.0


From 58a01126321c36a2367cead106905d052224d17d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 073/130] fix: refuse truncated, unreadable or wrongly sized
 UTIA files

---
 sources/plugins/data_io/utia.cpp | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 3b15038..2cc3f9e 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -320,7 +320,15 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	if(filename.substr(filename.find_last_of(".") + 1) == "exr") {
 		// EXR data reading
 		double *temp; int W, H;
-    	t_EXR_IO<double>::LoadEXR(input, W, H, temp);
+		if(!t_EXR_IO<double>::LoadEXR(input, W, H, temp)) {
+			delete result;
+			throw std::ios_base::failure("invalid UTIA file");
+		}
+		if(W*H != N_PER_PLANE) {
+			delete[] temp;
+			delete result;
+			throw std::ios_base::failure("the dimensions do not match a UTIA file");
+		}
 
 		// Data copy
 		for(int i=0; i<H; ++i)
@@ -337,7 +345,10 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 	} else {
 		int count = result->planes * result->nti * result->npi
                                    * result->ntv * result->npv;
-		input.read((char*)result->Bd, count*sizeof(double));
+		if(!input.read((char*)result->Bd, count*sizeof(double))) {
+			delete result;
+			throw std::ios_base::failure("truncated UTIA file");
+		}
 		std::cout << "<<INFO>> Successfully read binary BRDF file" << std::endl;
 	}
 
-- 
2.43.0


From 8a3a80ec72eef4c0a94b25ae64a117f08b35c814 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:33 +0000
Subject: [PATCH 074/130] fix: SaveEXR reports its failures

---
 sources/plugins/data_io/EXR_IO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 408c67a..73dd21f 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -177,7 +177,7 @@ class t_EXR_IO
 			if (ret != TINYEXR_SUCCESS) {
 				std::cerr << "<<ERROR>> Unable to save to EXR file" << std::endl;
 				std::cerr << "<<ERROR>> " << err << std::endl;
-				return ret;
+				return false;
 			}
 
 			free(header.channels);
-- 
2.43.0


From 871e499f20cd8871f7168b634f3ff550b3c17c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 075/130] fix: the domain of a BRDF slice is visible through
 min() and max()

---
 sources/plugins/data_io/slice.cpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 3041d51..7eb2a3b 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -74,7 +74,6 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args);
 class BrdfSlice : public data {
   private:
 		const int _width, _height, _slice;
-		vec _max, _min;
 		double _phi;
 		double* _data;
 		bool _reverse;
-- 
2.43.0


From 397cf51877aeb40069ca977488f37d4907e42342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 076/130] fix: new BRDF slices start with zeros, not with
 uninitialised memory

---
 sources/plugins/data_io/slice.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 7eb2a3b..1afc2b6 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -108,7 +108,7 @@ class BrdfSlice : public data {
 
 		BrdfSlice(const arguments& args)
         : BrdfSlice(args, 512, 512, 1,
-                    new double[3 * 512 * 512])
+                    new double[3 * 512 * 512]())
     {
     }
 
-- 
2.43.0


From cc4d0cf4f842b7af7591c7249406f69e25c722f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 077/130] fix: BRDF slices answer every configuration from
 within the table

---
 sources/plugins/data_io/slice.cpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 1afc2b6..615d9a0 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -172,17 +172,17 @@ class BrdfSlice : public data {
 
 			// Safeguard. We can use either asserting or returning zero in case
 			// the query values are not within reach.
-			if(_x[0] > _max[0] || x[0] < _min[0] || x[1] > _max[1] || x[1] < _min[1] ||
-				alta::isnan(_x[0]) || alta::isnan(x[1])) {
-					vec res(3);
-					return res;
+			if(_x[0] > _max[0] || _x[0] < _min[0] || _x[1] > _max[1] || _x[1] < _min[1] ||
+				alta::isnan(_x[0]) || alta::isnan(_x[1])) {
+					return vec::Zero(3);
 			}
 			/*
 			assert(_x[0] <= 1.0 && x[0] >= 0.0);
 			assert(_x[1] <= 1.0 && x[1] >= 0.0);
 			*/
-			const int i  = floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0]));
-			const int j  = floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1]));
+			// The upper bound of the domain belongs to the last cell.
+			const int i  = std::min<int>(floor((_x[0]-_min[0]) * _width  / (_max[0] - _min[0])), _width-1);
+			const int j  = std::min<int>(floor((_x[1]-_min[1]) * _height / (_max[1] - _min[1])), _height-1);
 			const int k  = 1;
 			//const int k  = floor(_x[2] * _slice  / (M_PI));
 			const int id = (i + j*_width)*k;
-- 
2.43.0


From c7248338ba5af5b0cbcb0a0a9fdd362830b9804a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 078/130] fix: refuse unreadable BRDF slices

---
 sources/plugins/data_io/slice.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 615d9a0..a42fc7c 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -272,7 +272,8 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 {
     int width, height, slice = 1;
     double *data;
-    t_EXR_IO<double>::LoadEXR(input, width, height, data);
+    if(!t_EXR_IO<double>::LoadEXR(input, width, height, data))
+        throw std::ios_base::failure("invalid EXR file");
 
     BrdfSlice* result = new BrdfSlice(args, width, height, slice, data);
 
-- 
2.43.0


From 1eaf0b877a6d9fe73f431196d2ba5f1a753363d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 079/130] fix: do not loop forever on truncated ASTM files

---
 sources/plugins/data_io/astm.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 16950cc..0b0f5b1 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -160,7 +160,11 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         assert(input.good());
 
 	do {
-	    std::getline(input, line);
+	    if (!std::getline(input, line))
+	    {
+	        delete[] data;
+	        throw std::ios_base::failure("truncated ASTM file");
+	    }
 	} while(line.size() == 0 || line.rfind(',') == std::string::npos);
 
         std::replace(line.begin(), line.end(), ',', ' ');
-- 
2.43.0


From 164e289d977e49eaf4c5c57bc7b1fd4b87dbb0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:27 +0000
Subject: [PATCH 080/130] fix: release ASTM samples with delete[]

---
 sources/plugins/data_io/astm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 0b0f5b1..e50125b 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -177,7 +177,7 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         }
     }
 
-    return new ASTM(params, size, std::shared_ptr<double>(data));
+    return new ASTM(params, size, std::shared_ptr<double>(data, std::default_delete<double[]>()));
 }
 
 }
-- 
2.43.0


From bf7d3dc0c6107e1062a7d68dd8605a35e89e9e53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 081/130] fix: refuse ASTM files without variables

---
 sources/plugins/data_io/astm.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index e50125b..090a467 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -145,6 +145,9 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		// Parse the header, get the output/input dimensions and params
 		arguments header = parse_header(input);
     auto vars = header.get_vec<std::string>("VARS");
+    if (vars.empty())
+        throw std::ios_base::failure("no VARS in ASTM header");
+
     auto params = compute_parameters(vars);
 
     // Check data size from header
-- 
2.43.0


From 5845682931534b89861b32ef30d2d4dfc65f3948 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:42 +0000
Subject: [PATCH 082/130] fix: RBF interpolants give access to and save the
 interpolated samples

---
 sources/plugins/data_interpolants/rbf.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/rbf.cpp b/sources/plugins/data_interpolants/rbf.cpp
index 01a4ca9..9325f83 100644
--- a/sources/plugins/data_interpolants/rbf.cpp
+++ b/sources/plugins/data_interpolants/rbf.cpp
@@ -122,13 +122,13 @@ class rbf_interpolant : public data
 
 		virtual void save(const std::string& filename) const
 		{
+			_data->save(filename);
 		}
 
 		// Acces to data
 		virtual vec get(int id) const
 		{
-			vec res(parametrization().dimX() + parametrization().dimY()) ;
-			return res ;
+			return _data->get(id) ;
 		}
 		virtual vec operator[](int i) const
 		{
-- 
2.43.0


From 57f3da7441d7d4fa6ea7d06c9adc9beab39c3e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 083/130] fix: refuse ASTM samples that lack numbers

---
 sources/plugins/data_io/astm.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 090a467..3f3cba1 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -176,7 +176,11 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
         // a vec of dim parametrization().dimX() + parametrization().dimY().
         std::stringstream stream(line);
         for(int j = 0; j < n; ++j) {
-            stream >> data[i + j];
+            if (!(stream >> data[i + j]))
+            {
+                delete[] data;
+                throw std::ios_base::failure("invalid sample in ASTM file");
+            }
         }
     }
 
-- 
2.43.0


From c614b8e70b236574171f448c216af5241b655db3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:06 +0000
Subject: [PATCH 084/130] fix: grids have the size and the parametrization that
 were asked for

---
 sources/plugins/data_interpolants/grid.cpp | 86 ++++++++++++----------
 1 file changed, 48 insertions(+), 38 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index abc5818..16fa3e0 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -152,65 +152,75 @@ class BrdfGrid : public vertical_segment {
 
       std::vector<int> _size;
 
+      // Note: the number of samples is given by the grid, not by SIZE.
       BrdfGrid(size_t size, const parameters& params, const arguments& args)
-        : vertical_segment(params, size)
+        : BrdfGrid(grid_parameters(params, args),
+                   grid_size(grid_parameters(params, args), args))
       {
-         initialize(args);
       }
 
-      // FIXME: Move this to constructor.
-      void initialize(const arguments& args, bool preallocate = true) {
+   private:
 
-         // Allow to load a different parametrization depending on the
-         // parameters provided.
-         params::input in_param;
-         params::output out_param;
-         int nX, nY;
+      BrdfGrid(const parameters& params, const std::vector<int>& grid)
+        : vertical_segment(params, cell_count(grid)),
+          _size(grid)
+      {
+         _min = get_min(params.input_parametrization());
+         _max = get_max(params.input_parametrization());
+
+         // Set the abscissa data
+         vec x = vec::Zero(params.dimX() + params.dimY());
+         for(int n=0; n<size(); ++n) {
+            get_abscissa(n, x);
+            set(n, x);
+         }
+      }
 
+      // Allow to load a different parametrization depending on the
+      // parameters provided.
+      static parameters grid_parameters(const parameters& params,
+                                        const arguments& args) {
+
+         params::input in_param = params.input_parametrization();
          if(args.is_defined("PARAM_IN")) {
             in_param = params::parse_input(args["PARAM_IN"]);
          } else if(args.is_defined("param")) {
             in_param = params::parse_input(args["param"]);
          }
-         nX = params::dimension(in_param);
 
+         params::output out_param = params.output_parametrization();
          if(args.is_defined("PARAM_OUT")) {
             out_param = params::parse_output(args["PARAM_OUT"]);
          }
-         nY = params::dimension(out_param);
 
-         // Get the grid size, by default use an 10^dimX grid
-         int N = 1;
-         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
-            _size = args.get_vec<int>("grid-size");
-            assert(_size.size() == nX);
+         return parameters(params::dimension(in_param),
+                           out_param == params.output_parametrization()
+                               ? params.dimY() : params::dimension(out_param),
+                           in_param, out_param);
+      }
 
-            for(int i=0; i<nX; ++i) {
-               N *= _size[i];
-            }
-         } else {
-            for(int i=0; i<nX; ++i) {
-               _size.push_back(10);
-               N *= 10;
-            }
-         }
-         _min = get_min(in_param);
-         _max = get_max(in_param);
-
-         // Preallocate the grid data
-         if(preallocate) {
-            // Set the abscissa data
-            vec x(parametrization().dimX() + parametrization().dimY());
-            for(int n=0; n<N; ++n) {
-               get_abscissa(n, x);
-               set(n, x);
-            }
+      // Get the grid size, by default use an 10^dimX grid
+      static std::vector<int> grid_size(const parameters& params,
+                                        const arguments& args) {
+
+         if(args.is_defined("grid-size") && args.is_vec("grid-size")) {
+            auto grid = args.get_vec<int>("grid-size");
+            assert(grid.size() == params.dimX());
+            return grid;
          }
+         return std::vector<int>(params.dimX(), 10);
+      }
 
-         parameters p(nX, nY, in_param, out_param);
-         setParametrization(p);
+      static int cell_count(const std::vector<int>& grid) {
+         int N = 1;
+         for(int i=0; i<grid.size(); ++i) {
+            N *= grid[i];
+         }
+         return N;
       }
 
+   public:
+
       inline int get_index(const vec& x) const {
 
          const auto k = get_indices(x);
-- 
2.43.0


From 84e640def09beebd0e84ceece21ee183285c79dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 085/130] fix: grids interpolate within their cells

---
 sources/plugins/data_interpolants/grid.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 16fa3e0..cd6fcff 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -240,7 +240,9 @@ class BrdfGrid : public vertical_segment {
 
          std::vector<int> k(parametrization().dimX());
          for(int i = 0; i < parametrization().dimX(); ++i) {
-            k[i] = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+            const double n = floor((_size[i]-1)*(x[i]-_min[i]) / (_max[i]-_min[i]));
+            // The upper bound of the domain belongs to the last cell.
+            k[i] = clamp<double>(n, 0.0, std::max(0, _size[i]-2));
          }
          return k;
       }
@@ -354,7 +356,7 @@ class BrdfGrid : public vertical_segment {
                cid_s = cid_s*_size[i] + ((bitset) ? 1 : 0);
             }
 
-            if(id+cid_s > size())
+            if(id+cid_s >= size())
                cid_s = 0;
 
             y += alpha * get(id+cid_s).segment(parametrization().dimX(),
-- 
2.43.0


From 495c29fc0178d416b9ddc164eb2e92e17ac65b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:07 +0000
Subject: [PATCH 086/130] fix: grid files can be loaded

---
 sources/plugins/data_interpolants/grid.cpp | 28 ++++++++++------------
 1 file changed, 13 insertions(+), 15 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index cd6fcff..4b0bfb0 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -379,19 +379,17 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input,
 {
     arguments header = arguments::parse_header(input);
 
-#ifdef __GNUC__
-# warning FIXME we are not returning a "BrdfGrid"
-#endif
-    // We should probably rewrite this class as a transformation from 'data'
-    // to 'data'.
-
-    abort();
-#if 0
-    BrdfGrid* result = new BrdfGrid(args);
-
-    // XXX: Should be done in constructor.
-    result->initialize(header, false);
-#endif
-
-    return load_data_from_text(input, header);
+    std::unique_ptr<data> samples(load_data_from_text(input, header));
+
+    std::unique_ptr<BrdfGrid> result(new BrdfGrid(samples->size(),
+                                                  samples->parametrization(),
+                                                  header));
+    if(result->size() != samples->size()) {
+        throw std::ios_base::failure("the number of samples does not match the grid");
+    }
+    for(int i=0; i<result->size(); ++i) {
+        result->set(i, samples->get(i));
+    }
+
+    return result.release();
 }
-- 
2.43.0


From 8944c8390375b7e4d1c14e6f7ef68d29cca6c4b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:33 +0000
Subject: [PATCH 087/130] fix: refuse grids whose domain is unknown

---
 sources/plugins/data_interpolants/grid.cpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 4b0bfb0..208d594 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -18,6 +18,7 @@
 #include <iostream>
 #include <iomanip>
 #include <fstream>
+#include <stdexcept>
 
 using namespace alta;
 
@@ -71,8 +72,7 @@ static vec get_min(const params::input& param) {
          break;
 
       default:
-         return res;
-         break;
+         throw std::invalid_argument("grids do not handle " + params::get_name(param));
    }
    return res;
 }
@@ -127,8 +127,7 @@ static vec get_max(const params::input& param) {
          break;
 
       default:
-         return res;
-         break;
+         throw std::invalid_argument("grids do not handle " + params::get_name(param));
    }
    return res;
 }
-- 
2.43.0


From ab1b8acf268348dce2448b86f88ad9deb924e177 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:12 +0000
Subject: [PATCH 088/130] fix: report that UTIA and BRDF slice files cannot be
 written

---
 sources/plugins/data_io/slice.cpp | 1 +
 sources/plugins/data_io/utia.cpp  | 9 +++++++--
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index a42fc7c..3b71c45 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -122,6 +122,7 @@ class BrdfSlice : public data {
 			if(!t_EXR_IO<double>::SaveEXR(filename.c_str(), _width, _slice*_height, _data))
 			{
 				std::cerr << "<<ERROR>> unable to save image file" << std::endl;
+				throw std::ios_base::failure("unable to save " + filename);
 			}
 		}
 
diff --git a/sources/plugins/data_io/utia.cpp b/sources/plugins/data_io/utia.cpp
index 2cc3f9e..541f7b8 100644
--- a/sources/plugins/data_io/utia.cpp
+++ b/sources/plugins/data_io/utia.cpp
@@ -136,10 +136,15 @@ public:
 	    			temp[3*indexEXR + 1] = Bd[indexUTIA + 1*nPerPlane];
 	    			temp[3*indexEXR + 2] = Bd[indexUTIA + 2*nPerPlane];
 	  			}
-	  		t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
+			const bool saved = t_EXR_IO<double>::SaveEXR(filename.c_str(), W, H, temp, 3);
 			delete[] temp;
+			if(!saved) {
+				throw std::ios_base::failure("unable to save " + filename);
+			}
 		} else {
-			std::ofstream stream(filename.c_str(), std::ios_base::out | std::ios_base::binary);
+			std::ofstream stream;
+			stream.exceptions(std::ios_base::failbit | std::ios_base::badbit);
+			stream.open(filename.c_str(), std::ios_base::out | std::ios_base::binary);
 			stream.write((const char*)Bd, planes*nPerPlane*sizeof(double));
 		}
 	}
-- 
2.43.0


From 316f148123041f6c30605983081ae09930ea42c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 089/130] fix: data2data reports that its output cannot be
 written

---
 sources/softs/data2data/main.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 908639b..28fa062 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -408,7 +408,13 @@ int main(int argc, char** argv)
       CATCH_FILE_IO_ERROR(args["output"]);
   }
   else
-      d_out->save(args["output"]);
+  {
+      try
+      {
+          d_out->save(args["output"]);
+      }
+      CATCH_FILE_IO_ERROR(args["output"]);
+  }
 
 	return EXIT_SUCCESS;
 }
-- 
2.43.0


From 1177d5fafa380c142f0df1c6d65874e7530dced8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:32:13 +0000
Subject: [PATCH 090/130] fix: data2data stops when its input has no loader

---
 sources/softs/data2data/main.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 28fa062..beba2fe 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -359,7 +359,8 @@ int main(int argc, char** argv)
 
 	if(!d_in)
 	{
-		std::cout << "<<INFO>> Input data will be treated as ALTA format" << std::endl;
+		std::cerr << "<<ERROR>> Cannot import data" << std::endl ;
+		return EXIT_FAILURE;
 	}
 
 
@@ -378,9 +379,9 @@ int main(int argc, char** argv)
 		std::cout << "<<INFO>> Data will be outputed to ALTA format" << std::endl;
 	}
 
-	if(!d_in || !d_out)
+	if(!d_out)
 	{
-		std::cerr << "<<ERROR>> Cannot import or export data" << std::endl ;
+		std::cerr << "<<ERROR>> Cannot export data" << std::endl ;
 		return EXIT_FAILURE;
 	}
 
-- 
2.43.0


From e05a39d6bdc771832018a4510fafe52be4ed61a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:42:29 +0000
Subject: [PATCH 091/130] fix: bounds of BRDF slices in the projected isotropic
 parametrization

---
 sources/plugins/data_io/slice.cpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/sources/plugins/data_io/slice.cpp b/sources/plugins/data_io/slice.cpp
index 3b71c45..14dce4f 100644
--- a/sources/plugins/data_io/slice.cpp
+++ b/sources/plugins/data_io/slice.cpp
@@ -213,8 +213,7 @@ class BrdfSlice : public data {
 
 			// Fill the first two dimension unless the parametrization is a
 			// projected one then it will fill the three components.
-			if(parametrization().input_parametrization() == params::ISOTROPIC_TL_TV_PROJ_DPHI ||
-				parametrization().input_parametrization() == params::ISOTROPIC_TV_TL_DPHI) {
+			if(parametrization().input_parametrization() == params::ISOTROPIC_TV_TL_DPHI) {
 				res[0] = -0.5*M_PI ;
 				res[1] = -0.5*M_PI ;
 			} else if(parametrization().input_parametrization() == params::ISOTROPIC_TL_TV_PROJ_DPHI ||
-- 
2.43.0


From 62f6d260e576a463b15a8b531d0f7f9abe5ad935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:58 +0000
Subject: [PATCH 092/130] fix: channels missing from an EXR image read as zero

---
 sources/plugins/data_io/EXR_IO.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/EXR_IO.h b/sources/plugins/data_io/EXR_IO.h
index 73dd21f..18020a3 100644
--- a/sources/plugins/data_io/EXR_IO.h
+++ b/sources/plugins/data_io/EXR_IO.h
@@ -97,7 +97,7 @@ class t_EXR_IO
 			/* Recopy the image into the provided pixel array */
 			W = _image.width;
 			H = _image.height;
-			pix = new FType[W*H*3];
+			pix = new FType[W*H*3]();
 			for(int k=0; k<_image.num_channels; ++k) {
 				for(int i=0; i<W*H; ++i) {
 					const FType val = (FType)(reinterpret_cast<float **>(_image.images)[k][i]);
-- 
2.43.0


From 36038aa01908861c977393fda578167077fb829a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:58 +0000
Subject: [PATCH 093/130] fix: ASTM files with an empty VARS line are refused

---
 sources/plugins/data_io/astm.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/data_io/astm.cpp b/sources/plugins/data_io/astm.cpp
index 3f3cba1..b1ef5d5 100644
--- a/sources/plugins/data_io/astm.cpp
+++ b/sources/plugins/data_io/astm.cpp
@@ -145,7 +145,7 @@ ALTA_DLL_EXPORT data* load_data(std::istream& input, const arguments& args)
 		// Parse the header, get the output/input dimensions and params
 		arguments header = parse_header(input);
     auto vars = header.get_vec<std::string>("VARS");
-    if (vars.empty())
+    if (vars.empty() || vars.back().empty())
         throw std::ios_base::failure("no VARS in ASTM header");
 
     auto params = compute_parameters(vars);
-- 
2.43.0


From 21ae7bc1b326569839a6b276cd12617c995d5238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:20:43 +0000
Subject: [PATCH 094/130] fix: data2data no longer writes a zero sample for
 each configuration it discards

---
 sources/softs/data2data/main.cpp | 49 ++++++++++++++++++++++++--------
 1 file changed, 37 insertions(+), 12 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index beba2fe..79c5d9f 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -136,6 +136,31 @@ static parameters compute_parameters(const data& d_in,
                             out_param);
 }
 
+// Convert X, the input of a sample of D_IN, to PARAM and store it in RES.
+// Return false if the result is below the hemisphere.
+static bool convert_input(const data& d_in, const vec& x,
+                          params::input param, double* res)
+{
+    params::convert(&x[0], d_in.parametrization().input_parametrization(),
+                    param, res);
+
+    // TODO: Change this at some point because we cannot handle BTDF stuff here
+    return !params::is_below_hemisphere(res, param);
+}
+
+// Return the number of samples of D_IN that are over the hemisphere once
+// converted to PARAM.
+static size_t count_valid_samples(const data& d_in, params::input param)
+{
+    size_t count = 0;
+    vec temp(params::dimension(param));
+    for(int i=0; i<d_in.size(); ++i)
+    {
+        if(convert_input(d_in, d_in.get(i), param, &temp[0])) ++count;
+    }
+    return count;
+}
+
 // Convert D_IN to D_OUT without doing any interpolation.  That is, call the
 // 'get' method of D_IN to grab its 'x' and 'y' values, and write those to
 // D_OUT.  When ALL_VALUES is true, disable filtering of values that are not
@@ -157,6 +182,10 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
     alta::timer save_timer;
     save_timer.start();
 
+    // Samples that are discarded leave no hole in a list of samples.
+    const bool is_list = bool(dynamic_pointer_cast<vertical_segment>(d_out));
+
+    int nb_samples = 0;
     unsigned int nb_invalid_configs = 0;
     vec temp(d_out->parametrization().dimX() + d_out->parametrization().dimY());
     for(int i=0; i<d_in->size(); ++i)
@@ -164,14 +193,9 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
 
         // Copy the input vector
         vec x = d_in->get(i);
-        params::convert(&x[0],
-                        d_in->parametrization().input_parametrization(),
-                        d_out->parametrization().input_parametrization(),
-                        &temp[0]);
 
-        // TODO: Change this at some point because we cannot handle BTDF stuff here
         // Check if this  BRDF parametrization is valid (over the hemisphere)
-        if( params::is_below_hemisphere( &temp[0], d_out->parametrization().input_parametrization()  ) )
+        if(!convert_input(*d_in, x, d_out->parametrization().input_parametrization(), &temp[0]))
         {
             nb_invalid_configs++;
 
@@ -185,7 +209,7 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
                                 d_out->parametrization().dimY(),
                                 &temp[d_out->parametrization().dimX()]);
                 // SAVING THE INVALID CONFIGURATION
-                d_out->set(i, temp);
+                d_out->set(is_list ? nb_samples++ : i, temp);
             }
 
         }
@@ -197,7 +221,7 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
                             d_out->parametrization().output_parametrization(),
                             d_out->parametrization().dimY(),
                             &temp[d_out->parametrization().dimX()]);
-            d_out->set(i, temp);
+            d_out->set(is_list ? nb_samples++ : i, temp);
         }
     }
     save_timer.stop();
@@ -370,10 +394,11 @@ int main(int argc, char** argv)
       args["out-data"] == "alta-binary"
       ? "vertical_segment" : args["out-data"];
 
-  ptr<data> d_out = plugins_manager::get_data(data_class,
-                                              d_in->size(),
-                                              compute_parameters(*d_in, args),
-                                              args) ;
+  const parameters p = compute_parameters(*d_in, args);
+  const size_t nb_samples = args.is_defined("all-values")
+      ? d_in->size() : count_valid_samples(*d_in, p.input_parametrization());
+
+  ptr<data> d_out = plugins_manager::get_data(data_class, nb_samples, p, args) ;
 	if(!d_out)
 	{
 		std::cout << "<<INFO>> Data will be outputed to ALTA format" << std::endl;
-- 
2.43.0


From 458d5835867506a4c46ce02310de4aa09ea4f328 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:25 +0000
Subject: [PATCH 095/130] fix: data2data keeps the intervals of the samples
 instead of storing empty ones

---
 sources/softs/data2data/main.cpp | 66 +++++++++++++++++++++++++-------
 1 file changed, 52 insertions(+), 14 deletions(-)

diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 79c5d9f..88d2ebe 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -161,6 +161,39 @@ static size_t count_valid_samples(const data& d_in, params::input param)
     return count;
 }
 
+// Return true if D stores a confidence interval for each value.
+static bool has_intervals(const ptr<data>& d)
+{
+    auto vs = dynamic_pointer_cast<vertical_segment>(d);
+    return vs && vs->confidence_interval_kind()
+        != vertical_segment::NO_CONFIDENCE_INTERVAL;
+}
+
+// Convert the values, and the bounds of their intervals when TEMP has room
+// for them, of sample I of D_IN to those of D_OUT stored at the end of TEMP.
+static void convert_output(const ptr<data>& d_in, int i, const ptr<data>& d_out,
+                           vec& temp)
+{
+    const parameters& in = d_in->parametrization();
+    const parameters& out = d_out->parametrization();
+
+    vec y[3] = { d_in->get(i).tail(in.dimY()) };
+    int n = 1;
+    if(temp.size() > out.dimX() + out.dimY())
+    {
+        dynamic_pointer_cast<vertical_segment>(d_in)->get(i, y[1], y[2]);
+        n = 3;
+    }
+
+    for(int k=0; k<n; ++k)
+    {
+        params::convert(&y[k][0],
+                        in.output_parametrization(), in.dimY(),
+                        out.output_parametrization(), out.dimY(),
+                        &temp[out.dimX() + k*out.dimY()]);
+    }
+}
+
 // Convert D_IN to D_OUT without doing any interpolation.  That is, call the
 // 'get' method of D_IN to grab its 'x' and 'y' values, and write those to
 // D_OUT.  When ALL_VALUES is true, disable filtering of values that are not
@@ -187,7 +220,9 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
 
     int nb_samples = 0;
     unsigned int nb_invalid_configs = 0;
-    vec temp(d_out->parametrization().dimX() + d_out->parametrization().dimY());
+    const bool with_intervals = has_intervals(d_in) && has_intervals(d_out);
+    vec temp(d_out->parametrization().dimX()
+             + (with_intervals ? 3 : 1) * d_out->parametrization().dimY());
     for(int i=0; i<d_in->size(); ++i)
     {
 
@@ -202,12 +237,7 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
             if (all_values) // If the user wants to save invalid values as well
             {
                 // Converts the output values from vector x to the output values of temp vector
-                params::convert(&x[d_in->parametrization().dimX()],
-                                d_in->parametrization().output_parametrization(),
-                                d_in->parametrization().dimY(),
-                                d_out->parametrization().output_parametrization(),
-                                d_out->parametrization().dimY(),
-                                &temp[d_out->parametrization().dimX()]);
+                convert_output(d_in, i, d_out, temp);
                 // SAVING THE INVALID CONFIGURATION
                 d_out->set(is_list ? nb_samples++ : i, temp);
             }
@@ -215,12 +245,7 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
         }
         else // Apply the conversion
         {
-            params::convert(&x[d_in->parametrization().dimX()],
-                            d_in->parametrization().output_parametrization(),
-                            d_in->parametrization().dimY(),
-                            d_out->parametrization().output_parametrization(),
-                            d_out->parametrization().dimY(),
-                            &temp[d_out->parametrization().dimX()]);
+            convert_output(d_in, i, d_out, temp);
             d_out->set(is_list ? nb_samples++ : i, temp);
         }
     }
@@ -398,7 +423,20 @@ int main(int argc, char** argv)
   const size_t nb_samples = args.is_defined("all-values")
       ? d_in->size() : count_valid_samples(*d_in, p.input_parametrization());
 
-  ptr<data> d_out = plugins_manager::get_data(data_class, nb_samples, p, args) ;
+  ptr<data> d_out;
+  if((data_class.empty() || data_class == "vertical_segment") && !has_intervals(d_in))
+  {
+      const size_t count = nb_samples * (p.dimX() + p.dimY());
+      d_out = ptr<data>(new vertical_segment
+                        (p, nb_samples,
+                         std::shared_ptr<double>(new double[count](),
+                                                 std::default_delete<double[]>()),
+                         vertical_segment::NO_CONFIDENCE_INTERVAL));
+  }
+  else
+  {
+      d_out = plugins_manager::get_data(data_class, nb_samples, p, args) ;
+  }
 	if(!d_out)
 	{
 		std::cout << "<<INFO>> Data will be outputed to ALTA format" << std::endl;
-- 
2.43.0


From a11710c16e05dcb70de9c82ceb62347ef5f59585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:21:34 +0000
Subject: [PATCH 096/130] fix: data2data interpolates the values of a grid
 instead of overwriting its positions

---
 sources/core/data.h                        |  4 ++++
 sources/plugins/data_interpolants/grid.cpp |  2 ++
 sources/softs/data2data/main.cpp           | 14 ++++++++++++--
 3 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/sources/core/data.h b/sources/core/data.h
index cb35c9b..c620ad9 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -76,6 +76,10 @@ class data
     virtual void set(int i, const vec& x) = 0;
 
 
+    //! \brief Return true if the object itself defines the positions of its
+    //! samples (e.g., a grid), so that only their values can be changed.
+    virtual bool has_fixed_positions() const { return false; }
+
     // Get data size, e.g. the number of samples to fit
     int size() const { return _size; };
 
diff --git a/sources/plugins/data_interpolants/grid.cpp b/sources/plugins/data_interpolants/grid.cpp
index 208d594..5fded12 100644
--- a/sources/plugins/data_interpolants/grid.cpp
+++ b/sources/plugins/data_interpolants/grid.cpp
@@ -312,6 +312,8 @@ class BrdfGrid : public vertical_segment {
          out << "#ALTA HEADER END" << std::endl;
       }
 
+      bool has_fixed_positions() const { return true; }
+
       inline vec operator[](int i) const
       {
          return get(i) ;
diff --git a/sources/softs/data2data/main.cpp b/sources/softs/data2data/main.cpp
index 88d2ebe..31712e8 100644
--- a/sources/softs/data2data/main.cpp
+++ b/sources/softs/data2data/main.cpp
@@ -216,7 +216,14 @@ static void convert_vertical_segment(ptr<data> d_in, ptr<data> d_out,
     save_timer.start();
 
     // Samples that are discarded leave no hole in a list of samples.
-    const bool is_list = bool(dynamic_pointer_cast<vertical_segment>(d_out));
+    const bool is_list = dynamic_pointer_cast<vertical_segment>(d_out)
+        && !d_out->has_fixed_positions();
+    if(!is_list && d_in->size() > d_out->size())
+    {
+        std::cerr << "<<ERROR>> cannot store " << d_in->size()
+                  << " samples in a table of " << d_out->size() << std::endl;
+        exit(EXIT_FAILURE);
+    }
 
     int nb_samples = 0;
     unsigned int nb_invalid_configs = 0;
@@ -327,7 +334,10 @@ static void convert_with_interpolation(ptr<data> d_in, ptr<data> d_out)
 // Convert D_IN to D_OUT according to ARGS.
 static void convert(ptr<data> d_in, ptr<data> d_out, const arguments& args)
 {
-	if(dynamic_pointer_cast<vertical_segment>(d_out) || args.is_defined("splat"))
+	const bool is_list = dynamic_pointer_cast<vertical_segment>(d_out)
+      && !d_out->has_fixed_positions();
+
+	if(is_list || args.is_defined("splat"))
       convert_vertical_segment(d_in, d_out,
                                args.is_defined("verbose"),
                                args.is_defined("all-values"));
-- 
2.43.0


From bc2e6b370c3d688a972ab4cd7f6fa353cf0f2415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 097/130] fix: a compound with a part that is not a nonlinear
 function gives no function

---
 sources/core/plugins_manager.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index b1c6ba4..01bb722 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -221,7 +221,7 @@ function* plugins_manager::load_function(const std::string& filename)
   function* f = get_function(args, params);
 
   // Load the function part from the file object
-  if( f->load(file) )
+  if( f != NULL && f->load(file) )
   {
     return f;
   }
@@ -289,6 +289,8 @@ function* plugins_manager::get_function(const arguments& args,
       if(nl_f == NULL)
       {
           std::cerr << "<<ERROR>> only non-linear functions are compatible with a compound" << std::endl;
+          delete f;
+          return NULL;
       }
       else
       {
-- 
2.43.0


From 42c88ebcf64c619cd8c62adef48e027fee837eca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 098/130] fix: data2brdf and brdf2brdf fail when the function
 cannot be loaded or saved

---
 sources/core/function.cpp        |  2 +-
 sources/softs/brdf2brdf/main.cpp | 12 +++++++++++-
 sources/softs/data2brdf/main.cpp |  6 +++++-
 3 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index c765383..4c3dc16 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -59,7 +59,7 @@ void function::save(const std::string& filename, const arguments& args) const
 	std::ofstream file(filename.c_str());
 	if(!file.is_open())
 	{
-		std::cerr << "<<ERROR>> unable to open output file for writing" << std::endl;
+		throw std::ios_base::failure("unable to open '" + filename + "' for writing");
 	}
 
 	// If the export is the alta format, use the maximum precision formatting
diff --git a/sources/softs/brdf2brdf/main.cpp b/sources/softs/brdf2brdf/main.cpp
index 7b94d07..458018c 100644
--- a/sources/softs/brdf2brdf/main.cpp
+++ b/sources/softs/brdf2brdf/main.cpp
@@ -63,8 +63,18 @@ int main(int argc, char** argv)
     // Load the function
     function* f = plugins_manager::load_function(args["input"]);
 
+    if(f == NULL)
+    {
+        std::cerr << "<<ERROR>> cannot open the function file" << std::endl ;
+        return 1 ;
+    }
+
     // Save it
-    f->save(args["output"], args) ;
+    try
+    {
+        f->save(args["output"], args) ;
+    }
+    CATCH_FILE_IO_ERROR(args["output"]);
 
 	return 0 ;
 }
diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index e8b0c4c..01ac778 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -165,7 +165,11 @@ int main(int argc, char** argv)
         args.update("L2",   L2string.str());
         args.update("Linf", Linfstring.str());
 
-        f->save(args["output"], args) ;
+        try
+        {
+            f->save(args["output"], args) ;
+        }
+        CATCH_FILE_IO_ERROR(args["output"]);
 
         return 0;
     }
-- 
2.43.0


From c27076189e43ec2daf686cf4e487a294011b0f77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 099/130] fix: brdf2data reports data that cannot be loaded or
 saved

---
 sources/softs/brdf2data/main.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 689d52f..2096f7f 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -120,11 +120,16 @@ int main(int argc, char** argv)
       }  
 
       // Save data to file
-      d->save(args["output"]);
+      try
+      {
+         d->save(args["output"]);
+      }
+      CATCH_FILE_IO_ERROR(args["output"]);
    }  
    else
    {
       std::cerr << "<<ERROR>> cannot import function or export data" << std::endl ;
+      return 1 ;
    }
 
    return 0 ;
-- 
2.43.0


From 4f9b7e73d019f8a36a5f5c8fd9a8db933582deb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 100/130] fix: data2brdf dereferenced the data set before
 checking that it was loaded

---
 sources/softs/data2brdf/main.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/sources/softs/data2brdf/main.cpp b/sources/softs/data2brdf/main.cpp
index 01ac778..23d2138 100644
--- a/sources/softs/data2brdf/main.cpp
+++ b/sources/softs/data2brdf/main.cpp
@@ -121,7 +121,11 @@ int main(int argc, char** argv)
 		}
 		CATCH_FILE_IO_ERROR(args["input"]);
 
-    ptr<function> f = ptr<function>(plugins_manager::get_function(args, d->parametrization()));
+    ptr<function> f;
+    if(d)
+    {
+        f = ptr<function>(plugins_manager::get_function(args, d->parametrization()));
+    }
 
     if(!f || !d)
     {
-- 
2.43.0


From 9879208900949c40e037f5e4a13223d14eea6045 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 101/130] fix: brdf2gnuplot fails when its data or output file
 cannot be opened

---
 sources/softs/brdf2gnuplot/main.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 5eaa060..82b868d 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -88,8 +88,19 @@ int main(int argc, char** argv)
     }
     CATCH_FILE_IO_ERROR (args["data-file"]);
 
+    if(!d)
+    {
+        std::cerr << "<<ERROR>> unable to load the data file" << std::endl;
+        return 1;
+    }
+
 		// Create output file now that we are sure that needed data are loaded
 		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
+		if(!file.is_open())
+		{
+			std::cerr << "<<ERROR>> unable to open the output file" << std::endl;
+			return 1;
+		}
 		file.precision(10);
 
 
@@ -179,6 +190,11 @@ int main(int argc, char** argv)
 	{
 		// Create output file
 		std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
+		if(!file.is_open())
+		{
+			std::cerr << "<<ERROR>> unable to open the output file" << std::endl;
+			return 1;
+		}
 		file.precision(10);
 
 		vec spherical(4);
-- 
2.43.0


From 9c04e8d1268f999a4326689b7c8aca2e1347b3bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:22:28 +0000
Subject: [PATCH 102/130] fix: data2moments fails when its output file cannot
 be opened

---
 sources/softs/data2moments/main.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 540a243..46e29e1 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -94,6 +94,11 @@ int main(int argc, char** argv)
 
 	// Create output file
 	std::ofstream file(args["output"].c_str(), std::ios_base::trunc);
+	if(!file.is_open())
+	{
+		std::cerr << "<<ERROR>> unable to open the output file" << std::endl;
+		return 1;
+	}
 
 	if(d)
 	{
-- 
2.43.0


From 93353b9b340545407168920cf19a79b0fa2b7b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 103/130] fix: brdf2stats weights the errors by the cosines
 their names say

---
 sources/softs/fit2stat/fit2stat.cpp | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index dea5bcf..3e107f0 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -324,20 +324,18 @@ void computeCosineFactorsFromData( ptr<data> const & data,
   cosine_theta_view.setZero( data->size() );
   cosine_theta_light.setZero( data->size() );
   
-  if( data->parametrization().input_parametrization() == params::CARTESIAN)
-  {
-    vec data_x = vec::Zero( data->parametrization().dimX() );
+  // Cartesian configurations hold the view vector first.
+  vec cart = vec::Zero(6);
 
-    for( unsigned int i=0; i < data->size(); i++)
-    {
-      data_x = (data->get(i)).head( data->parametrization().dimX() );
-      cosine_theta_light[i] = data_x[2];
-      cosine_theta_view[i]  = data_x[5];
-    }
-  }
-  else
+  for( unsigned int i=0; i < data->size(); i++)
   {
-    NOT_IMPLEMENTED();
+    const vec x = data->get(i);
+    params::convert(&x[0],
+                    data->parametrization().input_parametrization(),
+                    params::CARTESIAN,
+                    &cart[0]);
+    cosine_theta_view[i]  = cart[2];
+    cosine_theta_light[i] = cart[5];
   }
 }
 
@@ -667,8 +665,8 @@ main(int argc, char* argv[])
         fwriter << "RMSE :" << rmse << std::endl;
         fwriter << "MSE * cos(theta_light) :" << w_cosine_light_mse << std::endl;
         fwriter << "RMSE * cos(theta_light) :" << w_cosine_light_rmse << std::endl;
-        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_mse << std::endl;
-        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_rmse << std::endl;
+        fwriter << "MSE * cos(theta_light) * cos(theta_view) :" << w_cosine_light_view_mse << std::endl;
+        fwriter << "RMSE * cos(theta_light) cos(theta_view)  :" << w_cosine_light_view_rmse << std::endl;
         fwriter << std::endl;
       }
       else
-- 
2.43.0


From bde385a99d421eb7c624c4b62d6421edb5ef5351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 104/130] fix: metrics with a mask counted the entries that are
 masked out and wrote beyond them

---
 sources/core/metrics.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/sources/core/metrics.cpp b/sources/core/metrics.cpp
index 782f917..c91754a 100644
--- a/sources/core/metrics.cpp
+++ b/sources/core/metrics.cpp
@@ -62,7 +62,7 @@ int errors::checkMaskSize(const data* ref, const data* mask) {
    int nb_elems = 0;
    for(auto i=0; i<ref->size(); i++) {
       // If the mask value is set to zero, skip the current entry
-      if(mask->get(i).tail(1)[0] == 0.0) {
+      if(mask->get(i).tail(1)[0] != 0.0) {
          ++nb_elems;
       }
    }
@@ -91,6 +91,7 @@ void errors::evaluate(const data* inp,
    const bool has_mask = mask != nullptr;
 
    // Evaluate the input data at each position of data_x configuration
+   int row = 0;
    for(auto i=0; i<ref->size(); i++) {
 
       // If the mask value is set to zero, skip the current entry
@@ -117,8 +118,8 @@ void errors::evaluate(const data* inp,
                          inp->parametrization().input_parametrization(),
                          dat_x.data());
 
-         ref_y.row(i) = ref_xy.tail(nY);
-         inp_y.row(i) = inp->value(dat_x);
+         ref_y.row(row) = ref_xy.tail(nY);
+         inp_y.row(row) = inp->value(dat_x);
          /*
          params::convert(inp->value(dat_x).data(),
                          inp->output_parametrization(),
@@ -128,9 +129,10 @@ void errors::evaluate(const data* inp,
                          inp_y.row(i).data());
          */
       } else {
-         ref_y.row(i).setZero();
-         inp_y.row(i).setZero();
+         ref_y.row(row).setZero();
+         inp_y.row(row).setZero();
       }
+      ++row;
    }
 }
 
-- 
2.43.0


From 3308d24db8c52339d16754b737c986f7bd785172 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 105/130] fix: the variance of the error was computed around
 the opposite of its mean

---
 sources/core/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index 4c3dc16..b154d43 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -268,7 +268,7 @@ double function::Linf_distance(const ptr<data>& d) const
     for(int j=0; j<d->parametrization().dimY(); ++j)
 		{ 
       y[j] = dat[d->parametrization().dimX()+j];
-			var[j] += pow(mean[j] - (val[j]-y[j]), 2) / double(d->size());
+			var[j] += pow(mean[j] - (y[j]-val[j]), 2) / double(d->size());
 		}
 	}
 
-- 
2.43.0


From a9fc730a8b324db73b7357becadb1d97a836f542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:23:05 +0000
Subject: [PATCH 106/130] fix: data2moments accepts grids

---
 sources/softs/data2moments/main.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/softs/data2moments/main.cpp b/sources/softs/data2moments/main.cpp
index 46e29e1..1519a56 100644
--- a/sources/softs/data2moments/main.cpp
+++ b/sources/softs/data2moments/main.cpp
@@ -87,7 +87,8 @@ int main(int argc, char** argv)
 	}
 	CATCH_FILE_IO_ERROR(args["input"]);
 
-	if(dynamic_pointer_cast<vertical_segment>(d)) {
+	// Lists of samples cannot be interpolated, grids can.
+	if(dynamic_pointer_cast<vertical_segment>(d) && !d->has_fixed_positions()) {
 		std::cerr << "<<ERROR>> this data object is not interpolant." << std::endl;
 		return 1;
 	}
-- 
2.43.0


From dda21ea18dd640509922917062f98ce2387db9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:34 +0000
Subject: [PATCH 107/130] fix: loading data with --data-correct-cosine wrote a
 file of its own in /tmp

---
 sources/core/data_storage.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sources/core/data_storage.cpp b/sources/core/data_storage.cpp
index 757bf6b..ccd0350 100644
--- a/sources/core/data_storage.cpp
+++ b/sources/core/data_storage.cpp
@@ -276,9 +276,6 @@ alta::data* alta::load_data_from_text(std::istream& input,
   data* result = new vertical_segment(param, element_count,
                                       std::shared_ptr<double>(raw_content,
                                                                             delete_array));
-  if(args.is_defined("data-correct-cosine"))
-      result->save("/tmp/data-corrected.dat");
-
   std::cout << "<<INFO>> " << element_count << " elements (rows) loaded" << std::endl ;
 
   return result;
-- 
2.43.0


From 2e6e3eabeefa1822f877ec85ebcad99e68491597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:36:57 +0000
Subject: [PATCH 108/130] fix: function files with missing or unreadable
 parameters are refused

---
 sources/core/plugins_manager.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 01bb722..4532a7d 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -220,8 +220,9 @@ function* plugins_manager::load_function(const std::string& filename)
   // Create the function from the command line
   function* f = get_function(args, params);
 
-  // Load the function part from the file object
-  if( f != NULL && f->load(file) )
+  // Load the function part from the file object.  Numbers that are missing or
+  // cannot be read leave the stream in a failed state.
+  if( f != NULL && f->load(file) && !file.fail() )
   {
     return f;
   }
-- 
2.43.0


From 2bc9df120cdea2bf56343e93e2353f12d1ff3317 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:39:39 +0000
Subject: [PATCH 109/130] fix: rational functions without sizes or coefficients
 are refused

---
 sources/core/rational_function.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/sources/core/rational_function.cpp b/sources/core/rational_function.cpp
index 87aa4aa..97f7633 100644
--- a/sources/core/rational_function.cpp
+++ b/sources/core/rational_function.cpp
@@ -50,6 +50,9 @@ bool rational_function_1d::load(std::istream& in)
 	// Shoudl have the #NQ [int]
 	in >> token >> _nq;
 	if(token != "#NQ") { return false; }
+
+	// The sizes are missing or make no sense
+	if(!in || _np <= 0 || _nq <= 0) { return false; }
 	vec a(_np), b(_nq);
 
 	// Parse the p_i coefficients
@@ -73,6 +76,7 @@ bool rational_function_1d::load(std::istream& in)
 		}
 		in >> b[j];
 	}
+	if(!in) { return false; }
 #ifdef NONE
 	std::cout << "p_" << i << " = " << a << std::endl;
 	std::cout << "q_" << i << " = " << b << std::endl;
-- 
2.43.0


From c1e6ff425dcc0c0c606c7a7a0821668bd83d91f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:57 +0000
Subject: [PATCH 110/130] fix: the cosines of brdf2gnuplot --cos-plot are those
 of the sample

---
 sources/softs/brdf2gnuplot/main.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 82b868d..97185de 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -148,7 +148,7 @@ int main(int argc, char** argv)
 			if(cos_plot) 
 			{
 				double cart[6];
-				params::convert(&x[0], f->parametrization().input_parametrization(),
+				params::convert(&v[0], d->parametrization().input_parametrization(),
                         params::CARTESIAN, cart);
 				costerm = cart[5]*cart[2];
 			}
-- 
2.43.0


From 4e07b61aa9433892f3280b1101d11da735cc74fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 111/130] fix: brdf2data exports to data objects of the
 dimension of the function

---
 sources/softs/brdf2data/main.cpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/sources/softs/brdf2data/main.cpp b/sources/softs/brdf2data/main.cpp
index 2096f7f..be62029 100644
--- a/sources/softs/brdf2data/main.cpp
+++ b/sources/softs/brdf2data/main.cpp
@@ -69,6 +69,15 @@ int main(int argc, char** argv)
       return 1 ;
    }
    
+   // Get the function file
+   function* f = NULL;
+   f = plugins_manager::load_function(args["input"]);
+   if(f == NULL)
+   {
+      std::cerr << "<<ERROR>> cannot open the function file" << std::endl;
+      return 1;
+   }
+
    // Get the associated data object and load the file is any
    ptr<data> d;
    if(args.is_defined("data-file")) {
@@ -78,15 +87,12 @@ int main(int argc, char** argv)
       }
       CATCH_FILE_IO_ERROR(args["data-file"]);
    } else {
-      d = plugins_manager::get_data(args["data"], 0, parameters(), args);
+      d = plugins_manager::get_data(args["data"], 0, f->parametrization(), args);
    }
 
-   // Get the function file
-   function* f = NULL;
-   f = plugins_manager::load_function(args["input"]);
-   if(f == NULL)
+   if(d && d->parametrization().dimY() != f->parametrization().dimY())
    {
-      std::cerr << "<<ERROR>> cannot open the function file" << std::endl;
+      std::cerr << "<<ERROR>> the function and the data do not have the same output dimension" << std::endl;
       return 1;
    }
 
-- 
2.43.0


From c1aa851cb27940c453f95e54be8819604248c908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:47:15 +0000
Subject: [PATCH 112/130] fix: brdf2gnuplot refuses data of another output
 dimension than the function

---
 sources/softs/brdf2gnuplot/main.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/sources/softs/brdf2gnuplot/main.cpp b/sources/softs/brdf2gnuplot/main.cpp
index 97185de..10adc02 100644
--- a/sources/softs/brdf2gnuplot/main.cpp
+++ b/sources/softs/brdf2gnuplot/main.cpp
@@ -88,6 +88,12 @@ int main(int argc, char** argv)
     }
     CATCH_FILE_IO_ERROR (args["data-file"]);
 
+		if(d && d->parametrization().dimY() != f->parametrization().dimY())
+		{
+			std::cerr << "<<ERROR>> the function and the data do not have the same output dimension" << std::endl;
+			return 1;
+		}
+
     if(!d)
     {
         std::cerr << "<<ERROR>> unable to load the data file" << std::endl;
-- 
2.43.0


From bacd50695e4ed812887f003ca5770a627be2d576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:29 +0000
Subject: [PATCH 113/130] fix: fit2stat weights the errors by the cosines of
 the samples

---
 sources/softs/fit2stat/fit2stat.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/softs/fit2stat/fit2stat.cpp b/sources/softs/fit2stat/fit2stat.cpp
index 3e107f0..27abda3 100644
--- a/sources/softs/fit2stat/fit2stat.cpp
+++ b/sources/softs/fit2stat/fit2stat.cpp
@@ -604,7 +604,7 @@ main(int argc, char* argv[])
   // Compute Weighted Norms by cosine factors
   vec cosine_theta_view;
   vec cosine_theta_light;
-  computeCosineFactorsFromData( converted_data, cosine_theta_light, cosine_theta_view );
+  computeCosineFactorsFromData( vs_data, cosine_theta_light, cosine_theta_view );
   vec cosine_light_view = cosine_theta_light.cwiseProduct( cosine_theta_view );
   
 
-- 
2.43.0


From 50cf06f6630cbc93654b61d43df361df8b0f3bbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:35:47 +0000
Subject: [PATCH 114/130] fix: plugin names of fewer than two characters no
 longer throw

---
 sources/core/plugins_manager.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/core/plugins_manager.cpp b/sources/core/plugins_manager.cpp
index 4532a7d..f1dc036 100644
--- a/sources/core/plugins_manager.cpp
+++ b/sources/core/plugins_manager.cpp
@@ -46,7 +46,7 @@ static std::string library_name(const std::string name)
     filename.append(".dylib");
   }
 #else
-  if(name.substr(n-2, n) != std::string("so")) {
+  if(n < 2 || name.substr(n-2, n) != std::string("so")) {
     filename.append("lib");
     filename.append(name);
     filename.append(".so");
-- 
2.43.0


From 36419a41594a55b60aa533407eb5d9ca19979dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:23 +0000
Subject: [PATCH 115/130] fix: Python vectors refuse indices out of range and
 operands of different sizes

---
 sources/python/wrapper_vec.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sources/python/wrapper_vec.h b/sources/python/wrapper_vec.h
index 4ef54e6..5c9c5c8 100644
--- a/sources/python/wrapper_vec.h
+++ b/sources/python/wrapper_vec.h
@@ -25,15 +25,18 @@ namespace py = pybind11;
 /* Specific function call to set a vector's element
  */
 static void vec_set_item(vec& x, int i, double a) {
+	if (i < 0 || i >= x.size()) throw py::index_error();
 	x[i] = a;
 }
 
 /* Operators on vec
  */
 static vec vec_add(const vec& a, const vec& b) {
+   if (a.size() != b.size()) throw py::value_error("vectors of different sizes");
    return a + b;
 }
 static vec vec_sub(const vec& a, const vec& b) {
+   if (a.size() != b.size()) throw py::value_error("vectors of different sizes");
    return a - b;
 }
 
-- 
2.43.0


From 07a1bdb4ea50041568d84096fa9fbd4adf30a495 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:23 +0000
Subject: [PATCH 116/130] fix: vertical_segment::set throws an exception when
 the sample has a wrong size

---
 sources/core/vertical_segment.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sources/core/vertical_segment.cpp b/sources/core/vertical_segment.cpp
index 6a395a0..7ab8fc8 100644
--- a/sources/core/vertical_segment.cpp
+++ b/sources/core/vertical_segment.cpp
@@ -19,6 +19,7 @@
 #include <cmath>
 #include <cassert>
 #include <cstring>
+#include <stdexcept>
 
 using namespace alta;
 using namespace Eigen;
@@ -158,7 +159,7 @@ void vertical_segment::set(int i, const vec& x)
        row.head(x.size()) = x;
    } else {
       std::cerr << "<<ERROR>> Passing an incorrect element to vertical_segment::set" << std::endl;
-      throw;
+      throw std::invalid_argument("incorrect sample size");
    }
 }
 
-- 
2.43.0


From 0b619801596a7a41a8aa723d93bd25d06023bfc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:23 +0000
Subject: [PATCH 117/130] fix: Python data objects refuse indices out of range
 and samples that are too short

---
 sources/python/wrapper_data.h | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index c2a37a4..d769708 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -44,16 +44,33 @@ static ptr<data> get_data(const std::string& plugin_name, size_t size,
   return plugins_manager::get_data(plugin_name, size, params);
 }
 
+/* Access to the samples of a data object. An index out of range is an error,
+ * which also ends the iteration over the samples.
+ */
+static vec data_get(const data& d, int i)
+{
+  if (i < 0 || i >= d.size()) throw py::index_error();
+  return d.get(i);
+}
+
+static void data_set(data& d, int i, const vec& x)
+{
+  if (i < 0 || i >= d.size()) throw py::index_error();
+  if (x.size() < d.parametrization().dimX() + d.parametrization().dimY())
+    throw py::value_error("incorrect sample size");
+  d.set(i, x);
+}
+
 /* Register the `data` class to python
  */
 inline void register_data(py::module& m) {
    py::class_<data, ptr<data>>(m, "data")
-      .def("__getitem__", &data::get)
-      .def("__setitem__", &data::set)
+      .def("__getitem__", &data_get)
+      .def("__setitem__", &data_set)
       .def("__len__", &data::size)
       .def("size",  &data::size)
-      .def("get",   &data::get)
-      .def("set",   &data::set)
+      .def("get",   &data_get)
+      .def("set",   &data_set)
       .def("value", &data::value)
       .def("save",  &data::save)
       .def("parametrization", &data::parametrization);
-- 
2.43.0


From a0bbd2a4603cce44280df7cfc5c91c6e305f2ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:23 +0000
Subject: [PATCH 118/130] fix: Python get_data and save accept the arguments
 object of the module

---
 sources/python/alta.cpp       | 6 +++++-
 sources/python/wrapper_data.h | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 8b23dc6..01e7240 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -186,6 +186,10 @@ static vec get_function_params(ptr<function>& f) {
 /* Save a function object to a file, without any argument option. This will save the function
  * object in ALTA's format.
  */
+static void save_function_with_args(const ptr<function>& f, const std::string& filename,
+                                    const python_arguments& args) {
+   f->save(filename, args);
+}
 static void save_function_without_args(const ptr<function>& f, const std::string& filename) {
    arguments args;
    f->save(filename, args);
@@ -314,7 +318,7 @@ inline void register_function(py::module& m) {
 		.def("value",    &function::value)
 		.def("load",     &load_from_file)
 		.def("load",     &load_from_file_with_args)
-		.def("save",     &function::save)
+		.def("save",     &save_function_with_args)
       .def("save",     &save_function_without_args)
 		.def("set",      &set_function_params)
 		.def("get",      &get_function_params);
diff --git a/sources/python/wrapper_data.h b/sources/python/wrapper_data.h
index d769708..af58b5d 100644
--- a/sources/python/wrapper_data.h
+++ b/sources/python/wrapper_data.h
@@ -33,7 +33,7 @@ static ptr<data> load_data(const std::string& plugin_name,
 static ptr<data> get_data_with_args(const std::string& plugin_name,
                                     size_t size,
                                     const parameters& params,
-                                    const arguments& args)
+                                    const python_arguments& args)
 {
   return plugins_manager::get_data(plugin_name, size, params, args);
 }
-- 
2.43.0


From 89ad716d745a7ac0ccd2dd35bdf11632a398a4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:23 +0000
Subject: [PATCH 119/130] fix: Python data2data keeps the intervals of the
 samples instead of storing empty ones

---
 sources/python/alta.cpp | 39 +++++++++++++++++++++++++--------------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 01e7240..2d9f47a 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -225,8 +225,14 @@ static ptr<data> data2data(const data* d_in, const parameters& target)
     };
 
     // For each sample we store the X and Y values, followed by the
-    // confidence interval on Y.
-    size_t sample_size = target.dimX() + 3 * target.dimY();
+    // confidence interval on Y when the input has one.
+    auto segment = dynamic_cast<const vertical_segment*>(d_in);
+    const auto kind = segment && segment->confidence_interval_kind()
+            != vertical_segment::NO_CONFIDENCE_INTERVAL
+        ? vertical_segment::ASYMMETRICAL_CONFIDENCE_INTERVAL
+        : vertical_segment::NO_CONFIDENCE_INTERVAL;
+    const int nb_outputs = kind == vertical_segment::NO_CONFIDENCE_INTERVAL ? 1 : 3;
+    size_t sample_size = target.dimX() + nb_outputs * target.dimY();
 
     double* content = new double[d_in->size() * sample_size];
 
@@ -238,24 +244,29 @@ static ptr<data> data2data(const data* d_in, const parameters& target)
                         d_in->parametrization().input_parametrization(),
                         target.input_parametrization(),
                         &content[sample * sample_size]);
-        params::convert(&x[d_in->parametrization().dimX()],
-                        d_in->parametrization().output_parametrization(),
-                        d_in->parametrization().dimY(),
-                        target.output_parametrization(),
-                        target.dimY(),
-                        &content[sample * sample_size + target.dimX()]);
-
-        // Set the confidence interval on Y to zero.
-        for (auto i = 0; i < 2 * target.dimY(); i++)
+
+        // Convert the values, and the bounds of their interval
+        vec y[3] = { x.tail(d_in->parametrization().dimY()) };
+        if (nb_outputs > 1)
+        {
+            segment->get(sample, y[1], y[2]);
+        }
+        for (auto i = 0; i < nb_outputs; i++)
         {
-            content[sample * sample_size + target.dimX() + target.dimY()
-                    + i] = 0.;
+            params::convert(&y[i][0],
+                            d_in->parametrization().output_parametrization(),
+                            d_in->parametrization().dimY(),
+                            target.output_parametrization(),
+                            target.dimY(),
+                            &content[sample * sample_size + target.dimX()
+                                     + i * target.dimY()]);
         }
     }
 
     data* result = new vertical_segment(target, d_in->size(),
                                         std::shared_ptr<double>(content,
-                                                                delete_array));
+                                                                delete_array),
+                                        kind);
     return ptr<data>(result);
 }
 
-- 
2.43.0


From 9cf82fcb8cc7e4eef581530bc8db70846d740f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:23 +0000
Subject: [PATCH 120/130] fix: Python brdf2data refuses data of another output
 dimension

---
 sources/python/alta.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/sources/python/alta.cpp b/sources/python/alta.cpp
index 2d9f47a..ba5fb83 100644
--- a/sources/python/alta.cpp
+++ b/sources/python/alta.cpp
@@ -282,6 +282,11 @@ static void brdf2data(const ptr<function>& f, ptr<data>& d) {
 		return;
 	}
 
+	if(f->parametrization().dimY() != d->parametrization().dimY()) {
+		std::cerr << "<<ERROR>> The function and the data object have different output dimensions." << std::endl;
+		return;
+	}
+
 	vec temp(f->parametrization().dimX());
 	for(int i=0; i<d->size(); ++i) {
 		// Copy the input vector
-- 
2.43.0


From 7eda677c24534a1e56d4fe0155a7d1cadce5b089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:26 +0000
Subject: [PATCH 121/130] fix: exported shaders end the statement of the call,
 group sums and products, and define each function once

---
 sources/core/function.cpp | 61 ++++++++++++++++++++++++++++++++-------
 1 file changed, 51 insertions(+), 10 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index b154d43..dd2e422 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -16,6 +16,8 @@
 #include "plugins_manager.h"
 
 #include <cassert>
+#include <set>
+#include <sstream>
 
 using namespace alta;
 
@@ -106,6 +108,10 @@ void function::save(const std::string& filename, const arguments& args) const
 
 	// Save fit data
 	save_call(file, args);
+	if(is_shader)
+	{
+		file << ";" << std::endl;
+	}
 	if(is_cpp || is_shader)
 	{
 		file << "\treturn res;" << std::endl;
@@ -773,10 +779,17 @@ void compound_function::setParameters(const vec& p)
 		
 void compound_function::save_body(std::ostream& out, const arguments& args) const
 {
+	// Functions of the same kind share their definition
+	std::set<std::string> bodies;
 	for(unsigned int i=0; i<fs.size(); ++i)
 	{
-		fs[i]->save_body(out, args);
-		out << std::endl;
+		std::ostringstream body;
+		body.precision(out.precision());
+		fs[i]->save_body(body, args);
+		if(bodies.insert(body.str()).second)
+		{
+			out << body.str() << std::endl;
+		}
 	}
 
 	function::save_body(out, args);
@@ -794,21 +807,37 @@ void compound_function::save_call(std::ostream& out, const arguments& args) cons
 	// For C++ export, the function call should be done before hand and
 	// the line should look like:
 	//   res += call_i(x);
+	//
+	// For shaders, the sum is an expression, which can be a factor too.
+	if(is_shader)
+	{
+		out << "(";
+	}
+
 	for(unsigned int i=0; i<fs.size(); ++i)
 	{
-		if(i != 0 && (is_cpp || is_matlab || is_shader))
+		if(i != 0 && (is_cpp || is_matlab))
 		{
 			out << "\tres += ";
 		}
+		else if(i != 0 && is_shader)
+		{
+			out << " + ";
+		}
 
 		fs[i]->save_call(out, args);
 
-		if(is_cpp || is_matlab || is_shader)
+		if(is_cpp || is_matlab)
 		{
 			out << ";" << std::endl;
 		}
 	}
 
+	if(is_shader)
+	{
+		out << ")";
+	}
+
 	function::save_call(out, args);
 }
 
@@ -905,11 +934,18 @@ bool product_function::load(std::istream& in)
 
 void product_function::save_body(std::ostream& out, const arguments& args) const
 {
-	f1->save_body(out, args);
-	out << std::endl;
-	
-	f2->save_body(out, args);
-	out << std::endl;
+	// Functions of the same kind share their definition
+	std::ostringstream first, second;
+	first.precision(out.precision());
+	f1->save_body(first, args);
+	out << first.str() << std::endl;
+
+	second.precision(out.precision());
+	f2->save_body(second, args);
+	if(second.str() != first.str())
+	{
+		out << second.str() << std::endl;
+	}
 
 	function::save_body(out, args);
 }
@@ -933,7 +969,12 @@ void product_function::save_call(std::ostream& out, const arguments& args) const
 
 	f1->save_call(out, args);
 
-	if(is_cpp || is_matlab || is_shader)
+	// The call of several lobes is a sum
+	if(is_shader)
+	{
+		out << ") * (";
+	}
+	else if(is_cpp || is_matlab)
 	{
 		out << " * ";
 	}
-- 
2.43.0


From 2ac74c3cb874be837b31323ac9254907b4048df2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:26 +0000
Subject: [PATCH 122/130] fix: shader of the Schlick masking term is
 well-formed and has the sign and the view of the model

---
 sources/plugins/nonlinear_shadowing_schlick/function.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_schlick/function.cpp b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
index abe63f3..934a6e5 100644
--- a/sources/plugins/nonlinear_shadowing_schlick/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_schlick/function.cpp
@@ -89,7 +89,7 @@ void schlick_masking::save_call(std::ostream& out, const arguments& args) const
     }
     else
     {
-        out << "masking_schlick(L, V, N, X, Y, vec3";
+        out << "masking_schlick(L, V, N, X, Y, vec3(";
         for(int i=0; i<_parameters.dimY(); ++i)
         {
             out << w[i];
@@ -109,10 +109,10 @@ void schlick_masking::save_body(std::ostream& out, const arguments& args) const
         out << "vec3 masking_schlick(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 K)" << std::endl;
         out << "{" << std::endl;
         out << "\tconst float dotLN = dot(L, N);" << std::endl;
-        out << "\tconst float dotVN = dot(L, N);" << std::endl;
+        out << "\tconst float dotVN = dot(V, N);" << std::endl;
 		  out << std::endl;
-        out << "\tconst vec3 GL = dotLN / (dotLN + K * (dotLN - 1.0));" << std::endl;
-        out << "\tconst vec3 GV = dotVN / (dotVN + K * (dotVN - 1.0));" << std::endl;
+        out << "\tconst vec3 GL = dotLN / (dotLN + K * (1.0 - dotLN));" << std::endl;
+        out << "\tconst vec3 GV = dotVN / (dotVN + K * (1.0 - dotVN));" << std::endl;
 		  out << std::endl;
         out << "\treturn vec3(GL*GV);" << std::endl;
         out << "}" << std::endl;
-- 
2.43.0


From 5e7dd8708c7a75c19e59cd619ce839b4ac0aeeec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:26 +0000
Subject: [PATCH 123/130] fix: shader of the Walter-Smith term initializes its
 vectors in GLSL

---
 sources/plugins/nonlinear_shadowing_walter_smith/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
index ba909e9..47454f5 100644
--- a/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
+++ b/sources/plugins/nonlinear_shadowing_walter_smith/function.cpp
@@ -156,13 +156,13 @@ WalterSmith::save_body(std::ostream& out, const arguments& args) const
 
     out << "\t float tan_theta_v = tan( acos( NdotV ) ); " << std::endl
         << std::endl
-        << "\t vec3 geom_term_view(0.0); " << std::endl
+        << "\t vec3 geom_term_view = vec3(0.0); " << std::endl
         << "\t geom_term_view[0] = shadow_approx_rational( 1.0 / (alpha[0]*tan_theta_v)) ;"<< std::endl
         << "\t geom_term_view[1] = shadow_approx_rational( 1.0 / (alpha[1]*tan_theta_v)) ;"<< std::endl
         << "\t geom_term_view[2] = shadow_approx_rational( 1.0 / (alpha[2]*tan_theta_v)) ;"<< std::endl
         << std::endl
         << "\t float tan_theta_l = tan( acos( NdotL ) ); " << std::endl
-        << "\t vec3 geom_term_light(0.0); " << std::endl    
+        << "\t vec3 geom_term_light = vec3(0.0); " << std::endl    
         << "\t geom_term_light[0] = shadow_approx_rational( 1.0 / (alpha[0]*tan_theta_l)) ;" << std::endl
         << "\t geom_term_light[1] = shadow_approx_rational( 1.0 / (alpha[1]*tan_theta_l)) ;" << std::endl
         << "\t geom_term_light[2] = shadow_approx_rational( 1.0 / (alpha[2]*tan_theta_l)) ;" << std::endl
-- 
2.43.0


From f22d8b5d8a32b318ff40c69bf434ec71e2581827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:26 +0000
Subject: [PATCH 124/130] fix: shader of the retro Blinn lobe applies its
 coefficient

---
 sources/plugins/nonlinear_function_retroblinn/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_retroblinn/function.cpp b/sources/plugins/nonlinear_function_retroblinn/function.cpp
index 05d4d3e..bc1f4e0 100644
--- a/sources/plugins/nonlinear_function_retroblinn/function.cpp
+++ b/sources/plugins/nonlinear_function_retroblinn/function.cpp
@@ -220,7 +220,7 @@ void retroblinn_function::save_body(std::ostream& out,
 		  out << "\tvec3 Vp = 2.0f*N*(dot(N,V)) - V;" << std::endl;
 		  out << "\tvec3 K  = normalize(L + Vp);" << std::endl;
         out << "\tvec3 ext_dot = vec3(dot(K,N));" << std::endl;
-        out << "\treturn pow(max(ext_dot, vec3(0,0,0)), Nl);" << std::endl;
+        out << "\treturn ks * pow(max(ext_dot, vec3(0,0,0)), Nl);" << std::endl;
         out << "}" << std::endl;
         out << std::endl;
     }
-- 
2.43.0


From 22407759cc14184929b5224fa573a309b73c81f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:26 +0000
Subject: [PATCH 125/130] fix: shader of the Beckmann lobe computes the model

---
 .../nonlinear_function_beckmann/function.cpp  | 30 ++-----------------
 1 file changed, 2 insertions(+), 28 deletions(-)

diff --git a/sources/plugins/nonlinear_function_beckmann/function.cpp b/sources/plugins/nonlinear_function_beckmann/function.cpp
index 581bda3..86f4eb0 100644
--- a/sources/plugins/nonlinear_function_beckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_beckmann/function.cpp
@@ -284,33 +284,6 @@ void beckmann_function::save_body(std::ostream& out, const arguments& args) cons
 
     if(is_shader)
     {
-    	//This is the Rational Approximation Code from Walter2007
-    	out << "vec3 g_beckmann(vec3 M, vec3 N, vec3 a)" << std::endl;
-		  out << "{" << std::endl;
-      out << "\tfloat d = dot(M,N);" << std::endl;
-		  out << "\tvec3 c = d / (a * sqrt(1.0f-d));" << std::endl;
-		  out << "\tvec3 r;" << std::endl;
-		  out << "\tif(c.x < 1.6f) {" << std::endl;
-		  out << "\t\tr.x = (3.535*c.x + 2.181*c.x*c.x) / (1 + 2.276*c.x + 2.577*c.x*c.x);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.x = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\tif(c.y < 1.6f) {" << std::endl;
-		  out << "\t\tr.y = (3.535*c.y + 2.181*c.y*c.y) / (1 + 2.276*c.y + 2.577*c.y*c.y);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.y = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\tif(c.z < 1.6f) {" << std::endl;
-		  out << "\t\tr.z = (3.535*c.z + 2.181*c.z*c.z) / (1 + 2.276*c.z + 2.577*c.z*c.z);" << std::endl;
-		  out << "\t} else {" << std::endl;
-		  out << "\t\tr.z = 1.0f;" << std::endl;
-		  out << "\t}" << std::endl;
-		  out << "\treturn r;" << std::endl;
-      out << "}" << std::endl;
-
-		  out << std::endl;
-
-		  // This part is the call to beckmann function
       out << "vec3 beckmann(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
       out << "{" << std::endl;
       out << "\tvec3  H   = normalize(L + V);" << std::endl;
@@ -318,7 +291,8 @@ void beckmann_function::save_body(std::ostream& out, const arguments& args) cons
 		  out << "\tfloat ln  = dot(L,N);" << std::endl;
 		  out << "\tfloat vn  = dot(V,N);" << std::endl;
 		  out << "\t" << std::endl;
-      out << "\treturn ks / (4 * " << M_PI << " * a*a * ln*vn) * exp((hn*hn - 1.0) / (a*a*hn*hn)) * g_beckmann(L,N,a) * g_beckmann(V,N,a);" << std::endl;
+		  out << "\tif(hn <= 0.0 || ln*vn <= 0.0) { return vec3(0.0); }" << std::endl;
+      out << "\treturn ks / (4 * " << M_PI << " * a*a * hn*hn*hn*hn) * exp(vec3((hn*hn - 1.0) / (hn*hn)) / (a*a));" << std::endl;
       out << "}" << std::endl;
     }
 }
-- 
2.43.0


From 107ca43307c7c20555d78ab3c72ab120ce8622d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:26 +0000
Subject: [PATCH 126/130] fix: shader of the retro Beckmann lobe computes the
 model of either type

---
 .../function.cpp                              | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
index a82d1b6..369c66e 100644
--- a/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
+++ b/sources/plugins/nonlinear_function_retrobeckmann/function.cpp
@@ -292,13 +292,18 @@ void beckmann_function::save_body(std::ostream& out, const arguments& args) cons
     {
         out << "vec3 retrobeckmann(vec3 L, vec3 V, vec3 N, vec3 X, vec3 Y, vec3 ks, vec3 a)" << std::endl;
         out << "{" << std::endl;
-        out << "\tvec3  R   = 2*dot(V,N)*N - V;" << std::endl;
-        out << "\tvec3  B   = normalize(L + R);" << std::endl;
-        out << "\tfloat bn  = dot(B,N);" << std::endl;
-		  out << "\tfloat ln  = dot(L,N);" << std::endl;
-		  out << "\tfloat vn  = dot(V,N);" << std::endl;
-		  out << "\t" << std::endl;
-        out << "\treturn ks / (4 * " << M_PI << " * a*a * ln*vn) * exp((bn*bn - 1.0) / (a*a*bn*bn));" << std::endl;
+        if(_use_back_param)
+        {
+            out << "\tvec3  R   = 2*dot(V,N)*N - V;" << std::endl;
+            out << "\tvec3  B   = normalize(L + R);" << std::endl;
+            out << "\tfloat bn  = dot(B,N);" << std::endl;
+        }
+        else
+        {
+            out << "\tfloat bn  = dot(L,V);" << std::endl;
+        }
+        out << "\tif(bn <= 0.0) { return vec3(0.0); }" << std::endl;
+        out << "\treturn ks / (4 * " << M_PI << " * a*a * bn*bn*bn*bn) * exp(vec3((bn*bn - 1.0) / (bn*bn)) / (a*a));" << std::endl;
         out << "}" << std::endl;
     }
 }
-- 
2.43.0


From 178034f01e21d30cb396fa4f8d5cd8181895c776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:26 +0000
Subject: [PATCH 127/130] fix: shader of the ABC lobe uses one minus the cosine

---
 sources/plugins/nonlinear_function_abc/function.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sources/plugins/nonlinear_function_abc/function.cpp b/sources/plugins/nonlinear_function_abc/function.cpp
index 81d5be4..4fb18c0 100644
--- a/sources/plugins/nonlinear_function_abc/function.cpp
+++ b/sources/plugins/nonlinear_function_abc/function.cpp
@@ -289,7 +289,7 @@ void abc_function::save_body(std::ostream& out, const arguments& args) const
         out << "\tvec3  H   = normalize(L + V);" << std::endl;
         out << "\tfloat hn  = dot(H,N);" << std::endl;
 		  out << "\t" << std::endl;
-        out << "\treturn a / pow(vec3(1.0f) + b*hn, c);" << std::endl;
+        out << "\treturn a / pow(vec3(1.0f) + b*(1.0f - hn), c);" << std::endl;
         out << "}" << std::endl;
     }
 }
-- 
2.43.0


From 7c573df5f7a5ca37c91300a3434e00b62b720ff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:30:26 +0000
Subject: [PATCH 128/130] fix: shader of the Lafortune model has the diffuse
 term

---
 .../nonlinear_function_lafortune/function.cpp        | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/sources/plugins/nonlinear_function_lafortune/function.cpp b/sources/plugins/nonlinear_function_lafortune/function.cpp
index 907d209..07a1a81 100644
--- a/sources/plugins/nonlinear_function_lafortune/function.cpp
+++ b/sources/plugins/nonlinear_function_lafortune/function.cpp
@@ -481,9 +481,17 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
     }
     else
     {
+        out << "vec3(";
+        for(int i=0; i<_nY; ++i)
+        {
+            out << _kd[i];
+            if(i < _nY-1) { out << ", "; }
+        }
+        out << ")";
+
         for(int n=0; n<_n; ++n)
         {
-            out << "lafortune(L, V, N, X, Y, vec3(";
+            out << " + lafortune(L, V, N, X, Y, vec3(";
             for(int i=0; i<_nY; ++i)
             {
                 out << _C[(n*_nY + i)*3 + 0];
@@ -511,9 +519,7 @@ void lafortune_function::save_call(std::ostream& out, const arguments& args) con
                 if(i < _nY-1) { out << ", "; }
             }
 
-            // For multiple lobes, add a sum sign
             out << "))";
-            if(n < _n-1) { out << " + "; }
         }
     }
 }
-- 
2.43.0


From 7660ec6142ebb0af456c5b391478eb6878930013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:55:39 +0000
Subject: [PATCH 129/130] fix: a function saved with --export alta has its
 header and parameters

---
 sources/core/function.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sources/core/function.cpp b/sources/core/function.cpp
index dd2e422..fa4e9a3 100644
--- a/sources/core/function.cpp
+++ b/sources/core/function.cpp
@@ -136,7 +136,7 @@ void function::save(const std::string& filename, const arguments& args) const
 //! the dimension of the fit. L2 and L_inf distance could be added here.
 void function::save_header(std::ostream& out, const arguments& args) const
 {
-	if(!args.is_defined("export"))
+	if(!args.is_defined("export") || args["export"] == "alta")
 	{
 		out << "#ALTA FUNC HEADER" << std::endl;
 		out << "#CMD " << args.get_cmd() << std::endl;
@@ -337,7 +337,7 @@ bool nonlinear_function::load(std::istream& in)
 
 void nonlinear_function::save_call(std::ostream& out, const arguments& args) const
 {
-	if(!args.is_defined("export"))
+	if(!args.is_defined("export") || args["export"] == "alta")
 	{
 		// Dump a #FUNC nonlinear
 		out << "#FUNC nonlinear_function" << std::endl;
-- 
2.43.0


From 3dc93a572a21bd07cfa2aaf12110cc97190e735d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:34:53 +0000
Subject: [PATCH 130/130] fix: --change-param converts the samples instead of
 reading an empty list

---
 sources/core/data.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/sources/core/data.h b/sources/core/data.h
index c620ad9..ead52fa 100644
--- a/sources/core/data.h
+++ b/sources/core/data.h
@@ -153,8 +153,22 @@ class data_params : public data
       //TODO
       //clustering<data>(d, _nY, d->parametrization(), new_param, _data);
 
+      const int nX = parametrization().dimX();
+      const int nY = parametrization().dimY();
+      for(int i=0; i<size; ++i)
+      {
+        const vec x = d->get(i);
+        vec y(nX + nY);
+        params::convert(&x[0], d->parametrization().input_parametrization(),
+                        new_param, &y[0]);
+        y.tail(nY) = x.segment(d->parametrization().dimX(), nY);
+        _data.push_back(y);
+
+        _min = (i == 0) ? vec(y.head(nX)) : vec(_min.cwiseMin(y.head(nX)));
+        _max = (i == 0) ? vec(y.head(nX)) : vec(_max.cwiseMax(y.head(nX)));
+      }
+
       std::cout << "<<INFO>> clustering left " << _data.size() << "/" << d->size() << " elements" << std::endl;
-      save(std::string("cluster.gnuplot"));
     }
 
     virtual vec value(const vec&) const
@@ -170,7 +184,7 @@ class data_params : public data
 
     virtual void set(int i, const vec& x)
     {
-      this->set(i, x);
+      _data[i] = x;
     }
 
   protected: // data
-- 
2.43.0

