From fc0caee009ec927c5125766323d3fe4e9e9cbce4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:22:30 +0000
Subject: [PATCH 01/24] fix: FORCE flux used the left state's magnetic pressure
 in the energy flux of the mean state

---
 src/rsolvers/force.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/rsolvers/force.c b/src/rsolvers/force.c
index 13b053f..06ad029 100644
--- a/src/rsolvers/force.c
+++ b/src/rsolvers/force.c
@@ -270,7 +270,8 @@ void fluxes(const Cons1DS Ul, const Cons1DS Ur,
   Fc.Mz -= Bxi*Wc.Bz;
 
 #ifndef ISOTHERMAL
-  Fc.E += (pbl*Wc.Vx - Bxi*(Bxi*Wc.Vx + Wc.By*Wc.Vy + Wc.Bz*Wc.Vz));
+  Fc.E += (0.5*(SQR(Bxi) + SQR(Wc.By) + SQR(Wc.Bz))*Wc.Vx
+           - Bxi*(Bxi*Wc.Vx + Wc.By*Wc.Vy + Wc.Bz*Wc.Vz));
 #endif /* ISOTHERMAL */
 
   Fc.By = Wc.By*Wc.Vx - Bxi*Wc.Vy;
-- 
2.43.0


From f0aabd3996a2ddd23db322fd062d790fe2c009d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:23:40 +0000
Subject: [PATCH 02/24] fix: relativistic MHD signal speeds treated every
 negative normal field as zero

---
 src/rsolvers/hllc_sr.c | 2 +-
 src/rsolvers/hlld_sr.c | 2 +-
 src/rsolvers/hlle_sr.c | 2 +-
 3 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/rsolvers/hllc_sr.c b/src/rsolvers/hllc_sr.c
index bdc3d51..f6f5305 100644
--- a/src/rsolvers/hllc_sr.c
+++ b/src/rsolvers/hllc_sr.c
@@ -844,7 +844,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlld_sr.c b/src/rsolvers/hlld_sr.c
index a35afc5..bc14918 100644
--- a/src/rsolvers/hlld_sr.c
+++ b/src/rsolvers/hlld_sr.c
@@ -958,7 +958,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
diff --git a/src/rsolvers/hlle_sr.c b/src/rsolvers/hlle_sr.c
index 1310989..6325bdd 100644
--- a/src/rsolvers/hlle_sr.c
+++ b/src/rsolvers/hlle_sr.c
@@ -445,7 +445,7 @@ void getVChar_pluto(const Prim1DS W, const Real Bx, Real* lm, Real* lp)
 	
   w_1 = 1.0/(rhoh + bsq);   
 	
-  if (Bx < 1.0e-14) {
+  if (fabs(Bx) < 1.0e-14) {
 		
     eps2  = cssq + bsq*w_1*(1.0 - cssq);
 		
-- 
2.43.0


From fac8a3187517fca01d45ff3d9b39c7821273e03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:11:56 +0000
Subject: [PATCH 03/24] fix: PPM in primitive variables: use each passive
 scalar's own slope in the wave subtraction

---
 src/reconstruction/lr_states_prim3.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/reconstruction/lr_states_prim3.c b/src/reconstruction/lr_states_prim3.c
index 2fda1b5..453bf4c 100644
--- a/src/reconstruction/lr_states_prim3.c
+++ b/src/reconstruction/lr_states_prim3.c
@@ -329,11 +329,11 @@ void lr_states(const GridS *pG __attribute__((unused)),
       if (W[i].Vx > 0.) {
         qb = 0.5*dtodx*(ev[NWAVE-1]-W[i].Vx);
         qc = 0.5*dtodx*dtodx*TWO_3RDS*(SQR(ev[NWAVE-1]) - SQR(W[i].Vx));
-        pWl[n] += qb*(dW[m]-W6[m]) + qc*W6[m];
+        pWl[n] += qb*(dW[n]-W6[n]) + qc*W6[n];
       } else if (W[i].Vx < 0.) {
         qb = 0.5*dtodx*(ev[0]-W[i].Vx);
         qc = 0.5*dtodx*dtodx*TWO_3RDS*(ev[0]*ev[0] - W[i].Vx*W[i].Vx);
-        pWr[n] += qb*(dW[m]+W6[m]) + qc*W6[m];
+        pWr[n] += qb*(dW[n]+W6[n]) + qc*W6[n];
       }
     }
 
-- 
2.43.0


From ab013963dc2e2168fd9e3e2d8733a4db147a711c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 04/24] fix: new_dt: field strength in the CFL speed was
 underestimated for negative B

---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 595fe3b..361125d 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -95,11 +95,11 @@ void new_dt(MeshS *pM)
 #ifdef MHD
 
 /* Use maximum of face-centered fields (always larger than cell-centered B) */
-        b1 = pGrid->U[k][j][i].B1c 
+        b1 = fabs((double)(pGrid->U[k][j][i].B1c))
           + fabs((double)(pGrid->B1i[k][j][i] - pGrid->U[k][j][i].B1c));
-        b2 = pGrid->U[k][j][i].B2c 
+        b2 = fabs((double)(pGrid->U[k][j][i].B2c))
           + fabs((double)(pGrid->B2i[k][j][i] - pGrid->U[k][j][i].B2c));
-        b3 = pGrid->U[k][j][i].B3c 
+        b3 = fabs((double)(pGrid->U[k][j][i].B3c))
           + fabs((double)(pGrid->B3i[k][j][i] - pGrid->U[k][j][i].B3c));
         bsq = b1*b1 + b2*b2 + b3*b3;
 /* compute sound speed squared */
-- 
2.43.0


From d5e031ccd0c41d9adcaec6b8492352606911c168 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:55:37 +0000
Subject: [PATCH 05/24] fix: new_dt: particles moving in the negative direction
 were ignored by the CFL condition

---
 src/new_dt.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/new_dt.c b/src/new_dt.c
index 361125d..4e729fe 100644
--- a/src/new_dt.c
+++ b/src/new_dt.c
@@ -157,11 +157,11 @@ void new_dt(MeshS *pM)
 #ifdef PARTICLES
     for (q=0; q<pGrid->nparticle; q++) {
       if (pGrid->Nx[0] > 1)
-        max_v1 = MAX(max_v1, pGrid->particle[q].v1);
+        max_v1 = MAX(max_v1, fabs((double)(pGrid->particle[q].v1)));
       if (pGrid->Nx[1] > 1)
-        max_v2 = MAX(max_v2, pGrid->particle[q].v2);
+        max_v2 = MAX(max_v2, fabs((double)(pGrid->particle[q].v2)));
       if (pGrid->Nx[2] > 1)
-        max_v3 = MAX(max_v3, pGrid->particle[q].v3);
+        max_v3 = MAX(max_v3, fabs((double)(pGrid->particle[q].v3)));
     }
 #endif /* PARTICLES */
 
-- 
2.43.0


From ed19a183c3995704172da8a1662424991d8841d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:27:13 +0000
Subject: [PATCH 06/24] fix: self-gravity: 2D flux correction compared the new
 potential with itself in the x2 energy terms

---
 src/gravity/selfg.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/gravity/selfg.c b/src/gravity/selfg.c
index 4aee809..2b46ca3 100644
--- a/src/gravity/selfg.c
+++ b/src/gravity/selfg.c
@@ -175,7 +175,7 @@ void selfg_fc(DomainS *pD)
         phil_old = 0.5*(pG->Phi_old[ks][j-1][i] + pG->Phi_old[ks][j  ][i]);
         phir_old = 0.5*(pG->Phi_old[ks][j  ][i] + pG->Phi_old[ks][j+1][i]);
 
-        dphic = phic - pG->Phi[ks][j][i];
+        dphic = phic - pG->Phi_old[ks][j][i];
         dphil = phil - phil_old;
         dphir = phir - phir_old;
 
-- 
2.43.0


From 92f152222526da7dafb03f7b932445324aff3cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:32 +0000
Subject: [PATCH 07/24] fix: anisotropic viscosity: use the velocity
 components' current names (did not compile with MHD)

---
 src/microphysics/viscosity.c | 144 +++++++++++++++++------------------
 1 file changed, 72 insertions(+), 72 deletions(-)

diff --git a/src/microphysics/viscosity.c b/src/microphysics/viscosity.c
index 3ec0ef3..20366ca 100644
--- a/src/microphysics/viscosity.c
+++ b/src/microphysics/viscosity.c
@@ -354,50 +354,50 @@ void ViscStress_aniso(DomainS *pD)
     for (i=is; i<=ie+1; i++) {
 
       /* Monotonized Velocity gradient dVx/dy */
-      dVxdy = limiter4(Vel[k][j+1][i  ].x - Vel[k][j  ][i  ].x,
-                       Vel[k][j  ][i  ].x - Vel[k][j-1][i  ].x,
-                       Vel[k][j+1][i-1].x - Vel[k][j  ][i-1].x,
-                       Vel[k][j  ][i-1].x - Vel[k][j-1][i-1].x);
+      dVxdy = limiter4(Vel[k][j+1][i  ].x1 - Vel[k][j  ][i  ].x1,
+                       Vel[k][j  ][i  ].x1 - Vel[k][j-1][i  ].x1,
+                       Vel[k][j+1][i-1].x1 - Vel[k][j  ][i-1].x1,
+                       Vel[k][j  ][i-1].x1 - Vel[k][j-1][i-1].x1);
       dVxdy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVy/dy */
-      dVydy = limiter4(Vel[k][j+1][i  ].y - Vel[k][j  ][i  ].y,
-                       Vel[k][j  ][i  ].y - Vel[k][j-1][i  ].y,
-                       Vel[k][j+1][i-1].y - Vel[k][j  ][i-1].y,
-                       Vel[k][j  ][i-1].y - Vel[k][j-1][i-1].y);
+      dVydy = limiter4(Vel[k][j+1][i  ].x2 - Vel[k][j  ][i  ].x2,
+                       Vel[k][j  ][i  ].x2 - Vel[k][j-1][i  ].x2,
+                       Vel[k][j+1][i-1].x2 - Vel[k][j  ][i-1].x2,
+                       Vel[k][j  ][i-1].x2 - Vel[k][j-1][i-1].x2);
       dVydy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVz/dy */
-      dVzdy = limiter4(Vel[k][j+1][i  ].z - Vel[k][j  ][i  ].z,
-                       Vel[k][j  ][i  ].z - Vel[k][j-1][i  ].z,
-                       Vel[k][j+1][i-1].z - Vel[k][j  ][i-1].z,
-                       Vel[k][j  ][i-1].z - Vel[k][j-1][i-1].z);
+      dVzdy = limiter4(Vel[k][j+1][i  ].x3 - Vel[k][j  ][i  ].x3,
+                       Vel[k][j  ][i  ].x3 - Vel[k][j-1][i  ].x3,
+                       Vel[k][j+1][i-1].x3 - Vel[k][j  ][i-1].x3,
+                       Vel[k][j  ][i-1].x3 - Vel[k][j-1][i-1].x3);
       dVzdy /= pG->dx2;
       
       /* Monotonized Velocity gradient dVx/dz, 3D problem ONLY */
       if (pD->Nx[2] > 1) {
-        dVxdz = limiter4(Vel[k+1][j][i  ].x - Vel[k  ][j][i  ].x,
-                         Vel[k  ][j][i  ].x - Vel[k-1][j][i  ].x,
-                         Vel[k+1][j][i-1].x - Vel[k  ][j][i-1].x,
-                         Vel[k  ][j][i-1].x - Vel[k-1][j][i-1].x);
+        dVxdz = limiter4(Vel[k+1][j][i  ].x1 - Vel[k  ][j][i  ].x1,
+                         Vel[k  ][j][i  ].x1 - Vel[k-1][j][i  ].x1,
+                         Vel[k+1][j][i-1].x1 - Vel[k  ][j][i-1].x1,
+                         Vel[k  ][j][i-1].x1 - Vel[k-1][j][i-1].x1);
         dVxdz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVy/dz */
       if (pD->Nx[2] > 1) {
-        dVydz = limiter4(Vel[k+1][j][i  ].y - Vel[k  ][j][i  ].y,
-                         Vel[k  ][j][i  ].y - Vel[k-1][j][i  ].y,
-                         Vel[k+1][j][i-1].y - Vel[k  ][j][i-1].y,
-                         Vel[k  ][j][i-1].y - Vel[k-1][j][i-1].y);
+        dVydz = limiter4(Vel[k+1][j][i  ].x2 - Vel[k  ][j][i  ].x2,
+                         Vel[k  ][j][i  ].x2 - Vel[k-1][j][i  ].x2,
+                         Vel[k+1][j][i-1].x2 - Vel[k  ][j][i-1].x2,
+                         Vel[k  ][j][i-1].x2 - Vel[k-1][j][i-1].x2);
         dVydz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVz/dz */
       if (pD->Nx[2] > 1) {
-        dVzdz = limiter4(Vel[k+1][j][i  ].z - Vel[k  ][j][i  ].z,
-                         Vel[k  ][j][i  ].z - Vel[k-1][j][i  ].z,
-                         Vel[k+1][j][i-1].z - Vel[k  ][j][i-1].z,
-                         Vel[k  ][j][i-1].z - Vel[k-1][j][i-1].z);
+        dVzdz = limiter4(Vel[k+1][j][i  ].x3 - Vel[k  ][j][i  ].x3,
+                         Vel[k  ][j][i  ].x3 - Vel[k-1][j][i  ].x3,
+                         Vel[k+1][j][i-1].x3 - Vel[k  ][j][i-1].x3,
+                         Vel[k  ][j][i-1].x3 - Vel[k-1][j][i-1].x3);
         dVzdz /= pG->dx3;
       }
       
@@ -459,50 +459,50 @@ void ViscStress_aniso(DomainS *pD)
     for (i=is; i<=ie; i++) {
 
       /* Monotonized Velocity gradient dVx/dx */
-      dVxdx = limiter4(Vel[k][j  ][i+1].x - Vel[k][j  ][i  ].x,
-                       Vel[k][j  ][i  ].x - Vel[k][j  ][i-1].x,
-                       Vel[k][j-1][i+1].x - Vel[k][j-1][i  ].x,
-                       Vel[k][j-1][i  ].x - Vel[k][j-1][i-1].x);
+      dVxdx = limiter4(Vel[k][j  ][i+1].x1 - Vel[k][j  ][i  ].x1,
+                       Vel[k][j  ][i  ].x1 - Vel[k][j  ][i-1].x1,
+                       Vel[k][j-1][i+1].x1 - Vel[k][j-1][i  ].x1,
+                       Vel[k][j-1][i  ].x1 - Vel[k][j-1][i-1].x1);
       dVxdx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVy/dx */
-      dVydx = limiter4(Vel[k][j  ][i+1].y - Vel[k][j  ][i  ].y,
-                       Vel[k][j  ][i  ].y - Vel[k][j  ][i-1].y,
-                       Vel[k][j-1][i+1].y - Vel[k][j-1][i  ].y,
-                       Vel[k][j-1][i  ].y - Vel[k][j-1][i-1].y);
+      dVydx = limiter4(Vel[k][j  ][i+1].x2 - Vel[k][j  ][i  ].x2,
+                       Vel[k][j  ][i  ].x2 - Vel[k][j  ][i-1].x2,
+                       Vel[k][j-1][i+1].x2 - Vel[k][j-1][i  ].x2,
+                       Vel[k][j-1][i  ].x2 - Vel[k][j-1][i-1].x2);
       dVydx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVz/dx */
-      dVzdx = limiter4(Vel[k][j  ][i+1].z - Vel[k][j  ][i  ].z,
-                       Vel[k][j  ][i  ].z - Vel[k][j  ][i-1].z,
-                       Vel[k][j-1][i+1].z - Vel[k][j-1][i  ].z,
-                       Vel[k][j-1][i  ].z - Vel[k][j-1][i-1].z);
+      dVzdx = limiter4(Vel[k][j  ][i+1].x3 - Vel[k][j  ][i  ].x3,
+                       Vel[k][j  ][i  ].x3 - Vel[k][j  ][i-1].x3,
+                       Vel[k][j-1][i+1].x3 - Vel[k][j-1][i  ].x3,
+                       Vel[k][j-1][i  ].x3 - Vel[k][j-1][i-1].x3);
       dVzdx /= pG->dx1;
       
       /* Monotonized Velocity gradient dVx/dz */
       if (pD->Nx[2] > 1) {
-        dVxdz = limiter4(Vel[k+1][j  ][i].x - Vel[k  ][j  ][i].x,
-                         Vel[k  ][j  ][i].x - Vel[k-1][j  ][i].x,
-                         Vel[k+1][j-1][i].x - Vel[k  ][j-1][i].x,
-                         Vel[k  ][j-1][i].x - Vel[k-1][j-1][i].x);
+        dVxdz = limiter4(Vel[k+1][j  ][i].x1 - Vel[k  ][j  ][i].x1,
+                         Vel[k  ][j  ][i].x1 - Vel[k-1][j  ][i].x1,
+                         Vel[k+1][j-1][i].x1 - Vel[k  ][j-1][i].x1,
+                         Vel[k  ][j-1][i].x1 - Vel[k-1][j-1][i].x1);
         dVxdz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVy/dz */
       if (pD->Nx[2] > 1) {
-        dVydz =limiter4(Vel[k+1][j  ][i].y - Vel[k  ][j  ][i].y,
-                        Vel[k  ][j  ][i].y - Vel[k-1][j  ][i].y,
-                        Vel[k+1][j-1][i].y - Vel[k  ][j-1][i].y,
-                        Vel[k  ][j-1][i].y - Vel[k-1][j-1][i].y);
+        dVydz =limiter4(Vel[k+1][j  ][i].x2 - Vel[k  ][j  ][i].x2,
+                        Vel[k  ][j  ][i].x2 - Vel[k-1][j  ][i].x2,
+                        Vel[k+1][j-1][i].x2 - Vel[k  ][j-1][i].x2,
+                        Vel[k  ][j-1][i].x2 - Vel[k-1][j-1][i].x2);
         dVydz /= pG->dx3;
       }
       
       /* Monotonized Velocity gradient dVz/dz */
       if (pD->Nx[2] > 1) {
-        dVzdz =limiter4(Vel[k+1][j  ][i].z - Vel[k  ][j  ][i].z,
-                        Vel[k  ][j  ][i].z - Vel[k-1][j  ][i].z,
-                        Vel[k+1][j-1][i].z - Vel[k  ][j-1][i].z,
-                        Vel[k  ][j-1][i].z - Vel[k-1][j-1][i].z);
+        dVzdz =limiter4(Vel[k+1][j  ][i].x3 - Vel[k  ][j  ][i].x3,
+                        Vel[k  ][j  ][i].x3 - Vel[k-1][j  ][i].x3,
+                        Vel[k+1][j-1][i].x3 - Vel[k  ][j-1][i].x3,
+                        Vel[k  ][j-1][i].x3 - Vel[k-1][j-1][i].x3);
         dVzdz /= pG->dx3;
       }
       
@@ -565,45 +565,45 @@ void ViscStress_aniso(DomainS *pD)
       for (i=is; i<=ie; i++) {
 
         /* Monotonized Velocity gradient dVx/dx */
-        dVxdx = limiter4(Vel[k  ][j][i+1].x - Vel[k  ][j][i  ].x,
-                         Vel[k  ][j][i  ].x - Vel[k  ][j][i-1].x,
-                         Vel[k-1][j][i+1].x - Vel[k-1][j][i  ].x,
-                         Vel[k-1][j][i  ].x - Vel[k-1][j][i-1].x);
+        dVxdx = limiter4(Vel[k  ][j][i+1].x1 - Vel[k  ][j][i  ].x1,
+                         Vel[k  ][j][i  ].x1 - Vel[k  ][j][i-1].x1,
+                         Vel[k-1][j][i+1].x1 - Vel[k-1][j][i  ].x1,
+                         Vel[k-1][j][i  ].x1 - Vel[k-1][j][i-1].x1);
         dVxdx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVy/dx */
-        dVydx = limiter4(Vel[k  ][j][i+1].y - Vel[k  ][j][i  ].y,
-                         Vel[k  ][j][i  ].y - Vel[k  ][j][i-1].y,
-                         Vel[k-1][j][i+1].y - Vel[k-1][j][i  ].y,
-                         Vel[k-1][j][i  ].y - Vel[k-1][j][i-1].y);
+        dVydx = limiter4(Vel[k  ][j][i+1].x2 - Vel[k  ][j][i  ].x2,
+                         Vel[k  ][j][i  ].x2 - Vel[k  ][j][i-1].x2,
+                         Vel[k-1][j][i+1].x2 - Vel[k-1][j][i  ].x2,
+                         Vel[k-1][j][i  ].x2 - Vel[k-1][j][i-1].x2);
         dVydx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVz/dx */
-        dVzdx = limiter4(Vel[k  ][j][i+1].z - Vel[k  ][j][i  ].z,
-                         Vel[k  ][j][i  ].z - Vel[k  ][j][i-1].z,
-                         Vel[k-1][j][i+1].z - Vel[k-1][j][i  ].z,
-                         Vel[k-1][j][i  ].z - Vel[k-1][j][i-1].z);
+        dVzdx = limiter4(Vel[k  ][j][i+1].x3 - Vel[k  ][j][i  ].x3,
+                         Vel[k  ][j][i  ].x3 - Vel[k  ][j][i-1].x3,
+                         Vel[k-1][j][i+1].x3 - Vel[k-1][j][i  ].x3,
+                         Vel[k-1][j][i  ].x3 - Vel[k-1][j][i-1].x3);
         dVzdx /= pG->dx1;
         
         /* Monotonized Velocity gradient dVx/dy */
-        dVxdy = limiter4(Vel[k  ][j+1][i].x - Vel[k  ][j  ][i].x,
-                         Vel[k  ][j  ][i].x - Vel[k  ][j-1][i].x,
-                         Vel[k-1][j+1][i].x - Vel[k-1][j  ][i].x,
-                         Vel[k-1][j  ][i].x - Vel[k-1][j-1][i].x);
+        dVxdy = limiter4(Vel[k  ][j+1][i].x1 - Vel[k  ][j  ][i].x1,
+                         Vel[k  ][j  ][i].x1 - Vel[k  ][j-1][i].x1,
+                         Vel[k-1][j+1][i].x1 - Vel[k-1][j  ][i].x1,
+                         Vel[k-1][j  ][i].x1 - Vel[k-1][j-1][i].x1);
         dVxdy /= pG->dx2;
         
         /* Monotonized Velocity gradient dVy/dy */
-        dVydy = limiter4(Vel[k  ][j+1][i].y - Vel[k  ][j  ][i].y,
-                         Vel[k  ][j  ][i].y - Vel[k  ][j-1][i].y,
-                         Vel[k-1][j+1][i].y - Vel[k-1][j  ][i].y,
-                         Vel[k-1][j  ][i].y - Vel[k-1][j-1][i].y);
+        dVydy = limiter4(Vel[k  ][j+1][i].x2 - Vel[k  ][j  ][i].x2,
+                         Vel[k  ][j  ][i].x2 - Vel[k  ][j-1][i].x2,
+                         Vel[k-1][j+1][i].x2 - Vel[k-1][j  ][i].x2,
+                         Vel[k-1][j  ][i].x2 - Vel[k-1][j-1][i].x2);
         dVydy /= pG->dx2;
         
         /* Monotonized Velocity gradient dVz/dy */
-        dVzdy = limiter4(Vel[k  ][j+1][i].z - Vel[k  ][j  ][i].z,
-                         Vel[k  ][j  ][i].z - Vel[k  ][j-1][i].z,
-                         Vel[k-1][j+1][i].z - Vel[k-1][j  ][i].z,
-                         Vel[k-1][j  ][i].z - Vel[k-1][j-1][i].z);
+        dVzdy = limiter4(Vel[k  ][j+1][i].x3 - Vel[k  ][j  ][i].x3,
+                         Vel[k  ][j  ][i].x3 - Vel[k  ][j-1][i].x3,
+                         Vel[k-1][j+1][i].x3 - Vel[k-1][j  ][i].x3,
+                         Vel[k-1][j  ][i].x3 - Vel[k-1][j-1][i].x3);
         dVzdy /= pG->dx2;
         
 /* Compute field components at x3-interface */
-- 
2.43.0


From 7b6a2feb8a500d8453c75e918cc3937b1a6a038b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:52 +0000
Subject: [PATCH 08/24] fix: anisotropic viscosity: x1 energy flux overwrote
 the isotropic contribution

---
 src/microphysics/viscosity.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/microphysics/viscosity.c b/src/microphysics/viscosity.c
index 20366ca..9af96c1 100644
--- a/src/microphysics/viscosity.c
+++ b/src/microphysics/viscosity.c
@@ -444,7 +444,7 @@ void ViscStress_aniso(DomainS *pD)
       x1Flux[k][j][i].Mz += VStress.Mz;
 
 #ifndef BAROTROPIC
-      x1Flux[k][j][i].E =
+      x1Flux[k][j][i].E +=
          0.5*(Vel[k][j][i-1].x1 + Vel[k][j][i].x1)*VStress.Mx +
          0.5*(Vel[k][j][i-1].x2 + Vel[k][j][i].x2)*VStress.My +
          0.5*(Vel[k][j][i-1].x3 + Vel[k][j][i].x3)*VStress.Mz;
-- 
2.43.0


From e90d772efe87e8c3cdd8027e93910d87e752d585 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:35:52 +0000
Subject: [PATCH 09/24] fix: anisotropic conduction: 2D heat flux ignored B3 in
 the field strength, unlike the 3D flux

---
 src/microphysics/conduction.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/microphysics/conduction.c b/src/microphysics/conduction.c
index 1e78ffe..a26f6bd 100644
--- a/src/microphysics/conduction.c
+++ b/src/microphysics/conduction.c
@@ -249,7 +249,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         By = 0.5*(pG->U[k][j][i-1].B2c + pG->U[k][j][i].B2c);
-        B02 = SQR(pG->B1i[k][j][i]) + SQR(By);
+        Bz = 0.5*(pG->U[k][j][i-1].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(pG->B1i[k][j][i]) + SQR(By) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
         bDotGradT = pG->B1i[k][j][i]*(Temp[k][j][i]-Temp[k][j][i-1])/pG->dx1
            + By*dTdy;
@@ -297,7 +298,8 @@ void HeatFlux_aniso(DomainS *pD)
 
       if (pD->Nx[2] == 1) {
         Bx = 0.5*(pG->U[k][j-1][i].B1c + pG->U[k][j][i].B1c);
-        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]);
+        Bz = 0.5*(pG->U[k][j-1][i].B3c + pG->U[k][j][i].B3c);
+        B02 = SQR(Bx) + SQR(pG->B2i[k][j][i]) + SQR(Bz);
         B02 = MAX(B02,TINY_NUMBER); /* limit in case B=0 */
 
         bDotGradT = pG->B2i[k][j][i]*(Temp[k][j][i]-Temp[k][j-1][i])/pG->dx2
-- 
2.43.0


From 643395740786f4628983276a16b8c0abb85a516c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:55:10 +0000
Subject: [PATCH 10/24] fix: SMR: in 2D the face array of B3 was not updated by
 the flux correction of B3c

---
 src/smr.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/smr.c b/src/smr.c
index 0b3b8f3..9676117 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -579,6 +579,12 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
               pG->U[k][j][i].B3c = 0.5*(pG->B3i[k][j][i] + pG->B3i[k+1][j][i]);
             }}
 
+          } else { /* 2D problem, B3i equals the corrected B3c */
+
+            for (j=jcs; j<=jce; j++) {
+              pG->B3i[kcs][j][i] = pG->U[kcs][j][i].B3c;
+            }
+
           }
 
           for (k=kcs; k<=kce; k++) {
@@ -689,6 +695,12 @@ printf("js,je = %i %i jcs/jce = %i %i\n",pG->js,pG->je,jcs,jce);
               pG->U[k][j][i].B3c = 0.5*(pG->B3i[k][j][i] + pG->B3i[k+1][j][i]);
             }}
 
+          } else { /* 2D problem, B3i equals the corrected B3c */
+
+            for (i=ics; i<=ice; i++) {
+              pG->B3i[kcs][j][i] = pG->U[kcs][j][i].B3c;
+            }
+
           }
 
           for (k=kcs; k<=kce; k++) {
-- 
2.43.0


From 5734ae3ff2ce489c615eb8e46a13357cb3627e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:46 +0000
Subject: [PATCH 11/24] fix: 2D relativistic VL integrator: keep the face array
 of B3 equal to B3c, as the Newtonian one does

---
 src/integrators/integrate_2d_vl_sr.c | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/integrators/integrate_2d_vl_sr.c b/src/integrators/integrate_2d_vl_sr.c
index da1f143..afdafd9 100644
--- a/src/integrators/integrate_2d_vl_sr.c
+++ b/src/integrators/integrate_2d_vl_sr.c
@@ -1024,6 +1024,17 @@ void integrate_2d_vl(DomainS *pD)
 #endif /* MHD */
 #endif /* FIRST_ORDER_FLUX_CORRECTION */
 
+/*--- Step 15c -----------------------------------------------------------------
+ * Update interface centered B3 (as in the Newtonian integrator)
+ */
+#ifdef MHD
+  for (j=js; j<=je; j++) {
+    for (i=is; i<=ie; i++) {
+      pG->B3i[ks][j][i] = pG->U[ks][j][i].B3c;
+    }
+  }
+#endif /* MHD */
+
 #ifdef STATIC_MESH_REFINEMENT
 /*=== STEP 16: With SMR, store fluxes at fine/coarse boundaries ==============*/
 
-- 
2.43.0


From 30b05527623b3a4a4235746ab006623aca3db191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:34 +0000
Subject: [PATCH 12/24] fix: 3D CTU integrator did not compile with particle
 feedback and an adiabatic gas

---
 src/integrators/integrate_3d_ctu.c | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index f421240..071a2d1 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -3192,7 +3192,6 @@ void integrate_3d_ctu(DomainS *pD)
 #ifndef BAROTROPIC
       pG->U[k][j][i].E += pG->Coup[k][j][i].Eloss;
       pG->Coup[k][j][i].Eloss *= dt1; /* for history output purpose */
-      pG->Eloss[k][j][i] *= dt1; /* for history output purpose */
 #endif
     }
 #endif
-- 
2.43.0


From 247399c2a59f9f54ee7be54e84080665316bf3c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:08:34 +0000
Subject: [PATCH 13/24] fix: particles in the innermost x3 cells were treated
 as having left an outflow boundary

---
 src/particles/init_particle.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/particles/init_particle.c b/src/particles/init_particle.c
index 0ea55fa..56cf48a 100644
--- a/src/particles/init_particle.c
+++ b/src/particles/init_particle.c
@@ -282,12 +282,12 @@ void grid_limit(MeshS *pM)
     x2upar = pG->MaxX[1];
 
   if ((pM->BCFlag_ix3 == 2) && (my_kproc == 0))
-    x3lpar = pG->MinX[2] + (nghost-1)*m3*pG->dx3;
+    x3lpar = pG->MinX[2] - (nghost-1)*m3*pG->dx3;
   else
     x3lpar = pG->MinX[2];
 
   if ((pM->BCFlag_ox3 == 2) && (my_kproc == pD->NGrid[2]-1))
-    x3upar = pG->MaxX[2] + (nghost-1)*m2*pG->dx3;
+    x3upar = pG->MaxX[2] + (nghost-1)*m3*pG->dx3;
   else
     x3upar = pG->MaxX[2];
 
-- 
2.43.0


From 5f75fdecdb76a05624a0e5b5ad9923dd5c0275c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:23 +0000
Subject: [PATCH 14/24] fix: reflecting x1 boundary of the particle feedback
 mirrored about the wrong index (read out of bounds in 1D)

---
 src/particles/exchange.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/exchange.c b/src/particles/exchange.c
index aa598ef..8b6b6dd 100644
--- a/src/particles/exchange.c
+++ b/src/particles/exchange.c
@@ -1876,7 +1876,7 @@ static void reflect_ix1_exchange(GridS *pG)
   for (k=kb; k<=kt; k++) {
     for (j=jb; j<=jt; j++) {
       for (i=ib; i<pG->is; i++) {
-        ir = 2*pG->js-i-1;
+        ir = 2*pG->is-i-1;
         myCoup[k][j][i].U[0] = -myCoup[k][j][ir].U[0];
         for (n=1;n<NVar; n++)
           myCoup[k][j][i].U[n] = myCoup[k][j][ir].U[n];
-- 
2.43.0


From 326d9666cb255b97734a2617645c148340bb8610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:51 +0000
Subject: [PATCH 15/24] fix: particles reflected at the inner x3 boundary were
 put outside the domain and lost

---
 src/particles/bvals_particle.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/particles/bvals_particle.c b/src/particles/bvals_particle.c
index 32553ad..6a36514 100644
--- a/src/particles/bvals_particle.c
+++ b/src/particles/bvals_particle.c
@@ -1532,7 +1532,7 @@ static void reflect_ix3_particle(GridS *pG)
   /* apply reflection boundary condition */
   for (p=n0; p<pG->nparticle; p++)
   {
-    pG->particle[p].x3 = pG->MinX[2] - pG->particle[p].x3;
+    pG->particle[p].x3 = 2.0*pG->MinX[2] - pG->particle[p].x3;
     pG->particle[p].v3 = -pG->particle[p].v3;
   }
 
-- 
2.43.0


From 936154e0883ffed678efce2f2ef3a0fbe670ada5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:13:51 +0000
Subject: [PATCH 16/24] fix: stopping time of a particle at rest in the gas was
 not a number in the Stokes regime

---
 src/particles/utils_particle.c | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/particles/utils_particle.c b/src/particles/utils_particle.c
index 17e7464..66e10fa 100644
--- a/src/particles/utils_particle.c
+++ b/src/particles/utils_particle.c
@@ -401,11 +401,15 @@ Real get_ts_general(GridS *pG, int type, Real rho, Real cs, Real vd)
   else {
     Re = 4.0*alam*vd/cs;	/* the Reynolds number */
 
-    if (Re < 1.) CD = 24.0/Re;	/* Stokes regime */
-    else if (Re < 800.0) CD = 24.0*exp(-0.6*log(Re));
-    else CD = 0.44;
+    if (Re < 1.) {		/* Stokes regime: CD = 24/Re, any vd */
+      tstop = rhoa*alam/(6.0*rho*cs);
+    }
+    else {
+      if (Re < 800.0) CD = 24.0*exp(-0.6*log(Re));
+      else CD = 0.44;
 
-    tstop = rhoa/(rho*vd*CD);
+      tstop = rhoa/(rho*vd*CD);
+    }
   } /* endif */
 
   /* avoid zero stopping time */
-- 
2.43.0


From dfaf4523d7f4c783ca4177c9ecf28ec430346acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:15:56 +0000
Subject: [PATCH 17/24] fix: 1D CTU integrator used half-step arrays it had not
 allocated (cylindrical coordinates; particles in an adiabatic gas)

---
 src/integrators/integrate_1d_ctu.c | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/src/integrators/integrate_1d_ctu.c b/src/integrators/integrate_1d_ctu.c
index ae9b491..6ef4417 100644
--- a/src/integrators/integrate_1d_ctu.c
+++ b/src/integrators/integrate_1d_ctu.c
@@ -677,13 +677,11 @@ void integrate_init_1d(MeshS *pM)
   if ((Wl = (Prim1DS*)malloc(size1*sizeof(Prim1DS))) == NULL) goto on_error;
   if ((Wr = (Prim1DS*)malloc(size1*sizeof(Prim1DS))) == NULL) goto on_error;
 
-#ifdef CYLINDRICAL
-  if((StaticGravPot != NULL) || (CoolingFunc != NULL))
+  if ((dhalf = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
+#ifndef PARTICLES
+  if(CoolingFunc != NULL)
 #endif
   {
-    if ((dhalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
-  }
-  if(CoolingFunc != NULL){
     if ((phalf  = (Real*)malloc(size1*sizeof(Real))) == NULL) goto on_error;
   }
 
-- 
2.43.0


From a2046b2f12531312a3e2fb7d61a02df21f2c59be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:03 +0000
Subject: [PATCH 18/24] fix: PLM/PPM characteristic tracing: with HLL fluxes a
 wave of exactly zero speed was subtracted twice

---
 src/reconstruction/lr_states_plm.c | 48 ++++++++++++++++--------------
 src/reconstruction/lr_states_ppm.c | 48 ++++++++++++++++--------------
 2 files changed, 52 insertions(+), 44 deletions(-)

diff --git a/src/reconstruction/lr_states_plm.c b/src/reconstruction/lr_states_plm.c
index b6ee980..7cb703f 100644
--- a/src/reconstruction/lr_states_plm.c
+++ b/src/reconstruction/lr_states_plm.c
@@ -306,20 +306,22 @@ void lr_states(const GridS *pG __attribute__((unused)),
 
 /* For HLL fluxes, subtract wave moving away from interface as well. */
 #if defined(HLLE_FLUX) || defined(HLLC_FLUX) || defined(HLLD_FLUX) || defined(FORCE_FLUX)
-        qa  = 0.0;
-        qx1 = 0.5*dtodx*ev[0];
-        qx2 = 0.5*dtodx*ev[n];
+        if (ev[n] > 0.0) {
+          qa  = 0.0;
+          qx1 = 0.5*dtodx*ev[0];
+          qx2 = 0.5*dtodx*ev[n];
 #ifdef CYLINDRICAL
-        if (dir==1) {
-          qx1 *= 1.0 - dx*qx1/(3.0*(ri[i+1]-dx*qx1));
-          qx2 *= 1.0 - dx*qx2/(3.0*(ri[i+1]-dx*qx2));
-        }
+          if (dir==1) {
+            qx1 *= 1.0 - dx*qx1/(3.0*(ri[i+1]-dx*qx1));
+            qx2 *= 1.0 - dx*qx2/(3.0*(ri[i+1]-dx*qx2));
+          }
 #endif
-        qx = qx1 - qx2;
-        for (m=0; m<NWAVE; m++) {
-          qa += lem[n][m]*qx*dW[m];
+          qx = qx1 - qx2;
+          for (m=0; m<NWAVE; m++) {
+            qa += lem[n][m]*qx*dW[m];
+          }
+          for (m=0; m<NWAVE; m++) pWr[m] += qa*rem[m][n];
         }
-        for (m=0; m<NWAVE; m++) pWr[m] += qa*rem[m][n];
 #endif /* HLL_FLUX */
 
       }
@@ -344,20 +346,22 @@ void lr_states(const GridS *pG __attribute__((unused)),
 
 /* For HLL fluxes, subtract wave moving away from interface as well. */
 #if defined(HLLE_FLUX) || defined(HLLC_FLUX) || defined(HLLD_FLUX) || defined(FORCE_FLUX)
-        qa = 0.0;
-        qx1 = 0.5*dtodx*ev[NWAVE-1];
-        qx2 = 0.5*dtodx*ev[n];
+        if (ev[n] < 0.0) {
+          qa = 0.0;
+          qx1 = 0.5*dtodx*ev[NWAVE-1];
+          qx2 = 0.5*dtodx*ev[n];
 #ifdef CYLINDRICAL
-        if (dir==1) {
-          qx1 *= 1.0 - dx*qx1/(3.0*(ri[i]-dx*qx1));
-          qx2 *= 1.0 - dx*qx2/(3.0*(ri[i]-dx*qx2));
-        }
+          if (dir==1) {
+            qx1 *= 1.0 - dx*qx1/(3.0*(ri[i]-dx*qx1));
+            qx2 *= 1.0 - dx*qx2/(3.0*(ri[i]-dx*qx2));
+          }
 #endif
-        qx = qx1 - qx2;
-        for (m=0; m<NWAVE; m++) {
-          qa += lem[n][m]*qx*dW[m];
+          qx = qx1 - qx2;
+          for (m=0; m<NWAVE; m++) {
+            qa += lem[n][m]*qx*dW[m];
+          }
+          for (m=0; m<NWAVE; m++) pWl[m] += qa*rem[m][n];
         }
-        for (m=0; m<NWAVE; m++) pWl[m] += qa*rem[m][n];
 #endif /* HLL_FLUX */
 
       }
diff --git a/src/reconstruction/lr_states_ppm.c b/src/reconstruction/lr_states_ppm.c
index ef60c18..fd8afdb 100644
--- a/src/reconstruction/lr_states_ppm.c
+++ b/src/reconstruction/lr_states_ppm.c
@@ -563,20 +563,22 @@ void lr_states(const GridS* pG __attribute__((unused)),
 
 /* For HLL fluxes, subtract wave moving away from interface to 2nd order */
 #if defined(HLLE_FLUX) || defined(HLLC_FLUX) || defined(HLLD_FLUX) || defined(FORCE_FLUX)
-        qa  = 0.0;
-        qx1 = 0.5*dtodx*ev[0];
-        qx2 = 0.5*dtodx*ev[n];
+        if (ev[n] > 0.0) {
+          qa  = 0.0;
+          qx1 = 0.5*dtodx*ev[0];
+          qx2 = 0.5*dtodx*ev[n];
 #ifdef CYLINDRICAL
-        if (dir==1) {
-          qx1 *= 1.0 - dx*qx1/(3.0*(ri[i+1]-dx*qx1));
-          qx2 *= 1.0 - dx*qx2/(3.0*(ri[i+1]-dx*qx2));
-        }
+          if (dir==1) {
+            qx1 *= 1.0 - dx*qx1/(3.0*(ri[i+1]-dx*qx1));
+            qx2 *= 1.0 - dx*qx2/(3.0*(ri[i+1]-dx*qx2));
+          }
 #endif
-        qx = qx1 - qx2;
-        for (m=0; m<NWAVE; m++) {
-          qa += lem[n][m]*qx*dW[m];
+          qx = qx1 - qx2;
+          for (m=0; m<NWAVE; m++) {
+            qa += lem[n][m]*qx*dW[m];
+          }
+          for (m=0; m<NWAVE; m++) pWr[m] += qa*rem[m][n];
         }
-        for (m=0; m<NWAVE; m++) pWr[m] += qa*rem[m][n];
 #endif /* HLL_FLUX */
 
       }
@@ -604,20 +606,22 @@ void lr_states(const GridS* pG __attribute__((unused)),
 
 /* For HLL fluxes, subtract wave moving away from interface to 2nd order */
 #if defined(HLLE_FLUX) || defined(HLLC_FLUX) || defined(HLLD_FLUX) || defined(FORCE_FLUX)
-        qa = 0.0;
-        qx1 = 0.5*dtodx*ev[NWAVE-1];
-        qx2 = 0.5*dtodx*ev[n];
+        if (ev[n] < 0.0) {
+          qa = 0.0;
+          qx1 = 0.5*dtodx*ev[NWAVE-1];
+          qx2 = 0.5*dtodx*ev[n];
 #ifdef CYLINDRICAL 
-        if (dir==1) {
-          qx1 *= 1.0 - dx*qx1/(3.0*(ri[i]-dx*qx1));
-          qx2 *= 1.0 - dx*qx2/(3.0*(ri[i]-dx*qx2));
-        }
+          if (dir==1) {
+            qx1 *= 1.0 - dx*qx1/(3.0*(ri[i]-dx*qx1));
+            qx2 *= 1.0 - dx*qx2/(3.0*(ri[i]-dx*qx2));
+          }
 #endif
-        qx = qx1 - qx2;
-        for (m=0; m<NWAVE; m++) {
-          qa += lem[n][m]*qx*dW[m];
+          qx = qx1 - qx2;
+          for (m=0; m<NWAVE; m++) {
+            qa += lem[n][m]*qx*dW[m];
+          }
+          for (m=0; m<NWAVE; m++) pWl[m] += qa*rem[m][n];
         }
-        for (m=0; m<NWAVE; m++) pWl[m] += qa*rem[m][n];
 #endif /* HLL_FLUX */
 
       }
-- 
2.43.0


From 9eed536a52a8ddbb30d299b89b2126b84d4f8c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:03 +0000
Subject: [PATCH 19/24] fix: 3D CTU integrator used half-step arrays it had not
 allocated (cylindrical hydrodynamics without gravity)

---
 src/integrators/integrate_3d_ctu.c | 9 ---------
 1 file changed, 9 deletions(-)

diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index 071a2d1..1dd1069 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -3681,19 +3681,10 @@ void integrate_init_3d(MeshS *pM)
   if ((x3Flux   =(Cons1DS***)calloc_3d_array(size3,size2,size1,sizeof(Cons1DS)))
     == NULL) goto on_error;
 
-#ifdef CYLINDRICAL
-#ifndef MHD
-#ifndef PARTICLES
-  if((StaticGravPot != NULL) || (CoolingFunc != NULL))
-#endif
-#endif
-#endif
-  {
   if ((dhalf = (Real***)calloc_3d_array(size3,size2,size1,sizeof(Real)))==NULL)
     goto on_error;
   if ((phalf = (Real***)calloc_3d_array(size3,size2,size1,sizeof(Real)))==NULL)
     goto on_error;
-  }
 
 #ifdef SHEARING_BOX
   if ((Flxiib = (ConsS**)calloc_2d_array(size3,size2,sizeof(ConsS)))==NULL)
-- 
2.43.0


From 4ca6b994444581c7c6af57850e3ae0af4d75bae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:25:10 +0000
Subject: [PATCH 20/24] fix: 3D CTU integrator in cylindrical coordinates
 divided by the azimuthal spacing upside down in the half-step momenta of the
 emf

---
 src/integrators/integrate_3d_ctu.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/integrators/integrate_3d_ctu.c b/src/integrators/integrate_3d_ctu.c
index 1dd1069..9ab267d 100644
--- a/src/integrators/integrate_3d_ctu.c
+++ b/src/integrators/integrate_3d_ctu.c
@@ -2286,7 +2286,7 @@ void integrate_3d_ctu(DomainS *pD)
       for (i=il+1; i<=iu-1; i++) {
 #ifdef CYLINDRICAL
         rsf = ri[i+1]/r[i];  lsf = ri[i]/r[i];
-        q2 = hdt/(r[i]/pG->dx2);
+        q2 = hdt/(r[i]*pG->dx2);
 #endif
         M1h = pG->U[k][j][i].M1
            - q1*(rsf*x1Flux[k  ][j  ][i+1].Mx - lsf*x1Flux[k][j][i].Mx)
-- 
2.43.0


From 2defb08276a0ee076d0e18ca8f24b205ef638cc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:50 +0000
Subject: [PATCH 21/24] fix: SMR: in 1D the face arrays of B2 and B3 were not
 updated by the flux correction of B2c and B3c

---
 src/smr.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/smr.c b/src/smr.c
index 9676117..0a15f4e 100644
--- a/src/smr.c
+++ b/src/smr.c
@@ -403,6 +403,10 @@ void RestrictCorrect(MeshS *pM)
             pG->U[k][j][i].B1c -= q1*(pCO->myFlx[dim][kk][jj].B1c - *(pRcv++));
             pG->U[k][j][i].B2c -= q1*(pCO->myFlx[dim][kk][jj].B2c - *(pRcv++));
             pG->U[k][j][i].B3c -= q1*(pCO->myFlx[dim][kk][jj].B3c - *(pRcv++));
+            if (nDim == 1) { /* 1D problem, face arrays equal corrected B2c,B3c */
+              pG->B2i[k][j][i] = pG->U[k][j][i].B2c;
+              pG->B3i[k][j][i] = pG->U[k][j][i].B3c;
+            }
 #endif /* MHD */
 #if (NSCALARS > 0)
             for (n=0; n<NSCALARS; n++) pG->U[k][j][i].s[n] -= 
-- 
2.43.0


From 0154cc665241bf8f258a3d4fe976e8db8da8fdb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:54 +0000
Subject: [PATCH 22/24] fix: tab dumps: zone numbers ran together, the field
 width ignored that they start at nghost

---
 src/dump_tab.c | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dump_tab.c b/src/dump_tab.c
index b859e97..b0576de 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -110,8 +110,9 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
           ku = pG->ke + nghost;
           kl = pG->ks - nghost;
         }
-        nmax += 2*nghost;
+        nmax += nghost;
 #endif
+        nmax += nghost;  /* zone numbers start at nghost */
         sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
 
 /* Write out some header information */
@@ -361,8 +362,9 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
           ku = pG->ke + nghost;
           kl = pG->ks - nghost;
         }
-        nmax += 2*nghost;
+        nmax += nghost;
 #endif
+        nmax += nghost;  /* zone numbers start at nghost */
         sprintf(zone_fmt,"%%%dd", (int)(2+log10((double)(nmax))));
 
 /* Write out some header information */
-- 
2.43.0


From 654c3d75e35d201e46be9e0cbee49ff17d52b54f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:54 +0000
Subject: [PATCH 23/24] fix: history: averages in 1D and 2D were multiplied by
 the width of the domain in the unused directions

---
 src/dump_history.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/dump_history.c b/src/dump_history.c
index afae5e2..673226f 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -174,8 +174,8 @@ void dump_history(MeshS *pM, OutputS *pOut)
             for (i=is; i<=ie; i++) {
               dVol = 1.0; 
               if (pG->dx1 > 0.0) dVol *= pG->dx1;
-              if (pG->dx2 > 0.0) dVol *= pG->dx2;
-              if (pG->dx3 > 0.0) dVol *= pG->dx3;
+              if (pD->Nx[1] > 1) dVol *= pG->dx2;
+              if (pD->Nx[2] > 1) dVol *= pG->dx3;
 #ifndef SPECIAL_RELATIVITY
 #ifdef CYLINDRICAL
               cc_pos(pG,i,j,k,&x1,&x2,&x3);
-- 
2.43.0


From 870e451539d4be52a6959271100b32a30309a294 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:06 +0000
Subject: [PATCH 24/24] fix: outputs: the domain label of the previous level
 was kept in the file names of domain 0 of finer levels

---
 src/dump_binary.c  | 1 +
 src/dump_history.c | 1 +
 src/dump_tab.c     | 2 ++
 src/dump_vtk.c     | 1 +
 src/output_pdf.c   | 1 +
 src/output_pgm.c   | 1 +
 src/output_ppm.c   | 1 +
 7 files changed, 8 insertions(+)

diff --git a/src/dump_binary.c b/src/dump_binary.c
index b803ed7..1cb2d6b 100644
--- a/src/dump_binary.c
+++ b/src/dump_binary.c
@@ -94,6 +94,7 @@ void dump_binary(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_history.c b/src/dump_history.c
index 673226f..13143de 100644
--- a/src/dump_history.c
+++ b/src/dump_history.c
@@ -342,6 +342,7 @@ void dump_history(MeshS *pM, OutputS *pOut)
           }
 #endif
 
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_tab.c b/src/dump_tab.c
index b0576de..ca28eed 100644
--- a/src/dump_tab.c
+++ b/src/dump_tab.c
@@ -73,6 +73,7 @@ void dump_tab_cons(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
@@ -324,6 +325,7 @@ void dump_tab_prim(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/dump_vtk.c b/src/dump_vtk.c
index 210348c..0899632 100644
--- a/src/dump_vtk.c
+++ b/src/dump_vtk.c
@@ -94,6 +94,7 @@ void dump_vtk(MeshS *pM, OutputS *pOut)
           plev = &levstr[0];
           sprintf(plev,"lev%d",nl);
         }
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/output_pdf.c b/src/output_pdf.c
index 41852c2..4ad2c8f 100644
--- a/src/output_pdf.c
+++ b/src/output_pdf.c
@@ -233,6 +233,7 @@ void output_pdf(MeshS *pM, OutputS *pOut)
           sprintf(pdir,"lev%d",nl);
         }
 #endif
+        pdom = NULL;
         if (nd>0) {
           pdom = &domstr[0];
           sprintf(pdom,"dom%d",nd);
diff --git a/src/output_pgm.c b/src/output_pgm.c
index 1f83a52..1b1b115 100644
--- a/src/output_pgm.c
+++ b/src/output_pgm.c
@@ -64,6 +64,7 @@ void output_pgm(MeshS *pM, OutputS *pOut)
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
           }
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
diff --git a/src/output_ppm.c b/src/output_ppm.c
index b297079..dea1e4a 100644
--- a/src/output_ppm.c
+++ b/src/output_ppm.c
@@ -76,6 +76,7 @@ void output_ppm(MeshS *pM, OutputS *pOut)
             plev = &levstr[0];
             sprintf(plev,"lev%d",nl);
           }
+          pdom = NULL;
           if (nd>0) {
             pdom = &domstr[0];
             sprintf(pdom,"dom%d",nd);
-- 
2.43.0

