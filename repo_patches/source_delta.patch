From 8a50ea70aaa9d1c57a2c97b275da92bb7baaf71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 01/31] fix: use the matching error measures for xtol_rel and
 etol_rel

---
 tmdsimpy/jax/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index 5f7ca54..e9c921c 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -788,9 +788,9 @@ def _check_convg(check_list, tol_dict, r_curr, e_curr, u_curr, r_rel, e_rel, u_r
                 'xtol'    : u_curr, 
                 'rtol'    : r_curr,
                 'etol'    : e_curr,
-                'xtol_rel' : e_rel,
+                'xtol_rel' : u_rel,
                 'rtol_rel' : r_rel,
-                'etol_rel' : u_rel,
+                'etol_rel' : e_rel,
                 }
     
     for key in check_list:
-- 
2.43.0


From 1531eb43902c711aca59c92aad9d679d3d8ca635 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 02/31] fix: wrap phase into [-pi, pi) in shift_pm_pi (operator
 precedence)

---
 tmdsimpy/utils/harmonic.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 2c9c509..8178b3e 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -705,7 +705,7 @@ def shift_pm_pi(phase):
     """
     phase = np.copy(phase)
     
-    phase = ((phase + np.pi) % 2*np.pi) - np.pi
+    phase = ((phase + np.pi) % (2*np.pi)) - np.pi
     
     return phase
 
-- 
2.43.0


From a44139d8b27ac1a83763dfb0b6566a0f37f98ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 03/31] fix: do not modify the index list (or its default)
 passed to eigs

---
 tmdsimpy/solvers.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 2ad936d..964b2b2 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -205,7 +205,9 @@ class NonlinearSolver:
 
         """
         
-        subset_by_index[1] = min(subset_by_index[1], K.shape[0]-1)
+        # New list, so that neither the default nor the caller's list is modified
+        subset_by_index = [subset_by_index[0], 
+                           min(subset_by_index[1], K.shape[0]-1)]
         
         eigvals, eigvecs = scipy.linalg.eigh(K, M, 
                                              subset_by_index=subset_by_index)
-- 
2.43.0


From f62c79b44a539b8e12ad577eab7596def5d90b9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 04/31] fix: integrate the total nonlinear force in shooting,
 not the last force only

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 6747e01..8bcdf20 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -2090,7 +2090,7 @@ def _shooting_state_space(t, UV_dUVdUV0, vib_sys, Fl, omega):
     # State Derivatives
     Udot = V
     
-    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnl) + Fext
+    rhs = -(vib_sys.C @ V + vib_sys.K @ U + Fnltot) + Fext
     Minv = np.linalg.inv(vib_sys.M)
     Vdot = Minv @ rhs
     
-- 
2.43.0


From bb802f42d5e669551b791f6495eb246dd7e080e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:38:51 +0000
Subject: [PATCH 05/31] fix: set_new_C without arguments leaves damping
 unchanged, as documented

---
 tmdsimpy/vibration_system.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 8bcdf20..32dfcce 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -261,9 +261,7 @@ class VibrationSystem:
             C = ab[0]*self.M + ab[1]*self.K
             self.ab = ab
         
-        if C is None:
-            self.C = np.zeros_like(self.M)
-        else:
+        if not (C is None):
             self.C = C
         
         return
-- 
2.43.0


From 304312cd47a9fe1e124757a881a232a6c44becac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 06/31] fix: include the previous tangential force in elastic
 dry friction static force

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 2 +-
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index 536296b..faab4e8 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -506,7 +506,7 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[1::2].set(jnp.maximum((unl[1::2]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpred = kt*(unl[0::2]-up)
+    fpred = kt*(unl[0::2]-up) + fp
     
     fcurr = jnp.where(fpred < mu*fnl[1::2], fpred, mu*fnl[1::2])
         
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index a521b61..d5c4243 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -517,8 +517,8 @@ def _local_eldy_force(unl, up, fp, pars, meso_gap):
     fnl = fnl.at[2::3].set(jnp.maximum((unl[2::3]-meso_gap)*kn, 0.0))
     
     # Tangent Force - must use where to get tradient consistently correct
-    fpredx = kt*(unl[0::3]-up[0::2])
-    fpredy = kt*(unl[1::3]-up[1::2])
+    fpredx = kt*(unl[0::3]-up[0::2]) + fp[0::2]
+    fpredy = kt*(unl[1::3]-up[1::2]) + fp[1::2]
     
     fcurrx = jnp.where(fpredx < mu*fnl[2::3], fpredx, mu*fnl[2::3])
     fcurry = jnp.where(fpredy < mu*fnl[2::3], fpredy, mu*fnl[2::3])
-- 
2.43.0


From 4165277cfa2fa0f7902ab96beb537411c36668c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 07/31] fix: do not modify the FracLamList passed to
 Continuation

---
 tmdsimpy/continuation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 6ad73dd..8fc78c1 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -206,6 +206,9 @@ class Continuation:
             
         # Make sure to always start with the value of 'FracLam' that is passed 
         # in before proceeding to the list of other possible values. 
+        # Copy the list so that the one passed in is not modified.
+        default_config['FracLamList'] = list(default_config['FracLamList'])
+        
         if len(default_config['FracLamList']) == 0 \
             or not (default_config['FracLamList'][0] == default_config['FracLam']):
             
-- 
2.43.0


From 703f524ba9a22d822437cdad70386b4f502ccb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:16 +0000
Subject: [PATCH 08/31] fix: stop continuation on a failed step also when
 output is suppressed

---
 tmdsimpy/continuation.py | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 8fc78c1..2a86811 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -716,8 +716,8 @@ class Continuation:
         # Check about removing all output
         silent = self.config['verbose'] < 0
         
-        if silent:
-            self.config['verbose'] = 0
+        # Local value, so that the setting still holds for the next call
+        verbose = max(self.config['verbose'], 0)
         
         # Initialize Memory
         XlamP_full = np.zeros((self.config['MaxSteps'], XlamP0.shape[0]))        
@@ -819,7 +819,7 @@ class Continuation:
                 while (not sol['success']) and ds > self.config['dsmin']:
                     ds = max(ds / 2, self.config['dsmin'])
                     
-                    if self.config['verbose']:
+                    if verbose:
                         print(sol['message'])
                         print('Failed to converge with ds=', 2*ds, 
                               '. Retrying with ds=', ds)
@@ -833,21 +833,22 @@ class Continuation:
             
                 # Break out of loop over FracLam values if have converged
                 if sol['success']:
-                    if fracLam_ind > 0 and self.config['verbose']:
+                    if fracLam_ind > 0 and verbose:
                         print('Succeeded with FracLam index {} with value FracLam={}.'\
                               .format(fracLam_ind, self.config['FracLam']))
                     break
                 
             #} End fracLam loop
             
-            if(not sol['success'] and not silent):
-                print('Stopping since final solution failed to converge.')
+            if not sol['success']:
+                if not silent:
+                    print('Stopping since final solution failed to converge.')
                 break
             
             # Store Iteration and Advance
             XlamP_full[step] = self.CtoP * XlamC
             
-            if self.config['verbose'] and step % self.config['verbose'] == 0:
+            if verbose and step % verbose == 0:
                 print('Step=', step, ' converged: lam=', XlamP_full[step, -1], \
                       ' ds=', ds, ' and nfev=', sol['nfev'])
             
-- 
2.43.0


From 6ef4f577dea497ebe94b037a0d27260a39478235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 09/31] fix: conditioned Jacobian scales rows by a vector RPtoC
 consistently with R

---
 tmdsimpy/solvers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/solvers.py b/tmdsimpy/solvers.py
index 964b2b2..b3919ef 100644
--- a/tmdsimpy/solvers.py
+++ b/tmdsimpy/solvers.py
@@ -288,7 +288,8 @@ def _conditioned_fun(Xc, CtoP, RPtoC, calc_grad, fun):
         R, dRdXp = fun(Xp)[:2]
         
         Rc = RPtoC * R
-        dRcdXc = RPtoC*dRdXp*CtoP
+        # Rows are scaled by RPtoC (may be a vector), columns by CtoP
+        dRcdXc = (RPtoC*dRdXp.T).T*CtoP
         
         return (Rc, dRcdXc)
         
-- 
2.43.0


From 6f18a46478e88ca5841dc2cf77b13d8e6856a2b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:41 +0000
Subject: [PATCH 10/31] fix: harmonic_wise_conditioning with array delta and
 2*Ndof or more extra unknowns

---
 tmdsimpy/utils/harmonic.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tmdsimpy/utils/harmonic.py b/tmdsimpy/utils/harmonic.py
index 8178b3e..99cc863 100644
--- a/tmdsimpy/utils/harmonic.py
+++ b/tmdsimpy/utils/harmonic.py
@@ -370,11 +370,11 @@ def harmonic_wise_conditioning(X, Ndof, h, delta=1e-4):
         h0 = h[0] == 0
         
         CtoP = np.ones((Ndof*2, h.shape[0]+extras))*np.atleast_2d(delta)
-        CtoP = CtoP.reshape(-1, order='F')[Ndof*h0:]
+        CtoP_extra = CtoP[0, -1]*np.ones(m)
+        CtoP = CtoP[:, :h.shape[0]].reshape(-1, order='F')[Ndof*h0:]
         
-        if extras:
-            # Trim off extra at end
-            CtoP = CtoP[:(m-2*Ndof)]
+        # Unknowns after the harmonics (empty if there are none)
+        CtoP = np.hstack((CtoP, CtoP_extra))
         
     # Loop over Harmonics and Potentially increase each harmonic
     haszero = 0
-- 
2.43.0


From a7a97389eb06c85ca66ecd623dde2893c6571ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 11/31] fix: keep the configured xtol if the solved function
 raises an exception

---
 tmdsimpy/jax/solvers.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index e9c921c..97e0edc 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -534,10 +534,9 @@ class NonlinearSolverOMP(NonlinearSolver):
         if verbose is None:
             verbose = self.config['verbose']
             
-        # Save out the setting from xtol in config, then will overwrite
-        # here to update to be used for this call. 
-        xtol_setting = self.config['xtol'] 
-        self.config['xtol'] = xtol
+        # Tolerances for this call only, so that the setting in config is kept
+        # even if the function being solved raises an exception.
+        tol_config = dict(self.config, xtol=xtol)
         
         max_iter = self.config['max_steps']
         
@@ -699,7 +698,7 @@ class NonlinearSolverOMP(NonlinearSolver):
                               curr_iter))
             
             # Check for final convergence
-            converged = _check_convg(self.config['stopping_tol'], self.config, 
+            converged = _check_convg(self.config['stopping_tol'], tol_config, 
                                      r_curr, e_curr, u_curr, 
                                      r_curr/r0, e_curr/e0, u_curr/u0)
             if converged:
@@ -729,7 +728,7 @@ class NonlinearSolverOMP(NonlinearSolver):
         if no_nan_vals and not sol['success']:
             
             # Check convergence against the second set of tolerances
-            converged = _check_convg(self.config['accepting_tol'], self.config, 
+            converged = _check_convg(self.config['accepting_tol'], tol_config, 
                                  r_curr, e_curr, u_curr, 
                                  r_curr/r0, e_curr/e0, u_curr/u0)
             
@@ -744,9 +743,6 @@ class NonlinearSolverOMP(NonlinearSolver):
         if(verbose):
             print(sol['message'], ' Nfev=', sol['nfev'], ' Njev=', sol['njev'])
         
-        # Set xtol in config back to the value passed in. 
-        self.config['xtol'] = xtol_setting
-        
         return X, R, dRdX, sol
     
     
-- 
2.43.0


From 092e9f3c4735b89ab7ced0261ef8f8000d09ab66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 12/31] fix: hysteretic AFT repeats the cycle when the first
 one ends at zero force

---
 tmdsimpy/nlforces/nonlinear_force.py | 5 ++++-
 tmdsimpy/nlforces/vector_iwan4.py    | 8 ++++++--
 2 files changed, 10 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/nlforces/nonlinear_force.py b/tmdsimpy/nlforces/nonlinear_force.py
index 6ad59e8..8ab40ab 100644
--- a/tmdsimpy/nlforces/nonlinear_force.py
+++ b/tmdsimpy/nlforces/nonlinear_force.py
@@ -517,7 +517,10 @@ class HystereticForce(NonlinearForce):
         self.init_history_harmonic(unlth0, h)
         fp = self.fp
         
+        # The state after the first repeat has no end of cycle state to be compared
+        # against, so convergence is only checked starting from the second repeat.
         while( (its == 0) 
+              or (its == 1 and its < max_repeats)
               or (acheck > atol and rcheck > rtol and its < max_repeats) ):
             
             # Time Loop                
@@ -536,7 +539,7 @@ class HystereticForce(NonlinearForce):
             acheck = np.abs(ft[ti, :] - fp)
             rcheck = np.abs(acheck / (ft[ti, :]+np.finfo(float).eps) )
             
-            fp = ft[ti, :]
+            fp = np.copy(ft[ti, :])
         
         return ft, dfduh, dfdudh
         
diff --git a/tmdsimpy/nlforces/vector_iwan4.py b/tmdsimpy/nlforces/vector_iwan4.py
index ab42b49..b403139 100644
--- a/tmdsimpy/nlforces/vector_iwan4.py
+++ b/tmdsimpy/nlforces/vector_iwan4.py
@@ -169,7 +169,11 @@ class VectorIwan4(Iwan4Force):
         self.init_history_harmonic(unlth0, h)
         fp = self.fp
         
-        while( (its == 0) or (acheck > atol and rcheck > rtol and its < max_repeats) ):
+        # The state after the first repeat has no end of cycle state to be compared
+        # against, so convergence is only checked starting from the second repeat.
+        while( (its == 0) 
+              or (its == 1 and its < max_repeats)
+              or (acheck > atol and rcheck > rtol and its < max_repeats) ):
             
             # Time Loop                
             for ti in range(Nt):
@@ -191,7 +195,7 @@ class VectorIwan4(Iwan4Force):
             acheck = np.abs(ft[ti, :] - fp)
             rcheck = np.abs(acheck / (ft[ti, :]+np.finfo(float).eps) )
             
-            fp = ft[ti, :]
+            fp = np.copy(ft[ti, :])
         
         return ft, dfduh, dfdudh, fsliders, dfslidersduh
     
-- 
2.43.0


From 7918e75200915fca6f1e6274ce77ca47da3d7e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:19 +0000
Subject: [PATCH 13/31] fix: set_new_C with a matrix drops the previous
 proportional coefficients

---
 tmdsimpy/vibration_system.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 32dfcce..09dec91 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -261,6 +261,10 @@ class VibrationSystem:
             C = ab[0]*self.M + ab[1]*self.K
             self.ab = ab
         
+        elif not (C is None):
+            # Proportional coefficients no longer describe the damping matrix
+            self.ab = None
+            
         if not (C is None):
             self.C = C
         
-- 
2.43.0


From a81ac7db16fc475e2a8c9e22b72d9ef9b87d6885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 14/31] fix: linear_frf_base sums the columns of several base
 DOFs

---
 tmdsimpy/vibration_system.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 09dec91..221cb80 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -999,12 +999,15 @@ class VibrationSystem:
         # modal_fsin = V.T @ f_base_sin.T
         
         # Just using the stiffness/damping matrix column to generate base forces
-        f_base_cos = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[0]\
-                      - self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[1]*w
-                     
-         
-        f_base_sin = -self.K[np.logical_not(base_flag),:][:, base_flag]*Ub[1]\
-                      + self.C[np.logical_not(base_flag),:][:, base_flag]*Ub[0]*w
+        # All base DOFs have the same motion, so their columns are summed.
+        Kbase = self.K[np.logical_not(base_flag),:][:, base_flag]\
+                    .sum(axis=1, keepdims=True)
+        Cbase = self.C[np.logical_not(base_flag),:][:, base_flag]\
+                    .sum(axis=1, keepdims=True)
+        
+        f_base_cos = -Kbase*Ub[0] - Cbase*Ub[1]*w
+        
+        f_base_sin = -Kbase*Ub[1] + Cbase*Ub[0]*w
         
 
         # Now essentially copied from linear_frf
-- 
2.43.0


From 06c87a1e4b3f4c212813c7c5eb5707bb204ed9f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:25 +0000
Subject: [PATCH 15/31] fix: linear_frf_base includes the mass coupling to the
 base

---
 tmdsimpy/vibration_system.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 221cb80..5b21237 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -998,16 +998,20 @@ class VibrationSystem:
         # modal_f = V.T @ f_base_cos.T
         # modal_fsin = V.T @ f_base_sin.T
         
-        # Just using the stiffness/damping matrix column to generate base forces
+        # Using the matrix columns to generate base forces
         # All base DOFs have the same motion, so their columns are summed.
         Kbase = self.K[np.logical_not(base_flag),:][:, base_flag]\
                     .sum(axis=1, keepdims=True)
         Cbase = self.C[np.logical_not(base_flag),:][:, base_flag]\
                     .sum(axis=1, keepdims=True)
         
-        f_base_cos = -Kbase*Ub[0] - Cbase*Ub[1]*w
+        # inertia coupling between base and free DOFs
+        Mbase = self.M[np.logical_not(base_flag),:][:, base_flag]\
+                    .sum(axis=1, keepdims=True)
+        
+        f_base_cos = (Mbase*w**2 - Kbase)*Ub[0] - Cbase*Ub[1]*w
         
-        f_base_sin = -Kbase*Ub[1] + Cbase*Ub[0]*w
+        f_base_sin = (Mbase*w**2 - Kbase)*Ub[1] + Cbase*Ub[0]*w
         
 
         # Now essentially copied from linear_frf
-- 
2.43.0


From 1da763c75e8c9335f73914a9848f5763263b3f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:01 +0000
Subject: [PATCH 16/31] fix: VectorJenkins (JAX) drops reversals when samples
 are exactly equal

---
 tmdsimpy/jax/nlforces/vector_jenkins.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/vector_jenkins.py b/tmdsimpy/jax/nlforces/vector_jenkins.py
index e16870e..cb57427 100644
--- a/tmdsimpy/jax/nlforces/vector_jenkins.py
+++ b/tmdsimpy/jax/nlforces/vector_jenkins.py
@@ -315,9 +315,11 @@ def _local_aft_jenkins(Uwlocal, pars, u0, htuple, Nt, u0h0):
     vector_set = jnp.not_equal(jnp.sign(dup), jnp.sign(dun))
     vector_set = vector_set.at[0].set(True) # This makes it much easier to write the loop below and is assumed.
     
-    # Maximum number of critical points is 2*(Hmax)
+    # Displacement increments change sign at most 2*Hmax times. When samples are 
+    # exactly equal, both ends of such a plateau are critical points, so there 
+    # are up to 4*Hmax.
     # Add 1 for ease of implementation by including the first time instant
-    Ncrit = htuple[-1]*2+1
+    Ncrit = min(htuple[-1]*4+1, Nt)
     
     _,inds = jax.lax.top_k(vector_set.T, Ncrit)
     
-- 
2.43.0


From b038f0abf331f74457f91de62726f2b6d06e652e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:35 +0000
Subject: [PATCH 17/31] fix: harmonic Jacobian of separated dry friction
 contacts without sliding

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 10 +++++++---
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 15 +++++++++------
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index faab4e8..a9a25da 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -591,10 +591,14 @@ def _local_eldry_loop_body(ind, ft, unlt, kt, mu):
 
     """
     
-    fcurr = jnp.minimum(kt*(unlt[ind, 0::2]-unlt[ind-1, 0::2]) + ft[ind-1, 0::2],
-                            mu*ft[ind, 1::2])
+    # must use where to get gradient consistently correct (minimum and maximum 
+    # average the gradients when exactly at the slip limit, e.g., if separated)
+    fpred = kt*(unlt[ind, 0::2]-unlt[ind-1, 0::2]) + ft[ind-1, 0::2]
+    fslip = mu*ft[ind, 1::2]
     
-    ft = ft.at[ind, 0::2].set(jnp.maximum(fcurr, -mu*ft[ind, 1::2]))
+    fcurr = jnp.where(fpred < fslip, fpred, fslip)
+    
+    ft = ft.at[ind, 0::2].set(jnp.where(fcurr > -fslip, fcurr, -fslip))
     
     return ft
  
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index d5c4243..e54b9b0 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -607,14 +607,17 @@ def _local_eldry_loop_body(ind, ft, unlt, kt, mu):
     """
     
    
-    fcurrx = jnp.minimum(kt*(unlt[ind, 0::3]-unlt[ind-1, 0::3]) + ft[ind-1, 0::3],
-                            mu*ft[ind, 2::3])
+    # must use where to get gradient consistently correct (minimum and maximum 
+    # average the gradients when exactly at the slip limit, e.g., if separated)
+    fpredx = kt*(unlt[ind, 0::3]-unlt[ind-1, 0::3]) + ft[ind-1, 0::3]
+    fpredy = kt*(unlt[ind, 1::3]-unlt[ind-1, 1::3]) + ft[ind-1, 1::3]
+    fslip = mu*ft[ind, 2::3]
     
-    fcurry = jnp.minimum(kt*(unlt[ind, 1::3]-unlt[ind-1, 1::3]) + ft[ind-1, 1::3],
-                            mu*ft[ind, 2::3])
+    fcurrx = jnp.where(fpredx < fslip, fpredx, fslip)
+    fcurry = jnp.where(fpredy < fslip, fpredy, fslip)
     
-    ft = ft.at[ind, 0::3].set(jnp.maximum(fcurrx, -mu*ft[ind, 2::3]))
-    ft = ft.at[ind, 1::3].set(jnp.maximum(fcurry, -mu*ft[ind, 2::3]))
+    ft = ft.at[ind, 0::3].set(jnp.where(fcurrx > -fslip, fcurrx, -fslip))
+    ft = ft.at[ind, 1::3].set(jnp.where(fcurry > -fslip, fcurry, -fslip))
     
     return ft
  
-- 
2.43.0


From c15c3fe83c957353e8672469f965ff31358b5e38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:06 +0000
Subject: [PATCH 18/31] fix: rough contact derivatives of asperities exactly at
 the slip limit

---
 .../roughcontact/_asperity_functions.py         | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py b/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py
index 702c6f3..260921b 100644
--- a/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py
+++ b/tmdsimpy/jax/nlforces/roughcontact/_asperity_functions.py
@@ -290,11 +290,13 @@ def _tangential_asperity(uxy, uxy0, fxy0, fn, a, Gstar, mu):
     
     fs = jnp.outer(mu*fn,np.ones(2))
     
-    # Positive slip
-    fxy = jnp.minimum(fxy, fs)
+    # Positive slip - must use where to get gradient consistently correct 
+    # (minimum averages the gradients when exactly at the slip limit, e.g., for 
+    # zero friction coefficient or if separated)
+    fxy = jnp.where(fxy < fs, fxy, fs)
     
     # Negative slip
-    fxy = jnp.maximum(fxy, -fs)
+    fxy = jnp.where(fxy > -fs, fxy, -fs)
     
     return fxy
     
@@ -413,11 +415,14 @@ def _tangential_asperity_mif(uxy, uxy0, txy0, fn, a, Gstar, mu,
     txy = jnp.atleast_3d(kt_local)*(uxy.reshape(1,1,-1)-uxy0.reshape(1,1,-1))\
             + txy0_interp
     
-    # Positive slip limit
-    txy = jnp.minimum(txy, jnp.atleast_3d(mu*tn))
+    # Positive slip limit - must use where to get gradient consistently correct
+    # (minimum averages the gradients when exactly at the slip limit, e.g., for 
+    # zero friction coefficient or if separated)
+    ts = jnp.atleast_3d(mu*tn)
+    txy = jnp.where(txy < ts, txy, ts)
     
     # Negative slip limit
-    txy = jnp.maximum(txy, jnp.atleast_3d(-mu*tn))
+    txy = jnp.where(txy > -ts, txy, -ts)
     
     # Integrate over radii on each asperity, 
     # Equation 38 of Porter and Brake (2023)
-- 
2.43.0


From 267b09fcb9992cf18de6862c650070bca3e529b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:45:02 +0000
Subject: [PATCH 19/31] fix: local force histories of elastic dry friction with
 scalar or no slider position

---
 tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py | 4 ++--
 tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py | 4 ++--
 tmdsimpy/postprocess/harmonic.py             | 2 +-
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
index a9a25da..8a4b1a0 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_2d.py
@@ -441,7 +441,7 @@ class ElasticDryFriction2D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
         
         pars = np.array([self.kt, self.kn, self.mu])
         
@@ -454,7 +454,7 @@ class ElasticDryFriction2D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
 
         pars = np.array([self.kt, self.kn, self.mu])
 
diff --git a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
index e54b9b0..0142597 100644
--- a/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
+++ b/tmdsimpy/jax/nlforces/elastic_dry_fric_3d.py
@@ -452,7 +452,7 @@ class ElasticDryFriction3D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
         
         pars = np.array([self.kt, self.kn, self.mu])
         
@@ -465,7 +465,7 @@ class ElasticDryFriction3D(NonlinearForce):
             # Initialize based on the zeroth harmonic.
             u0 = unlth0
         else:
-            u0 = self.u0*np.ones_like(unlth0[0])
+            u0 = self.u0*np.ones_like(unlt[0])
 
         pars = np.array([self.kt, self.kn, self.mu])
 
diff --git a/tmdsimpy/postprocess/harmonic.py b/tmdsimpy/postprocess/harmonic.py
index 4e2ccbc..58c3a05 100644
--- a/tmdsimpy/postprocess/harmonic.py
+++ b/tmdsimpy/postprocess/harmonic.py
@@ -84,7 +84,7 @@ def local_harmonic_forces(vibration_system, U, w, h, Nt=128, aft_tol=1e-7):
         if nlforce.nl_force_type() == 1:
             # Hysteretic Nonlinearities
             
-            if hasattr(nlforce, 'u0'):
+            if getattr(nlforce, 'u0', None) is not None:
                 # Generally the rough contact nonlinearity should come here,
                 # and other nonlinear friction type elements.    
                 unlth0 = nlforce.u0
-- 
2.43.0


From 22442d1054d3019e4d9b0f90a988173dff605ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:13 +0000
Subject: [PATCH 20/31] fix: shooting sample times beyond the period by
 rounding

---
 tmdsimpy/vibration_system.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 5b21237..ea67543 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -1131,7 +1131,7 @@ class VibrationSystem:
         
         ivp_res = solve_ivp(ydotfun, (0.0, Period), UV_dUVdUV0, 
                         max_step=Period/Nt,
-                        t_eval=np.array(range(Nt+1))*Period/Nt) 
+                        t_eval=np.linspace(0.0, Period, Nt+1))
         
         Yfinal = ivp_res['y'][:, -1]
         Yfinal_dot = ydotfun(Period, Yfinal)
-- 
2.43.0


From 484572a2a16af8759d5d3d51a86882b18fda020b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:54 +0000
Subject: [PATCH 21/31] fix: reported response amplitude of the static
 component

---
 tmdsimpy/utils/continuation.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index a021f3a..33b4a7d 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -769,7 +769,11 @@ def _calc_harmonic_resp(U, w, h, order, output_recov, output_harmonic):
     Nhc_before = hutils.Nhc(h[h < output_harmonic])
     
     amp_cos = output_recov @ U[Nhc_before*Ndof:(Nhc_before+1)*Ndof]
-    amp_sin = output_recov @ U[(Nhc_before+1)*Ndof:(Nhc_before+2)*Ndof]
+    
+    if output_harmonic == 0:
+        amp_sin = 0.0 # the static component has no sine part
+    else:
+        amp_sin = output_recov @ U[(Nhc_before+1)*Ndof:(Nhc_before+2)*Ndof]
     
     amp = np.sqrt(amp_cos**2 + amp_sin**2) *((output_harmonic*w)**order)
                         
-- 
2.43.0


From 577c84f04b538eb4eb2f2c3e7370465d4cff8e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:44:03 +0000
Subject: [PATCH 22/31] fix: harmonic labels under the wrong columns of the
 VPRNM amplitude-phase report

---
 tmdsimpy/utils/continuation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/utils/continuation.py b/tmdsimpy/utils/continuation.py
index 33b4a7d..bb03197 100644
--- a/tmdsimpy/utils/continuation.py
+++ b/tmdsimpy/utils/continuation.py
@@ -697,7 +697,7 @@ def print_vprnm_amp_phase_stats(XlamP, dirP_prev, fname, h, control_order,
                                             'Force Sine [N]',
                                             'Frequency [Hz]'))
             
-            harmonic_line = ('{:^18s} & {:^18s} '.format('','')) \
+            harmonic_line = ('{:^18s} & {:^18s} & {:^18s} & {:^18s} '.format('','','','')) \
                 + ''.join(['& {:^22s}'.format('dof={}, h={}'.format(ind, rh[1])) \
                            for ind,rh in enumerate(output_recov_harmonic_list)]) \
                 + '\n'
-- 
2.43.0


From 3605fd55a4e80fee13b0d260f029ea8f9a536cdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:08:52 +0000
Subject: [PATCH 23/31] fix: compare the recovered superharmonic amplitude
 relative to its size

---
 tmdsimpy/roms/vprnm.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tmdsimpy/roms/vprnm.py b/tmdsimpy/roms/vprnm.py
index 0cf3f74..f1bf060 100644
--- a/tmdsimpy/roms/vprnm.py
+++ b/tmdsimpy/roms/vprnm.py
@@ -314,7 +314,7 @@ def constant_h1_displacement(epmc_fund_bb, h_fund, epmc_rhi_bb, h_rhi,
     # this is a check everytime since it is very difficult to write a test
     # for it. This check failed due to bugs with frequency scaling to match
     # the VPRNM frequency.
-    assert np.abs(q_S[super_peak_ind] - q_S_EPMC) <= 1e-12, \
+    assert np.abs(q_S[super_peak_ind] - q_S_EPMC) <= 1e-12*q_S_EPMC, \
         'Superharmonic reconstruction did not recover VPRNM peak.'
     
     h0_rhi = h_rhi[0] == 0
-- 
2.43.0


From a6038052ceb20af8b81200c0d25c9a74db8cf167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:22:42 +0000
Subject: [PATCH 24/31] fix: velocity dependent damping gives no force in
 static residuals

---
 tmdsimpy/nlforces/cubic_damping.py | 23 +++++++++++++++++++++++
 tmdsimpy/vibration_system.py       |  5 ++++-
 2 files changed, 27 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/nlforces/cubic_damping.py b/tmdsimpy/nlforces/cubic_damping.py
index 68e039b..41710c2 100644
--- a/tmdsimpy/nlforces/cubic_damping.py
+++ b/tmdsimpy/nlforces/cubic_damping.py
@@ -63,6 +63,29 @@ class CubicDamping(InstantaneousForce):
         
         return F, dFdV
     
+    def static_force(self, X):
+        """
+        Calculate global nonlinear forces for static displacements, at which 
+        there is no velocity and thus no damping force.
+
+        Parameters
+        ----------
+        X : (N,) numpy.ndarray
+            Global static displacements.
+
+        Returns
+        -------
+        F : (N,) numpy.ndarray
+            Global nonlinear force (zero).
+        dFdX : (N,N) numpy.ndarray
+            Derivative of `F` with respect to `X` (zero).
+
+        """
+        
+        N = X.shape[0]
+        
+        return np.zeros(N), np.zeros((N, N))
+    
     def local_force_history(self, unlt, unltdot):
         """
         Evaluates the local nonlinear forces based on local nonlinear 
diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index ea67543..277e190 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -310,7 +310,10 @@ class VibrationSystem:
         
         
         for nlforce in self.nonlinear_forces:
-            Fnl_curr, dFnldU_curr = nlforce.force(U)
+            # Velocity dependent forces have a separate static force, since 
+            # their `force` method is a function of velocity.
+            static_force = getattr(nlforce, 'static_force', nlforce.force)
+            Fnl_curr, dFnldU_curr = static_force(U)
             
             Fnl += Fnl_curr
             dFnldU += dFnldU_curr
-- 
2.43.0


From b7e2730a45fa380eb9567565fce7608c8f04aa0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:43 +0000
Subject: [PATCH 25/31] fix: a second continuation run starts from the
 configured conditioning

---
 tmdsimpy/continuation.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/tmdsimpy/continuation.py b/tmdsimpy/continuation.py
index 2a86811..cfb6c39 100644
--- a/tmdsimpy/continuation.py
+++ b/tmdsimpy/continuation.py
@@ -172,6 +172,7 @@ class Continuation:
                 
             self.setCtoPto1 = False
             self.CtoP = np.abs(CtoP)
+            self.CtoP0 = np.copy(self.CtoP)
             
         if RPtoC is None:
             # Needed vector for using RPtoC in initial solve
@@ -181,6 +182,7 @@ class Continuation:
             self.RPtoC = 1
         else:
             self.RPtoC = RPtoC
+            self.RPtoC0 = RPtoC
             self.setRPtoCto1 = False
             
         default_config={'FracLam' : 0.5, 
@@ -728,11 +730,16 @@ class Continuation:
         
         
         # Conditioning up front for static solution
+        # A previous call with this object may have updated both vectors
         if self.setCtoPto1:
             self.CtoP = np.ones_like(XlamP0)
+        else:
+            self.CtoP = np.copy(self.CtoP0)
             
         if self.setRPtoCto1:
             self.RPtoC = np.ones_like(XlamP0)
+        else:
+            self.RPtoC = self.RPtoC0
             
         # Make sure that RPtoC is initially a vector for use in 
         # initial solution
-- 
2.43.0


From cfa1d310d7db77992b38f5697b9d0c027069e036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:01 +0000
Subject: [PATCH 26/31] fix: harmonic hysteretic forces without derivatives

---
 tmdsimpy/jax/nlforces/jenkins_element.py | 10 +++++++++-
 tmdsimpy/jax/nlforces/vector_jenkins.py  | 10 +++++++++-
 tmdsimpy/nlforces/nonlinear_force.py     | 12 ++++++++----
 3 files changed, 26 insertions(+), 6 deletions(-)

diff --git a/tmdsimpy/jax/nlforces/jenkins_element.py b/tmdsimpy/jax/nlforces/jenkins_element.py
index a88960f..a8eca5a 100644
--- a/tmdsimpy/jax/nlforces/jenkins_element.py
+++ b/tmdsimpy/jax/nlforces/jenkins_element.py
@@ -113,7 +113,7 @@ class JenkinsForce(NonlinearForce):
         
         self.Fs = self.real_Fs
         
-    def aft(self, U, w, h, Nt=128, tol=1e-7):
+    def aft(self, U, w, h, Nt=128, tol=1e-7, calc_grad=True):
         """
         Implementation of the alternating frequency-time (AFT) method to
         extract harmonic nonlinear force coefficients.
@@ -134,6 +134,10 @@ class JenkinsForce(NonlinearForce):
             This argument is ignored, and is included for compatability of 
             interface. 
             The default is 1e-7.
+        calc_grad : boolean, optional
+            Flag where True indicates that the gradients should be calculated 
+            and returned. If False, then returns only (Fnl,).
+            The default is True.
         
         Returns
         -------
@@ -205,6 +209,10 @@ class JenkinsForce(NonlinearForce):
                 
         # Global coordinates        
         Fnl = np.reshape(self.T @ Flocal, (U.shape[0],), 'F')
+        
+        if not calc_grad:
+            return (Fnl,)
+        
         dFnldU = np.kron(np.eye(Nhc), self.T) @ dFdUwlocal[:, :-1] \
                                                 @ np.kron(np.eye(Nhc), self.Q)
         
diff --git a/tmdsimpy/jax/nlforces/vector_jenkins.py b/tmdsimpy/jax/nlforces/vector_jenkins.py
index cb57427..1bdd1ec 100644
--- a/tmdsimpy/jax/nlforces/vector_jenkins.py
+++ b/tmdsimpy/jax/nlforces/vector_jenkins.py
@@ -74,7 +74,7 @@ class VectorJenkins(NonlinearForce):
         
         self.u0 = u0
         
-    def aft(self, U, w, h, Nt=128, tol=1e-7):
+    def aft(self, U, w, h, Nt=128, tol=1e-7, calc_grad=True):
         """
         Implementation of the alternating frequency-time (AFT) method to
         extract harmonic nonlinear force coefficients.
@@ -95,6 +95,10 @@ class VectorJenkins(NonlinearForce):
             This argument is ignored, and is included for compatability of 
             interface. 
             The default is 1e-7.
+        calc_grad : boolean, optional
+            Flag where True indicates that the gradients should be calculated 
+            and returned. If False, then returns only (Fnl,).
+            The default is True.
         
         Returns
         -------
@@ -166,6 +170,10 @@ class VectorJenkins(NonlinearForce):
                 
         # Global coordinates        
         Fnl = np.reshape(self.T @ Flocal, (U.shape[0],), 'F')
+        
+        if not calc_grad:
+            return (Fnl,)
+        
         dFnldU = np.kron(np.eye(Nhc), self.T) @ dFdUwlocal[:, :-1] \
                                                 @ np.kron(np.eye(Nhc), self.Q)
         
diff --git a/tmdsimpy/nlforces/nonlinear_force.py b/tmdsimpy/nlforces/nonlinear_force.py
index 8ab40ab..f07489c 100644
--- a/tmdsimpy/nlforces/nonlinear_force.py
+++ b/tmdsimpy/nlforces/nonlinear_force.py
@@ -547,7 +547,7 @@ class HystereticForce(NonlinearForce):
     # Write a slightly different AFT than instant since have derivatives output
     # w.r.t. harmonic coefs rather than u.
     def aft(self, U, w, h, Nt=128, tol=1e-7, max_repeats=2, atol=1e-10, 
-            rtol=1e-10):
+            rtol=1e-10, calc_grad=True):
         """
         Implementation of the alternating frequency-time method to extract 
         harmonic nonlinear force coefficients (hysteretic forces).
@@ -581,6 +581,10 @@ class HystereticForce(NonlinearForce):
             Relative tolerance on `local_force_history` force convergence 
             to steady-state (final state of cycle).
             The default is 1e-10.
+        calc_grad : boolean, optional
+            Flag where True indicates that the gradients should be calculated 
+            and returned. If False, then returns only (Fnl,).
+            The default is True.
 
         Returns
         -------
@@ -594,9 +598,6 @@ class HystereticForce(NonlinearForce):
         Notes
         -----
         
-        A `calc_grad` optional argument should be added in the future to allow
-        for compatibility with other functions/methods/classes.
-        
         WARNING: Needs further verification for cases using multiple nonlinear 
         displacements and or nonlinear output forces.
         
@@ -642,6 +643,9 @@ class HystereticForce(NonlinearForce):
         
         F = hutils.get_fourier_coeff(h, ft)
         
+        if not calc_grad:
+            return (np.reshape(self.T @ F.T, (U.shape[0],), 'F'),)
+        
         # Gradient Calculation
         
         # Derivative of the time series of forces w.r.t harmonic coefficients
-- 
2.43.0


From af8b470374389dc23f2401f88e93b8910731b700 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:41:30 +0000
Subject: [PATCH 27/31] fix: linear solves of NonlinearSolverOMP return numpy
 arrays

JAX arrays were returned instead of the documented numpy arrays. Solution and
continuation steps added to them passed immutable JAX arrays to the function
being solved; e.g. systems with Iwan4Force raised TypeError.
---
 tmdsimpy/jax/solvers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/jax/solvers.py b/tmdsimpy/jax/solvers.py
index 97e0edc..5f4b4ca 100644
--- a/tmdsimpy/jax/solvers.py
+++ b/tmdsimpy/jax/solvers.py
@@ -184,7 +184,7 @@ class NonlinearSolverOMP(NonlinearSolver):
         
         x = jax.numpy.linalg.solve(A,b)
         
-        return x
+        return np.array(x)
     
     def lin_factor(self, A):
         """
@@ -238,7 +238,7 @@ class NonlinearSolverOMP(NonlinearSolver):
         """
         x = jax.scipy.linalg.lu_solve(lu_and_piv, b)
         
-        return x
+        return np.array(x)
     
     def line_search(self, fun, X, Rx, deltaX):
         """
-- 
2.43.0


From 5478b4f025e463a37f04c58bda4b5cc48c1fa3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:21:57 +0000
Subject: [PATCH 28/31] fix: linear frequency responses of systems with rigid
 body modes

---
 tmdsimpy/vibration_system.py | 30 ++++++++++++++----------------
 1 file changed, 14 insertions(+), 16 deletions(-)

diff --git a/tmdsimpy/vibration_system.py b/tmdsimpy/vibration_system.py
index 277e190..f665662 100644
--- a/tmdsimpy/vibration_system.py
+++ b/tmdsimpy/vibration_system.py
@@ -627,25 +627,24 @@ class VibrationSystem:
             
         # Calculate Mode Shapes:
         wnsq,V = solver.eigs(self.K, self.M, subset_by_index=[0, neigs-1] )
-        wn = np.sqrt(wnsq)
 
         # Modal Forcing:
         modal_f = V.T @ Fl
         modal_fsin = V.T @ Flsin
-        modal_z = self.ab[0]/wn/2 +  self.ab[1]*wn/2
+        modal_c = self.ab[0] + self.ab[1]*wnsq # 2*wn*z, finite for rigid body modes
         
         # Modes in second direction
         modal_f = np.atleast_2d(modal_f).T
         modal_fsin = np.atleast_2d(modal_fsin).T
-        modal_z = np.atleast_2d(modal_z).T
-        wn2d = np.atleast_2d(wn).T
+        modal_c = np.atleast_2d(modal_c).T
+        wnsq2d = np.atleast_2d(wnsq).T
         
         # Rederived by Hand:
-        qcos = ((wn2d**2 - w**2)*modal_f - (2*wn2d*w*modal_z)*modal_fsin)\
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qcos = ((wnsq2d - w**2)*modal_f - (w*modal_c)*modal_fsin)\
+            / ( (wnsq2d - w**2)**2 + (w*modal_c)**2 )
         
-        qsin = ((2*wn2d*w*modal_z)*modal_f + (wn2d**2 - w**2)*modal_fsin) \
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qsin = ((w*modal_c)*modal_f + (wnsq2d - w**2)*modal_fsin) \
+            / ( (wnsq2d - w**2)**2 + (w*modal_c)**2 )
         
         Xw = np.vstack((V @ qcos, V @ qsin, w)).T
         
@@ -991,7 +990,6 @@ class VibrationSystem:
         
         # Calculate Mode Shapes:
         wnsq,V = solver.eigs(Krel, Mrel, subset_by_index=[0, neigs-1] )
-        wn = np.sqrt(wnsq)
 
         # # Base Excitation as real force (based on relative coords)
         # f_base_cos = -(Mrel.sum(axis=0) * Ub[0]) * w.reshape(-1,1)**2
@@ -1021,11 +1019,11 @@ class VibrationSystem:
         # Modal Forcing:
         modal_f = V.T @ f_base_cos
         modal_fsin = V.T @ f_base_sin
-        modal_z = self.ab[0]/wn/2 +  self.ab[1]*wn/2
+        modal_c = self.ab[0] + self.ab[1]*wnsq # 2*wn*z, finite for rigid body modes
         
         # Modes in second direction
-        modal_z = np.atleast_2d(modal_z).T
-        wn2d = np.atleast_2d(wn).T
+        modal_c = np.atleast_2d(modal_c).T
+        wnsq2d = np.atleast_2d(wnsq).T
         
         #######################
         # # From Inman (SDOF):
@@ -1040,11 +1038,11 @@ class VibrationSystem:
         
         #######################
         # Rederived by Hand:
-        qcos = ((wn2d**2 - w**2)*modal_f - (2*wn2d*w*modal_z)*modal_fsin)\
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qcos = ((wnsq2d - w**2)*modal_f - (w*modal_c)*modal_fsin)\
+            / ( (wnsq2d - w**2)**2 + (w*modal_c)**2 )
         
-        qsin = ((2*wn2d*w*modal_z)*modal_f + (wn2d**2 - w**2)*modal_fsin) \
-            / ( (wn2d**2 - w**2)**2 + (2*wn2d*w*modal_z)**2 )
+        qsin = ((w*modal_c)*modal_f + (wnsq2d - w**2)*modal_fsin) \
+            / ( (wnsq2d - w**2)**2 + (w*modal_c)**2 )
         
         # Stack output plus transform back from relative to absolute coordinates
         
-- 
2.43.0


From 56ad88b4d6b1526ee113e468d7d122887b071d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:40:48 +0000
Subject: [PATCH 29/31] fix: Jenkins elements can be evaluated right after
 construction

---
 tmdsimpy/nlforces/jenkins_element.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/tmdsimpy/nlforces/jenkins_element.py b/tmdsimpy/nlforces/jenkins_element.py
index 69c364a..c6d5138 100644
--- a/tmdsimpy/nlforces/jenkins_element.py
+++ b/tmdsimpy/nlforces/jenkins_element.py
@@ -45,6 +45,8 @@ class JenkinsForce(HystereticForce):
         self.Fs = Fs
         self.prestress_Fs = 0.0
         self.real_Fs = Fs
+        
+        self.init_history()
     
     
     def set_prestress_mu(self):
-- 
2.43.0


From 8ed753367e70f4a8e665957113a10da2e3202a82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:19:44 +0000
Subject: [PATCH 30/31] fix: forced response points at the peak of lightly
 damped modes are not lost

The argument of the root cancels for small damping, so that the peak of the
superharmonic was dropped and the superharmonic resonance model refused modes
with a fraction of critical damping below about 5e-5.
---
 tmdsimpy/roms/epmc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/tmdsimpy/roms/epmc.py b/tmdsimpy/roms/epmc.py
index c9b385d..5529fe3 100644
--- a/tmdsimpy/roms/epmc.py
+++ b/tmdsimpy/roms/epmc.py
@@ -243,7 +243,8 @@ def constant_force(epmc_bb, Ndof, h, Fl=None, w=None, zeta=None,
     pm = np.array([[1], [-1]])
     
     # mask out negatives before square root to avoid warning
-    root_arg = p2**2 - w**4 + phi_Fl**2 / q**2
+    # (p2**2 - w**4 is written so that it does not cancel for small damping)
+    root_arg = phi_Fl**2 / q**2 - 4 * (zeta * w**2)**2 * (1 - zeta**2)
     root_pos = root_arg >= 0
     root_arg[np.logical_not(root_pos)] = 0.0
     
-- 
2.43.0


From 84be36b3e92a60018af418b5e7017ab5c82b50b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:20:00 +0000
Subject: [PATCH 31/31] fix: superharmonic peak identified by its amplitude
 when frequencies coincide

A point of lower amplitude can lie at exactly the frequency of the superharmonic
resonance point, so that the peak was taken from the wrong point and the
model was refused.
---
 tmdsimpy/roms/vprnm.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/tmdsimpy/roms/vprnm.py b/tmdsimpy/roms/vprnm.py
index f1bf060..b1618cc 100644
--- a/tmdsimpy/roms/vprnm.py
+++ b/tmdsimpy/roms/vprnm.py
@@ -309,12 +309,16 @@ def constant_h1_displacement(epmc_fund_bb, h_fund, epmc_rhi_bb, h_rhi,
     ###########################################################################
     # 5. Rotate Superharmonic Response to Match Phase
     
-    super_peak_ind = np.argmin(np.abs(Uw_S[:, -1] - rhi*Omega_VPRNM))
+    # points of a lower amplitude may have exactly the frequency of the peak
+    peak_distance = np.abs(Uw_S[:, -1] - rhi*Omega_VPRNM)
+    peak_distance[q_S < q_S.max()] = np.inf
+    super_peak_ind = np.argmin(peak_distance)
     
     # this is a check everytime since it is very difficult to write a test
     # for it. This check failed due to bugs with frequency scaling to match
     # the VPRNM frequency.
-    assert np.abs(q_S[super_peak_ind] - q_S_EPMC) <= 1e-12*q_S_EPMC, \
+    assert np.abs(q_S[super_peak_ind] - q_S_EPMC) <= 1e-12*q_S_EPMC \
+        and peak_distance[super_peak_ind] <= 1e-8*np.abs(rhi*Omega_VPRNM), \
         'Superharmonic reconstruction did not recover VPRNM peak.'
     
     h0_rhi = h_rhi[0] == 0
-- 
2.43.0

