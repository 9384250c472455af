From edad83840e995fd3af70d9680529fdb6fe8d6207 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 01/24] fix: MassFlow subsonic initial Mach number left the
 subsonic branch for large section ratio or gamma != 1.4

---
 aerokit/aero/MassFlow.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index ee3ce2b..2cf4f28 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -10,9 +10,8 @@ from ..common import defaultgas as defg
 
 # internal initialization (estimated) Mach for Sigma->Mach computations
 def __MachSub_sigma(sigma, gamma):
-    return 1.0 - np.sqrt(
-        (1.0 - 1.0 / sigma) * (4.0 * (gamma - 1.0) / (3.0 - gamma))
-    )  # (2./(gamma+1.))**(.5*(gamma+1.)/(gamma-1.))/sigma
+    # low Mach limit of Sigma_Mach: never above the subsonic solution, whatever gamma and sigma
+    return (2.0 / (gamma + 1.0)) ** (0.5 * (gamma + 1.0) / (gamma - 1.0)) / sigma
 
 
 def __MachSup_sigma(sigma, gamma):
-- 
2.43.0


From 82b15d468aeeb6d34b7f23dca5e71666d3142c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 02/24] fix: Pt_ratio used the default gamma for the downstream
 stagnation pressure

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 98d1718..b88e2d8 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -90,7 +90,7 @@ def Pt_ratio(Mn, gamma=defg._gamma):
     Returns:
 
     """
-    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma)) / Is.PtPs_Mach(Mn, gamma)
+    return Ps_ratio(Mn, gamma) * Is.PtPs_Mach(downstream_Mn(Mn, gamma), gamma) / Is.PtPs_Mach(Mn, gamma)
 
 
 def Mn_Pt_ratio(ptratio, gamma=defg._gamma):
-- 
2.43.0


From ad442c54c4cbfbb779f3eaca2c97c815da609f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:59 +0000
Subject: [PATCH 03/24] fix: Propulsion imported a module that does not exist

---
 aerokit/aero/Propulsion.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/Propulsion.py b/aerokit/aero/Propulsion.py
index daf863b..ec807e0 100644
--- a/aerokit/aero/Propulsion.py
+++ b/aerokit/aero/Propulsion.py
@@ -3,7 +3,7 @@
 """
 import aerokit.aero.Isentropic as Is
 import aerokit.aero.MassFlow as mf
-import aerokit.IterativeSolve as ITS
+import aerokit.aero.IterativeSolve as ITS
 
 
 def ThrustFunction(Mach, gamma=1.4):
-- 
2.43.0


From 0f6d8ec5f1296570da2bede03a2e7cda84454481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 04/24] fix: dicoVar lookup was case sensitive in spite of its
 documentation

---
 aerokit/common/dicovar.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/aerokit/common/dicovar.py b/aerokit/common/dicovar.py
index 041326e..f7b1aa2 100644
--- a/aerokit/common/dicovar.py
+++ b/aerokit/common/dicovar.py
@@ -137,8 +137,11 @@ class _DicoVar(object):
         """
         if var in self._dv:
             return self._dv[var]
-        else:
-            raise ValueError('{} variable not in {} database dictionnary'.format(var, self._softName))
+        # variable names handle capital letters: 'U_avg' is 'u_avg'
+        for key in self._dv:
+            if key.lower() == var.lower():
+                return self._dv[key]
+        raise ValueError('{} variable not in {} database dictionnary'.format(var, self._softName))
 
     def addVar(self, var, sVar):
         """
-- 
2.43.0


From 306b597412064be3c1d458fcbdd9dd34bcb9dd51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:19 +0000
Subject: [PATCH 05/24] fix: extendvar could not be imported (implicit relative
 import)

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index 853aeef..a1ca824 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -13,7 +13,7 @@ Examples
 Notes
 -----
 """
-from dicovar import dicoVar as dico
+from aerokit.common.dicovar import dicoVar as dico
 
 # -----------------------------------------------------------------
 
-- 
2.43.0


From 70abdfbf11b1cfb5cd0f6d8cd0b9ad0404f99714 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 06/24] fix: 1D states built from total quantities or by
 indexing lost their gamma; isentropic state used r.Ttot as total pressure

---
 aerokit/aero/model1D.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/aerokit/aero/model1D.py b/aerokit/aero/model1D.py
index 0b8d964..2d096e0 100644
--- a/aerokit/aero/model1D.py
+++ b/aerokit/aero/model1D.py
@@ -50,21 +50,21 @@ class state:
 
     def state_isentropic_Mach(self, Mach):
         """return state defined by Mach number through isoenergetic isentropic transformation"""
-        ps = self.rTtot() / Is.PtPs_Mach(Mach, self._gamma)
+        ps = self.Ptot() / Is.PtPs_Mach(Mach, self._gamma)
         rts = self.rTtot() / Is.TtTs_Mach(Mach, self._gamma)
-        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps)
+        return state(rho=ps / rts, u=Mach * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_M(self, pt, rtt, M):
         ps = pt / Is.PtPs_Mach(M, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps)
+        self.__init__(rho=ps / rts, u=M * np.sqrt(self._gamma * rts), p=ps, gamma=self._gamma)
 
     def compute_from_pt_rtt_u(self, pt, rtt, u):
         gam = self._gamma
         gsgmu = gam / (gam - 1.0)
         a2 = gam * rtt - 0.5 * (gam - 1.0) * u ** 2
         ps = pt / (1.0 + 0.5 * u ** 2 / (gsgmu * rtt - 0.5 * u ** 2)) ** gsgmu
-        self.__init__(rho=gam * ps / a2, u=u, p=ps)
+        self.__init__(rho=gam * ps / a2, u=u, p=ps, gamma=gam)
 
     def compute_from_pt_rtt_p(self, pt, rtt, p):
         """Init state from Ptot r.Ttot and Ps (velocity sign is arbitrary and positive)
@@ -76,11 +76,11 @@ class state:
         """
         M = Is.Mach_PtPs(pt / p, self._gamma)
         rts = rtt / Is.TtTs_Mach(M, self._gamma)
-        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p)
+        self.__init__(rho=p / rts, u=M * np.sqrt(self._gamma * rts), p=p, gamma=self._gamma)
 
     def __getitem__(self, i):
         assert isinstance(self.rho, np.ndarray)
-        return state(self.rho[i], self.u[i], self.p[i])
+        return state(self.rho[i], self.u[i], self.p[i], self._gamma)
 
     def asound(self):
         """returns speed of sound"""
-- 
2.43.0


From 823c5d5931531bb11c33431862041c73c8bcb06b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:13 +0000
Subject: [PATCH 07/24] fix: nozzle ignored its gamma argument in most regimes
 and overwrote the saved default gas

---
 aerokit/instance/nozzle.py | 45 ++++++++++++++++++++------------------
 1 file changed, 24 insertions(+), 21 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index f6a72be..8c7c1f2 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -58,7 +58,7 @@ def NPR_shock_at_exit(AsAc):
     return Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
 
 
-def _NPR_Ms_list(AsAc):
+def _NPR_Ms_list(AsAc, gamma=defg._gamma):
     """
     Computes all NPR limits and associated exit Mach number
 
@@ -75,16 +75,16 @@ def _NPR_Ms_list(AsAc):
             .. seealso:: NPR_choked_subsonic(), NPR_choked_supersonic(), NPR_shock_at_exit()
             .. note:: available for scalar or array (numpy) computations
     """
-    Msub = mf.MachSub_Sigma(AsAc)
-    NPR0 = Is.PtPs_Mach(Msub)
-    Msup = mf.MachSup_Sigma(AsAc)
-    Msh = sw.downstream_Mn(Msup)
-    NPRsw = Is.PtPs_Mach(Msh) / sw.Pi_ratio(Msup)
-    NPR1 = Is.PtPs_Mach(Msup)
+    Msub = mf.MachSub_Sigma(AsAc, gamma)
+    NPR0 = Is.PtPs_Mach(Msub, gamma)
+    Msup = mf.MachSup_Sigma(AsAc, gamma)
+    Msh = sw.downstream_Mn(Msup, gamma)
+    NPRsw = Is.PtPs_Mach(Msh, gamma) / sw.Pi_ratio(Msup, gamma)
+    NPR1 = Is.PtPs_Mach(Msup, gamma)
     return NPR0, NPRsw, NPR1, Msub, Msh, Msup
 
 
-def Ms_from_AsAc_NPR(AsAc, NPR):
+def Ms_from_AsAc_NPR(AsAc, NPR, gamma=None):
     """
     Computes Mach number at exit of a nozzle given As/Ac and NPR
 
@@ -92,6 +92,7 @@ def Ms_from_AsAc_NPR(AsAc, NPR):
 
             :param AsAc:  ratio of section at exit over throat
     :param NPR:   ratio of total pressure at inlet over 'expected' static pressure at exit
+    :param gamma: ratio of specific heats (aerokit.common.defaultgas if omitted)
             :return:      result Mach number at exit
 
             :Example:
@@ -102,14 +103,16 @@ def Ms_from_AsAc_NPR(AsAc, NPR):
             .. seealso::
             .. note:: NOT available for array (numpy) computations
     """
-    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc)
+    gas = {} if gamma is None else {"gamma": gamma}
+    NPR0, NPRsw, NPR1, Msub, Msh, Msup = _NPR_Ms_list(AsAc, **gas)
     if NPR < NPR0:
-        Ms = Is.Mach_PtPs(NPR)
+        Ms = Is.Mach_PtPs(NPR, **gas)
     elif NPR > NPRsw:
         Ms = Msup
     else:
-        gmu = defg._gamma - 1.0
-        K = NPR / AsAc / ((defg._gamma + 1.0) / 2) ** ((defg._gamma + 1.0) / 2 / gmu)
+        gam = defg._gamma if gamma is None else gamma
+        gmu = gam - 1.0
+        K = NPR / AsAc / ((gam + 1.0) / 2) ** ((gam + 1.0) / 2 / gmu)
         Ms = np.sqrt((np.sqrt(1.0 + 2.0 * gmu * K * K) - 1.0) / gmu)
     return Ms
 
@@ -169,13 +172,11 @@ class nozzle:
             self.AsoAc = section[-1] / np.min(section)
         self.AxoAc = section * self.AsoAc / section[-1]
         self.ithroat = np.abs(self.AxoAc).argmin()  # abs not necessary but ensure conversion to numpy array
-        defg.save_default()
-        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc)
+        self.NPR0, self.NPRsw, self.NPR1, self.Msub, self.Msh, self.Msup = _NPR_Ms_list(self.AsoAc, gamma)
         self._ref_rttot = ref_rttot
         self._scale_ps = scale_ps
         if NPR:
             self.set_NPR(NPR)
-        defg.restore_default()
         return
 
     def set_NPR(self, NPR):
@@ -187,7 +188,7 @@ class nozzle:
         self._Pt = np.ones_like(self.AxoAc)
         if NPR < self.NPR0:
             _Ms = Is.Mach_PtPs(NPR, gamma=self.gamma)
-            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms), gamma=self.gamma)
+            self._M = mf.MachSub_Sigma(self.AxoAc / self.AsoAc * mf.Sigma_Mach(_Ms, self.gamma), gamma=self.gamma)
             self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
         else:
             self._M = np.ones_like(self.AxoAc)
@@ -195,14 +196,16 @@ class nozzle:
             self._M[self.ithroat + 1 :] = mf.MachSup_Sigma(self.AxoAc[self.ithroat + 1 :], gamma=self.gamma)
             if NPR < self.NPRsw:
                 # analytical solution for Ms, losses and upstream Mach number of shock wave
-                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR)
-                Ptloss = Is.PtPs_Mach(Ms) / NPR
-                Msh = sw.Mn_Pi_ratio(Ptloss)
+                Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR, self.gamma)
+                Ptloss = Is.PtPs_Mach(Ms, self.gamma) / NPR
+                Msh = sw.Mn_Pi_ratio(Ptloss, self.gamma)
                 # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
                 ish = np.abs(self._M - Msh).argmin()
-                self._M[ish:] = mf.MachSub_Sigma(self.AxoAc[ish:] * mf.Sigma_Mach(Ms) / self.AsoAc)
+                self._M[ish:] = mf.MachSub_Sigma(
+                    self.AxoAc[ish:] * mf.Sigma_Mach(Ms, self.gamma) / self.AsoAc, gamma=self.gamma
+                )
                 self._Pt[ish:] = Ptloss
-            self._Ps = self._Pt / Is.PtPs_Mach(self._M)
+            self._Ps = self._Pt / Is.PtPs_Mach(self._M, gamma=self.gamma)
 
     def Mach(self):
         return self._M
-- 
2.43.0


From a877babcb7d1f76eb7153c96dd043a7ac95f681c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 08/24] fix: Riemann solution sampling missed the tail of a
 right expansion and picked gamma at x=0 instead of the contact

---
 aerokit/instance/riemann.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 4086611..138e30e 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -118,14 +118,14 @@ class riemann_pb:
             rho[i] = self._qL.rho_through_isentropic(p[i])
         # if right expansion
         if self._pstar < self._qR.p:
-            i = np.logical_and((xot > self._waves[3]), (xot < self._waves[4]))
+            i = np.logical_and((xot >= self._waves[3]), (xot < self._waves[4]))
             gam = self._qR._gamma
             gp1 = gam + 1.0
             gm1 = gam - 1.0
             u[i] = gm1 / gp1 * (self._qR.u + 2.0 / gm1 * (-self._qR.asound() + xot[i]))
             p[i] = self._qR.p * ((xot[i] - u[i]) / self._qR.asound()) ** (2.0 * gam / gm1)
             rho[i] = self._qR.rho_through_isentropic(p[i])
-        return uq.unsteady_state(rho, u, p, np.where(xot < 0.0, self._qL._gamma, self._qR._gamma))
+        return uq.unsteady_state(rho, u, p, np.where(xot < self._ustar, self._qL._gamma, self._qR._gamma))
 
     def left_fastest(self):
         return self._waves[0]
-- 
2.43.0


From 4dbbc7cbc207cdd982aa0fed7b3ba35550920303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:48 +0000
Subject: [PATCH 09/24] fix: unsteady inflow wave velocities were never defined

---
 aerokit/instance/unsteady_inflow.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aerokit/instance/unsteady_inflow.py b/aerokit/instance/unsteady_inflow.py
index 4d4f8df..3c37f81 100644
--- a/aerokit/instance/unsteady_inflow.py
+++ b/aerokit/instance/unsteady_inflow.py
@@ -96,13 +96,19 @@ class inflow_pb:
 
         self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10)
         self._ustar = self._qR.u + self._delta_uR(self._pstar)
+        # waves (as in a Riemann problem), the contact is the first wave of the inflow
+        self._waves = 5 * [self._ustar]
         # finalize qstarR state
         if self._pstar > self._qR.p:
             _rho = self._qR.rho_through_shock(self._pstar)
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
+            self._waves[3] = (self._qR.massflow() - _rho * self._ustar) / (self._qR.rho - _rho)
+            self._waves[4] = self._waves[3]
         else:
             _rho = self._qR.rho_through_isentropic(self._pstar)
             self._qstarR = uq.unsteady_state(rho=_rho, u=self._ustar, p=self._pstar, gamma=self._qR._gamma)
+            self._waves[3] = self._ustar + self._qstarR.asound()
+            self._waves[4] = self._qR.u + self._qR.asound()
         #
         self._qstarL = self._qR.copy()
         self._qstarL.compute_from_pt_rtt_u(pt0, rtt0, self._ustar)
-- 
2.43.0


From f745b80fadcfd9e6c8f452bc86afe245edc0d86f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:33 +0000
Subject: [PATCH 10/24] fix: shock angle of a negative deflection started from
 below the Mach angle

---
 aerokit/aero/ShockWave.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index b88e2d8..2b1c41b 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -235,7 +235,7 @@ def sigma_Mach_deflection(Mach, deflection, init=None, gamma=defg._gamma):
 
     """
     if init is None:
-        sig0 = degree.asin(1.0 / Mach) + deflection
+        sig0 = degree.asin(1.0 / Mach) + np.abs(deflection)
     else:
         sig0 = init
 
-- 
2.43.0


From 89de5e7cee74392e86999d794e30d444f5d586da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 11/24] fix: fuel-air ratio used the pressure loss coefficient
 of the combustor instead of its efficiency

---
 aerokit/engine/gasgenerator.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index e315101..5bebe30 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -56,6 +56,7 @@ class base():
         self.r_cold    = r_cold
         self.r_hot     = r_hot
         self.xi_cc     = xi_cc
+        self.eta_cc    = eta_cc
         self.xi_inlet  = xi_inlet
         self.etapolCHP = etapolCHP
         self.etapolTHP = etapolTHP
@@ -80,7 +81,7 @@ class base():
         self.Pt4 = self.Pt3*self.xi_cc
         gh  = self.gam_hot
         cph = gh*self.r_hot/(gh-1.)
-        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.xi_cc*self.Pci - cph*self.Tt4)
+        self.far = (cph*self.Tt4 - cpc*self.Tt3)/(self.eta_cc*self.Pci - cph*self.Tt4)
         self.Tt45 = self.Tt4 - cpc*(self.Tt3-self.Tt2)/(self.eta_shaft*cph*(1.+self.far))
         #print self.Tt3, self.Pt4, self.Tt45, self.Tt4, self.far
         self.Pt45 = self.Pt4*(self.Tt45/self.Tt4)**(gh/((gh-1.)*self.etapolTHP))
-- 
2.43.0


From ab7992b286f0b2b4044b571b6a11b8a337c43340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 12/24] fix: ideal low pressure turbine work was negative and
 divided twice by gamma-1

---
 aerokit/engine/gasgenerator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/gasgenerator.py b/aerokit/engine/gasgenerator.py
index 5bebe30..0d09c0b 100644
--- a/aerokit/engine/gasgenerator.py
+++ b/aerokit/engine/gasgenerator.py
@@ -92,7 +92,7 @@ class base():
     def Wsp_TBP_ideal(self, P19=None):
         if P19 is None: P19=self.P0
         gogm1 = self.gam_hot/(self.gam_hot-1.)
-        return (1.+self.far)*gogm1*self.r_hot/(self.gam_hot-1.)*self.Tt45*((P19/self.Pt45)**(1./gogm1)-1.)
+        return (1.+self.far)*gogm1*self.r_hot*self.Tt45*(1.-(P19/self.Pt45)**(1./gogm1))
 
     def thermal_efficiency(self):
         return self.Wsp_TBP_ideal()/self.Wsp_cc()
-- 
2.43.0


From 19f236132c283dacbeab75c4d20906770d3c72e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 13/24] fix: turbofan_adapt did not forward its nozzle pressure
 loss

---
 aerokit/engine/turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/turbofan.py b/aerokit/engine/turbofan.py
index 4b90a7a..766897b 100644
--- a/aerokit/engine/turbofan.py
+++ b/aerokit/engine/turbofan.py
@@ -51,7 +51,7 @@ class turbofan_adapt(tj.turbojet_opt):
                                  xi_inlet=1., xi_nozzle=1., xi_cc=1., eta_cc=1., Pci=42.8e6,
                                  etapolCHP=1., etapolTHP=1., etapolTBP=1., etapolfan=1., eta_shaft=1.):
         tj.turbojet_opt.__init__(self, OPR, Tt4, gam_cold=gam_cold, gam_hot=gam_hot, r_cold=r_cold, r_hot=r_hot,
-                                 xi_inlet=xi_inlet, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
+                                 xi_inlet=xi_inlet, xi_nozzle=xi_nozzle, xi_cc=xi_cc, eta_cc=eta_cc, Pci=Pci,
                                  etapolCHP=etapolCHP, etapolTHP=etapolTHP, eta_shaft=eta_shaft)
         self.bpr            = bpr
         self.etapolfan      = etapolfan
-- 
2.43.0


From 019ca6cef33b220e071f1d6d1bb91ee5f007a601 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 14/24] fix: fan compression used the compressor efficiency

---
 aerokit/engine/Cycle_Turbofan.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 61eb5b0..53468ee 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -178,7 +178,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
     def stage_13(self):
         if self.current_stage_corps >= 2:
             self.m_f = self.m * self.lambda_ / (self.lambda_ + 1.)
-            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_c)
+            self.Tt13 = self.Tt2 * self.pi_f**(self.g.gmusg / self.eta_f)
             self.Pt13 = self.Pt2 * self.pi_f
             self.wu_f = self.m_f * self.g.get_cp() * (self.Tt13 - self.Tt2)
             self.current_stage_fan = 13
-- 
2.43.0


From 04b05155e171af4f05fd2c403c6daf5f9811cc7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 15/24] fix: specific fuel consumption was ten times too high
 for its unit (g/kN/s)

---
 aerokit/engine/Cycle_Turbofan.py        | 4 ++--
 aerokit/engine/propu_be.py              | 2 +-
 aerokit/engine/propu_be_double_corps.py | 4 ++--
 3 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/aerokit/engine/Cycle_Turbofan.py b/aerokit/engine/Cycle_Turbofan.py
index 53468ee..7233435 100644
--- a/aerokit/engine/Cycle_Turbofan.py
+++ b/aerokit/engine/Cycle_Turbofan.py
@@ -214,7 +214,7 @@ class cycle_taux_fan_fixe(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
@@ -320,7 +320,7 @@ class cycle_taux_fan_calcule(cycle_1_to_4):
         if (self.current_stage_corps == 9 and self.current_stage_fan == 19):
             self.F = self.F_f + self.F_c
             self.F_spe = self.F / self.m
-            self.mk_spe = (self.m_k / self.F)*10e6
+            self.mk_spe = (self.m_k / self.F)*1e6
             Qf = self.g_fuel.P_k * self.m_k
             delta_E = .5*(self.m_c*((1. + self.alpha)*self.V9**2 - self.V0**2) + self.m_f*(self.V19**2 - self.V0**2))
             self.eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be.py b/aerokit/engine/propu_be.py
index 950afb9..99ad35d 100644
--- a/aerokit/engine/propu_be.py
+++ b/aerokit/engine/propu_be.py
@@ -74,7 +74,7 @@ def calculs(lambda_, pi_c, Tt4, pi_f, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
diff --git a/aerokit/engine/propu_be_double_corps.py b/aerokit/engine/propu_be_double_corps.py
index 2296e5a..1cda39a 100644
--- a/aerokit/engine/propu_be_double_corps.py
+++ b/aerokit/engine/propu_be_double_corps.py
@@ -90,7 +90,7 @@ def calculs(lambda_, pi_c, Tt4, m, taux_meca):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = .5*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
@@ -217,7 +217,7 @@ def calculs_tau_optimum(lambda_, pi_c, Tt4, m):
     # Calculs performances
     F = Fc + Ff
     Fspe = F/m
-    mk_spe = (m_k / F)*10e6
+    mk_spe = (m_k / F)*1e6
     Qf = P_k * m_k
     delta_E = (1/2)*(m_c*((1 + alpha)*V9**2 - V0**2) + m_f*(V19**2 - V0**2))
     eta_th = delta_E / Qf
-- 
2.43.0


From 6c3e446c80136a743a0c9bec695bafb12aee8844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 16/24] fix: RKF45 stopped before xStop after a rejected last
 step and could step past it

---
 aerokit/common/_ode.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/aerokit/common/_ode.py b/aerokit/common/_ode.py
index 3c921d2..8317ade 100644
--- a/aerokit/common/_ode.py
+++ b/aerokit/common/_ode.py
@@ -66,6 +66,10 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
     X.append(x)
     Y.append(y)
     stopper = 0  # Integration stopper(0 = off, 1 = on)
+    # Check if the first step is also the last one
+    if (h > 0.0) == ((x + h) >= xStop):
+        h = xStop - x
+        stopper = 1
     for i in range(10000):
         dy, e = _rkf45(F, x, y, h)
         # Accept integration step if error e is within tolerance
@@ -86,5 +90,7 @@ def RKF45(F, x, y, xStop, h, tol=1.0e-6):
         if (h > 0.0) == ((x + hNext) >= xStop):
             hNext = xStop - x
             stopper = 1
+        else:
+            stopper = 0
         h = hNext
     return np.array(X), np.array(Y)
-- 
2.43.0


From 4181133dcd722af991488b04e321f285d280a572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 17/24] fix: operators were not computed again after a change
 of base state or boundary conditions

---
 aerokit/stability/_base.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/aerokit/stability/_base.py b/aerokit/stability/_base.py
index 712e5f7..049cf34 100644
--- a/aerokit/stability/_base.py
+++ b/aerokit/stability/_base.py
@@ -27,6 +27,7 @@ class LinOperator:
     def set_basestate(self, state: Any):
         """set base state as it will be used by derived class"""
         self._basestate = state
+        self._B = None  # operators must be computed again
 
     def _check_BC(self, bc: Any):
         """BC should be a dict with at least a 'type' key"""
@@ -37,6 +38,7 @@ class LinOperator:
 
     def set_BC(self, Ltype: Any, Rtype: Any):
         self._BC_type = [self._check_BC(Ltype), self._check_BC(Rtype)]
+        self._B = None  # operators must be computed again
 
     def check_basestate(self):
         return self._basestate is not None
-- 
2.43.0


From 595d8212dfed36ea200de72f8e2631a7670a324b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:17 +0000
Subject: [PATCH 18/24] fix: boundary condition dictionaries were consumed when
 operators were computed

---
 aerokit/stability/Euler.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/stability/Euler.py b/aerokit/stability/Euler.py
index d6f5428..083e1f5 100644
--- a/aerokit/stability/Euler.py
+++ b/aerokit/stability/Euler.py
@@ -75,10 +75,10 @@ class Euler1D(LinOperator):
             assert self._BC_type[1]["type"] == "per"
             self.setBC_per()
         else:
-            bcdict = self._BC_type[0]
+            bcdict = dict(self._BC_type[0])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](0, 0, **bcdict)
-            bcdict = self._BC_type[1]
+            bcdict = dict(self._BC_type[1])
             bctype = bcdict.pop('type')
             self._BC_dict[bctype](n - 1, n - 1, **bcdict)
 
-- 
2.43.0


From e91e59f0721704aad5fe13980e519bd58c6b457d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:30 +0000
Subject: [PATCH 19/24] fix: nozzle shock could be placed upstream of its
 position (throat or convergent station)

---
 aerokit/instance/nozzle.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/aerokit/instance/nozzle.py b/aerokit/instance/nozzle.py
index 8c7c1f2..3b1be4e 100644
--- a/aerokit/instance/nozzle.py
+++ b/aerokit/instance/nozzle.py
@@ -199,8 +199,8 @@ class nozzle:
                 Ms = Ms_from_AsAc_NPR(self.AsoAc, NPR, self.gamma)
                 Ptloss = Is.PtPs_Mach(Ms, self.gamma) / NPR
                 Msh = sw.Mn_Pi_ratio(Ptloss, self.gamma)
-                # redefine curves starting from 'ish' index (closest value of Msh in supersonic flow)
-                ish = np.abs(self._M - Msh).argmin()
+                # redefine curves starting from 'ish' index (first station behind Msh in supersonic flow, exit at least)
+                ish = self.ithroat + 1 + np.argmax(np.append(self._M[self.ithroat + 1 : -1] >= Msh, True))
                 self._M[ish:] = mf.MachSub_Sigma(
                     self.AxoAc[ish:] * mf.Sigma_Mach(Ms, self.gamma) / self.AsoAc, gamma=self.gamma
                 )
-- 
2.43.0


From 3187e3560a2da15caff54e9ff1c6877c1727b04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:19 +0000
Subject: [PATCH 20/24] fix: axial Mach number expression ignored the solver's
 name of the axial velocity

---
 aerokit/common/extendvar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/aerokit/common/extendvar.py b/aerokit/common/extendvar.py
index a1ca824..f424282 100644
--- a/aerokit/common/extendvar.py
+++ b/aerokit/common/extendvar.py
@@ -34,6 +34,6 @@ def expressions_from_rhopv():
     extdico['V']    = 'mag('+dico['V']+')'
     extdico['a' ]   = _a
     extdico['Mach'] = 'mag('+dico['V']+')/'+_a
-    extdico['Mx']   = 'U_X/'+_a
+    extdico['Mx']   = dico['Vx']+'/'+_a
     extdico['alpha'] = 'atan('+dico['Vy']+'/'+dico['Vx']+')*180/acos(-1)'
     return extdico
\ No newline at end of file
-- 
2.43.0


From 51e795c4619bff50ec603b573e65d02d46127474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:07 +0000
Subject: [PATCH 21/24] fix: Mach from section ratio could leave the branch of
 the given Mach number or stall

---
 aerokit/aero/MassFlow.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/aerokit/aero/MassFlow.py b/aerokit/aero/MassFlow.py
index 2cf4f28..67bd915 100644
--- a/aerokit/aero/MassFlow.py
+++ b/aerokit/aero/MassFlow.py
@@ -36,10 +36,11 @@ def Sigma_Mach(Mach, gamma=defg._gamma):
 
 
 def Mach_Sigma(sigma, Mach=2.0, gamma=defg._gamma):
-    if np.size(Mach) != 1:
+    # Mach selects the branch; started from Mach itself, iterations may leave the branch or stall
+    if np.ndim(Mach) > 0:
         Minit = np.where(Mach <= 1.0, __MachSub_sigma(sigma, gamma), __MachSup_sigma(sigma, gamma))
     else:
-        Minit = Mach
+        Minit = __MachSub_sigma(sigma, gamma) if Mach <= 1.0 else __MachSup_sigma(sigma, gamma)
 
     def sigma_of_mach(m):
         return Sigma_Mach(m, gamma) - sigma
-- 
2.43.0


From 03e2e718e6cf8ce3d9b495eeb8e62163cacb02cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:53 +0000
Subject: [PATCH 22/24] fix: conical shock searches could step below the Mach
 angle and never end

---
 aerokit/aero/ShockWave.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/aerokit/aero/ShockWave.py b/aerokit/aero/ShockWave.py
index 2b1c41b..76f2139 100644
--- a/aerokit/aero/ShockWave.py
+++ b/aerokit/aero/ShockWave.py
@@ -403,9 +403,12 @@ def conical_sigma_Mach_walldeflection(Mach, deflection, gamma=defg._gamma):
 
     def local_def(sig):
         """internal wrapping function to iterative solve"""
+        if sig <= mach_angle:  # no shock: linear continuation, for iterations only
+            return sig - mach_angle
         return conical_deflection_Mach_sigma(Mach, sig, gamma)
 
-    return ITS.secant_solve(local_def, deflection, degree.asin(1.0 / Mach) + deflection)
+    mach_angle = degree.asin(1.0 / Mach)
+    return ITS.secant_solve(local_def, deflection, mach_angle + 0.5 * deflection)
 
 
 def conical_Mach_walldeflection_sigma(deflection, sigma, gamma=defg._gamma):
@@ -424,8 +427,11 @@ def conical_Mach_walldeflection_sigma(deflection, sigma, gamma=defg._gamma):
     def local_def(mach):
         """internal wrapping function to iterative solve"""
         # print("local mach sigma", mach, sigma)
+        if mach <= mach_min:  # no shock: linear continuation, for iterations only
+            return mach - mach_min
         return conical_deflection_Mach_sigma(mach, sigma, gamma)
 
+    mach_min = 1.0 / degree.sin(sigma)
     return ITS.secant_solve(local_def, deflection, 1.0 / degree.sin(sigma - 0.5 * deflection))
 
 
-- 
2.43.0


From f77c0c12c1b38f32a2fe4e3143ded7e11f18592e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:14:08 +0000
Subject: [PATCH 23/24] fix: Riemann solver left positive pressures and failed
 on valid states (strong shocks, near vacuum)

---
 aerokit/instance/riemann.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/aerokit/instance/riemann.py b/aerokit/instance/riemann.py
index 138e30e..a4b3fb6 100644
--- a/aerokit/instance/riemann.py
+++ b/aerokit/instance/riemann.py
@@ -171,17 +171,19 @@ class riemann_pb:
         """
         gam = 0.5 * (self._qL._gamma + self._qR._gamma)
         gmusd = 0.5 * (gam - 1.0)
+        # velocity of the expansion of each side to vacuum
+        umaxL = 2.0 * self._qL.asound() / (self._qL._gamma - 1.0)
+        umaxR = 2.0 * self._qR.asound() / (self._qR._gamma - 1.0)
         return (
-            (self._qL.asound() + self._qR.asound() - gmusd * (self._qR.u - self._qL.u))
-            / (
-                self._qL.asound() / self._qL.p ** (gmusd / gam)
-                + self._qR.asound() / self._qR.p ** (gmusd / gam)
-            )
+            (umaxL + umaxR - (self._qR.u - self._qL.u))
+            / (umaxL / self._qL.p ** (gmusd / gam) + umaxR / self._qR.p ** (gmusd / gam))
         ) ** (gam / gmusd)
 
     def _solve(self):
         def du(p):
             return self._delta_uL(p) + self._delta_uR(p) + self._qR.u - self._qL.u
 
-        self._pstar = newton(du, self._pstar_estimate_expansion(), rtol=1e-10)
+        # solve for the logarithm of pressure, which may take any value
+        logp = newton(lambda logp: du(np.exp(logp)), np.log(self._pstar_estimate_expansion()), rtol=1e-10)
+        self._pstar = np.exp(logp)
         return
-- 
2.43.0


From b6dff569779269596edeb74842e3ce0b191464b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:47:02 +0000
Subject: [PATCH 24/24] fix: inflow problem failed silently for strong total
 pressure ratios

The total pressure is singular at the velocity limit of the total temperature, and a Newton step over it (total to
static pressure ratios over 10) ended far from the solution without any error. The balance of total enthalpy has the same root
and is smooth for all velocities.
---
 aerokit/instance/unsteady_inflow.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/aerokit/instance/unsteady_inflow.py b/aerokit/instance/unsteady_inflow.py
index 3c37f81..65d42d2 100644
--- a/aerokit/instance/unsteady_inflow.py
+++ b/aerokit/instance/unsteady_inflow.py
@@ -77,11 +77,12 @@ class inflow_pb:
             _delta = self._qR.delta_u_expansion(p)
         return _delta
 
-    def _pt0_from_pstar_rtt0(self, p, rtt0):
+    def _enthalpy_balance(self, p, pt0, rtt0):
+        """(h + u^2/2)/ht - 1 for p as static pressure; smooth whatever the velocity, even above its limit"""
         ustar = self._qR.u + self._delta_uR(p)
         gam = self._qR._gamma
         gsgmu = gam / (gam - 1.0)
-        return p * (1.0 + 0.5 * ustar ** 2 / (gsgmu * rtt0 - 0.5 * ustar ** 2)) ** gsgmu
+        return (p / pt0) ** (1.0 / gsgmu) + 0.5 * ustar ** 2 / (gsgmu * rtt0) - 1.0
 
     def _pstar_estimate_expansion(self, pt0):
         """exact solution for 2 expansion waves (for uniform gamma only)
@@ -91,10 +92,10 @@ class inflow_pb:
         return np.sqrt(self._qR.p * pt0)
 
     def solve_with_pt0_rtt0(self, pt0, rtt0):
-        def dpt(p):
-            return self._pt0_from_pstar_rtt0(p, rtt0) - pt0
+        def dht(p):
+            return self._enthalpy_balance(p, pt0, rtt0)
 
-        self._pstar = fsolve(dpt, self._pstar_estimate_expansion(pt0), xtol=1e-10)
+        self._pstar = fsolve(dht, self._pstar_estimate_expansion(pt0), xtol=1e-10)
         self._ustar = self._qR.u + self._delta_uR(self._pstar)
         # waves (as in a Riemann problem), the contact is the first wave of the inflow
         self._waves = 5 * [self._ustar]
-- 
2.43.0

