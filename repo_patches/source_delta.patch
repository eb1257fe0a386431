From 41bf72b0c0a98b9735f55cf4816964b9fd0b0827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 01/50] fix: transfer impedance with direction "both" couples
 in both directions

---
 python/src/dispersive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index ab82ff2..782882d 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -191,7 +191,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -204,7 +204,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[:, j, i] -= np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
@@ -263,7 +263,7 @@ class TransferImpedance(Dispersive):
         for i in range_out:
             for j in range_in:
 
-                if (direction == ("in" or "both")):
+                if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
                     if (residues.size != 0 and poles.size != 0):
@@ -276,7 +276,7 @@ class TransferImpedance(Dispersive):
                         )
                         self.q3[index, j, i] = -np.exp(poles * self.dt)
                         
-                if (direction == ("out" or "both")):
+                if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
                     if (residues.size != 0 and poles.size != 0):
-- 
2.43.0


From d76370b2dad0bcf45bc135b5d9a2a50eb3f2fdd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 02/50] fix: transfer impedance poles decay with +exp(p dt) in
 the recursive convolution

---
 python/src/dispersive.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 782882d..d966a25 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -202,7 +202,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[:, j, i] -= np.exp(poles * self.dt)
+                        self.q3[:, j, i] += np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
@@ -215,7 +215,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[:, i, j] -= np.exp(poles * self.dt)
+                        self.q3[:, i, j] += np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
@@ -274,7 +274,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, j, i] = -np.exp(poles * self.dt)
+                        self.q3[index, j, i] = np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
@@ -287,7 +287,7 @@ class TransferImpedance(Dispersive):
                             1 / (poles * self.dt)
                             + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
                         )
-                        self.q3[index, i, j] = -np.exp(poles * self.dt)
+                        self.q3[index, i, j] = np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
-- 
2.43.0


From 216b2569499b92fab370c50d43fa686fd9e12898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 03/50] fix: keep one recursive-convolution state per conductor
 pair

---
 python/src/dispersive.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index d966a25..d60efca 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -10,6 +10,7 @@ class Dispersive():
         self.phi = np.zeros(
             shape=(
                 nx,
+                number_of_conductors,
                 number_of_conductors
             ), dtype = np.ndarray
         )
@@ -76,14 +77,14 @@ class Dispersive():
 
     def update_q3_phi_term(self):
         for kz in range(0, self.nx):
-            self.q3_phi_term[kz] = self.v_sum(self.q3[kz].dot(self.phi[kz]))
+            self.q3_phi_term[kz] = self.v_sum(np.sum(self.q3[kz]*self.phi[kz], axis=1))
         
     def update_phi(self, i_prev, i_now):
         for kz in range(0, self.nx):
-            self.phi[kz, :] = (
-                self.q1[kz, :, :].dot(i_now[:, kz])+\
-                self.q2[kz, :, :].dot(i_prev[:, kz])+\
-                self.q3[kz, :,:].dot(self.phi[kz, :])
+            self.phi[kz] = (
+                self.q1[kz]*i_now[:, kz]+\
+                self.q2[kz]*i_prev[:, kz]+\
+                self.q3[kz]*self.phi[kz]
             )
 
         
-- 
2.43.0


From ae30e3f4e285f9a9db4e38dd14fd45791789f1bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 04/50] fix: parser adds every lumped element of a line, not
 only the first

---
 python/src/jsonParser.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index f392e95..3470789 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -264,18 +264,18 @@ class Parser:
         if len(self._lumped) == 0:
             return
         
-        lumped  = [l for l in self._lumped if l["cable"] == line.name][0]
-        conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
-        
-        try:
-            assert 'model' in list(conn.keys())
-        except:
-            raise Exception('No model has been defined for lumped impedance')    
-        
-        position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
-        conductor = lumped["conductor"]
-       
-        line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
+        for lumped in [l for l in self._lumped if l["cable"] == line.name]:
+            conn = [c for c in self._connectors if c["materialId"] == lumped["materialId"]][0]
+
+            try:
+                assert 'model' in list(conn.keys())
+            except:
+                raise Exception('No model has been defined for lumped impedance')    
+
+            position = [self._coordinates[coord] for coord in lumped["coordIds"]][0]
+            conductor = lumped["conductor"]
+
+            line.add_dispersive_connector(np.array([position]), conductor, conn["model"])
                 
     
     def _addConnectorsResistance(self, line):
-- 
2.43.0


From c5cd0f17262713748c2f75b20515ffa8c02c6cce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 05/50] fix: parser pairs termination nodes with their own
 connector and source

---
 python/src/jsonParser.py | 34 +++++++++++++++++-----------------
 1 file changed, 17 insertions(+), 17 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 3470789..bccb7b2 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -492,33 +492,33 @@ class Parser:
                                                             c["sources"][0])
                     
                     elif len(c["nodes"]) > 1:
-                        for node, conductor in zip(c["nodes"], c["conductors"]):
-                            if (c["connectors"][conductor]["connectorType"] == "MultiwireConnector"):
+                        for node, conductor, connector, source in zip(c["nodes"], c["conductors"], c["connectors"], c["sources"]):
+                            if (connector["connectorType"] == "MultiwireConnector"):
                                 
-                                if "resistanceVector" in c["connectors"][conductor].keys():
-                                    R = c["connectors"][conductor]["resistanceVector"][conductor]
+                                if "resistanceVector" in connector.keys():
+                                    R = connector["resistanceVector"][conductor]
                                 else:
                                     R = 0
-                                if "capacitanceVector" in c["connectors"][conductor].keys():
-                                    C = c["connectors"][conductor]["capacitanceVector"][conductor]
+                                if "capacitanceVector" in connector.keys():
+                                    C = connector["capacitanceVector"][conductor]
                                 else:
                                     C = 1e22
-                                if "inductanceVector" in c["connectors"][conductor].keys():
-                                    L = c["connectors"][conductor]["inductanceVector"][conductor]
+                                if "inductanceVector" in connector.keys():
+                                    L = connector["inductanceVector"][conductor]
                                 else:
                                     L = 0
 
-                                if (c["connectors"][conductor]["connections"][conductor] == "Conn_short"):
+                                if (connector["connections"][conductor] == "Conn_short"):
                                     network.short_to_ground(node)
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_R" or 
-                                      c["connectors"][conductor]["connections"][conductor] == "Conn_sRLC"):
-                                    network.connect_to_ground_R(node, R, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_LCpRs"):
-                                    network.connect_to_ground_LCpRs(node, R ,L, C, c["sources"][conductor])
-                                elif (c["connectors"][conductor]["connections"][conductor] == "Conn_C"):
-                                    network.connect_to_ground_C(node, C, c["sources"][conductor])
+                                elif (connector["connections"][conductor] == "Conn_R" or 
+                                      connector["connections"][conductor] == "Conn_sRLC"):
+                                    network.connect_to_ground_R(node, R, source)
+                                elif (connector["connections"][conductor] == "Conn_LCpRs"):
+                                    network.connect_to_ground_LCpRs(node, R ,L, C, source)
+                                elif (connector["connections"][conductor] == "Conn_C"):
+                                    network.connect_to_ground_C(node, C, source)
                                 # if R != 0:
-                                #     network.connect_to_ground(node, R, c["sources"][conductor])
+                                #     network.connect_to_ground(node, R, source)
                                 # else:
                                 #     network.short_to_ground(node)
 
-- 
2.43.0


From 360d8644d6ef3312f19e37a92a68281a32622ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 06/50] fix: non-uniform ndiv indexes the cells of each segment
 after those of the previous ones

---
 python/src/mtl.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 21d34eb..8da685e 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -111,10 +111,11 @@ class MTL():
         
         for i, divisions in enumerate(ndiv):
             du = (node_positions[i+1]-node_positions[i])/divisions
+            first = int(np.sum(ndiv[:i]))
             for k in range(divisions):
-                self.u[i*divisions + k]  = node_positions[i]+k*du
-                self.du[i*divisions + k] = du
-                self.du_norm[i*divisions + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
+                self.u[first + k]  = node_positions[i]+k*du
+                self.du[first + k] = du
+                self.du_norm[first + k] = np.linalg.norm(du)*np.eye(self.number_of_conductors)
         self.u[-1] = node_positions[-1]
 
         self.time = 0.0
-- 
2.43.0


From c5640e2f137bb4779496c070912cc029d4d3fe3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 07/50] fix: set_time_step propagates the time step to
 connectors and probes

---
 python/src/mtl.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 8da685e..74107fd 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -291,6 +291,9 @@ class MTL():
 
     def set_time_step(self, NDT, final_time):
         self.dt = final_time / NDT
+        self.connectors.dt = self.dt
+        for p in self.probes:
+            p.dt = self.dt
 
     def get_time_range(self, final_time):
         return np.arange(0, np.floor(final_time / self.dt))
-- 
2.43.0


From 1d0b8cfcfc8e5ca245321067411171fa0305a8d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 08/50] fix: set_resistance_in_region sets the selected
 conductor and its total resistance

---
 python/src/mtl.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 74107fd..c842c4a 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -386,15 +386,12 @@ class MTL():
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
-        if (index1 == self.r.shape[0]):
-            index1 -= 1
-        if (index2 == self.r.shape[0]):
-            index2 -= 1
-        
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        if (index1 == index2):
+            index1 = min(index1, self.r.shape[0] - 1)
+            index2 = index1 + 1
+
+        length = np.sum(np.linalg.norm(self.du[index1:index2], axis=1))
+        self.r[index1:index2, conductor, conductor] = resistance/length
             
         self.update_lr_terms()
 
@@ -975,10 +972,12 @@ class MTLD:
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
-        if (index1 != index2):
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.r[index1:index2+1][conductor][conductor] = resistance/np.linalg.norm(self.du[index1])
+        if (index1 == index2):
+            index1 = min(index1, self.r.shape[0] - 1)
+            index2 = index1 + 1
+
+        length = np.sum(np.linalg.norm(self.du[index1:index2], axis=1))
+        self.r[index1:index2, conductor, conductor] = resistance/length
             
         self.update_lr_terms()
 
-- 
2.43.0


From 3a90b5fa5b85aae7862e6bbaba6581c60c70b90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 09/50] fix: add_conductance_in_region sets the selected
 conductor and its total conductance

---
 python/src/mtl.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index c842c4a..d3b8a5b 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -406,12 +406,11 @@ class MTL():
         if (type(end) == float):
             end = np.array([0.0,0.0,end])
 
-        index1 = np.argmin(np.abs(self.u - begin))
-        index2 = np.argmin(np.abs(self.u - end))
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
+        index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - begin)))
+        index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
+        du_norm = np.linalg.norm(self.du, axis=1)
+        node_length = 0.5*(np.append(du_norm, 0.0) + np.append(0.0, du_norm))
+        self.g[index1:index2+1, conductor, conductor] = conductance/np.sum(node_length[index1:index2+1])
             
         self.update_cg_terms()
 
@@ -992,10 +991,9 @@ class MTLD:
         index1 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
         index2 = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
         
-        if (index1 != index2):
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.u[index2]-self.u[index1])
-        else:
-            self.g[index1:index2+1][conductor][conductor] = conductance/np.linalg.norm(self.du[index1])
+        du_norm = np.linalg.norm(self.du, axis=1)
+        node_length = 0.5*(np.append(du_norm, 0.0) + np.append(0.0, du_norm))
+        self.g[index1:index2+1, conductor, conductor] = conductance/np.sum(node_length[index1:index2+1])
             
         self.update_cg_terms()
 
-- 
2.43.0


From 094398142f3f9685189816754a7416d3e0b308af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 10/50] fix: advance_current keeps a copy of the previous
 current for the recursive convolution

---
 python/src/mtl.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index d3b8a5b..d084725 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -423,7 +423,7 @@ class MTL():
         
     def advance_current(self):
         self.connectors.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
@@ -917,7 +917,7 @@ class MTLD:
         
     def advance_current(self):
         self.transfer_impedance.update_q3_phi_term()
-        i_prev = self.i
+        i_prev = self.i.copy()
         self.i[:, :] = np.einsum('...ij,...j->...i',self.i_term[:,:,:],self.i.T[:,:]).T-\
                        np.einsum('...ij,...j->...i',self.v_diff[:,:,:],(self.v[:, 1:] - self.v[:, :-1]
                                             + (self.e_T_now[:, 1:] - self.e_T_now[:, :-1])
-- 
2.43.0


From 5a1899a0c5539189b6e68baae4618f9405ee6cf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 11/50] fix: sample the longitudinal incident field at the cell
 centres

---
 python/src/mtl.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index d084725..2cde41a 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -490,8 +490,8 @@ class MTL():
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
@@ -863,8 +863,8 @@ class MTLD:
                 xi, yi, zi = distances[n, nz, :]
                 l = np.abs(np.array([xi,yi,zi]))
                 l /=np.linalg.norm(l)
-                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi - 0.5*self.du[nz,0]).subs(y, y0 + yi- 0.5*self.du[nz,1]).subs(z, z0 + zi- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
-                                                 eL.subs(x,x0- 0.5*self.du[nz,0]).subs(y, y0- 0.5*self.du[nz,1]).subs(z, z0- 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
+                self.e_L[n, nz] = sp.lambdify(t, eL.subs(x, x0 + xi + 0.5*self.du[nz,0]).subs(y, y0 + yi+ 0.5*self.du[nz,1]).subs(z, z0 + zi+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])) -\
+                                                 eL.subs(x,x0+ 0.5*self.du[nz,0]).subs(y, y0+ 0.5*self.du[nz,1]).subs(z, z0+ 0.5*self.du[nz,2]).subs(v,np.max(vu[nz])))
 
                 self.e_T[n,nz] = sp.lambdify(t,
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
-- 
2.43.0


From a78536d602f95a32faa5b6a5abb35538ba49714d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 12/50] fix: transverse incident field at the last node is
 sampled at the last node

---
 python/src/mtl.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 2cde41a..203e8b5 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -497,6 +497,7 @@ class MTL():
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
                         l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
+            x0, y0, z0 = self.u[-1,:]
             xi, yi, zi = distances[n, -1, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
@@ -870,6 +871,7 @@ class MTLD:
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
                         l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
+            x0, y0, z0 = self.u[-1,:]
             xi, yi, zi = distances[n, -1, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
-- 
2.43.0


From 4bfe5e6766c701a4418db6c55985d93af8d64ef0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 13/50] fix: port probes use the node positions u

---
 python/src/mtl.py    | 8 ++++----
 python/src/probes.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 203e8b5..c10ee85 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -520,12 +520,12 @@ class MTL():
 
     def add_port_probe(self, terminal):
         if terminal == 0:
-            x0 = self.z[0]
-            x1 = self.z[1]
+            x0 = self.u[0]
+            x1 = self.u[1]
             z0 = self.zs
         if terminal == 1:
-            x0 = self.z[-2]
-            x1 = self.z[-1]
+            x0 = self.u[-2]
+            x1 = self.u[-1]
             z0 = self.zl
 
         v0 = self.add_probe(position=x0,          probe_type='voltage')
diff --git a/python/src/probes.py b/python/src/probes.py
index 5a32943..49ed1f1 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -67,7 +67,7 @@ class Port:
         return f, v_fft, i_fft
     
     def getTerminal(self):
-        if self.v0.position == 0.0:
+        if np.all(self.v0.position == 0.0):
             return "S"  
         else:
             return "L"
-- 
2.43.0


From ea014a2c730bca96d5f39b46519e89b85774d9d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 14/50] fix: create_clean_copy clears the dispersive state

---
 python/src/mtl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index c10ee85..5f1370c 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -544,6 +544,7 @@ class MTL():
         r = deepcopy(self)
         r.v.fill(0.0)
         r.i.fill(0.0)
+        r.connectors.phi.fill(0.0)
         r.time = 0.0
         return r
 
-- 
2.43.0


From 0c50d89433b3e8c68d490b18d74ee96b9d2e4e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 15/50] fix: MTL.run_until recomputes the terminal terms

---
 python/src/mtl.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 5f1370c..ebee507 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -595,6 +595,7 @@ class MTL():
         t = self.get_time_range(finalTime)
         self.update_lr_terms()
         self.update_cg_terms()
+        self.compute_terminal_terms()
 
         for p in self.probes:
             p.resize_frames(len(t), self.number_of_conductors)
-- 
2.43.0


From 3de6019154fd2a6bafa4e59d868b5131146998b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 16/50] fix: MTLD.add_probe rejects positions past the end of
 the line

---
 python/src/mtl.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index ebee507..a44eab2 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -783,19 +783,11 @@ class MTLD:
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        start = self.u[0].copy()
-        
         probe_in_segment = False
-        for du in self.du:
-            end = start + du
+        for start, end in zip(self.u[:-1], self.u[1:]):
             if point_in_line(position, start, end):
                 probe_in_segment = True
-            start += du
 
-        end = start + du
-        if point_in_line(position, start, end):
-            probe_in_segment = True
-        
         # if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
         if not probe_in_segment:
             raise ValueError("Probe position is out of MTL length.")
-- 
2.43.0


From 4a1510bb642f9312619bcd11402f0923091ec59e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 17/50] fix: MTLN.add_networks registers networks as
 add_network does

---
 python/src/mtln.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 8a47219..ad5e9a6 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -35,7 +35,7 @@ class MTLN:
 
     def add_networks(self, nw: list):
         for n in nw:
-            self.networks.append(n)
+            self.add_network(n)
         
     def get_time_range(self, final_time):
         return np.arange(0, np.floor(final_time / self.dt))
-- 
2.43.0


From 000c3ae8f518fdf2765eb309f023311838ae7d4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:42 +0000
Subject: [PATCH 18/50] fix: MTLN.run_until uses one time step for every bundle
 and probe

---
 python/src/mtln.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index ad5e9a6..37e0ab3 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -65,9 +65,12 @@ class MTLN:
         
         if (dt !=0):
             self.dt = dt
-            for bundle in self.bundles.values():
-                bundle.dt = dt
-        
+
+        for bundle in self.bundles.values():
+            bundle.dt = self.dt
+            for p in bundle.probes:
+                p.dt = self.dt
+
         self.compute_nw_v_terms()
         
         t = self.get_time_range(finalTime)
-- 
2.43.0


From 84dc25ecd4771fd6dbd31cf96beae5e57377bf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:49 +0000
Subject: [PATCH 19/50] fix: network nodes include the conductance of the line

---
 python/src/networks.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index abda1d4..6ec5f7c 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -19,6 +19,7 @@ class Network:
         self.number_of_state_vars = 0
         self.connections : Dict[int, Dict[str, int, int, int, str]] = {}
         self.c : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
+        self.g : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
         self.nw_v = np.zeros([0])
         self.nw_i = np.zeros([0])
         self.dx : npt.NDArray[np.float64] = np.ndarray(shape=(0,0))
@@ -101,6 +102,7 @@ class Network:
             side_idx = -1
 
         self.c = linalg.block_diag(self.c, nw_conn[0].c[side_idx])
+        self.g = linalg.block_diag(self.g, nw_conn[0].g[side_idx])
         
         def order_by_conductor(conn):
             return conn[1]
@@ -252,11 +254,11 @@ class Network:
 
     def compute_v_terms(self, dt):
         self.A = np.block([
-            [self.dx.dot(self.c) / dt - self.P1 - self.Q1 / dt     ,  -self.O                            ],
+            [self.dx.dot(self.c / dt + self.g / 2) - self.P1 - self.Q1 / dt     ,  -self.O                            ],
             [-dt * self.N1                                         ,  np.eye(self.M.shape[0]) - dt*self.M]
         ])
         self.B1 = np.block([
-            [self.dx.dot(self.c) / dt - self.Q1 / dt   ,   np.zeros(self.O.shape)],
+            [self.dx.dot(self.c / dt - self.g / 2) - self.Q1 / dt   ,   np.zeros(self.O.shape)],
             [np.zeros(self.N1.shape)                   ,   np.eye(self.M.shape[0])]
         ])
         self.B2 = np.block([
-- 
2.43.0


From 1175956529cbbea89c84e2447ae17ef30d05f994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 20/50] fix: networks find the conductor of each line within
 its level and bundle

---
 python/src/networks.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 6ec5f7c..600b970 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -128,6 +128,7 @@ class Network:
 
         self.connections[connection[0]] = {
             "line_name" : line.name, 
+            "conductor" : connection[1],
             "line_index" : connection[1], 
             "side" : side_idx, 
             "index": index, 
@@ -279,7 +280,11 @@ class NetworkD:
             for node in nw.connections.values():
                 bundle = bundles[node["bundle_name"]]
                 conductors_above = sum(bundle.conductors_in_level[0:level])
-                node["line_index"] += conductors_above
+                for line in bundle.levels[level]:
+                    if line.name == node["line_name"]:
+                        break
+                    conductors_above += line.number_of_conductors
+                node["line_index"] = node["conductor"] + conductors_above
 
     def update_sources(self, time, dt):
         for nw in self.levels.values():
-- 
2.43.0


From 089c2ac235b3c8f2a37269431feda67a1e1e1f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 21/50] fix: networks use the transverse field of the bundles
 at the time of the run

---
 python/src/mtln.py     | 1 +
 python/src/networks.py | 5 +++++
 2 files changed, 6 insertions(+)

diff --git a/python/src/mtln.py b/python/src/mtln.py
index 37e0ab3..b544ba7 100644
--- a/python/src/mtln.py
+++ b/python/src/mtln.py
@@ -43,6 +43,7 @@ class MTLN:
     def compute_nw_v_terms(self):
         for nw in self.networks:
             nw.compute_v_terms(self.dt)
+            nw.update_external_field(self.bundles)
 
     def update_probes(self):
         for bundle in self.bundles.values():
diff --git a/python/src/networks.py b/python/src/networks.py
index 600b970..e5c3915 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -286,6 +286,11 @@ class NetworkD:
                     conductors_above += line.number_of_conductors
                 node["line_index"] = node["conductor"] + conductors_above
 
+    def update_external_field(self, bundles):
+        for nw in self.levels.values():
+            for node in nw.connections.values():
+                nw.e_T[node["index"]] = bundles[node["bundle_name"]].e_T[node["line_index"], node["side"]]
+
     def update_sources(self, time, dt):
         for nw in self.levels.values():
             nw.update_sources(time, dt)
-- 
2.43.0


From ed48f496553fa39cbb9745f51df06a6829e0877b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 22/50] fix: element stamps accumulate on the node they are
 connected to

---
 python/src/networks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index e5c3915..ae1bf8c 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -140,7 +140,7 @@ class Network:
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Ps[index, index] = 1/R
@@ -149,7 +149,7 @@ class Network:
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (R != 0):
-            self.P1[index, index] = -1/R
+            self.P1[index, index] += -1/R
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Ps[index, index] = 1/R
@@ -173,7 +173,7 @@ class Network:
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
         if (C != 0):
-            self.Q1[index, index] = -C
+            self.Q1[index, index] += -C
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Qs[index, index] = C
@@ -181,7 +181,7 @@ class Network:
     def short_to_ground(self, node: int):
         assert(node in self.connections.keys())
         index = self.connections[node]["index"]
-        self.P1[index, index] = -1e10
+        self.P1[index, index] += -1e10
             
     def connect_nodes(self, node1: int, node2: int, R, Vt = 0):
         assert(node1 in self.connections.keys() and node2 in self.connections.keys())
-- 
2.43.0


From f7010fec99fecdb581c9d4bc8065c48392a5bd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 23/50] fix: sign of the LCpRs termination equations

---
 python/src/networks.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index ae1bf8c..5b302e6 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -159,15 +159,15 @@ class Network:
         index = self.connections[node]["index"]
         x_index = self.connections[node]["state_index"]
         assert (R >= 0 and L >= 0 and C<1e22)
-        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[1/(R*C),1/C],[-1/L, 0.0]])
-        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
+        self.M[x_index[0]:x_index[-1]+1,x_index[0]:x_index[-1]+1] = np.array([[-1/(R*C),-1/C],[1/L, 0.0]])
+        self.N1[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
         self.O[index, x_index[0]:x_index[-1]+1] = np.array([[1/R ,0]])
-        self.P1[index, index] = -1/R
+        self.P1[index, index] += -1/R
 
         if (Vt != 0):
             self.v_sources[index]  = Vt
             self.Ps[index, index] = 1/R
-            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[1/(R*C) ,0]])
+            self.Ns[x_index[0]:x_index[-1]+1, index] = np.array([[-1/(R*C) ,0]])
 
     def connect_to_ground_C(self, node: int, C = 0, Vt = 0):
         assert(node in self.connections.keys())
-- 
2.43.0


From 361748333b856b2a250231903efa5aed863966bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:00 +0000
Subject: [PATCH 24/50] fix: trapezoidal_wave and ramp_pulse are not doubled at
 the break points

---
 python/src/waveforms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 1a72e93..9d2e284 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -63,11 +63,11 @@ def trapezoidal_wave(x, A, rise_time, fall_time, f0, D):
     t1, t2, t3 = rise_time, rise_time + cte_time, rise_time + cte_time + fall_time
     
     return A*(mod_time/rise_time)*(mod_time <= t1) + \
-           A*(mod_time >= t1 )*(mod_time <= t2) + \
-           (-A*mod_time/fall_time + A*(rise_time + cte_time + fall_time)/fall_time)*(mod_time >= t2)*(mod_time <= t3)
+           A*(mod_time > t1 )*(mod_time <= t2) + \
+           (-A*mod_time/fall_time + A*(rise_time + cte_time + fall_time)/fall_time)*(mod_time > t2)*(mod_time <= t3)
 
 def ramp_pulse(x, A, x0):
-    return A*(x/x0)*(x <= x0)*(x >= 0) + A*(x >= x0)
+    return A*(x/x0)*(x <= x0)*(x >= 0) + A*(x > x0)
 
 
 def ramp_pulse_sp(A, x0):
-- 
2.43.0


From cdbe83e5b71daf5e5178953c4d5e366432115d36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:39 +0000
Subject: [PATCH 25/50] fix: transfer impedances with several poles act on
 every cell of the bundle

---
 python/src/dispersive.py | 34 ++++++++++++++++++----------------
 1 file changed, 18 insertions(+), 16 deletions(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index d60efca..df4cd44 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -196,27 +196,29 @@ class TransferImpedance(Dispersive):
                     self.d[:, j, i] -= d
                     self.e[:, j, i] -= e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, j, i] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, j, i] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, j, i] += np.exp(poles * self.dt)
+                        for kz in range(self.nx):
+                            self.q1[kz, j, i] = self.q1[kz, j, i] + (residues / poles) * (
+                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
+                            )
+                            self.q2[kz, j, i] = self.q2[kz, j, i] - (residues / poles) * (
+                                1 / (poles * self.dt)
+                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
+                            )
+                            self.q3[kz, j, i] = self.q3[kz, j, i] + np.exp(poles * self.dt)
                         
                 if (direction in ("out", "both")):
                     self.d[:, i, j] -= d
                     self.e[:, i, j] -= e
                     if (residues.size != 0 and poles.size != 0):
-                        self.q1[:, i, j] += (residues / poles) * (
-                            1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-                        )
-                        self.q2[:, i, j] -= (residues / poles) * (
-                            1 / (poles * self.dt)
-                            + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
-                        )
-                        self.q3[:, i, j] += np.exp(poles * self.dt)
+                        for kz in range(self.nx):
+                            self.q1[kz, i, j] = self.q1[kz, i, j] + (residues / poles) * (
+                                1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
+                            )
+                            self.q2[kz, i, j] = self.q2[kz, i, j] - (residues / poles) * (
+                                1 / (poles * self.dt)
+                                + np.exp(poles * self.dt) * (1 - 1 / (poles * self.dt))
+                            )
+                            self.q3[kz, i, j] = self.q3[kz, i, j] + np.exp(poles * self.dt)
 
         self.q1sum = self.v_sum(self.q1)
         self.q2sum = self.v_sum(self.q2)
-- 
2.43.0


From d070e78ce919182cd6a907efbe1e9b3171ad2c28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 26/50] fix: sources of unknown type are null instead of
 returning None

---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index bccb7b2..9a6b255 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -574,7 +574,7 @@ class Parser:
                 x0 = source["magnitude"]["t0"]
             )
         else:
-            def magnitude(t): lambda t : 0
+            def magnitude(t): return 0
             
         return magnitude
 
-- 
2.43.0


From f1c26d309ed79b3c4534c9e062b97d3089ca69d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 27/50] fix: lines of a bundle level keep the order of the
 description

---
 python/src/jsonParser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 9a6b255..9a57f16 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -329,7 +329,7 @@ class Parser:
             
             for i in range(max([v["level"] for v in graph.vs])+1):
                 bundle_levels[i] = []
-                for name in list(set([v["cable"] for v in graph.vs(level_eq=i)])):
+                for name in list(dict.fromkeys([v["cable"] for v in graph.vs(level_eq=i)])):
                     line = self._buildMTLfromLine(name)
                     
                     self._addConnectorsResistance(line)
-- 
2.43.0


From 7d6a76a7dd9898b533140c238cc9580d4818075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 28/50] fix: networks at the same point and level do not
 replace each other

---
 python/src/jsonParser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 9a57f16..7f4e0db 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -522,6 +522,9 @@ class Parser:
                                 # else:
                                 #     network.short_to_ground(node)
 
+                if bundle_level in networkd:
+                    terminations.append(nw.NetworkD(networkd))
+                    networkd = {}
                 networkd[bundle_level] = network
             terminations.append(nw.NetworkD(networkd))
         return terminations
@@ -652,6 +655,9 @@ class Parser:
                     else:
                         network.connect_nodes(n0, n1, R0 + R1, Vt = add(s0,s1))
                 
+                if bundle_level in networkd:
+                    junctions.append(nw.NetworkD(networkd))
+                    networkd = {}
                 networkd[bundle_level] = network
             junctions.append(nw.NetworkD(networkd))            
         return junctions
-- 
2.43.0


From 4800d3f096b6be1de78e55fbfc63647f7753677e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 29/50] fix: MTL.add_probe accepts exactly the positions on the
 line

---
 python/src/mtl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index a44eab2..8db5c06 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -511,7 +511,7 @@ class MTL():
         if (type(position) == float):
             position = np.array([0.0,0.0,position])
         
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if not any(point_in_line(position, start, end) for start, end in zip(self.u[:-1], self.u[1:])):
             raise ValueError("Probe position is out of MTL length.")
 
         probe = Probe(position, probe_type, self.dt, self.u)
-- 
2.43.0


From 9f9c8880490229a4540b195c2908f20df7835c54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 30/50] fix: dispersive connectors at the far end act on the
 last cell

---
 python/src/dispersive.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index df4cd44..52e791e 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -103,6 +103,7 @@ class DispersiveConnector(Dispersive):
             raise ValueError("Connector position is out of MTL length.")
 
         index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position)))
+        index = min(index, self.nx - 1)
         du = np.linalg.norm(self.u[index+1]-self.u[index])
         
         d = model["cte"]/du
-- 
2.43.0


From eaff7d8cbacf5f85933a4e35b89eb24f499c4173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 31/50] fix: dispersive connectors accept exactly the positions
 on the line

---
 python/src/dispersive.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 52e791e..54b2f59 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -1,5 +1,7 @@
 import numpy as np
 
+from .utils import point_in_line
+
 
 class Dispersive():
     def __init__(self, number_of_conductors, nx, u, dt):
@@ -99,7 +101,7 @@ class DispersiveConnector(Dispersive):
         conductor,
         model :dict 
     ):
-        if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+        if not any(point_in_line(np.ravel(position), start, end) for start, end in zip(self.u[:-1], self.u[1:])):
             raise ValueError("Connector position is out of MTL length.")
 
         index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - position)))
-- 
2.43.0


From e93cdd9ecf5fcc9eb051398168e317f1536fee45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 32/50] fix: localized external fields excite the cells and
 nodes of the stretch only

---
 python/src/mtl.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 8db5c06..962b390 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -497,14 +497,15 @@ class MTL():
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
                         l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            x0, y0, z0 = self.u[-1,:]
-            xi, yi, zi = distances[n, -1, :]
+            end = indices[-1] + 1
+            x0, y0, z0 = self.u[end,:]
+            xi, yi, zi = distances[n, end, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+            self.e_T[n,end] = sp.lambdify(t,
+                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[end-1])), (x, x0, x0 + xi))+\
+                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[end-1])), (y, y0, y0 + yi))+\
+                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[end-1])), (z, z0, z0 + zi)))
 
 
     def add_probe(self, position: np.ndarray, probe_type: str):
@@ -847,7 +848,7 @@ class MTLD:
         if len(field_localization) != 0:
             start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[0])))
             end_index =   np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - field_localization[1])))
-            indices = range(start_index, end_index+1)
+            indices = range(start_index, end_index)
         
         vu = self.get_phase_velocities()
         for n in range(self.levels[0][0].number_of_conductors):
@@ -865,14 +866,15 @@ class MTLD:
                         l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[nz])), (x, x0, x0 + xi))+\
                         l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[nz])), (y, y0, y0 + yi))+\
                         l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[nz])), (z, z0, z0 + zi)))
-            x0, y0, z0 = self.u[-1,:]
-            xi, yi, zi = distances[n, -1, :]
+            end = indices[-1] + 1
+            x0, y0, z0 = self.u[end,:]
+            xi, yi, zi = distances[n, end, :]
             l = np.abs(np.array([xi,yi,zi]))
             l /=np.linalg.norm(l)
-            self.e_T[n,-1] = sp.lambdify(t,
-                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[-1])), (x, x0, x0 + xi))+\
-                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[-1])), (y, y0, y0 + yi))+\
-                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[-1])), (z, z0, z0 + zi)))
+            self.e_T[n,end] = sp.lambdify(t,
+                    l[0]*sp.Integral(field.e_x.subs(y, y0).subs(z, z0).subs(v, np.max(vu[end-1])), (x, x0, x0 + xi))+\
+                    l[1]*sp.Integral(field.e_y.subs(x, x0).subs(z, z0).subs(v, np.max(vu[end-1])), (y, y0, y0 + yi))+\
+                    l[2]*sp.Integral(field.e_z.subs(x, x0).subs(y, y0).subs(v, np.max(vu[end-1])), (z, z0, z0 + zi)))
 
     @dispatch()
     def update_sources(self):
-- 
2.43.0


From a547d8d65e9a2d5dc992d489e7d513b2f945bc5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:20 +0000
Subject: [PATCH 33/50] fix: localized field drives cover the cells between
 their ends in proportion

---
 python/src/mtl.py | 72 +++++++++++------------------------------------
 1 file changed, 17 insertions(+), 55 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 962b390..45a3738 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -723,62 +723,24 @@ class MTLD:
             if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
                 raise ValueError("Probe position is out of MTL length.")
 
-        start_index = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - start)))
-        end_index   = np.argmin(np.apply_along_axis(np.linalg.norm, 1, np.abs(self.u - end)))
-        
-        source_factor = {}
-        for index in range(start_index, end_index):
-            source_factor[index]  = 1.0
-        
-        if (np.linalg.norm(np.abs(start - self.u[start_index])) > 1e-10) and start_index != 0:
-            
-            du = start-self.u[start_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[start_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[start_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[start_index]) < 0):
-                    frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                    source_factor[start_index-1] = frac
-                elif (du.dot(self.du[start_index]) > 0):
-                    frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                    source_factor[start_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index-1])
-                source_factor[start_index-1] = frac
-            elif (cross_curr < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(start - self.u[start_index]))/np.linalg.norm(self.du[start_index])
-                source_factor[start_index] = frac
-                
-        if (np.linalg.norm(np.abs(end - self.u[end_index])) > 1e-10) and end_index != self.u.shape[0]:
-            
-            du = end-self.u[end_index]
-            cross_prev = np.linalg.norm(np.cross(self.du[end_index-1], du))
-            cross_curr = np.linalg.norm(np.cross(self.du[end_index], du))
-            
-            if (cross_prev < 1e-10 and cross_curr < 1e-10):
-                if (du.dot(self.du[end_index]) < 0):
-                    frac = 1-np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                    source_factor[end_index-1] = frac
-                    source_factor[end_index] = 0.0
-                elif (du.dot(self.du[end_index]) > 0):
-                    frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                    source_factor[end_index] = frac
-            
-            elif (cross_prev < 1e-10):
-                frac = 1 - np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index-1])
-                source_factor[end_index-1] = frac
-                source_factor[end_index] = 0.0
-            elif (cross_curr < 1e-10):
-                frac = np.linalg.norm(np.abs(end - self.u[end_index]))/np.linalg.norm(self.du[end_index])
-                source_factor[end_index] = frac
-               
-        for index, factor in source_factor.items():
+        first = self._position_in_cells(start)
+        last = self._position_in_cells(end)
+
+        for index in range(self.du.shape[0]):
+            factor = min(last, index + 1) - max(first, index)
+            if factor <= 0:
+                continue
             if (source_type == "Planewave"):
-                self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor/(end_index - start_index)))
-            else :
-                self.e_L[conductor, index] = add(self.e_L[conductor, index],multiply(magnitude, factor))
+                factor /= last - first
+            self.e_L[conductor, index] = add(self.e_L[conductor, index], multiply(magnitude, factor))
+
+    def _position_in_cells(self, position):
+        """Number of cells (and fraction of a cell) from the near end to the point of the line nearest to position"""
+        fraction = np.sum((position - self.u[:-1])*self.du, axis=1)/np.sum(self.du**2, axis=1)
+        fraction = np.clip(fraction, 0.0, 1.0)
+        nearest = self.u[:-1] + fraction[:, np.newaxis]*self.du
+        index = np.argmin(np.linalg.norm(nearest - position, axis=1))
+        return index + fraction[index]
 
     def add_probe(self, position, probe_type = str):
         if (type(position) == float):
-- 
2.43.0


From 11ca3089944b9d323124d7f7dab68bba349fbee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 34/50] fix: localized field drives accept exactly the
 positions on the line

---
 python/src/mtl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 45a3738..bd424ef 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -720,7 +720,7 @@ class MTLD:
             end = np.array([0.0,0.0,end])
 
         for position in [start,end]:
-            if (np.any(position > self.u[-1])) or np.any((position < self.u[0])):
+            if not any(point_in_line(position, u0, u1) for u0, u1 in zip(self.u[:-1], self.u[1:])):
                 raise ValueError("Probe position is out of MTL length.")
 
         first = self._position_in_cells(start)
-- 
2.43.0


From 9c66cc053cc9c860083fc935536b59352e8d0127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:30 +0000
Subject: [PATCH 35/50] fix: symbolic ramp pulses are ramps of the retarded
 time

---
 python/src/waveforms.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/src/waveforms.py b/python/src/waveforms.py
index 9d2e284..b7f2e37 100644
--- a/python/src/waveforms.py
+++ b/python/src/waveforms.py
@@ -72,22 +72,22 @@ def ramp_pulse(x, A, x0):
 
 def ramp_pulse_sp(A, x0):
     t = sp.symbols('t')
-    f1 = sp.Piecewise((A*(t/x0), (t <= x0)), (A, (t >= x0)))
+    f1 = sp.Piecewise((0, t < 0), (A*(t/x0), (t <= x0)), (A, (t >= x0)))
     return f1
 
 def ramp_pulse_x_sp(A, x0, v):
     x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+x/v <= x0)), (A, (t+x/v >= x0)))
+    f1 = sp.Piecewise((0, t+x/v < 0), (A*((t+x/v)/x0), (t+x/v <= x0)), (A, (t+x/v >= x0)))
     return f1
 
 def ramp_pulse_y_sp(A, x0, v):
     x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+y/v <= x0)), (A, (t+y/v >= x0)))
+    f1 = sp.Piecewise((0, t+y/v < 0), (A*((t+y/v)/x0), (t+y/v <= x0)), (A, (t+y/v >= x0)))
     return f1
 
 def ramp_pulse_z_sp(A, x0, v):
     x,y,z,t,v = sp.symbols('x y z t v')
-    f1 = sp.Piecewise((A*(t/x0), (t+z/v <= x0)), (A, (t+z/v >= x0)))
+    f1 = sp.Piecewise((0, t+z/v < 0), (A*((t+z/v)/x0), (t+z/v <= x0)), (A, (t+z/v >= x0)))
     return f1
 
 
-- 
2.43.0


From fef92601033586c025e0a4cef8c7529ec4127eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:42 +0000
Subject: [PATCH 36/50] fix: parser applies the connector of every node of a
 termination

---
 python/src/jsonParser.py | 32 ++++++++++++++------------------
 1 file changed, 14 insertions(+), 18 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 7f4e0db..f3f28ef 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -473,25 +473,21 @@ class Parser:
                 network = nw.Network(description)
                 
                 for c in connections:
-                    if len(c["nodes"]) == 1:
-                        if (c["connectors"][0]["connectorType"] == "Conn_short"):
-                            network.short_to_ground(c["nodes"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_sRLC" or c["connectors"][0]["connectorType"] == "Conn_R"):
-                            network.connect_to_ground(c["nodes"][0], 
-                                                      c["connectors"][0]["resistance"], 
-                                                      c["sources"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_C"):
-                            network.connect_to_ground_C(c["nodes"][0], 
-                                                        c["connectors"][0]["capacitance"], 
-                                                        c["sources"][0])
-                        elif (c["connectors"][0]["connectorType"] == "Conn_LCpRs"):
-                            network.connect_to_ground_LCpRs(c["nodes"][0], 
-                                                            c["connectors"][0]["resistance"], 
-                                                            c["connectors"][0]["inductance"], 
-                                                            c["connectors"][0]["capacitance"], 
-                                                            c["sources"][0])
+                    for node, connector, source in zip(c["nodes"], c["connectors"], c["sources"]):
+                        if (connector["connectorType"] == "Conn_short"):
+                            network.short_to_ground(node)
+                        elif (connector["connectorType"] == "Conn_sRLC" or connector["connectorType"] == "Conn_R"):
+                            network.connect_to_ground(node, connector["resistance"], source)
+                        elif (connector["connectorType"] == "Conn_C"):
+                            network.connect_to_ground_C(node, connector["capacitance"], source)
+                        elif (connector["connectorType"] == "Conn_LCpRs"):
+                            network.connect_to_ground_LCpRs(node, 
+                                                            connector["resistance"], 
+                                                            connector["inductance"], 
+                                                            connector["capacitance"], 
+                                                            source)
                     
-                    elif len(c["nodes"]) > 1:
+                    if len(c["nodes"]) > 0:
                         for node, conductor, connector, source in zip(c["nodes"], c["conductors"], c["connectors"], c["sources"]):
                             if (connector["connectorType"] == "MultiwireConnector"):
                                 
-- 
2.43.0


From b8660c8780aedc518ce975242a43f0268b05b69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:37 +0000
Subject: [PATCH 37/50] fix: first frame of a probe with no announced frames
 was a view of the state

---
 python/src/probes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/probes.py b/python/src/probes.py
index 49ed1f1..03f4a29 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -40,7 +40,7 @@ class Probe:
         else:
             self.t = np.append(self.t, time)
             if self.val.shape == (0,):
-                self.val = new_values
+                self.val = np.array([new_values])
             else:
                 self.val = np.vstack((self.val, new_values))
 
-- 
2.43.0


From ded6956db4586079196baf256f4f7187a7d0a861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:44 +0000
Subject: [PATCH 38/50] fix: bundle blocks follow the level numbers, not the
 order of the dictionary

---
 python/src/mtl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index bd424ef..498b5f8 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -642,7 +642,7 @@ class MTLD:
         R = (self.ndiv-1)*[np.ndarray(shape=(0, 0))]
         G = (self.ndiv)*[np.ndarray(shape=(0, 0))]
 
-        for _, mtls in levels.items():
+        for _, mtls in sorted(levels.items()):
             conductors = 0
             for line in mtls:
                 assert(type(line) == MTL)
-- 
2.43.0


From 33e87b617f04f8e85f56c3ed2c3098859bf3a323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 39/50] fix: a connector's transfer impedance without poles
 replaces the bundle's poles

---
 python/src/dispersive.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index 54b2f59..f4c9b82 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -272,6 +272,9 @@ class TransferImpedance(Dispersive):
                 if (direction in ("in", "both")):
                     self.d[index, j, i] = -d
                     self.e[index, j, i] = -e
+                    self.q1[index, j, i] = 0.0
+                    self.q2[index, j, i] = 0.0
+                    self.q3[index, j, i] = 0.0
                     if (residues.size != 0 and poles.size != 0):
                         self.q1[index, j, i] = (residues / poles) * (
                             1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
@@ -285,6 +288,9 @@ class TransferImpedance(Dispersive):
                 if (direction in ("out", "both")):
                     self.d[index, i, j] = -d
                     self.e[index, i, j] = -e
+                    self.q1[index, i, j] = 0.0
+                    self.q2[index, i, j] = 0.0
+                    self.q3[index, i, j] = 0.0
                     if (residues.size != 0 and poles.size != 0):
                         self.q1[index, i, j] = (residues / poles) * (
                             1 - (np.exp(poles * self.dt) - 1) / (poles * self.dt)
-- 
2.43.0


From 903300e68742fe0504eb0e6b52afc5e22a5d8b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:22 +0000
Subject: [PATCH 40/50] fix: pairs with different numbers of poles on one
 conductor

---
 python/src/dispersive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/dispersive.py b/python/src/dispersive.py
index f4c9b82..c25f388 100644
--- a/python/src/dispersive.py
+++ b/python/src/dispersive.py
@@ -79,7 +79,7 @@ class Dispersive():
 
     def update_q3_phi_term(self):
         for kz in range(0, self.nx):
-            self.q3_phi_term[kz] = self.v_sum(np.sum(self.q3[kz]*self.phi[kz], axis=1))
+            self.q3_phi_term[kz] = np.sum(self.v_sum(self.q3[kz]*self.phi[kz]), axis=1)
         
     def update_phi(self, i_prev, i_now):
         for kz in range(0, self.nx):
-- 
2.43.0


From 97939ec8a033f3ca06475d5d19a870647a99eb28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:52:38 +0000
Subject: [PATCH 41/50] fix: bundles accept plane waves, as MTLN.add_planewave
 asks of them

---
 python/src/mtl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 498b5f8..a3ad2c8 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -800,6 +800,15 @@ class MTLD:
         ])
 
 
+    def add_planewave(self, pw: PlaneWave, distances : np. ndarray):
+        pw.compute_velocities(np.max(self.get_phase_velocities()))
+        x, y, z, t = sp.symbols('x y z t')
+        e_0 = pw.field(t - x/pw.vx- y/pw.vy- z/pw.vz) 
+        pw.e_x = e_0 * pw.ex
+        pw.e_y = e_0 * pw.ey
+        pw.e_z = e_0 * pw.ez
+        self.add_external_field(pw, distances)
+
     # def add_external_field(self, field : Field, distances: np.array):
     def add_external_field(self, field : Field, distances: npt.NDArray[np.float64], field_localization: list[npt.NDArray[np.float64]] = []):
 
-- 
2.43.0


From 7b71dd2ef1670f4d8bdae4f2941c5995a38bb30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 42/50] fix: skin-effect impedance is not doubled at the corner
 frequency

---
 python/src/VF/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/VF/utils.py b/python/src/VF/utils.py
index 08141e1..77d9cf5 100644
--- a/python/src/VF/utils.py
+++ b/python/src/VF/utils.py
@@ -57,7 +57,7 @@ def vfi(f,p,r,i):
 
 def z(f,f0, rdc):
     f0 = np.ones(np.size(f))*f0
-    return rdc*(1+1j*f/f0)*(f<=f0)+rdc*(1+1j)*np.sqrt(f/f0)*(f>=f0)
+    return rdc*(1+1j*f/f0)*(f<=f0)+rdc*(1+1j)*np.sqrt(f/f0)*(f>f0)
 
 def serializeJSON(nReal: int, nCmplx: int, constant: bool, proportional: bool,
                     a: np.ndarray, b: np.ndarray, p: np.ndarray, r:np.ndarray):
-- 
2.43.0


From b2d6a09b7384ab662b233d7b2db52516c6ed919a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:15 +0000
Subject: [PATCH 43/50] fix: port probes read the current of the end cell
 whatever the rounding of its centre

---
 python/src/mtl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index a3ad2c8..8f3763f 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -531,7 +531,7 @@ class MTL():
 
         v0 = self.add_probe(position=x0,          probe_type='voltage')
         v1 = self.add_probe(position=x1,          probe_type='voltage')
-        i0 = self.add_probe(position=(x0+x1)/2.0, probe_type='current')
+        i0 = self.add_probe(position=x0,          probe_type='current')
 
         port_probe = Port(v0, v1, i0, z0)
         self.port_probes.append(port_probe)
-- 
2.43.0


From cdf8f189970c9789f89d96f956692d4b7729ccb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:47:15 +0000
Subject: [PATCH 44/50] fix: the terminal of a port does not depend on where
 the line lies

---
 python/src/mtl.py    | 2 +-
 python/src/probes.py | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/python/src/mtl.py b/python/src/mtl.py
index 8f3763f..bd26225 100644
--- a/python/src/mtl.py
+++ b/python/src/mtl.py
@@ -533,7 +533,7 @@ class MTL():
         v1 = self.add_probe(position=x1,          probe_type='voltage')
         i0 = self.add_probe(position=x0,          probe_type='current')
 
-        port_probe = Port(v0, v1, i0, z0)
+        port_probe = Port(v0, v1, i0, z0, "S" if terminal == 0 else "L")
         self.port_probes.append(port_probe)
 
         return port_probe
diff --git a/python/src/probes.py b/python/src/probes.py
index 03f4a29..fc482f3 100644
--- a/python/src/probes.py
+++ b/python/src/probes.py
@@ -48,7 +48,10 @@ class Probe:
 
 
 class Port:
-    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0):
+    terminal = None
+
+    def __init__(self, v0: Probe, v1: Probe, i0: Probe, z0, terminal=None):
+        self.terminal = terminal
         self.v0 = v0
         self.v1 = v1
         self.i0 = i0
@@ -67,6 +70,8 @@ class Port:
         return f, v_fft, i_fft
     
     def getTerminal(self):
+        if self.terminal is not None:
+            return self.terminal
         if np.all(self.v0.position == 0.0):
             return "S"  
         else:
-- 
2.43.0


From 32948e4701d19ce2068de0bbb11cb90eb2556465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 45/50] fix: a position on an oblique line is found whatever
 the rounding of its distance to the ends

---
 python/src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/utils.py b/python/src/utils.py
index 687a9fe..67be31b 100644
--- a/python/src/utils.py
+++ b/python/src/utils.py
@@ -32,7 +32,7 @@ def point_in_line(point, start, end):
         
         v1 = start-end
         v2 = start-point
-        line_norm = np.linalg.norm(start-end)
+        line_norm = np.linalg.norm(start-end)*(1 + 1e-9)
         cross = np.cross(v1,v2)
         if (np.linalg.norm(cross) < 1e-6 and np.linalg.norm(start-point) <= line_norm and np.linalg.norm(end-point) <= line_norm):
                 return True
-- 
2.43.0


From 26925f74dda8aa2e00821fd0a226b37a2a9ba410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 46/50] fix: networks joining cables of different levels find
 the conductors of each

---
 python/src/networks.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/src/networks.py b/python/src/networks.py
index 5b302e6..55f562a 100644
--- a/python/src/networks.py
+++ b/python/src/networks.py
@@ -279,8 +279,11 @@ class NetworkD:
         for level, nw in self.levels.items():
             for node in nw.connections.values():
                 bundle = bundles[node["bundle_name"]]
-                conductors_above = sum(bundle.conductors_in_level[0:level])
-                for line in bundle.levels[level]:
+                own_level = level
+                if node["line_name"] not in [line.name for line in bundle.levels.get(level, [])]:
+                    own_level = [l for l in bundle.levels if node["line_name"] in [line.name for line in bundle.levels[l]]][0]
+                conductors_above = sum(bundle.conductors_in_level[0:own_level])
+                for line in bundle.levels[own_level]:
                     if line.name == node["line_name"]:
                         break
                     conductors_above += line.number_of_conductors
-- 
2.43.0


From baf8712c346473e82271d1b244123816391a588b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 47/50] fix: distributed sources act on the conductors of their
 own cable

---
 python/src/jsonParser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index f3f28ef..6fa587e 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -364,9 +364,9 @@ class Parser:
             
             cable = [cable for cable in self._cables if cable["name"] == source["cable"]][0]
             bundle = self._getBundleWithCable(cable)
-            conductor = 0
+            conductor = self._getConductorsBeforeCable(bundle, cable)
             if "conductor" in source.keys():
-                conductor = source["conductor"]
+                conductor += source["conductor"]
                 
             if (source["type"] == "localized efield drive" or source["type"] == "Planewave"):
                 # cStart = self._coordinates[self._getNodeCoordId(source["elemIds"][0])]
@@ -377,6 +377,14 @@ class Parser:
                                                         magnitude = magnitude,
                                                         source_type = source["type"])
     
+    def _getConductorsBeforeCable(self, bundle, cable):
+        conductors = 0
+        for level in sorted(bundle.levels):
+            for line in bundle.levels[level]:
+                if line.name == cable["name"]:
+                    return conductors
+                conductors += line.number_of_conductors
+
     def _getCableFromLineName(self, name):
         for cable in self._cables:
             if cable["name"] == name:
-- 
2.43.0


From 1764d0f50d4d724f9aa06b8f78447e75e7e59cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 48/50] fix: all the terminal sources declared at one node are
 applied

---
 python/src/jsonParser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 6fa587e..1abf460 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -586,12 +586,13 @@ class Parser:
         return magnitude
 
     def _getTerminalSourceInNode(self, node):
+        total = 0
         for source in [s for s in self._sources if s["sourceType"] == "TerminalSource"]:
             for n in self._nodes:
                 if int(n.split()[0]) == source["elemIds"][0] and int(n.split()[-1]) == node:
-                    return self._buildSource(source)
+                    total = add(total, self._buildSource(source))
         # return lambda t : 0
-        return 0
+        return total
 
     def _getNetworkJunctionList(self):
         coordToNetwork = {}
-- 
2.43.0


From 80c48c07a2c7ab65070e489547716fab3ecd9280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:23 +0000
Subject: [PATCH 49/50] fix: shorts and zero resistances in terminations
 connect the node and keep its sources

---
 python/src/jsonParser.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/python/src/jsonParser.py b/python/src/jsonParser.py
index 1abf460..b3d34e7 100644
--- a/python/src/jsonParser.py
+++ b/python/src/jsonParser.py
@@ -8,6 +8,8 @@ import numpy as np
 
 import igraph as ig
 
+SHORT_RESISTANCE = 1e-10
+
 class Parser:
     def __init__(self, filename):
 
@@ -483,9 +485,9 @@ class Parser:
                 for c in connections:
                     for node, connector, source in zip(c["nodes"], c["connectors"], c["sources"]):
                         if (connector["connectorType"] == "Conn_short"):
-                            network.short_to_ground(node)
+                            network.connect_to_ground(node, SHORT_RESISTANCE, source)
                         elif (connector["connectorType"] == "Conn_sRLC" or connector["connectorType"] == "Conn_R"):
-                            network.connect_to_ground(node, connector["resistance"], source)
+                            network.connect_to_ground(node, connector["resistance"] or SHORT_RESISTANCE, source)
                         elif (connector["connectorType"] == "Conn_C"):
                             network.connect_to_ground_C(node, connector["capacitance"], source)
                         elif (connector["connectorType"] == "Conn_LCpRs"):
@@ -513,10 +515,10 @@ class Parser:
                                     L = 0
 
                                 if (connector["connections"][conductor] == "Conn_short"):
-                                    network.short_to_ground(node)
+                                    network.connect_to_ground_R(node, SHORT_RESISTANCE, source)
                                 elif (connector["connections"][conductor] == "Conn_R" or 
                                       connector["connections"][conductor] == "Conn_sRLC"):
-                                    network.connect_to_ground_R(node, R, source)
+                                    network.connect_to_ground_R(node, R or SHORT_RESISTANCE, source)
                                 elif (connector["connections"][conductor] == "Conn_LCpRs"):
                                     network.connect_to_ground_LCpRs(node, R ,L, C, source)
                                 elif (connector["connections"][conductor] == "Conn_C"):
@@ -655,10 +657,7 @@ class Parser:
                         if (conn1["connections"][cond1] == "Conn_R" or conn1["connections"][cond1] == "Conn_sRLC"):
                             R1 += conn1["resistanceVector"][cond1]
                     
-                    if (R1+R0 == 0.0):
-                        network.short_nodes(n0, n1)
-                    else:
-                        network.connect_nodes(n0, n1, R0 + R1, Vt = add(s0,s1))
+                    network.connect_nodes(n0, n1, R0 + R1 or SHORT_RESISTANCE, Vt = add(s0,s1))
                 
                 if bundle_level in networkd:
                     junctions.append(nw.NetworkD(networkd))
-- 
2.43.0


From 568a60ff548e5e77b8a3d103be53e34e91f2d140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:06:10 +0000
Subject: [PATCH 50/50] fix: a position is off a line relative to the length of
 its cell, so that short lines refuse probes aside of them

---
 python/src/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/src/utils.py b/python/src/utils.py
index 67be31b..ce4fda9 100644
--- a/python/src/utils.py
+++ b/python/src/utils.py
@@ -34,7 +34,7 @@ def point_in_line(point, start, end):
         v2 = start-point
         line_norm = np.linalg.norm(start-end)*(1 + 1e-9)
         cross = np.cross(v1,v2)
-        if (np.linalg.norm(cross) < 1e-6 and np.linalg.norm(start-point) <= line_norm and np.linalg.norm(end-point) <= line_norm):
+        if (np.linalg.norm(cross) < 1e-6*line_norm**2 and np.linalg.norm(start-point) <= line_norm and np.linalg.norm(end-point) <= line_norm):
                 return True
         return False
         
\ No newline at end of file
-- 
2.43.0

