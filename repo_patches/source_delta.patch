From f8b265a0b8ac8d27929a69044ce7592e749d94d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:28 +0000
Subject: [PATCH 01/29] fix: do not choke a well to zero when the phase at its
 limit is not being moved

---
 src/simulator/simulation.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6fc5c70..86b7db0 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1080,7 +1080,7 @@ class Simulator:
                         alpha = 1.0
                         if dSg_well > 0.0:
                             alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
-                        else:
+                        elif dSg_well < 0.0:
                             alpha = min(alpha, (sg - sg_min) / max(abs(dSg_well), 1e-12))
                         q_total *= max(0.0, min(1.0, alpha))
                         q_g[i, j, k] += q_total
@@ -1109,7 +1109,7 @@ class Simulator:
                         alpha = 1.0
                         if dSw_well > 0.0:
                             alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
-                        else:
+                        elif dSw_well < 0.0:
                             alpha = min(alpha, (sw - sw_min) / max(abs(dSw_well), 1e-12))
                         q_total *= max(0.0, min(1.0, alpha))
                         q_w[i, j, k] += q_total
@@ -1160,11 +1160,11 @@ class Simulator:
                         alpha = 1.0
                         if dSw_well > 0.0:
                             alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
-                        else:
+                        elif dSw_well < 0.0:
                             alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
                         if dSg_well > 0.0:
                             alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
-                        else:
+                        elif dSg_well < 0.0:
                             alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
                         alpha = max(0.0, min(1.0, alpha))
                         q_total *= alpha
@@ -1239,11 +1239,11 @@ class Simulator:
                             alpha = 1.0
                             if dSw_well > 0.0:
                                 alpha = min(alpha, sw_up / max(dSw_well, 1e-12))
-                            else:
+                            elif dSw_well < 0.0:
                                 alpha = min(alpha, sw_dn / max(abs(dSw_well), 1e-12))
                             if dSg_well > 0.0:
                                 alpha = min(alpha, sg_up / max(dSg_well, 1e-12))
-                            else:
+                            elif dSg_well < 0.0:
                                 alpha = min(alpha, sg_dn / max(abs(dSg_well), 1e-12))
                             alpha = max(0.0, min(1.0, alpha))
                             q_total *= alpha
-- 
2.43.0


From 0e94806f34bc4f15119c21897c196e67b00eba7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:19 +0000
Subject: [PATCH 02/29] fix: book each well's component exchange once and with
 the direction it really had

---
 src/simulator/simulation.py | 124 +++---------------------------------
 1 file changed, 8 insertions(+), 116 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 86b7db0..bc5cd36 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1301,14 +1301,15 @@ class Simulator:
                         q_g[i, j, k] += (-q_total)
                         if self.fluid.pvt is not None:
                             Bg_cell = float(self.fluid._eval_pvt(P_new, 'Bg')[i, j, k])
-                            qg_surf = max(-q_total, 0.0) / max(Bg_cell, 1e-12) * 86400.0
+                            qg_surf = abs(q_total) / max(Bg_cell, 1e-12) * 86400.0
                             try:
                                 Rv_cell = float(self.fluid._eval_pvt(P_new, 'Rv')[i, j, k])
                             except Exception:
                                 Rv_cell = 0.0
                             scale = float(dt / 86400.0)
-                            self.component_balance['gas']['in'] += float(qg_surf * scale)
-                            self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * scale)
+                            side = 'in' if q_total < 0 else 'out'
+                            self.component_balance['gas'][side] += float(qg_surf * scale)
+                            self.component_balance['oil'][side] += float(Rv_cell * qg_surf * scale)
                     else:
                         q_w[i, j, k] += (-q_total)
                 else:
@@ -1338,8 +1339,10 @@ class Simulator:
                         qg_res = float((qabs * fg_))
                         oil_delta = scale_t * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
                         gas_delta = scale_t * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                        self.component_balance['oil']['out'] += oil_delta
-                        self.component_balance['gas']['out'] += gas_delta
+                        # Обратный переток (из скважины в пласт) — это закачка, а не отбор
+                        side = 'out' if q_total > 0 else 'in'
+                        self.component_balance['oil'][side] += oil_delta
+                        self.component_balance['gas'][side] += gas_delta
                         self._dbg(
                             f"WELL_OUT name={well.name} mode=bhp cell=({i},{j},{k}) q_total={q_total:.6e} fw={fw_:.3f} fg={fg_:.3f} fo={fo_:.3f}",
                             f"Bo={Bo_cell:.4g} Bw={Bw_cell:.4g} Bg={Bg_cell:.4g} Rs={Rs_cell:.4g} Rv={Rv_cell:.4g}",
@@ -1393,117 +1396,6 @@ class Simulator:
             sg_max_t = (1.0 - so_r - S_w_cur)
             S_g_cur = torch.clamp(S_g_cur, min=sg_min_t, max=sg_max_t)
 
-            # Подшаговая интеграция компонентного баланса с учётом текущих S
-            try:
-                if self.fluid.pvt is not None:
-                    # Обновляем временно насыщенности для расчёта кривых
-                    self.fluid.s_w = S_w_cur
-                    self.fluid.s_g = S_g_cur
-                    self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-                    # Мобилизации и доли
-                    mu_w = self.fluid._eval_pvt(P_new, 'mu_w')
-                    mu_o = self.fluid._eval_pvt(P_new, 'mu_o')
-                    mu_g = self.fluid._eval_pvt(P_new, 'mu_g')
-                    krw = self.fluid.calc_water_kr(self.fluid.s_w)
-                    kro = self.fluid.calc_oil_kr(self.fluid.s_w, self.fluid.s_g)
-                    krg = self.fluid.calc_gas_kr(self.fluid.s_g)
-                    mob_w_cur = krw / (mu_w + 1e-12)
-                    mob_o_cur = kro / (mu_o + 1e-12)
-                    mob_g_cur = krg / (mu_g + 1e-12)
-                    mob_t_cur = mob_w_cur + mob_o_cur + mob_g_cur
-                    fw_cur = mob_w_cur / (mob_t_cur + 1e-12)
-                    fg_cur = mob_g_cur / (mob_t_cur + 1e-12)
-                    fo_cur = mob_o_cur / (mob_t_cur + 1e-12)
-                    # PVT на текущем P
-                    Bo = self.fluid._eval_pvt(P_new, 'Bo'); Bw = self.fluid._eval_pvt(P_new, 'Bw'); Bg = self.fluid._eval_pvt(P_new, 'Bg')
-                    Rs = self.fluid._eval_pvt(P_new, 'Rs')
-                    try:
-                        Rv = self.fluid._eval_pvt(P_new, 'Rv')
-                    except Exception:
-                        Rv = torch.zeros_like(Bg)
-                    dt_sub = dt / N
-                    # Скважины: вклад за подшаг
-                    for well in self.well_manager.get_wells():
-                        i, j, k = well.i, well.j, well.k
-                        if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
-                            continue
-                        Bo_cell = float(Bo[i, j, k]); Bw_cell = float(Bw[i, j, k]); Bg_cell = float(Bg[i, j, k])
-                        Rs_cell = float(Rs[i, j, k])
-                        try:
-                            Rv_cell = float(Rv[i, j, k])
-                        except Exception:
-                            Rv_cell = 0.0
-                        fo_ = float(fo_cur[i, j, k]); fw_ = float(fw_cur[i, j, k]); fg_ = float(fg_cur[i, j, k])
-                        # Вычисляем q_total для подшага по текущим долям
-                        if well.control_type == 'rate':
-                            rate_scale = float(self.sim_params.get('global_rate_scale', 1.0))
-                            q_base = (well.control_value * rate_scale) / 86400.0
-                            if well.type == 'injector':
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    if getattr(well, 'injected_phase', 'water') == 'gas':
-                                        q_total_sub = q_base * Bg_cell
-                                    else:
-                                        q_total_sub = q_base * Bw_cell
-                                else:
-                                    q_total_sub = q_base
-                                q_total_sub *= 1.0
-                                # IN для газа/воды
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                                else:
-                                    qw_surf = max(q_total_sub, 0.0) / max(Bw_cell, 1e-12) * 86400.0
-                                    self.component_balance['oil']['in'] += 0.0
-                                    self.component_balance['gas']['in'] += 0.0
-                            else:
-                                # producer
-                                if getattr(well, 'rate_type', 'reservoir') == 'surface':
-                                    sp = (well.surface_phase or 'liquid').lower()
-                                    if sp == 'oil':
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    elif sp == 'water':
-                                        q_w_res = q_base * Bw_cell
-                                        q_total_sub = - q_w_res / max(fw_, 1e-12)
-                                    elif sp == 'gas':
-                                        denom = (fg_ / max(Bg_cell, 1e-12) + fo_ * Rs_cell / max(Bo_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                    else:
-                                        denom = (fo_ / max(Bo_cell, 1e-12) + fg_ * Rv_cell / max(Bg_cell, 1e-12) + fw_ / max(Bw_cell, 1e-12))
-                                        q_total_sub = - (q_base / max(denom, 1e-12))
-                                else:
-                                    q_total_sub = -q_base
-                                qo_res = max((-q_total_sub * fo_), 0.0)
-                                qg_res = max((-q_total_sub * fg_), 0.0)
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-                        elif well.control_type == 'bhp':
-                            # оценим total по текущим долям (Mobility-weighted WI уже учтён на шаге давления)
-                            wi = well.well_index
-                            p_bhp = well.control_value * 1e6
-                            p_block = float(P_new[i, j, k])
-                            # приблизим mob_t по текущим долям (линейно): используем mob_t_cur
-                            mob_t_cell = float(mob_t_cur[i, j, k])
-                            q_total_sub = wi * mob_t_cell * (p_block - p_bhp)
-                            if well.type == 'injector':
-                                if getattr(well, 'injected_phase', 'water') == 'gas':
-                                    qg_surf = max(-q_total_sub, 0.0) / max(Bg_cell, 1e-12) * 86400.0
-                                    self.component_balance['gas']['in'] += float(qg_surf * (dt_sub / 86400.0))
-                                    self.component_balance['oil']['in'] += float(Rv_cell * qg_surf * (dt_sub / 86400.0))
-                            else:
-                                qabs = abs(q_total_sub)
-                                qo_res = qabs * fo_
-                                qg_res = qabs * fg_
-                                oil_delta = dt_sub * (qo_res / max(Bo_cell, 1e-12) + Rv_cell * qg_res / max(Bg_cell, 1e-12))
-                                gas_delta = dt_sub * (qg_res / max(Bg_cell, 1e-12) + Rs_cell * qo_res / max(Bo_cell, 1e-12))
-                                self.component_balance['oil']['out'] += float(oil_delta)
-                                self.component_balance['gas']['out'] += float(gas_delta)
-            except Exception:
-                pass
-
         self.fluid.s_w = S_w_cur
         self.fluid.s_g = S_g_cur
         self.fluid.s_o = 1.0 - self.fluid.s_w - self.fluid.s_g
-- 
2.43.0


From 8679866b1cc1512cabdad4367729fcd63f572d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:46 +0000
Subject: [PATCH 03/29] fix: keep water and gas saturations inside their limits
 when both move at once

---
 src/simulator/simulation.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index bc5cd36..febde85 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1389,6 +1389,8 @@ class Simulator:
             S_w_cur = S_w_cur + dSw_sub
             S_g_cur = S_g_cur + dSg_sub
             # мягкие клампы на случай численной погрешности (min/max как тензоры одной формы)
+            # сначала газ в своём полном окне, иначе верхняя граница воды может оказаться ниже нижней
+            S_g_cur = torch.clamp(S_g_cur, min=sg_cr, max=1.0 - so_r - sw_cr)
             sw_min_t = torch.full_like(S_w_cur, float(sw_cr))
             sw_max_t = (1.0 - so_r - S_g_cur)
             S_w_cur = torch.clamp(S_w_cur, min=sw_min_t, max=sw_max_t)
-- 
2.43.0


From 6ceeef31645f2de8be911dd61a2ab9b863868181 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:07 +0000
Subject: [PATCH 04/29] fix: take upstream mobilities by phase potential in the
 saturation step

---
 src/simulator/simulation.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index febde85..da72558 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -988,11 +988,9 @@ class Simulator:
 
         mob_w_x = torch.where(dp_x > 0, mob_w[:-1,:,:], mob_w[1:,:,:])
         mob_w_y = torch.where(dp_y > 0, mob_w[:,:-1,:], mob_w[:,1:,:])
-        mob_w_z = torch.where(dp_z > 0, mob_w[:,:,:-1], mob_w[:,:,1:])
 
         mob_g_x = torch.where(dp_x > 0, mob_g[:-1,:,:], mob_g[1:,:,:])
         mob_g_y = torch.where(dp_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])
-        mob_g_z = torch.where(dp_z > 0, mob_g[:,:,:-1], mob_g[:,:,1:])
 
         # 2. Потенциалы с учётом гравитации
         _, _, dz = self.reservoir.grid_size
@@ -1004,6 +1002,9 @@ class Simulator:
         else:
             pot_w_z = dp_z
             pot_g_z = dp_z
+        # апстрим по потенциалу фазы, а не по одному давлению
+        mob_w_z = torch.where(pot_w_z > 0, mob_w[:,:,:-1], mob_w[:,:,1:])
+        mob_g_z = torch.where(pot_g_z > 0, mob_g[:,:,:-1], mob_g[:,:,1:])
 
         # 3. Расходы воды
         flow_w_x = self.T_x * mob_w_x * dp_x
@@ -1016,6 +1017,9 @@ class Simulator:
             dpcg_x = pcog[1:,:,:] - pcog[:-1,:,:]
             dpcg_y = pcog[:,1:,:] - pcog[:,:-1,:]
             dpcg_z = pcog[:,:,1:] - pcog[:,:,:-1]
+            mob_g_x = torch.where(dp_x - dpcg_x > 0, mob_g[:-1,:,:], mob_g[1:,:,:])
+            mob_g_y = torch.where(dp_y - dpcg_y > 0, mob_g[:,:-1,:], mob_g[:,1:,:])
+            mob_g_z = torch.where(pot_g_z - dpcg_z > 0, mob_g[:,:,:-1], mob_g[:,:,1:])
             flow_g_x = self.T_x * mob_g_x * (dp_x - dpcg_x)
             flow_g_y = self.T_y * mob_g_y * (dp_y - dpcg_y)
             flow_g_z = self.T_z * mob_g_z * (pot_g_z - dpcg_z)
-- 
2.43.0


From 3262eba3270f048a5c66e1aea7f03bd66f77b0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:27 +0000
Subject: [PATCH 05/29] fix: harmonic mean of permeabilities in m2 must not be
 drowned by its guard

---
 src/simulator/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index da72558..57bf934 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -62,15 +62,15 @@ class Simulator:
             
             # Расчет проводимостей
             for i in range(nx-1):
-                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-15)
+                k_harmonic = 2 * k_x[i, :, :] * k_x[i+1, :, :] / (k_x[i, :, :] + k_x[i+1, :, :] + 1e-30)
                 self.T_x[i, :, :] = k_harmonic * dy * dz / dx
             
             for j in range(ny-1):
-                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-15)
+                k_harmonic = 2 * k_y[:, j, :] * k_y[:, j+1, :] / (k_y[:, j, :] + k_y[:, j+1, :] + 1e-30)
                 self.T_y[:, j, :] = k_harmonic * dx * dz / dy
             
             for k in range(nz-1):
-                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-15)
+                k_harmonic = 2 * k_z[:, :, k] * k_z[:, :, k+1] / (k_z[:, :, k] + k_z[:, :, k+1] + 1e-30)
                 self.T_z[:, :, k] = k_harmonic * dx * dy / dz
         
         # Объем пористой среды для расчетов IMPES
-- 
2.43.0


From 161055354a61905ddbc76b5822e5d7052fa6a107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:32 +0000
Subject: [PATCH 06/29] fix: bhp_min switch must compare with the pressure
 below the block, not above it

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 57bf934..5531e5d 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1536,9 +1536,9 @@ class Simulator:
                     mob_t_well = mob_t.view(-1)[idx]
                     wi = well.well_index
                     # Требуемый BHP для обеспечения заданного rate
-                    # q = wi * mob_t * (p_block - p_bhp) => p_bhp_req = p_block - q/(wi*mob_t)
+                    # |q| = wi * mob_t * (p_block - p_bhp), rate_si < 0 => p_bhp_req = p_block + rate_si/(wi*mob_t)
                     denom = wi * mob_t_well + 1e-12
-                    p_bhp_req = p_block - rate_si / denom
+                    p_bhp_req = p_block + rate_si / denom
                     p_bhp_min = well.bhp_min * 1e6
                     if p_bhp_req < p_bhp_min:
                         # Переключаемся на BHP-контроль на этом шаге
-- 
2.43.0


From 6d118081627cecfc21b000e6de2da1ccb4952692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 07/29] fix: a well outside the grid must not act on another
 cell

---
 src/simulator/simulation.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 5531e5d..695d66d 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1054,7 +1054,7 @@ class Simulator:
         fo = mob_o / (mob_t + 1e-10)
         for well in self.well_manager.get_wells():
             i, j, k = well.i, well.j, well.k
-            if i >= self.reservoir.nx or j >= self.reservoir.ny or k >= self.reservoir.nz:
+            if not self._well_in_grid(well):
                 continue
 
             if well.control_type == 'rate':
@@ -1517,12 +1517,19 @@ class Simulator:
         Q_total = compressibility_term + q_wells.flatten() + Q_g.view(-1) + Q_pc.view(-1)
         return Q_total
 
+    def _well_in_grid(self, well):
+        """ Скважина вне сетки не действует ни на одну ячейку. """
+        nx, ny, nz = self.reservoir.dimensions
+        return 0 <= well.i < nx and 0 <= well.j < ny and 0 <= well.k < nz
+
     def _calculate_well_terms(self, mob_t, P_prev):
         """ Рассчитывает источниковые члены от скважин для IMPES. """
         N = self.reservoir.nx * self.reservoir.ny * self.reservoir.nz
         q_wells = torch.zeros(N, device=self.device)
         well_bhp_terms = torch.zeros(N, device=self.device)
         for well in self.well_manager.get_wells():
+            if not self._well_in_grid(well):
+                continue
             i, j, k = well.i, well.j, well.k
             idx = self._ijk_to_idx(i, j, k, self.reservoir.nx, self.reservoir.ny)
             well.cell_index_flat = idx
-- 
2.43.0


From 6adf2f99e9c8c744b902c17fffb943f9b047f57f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 08/29] fix: linear cell numbers follow the flattened field
 order

---
 src/simulator/reservoir.py | 2 +-
 src/simulator/well.py      | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/reservoir.py b/src/simulator/reservoir.py
index 9a8eb32..d64f1b4 100644
--- a/src/simulator/reservoir.py
+++ b/src/simulator/reservoir.py
@@ -77,4 +77,4 @@ class Reservoir:
         Returns:
             Линейный индекс ячейки
         """
-        return i + j * self.nx + k * self.nx * self.ny
+        return (i * self.ny + j) * self.nz + k
diff --git a/src/simulator/well.py b/src/simulator/well.py
index 8c51591..8e3d0b4 100644
--- a/src/simulator/well.py
+++ b/src/simulator/well.py
@@ -37,7 +37,7 @@ class Well:
         
         nx, ny, nz = reservoir_dimensions
         self.cell_index = (i, j, k)
-        self.cell_index_flat = i + j * nx + k * nx * ny
+        self.cell_index_flat = (i * ny + j) * nz + k  # порядок flatten(): z самая быстрая
         
         # Определяем реальные размеры ячейки из reservoir_dimensions
         # Для Peaceman нужно знать dx, dy. Полагаем кубические ячейки и берём 1 м, если размеры не переданы.
-- 
2.43.0


From 472796ab1bdcf44d0eeeeb1fb2c4d760a496ce65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 09/29] fix: fully implicit face loops number cells in the
 flattened field order

---
 src/simulator/simulation.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 695d66d..f81de3f 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -567,8 +567,8 @@ class Simulator:
         for i in range(nx-1):
             for j in range(ny):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = (i+1) + j * nx + k * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i+1, j, k, nx, ny)
                     
                     # Средние значения
                     avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-10)
@@ -604,8 +604,8 @@ class Simulator:
         for j in range(ny-1):
             for i in range(nx):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + (j+1) * nx + k * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i, j+1, k, nx, ny)
                     
                     avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-10)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
@@ -636,8 +636,8 @@ class Simulator:
         for k in range(nz-1):
             for i in range(nx):
                 for j in range(ny):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + j * nx + (k+1) * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i, j, k+1, nx, ny)
                     
                     avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-10)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
@@ -1657,8 +1657,8 @@ class Simulator:
         for i in range(nx-1):
             for j in range(ny):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = (i+1) + j * nx + k * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i+1, j, k, nx, ny)
                     
                     # Средние значения
                     avg_perm = 2 * perm_x_vec[idx1] * perm_x_vec[idx2] / (perm_x_vec[idx1] + perm_x_vec[idx2] + 1e-10)
@@ -1751,8 +1751,8 @@ class Simulator:
         for j in range(ny-1):
             for i in range(nx):
                 for k in range(nz):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + (j+1) * nx + k * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i, j+1, k, nx, ny)
                     
                     avg_perm = 2 * perm_y_vec[idx1] * perm_y_vec[idx2] / (perm_y_vec[idx1] + perm_y_vec[idx2] + 1e-10)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
@@ -1842,8 +1842,8 @@ class Simulator:
         for k in range(nz-1):
             for i in range(nx):
                 for j in range(ny):
-                    idx1 = i + j * nx + k * nx * ny
-                    idx2 = i + j * nx + (k+1) * nx * ny
+                    idx1 = self._ijk_to_idx(i, j, k, nx, ny)
+                    idx2 = self._ijk_to_idx(i, j, k+1, nx, ny)
                     
                     avg_perm = 2 * perm_z_vec[idx1] * perm_z_vec[idx2] / (perm_z_vec[idx1] + perm_z_vec[idx2] + 1e-10)
                     avg_rho_w = 0.5 * (rho_w[idx1] + rho_w[idx2])
-- 
2.43.0


From d07720af301f34625dad085b8f5efb4342182094 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 10/29] fix: fully implicit Y faces used an undefined oil
 derivative when flow runs backwards

---
 src/simulator/simulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index f81de3f..5cf2dde 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1822,6 +1822,7 @@ class Simulator:
                         
                     else:
                         dfw_dsw2 = trans * dlambda_w_dsw[idx2] * (dp - dp_cap + gravity_term_w)
+                        dfo_dsw2 = trans * dlambda_o_dsw[idx2] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
                             dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-- 
2.43.0


From 5a87f54cbff4feaca611ffa184636f61ec900acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 11/29] fix: line-search residual must use the same vertical
 upstream rule as the Newton system

---
 src/simulator/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 5cf2dde..854be10 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -650,8 +650,8 @@ class Simulator:
                     gravity_term_w = avg_rho_w * gravity[2] * dz
                     gravity_term_o = avg_rho_o * gravity[2] * dz
                     
-                    lambda_w_up = lambda_w[idx1] if dp >= 0 else lambda_w[idx2]
-                    lambda_o_up = lambda_o[idx1] if dp >= 0 else lambda_o[idx2]
+                    lambda_w_up = lambda_w[idx1] if dp - dp_cap + gravity_term_w >= 0 else lambda_w[idx2]
+                    lambda_o_up = lambda_o[idx1] if dp + gravity_term_o >= 0 else lambda_o[idx2]
                     
                     trans = tz_const * avg_perm
                     
-- 
2.43.0


From ebc7a185e969cb296530abda66c12ab9c08829f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 12/29] fix: Newton update is interleaved by cell, as the
 system it solves

---
 src/simulator/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 854be10..701bd5c 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -745,8 +745,9 @@ class Simulator:
         old_sw = self.fluid.s_w.clone().reshape(-1)
         
         # Применяем приращения с заданным фактором
-        p_delta_raw = delta[:num_cells].reshape(-1) * factor
-        sw_delta_raw = delta[num_cells:].reshape(-1) * factor
+        # (неизвестные чередуются, как в якобиане: 2*idx — давление, 2*idx+1 — насыщенность)
+        p_delta_raw = delta[0::2].reshape(-1) * factor
+        sw_delta_raw = delta[1::2].reshape(-1) * factor
         
         # Ограничиваем изменения давления (не более 10% от текущего значения и не более 2 МПа)
         max_p_change_rel = 0.1 * torch.abs(old_p)
-- 
2.43.0


From d4626184ffd161e23398e951b4a002d234f13dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 13/29] fix: a Newton step that did not converge must not count
 as success

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 701bd5c..6d0e32f 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -163,7 +163,7 @@ class Simulator:
             print(f"Попытка шага с dt = {current_dt/86400:.2f} дней (Попытка {attempt+1}/{max_attempts})")
             
             # Выполняем шаг с текущим значением dt
-            converged = self._fully_implicit_newton_step(current_dt)
+            converged, _ = self._fully_implicit_newton_step(current_dt)
             
             if converged:
                 print(f"Шаг успешно выполнен с dt = {current_dt/86400:.2f} дней.")
-- 
2.43.0


From 8d98ce118ab5b47226dd468e830b487516f63f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:39 +0000
Subject: [PATCH 14/29] fix: line search must return to the current Newton
 iterate, not to the start of the step

---
 src/simulator/simulation.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 6d0e32f..9602d10 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -425,6 +425,8 @@ class Simulator:
                 print(f"  Применено демпфирование с коэффициентом {damping_factor}")
             
             # Быстрый line search с использованием предварительно определенных факторов
+            iter_p = self.fluid.pressure.clone()
+            iter_sw = self.fluid.s_w.clone()
             for factor in line_search_factors:
                 # Временно применяем шаг
                 self._apply_newton_step(delta, factor)
@@ -433,9 +435,9 @@ class Simulator:
                 new_residual = self._compute_residual_fast(dt, nx, ny, nz, dx, dy, dz)
                 new_residual_norm = torch.norm(new_residual).item()
                 
-                # Откатываем изменения
-                self.fluid.pressure = current_p.clone()
-                self.fluid.s_w = current_sw.clone()
+                # Откатываем изменения к текущей итерации (а не к началу шага)
+                self.fluid.pressure = iter_p.clone()
+                self.fluid.s_w = iter_sw.clone()
                 
                 # Проверяем, улучшает ли этот фактор сходимость
                 if new_residual_norm < best_residual_norm:
-- 
2.43.0


From 1e946621bf20130c25bf3da19289303dfee9d19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:56 +0000
Subject: [PATCH 15/29] fix: run every step when the step length is not a
 binary fraction

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 9602d10..5241251 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2055,7 +2055,7 @@ class Simulator:
         animation_fps = self.sim_params.get('animation_fps', 5)
         
         # Рассчитываем количество шагов
-        num_steps = int(total_time_days / time_step_days)
+        num_steps = int(total_time_days / time_step_days + 1e-9)  # допуск на двоичное округление (0.3 / 0.1)
         
         # Создаем уникальную директорию для данного запуска
         timestamp = datetime.datetime.now().strftime("%Y%m%d_%H%M%S")
-- 
2.43.0


From 835488cf6240066057f0038092f6a48bad21c341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 16/29] fix: VTK export read permeability fields that do not
 exist

---
 src/output/vtk_writer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/output/vtk_writer.py b/src/output/vtk_writer.py
index f50e524..73435f9 100644
--- a/src/output/vtk_writer.py
+++ b/src/output/vtk_writer.py
@@ -31,8 +31,8 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
     pressure_reshaped = pressure_mpa.reshape((nx, ny, nz), order='F')
     saturation_w_reshaped = saturation_w.reshape((nx, ny, nz), order='F')
     saturation_o_reshaped = saturation_o.reshape((nx, ny, nz), order='F')
-    perm_h_reshaped = reservoir.perm_h.cpu().numpy().reshape((nx, ny, nz), order='F')
-    perm_v_reshaped = reservoir.perm_v.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_h_reshaped = reservoir.permeability_x.cpu().numpy().reshape((nx, ny, nz), order='F')
+    perm_v_reshaped = reservoir.permeability_z.cpu().numpy().reshape((nx, ny, nz), order='F')
     
     # Создаем словарь с данными для ячеек
     cell_data = {
-- 
2.43.0


From c472152596b357d5480848935e786ab9960a857b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 17/29] fix: VTK node coordinates are always one more than the
 cells

---
 src/output/vtk_writer.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/output/vtk_writer.py b/src/output/vtk_writer.py
index 73435f9..b38d872 100644
--- a/src/output/vtk_writer.py
+++ b/src/output/vtk_writer.py
@@ -17,9 +17,9 @@ def save_to_vtk(reservoir, fluid, filename="simulation_results"):
 
     # Создаем координаты узлов сетки.
     # VTK ожидает координаты узлов, поэтому массив должен быть на 1 больше, чем число ячеек.
-    x = np.arange(0, (nx + 1) * dx, dx)
-    y = np.arange(0, (ny + 1) * dy, dy)
-    z = np.arange(0, (nz + 1) * dz, dz)
+    x = np.arange(nx + 1) * dx
+    y = np.arange(ny + 1) * dy
+    z = np.arange(nz + 1) * dz
 
     # Получаем данные с устройства и конвертируем в NumPy
     pressure_mpa = fluid.pressure.cpu().numpy() / 1e6 # Конвертируем в МПа для удобства
-- 
2.43.0


From 96064b12d1955c96613a79561b5b62b4cb28ddb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:17 +0000
Subject: [PATCH 18/29] fix: gas density counts vaporised oil whichever way it
 is read

---
 src/simulator/fluid.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/simulator/fluid.py b/src/simulator/fluid.py
index 4933565..c710122 100644
--- a/src/simulator/fluid.py
+++ b/src/simulator/fluid.py
@@ -371,7 +371,11 @@ class Fluid:
         """
         if self.pvt is not None:
             bg = self._eval_pvt(pressure, key='Bg')
-            return self.rho_gas_ref / (bg + 1e-12)
+            try:
+                rv = self._eval_pvt(pressure, key='Rv')
+            except KeyError:
+                rv = torch.zeros_like(bg)
+            return (self.rho_gas_ref + rv * self.rho_oil_ref) / (bg + 1e-12)
         return self.rho_gas_ref * (1.0 + self.gas_compressibility * (pressure - 1e5))
 
     def calc_water_kr(self, s_w):
-- 
2.43.0


From d7f9ef5cfc266057dc101779159806474ae82e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:30 +0000
Subject: [PATCH 19/29] fix: reject PVT tables whose pressures are not strictly
 increasing

---
 src/simulator/pvt.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/simulator/pvt.py b/src/simulator/pvt.py
index e92e9dc..e4e7781 100644
--- a/src/simulator/pvt.py
+++ b/src/simulator/pvt.py
@@ -44,6 +44,9 @@ class PVTTable:
                 raise ValueError(f"PVT: длины столбцов не совпадают (pressure vs {name})")
         if len(self.Rv) != n:
             raise ValueError("PVT: длины столбцов не совпадают (pressure vs Rv_m3m3)")
+        # np.interp молча даёт неверные значения на неупорядоченной сетке
+        if np.any(np.diff(self.P) <= 0):
+            raise ValueError("PVT: давления должны строго возрастать")
 
     def _interp(self, x: np.ndarray, xp: np.ndarray, fp: np.ndarray) -> np.ndarray:
         # Линейная интерполяция с экстраполяцией по краям
-- 
2.43.0


From c611362df25b02a9191a130026055142d7eec355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:52 +0000
Subject: [PATCH 20/29] fix: coarsening must compare with neighbours in both
 directions

---
 src/solver/classical_amg.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 95b7078..fa1d8c9 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -128,7 +128,8 @@ def classical_coarsening(A_csr: torch.Tensor, theta: float = 0.25) -> Tuple[torc
     # Максимум score среди соседей (для обоих направлений)
     neigh_max = torch.zeros(n, device=device, dtype=score.dtype)
     neigh_max.scatter_reduce_(0, ii, score[jj], reduce='amax', include_self=False)
-    neigh_max.scatter_reduce_(0, jj, score[ii], reduce='amax', include_self=False)
+    # include_self=True: второй проход дополняет максимум первого, а не затирает его
+    neigh_max.scatter_reduce_(0, jj, score[ii], reduce='amax', include_self=True)
     
     # Местные максимумы -> C
     C = score > neigh_max
-- 
2.43.0


From 54a928d013f27cefb89820f0bd7ec818607068b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:00 +0000
Subject: [PATCH 21/29] fix: multigrid coarse solve must not pin an unknown of
 a nonsingular system

---
 src/solver/classical_amg.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index fa1d8c9..730732d 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -1044,12 +1044,15 @@ class ClassicalAMG:
             print(f"  [V-CYCLE L{lvl}] ВХОД: ||x||={x.norm():.3e}, ||b||={b.norm():.3e}, n={level['n']}")
         
         if level['is_coarsest']:
-            # Прямое решение на coarsest уровне (фиксируем первую степень свободы)
+            # Прямое решение на coarsest уровне. Первая степень свободы фиксируется
+            # только у вырожденной матрицы (нулевые суммы строк): у невырожденной
+            # системы фиксация меняет решение.
             n = level['n']
             A_dense = level['A'].to_dense().clone()
             b_local = b.clone()
-            x = torch.zeros_like(b_local)
-            if n > 0:
+            row_sum = A_dense.sum(dim=1).abs()
+            singular = n > 0 and bool((row_sum <= 1e-12 * A_dense.abs().sum(dim=1)).all())
+            if singular:
                 A_dense[0, :] = 0.0
                 A_dense[:, 0] = 0.0
                 A_dense[0, 0] = 1.0
@@ -1064,7 +1067,7 @@ class ClassicalAMG:
                 inv_relax = level['inv_relax']
                 omega = 0.7
                 for it in range(50):
-                    r = b_local - self._spmv_csr(level['A'], x)
+                    r = b - self._spmv_csr(level['A'], x)
                     delta = omega * inv_relax * r
                     x = x + delta
             return x
-- 
2.43.0


From c98c2b64d8654b75f9942c40f55078d2e5c875e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:48 +0000
Subject: [PATCH 22/29] fix: multigrid pressure solve must report whether it
 converged

---
 src/simulator/simulation.py |  4 ++--
 src/solver/classical_amg.py |  3 +++
 src/solver/pressure_amg.py  | 11 ++++++++---
 3 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 5241251..a33d0d0 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -918,7 +918,7 @@ class Simulator:
             # Импорт локально, чтобы не тянуть зависимости при CG
             from solver.pressure_amg import amg_solve
             # Решаем напрямую AMG V-cycles (внутри float64 и auto device)
-            P_new_flat = amg_solve(
+            P_new_flat, converged = amg_solve(
                 A, Q,
                 tol=amg_tol,
                 max_cycles=amg_max_cycles,
@@ -926,8 +926,8 @@ class Simulator:
                 max_levels=amg_max_levels,
                 coarsest_size=amg_coarsest,
                 device=amg_device,
+                return_converged=True,
             )
-            converged = True
             P_new = P_new_flat.view(self.reservoir.dimensions)
             return P_new, converged
 
diff --git a/src/solver/classical_amg.py b/src/solver/classical_amg.py
index 730732d..84d40b6 100644
--- a/src/solver/classical_amg.py
+++ b/src/solver/classical_amg.py
@@ -727,6 +727,7 @@ class ClassicalAMG:
         self.debug_cycles = False
         self.equilibration_threshold = 1e-6
         self.use_equilibration = False
+        self.converged = False  # вердикт последнего solve()
         
         # Конвертируем numpy CSR -> torch CSR на CUDA
         device = torch.device('cuda' if torch.cuda.is_available() else 'cpu')
@@ -1138,6 +1139,7 @@ class ClassicalAMG:
             x_scaled = torch.zeros_like(b) if x0 is None else x0.to(self.device)
         
         b_norm = b_scaled.norm()
+        self.converged = False
         
         for cycle in range(max_iter):
             x_scaled = self._v_cycle(0, x_scaled, b_scaled, pre_smooth=3, post_smooth=2,
@@ -1147,6 +1149,7 @@ class ClassicalAMG:
             x_ratio = x_scaled.norm() / (b_norm + 1e-30)
             print(f"  [ClassicalAMG cycle {cycle+1}] rel_res={rel_res:.3e}, ||x||/||b||={x_ratio:.2e}")
             if rel_res < tol:
+                self.converged = True
                 break
         
         # Обратное масштабирование (если было)
diff --git a/src/solver/pressure_amg.py b/src/solver/pressure_amg.py
index 70f08d3..3369dcf 100644
--- a/src/solver/pressure_amg.py
+++ b/src/solver/pressure_amg.py
@@ -43,12 +43,14 @@ def amg_solve(
     coarsest_size: int = 200,
     device: Optional[str] = "auto",
     enable_equilibration: Optional[bool] = None,
-) -> torch.Tensor:
+    return_converged: bool = False,
+):
     """
     Solve A x = b using Classical RS-AMG V-cycles.
     - A: torch sparse (COO or CSR), preferably SPD M-matrix from IMPES pressure discretization
     - b: dense RHS (1-D)
-    Returns x on the same device/dtype as b (float32 by default in simulator).
+    Returns x on the same device/dtype as b (float32 by default in simulator);
+    with return_converged=True returns (x, converged).
     """
     # Target device selection
     if device == "auto" or device is None:
@@ -86,7 +88,10 @@ def amg_solve(
     x64 = amg.solve(b64, x0=None, tol=tol, max_iter=max_cycles)
 
     # Return to original b's device/dtype (float32 in our pipeline)
-    return x64.to(b.device, dtype=b.dtype)
+    x = x64.to(b.device, dtype=b.dtype)
+    if return_converged:
+        return x, amg.converged
+    return x
 
 
 def amg_preconditioner(
-- 
2.43.0


From d0bec6be24062ead5858bfc4e0bada90e2047d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:08 +0000
Subject: [PATCH 23/29] fix: CG start must meet the requested tolerance before
 it counts as converged

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index a33d0d0..34588bc 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1583,7 +1583,7 @@ class Simulator:
             z = r.clone()
         p = z.clone()
         rs_old = torch.dot(r, z)
-        if rs_old < 1e-10:
+        if torch.sqrt(rs_old) < tol:
             return x, True
         for i in range(max_iter):
             Ap = torch.sparse.mm(A, p.unsqueeze(1)).squeeze(1)
-- 
2.43.0


From 505dac5572c6c8fcb254b59583f5653b598496ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:45 +0000
Subject: [PATCH 24/29] fix: wells outside the grid act on no cell in the fully
 implicit scheme either

---
 src/simulator/simulation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 34588bc..8f16287 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -681,6 +681,8 @@ class Simulator:
         wells = self.well_manager.get_wells()
         
         for well in wells:
+            if not self._well_in_grid(well):
+                continue
             idx = well.cell_index_flat
             p = self.fluid.pressure.reshape(-1)[idx]
             sw = self.fluid.s_w.reshape(-1)[idx]
@@ -1946,6 +1948,8 @@ class Simulator:
         wells = self.well_manager.get_wells()
         
         for well in wells:
+            if not self._well_in_grid(well):
+                continue
             idx = well.cell_index_flat
             p = self.fluid.pressure.reshape(-1)[idx]
             sw = self.fluid.s_w.reshape(-1)[idx]
-- 
2.43.0


From 871dbe7683b1f4bfb0d3b2b2476ce34b309492a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 25/29] fix: VTK output of a run goes to its results directory

---
 src/simulator/simulation.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 8f16287..889c848 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2168,7 +2168,7 @@ class Simulator:
         # Сохранение результатов в VTK (если указано)
         if save_vtk:
             try:
-                self._save_to_vtk(output_filename)
+                self._save_to_vtk(output_filename, results_dir)
             except ImportError:
                 print("Не удалось сохранить в формате VTK: отсутствуют необходимые модули.")
         
@@ -2181,12 +2181,13 @@ class Simulator:
             except ImportError:
                 print("Не удалось создать анимацию: отсутствует модуль imageio.")
 
-    def _save_to_vtk(self, output_filename):
+    def _save_to_vtk(self, output_filename, results_dir):
         """
         Сохраняет результаты в формате VTK.
         
         Args:
             output_filename: Имя файла для сохранения
+            results_dir: Каталог результатов
         """
         try:
             import vtk
-- 
2.43.0


From d78c363cff0b1eafed3427dcb13cc91a73baafb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 26/29] fix: VTK output gives each point the value of its own
 cell

---
 src/simulator/simulation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 889c848..62c8917 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -2206,14 +2206,14 @@ class Simulator:
                         points.InsertNextPoint(i, j, k)
             grid.SetPoints(points)
             
-            # Добавляем данные давления
-            pressure_array = self.fluid.pressure.cpu().numpy().flatten()
+            # Добавляем данные давления (точки идут по i быстрее всего)
+            pressure_array = self.fluid.pressure.cpu().numpy().flatten(order='F')
             vtk_pressure = numpy_support.numpy_to_vtk(pressure_array)
             vtk_pressure.SetName("Pressure")
             grid.GetPointData().AddArray(vtk_pressure)
             
             # Добавляем данные насыщенности
-            sw_array = self.fluid.s_w.cpu().numpy().flatten()
+            sw_array = self.fluid.s_w.cpu().numpy().flatten(order='F')
             vtk_sw = numpy_support.numpy_to_vtk(sw_array)
             vtk_sw.SetName("Water_Saturation")
             grid.GetPointData().AddArray(vtk_sw)
-- 
2.43.0


From 8a764e46e38562550ca653bc7da6e9bef6a68e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:34 +0000
Subject: [PATCH 27/29] fix: field pictures show x across and y up, as labelled

---
 src/plotting/plotter.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/plotting/plotter.py b/src/plotting/plotter.py
index 8b80b98..6ff1da1 100644
--- a/src/plotting/plotter.py
+++ b/src/plotting/plotter.py
@@ -30,14 +30,14 @@ class Plotter:
         else:
             z_slice_idx = 0
             
-        p_slice = pressure[:, :, z_slice_idx]
-        sw_slice = saturation[:, :, z_slice_idx]
+        p_slice = pressure[:, :, z_slice_idx].T  # строки — Y, столбцы — X
+        sw_slice = saturation[:, :, z_slice_idx].T
         
         # Определяем количество графиков в зависимости от наличия газа
         has_gas = gas_saturation is not None and np.any(gas_saturation > 1e-6)
         
         if has_gas:
-            sg_slice = gas_saturation[:, :, z_slice_idx]
+            sg_slice = gas_saturation[:, :, z_slice_idx].T
             fig, (ax1, ax2, ax3) = plt.subplots(1, 3, figsize=(18, 5))
         else:
             fig, (ax1, ax2) = plt.subplots(1, 2, figsize=(12, 5))
-- 
2.43.0


From aa2ccfccc99238a9f18863b4219b7680b7bb1213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 28/29] fix: a debug log path without a folder no longer stops
 the simulator

---
 src/simulator/simulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index 62c8917..faa2a22 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -100,7 +100,7 @@ class Simulator:
             ts = datetime.datetime.now().strftime('%Y%m%d_%H%M%S')
             default_path = os.path.join('results', f'component_debug_{ts}.log')
             self.debug_log_path = sim_params.get('debug_log_path', default_path)
-            os.makedirs(os.path.dirname(self.debug_log_path), exist_ok=True)
+            os.makedirs(os.path.dirname(self.debug_log_path) or ".", exist_ok=True)
             with open(self.debug_log_path, 'w') as f:
                 f.write('# Component balance debug log\n')
                 f.write(f'# started {ts}\n')
-- 
2.43.0


From 681d0bf43c6967e1cf2abef0dac97d1c5415185a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:28:19 +0000
Subject: [PATCH 29/29] fix: capillary terms of the Newton matrix had the sign
 opposite to the residual

---
 src/simulator/simulation.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/src/simulator/simulation.py b/src/simulator/simulation.py
index faa2a22..191e0ff 100644
--- a/src/simulator/simulation.py
+++ b/src/simulator/simulation.py
@@ -1719,8 +1719,8 @@ class Simulator:
                         dfo_dsw1 = trans * dlambda_o_dsw[idx1] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 += trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 = trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 += trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 = trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
@@ -1738,8 +1738,8 @@ class Simulator:
                         dfo_dsw2 = trans * dlambda_o_dsw[idx2] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 += trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 = trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 += trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
@@ -1811,8 +1811,8 @@ class Simulator:
                         dfo_dsw1 = trans * dlambda_o_dsw[idx1] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 += trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 = trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 += trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 = trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
@@ -1830,8 +1830,8 @@ class Simulator:
                         dfo_dsw2 = trans * dlambda_o_dsw[idx2] * (dp + gravity_term_o)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 += trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 = trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 += trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
@@ -1902,8 +1902,8 @@ class Simulator:
                         dfw_dsw1 = trans * dlambda_w_dsw[idx1] * (dp - dp_cap + gravity_term_w)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 += trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 = trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 += trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 = trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
@@ -1916,8 +1916,8 @@ class Simulator:
                         dfw_dsw2 = trans * dlambda_w_dsw[idx2] * (dp - dp_cap + gravity_term_w)
                         
                         if self.fluid.pc_scale > 0:
-                            dfw_dsw1 = trans * lambda_w_up * (-dpc_dsw[idx1])
-                            dfw_dsw2 += trans * lambda_w_up * dpc_dsw[idx2]
+                            dfw_dsw1 = trans * lambda_w_up * dpc_dsw[idx1]
+                            dfw_dsw2 += trans * lambda_w_up * (-dpc_dsw[idx2])
                             
                             jacobian[2*idx1, 2*idx1+1] -= dfw_dsw1
                             jacobian[2*idx1, 2*idx2+1] -= dfw_dsw2
-- 
2.43.0

