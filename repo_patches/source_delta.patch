From 9d415fbc355762ef416da73cc70231aba3407560 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 01/18] fix: Spin::rotate in a vanishing field left NaN in the
 spin

---
 src/spin.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/spin.rs b/src/spin.rs
index 571cad2..301d148 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -171,6 +171,10 @@ impl Spin {
     #[inline]
     pub fn rotate(&mut self, field: &[f64; 3], dt: f64) {
         let fs: f64 = field.iter().map(|x| x * x).sum::<f64>().sqrt();
+        // No field, no precession (and no direction to normalise)
+        if fs == 0.0 {
+            return;
+        }
         let f: [f64; 3] = [field[0] / fs, field[1] / fs, field[2] / fs];
         let dts: f64 = fs * dt;
         let dc: f64 = dts.cos();
-- 
2.43.0


From fe4dafa6cda22d3bbab285d718d124722d04e16c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:40 +0000
Subject: [PATCH 02/18] fix: Spin::theta was NaN at the poles and off by pi for
 x=0, y>0

---
 src/spin.rs | 8 +-------
 1 file changed, 1 insertion(+), 7 deletions(-)

diff --git a/src/spin.rs b/src/spin.rs
index 301d148..b199ef0 100644
--- a/src/spin.rs
+++ b/src/spin.rs
@@ -1,5 +1,3 @@
-use std::f64::consts::PI;
-
 ///Struct for storing a 3-dimensional normalised spin
 
 #[derive(Debug, Clone)]
@@ -133,11 +131,7 @@ impl Spin {
     }
 
     pub fn theta(&self) -> f64 {
-        (self.dir[1] / self.dir[0]).atan()
-            + match self.dir[0] {
-                x if x > 0.0 => 0.0,
-                _ => PI,
-            }
+        self.dir[1].atan2(self.dir[0])
     }
 
     pub fn phi(&self) -> f64 {
-- 
2.43.0


From aa62b25f2672cc6c55367a705ad88b388914ba6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:24 +0000
Subject: [PATCH 03/18] fix: Magnus Metropolis update did not sample the Magnus
 Hamiltonian

The energy of the proposed spin used the z component of the old spin, the
correction had weight omega/2 instead of 1/(2 omega), and the terms of driven
neighbours were left out for sites just outside the subsystem (and for the
first site when the whole ring is driven).
---
 src/spinchain.rs          | 74 ++++++++++++++-------------------------
 src/spinchain_langevin.rs | 74 ++++++++++++++-------------------------
 2 files changed, 52 insertions(+), 96 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 39a3f59..b104bab 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -997,31 +997,32 @@ impl SpinChain {
         }
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
-        // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
-            ei -= PI / self.vars.tau
-                * (s_j.dir[2]
+        // Because j-1->j->j+1, flipping j effects *three* terms in the energy,
+        // each one only if the driving field is non-zero at its own site
+        let ss: usize = self.vars.ssize as usize;
+        let driven = |i: usize| i % s < ss;
+        let correction = |s_j: &Spin| -> f64 {
+            let mut sum: f64 = 0.0;
+            if driven(index) {
+                sum += s_j.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]);
+            }
+            if driven(index + s - 1) {
+                sum += 2.0
+                    * ((j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]);
+            }
+            if driven(index + 1) {
+                sum += 2.0
+                    * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0]) * s_jp1.dir[2]);
+            }
+            // 1/(2 omega) = tau/(4 pi)
+            sum * self.vars.tau / (4.0 * PI)
+        };
+        ei -= correction(s_j);
 
         // Select random angles
         let theta: f64 = 2.0 * PI * unif.sample(&mut rng);
@@ -1035,31 +1036,8 @@ impl SpinChain {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
-            de -= PI / self.vars.tau
-                * (s_j.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+        de -= correction(&new_spin);
+
         // Evaluate energy difference
         // Metropolis-Hastings acceptance/rejection:
         //  Accept if \Delta E < 0, or w/ prob e^{-\beta \Delta E} otherwise
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 365acf0..2934e81 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -332,31 +332,32 @@ impl SpinChainLangevin {
         }
 
         //-(1)/(2 \omega) (  S^z + 2y . (J_j S_{j+1} + J_{j-1} S_{j-1}) x S_j )
-        // Because j-1->j->j+1, flipping j effects *three* terms in the energy
-        // But only if the field is non-zero at site j
-        if index < self.vars.ssize as usize {
-            ei -= PI / self.vars.tau
-                * (s_j.dir[2]
+        // Because j-1->j->j+1, flipping j effects *three* terms in the energy,
+        // each one only if the driving field is non-zero at its own site
+        let ss: usize = self.vars.ssize as usize;
+        let driven = |i: usize| i % s < ss;
+        let correction = |s_j: &Spin| -> f64 {
+            let mut sum: f64 = 0.0;
+            if driven(index) {
+                sum += s_j.dir[2]
                     + 2.0
                         * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * s_j.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
-                                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * s_j.dir[2]);
+            }
+            if driven(index + s - 1) {
+                sum += 2.0
+                    * ((j_jm1[2] * s_j.dir[2] + j_jm2[2] * s_jm2.dir[2]) * s_jm1.dir[0]
+                        - (j_jm1[0] * s_j.dir[0] + j_jm2[0] * s_jm2.dir[0]) * s_jm1.dir[2]);
+            }
+            if driven(index + 1) {
+                sum += 2.0
+                    * ((j_jp1[2] * s_jp2.dir[2] + j_j[2] * s_j.dir[2]) * s_jp1.dir[0]
+                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * s_j.dir[0]) * s_jp1.dir[2]);
+            }
+            // 1/(2 omega) = tau/(4 pi)
+            sum * self.vars.tau / (4.0 * PI)
+        };
+        ei -= correction(s_j);
 
         // Select random angles
         let theta: f64 = 2.0 * PI * unif.sample(&mut rng);
@@ -370,31 +371,8 @@ impl SpinChainLangevin {
                 s_jm1.dir[k] * j_jm1[k] * new_spin.dir[k] + new_spin.dir[k] * j_j[k] * s_jp1.dir[k];
         }
 
-        if index < self.vars.ssize as usize {
-            de -= PI / self.vars.tau
-                * (s_j.dir[2]
-                    + 2.0
-                        * ((j_j[2] * s_jp1.dir[2] + j_jm1[2] * s_jm1.dir[2]) * new_spin.dir[0]
-                            - (j_j[0] * s_jp1.dir[0] + j_jm1[0] * s_jm1.dir[0]) * new_spin.dir[2]
-                            + match index {
-                                _ if index == 0 => 0.0,
-                                _ => {
-                                    (j_jm1[2] * new_spin.dir[2] + j_jm2[2] * s_jm2.dir[2])
-                                        * s_jm1.dir[0]
-                                        - (j_jm1[0] * new_spin.dir[0] + j_jm2[0] * s_jm2.dir[0])
-                                            * s_jm1.dir[2]
-                                }
-                            }
-                            + match index {
-                                _ if index == (self.vars.ssize - 1) as usize => 0.0,
-                                _ => {
-                                    (j_jp1[2] * s_jp2.dir[2] + j_j[2] * new_spin.dir[2])
-                                        * s_jp1.dir[0]
-                                        - (j_jp1[0] * s_jp2.dir[0] + j_j[0] * new_spin.dir[0])
-                                            * s_jp1.dir[2]
-                                }
-                            }));
-        }
+        de -= correction(&new_spin);
+
         // Evaluate energy difference
 
         // Accept/reject
-- 
2.43.0


From 0f21a64daad3a8dc4ae1a921eab9e981b0afe2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:01 +0000
Subject: [PATCH 04/18] fix: second-order Magnus update used the wrong
 neighbour in one term

The x component of the exchange field at site j+1 was built from J_{j-2} S_{j-2}
instead of J_j S_j, so the accepted energy difference was not that of any
Hamiltonian.
---
 src/spinchain.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index b104bab..465a5d5 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -610,7 +610,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             ei2 -= s_jp1.dir[0]
                 * ((j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * s_j.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * s_j.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * s_j.dir[2] + j_jp1[2] * s_jp2.dir[2])
@@ -791,7 +791,7 @@ impl SpinChain {
                     + s_jp1.dir[2] * (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2]));
             de2 -= s_jp1.dir[0]
                 * ((j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
-                    * (j_jm2[0] * s_jm2.dir[0] + j_jp1[0] * s_jp2.dir[0])
+                    * (j_j[0] * new_spin.dir[0] + j_jp1[0] * s_jp2.dir[0])
                     + (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                         * (j_j[1] * new_spin.dir[1] + j_jp1[1] * s_jp2.dir[1])
                     + (j_j[2] * new_spin.dir[2] + j_jp1[2] * s_jp2.dir[2])
-- 
2.43.0


From 1828ff5f621c39d0a3c0cae8a8dbe193af09e735 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:15 +0000
Subject: [PATCH 05/18] fix: Monte-Carlo energies of the Magnus ensembles were
 not those sampled

The rotating-frame energy counted every bond correction twice and every triple
three times; the lab-frame energy added a correction its update does not have.
---
 src/spinchain.rs | 88 +-----------------------------------------------
 1 file changed, 1 insertion(+), 87 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 465a5d5..512b2b9 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -1474,64 +1474,6 @@ impl SpinChain {
             e += -self.spins[i].dir[2] / (2.0 * om);
         }
 
-        let mut mg: f64 = 0.0;
-        // Now for correction term
-        for index in 0..h {
-            let s_c: &Spin = &self.spins[index];
-            let s_l: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 1],
-                _ => &self.spins[index - 1],
-            };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
-
-            let s_r: &Spin = match index {
-                _ if index == h - 1 => &self.spins[0],
-                _ => &self.spins[index + 1],
-            };
-
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
-            let j_l: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 1],
-            };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
-
-            let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
-
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
-            mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
-            mg += (j_l[1] - j_l[0])
-                * (j_r[1] - j_r[0])
-                * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
-        }
-
-        e -= mg / (16.0 * om);
-
         e / (h as f64)
     }
 
@@ -1575,59 +1517,31 @@ impl SpinChain {
         }
 
         let mut mg: f64 = 0.0;
-        // Now for correction term
+        // Now for correction term: every bond and every triple once
         for index in 0..h {
             let s_c: &Spin = &self.spins[index];
             let s_l: &Spin = match index {
                 _ if index == 0 => &self.spins[h - 1],
                 _ => &self.spins[index - 1],
             };
-            let s_ll: &Spin = match index {
-                _ if index == 0 => &self.spins[h - 2],
-                _ if index == 1 => &self.spins[h - 1],
-                _ => &self.spins[index - 2],
-            };
 
             let s_r: &Spin = match index {
                 _ if index == h - 1 => &self.spins[0],
                 _ => &self.spins[index + 1],
             };
 
-            let s_rr: &Spin = match index {
-                _ if index == h - 2 => &self.spins[0],
-                _ if index == h - 1 => &self.spins[1],
-                _ => &self.spins[index + 2],
-            };
-
             let j_l: &[f64; 3] = match index {
                 _ if index == 0 => &self.j_couple[h - 1],
                 _ => &self.j_couple[index - 1],
             };
-            let j_ll: &[f64; 3] = match index {
-                _ if index == 0 => &self.j_couple[h - 2],
-                _ if index == 1 => &self.j_couple[h - 1],
-                _ => &self.j_couple[index - 2],
-            };
 
             let j_r: &[f64; 3] = &self.j_couple[index];
-            let j_rr: &[f64; 3] = match index {
-                _ if index == h - 1 => &self.j_couple[0],
-                _ => &self.j_couple[index + 1],
-            };
 
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_c, s_c, s_r);
             mg += (j_r[1] - j_r[0]) * (j_r[1] - j_r[0]) * SpinChain::zxi_trip(s_r, s_r, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_l, s_l, s_c);
-            mg += (j_l[1] - j_l[0]) * (j_l[1] - j_l[0]) * SpinChain::zxi_trip(s_c, s_c, s_l);
             mg += (j_l[1] - j_l[0])
                 * (j_r[1] - j_r[0])
                 * (SpinChain::zxi_trip(s_r, s_l, s_c) + SpinChain::zxi_trip(s_l, s_r, s_c));
-            mg += (j_ll[1] - j_ll[0])
-                * (j_l[1] - j_l[0])
-                * (SpinChain::zxi_trip(s_c, s_ll, s_l) + SpinChain::zxi_trip(s_ll, s_c, s_l));
-            mg += (j_r[1] - j_r[0])
-                * (j_rr[1] - j_rr[0])
-                * (SpinChain::zxi_trip(s_rr, s_c, s_r) + SpinChain::zxi_trip(s_c, s_rr, s_r));
         }
 
         e -= mg / (16.0 * om);
-- 
2.43.0


From f59557b95d6a8a3d68e1b456c5b81e531172daa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:03:53 +0000
Subject: [PATCH 06/18] fix: infinite temperature (beta = 0) gave an initial
 state of NaN spins

---
 src/spinchain.rs          | 10 ++++++++--
 src/spinchain_langevin.rs | 10 ++++++++--
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 512b2b9..7fc5f43 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -152,8 +152,14 @@ impl SpinChain {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                let u: f64 = unif.sample(&mut r);
+                // At infinite temperature P(\theta) = \sin\theta, and the expression below is 0/0
+                let rot_cos: f64 = if beta_eff == 0.0 {
+                    1.0 - 2.0 * u
+                } else {
+                    (b_e - u * (b_e - b_ei)).ln() / beta_eff
+                };
+                let rot_angle: f64 = rot_cos.acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 2934e81..95991aa 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -143,8 +143,14 @@ impl SpinChainLangevin {
 
                 // Inverse transform sample \theta from the distribution P(\theta) =  \sin \theta e^{\beta\cos\theta}
 
-                let rot_angle: f64 =
-                    ((b_e - unif.sample(&mut r) * (b_e - b_ei)).ln() / beta_eff).acos();
+                let u: f64 = unif.sample(&mut r);
+                // At infinite temperature P(\theta) = \sin\theta, and the expression below is 0/0
+                let rot_cos: f64 = if beta_eff == 0.0 {
+                    1.0 - 2.0 * u
+                } else {
+                    (b_e - u * (b_e - b_ei)).ln() / beta_eff
+                };
+                let rot_angle: f64 = rot_cos.acos();
 
                 // Rotate by \theta about random direction
                 let n: [f64; 2] = Spin::rot_perp(&[theta, phi], &rot_dir, rot_angle);
-- 
2.43.0


From 3e59133cab040c3d64bae251aff00e003c491318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:01 +0000
Subject: [PATCH 07/18] fix: Langevin boundary term includes the static field

---
 src/spinchain_langevin.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index 95991aa..ec9f44e 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -533,20 +533,23 @@ impl SpinChainLangevin {
         // |S_\ell|^2
         let slsq: f64 = sq!(self.spins[ell - 1].dir);
 
+        // B(t) is the static field plus the drive
         let h_e: [f64; 3] = self.h_ext(self.t);
+        let h_1: [f64; 3] = Self::sum_vec(&self.static_h[0], &h_e);
+        let h_ell: [f64; 3] = Self::sum_vec(&self.static_h[ell - 1], &h_e);
 
         //Use macro to do these things later, for now just use vec
         //\Omega_1 = J_1 S_2 - B(t)
 
         let om_1: Vec<f64> = (0..3)
-            .map(|x| self.j_couple[0][x] * self.spins[1].dir[x] - h_e[x])
+            .map(|x| self.j_couple[0][x] * self.spins[1].dir[x] - h_1[x])
             .collect();
         let om_1_sq: f64 = sq!(om_1);
         let oms1: f64 = dot!(om_1, self.spins[0].dir);
 
         //\Omega_\ell = J_{\ell-1} S_{\ell-1} - B(t)
         let om_ell: Vec<f64> = (0..3)
-            .map(|x| self.j_couple[ell - 2][x] * self.spins[ell - 2].dir[x] - h_e[x])
+            .map(|x| self.j_couple[ell - 2][x] * self.spins[ell - 2].dir[x] - h_ell[x])
             .collect();
         let om_ell_sq: f64 = sq!(om_ell);
         let omsell: f64 = dot!(om_ell, self.spins[ell - 1].dir);
-- 
2.43.0


From d229f8b93ead94667b508c97463c369687ad9c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:18 +0000
Subject: [PATCH 08/18] fix: stroboscopic records were taken at the wrong steps

---
 src/obs.rs | 31 +++++++++++++++++++++----------
 1 file changed, 21 insertions(+), 10 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index f5c3cdc..49e025c 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -492,7 +492,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
         let txc = mpsc::Sender::clone(&tx);
         let pb = m.add(ProgressBar::new((1000.0 * conf.tau) as u64));
         let steps: usize = (1000.0 * conf.tau / conf.dt) as usize;
-        let steps_in_cycle: usize = (conf.tau / conf.dt) as usize;
+        let steps_in_cycle: usize = (conf.tau / conf.dt).round() as usize;
         pb.set_style(sty.clone());
 
         let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
@@ -566,7 +566,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //    sc.metropolis_update();
     //}
 
-    let init_steps = (offset * conf.tau / conf.dt) as usize;
+    let init_steps = (offset * conf.tau / conf.dt).round() as usize;
     let steps = (final_t / conf.dt) as usize;
     println!(
         "Generating dynamics histogram for {} steps i.e. t={}",
@@ -574,7 +574,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
         (steps as f64) * conf.dt
     );
     let mut step_count: u64 = 0;
-    let cycle_steps: u64 = (conf.tau / conf.dt) as u64;
+    let cycle_steps: u64 = (conf.tau / conf.dt).round() as u64;
 
     println!("Sample num: {}", sample_num);
     for _ in 0..init_steps {
@@ -914,7 +914,9 @@ pub fn run_langevin(conf: &mut Config, gamma: f64) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as u64).rem_euclid(tau_steps)
+                        == 0
+                    {
                         spin_chain.log();
                     }
                 } else {
@@ -971,7 +973,8 @@ pub fn run_sim_response(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary!
+            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as u64;
 
             spin_chain.log();
             spin_chain.t = -spin_chain.vars.t;
@@ -984,7 +987,9 @@ pub fn run_sim_response(conf: &mut Config) {
                 }
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t.abs() / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0
+                    if ((spin_chain.t.abs() / spin_chain.vars.dt).round() as u64)
+                        .rem_euclid(tau_steps)
+                        == 0
                     {
                         spin_chain.log();
                     }
@@ -1042,7 +1047,8 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary!
+            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as u64;
 
             spin_chain.log();
 
@@ -1050,7 +1056,9 @@ pub fn run_sim(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as u64).rem_euclid(tau_steps)
+                        == 0
+                    {
                         spin_chain.log();
                     }
                 } else {
@@ -1290,7 +1298,8 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.metropolis_update();
             }
             pb.reset_eta();
-            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt) as u64;
+            //Round is necessary!
+            let tau_steps: u64 = (spin_chain.vars.tau / spin_chain.vars.dt).round() as u64;
 
             spin_chain.log();
 
@@ -1298,7 +1307,9 @@ pub fn run_ext(conf: &mut Config) {
                 spin_chain.update();
 
                 if spin_chain.vars.strob {
-                    if ((spin_chain.t / spin_chain.vars.dt) as u64).rem_euclid(tau_steps) == 0 {
+                    if ((spin_chain.t / spin_chain.vars.dt).round() as u64).rem_euclid(tau_steps)
+                        == 0
+                    {
                         spin_chain.log_ext();
                     }
                 } else {
-- 
2.43.0


From ed1334452446394ce9a7361b6674ee9bf76d5a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 09/18] fix: averages left out the first record of logs without
 a header

---
 src/obs.rs | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 49e025c..a494f9f 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1373,8 +1373,8 @@ pub fn two_point_average(conf: &mut Config) {
 
                     // First get the data at line 0
                     let reader = BufReader::new(file);
-                    for line in reader.lines().skip(1) {
-                        let line = line.unwrap();
+                    let lines = reader.lines().map(|line| line.unwrap());
+                    for line in lines.filter(|line| !line.starts_with('#')) {
                         let line_data: Vec<f64> = line
                             .split(' ')
                             .flat_map(str::parse::<f64>)
@@ -1390,9 +1390,9 @@ pub fn two_point_average(conf: &mut Config) {
                 let reader = BufReader::new(file);
 
                 //Run through line-by-line
-                //Skip first line
-                for (i, line) in reader.lines().skip(1).enumerate() {
-                    let line = line.unwrap();
+                //Skip header, if there is one
+                let lines = reader.lines().map(|line| line.unwrap());
+                for (i, line) in lines.filter(|line| !line.starts_with('#')).enumerate() {
 
                     // Read line into appropriate vector
 
@@ -1471,9 +1471,9 @@ pub fn average(conf: &mut Config) {
                 let reader = BufReader::new(file);
 
                 //Run through line-by-line
-                //Skip first line
-                for (i, line) in reader.lines().skip(1).enumerate() {
-                    let line = line.unwrap();
+                //Skip header, if there is one
+                let lines = reader.lines().map(|line| line.unwrap());
+                for (i, line) in lines.filter(|line| !line.starts_with('#')).enumerate() {
 
                     //                    println!("Line {}: {}", i, &line);
                     // Read line into appropriate vector
-- 
2.43.0


From d9e804fdac23a0b9c84fcf43bd5f49c1b9c18f82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 10/18] fix: the program could end before all samples were on
 file

---
 src/obs.rs     | 24 ++++++++++++++++++++----
 src/writers.rs |  7 +++++--
 2 files changed, 25 insertions(+), 6 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index a494f9f..48c5b26 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -611,7 +611,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         .unwrap();
 
     let (tx, rx) = mpsc::channel();
-    write_in_bg(dyn_hist, rx);
+    let writing_thread = write_in_bg(dyn_hist, rx);
     let m = MultiProgress::new();
     let sty = ProgressStyle::default_bar()
         .template(
@@ -668,6 +668,10 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         });
     }
     m.join().unwrap();
+
+    //Close channel, and wait until everything is on file
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 ///Generate ```sample_num``` samples via Monte Carlo and dynamical evolution to check that the
@@ -813,7 +817,7 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
         .open(evt_string)
         .unwrap();
 
-    write_in_bg(evt_file, rx);
+    let writing_thread = write_in_bg(evt_file, rx);
 
     println!("Energy density: {}", conf.ednsty);
     println!("Effective temperature: {}", conf.beta);
@@ -873,6 +877,10 @@ pub fn run_tau(taus: Vec<f64>, steps: u32, conf: &mut Config) {
     }
 
     m.join().unwrap();
+
+    //Close channel, and wait until everything is on file
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_langevin(conf: &mut Config, gamma: f64) {
@@ -1535,7 +1543,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1609,6 +1617,10 @@ pub fn run_mc_magnus(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+
+    //Close channel, and wait until everything is on file
+    drop(tx);
+    writing_thread.join().unwrap();
 }
 
 pub fn run_mc_profile(conf: &mut Config) {
@@ -1726,7 +1738,7 @@ pub fn run_mc(conf: &mut Config) {
     let (tx, rx) = mpsc::channel();
 
     let points: usize = conf.mc_points;
-    write_in_bg(file, rx);
+    let writing_thread = write_in_bg(file, rx);
 
     // Create storage for the points
     /*
@@ -1800,4 +1812,8 @@ pub fn run_mc(conf: &mut Config) {
         });
     }
     m.join().unwrap();
+
+    //Close channel, and wait until everything is on file
+    drop(tx);
+    writing_thread.join().unwrap();
 }
diff --git a/src/writers.rs b/src/writers.rs
index 23386a0..688cb4c 100644
--- a/src/writers.rs
+++ b/src/writers.rs
@@ -1,11 +1,14 @@
 use super::*;
 
-pub fn write_in_bg(file: File, rx: std::sync::mpsc::Receiver<String>) {
+pub fn write_in_bg(
+    file: File,
+    rx: std::sync::mpsc::Receiver<String>,
+) -> thread::JoinHandle<()> {
     thread::spawn(move || {
         for received in rx {
             writeln!(&file, "{}", &received).unwrap();
         }
-    });
+    })
 }
 
 pub fn profile_in_bg(
-- 
2.43.0


From 2f0ad6e3d6f9eeace0024c808676c0cf7e5ac2d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:17 +0000
Subject: [PATCH 11/18] fix: --beta had no effect together with --ext,
 --n-steps or --adiabatic

---
 src/main.rs | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/main.rs b/src/main.rs
index 66cfb01..61be67c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -146,6 +146,9 @@ fn main() {
     if let Some(tau) = args.tau {
         conf.tau = tau;
     }
+    if let Some(beta) = args.beta {
+        conf.beta = beta;
+    }
 
     match args.config_desc {
         false => {}
-- 
2.43.0


From 32ced9d8aa5f2dbb001c17da218406f4289467d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:33:43 +0000
Subject: [PATCH 12/18] fix: Monte-Carlo and histogram modes emptied the logs
 of earlier runs

---
 src/obs.rs | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/src/obs.rs b/src/obs.rs
index 48c5b26..180c0ed 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -1,7 +1,14 @@
 use super::*;
 
+///A chain which is only sampled has no log, and must not replace that of an earlier run
+fn unlogged(conf: &Config) -> Config {
+    let mut conf = conf.clone();
+    conf.log = false;
+    conf
+}
+
 pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -20,7 +27,7 @@ pub fn estim_e(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -39,7 +46,7 @@ pub fn estim_e_maglab(conf: &mut Config, beta: f64) -> f64 {
 }
 
 pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     sc.vars.beta = beta;
     let samples: usize = 1000;
@@ -57,7 +64,7 @@ pub fn estim_e_rot(conf: &mut Config, beta: f64) -> f64 {
     e_samples.iter().fold(0.0, |acc, x| acc + x) / (samples as f64)
 }
 pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -78,7 +85,7 @@ pub fn estim_e2(conf: &mut Config, beta: f64) -> f64 {
 }
 pub fn estim_eh(conf: &mut Config, beta: f64) -> f64 {
     // let omega: f64 = 2.0 * PI / conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
     //    println!("Field: {:?}", sc.static_h);
 
     //let omega: f64 = 2.0 * PI / conf.tau;
@@ -281,7 +288,7 @@ pub fn get_obs_maglab(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -315,7 +322,7 @@ pub fn get_obs_rot(conf: &mut Config) -> [f64; 4] {
     //
     conf.ssize = conf.hsize;
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -348,7 +355,7 @@ pub fn get_obsh(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -379,7 +386,7 @@ pub fn get_obs(conf: &mut Config) -> [f64; 4] {
     conf.ssize = conf.hsize;
     //    println!("Target? {}", estim_e(conf,2.88));
 
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let samples: usize = 8000;
     let mut e_samples: Vec<f64> = vec![0.0; samples];
@@ -495,7 +502,7 @@ pub fn trajectory_mean_e(conf: &mut Config) -> f64 {
         let steps_in_cycle: usize = (conf.tau / conf.dt).round() as usize;
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
         pool.execute(move || {
             pb.set_message(format!("run {}", i));
@@ -551,7 +558,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
     //Then sample every 10 cycles?
     let offset: f64 = 30.0;
     let final_t: f64 = (sample_num as f64 + offset) * conf.tau;
-    let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+    let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
 
     let pb = ProgressBar::new(final_t as u64);
     let sty = ProgressStyle::default_bar()
@@ -641,7 +648,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         let pb = m.add(ProgressBar::new(conf.t as u64));
         pb.set_style(sty.clone());
 
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), 0);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), 0);
         //        sc.file = f.try_clone().unwrap();
 
         pool.execute(move || {
@@ -1571,7 +1578,7 @@ pub fn run_mc_magnus(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1664,7 +1671,7 @@ pub fn run_mc_profile(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
@@ -1766,7 +1773,7 @@ pub fn run_mc(conf: &mut Config) {
     let t_points: u32 = (points / threads) as u32;
 
     for i in 0..threads {
-        let mut sc: SpinChain = SpinChain::new(conf.clone(), i);
+        let mut sc: SpinChain = SpinChain::new(unlogged(conf), i);
         let txc = mpsc::Sender::clone(&tx);
 
         //Make up points in last thread if not divisble
-- 
2.43.0


From c29e963942a6f40f5f6a98e5953eb2804ac88a95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:10 +0000
Subject: [PATCH 13/18] fix: dynamics histogram could stop a step before the
 time asked for

---
 src/obs.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/obs.rs b/src/obs.rs
index 180c0ed..e996217 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -626,7 +626,7 @@ pub fn gen_hist_dynamics(conf: &mut Config, sample_num: usize) {
         )
         .progress_chars("#>-");
 
-    let steps = (conf.t / conf.dt) as usize;
+    let steps = (conf.t / conf.dt).round() as usize;
     println!(
         "Generating dynamics histogram for {} steps i.e. t={}",
         steps,
-- 
2.43.0


From c0e97477f662c032c5e4b1211b6edd87fca55a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:31:40 +0000
Subject: [PATCH 14/18] fix: a trajectory of one step per period could hold a
 sample too many

---
 src/obs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/obs.rs b/src/obs.rs
index e996217..dfcddd5 100644
--- a/src/obs.rs
+++ b/src/obs.rs
@@ -589,7 +589,8 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
         pb.set_position(sc.t as u64);
         step_count += 1;
     }
-    while sc.t < final_t {
+    let mut samples: usize = 0;
+    while samples < sample_num {
         sc.update();
         step_count += 1;
 
@@ -604,6 +605,7 @@ pub fn gen_single_traj(conf: &mut Config, sample_num: usize) {
             let formatted_string: String = format!("{} {} {} {} {}", sc.t, mx, my, mz, ed);
 
             writeln!(&dyn_hist, "{}", formatted_string).unwrap();
+            samples += 1;
         }
     }
 }
-- 
2.43.0


From 32b1ddabccb571a4e98ace79479d64c9694cfe54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:39 +0000
Subject: [PATCH 15/18] fix: accept the documented comma-separated list of
 periods for --n-steps

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index 61be67c..d83e291 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -77,7 +77,12 @@ struct Args {
     config_desc: bool,
 
     ///Generate single-shot time-evolution at different drive periods tau
-    #[clap(long = "n-steps", short, value_name = "TAU1,TAU2,...")]
+    #[clap(
+        long = "n-steps",
+        short,
+        value_delimiter = ',',
+        value_name = "TAU1,TAU2,..."
+    )]
     n_steps_taus: Option<Vec<f64>>,
 
     ///Find adiabatic ensemble H-\\omega S^z
-- 
2.43.0


From 8f3b1b2614e032ec85af96b84990128b4369f001 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:39 +0000
Subject: [PATCH 16/18] fix: accept a negative energy density for --magnus-fit

---
 src/main.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/main.rs b/src/main.rs
index d83e291..51add65 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -107,7 +107,12 @@ struct Args {
     ext: bool,
 
     /// Fit temperature of Monte-Carlo ensemble with energy density E in lab frame, leading Magnus
-    #[clap(short = 'E', long = "magnus-fit", value_name = "E")]
+    #[clap(
+        short = 'E',
+        long = "magnus-fit",
+        allow_hyphen_values = true,
+        value_name = "E"
+    )]
     maglab: Option<f64>, //E
 
     //Set step limit when doing n-steps
-- 
2.43.0


From 7d149a3d4d39c126c36b2fd0fe6bfd0b6d1f8fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:39 +0000
Subject: [PATCH 17/18] fix: do not overwrite a configuration file which cannot
 be read

---
 src/spinchain.rs          | 6 +++++-
 src/spinchain_langevin.rs | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/spinchain.rs b/src/spinchain.rs
index 7fc5f43..ea887bb 100644
--- a/src/spinchain.rs
+++ b/src/spinchain.rs
@@ -93,7 +93,11 @@ impl SpinChain {
                     //Config::default()
                 }
             },
-            Err(e) => {
+            Err(e) if e.kind() != std::io::ErrorKind::NotFound => {
+                //Do not overwrite a configuration which is there but cannot be read
+                panic!("Cannot read configuration {}: {}", filename, e);
+            }
+            Err(_) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
                     filename
diff --git a/src/spinchain_langevin.rs b/src/spinchain_langevin.rs
index ec9f44e..6637b3b 100644
--- a/src/spinchain_langevin.rs
+++ b/src/spinchain_langevin.rs
@@ -84,7 +84,11 @@ impl SpinChainLangevin {
                     //Config::default()
                 }
             },
-            Err(e) => {
+            Err(e) if e.kind() != std::io::ErrorKind::NotFound => {
+                //Do not overwrite a configuration which is there but cannot be read
+                panic!("Cannot read configuration {}: {}", filename, e);
+            }
+            Err(_) => {
                 eprintln!(
                     "Problem reading {}, written default configuration to config.toml and using this",
                     filename
-- 
2.43.0


From 4248e8c2b2d52d50de5b7a7c719ed3963bc4fb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:02:51 +0000
Subject: [PATCH 18/18] fix: print the description of the configuration with
 --config-desc

---
 README.md            |  6 ++++--
 src/config-desc.toml | 24 ++++++++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/README.md b/README.md
index ca56b7c..3aafd5c 100644
--- a/README.md
+++ b/README.md
@@ -91,8 +91,10 @@ file = "log"   # pattern for log files i.e. log0.dat, log1.dat
 strob = false  # stroboscopic evaluation
 offset = 0     # first file i.e. log0.dat
 beta = 2.88    # beta (determined from ednsty)
-e = 0.9    # eccentricity (scale of y-drive if drivetype="xyelliptic")
-drivetype = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic" 
+mc_points = 1000 # number of Monte-Carlo samples
+e = 0.9        # eccentricity (scale of y-drive if drive="xyelliptic")
+drive = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic", "staticfield", "none"
+log = true     # write log files
 
 ```
 
diff --git a/src/config-desc.toml b/src/config-desc.toml
index e69de29..fc22669 100644
--- a/src/config-desc.toml
+++ b/src/config-desc.toml
@@ -0,0 +1,24 @@
+# Default config and description of options
+hsize = 512    # size of the system
+ssize = 8      # size of subsystem (driven part)
+t = 256        # final time of simulation
+dt = 0.02      # time-step for simulation
+runs = 2       # number runs to perform
+threads = 2    # number of parallel threads
+trel = 0       # minus initial time
+tau = 10       # period of drive
+lambda = 1     # value of J_z coupling
+hfield = [0.0, 0.0, 0.0] # constant h field on entire system
+hs = [0.0, 0.0, 0.0]     # constant h field on subsystem
+jvar = 0.001   # variance in J couplings (x, y, z independent)
+hvar = 0       # variance in field
+method = 2     # method for numerical integration (2=2nd order Suzuki-Trotter)
+ednsty = -0.66 # energy-density of initial state
+file = "log"   # pattern for log files i.e. log0.dat, log1.dat
+strob = false  # stroboscopic evaluation
+offset = 0     # first file i.e. log0.dat
+beta = 2.88    # beta (determined from ednsty)
+mc_points = 1000 # number of Monte-Carlo samples
+e = 0.9        # eccentricity (scale of y-drive if drive="xyelliptic")
+drive = "xyplane" # type of driving, can be "xyplane", "uniaxial", "xyelliptic", "staticfield", "none"
+log = true     # write log files
-- 
2.43.0

