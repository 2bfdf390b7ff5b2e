From 00a30d1908a968d4ed07009d1bdd281e0158fb2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 01/59] fix: initial mic samples only fill the propagated
 interval, not the whole buffer

---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 69e17ad..422d616 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -437,7 +437,7 @@ class Propagator():
         for src, mic in self.arrays.mic_src_combos():
             propagated_signal = self.path_filters[src.name][mic.name].process(
                     self.sig[src.name][:, end_sample - num_samples:end_sample])
-            self.sig[mic.name][:,:self.sim_info.sim_buffer] += propagated_signal
+            self.sig[mic.name][:,end_sample - num_samples:end_sample] += propagated_signal
             if self.sim_info.save_source_contributions:
                 self.sig[f"{src.name}~{mic.name}"][:,end_sample - num_samples:end_sample] = propagated_signal
         self.sig.idx = self.sim_info.sim_buffer
-- 
2.43.0


From 7acdf67970125245ebb70c8ffeddff1cf38e330e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 02/59] fix: keep the buffer from overflowing without a
 processor when sim_buffer is below 4

---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 422d616..44e29a6 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -286,7 +286,7 @@ class Simulator:
 
         # the else value (which happens when there is no processor) can be changed to just about anything. Could be set to 1, or 
         # set to a high value that can be used to speed up. 
-        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else self.sim_info.sim_buffer // 4  
+        max_block_size = np.max([proc.block_size for proc in self.processors]) if self.processors else max(1, self.sim_info.sim_buffer // 4)
 
         print("SIM START")
         self.n_tot = 0
-- 
2.43.0


From d557b471db91384eb33f8187174c3cd65161a91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 03/59] fix: get_values_from_selection returns nothing when all
 indices are beyond max_idx

---
 src/aspsim/diagnostics/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index e2c4c5d..bd892b0 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -527,9 +527,10 @@ def get_values_from_selection(signal, time_indices, max_idx):
         assert signal.shape[-1] == 0
         return signal, time_indices
 
-    above_max_idx = np.argmax(time_indices >= max_idx)
+    is_above_max_idx = time_indices >= max_idx
+    above_max_idx = np.argmax(is_above_max_idx)
     if above_max_idx == 0:
-        if np.logical_not(above_max_idx).all():
+        if np.logical_not(is_above_max_idx).all():
             above_max_idx = len(time_indices)
 
     time_indices = time_indices[:above_max_idx]
-- 
2.43.0


From fd5c34d5cda1a146ec2060f51a72c315daf97ca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 04/59] fix: StatePower passes export_at and save_frequency in
 the right order

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index bdfdb82..7fbb78e 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -211,7 +211,7 @@ class StatePower(diacore.StateDiagnostic):
                         export_at=None,
                         save_frequency=None, 
                         **kwargs):
-        super().__init__(sim_info, save_frequency, export_at, **kwargs)
+        super().__init__(sim_info, export_at, save_frequency, **kwargs)
         
         self.power = np.full((self.save_at.num_values), np.nan)
         self.time_indices = np.full((self.save_at.num_values), np.nan, dtype=int)
-- 
2.43.0


From c0a4cee3eb756782900b7b2dda7b38caeb860e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 05/59] fix: RecordState stores matrix and tensor states along
 the last axis

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index 7fbb78e..a33265a 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -143,7 +143,7 @@ class RecordState(diacore.StateDiagnostic):
 
     def save(self, processor, sig, chunkInterval, globInterval):
         assert globInterval[1] - globInterval[0] == 1
-        self.state_values[:, self.diag_idx] = self.get_prop(processor)
+        self.state_values[..., self.diag_idx] = self.get_prop(processor)
         self.time_indices[self.diag_idx] = globInterval[0]
 
         self.diag_idx += 1
-- 
2.43.0


From 172b887e3cda35636711013e9e974f562f668151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 06/59] fix: SignalPowerRatio keeps its smoothing state between
 saves

---
 src/aspsim/diagnostics/diagnostics.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index a33265a..bc1b038 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -190,13 +190,13 @@ class SignalPowerRatio(diacore.SignalDiagnostic):
 
         self.numerator_channels = numerator_channels
         self.denom_channels = denom_channels
+
+        self.smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
+        self.smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
         
     def save(self, processor, sig, chunkInterval, globInterval):
-        smoother_num = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-        smoother_denom = fc.create_filter(ir=np.ones((1,1,self.sim_info.output_smoothing)) / self.sim_info.output_smoothing)
-
-        num = smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
-        denom = smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        num = self.smoother_num.process(np.mean(np.abs(sig[self.numerator_name][self.numerator_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
+        denom = self.smoother_denom.process(np.mean(np.abs(sig[self.denom_name][self.denom_channels, chunkInterval[0]:chunkInterval[1]])**2,axis=0, keepdims=True))
 
         self.power_ratio[globInterval[0]:globInterval[1]] = num / denom
 
-- 
2.43.0


From 8c1ff9e74ab6538afa2b0040baeb6468b9c75519 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 07/59] fix: SoundfieldPower reads the simulation signals, also
 without a processor

---
 src/aspsim/diagnostics/diagnostics.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/diagnostics.py b/src/aspsim/diagnostics/diagnostics.py
index bc1b038..2484d80 100644
--- a/src/aspsim/diagnostics/diagnostics.py
+++ b/src/aspsim/diagnostics/diagnostics.py
@@ -351,7 +351,7 @@ class SoundfieldPower(diacore.Diagnostic):
         #src_sig = {src_name : np.zeros((arrays[src_name].num)) for src_name in source_names}
 
     def save(self, processor, sig, chunkInterval, globInterval):
-        self.power[:] += np.sum(np.abs(processor.sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
+        self.power[:] += np.sum(np.abs(sig[self.sig_name][:,chunkInterval[0]:chunkInterval[1]])**2, axis=-1) / self.num_avg
 
     def get_output(self):
         return self.power
-- 
2.43.0


From 7a94b11fdde758e62cd53e002f97d6aded320ce9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 08/59] fix: PhaseCounter reaches the phase None when all
 phases have finished

---
 src/aspsim/counter.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/aspsim/counter.py b/src/aspsim/counter.py
index a0905cf..765f871 100644
--- a/src/aspsim/counter.py
+++ b/src/aspsim/counter.py
@@ -59,6 +59,9 @@ class PhaseCounter:
 
         self._phase_names = [phase_name for phase_name, phase_len in self.phase_lengths.items() if phase_len > 0]
         self._start_idxs = [start_idx for start_idx, phase_len in zip(self.start_idxs.values(), self.phase_lengths.values()) if phase_len > 0]
+        if None in self.phase_names:
+            self._phase_names.append(None)
+            self._start_idxs.append(self.start_idxs[None])
 
         self.idx = 0
         self.next_phase()
-- 
2.43.0


From ab89f557f0d1fd00c1210ccfd77960b3285cdf5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 09/59] fix: Sequence in raise mode plays its last sample and
 applies amp_factor

---
 src/aspsim/signal/sources.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 1c77539..2903691 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -82,12 +82,11 @@ class Sequence(Source):
         elif self.end_mode == "zeros":
             raise NotImplementedError
         elif self.end_mode == "raise":
-            if self.current_sample + num_samples >= self.tot_samples:
+            if self.current_sample + num_samples > self.tot_samples:
                 raise StopIteration("End of audio signal")
 
             sig = self.audio[:,self.current_sample:self.current_sample+num_samples]
             self.current_sample += num_samples
-            return sig
         else:
             raise ValueError("Invalid end mode")
         return sig * self.amp_factor
-- 
2.43.0


From b39fa9d90d3e13e0b180331956cf1cc9f071cdb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 10/59] fix: MLS uses the supplied start state

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 2903691..a73377e 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -401,11 +401,11 @@ class MLS(Source):
             raise NotImplementedError
         self.order = order
         self.poly = polynomial
-        self.state = None
+        self.state = state
 
         self.metadata["order"] = self.order
         self.metadata["polynomial"] = self.poly
-        self.metadata["start state"] = self.state
+        self.metadata["start state"] = None if state is None else np.asarray(state).tolist()
 
     def get_samples(self, num_samples):
         seq, self.state = spsig.max_len_seq(
-- 
2.43.0


From 68fb6607073d66425ae1566eca29435b926fbf8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 11/59] fix: multi-channel noise sources do not depend on how
 many samples are requested at a time

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index a73377e..32080d8 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -231,7 +231,7 @@ class BandlimitedNoiseSource(Source):
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
-        noise = self.amplitude * self.rng.normal(size=(self.num_channels, num_samples))
+        noise = self.amplitude * self.rng.normal(size=(num_samples, self.num_channels)).T
         filtNoise, self.zi = spsig.sosfilt(self.filtCoef, noise, zi=self.zi, axis=-1)
         return filtNoise
 
@@ -380,7 +380,7 @@ class AutocorrSource(Source):
             self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
     
     def get_samples(self, num_samples):
-        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power)[:,None], size=(self.num_channels, num_samples)))
+        return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
 
 
 
-- 
2.43.0


From 6848d994e6710f03bbb13101314ad20bfac6c907 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 12/59] fix: LinearTrajectory with constant_time uses the whole
 period

---
 src/aspsim/room/trajectory.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index af684ab..81c4493 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -113,7 +113,7 @@ class LinearTrajectory(Trajectory):
         return pos_func
     
     def _constant_time_pos_func(self, points, period, samplerate):
-        num_segments = points.shape[0]
+        num_segments = points.shape[0] - 1
         time_per_segment = period / num_segments
         self.samples_per_segment = time_per_segment * samplerate
         segment_distance = np.sqrt(np.sum((points[:-1,:] - points[1:,:])**2, axis=-1))
@@ -121,7 +121,7 @@ class LinearTrajectory(Trajectory):
         distance_per_time = segment_distance / time_per_segment
         distance_per_sample = distance_per_time / samplerate
 
-        self.cumulative_samples = np.arange(num_segments) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
+        self.cumulative_samples = np.arange(num_segments + 1) * self.samples_per_segment #np.concatenate(([0], np.cumsum(samples_per_segment)))
 
         def pos_func(n):
             period_samples = n % (period * samplerate)
-- 
2.43.0


From 5d9b4184cde79e69f434d0fc73500d03584258ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 13/59] fix: CircularTrajectory with short periods can be
 plotted

---
 src/aspsim/room/trajectory.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/trajectory.py b/src/aspsim/room/trajectory.py
index 81c4493..9b01e64 100644
--- a/src/aspsim/room/trajectory.py
+++ b/src/aspsim/room/trajectory.py
@@ -252,7 +252,7 @@ class CircularTrajectory(Trajectory):
         
         approx_num_points = 1000
         max_samples = self.samplerate*max(self.radial_period, self.angle_period)
-        samples_per_point = max_samples // approx_num_points
+        samples_per_point = max(1, max_samples // approx_num_points)
         t = np.arange(0, max_samples, samples_per_point)
         num_points = t.shape[0]
 
-- 
2.43.0


From 029dad5800782406d86b905994f631b792aec389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 14/59] fix: CombinedRegion.is_in_region combines the regions

---
 src/aspsim/room/region.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 277f53a..95e0536 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -48,7 +48,7 @@ class CombinedRegion(Region):
         return False
 
     def is_in_region(self, coordinate):
-        return np.logical_or([reg.is_in_region(coordinate) for reg in self.regions])
+        return np.any([reg.is_in_region(coordinate) for reg in self.regions], axis=0)
 
     def equally_spaced_points(self):
         return np.concatenate([reg.equally_spaced_points() for reg in self.regions], axis=0)
-- 
2.43.0


From 941298f25c3f93bb0850e2295c7fffb66b1f7ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 15/59] fix: CombinedRegion samples each region in proportion
 to its own volume

---
 src/aspsim/room/region.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 95e0536..84436ff 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -57,8 +57,8 @@ class CombinedRegion(Region):
         vol_ratio = self.volumes / self.volume
         sample_limit = np.cumsum(vol_ratio)
         test_val = self.rng.uniform(0,1,num_points)
-        sample_result = test_val[None,:] < sample_limit[:,None]
-        reg_idx = np.sum(sample_result, axis=0) - 1
+        sample_result = test_val[None,:] >= sample_limit[:-1,None]
+        reg_idx = np.sum(sample_result, axis=0)
         unique, counts = np.unique(reg_idx, return_counts=True)
         sampled_points = np.concatenate([self.regions[idx].sample_points(num) 
                         for idx, num in zip(unique, counts)])
-- 
2.43.0


From 284b677191ca10b5ef51f39a1af42c34bb315350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 16/59] fix: Rectangle and Disc in 3D decide is_in_region for
 each point separately

---
 src/aspsim/room/region.py | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/aspsim/room/region.py b/src/aspsim/room/region.py
index 84436ff..86a3c0f 100644
--- a/src/aspsim/room/region.py
+++ b/src/aspsim/room/region.py
@@ -200,13 +200,11 @@ class Rectangle(Region):
         is_in : boolan np.ndarray of shape (N,)
             True if the coordinate is within the region, False otherwise.
         """
-        if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
-
         is_in_coord_wise = np.logical_and(coordinates[:,:2] >= self.low_lim[None,:]-padding,
                                         coordinates[:,:2] <= self.high_lim[None,:]+padding)
         is_in = np.logical_and(is_in_coord_wise[:,0], is_in_coord_wise[:,1])
+        if self.spatial_dim == 3:
+            is_in = np.logical_and(is_in, np.isclose(coordinates[:,2], self.center[2]))
         return is_in
 
     def equally_spaced_points(self):
@@ -270,13 +268,11 @@ class Disc(Region):
         self.volume = self.radius**2 * np.pi
 
     def is_in_region(self, coordinates):
-        if self.spatial_dim == 3:
-            if not np.allclose(coordinates[:,2], self.center[2]):
-                return False
-
         centered_coords = coordinates[:,:2] - self.center[None,:2]
         norm_coords = np.sqrt(np.sum(np.square(centered_coords), axis=-1))
         is_in = norm_coords <= self.radius
+        if self.spatial_dim == 3:
+            is_in = np.logical_and(is_in, np.isclose(coordinates[:,2], self.center[2]))
         return is_in
 
     def equally_spaced_points(self):
-- 
2.43.0


From 0bf2c8578ea50682876c76e4a756b1606ab26a5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 17/59] fix: equidistant_rectangle keeps all points with offset
 1

---
 src/aspsim/room/generatepoints.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index cb01379..4bbc9a5 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -182,6 +182,7 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
     pos_on_circumference = np.linspace(0, circumference, num_points, endpoint = False)
     mic_distance = circumference / num_points
     pos_on_circumference += offset * mic_distance
+    pos_on_circumference = np.mod(pos_on_circumference, circumference)
 
     x_extent = np.array([-side_lengths[0], side_lengths[0]]) / 2
     y_extent = np.array([-side_lengths[1], side_lengths[1]]) / 2
-- 
2.43.0


From efcf8e94de68e85c902d39c6a38ce62d7930456c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 18/59] fix: set the pyroomacoustics constants for each path,
 since they are shared by all simulations

---
 src/aspsim/room/roomimpulseresponse.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index ea93a1e..b684f26 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -74,14 +74,12 @@ class PathGenerator:
             The simulation info object
         
         """
-        pra.constants.set("c", sim_info.c)
-
         room_center = np.array(sim_info.room_center)
         room_size = np.array(sim_info.room_size)
 
         rt60 = sim_info.rt60
         if rt60 > 0:
-            self.e_absorbtion, self.max_order = pra.inverse_sabine(rt60, room_size)
+            self.e_absorbtion, self.max_order = pra.inverse_sabine(rt60, room_size, c=sim_info.c)
             self.max_order += 8
         else:
             self.e_absorbtion = 0.9
@@ -93,11 +91,10 @@ class PathGenerator:
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
         self.min_dly = 0
-        frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
-        pra.constants.set("frac_delay_length",frac_dly_len)
+        self.frac_dly_len = 2*(self.min_dly + sim_info.extra_delay) + 1
         #if verbose:
-        if frac_dly_len < 20:
-            print("WARNING: fractional delay length: ",frac_dly_len)
+        if self.frac_dly_len < 20:
+            print("WARNING: fractional delay length: ",self.frac_dly_len)
 
 
 
@@ -131,6 +128,9 @@ class PathGenerator:
             path = np.random.normal(size=(src.num, mic.num, sim_info.max_room_ir_length))
         elif reverb == "ism":
             if sim_info.spatial_dims == 3:
+                # these are global to pyroomacoustics, and might have been changed by another simulation
+                pra.constants.set("c", sim_info.c)
+                pra.constants.set("frac_delay_length", self.frac_dly_len)
                 path = ir_room_image_source_3d(
                         src.pos, 
                         mic.pos, 
-- 
2.43.0


From c9f6dc9fa0b91921e890cd6c5cbdf479a4ec5ba3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 19/59] fix: arrays without elements do not break the path
 generation

---
 src/aspsim/room/roomimpulseresponse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index b684f26..d76c2b4 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -87,7 +87,8 @@ class PathGenerator:
 
         shortest_distance = np.inf
         for src, mic in self.arrays.mic_src_combos():
-            shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
+            if src.num > 0 and mic.num > 0:
+                shortest_distance = np.min((shortest_distance, np.min(distfuncs.cdist(src.pos, mic.pos))))
        # shortest_distance = np.min(distfuncs.cdist(pos_from, pos_to))
         #min_dly = int(np.ceil(shortest_distance * samplerate / c))
         self.min_dly = 0
-- 
2.43.0


From 4fae7497314da4cf43206a142d4299c7f6ef2e77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 20/59] fix: changing the setup's sim_info does not change
 simulators that were already created

---
 src/aspsim/simulator.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 44e29a6..4f61564 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -181,27 +181,28 @@ class SimulatorSetup:
         create similar simulations with different parameters.
         """
         assert not self.arrays.empty()
+        sim_info = copy.deepcopy(self.sim_info)
         finished_arrays = copy.deepcopy(self.arrays)
-        finished_arrays.set_default_path_type(self.sim_info.reverb)
+        finished_arrays.set_default_path_type(sim_info.reverb)
         
         folder_path = self._create_fig_folder(self.base_fig_path)
         print(f"Figure folder: {folder_path}")
 
-        if self.sim_info.auto_save_load and self.session_folder is not None:
+        if sim_info.auto_save_load and self.session_folder is not None:
             try:
-                finished_arrays = sess.load_session(self.session_folder, folder_path, self.sim_info, finished_arrays)
+                finished_arrays = sess.load_session(self.session_folder, folder_path, sim_info, finished_arrays)
             except sess.MatchingSessionNotFoundError:
                 print("No matching session found")
-                ir_metadata = finished_arrays.setup_ir(self.sim_info)
-                sess.save_session(self.session_folder, self.sim_info, finished_arrays, sim_metadata=ir_metadata)   
+                ir_metadata = finished_arrays.setup_ir(sim_info)
+                sess.save_session(self.session_folder, sim_info, finished_arrays, sim_metadata=ir_metadata)   
         else:
-            finished_arrays.setup_ir(self.sim_info)
+            finished_arrays.setup_ir(sim_info)
 
         # LOGGING AND DIAGNOSTICS
-        self.sim_info.save_to_file(folder_path)
-        finished_arrays.plot(self.sim_info, folder_path, self.sim_info.plot_output)
+        sim_info.save_to_file(folder_path)
+        finished_arrays.plot(sim_info, folder_path, sim_info.plot_output)
         finished_arrays.save_metadata(folder_path)
-        return Simulator(self.sim_info, finished_arrays, folder_path, rng=self.rng)
+        return Simulator(sim_info, finished_arrays, folder_path, rng=self.rng)
 
     def _create_fig_folder(self, folder_for_plots, gen_subfolder=True, safe_naming=False):
         if self.sim_info.plot_output == "none" or folder_for_plots is None:
-- 
2.43.0


From 699bb24c3c75468fca8bb86bb31649838b407a3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:42 +0000
Subject: [PATCH 21/59] fix: accept the documented reverb option random when a
 config is loaded

---
 src/aspsim/configutil.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 4218ae3..2631a3e 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -37,7 +37,7 @@ class SimulatorInfo:
         assert len(self.room_size) == self.spatial_dims
         assert len(self.room_center) == self.spatial_dims
 
-        assert self.reverb in ("none", "direct", "ism")
+        assert self.reverb in ("none", "direct", "random", "ism")
 
 
     def save_to_file(self, path):
-- 
2.43.0


From 49a4df8f8858bf0b99541696db0cfd351642fdab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 22/59] fix: incomplete or unreadable session folders are
 skipped in the search for a session

---
 src/aspsim/saveloadsession.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 9457d54..16f37e5 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -49,8 +49,12 @@ class MatchingSessionNotFoundError(ValueError): pass
 def search_for_matching_session(sessions_path, chosen_sim_info, chosen_arrays):
     for dir_path in sessions_path.iterdir():
         if dir_path.is_dir():
-            loaded_sim_info = configutil.load_from_file(dir_path)
-            loaded_arrays = ar.load_arrays(dir_path)
+            try:
+                loaded_sim_info = configutil.load_from_file(dir_path)
+                loaded_arrays = ar.load_arrays(dir_path)
+            except Exception as e:
+                print(f"Skipping unreadable session {dir_path}: {e}")
+                continue
 
             if configutil.equal_audio(chosen_sim_info, loaded_sim_info, chosen_arrays.path_type) and \
                 ar.prototype_equals(chosen_arrays, loaded_arrays):
-- 
2.43.0


From 171421c3a5f2bdd99ad73b9bf6823de9089935d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 23/59] fix: a session with paths or positions of another shape
 does not match

---
 src/aspsim/array.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2245b3f..e9e6bbd 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -444,12 +444,20 @@ def prototype_equals(prototype, initialized):
             return False
         if ar.num != initialized[ar_name].num:
             return False
+        if ar.pos.shape != initialized[ar_name].pos.shape:
+            return False
         if not np.allclose(ar.pos,initialized[ar_name].pos):
             return False
+        if ar.directivity_type != initialized[ar_name].directivity_type:
+            return False
 
     #Check the paths are the same
     for src, mic in prototype.mic_src_combos():
         if prototype.path_type[src.name][mic.name] == "modified":
+            if mic.name not in initialized.paths[src.name]:
+                return False
+            if prototype.paths[src.name][mic.name].shape != initialized.paths[src.name][mic.name].shape:
+                return False
             if not np.allclose(prototype.paths[src.name][mic.name], initialized.paths[src.name][mic.name]):
                 return False
         if prototype.path_type[src.name][mic.name] != initialized.path_type[src.name][mic.name]:
-- 
2.43.0


From 6e5b3e09ef4633f8d17579c8e29ca31cc0465ce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 24/59] fix: sessions are only reused if the highpass and the
 length of random paths also agree

---
 src/aspsim/configutil.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 2631a3e..34ad71f 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -65,14 +65,19 @@ def equal_audio(info1, info2, path_types):
                 info1.spatial_dims == info2.spatial_dims and \
                 info1.reverb == info2.reverb
     
-    if any("ism" in src_path_types.values() for src_path_types in path_types.values()):
+    used_types = {path_type for src_path_types in path_types.values() for path_type in src_path_types.values()}
+    if not used_types.isdisjoint(("direct", "random", "ism")):
+        same_audio = same_audio and info1.highpass_cutoff == info2.highpass_cutoff
+    if "random" in used_types:
+        same_audio = same_audio and info1.max_room_ir_length == info2.max_room_ir_length
+
+    if "ism" in used_types:
         same_audio = same_audio and \
             info1.room_size == info2.room_size and \
             info1.room_center == info2.room_center and \
             info1.rt60 == info2.rt60 and \
             info1.max_room_ir_length == info2.max_room_ir_length and \
             info1.randomized_ism == info2.randomized_ism and \
-            info1.extra_delay == info2.extra_delay and \
-            info1.highpass_cutoff == info2.highpass_cutoff
+            info1.extra_delay == info2.extra_delay
     return same_audio
 
-- 
2.43.0


From fec39bbf8c3a6a8b4f5e257600de7627477eff3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 25/59] fix: a loaded session only supplies the impulse
 responses, not stale settings, sources or trajectories

---
 src/aspsim/array.py           | 21 +++++++++++++++++++++
 src/aspsim/saveloadsession.py |  7 ++-----
 2 files changed, 23 insertions(+), 5 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index e9e6bbd..48c1301 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -261,6 +261,27 @@ class ArrayCollection():
                     self.path_info[f"{src.name}->{mic.name}"][key] = val
         
 
+    def use_ir_from(self, initialized, sim_info):
+        """Uses the impulse responses of an already initialized collection, instead of generating them
+
+        Only the paths are taken from the initialized collection. Everything that can differ between
+        two matching collections, such as sources, trajectories and metadata, is left as it is.
+
+        Parameters
+        ----------
+        initialized : ArrayCollection
+            The initialized collection, which must be equal according to prototype_equals
+        sim_info : SimInfo
+            The simulation info object
+        """
+        self.sim_info = sim_info
+        self.path_generator = rir.PathGenerator(self.sim_info, self)
+
+        for src, mic in self.mic_src_combos():
+            if self.path_type[src.name][mic.name] != "modified":
+                self.paths[src.name][mic.name] = initialized.paths[src.name][mic.name]
+        self.path_info = initialized.path_info
+
     def update_path(self, src, mic):
         """Updates the path between a source and a microphone array
         
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 16f37e5..829251e 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -23,11 +23,8 @@ def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays)
     session_to_load = search_for_matching_session(sessions_path, chosen_sim_info, chosen_arrays)
     print("Loaded Session: ", str(session_to_load))
     loaded_arrays = ar.load_arrays(session_to_load)
-
-    for fs_array in chosen_arrays.free_sources():
-        loaded_arrays[fs_array.name].source = fs_array.source
-
-    return loaded_arrays
+    chosen_arrays.use_ir_from(loaded_arrays, chosen_sim_info)
+    return chosen_arrays
     
 def load_from_path(session_path_to_load, new_folder_path=None):
     loaded_arrays = ar.load_arrays(session_path_to_load)
-- 
2.43.0


From 306ab1383b1aef491a0d6bcf13a7e43f47b49537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 26/59] fix: load_from_path works for sessions without
 simulation metadata

---
 src/aspsim/saveloadsession.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 829251e..57e0428 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -36,9 +36,10 @@ def load_from_path(session_path_to_load, new_folder_path=None):
     return loaded_sim_info, loaded_arrays
 
 def copy_sim_metadata(from_folder, to_folder):
-    shutil.copy(
-        from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
-    )
+    if from_folder.joinpath("metadata_sim.json").exists():
+        shutil.copy(
+            from_folder.joinpath("metadata_sim.json"), to_folder.joinpath("metadata_sim.json")
+        )
 
 
 class MatchingSessionNotFoundError(ValueError): pass
-- 
2.43.0


From 95de7c4b977e5cfce52b492ddf1b5f4fb93fdd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 27/59] fix: accept folders given as strings, as documented

---
 src/aspsim/simulator.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 4f61564..88326cb 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -1,5 +1,6 @@
 import numpy as np
 import copy
+from pathlib import Path
 
 import aspsim.fileutilities as futil
 import aspsim.configutil as configutil
@@ -45,8 +46,8 @@ class SimulatorSetup:
         else:
             self.sim_info = configutil.load_from_file(config_path)
 
-        self.base_fig_path = base_fig_path
-        self.session_folder = session_folder
+        self.base_fig_path = None if base_fig_path is None else Path(base_fig_path)
+        self.session_folder = None if session_folder is None else Path(session_folder)
 
         if rng is None:
             self.rng = np.random.default_rng()
-- 
2.43.0


From 072c0af53682fc93510208eb14ae93300ceeea34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:52 +0000
Subject: [PATCH 28/59] fix: diagnostics exported to file do not fail when
 there is no folder

---
 src/aspsim/diagnostics/plot.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index f3b3f09..72c2542 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -204,6 +204,8 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
     """Keeps only the latest save.
     Assumes that the data in previous
     saves is present in the current data"""
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -219,6 +221,8 @@ def savenpz(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def txt(name, diags, time_idx, folder, preprocess, print_method="pdf"):
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes output even if time indices are provided
@@ -316,6 +320,8 @@ def matshow(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
 
 def create_audio_files(name, diags, time_idx, folder, preprocess, print_method=None):
+    if folder is None:
+        return
     outputs = {proc_name: diag.get_processed_output(time_idx, preprocess) for proc_name, diag in diags.items()}
     outputs = {key: val[0] if isinstance(val, tuple) else val for key, val in outputs.items()} 
     # only takes the signal even if time indices are provided
-- 
2.43.0


From 513b49d009f1e771b36229da91add30cabddb5ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:00 +0000
Subject: [PATCH 29/59] fix: load_audio_file for mono files, all channels, and
 without a desired samplerate

---
 src/aspsim/signal/sources.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 32080d8..5f13ba5 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -285,22 +285,21 @@ class PulseTrain(Source):
 
 
 def load_audio_file(file_name, desired_sr = None, num_channels=None, verbose=False):
-    audio, audio_sr = sf.read(file_name)
-    assert audio.ndim == 2
+    audio, audio_sr = sf.read(file_name, always_2d=True)
     audio = audio.T
     #raise NotImplementedError("Check which axis is audio and which is channel. \
     #                            Make support for multiple channels (should be simple)")
     if num_channels is not None:
         audio = audio[:num_channels, :]
 
-    if desired_sr != audio_sr:
+    if desired_sr is not None and desired_sr != audio_sr:
         assert audio_sr > desired_sr
         if audio_sr % desired_sr == 0:
             down_factor = audio_sr // desired_sr
             up_factor = 1
         else:
             up_factor, down_factor = coreutil.simplify_ratio(desired_sr, audio_sr)
-        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(num_channels)]
+        audio_downsampled = [spsig.resample_poly(audio[ch,:], up=up_factor, down=down_factor, axis=-1) for ch in range(audio.shape[0])]
         audio = np.stack(audio_downsampled, axis=0)
         # srAudio = srAudio // downsamplingFactor
         if verbose:
-- 
2.43.0


From 9cd1d525d17de223133835f227c5e01f2894ff42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:52 +0000
Subject: [PATCH 30/59] fix: config_path and session_path given as strings

---
 src/aspsim/configutil.py      | 1 +
 src/aspsim/saveloadsession.py | 2 ++
 2 files changed, 3 insertions(+)

diff --git a/src/aspsim/configutil.py b/src/aspsim/configutil.py
index 34ad71f..35e564b 100644
--- a/src/aspsim/configutil.py
+++ b/src/aspsim/configutil.py
@@ -46,6 +46,7 @@ class SimulatorInfo:
                 yaml.dump(dc.asdict(self), f, sort_keys=False)
 
 def load_from_file(path):
+    path = Path(path)
     if path.is_dir():
         path = path.joinpath("config.yaml")
 
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 57e0428..6239955 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -1,5 +1,6 @@
 import shutil
 import json
+from pathlib import Path
 
 import aspsim.fileutilities as futil
 import aspsim.configutil as configutil
@@ -27,6 +28,7 @@ def load_session(sessions_path, new_folder_path, chosen_sim_info, chosen_arrays)
     return chosen_arrays
     
 def load_from_path(session_path_to_load, new_folder_path=None):
+    session_path_to_load = Path(session_path_to_load)
     loaded_arrays = ar.load_arrays(session_path_to_load)
     loaded_sim_info = configutil.load_from_file(session_path_to_load)
 
-- 
2.43.0


From fbca05a93f877f7ea97f5ffa5bdc39a341d99d1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:33 +0000
Subject: [PATCH 31/59] fix: equidistant_rectangle loses no point to rounding
 when offset is 1

---
 src/aspsim/room/generatepoints.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index 4bbc9a5..1f81a7a 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -190,6 +190,7 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
 
     points = np.zeros((num_points, 2))
     breakpoints = np.cumsum(np.array([0, side_lengths[0], side_lengths[1], side_lengths[0], side_lengths[1]]))
+    breakpoints[-1] = circumference # the sum of the sides can be rounded to another number
     idxs = [np.logical_and(breakpoints[i] <= pos_on_circumference, pos_on_circumference < breakpoints[i+1]) for i in range(4)]
     
     points = []
-- 
2.43.0


From ddbee9a19ad10fa0262a60b6989070475d6b43e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 32/59] fix: the metadata of an array follows set_source and
 set_groups

---
 src/aspsim/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 48c1301..2df94a3 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -577,6 +577,7 @@ class Array(ABC):
         """
         self.num_groups = len(group_idxs)
         self.group_idxs = group_idxs
+        self.metadata["number of groups"] = self.num_groups
 
     def plot(self, ax, sim_info):
         if self.dynamic:
@@ -684,8 +685,6 @@ class FreeSourceArray(Array):
     def __init__(self, name, pos, source, **kwargs):
         super().__init__(name, pos, **kwargs)
         self.set_source(source)
-
-        self.metadata["source info"] = self.source.metadata
     
     def reset_state(self):
         self.source = copy.deepcopy(self.source)
@@ -697,6 +696,7 @@ class FreeSourceArray(Array):
     def set_source(self, source):
         assert source.num_channels == self.num
         self.source = source
+        self.metadata["source info"] = self.source.metadata
 
 
 
-- 
2.43.0


From 296b3cda600a25ed254ad5d6a0815f2692250191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:15 +0000
Subject: [PATCH 33/59] fix: get_multiple_unique_folder_names returns no
 existing folder

---
 src/aspsim/fileutilities.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index 67f1878..c3d1a06 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -48,8 +48,12 @@ def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
     base_name = sub_folder_name[:-start_idx_len]
 
     folder_names = []
-    for i in range(num_names):
-        folder_names.append(base_folder.joinpath(base_name + str(i + start_idx)))
+    idx = start_idx
+    while len(folder_names) < num_names:
+        folder_name = base_folder.joinpath(base_name + str(idx))
+        if not folder_name.exists():
+            folder_names.append(folder_name)
+        idx += 1
 
     return folder_names
 
-- 
2.43.0


From 9053b93b8f9d8405750774dd0d2320f5dcac41f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:58 +0000
Subject: [PATCH 34/59] fix: get_highest_numbered_file returns a file that
 exists

---
 src/aspsim/fileutilities.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/src/aspsim/fileutilities.py b/src/aspsim/fileutilities.py
index c3d1a06..2ee0b4e 100644
--- a/src/aspsim/fileutilities.py
+++ b/src/aspsim/fileutilities.py
@@ -60,21 +60,17 @@ def get_multiple_unique_folder_names(prefix, parent_folder, num_names):
 
 def get_highest_numbered_file(folder, prefix, suffix):
     highest_file_idx = -1
+    highest_file = None
     for file_path in folder.iterdir():
         if file_path.name.startswith(prefix) and file_path.name.endswith(suffix):
             summary_idx = file_path.name[len(prefix) : len(file_path.name) - len(suffix)]
-            try:
-                summary_idx = int(summary_idx)
-                if summary_idx > highest_file_idx:
-                    highest_file_idx = summary_idx
-            except ValueError:
+            if summary_idx.isdecimal():
+                if int(summary_idx) > highest_file_idx:
+                    highest_file_idx = int(summary_idx)
+                    highest_file = file_path
+            else:
                 print("Warning: check prefix and suffix")
-
-    if highest_file_idx == -1:
-        return None
-    else:
-        fname = prefix + str(highest_file_idx) + suffix
-        return folder.joinpath(fname)
+    return highest_file
 
 
 def find_all_earlier_files(
-- 
2.43.0


From b65bed3b7dba7778daff4a550ccdf374e25c60fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 35/59] fix: compare_soundfields plots several sound fields as
 documented

---
 src/aspsim/diagnostics/soundfieldplot.py | 27 ++++++++++--------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/src/aspsim/diagnostics/soundfieldplot.py b/src/aspsim/diagnostics/soundfieldplot.py
index 2287a38..25ab8d9 100644
--- a/src/aspsim/diagnostics/soundfieldplot.py
+++ b/src/aspsim/diagnostics/soundfieldplot.py
@@ -12,27 +12,22 @@ def compare_soundfields(pos, sig, algo_labels, row_labels, arrays_to_plot={}):
         
         The resulting plot is multiple axes, numAlgos rows high, and numAxes columns wide"""
     #num_rows, num_cols = sfp.get_num_pixels(pos)
-    pos, sig = sort_for_imshow(pos, sig)
-    if sig.ndim == 2:
-        sig = sig[None,...]
-    if sig.ndim == 3:
-        sig = sig[None,...]
-
-    num_algos = sig.shape[0]
-    num_each_algo = sig.shape[1]
-    extent = size_of_2d_plot([pos] + list(arrays_to_plot.values()))
-    extent /= np.max(extent)
+    sig = np.stack([np.atleast_2d(s) for s in sig], axis=0)
+    pos, sig = sort_for_imshow(pos, np.moveaxis(sig, -1, 0))
+
+    num_algos = sig.shape[2]
+    num_each_algo = sig.shape[3]
+    extent = size_of_2d_plot([pos] + [plot_ar.pos for plot_ar in arrays_to_plot.values()])
+    extent = extent / np.max(extent)
     scaling = 5
 
-    fig, axes = plt.subplots(num_algos, num_each_algo, figsize=(num_each_algo*extent[0]*scaling, num_algos*extent[1]*scaling))
+    fig, axes = plt.subplots(num_algos, num_each_algo, squeeze=False,
+                    figsize=(num_each_algo*extent[0]*scaling, num_algos*extent[1]*scaling))
     fig.tight_layout(pad=2.5)
 
-    
-
-
-    for i, rows in enumerate(np.atleast_2d(axes)):
+    for i, rows in enumerate(axes):
         for j, ax in enumerate(rows):
-            sf_plot(ax, pos, sig[i,j,:,:], f"{algo_labels[i]}, {row_labels[j]}", arrays_to_plot)
+            sf_plot(ax, pos, sig[:,:,i,j], f"{algo_labels[i]}, {row_labels[j]}", arrays_to_plot)
     
 
 def size_of_2d_plot(array_pos):
-- 
2.43.0


From 6dc86cbdf33320499166fed2400e9de9b8803aa8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 36/59] fix: sound field images can be plotted along with
 arrays

---
 src/aspsim/array.py            | 7 ++++---
 src/aspsim/diagnostics/plot.py | 2 +-
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 2df94a3..8869e84 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -579,9 +579,10 @@ class Array(ABC):
         self.group_idxs = group_idxs
         self.metadata["number of groups"] = self.num_groups
 
-    def plot(self, ax, sim_info):
+    def plot(self, ax, sim_info=None):
         if self.dynamic:
-            self.trajectory.plot(ax, self.plot_symbol, self.name, sim_info.tot_samples)
+            tot_samples = None if sim_info is None else sim_info.tot_samples
+            self.trajectory.plot(ax, self.plot_symbol, self.name, tot_samples)
         else:
             ax.plot(self.pos[:,0], self.pos[:,1], self.plot_symbol, label=self.name, alpha=0.8)
 
@@ -644,7 +645,7 @@ class RegionArray(MicArray):
         self.region = region
         self.metadata["region shape"] = self.region.__class__.__name__
 
-    def plot(self, ax, sim_info):
+    def plot(self, ax, sim_info=None):
         self.region.plot(ax, self.name)
         
 class ControllableSourceArray(Array):
diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index 72c2542..799c18c 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -255,7 +255,7 @@ def soundfield(name, diags, time_idx, folder, preprocess, print_method="pdf"):
 
         if diag.plot_arrays is not None:
             for plot_ar in diag.plot_arrays:
-                plot_ar.plot(ax)
+                plot_ar.plot(ax, diag.sim_info)
         legend_without_duplicates(ax, "upper right")
 
     output_plot(print_method, folder, f"{name}_{time_idx}")
-- 
2.43.0


From c76acfd30c386611f87483918dbcc0bc55a12fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:39 +0000
Subject: [PATCH 37/59] fix: legend has one entry for equal labels with
 underscores

---
 src/aspsim/diagnostics/plot.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index 799c18c..48d5ee9 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -193,8 +193,9 @@ def legend_without_duplicates(ax, loc):
     handles, labels = ax.get_legend_handles_labels()
     newLabels, newHandles = [], []
     for handle, label in zip(handles, labels):
+      label = label.replace("_", "\_")
       if label not in newLabels:
-        newLabels.append(label.replace("_", "\_"))
+        newLabels.append(label)
         newHandles.append(handle)
 
     ax.legend(newHandles, newLabels, loc=loc)
-- 
2.43.0


From 744463700d04e42243e8dc3eea18c26aa0820782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 38/59] fix: smooth accepts a signal without samples

---
 src/aspsim/diagnostics/preprocessing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/diagnostics/preprocessing.py b/src/aspsim/diagnostics/preprocessing.py
index 07b1636..9056cf5 100644
--- a/src/aspsim/diagnostics/preprocessing.py
+++ b/src/aspsim/diagnostics/preprocessing.py
@@ -47,6 +47,8 @@ def clip(low_lim, high_lim):
 def smooth(smooth_len):
     ir = np.ones((1, smooth_len)) / smooth_len
     def smooth_internal(signal):
+        if signal.shape[-1] == 0: # nothing has been recorded yet
+            return signal
         return spsig.oaconvolve(signal, ir, mode="full", axes=-1)[:,:signal.shape[-1]]
     return smooth_internal
 
-- 
2.43.0


From 153ec95cd6f163160f68708f6b733b8654d03d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:16 +0000
Subject: [PATCH 39/59] fix: spectrum can be exported from signal diagnostics

---
 src/aspsim/diagnostics/plot.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/diagnostics/plot.py b/src/aspsim/diagnostics/plot.py
index 48d5ee9..2896ddd 100644
--- a/src/aspsim/diagnostics/plot.py
+++ b/src/aspsim/diagnostics/plot.py
@@ -372,9 +372,10 @@ def spectrum_plot(name, diags, time_idx, folder, preprocess, print_method="pdf")
 
     for proc_name, diag in diags.items():
         output = diag.get_processed_output(time_idx, preprocess)
-        num_channels = output.shape[0]
+        if isinstance(output, tuple): # time indices are not needed for a spectrum
+            output = output[0]
         ax.plot(
-                output,
+                output.T, # one line per channel
                 alpha=0.8,
                 label=proc_name,
             )
-- 
2.43.0


From 7c81c6a0bec526d1dcbdd4a34bcaf704ebc057be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 40/59] fix: sine and bandlimited noise sources with one power
 for each channel

---
 src/aspsim/signal/sources.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 5f13ba5..37ef4f4 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -122,6 +122,8 @@ class SineSource(Source):
         super().__init__(num_channels, rng)
         self.power = power
         self.amplitude = np.sqrt(2 * self.power)
+        if isinstance(self.amplitude, np.ndarray): # one power for each channel
+            self.amplitude = self.amplitude.reshape(-1, 1)
         # p = a^2 / 2
         # 2p = a^2
         # sqrt(2p) = a
@@ -238,6 +240,8 @@ class BandlimitedNoiseSource(Source):
     def set_power(self, newPower):
         self.power = newPower
         self.amplitude = np.sqrt(newPower / self.testSigPow)
+        if isinstance(self.amplitude, np.ndarray): # one power for each channel
+            self.amplitude = self.amplitude.reshape(-1, 1)
 
         # if isinstance(self.power, np.ndarray):
         #     assert self.power.ndim == 1
-- 
2.43.0


From 0a7e0ed56bdd91716e074b09d8cf07efff7a9e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:30 +0000
Subject: [PATCH 41/59] fix: the metadata of multi-sine and MLS sources can be
 written

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 37ef4f4..a69d60f 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -191,7 +191,7 @@ class MultiSineSource(Source):
             self.metadata["power"] = self.power.tolist()
         else:
             self.metadata["power"] = self.power
-        self.metadata["frequency"] = self.freq
+        self.metadata["frequency"] = self.freq.tolist()
 
     def get_samples(self, num_samples):
         noise = np.zeros((1, num_samples))
@@ -407,7 +407,7 @@ class MLS(Source):
         self.state = state
 
         self.metadata["order"] = self.order
-        self.metadata["polynomial"] = self.poly
+        self.metadata["polynomial"] = None if polynomial is None else np.asarray(polynomial).tolist()
         self.metadata["start state"] = None if state is None else np.asarray(state).tolist()
 
     def get_samples(self, num_samples):
-- 
2.43.0


From c4dc700ba562d8fa26f828672ae219dddd0814fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 42/59] fix: directional sources are refused with image sources
 instead of being treated as omnidirectional

---
 src/aspsim/room/roomimpulseresponse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index d76c2b4..934e4b7 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -129,6 +129,8 @@ class PathGenerator:
             path = np.random.normal(size=(src.num, mic.num, sim_info.max_room_ir_length))
         elif reverb == "ism":
             if sim_info.spatial_dims == 3:
+                if any([dir_type != "omni" for dir_type in src.directivity_type]):
+                    raise NotImplementedError("Directional sources not implemented yet")
                 # these are global to pyroomacoustics, and might have been changed by another simulation
                 pra.constants.set("c", sim_info.c)
                 pra.constants.set("frac_delay_length", self.frac_dly_len)
-- 
2.43.0


From edf553baa898c68ab5edbe8857a70fd08003eecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 43/59] fix: Gold sequences of an order above 11 can be made

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index a69d60f..6d2df55 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -452,7 +452,7 @@ class GoldSequenceSource(Source):
             assert order % 2 == 1
             mls1 = MLS(1, order, None)
             seq1 = mls1.get_samples(2**order - 1)
-            k = util.getSmallestCoprime(order)
+            k = coreutil.get_smallest_coprime(order)
             decimationFactor = int(2**k + 1)
             decimatedIndices = (np.arange(self.seqLength) * decimationFactor) % self.seqLength
             seq2 = np.copy(seq1[decimatedIndices])
-- 
2.43.0


From 5d04d6eed4d4f638e4eb83df82a1d712ea05c276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:11 +0000
Subject: [PATCH 44/59] fix: the Gold sequences of order 10 are made from a
 preferred pair

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 6d2df55..9163591 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -424,7 +424,7 @@ class GoldSequenceSource(Source):
         7: [[4], [4, 5, 6]],
         8: [[1, 2, 3, 6, 7], [1, 2, 7]],
         9: [[5], [3, 5, 6]],
-        10: [[2, 5, 9], [3, 4, 6, 8, 9]],
+        10: [[3], [2, 3, 6, 8, 9]],
         11: [[9], [3, 6, 9]],
     }
 
-- 
2.43.0


From 7dab752a39150f438ec92cee950bb2a6e3c3ac2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:51:05 +0000
Subject: [PATCH 45/59] fix: the offset angle of a sunflower pattern turns it

---
 src/aspsim/room/generatepoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index 1f81a7a..4838a22 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -297,7 +297,7 @@ def sunflower_pattern(N, radius, offset_angle=0):
     # golden ratio
     k = np.arange(1, N + 1)
     r = radius * np.sqrt(k - (1 / 2)) / np.sqrt(N - 1 / 2)
-    theta = k * 2 * np.pi / phisq
+    theta = offset_angle + k * 2 * np.pi / phisq
     [x, y] = pol2cart(r, theta)
     return np.stack((x, y)).T
 
-- 
2.43.0


From aaba052002e83bc084a490d7acbb772a9d245e16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:48 +0000
Subject: [PATCH 46/59] fix: the moving arrays of a session loaded by its path
 can move

---
 src/aspsim/array.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 8869e84..cfe822f 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -198,6 +198,7 @@ class ArrayCollection():
         assert path.shape[1] == self.arrays[mic_name].num
         assert path.ndim == 3
         self.paths[src_name][mic_name] = path
+        self.path_info.pop(f"{src_name}->{mic_name}", None)
     
     def set_path_types(self, path_types):
         """Sets the propagation type between some sources and microphones
@@ -246,6 +247,9 @@ class ArrayCollection():
         self.path_generator = rir.PathGenerator(self.sim_info, self)
 
         for src, mic in self.mic_src_combos():
+            if self.path_type[src.name][mic.name] == "modified" and f"{src.name}->{mic.name}" in self.path_info:
+                continue # was generated before it was loaded, and is kept as it is
+
             self.path_info[f"{src.name}->{mic.name}"] = {}
 
             if src.num == 0 or mic.num == 0:
@@ -280,7 +284,9 @@ class ArrayCollection():
         for src, mic in self.mic_src_combos():
             if self.path_type[src.name][mic.name] != "modified":
                 self.paths[src.name][mic.name] = initialized.paths[src.name][mic.name]
-        self.path_info = initialized.path_info
+                self.path_info[f"{src.name}->{mic.name}"] = initialized.path_info[f"{src.name}->{mic.name}"]
+            else:
+                self.path_info.setdefault(f"{src.name}->{mic.name}", {"type" : "modified"})
 
     def update_path(self, src, mic):
         """Updates the path between a source and a microphone array
@@ -292,7 +298,7 @@ class ArrayCollection():
         mic : Array
             The microphone array
         """
-        reverb = self.path_type[src.name][mic.name]
+        reverb = self.path_info[f"{src.name}->{mic.name}"]["type"]
         assert reverb != "modified"
         self.paths[src.name][mic.name] = self.path_generator.create_path(src, mic, reverb, self.sim_info)
 
-- 
2.43.0


From d0ab27ad41da142aec06a1886f6b04afd670ca8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 47/59] fix: a list is accepted as the dimensions of a signal

---
 src/aspsim/simulator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 88326cb..4ba6a01 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -393,7 +393,7 @@ class Signals():
         if isinstance(dim, int):
             dim = (dim,)
         assert name not in self.signals
-        self.signals[name] = np.zeros(dim + (self.sim_info.sim_buffer + self.sim_info.sim_chunk_size,))
+        self.signals[name] = np.zeros(tuple(dim) + (self.sim_info.sim_buffer + self.sim_info.sim_chunk_size,))
 
     def _reset_signals(self):
         for name, sig in self.signals.items():
-- 
2.43.0


From 63ae954730c367b0d578891e346aeab141254e6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 48/59] fix: user-supplied paths of an array collection are
 adopted with its arrays

---
 src/aspsim/simulator.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/simulator.py b/src/aspsim/simulator.py
index 4ba6a01..0f559ad 100644
--- a/src/aspsim/simulator.py
+++ b/src/aspsim/simulator.py
@@ -58,7 +58,7 @@ class SimulatorSetup:
         #self.diag = diacore.DiagnosticHandler(self.sim_info) 
 
     def add_arrays(self, array_collection):
-        """Adds all arrays and path types from an array collection
+        """Adds all arrays, path types and user-supplied paths from an array collection
         
         Parameters
         ----------
@@ -67,6 +67,11 @@ class SimulatorSetup:
         for ar in array_collection:
             self.arrays.add_array(ar)
         self.arrays.set_path_types(array_collection.path_type)
+        for src_name, src_paths in array_collection.paths.items():
+            for mic_name, path in src_paths.items():
+                # paths generated from a path type will be generated again
+                if array_collection.path_info.get(f"{src_name}->{mic_name}", {"type" : "modified"})["type"] == "modified":
+                    self.set_path(src_name, mic_name, path)
 
             #if ar.is_source:
             #    self.arrays.paths[ar.name] = {}
-- 
2.43.0


From 2b8c019d58643a7bca8e04cd6916cd6a2781b3de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 49/59] fix: several export functions can be chosen without
 export_kwargs

---
 src/aspsim/diagnostics/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index bd892b0..906f991 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -288,7 +288,7 @@ class Diagnostic:
         self.export_function = [type(self).export_functions[func_choice] for func_choice in export_func]
 
         if export_kwargs is None:
-            export_kwargs = {}
+            export_kwargs = [{} for _ in range(len(self.export_function))]
         if isinstance(export_kwargs, dict):
             export_kwargs = [export_kwargs]
         assert len(export_kwargs) == len(self.export_function)
-- 
2.43.0


From 3775a977c671eab39a4a2f4267ab47c7ecc38d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 50/59] fix: keys of attribute expressions can contain dots and
 brackets

---
 src/aspsim/diagnostics/core.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/aspsim/diagnostics/core.py b/src/aspsim/diagnostics/core.py
index 906f991..4e082b6 100644
--- a/src/aspsim/diagnostics/core.py
+++ b/src/aspsim/diagnostics/core.py
@@ -1,3 +1,4 @@
+import re
 import numpy as np
 from abc import abstractmethod
 
@@ -464,21 +465,22 @@ def attritemgetter(name):
     
     """
     assert name[0] != "["
-    attributes = name.replace("]", "")
-    attributes = attributes.split(".")
-    attributes = [attr.split("[") for attr in attributes]
+    # each part is either an item within brackets or the name of an attribute.
+    # The characters of a key between apostrophes have no special meaning
+    parts = re.findall(r"\[('[^']*'|[^\]]*)\]|([^.\[\]]+)", name)
 
     def getter (obj):
-        for sub_list in attributes:
-            obj = getattr(obj, sub_list[0])
-            for item in sub_list[1:]:
-                if item[0] == "'":
-                    if not item[-1] == "'":
-                        raise ValueError("Unmatched apostrophes")
-                    item = item.replace("'", "")
-                else:
-                    item = int(item)
-                obj = obj[item]
+        for item, attr in parts:
+            if attr:
+                obj = getattr(obj, attr)
+                continue
+            if item[0] == "'":
+                if not item[-1] == "'":
+                    raise ValueError("Unmatched apostrophes")
+                item = item.replace("'", "")
+            else:
+                item = int(item)
+            obj = obj[item]
         return obj
     return getter
 
-- 
2.43.0


From d1e62931c922e1b5091e89fcef5939ecb4866da7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 51/59] fix: changing the power of bandlimited noise leaves its
 past in the filter as it was

---
 src/aspsim/signal/sources.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 9163591..46f8793 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -233,9 +233,9 @@ class BandlimitedNoiseSource(Source):
         self.metadata["frequency span"] = freqLim
 
     def get_samples(self, num_samples):
-        noise = self.amplitude * self.rng.normal(size=(num_samples, self.num_channels)).T
+        noise = self.rng.normal(size=(num_samples, self.num_channels)).T
         filtNoise, self.zi = spsig.sosfilt(self.filtCoef, noise, zi=self.zi, axis=-1)
-        return filtNoise
+        return self.amplitude * filtNoise
 
     def set_power(self, newPower):
         self.power = newPower
-- 
2.43.0


From 5598c0c95df03b2b91270563805ec9518e9726dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 52/59] fix: the first samples of autocorrelated noise have the
 power of their own channel

---
 src/aspsim/signal/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/signal/sources.py b/src/aspsim/signal/sources.py
index 46f8793..3ae60bd 100644
--- a/src/aspsim/signal/sources.py
+++ b/src/aspsim/signal/sources.py
@@ -380,7 +380,7 @@ class AutocorrSource(Source):
 
     def prepare(self):
         for ch_idx in range(self.num_channels):
-            self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power[ch_idx]), size=(self.num_channels, self.filt.order[ch_idx])))
+            self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(self.filt.order[ch_idx], self.num_channels)).T)
     
     def get_samples(self, num_samples):
         return self.filt.process(self.rng.normal(loc=0, scale=np.sqrt(self.noise_power), size=(num_samples, self.num_channels)).T)
-- 
2.43.0


From 3eac4aee0c58ab9370673989d3c52aae073eed02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 53/59] fix: sources without num_channels and metadata can be
 used as documented

---
 src/aspsim/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index cfe822f..4c86d3f 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -701,9 +701,9 @@ class FreeSourceArray(Array):
         return self.source.get_samples(num_samples)
 
     def set_source(self, source):
-        assert source.num_channels == self.num
+        assert getattr(source, "num_channels", self.num) == self.num
         self.source = source
-        self.metadata["source info"] = self.source.metadata
+        self.metadata["source info"] = getattr(self.source, "metadata", {})
 
 
 
-- 
2.43.0


From d7a2b30cd1ce90fa6f7383fb57e7a413fcd16606 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 54/59] fix: moving microphones can be updated when there are
 no sources

---
 src/aspsim/array.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 4c86d3f..5e9ddcc 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -333,7 +333,8 @@ class ArrayCollection():
                 for src in self.sources():
                     if not src.name in already_updated:
                         self.update_path(src, self.arrays[ar_name])
-                self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
+                if len(self.names_src) > 0:
+                    self._rir_dynamic_all.append(self.paths[src.name][ar_name]) # for debugging only
             elif self.arrays[ar_name].is_source:
                 for mic in self.mics():
                     if not mic.name in already_updated:
-- 
2.43.0


From 4be3f01c8b349fcb1a938b92bcf70911d936a5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 55/59] fix: metadata that contain arrays and numpy numbers can
 be written

---
 src/aspsim/array.py           | 2 +-
 src/aspsim/saveloadsession.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/aspsim/array.py b/src/aspsim/array.py
index 5e9ddcc..66f2478 100644
--- a/src/aspsim/array.py
+++ b/src/aspsim/array.py
@@ -77,7 +77,7 @@ class ArrayCollection():
         for ar_name, ar in self.arrays.items():
             array_info[ar_name] = ar.metadata
         with open(filepath.joinpath("metadata_arrays.json"), "w") as f:
-            json.dump(array_info, f, indent=4)
+            json.dump(array_info, f, indent=4, default=lambda value: value.tolist())
 
     def _save_metadata_paths(self, filepath):
         #path_info = {}
diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index 6239955..c2c9e69 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -83,4 +83,4 @@ def write_processor_metadata(processors, folder_path):
     for proc in processors:
         tot_metadata[proc.name] = proc.metadata
     with open(folder_path.joinpath(file_name), "w") as f:
-        json.dump(tot_metadata, f, indent=4)
\ No newline at end of file
+        json.dump(tot_metadata, f, indent=4, default=lambda value: value.tolist())
\ No newline at end of file
-- 
2.43.0


From cd322709945dc64068ab70f290a43ee5bca2f398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 56/59] fix: no processor metadata are written when there are
 no processors

---
 src/aspsim/saveloadsession.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/saveloadsession.py b/src/aspsim/saveloadsession.py
index c2c9e69..2901541 100644
--- a/src/aspsim/saveloadsession.py
+++ b/src/aspsim/saveloadsession.py
@@ -75,7 +75,7 @@ def add_to_sim_metadata(folder_path, dict_to_add):
 
 
 def write_processor_metadata(processors, folder_path):
-    if folder_path is None:
+    if folder_path is None or len(processors) == 0:
         return
         
     file_name = "metadata_processor.json"
-- 
2.43.0


From 84cbefdb6cf01d32695d451ec5164858b253aec8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 57/59] fix: the measured reverberation times are those of all
 microphones

---
 src/aspsim/room/roomimpulseresponse.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/aspsim/room/roomimpulseresponse.py b/src/aspsim/room/roomimpulseresponse.py
index 934e4b7..c54a35b 100644
--- a/src/aspsim/room/roomimpulseresponse.py
+++ b/src/aspsim/room/roomimpulseresponse.py
@@ -284,6 +284,7 @@ def ir_room_image_source_3d(
 
     max_trunc_error = -np.inf
     max_trunc_value = -np.inf
+    measured_rt60 = []
     max_num_ir_at_once = 500
     num_computed = 0
     while num_computed < num_to:
@@ -336,19 +337,24 @@ def ir_room_image_source_3d(
             truncError, truncValue = calc_truncation_info(room.rir, ir_len)
             max_trunc_error = np.max((max_trunc_error, truncError))
             max_trunc_value = np.max((max_trunc_value, truncValue))
+            if max_order > 0:
+                try:
+                    measured_rt60.append(room.measure_rt60())
+                except ValueError:
+                    measured_rt60.append(None)
 
     if calculate_metadata:
         metadata = {}
         metadata["Max Normalized Truncation Error (dB)"] = max_trunc_error
         metadata["Max Normalized Truncated Value (dB)"] = max_trunc_value
         if max_order > 0:
-            try:
-                measured_rt60 = room.measure_rt60()
+            if all([rt60 is not None for rt60 in measured_rt60]):
+                measured_rt60 = np.concatenate(measured_rt60)
                 metadata["Measured RT60 (min)"] = np.min(measured_rt60)
                 metadata["Measured RT60 (median)"] = np.median(measured_rt60)
                 metadata["Measured RT60 (mean)"] = np.mean(measured_rt60)
                 metadata["Measured RT60 (max)"] = np.max(measured_rt60)
-            except ValueError:
+            else:
                 metadata["Measured RT60 (min)"] = "failed"
                 metadata["Measured RT60 (median)"] = "failed"
                 metadata["Measured RT60 (mean)"] = "failed"
-- 
2.43.0


From c96e20c8cfc375806e811408e735e8366fbe07ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:44:09 +0000
Subject: [PATCH 58/59] fix: event counters made of the same dictionary are
 independent

---
 src/aspsim/counter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/counter.py b/src/aspsim/counter.py
index 765f871..0b13c04 100644
--- a/src/aspsim/counter.py
+++ b/src/aspsim/counter.py
@@ -110,7 +110,7 @@ class EventCounter:
 
     """
     def __init__(self, event_def):
-        self.event_def = event_def
+        self.event_def = dict(event_def)
         self.event = []
 
         self.freq = {name : freq for name, (freq, offset) in event_def.items()}
-- 
2.43.0


From 713723f7cfff0561586316be7886266ae2e37d43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:41 +0000
Subject: [PATCH 59/59] fix: every other point along the rectangle is further
 out, also on its third side

---
 src/aspsim/room/generatepoints.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/aspsim/room/generatepoints.py b/src/aspsim/room/generatepoints.py
index 4838a22..e88329d 100644
--- a/src/aspsim/room/generatepoints.py
+++ b/src/aspsim/room/generatepoints.py
@@ -207,7 +207,7 @@ def equidistant_rectangle(num_points, side_lengths, extra_side_lengths = 0, offs
     pos_fixed = pos_fixed[idxs[1]]
     points.append(np.stack([pos_fixed, pos_side], axis=-1))
 
-    pos_side = np.flip(pos_on_circumference[idxs[2]]) - breakpoints[2] - x_extent[1]
+    pos_side = pos_on_circumference[idxs[2]] - breakpoints[2] - x_extent[1]
     pos_side = -pos_side
     pos_fixed = np.full(num_points, fixed_side[2])
     pos_fixed[np.arange(num_points) % 2 == 1] -= extra_side_lengths[1] / 2
-- 
2.43.0

