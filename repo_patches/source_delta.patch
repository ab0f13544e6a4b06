From f079bfd458c602cea107ab9a1888bce87ebcc32d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:14 +0000
Subject: [PATCH 01/36] fix: TapLinear block processing read overwritten
 samples near the maximum delay

The buffer is written SIMD_N samples ahead in process, so it needs that much slack, like Tap.
---
 src/delay.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/delay.rs b/src/delay.rs
index 8bb1f8c..9e9152f 100644
--- a/src/delay.rs
+++ b/src/delay.rs
@@ -437,7 +437,7 @@ where
         let sample_rate = sample_rate as f32;
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
-            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0;
+            let buffer_length = ceil(self.max_delay * sample_rate) + 2.0 + SIMD_N as f32;
             let buffer_length = (buffer_length as usize).next_power_of_two();
             self.buffer.resize(buffer_length, 0.0);
             self.reset();
-- 
2.43.0


From 1c21d4270f0f0d65bd0a6eafe5b81a0e49e59b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:14 +0000
Subject: [PATCH 02/36] fix: Crush rounds ties the same way in block and single
 sample processing

---
 src/shape.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 6a349c4..2e66739 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -132,7 +132,10 @@ impl Shape for Crush {
     }
     #[inline]
     fn simd(&mut self, input: F32x) -> F32x {
-        (input * self.0).round() / self.0
+        // Vector rounding rounds ties to even, so round each lane the same way as `shape`.
+        F32x::new(core::array::from_fn(|i| {
+            self.shape(input.as_array_ref()[i])
+        }))
     }
 }
 
-- 
2.43.0


From 53e411d7cfed9a4252d2ffcacdb89d4a3f164cc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:38:14 +0000
Subject: [PATCH 03/36] fix: Sequencer block fades are relative to the event
 and sample accurate

Fades were applied at block relative offsets of a buffer that starts at the event,
and their ends were rounded instead of tested against the sample times as in tick.
---
 src/sequencer.rs | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index a750b63..b98bec6 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -131,8 +131,13 @@ fn fade_in(
         let fade_end_i = if fade_end_time >= end_time {
             end_index
         } else {
-            round((fade_end_time - time) / sample_duration) as usize
+            min(
+                ceil((fade_end_time - time) / sample_duration) as usize,
+                end_index,
+            )
         };
+        // The output buffer starts from `start_index`.
+        let fade_end_i = fade_end_i.saturating_sub(start_index);
         let fade_phase = delerp(
             fade_start_time,
             fade_end_time,
@@ -167,7 +172,7 @@ fn fade_out(
     sample_duration: f64,
     time: f64,
     end_time: f64,
-    _start_index: usize,
+    start_index: usize,
     end_index: usize,
     ease: Fade,
     fade_duration: f64,
@@ -177,10 +182,16 @@ fn fade_out(
     let fade_start_time = fade_end_time - fade_duration;
     if fade_duration > 0.0 && fade_start_time < end_time {
         let fade_i = if fade_start_time <= time {
-            0
+            start_index
         } else {
-            round((fade_start_time - time) / sample_duration) as usize
+            clamp(
+                start_index,
+                end_index,
+                ceil((fade_start_time - time) / sample_duration) as usize,
+            )
         };
+        // The output buffer starts from `start_index`.
+        let fade_range = fade_i - start_index..end_index - start_index;
         let fade_phase = delerp(
             fade_start_time,
             fade_end_time,
@@ -191,7 +202,7 @@ fn fade_out(
             Fade::Power => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in output.channel_f32_mut(channel)[fade_range.clone()].iter_mut() {
                         *x *= sine_ease(1.0 - fade);
                         fade += fade_d;
                     }
@@ -200,7 +211,7 @@ fn fade_out(
             Fade::Smooth => {
                 for channel in 0..output.channels() {
                     let mut fade = fade_phase;
-                    for x in output.channel_f32_mut(channel)[fade_i..end_index].iter_mut() {
+                    for x in output.channel_f32_mut(channel)[fade_range.clone()].iter_mut() {
                         *x *= smooth5(1.0 - fade);
                         fade += fade_d;
                     }
-- 
2.43.0


From e59a325c5bc0605e9d4f130d25252702136b7a3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:20 +0000
Subject: [PATCH 04/36] fix: Limiter::reset resets the gain follower

---
 src/dynamics.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index f30f263..3e43f7e 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -190,6 +190,7 @@ where
         if length != self.reducer.length {
             self.reducer = Self::new_buffer(sample_rate, self.lookahead);
         }
+        self.follower.reset();
         self.follower.set_sample_rate(sample_rate);
         self.reducer.clear();
         self.buffer.clear();
-- 
2.43.0


From 9108a04c741ecaa7df8d8b66490ec74c6b87d281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:20 +0000
Subject: [PATCH 05/36] fix: Adaptive shape starts in the state it is reset to

---
 src/shape.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shape.rs b/src/shape.rs
index 2e66739..91d0c2d 100644
--- a/src/shape.rs
+++ b/src/shape.rs
@@ -181,7 +181,7 @@ impl<S: Shape> Adaptive<S> {
             inner,
             timescale,
             smoothing: 0.0,
-            state: 0.0,
+            state: 1.0e-3,
         };
         adaptive.set_sample_rate(DEFAULT_SR);
         adaptive
-- 
2.43.0


From a9fd8fcb91b9acca834f3382893953e07fe32a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:20 +0000
Subject: [PATCH 06/36] fix: WaveSynth starts from the phase it is reset to

---
 src/wavetable.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/wavetable.rs b/src/wavetable.rs
index 03c78a2..fdff6bf 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -276,7 +276,7 @@ where
     N: Size<f32>,
 {
     pub fn new(table: Arc<Wavetable>) -> Self {
-        WaveSynth {
+        let mut synth = WaveSynth {
             table,
             phase: 0.0,
             hash: 0,
@@ -285,7 +285,9 @@ where
             sample_rate: DEFAULT_SR as f32,
             sample_duration: 1.0 / DEFAULT_SR as f32,
             _marker: core::marker::PhantomData,
-        }
+        };
+        synth.reset();
+        synth
     }
 }
 
-- 
2.43.0


From f46dcea8b4df3573e9d45a884a92255864e61680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:54:20 +0000
Subject: [PATCH 07/36] fix: Mls without a hash or seed resets to the state it
 started from

---
 src/noise.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/noise.rs b/src/noise.rs
index be26ea5..18dfd7c 100644
--- a/src/noise.rs
+++ b/src/noise.rs
@@ -100,16 +100,19 @@ impl MlsState {
 #[derive(Clone)]
 pub struct Mls {
     mls: MlsState,
+    /// State we started from.
+    initial: MlsState,
     seed: Option<u64>,
-    hash: u64,
+    hash: Option<u64>,
 }
 
 impl Mls {
     pub fn new(mls: MlsState) -> Self {
         Self {
+            initial: mls.clone(),
             mls,
             seed: None,
-            hash: 0,
+            hash: None,
         }
     }
 }
@@ -120,8 +123,10 @@ impl AudioNode for Mls {
     type Outputs = typenum::U1;
 
     fn reset(&mut self) {
-        let hash = self.seed.unwrap_or(self.hash);
-        self.mls = MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32);
+        self.mls = match self.seed.or(self.hash) {
+            Some(hash) => MlsState::new_with_seed(self.mls.n, (hash ^ (hash >> 32)) as u32),
+            None => self.initial.clone(),
+        };
     }
 
     #[inline]
@@ -138,7 +143,7 @@ impl AudioNode for Mls {
     }
 
     fn set_hash(&mut self, hash: u64) {
-        self.hash = hash;
+        self.hash = Some(hash);
         self.reset();
     }
 
-- 
2.43.0


From 6968f435185adf2a6f6494383d4207a402cc33bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:00:17 +0000
Subject: [PATCH 08/36] fix: DummyUnit zeroes the whole block

---
 src/audiounit.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/audiounit.rs b/src/audiounit.rs
index 43c5fe0..3177c04 100644
--- a/src/audiounit.rs
+++ b/src/audiounit.rs
@@ -675,7 +675,7 @@ impl AudioUnit for DummyUnit {
 
     fn process(&mut self, size: usize, _input: &BufferRef, output: &mut BufferMut) {
         for channel in 0..self.outputs {
-            output.channel_f32_mut(channel)[0..simd_items(size)].fill(0.0);
+            output.channel_f32_mut(channel)[0..size].fill(0.0);
         }
     }
 
-- 
2.43.0


From 8851e0fa12b88908ad2c7acbd0f988db49f3b4fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:30 +0000
Subject: [PATCH 09/36] fix: Feedback2::allocate allocates the feedback
 processor too

---
 src/feedback.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/feedback.rs b/src/feedback.rs
index f24ad25..de104df 100644
--- a/src/feedback.rs
+++ b/src/feedback.rs
@@ -267,6 +267,7 @@ where
 
     fn allocate(&mut self) {
         self.x.allocate();
+        self.y.allocate();
     }
 }
 
-- 
2.43.0


From c44cd138b1570a4ad1ec02bb950d681794b51841 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:30 +0000
Subject: [PATCH 10/36] fix: SettingListener forwards settings and
 preallocation to its node

---
 src/setting.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/setting.rs b/src/setting.rs
index 3b1770b..60febb8 100644
--- a/src/setting.rs
+++ b/src/setting.rs
@@ -306,10 +306,18 @@ impl<X: AudioNode> AudioNode for SettingListener<X> {
         self.x.process(size, input, output);
     }
 
+    fn set(&mut self, setting: Setting) {
+        self.x.set(setting);
+    }
+
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         self.x.ping(probe, hash.hash(Self::ID))
     }
 
+    fn allocate(&mut self) {
+        self.x.allocate();
+    }
+
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         self.receive_settings();
         self.x.route(input, frequency)
-- 
2.43.0


From 4c79206988cdfa6a8f83b465beef0310ba754cbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:30 +0000
Subject: [PATCH 11/36] fix: Reverb resets its input diffusers, sets their
 sample rate and preallocates its filters

---
 src/reverb.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/reverb.rs b/src/reverb.rs
index d3e2545..df895d2 100644
--- a/src/reverb.rs
+++ b/src/reverb.rs
@@ -217,6 +217,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     type Outputs = U2;
 
     fn reset(&mut self) {
+        for x in self.pre.iter_mut() {
+            x.reset();
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.reset();
@@ -232,6 +235,9 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
+        for x in self.pre.iter_mut() {
+            x.set_sample_rate(sample_rate);
+        }
         for block in self.block.iter_mut() {
             for x in block.allpass0.iter_mut() {
                 x.set_sample_rate(sample_rate);
@@ -276,4 +282,11 @@ impl<F: AudioNode<Inputs = U1, Outputs = U1>> AudioNode for Reverb<F> {
     fn route(&mut self, input: &SignalFrame, _frequency: f64) -> SignalFrame {
         Routing::Arbitrary(0.0).route(input, 2)
     }
+
+    fn allocate(&mut self) {
+        for block in self.block.iter_mut() {
+            block.filter0.allocate();
+            block.filter1.allocate();
+        }
+    }
 }
-- 
2.43.0


From 3532a6a958d2ecafeb702c72b545e7b0309ef566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:06:30 +0000
Subject: [PATCH 12/36] fix: Sequencer::allocate preallocates the units of its
 events

---
 src/sequencer.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index b98bec6..a77ca1c 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -815,6 +815,16 @@ impl AudioUnit for Sequencer {
     }
 
     fn allocate(&mut self) {
+        // The units of the events may need to allocate, too.
+        let mut ready = core::mem::take(&mut self.ready).into_vec();
+        for event in ready
+            .iter_mut()
+            .chain(self.active.iter_mut())
+            .chain(self.past.iter_mut())
+        {
+            event.unit.allocate();
+        }
+        self.ready = ready.into();
         self.active.reserve(DEFAULT_CAPACITY);
         self.active_map.reserve(DEFAULT_CAPACITY);
         self.ready.reserve(DEFAULT_CAPACITY);
-- 
2.43.0


From b9a2bcdb13b8cac953f19667c2296b5ad7ae4465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:14:23 +0000
Subject: [PATCH 13/36] fix: Limiter::allocate reserves room for its whole
 buffer

---
 src/dynamics.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 3e43f7e..3a4778e 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -233,7 +233,7 @@ where
     fn allocate(&mut self) {
         if self.buffer.capacity() < self.reducer.length() {
             self.buffer
-                .reserve(self.reducer.length() - self.buffer.capacity());
+                .reserve(self.reducer.length() - self.buffer.len());
         }
     }
 }
-- 
2.43.0


From 3997f33426b78589beab7bb4aa80bdb3089d62e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:28:45 +0000
Subject: [PATCH 14/36] fix: subsampled Svf reads its parameters at the first
 sample after a reset

---
 src/svf.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/svf.rs b/src/svf.rs
index 77f5f9e..3e26370 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -822,7 +822,8 @@ where
     fn reset(&mut self) {
         self.ic1eq = F::zero();
         self.ic2eq = F::zero();
-        self.counter = 0;
+        // Read the parameters at the first sample.
+        self.counter = self.period - 1;
     }
 
     fn set_sample_rate(&mut self, sample_rate: f64) {
@@ -854,7 +855,7 @@ where
     fn set(&mut self, setting: Setting) {
         if let Parameter::Subsample(period) = setting.parameter() {
             self.period = max(1, *period);
-            self.counter = 0;
+            self.counter = self.period - 1;
         }
     }
 
-- 
2.43.0


From c05e46991caddf04fe6457e3f7d893d59030075e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:08:21 +0000
Subject: [PATCH 15/36] fix: NetBackend handles commits and settings in order

Edits and settings that arrived while a newer version of the network was already
waiting were lost for nodes that the backend did not know yet.
---
 src/net.rs     | 13 -----------
 src/realnet.rs | 61 +++++++++++++++++---------------------------------
 2 files changed, 21 insertions(+), 53 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 5fe667c..877f110 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1288,19 +1288,6 @@ impl Net {
         }
         self.edit_queue.clear();
     }
-
-    /// Apply all edits from another network into this network.
-    pub(crate) fn apply_foreign_edits(
-        &mut self,
-        source: &mut Net,
-        sender: &Option<Sender<NetReturn>>,
-    ) {
-        for edit in source.edit_queue.iter_mut() {
-            if let Some(index) = self.node_index.get(&edit.id) {
-                self.vertex[*index].enqueue(edit, sender);
-            }
-        }
-    }
 }
 
 impl AudioUnit for Net {
diff --git a/src/realnet.rs b/src/realnet.rs
index df663de..dab754d 100644
--- a/src/realnet.rs
+++ b/src/realnet.rs
@@ -61,49 +61,30 @@ impl NetBackend {
 
     /// Handle changes made to the backend.
     fn handle_messages(&mut self) {
-        let mut latest_net: Option<Net> = None;
-        #[allow(clippy::while_let_loop)]
-        loop {
-            match self.receiver.try_recv() {
-                Ok(message) => {
-                    match message {
-                        NetMessage::Net(net) => {
-                            if let Some(mut net) = latest_net {
-                                // This is not the latest network, send it back immediately for deallocation.
-                                self.net.apply_foreign_edits(&mut net, &self.sender);
-                                if self
-                                    .sender
-                                    .as_ref()
-                                    .unwrap()
-                                    .try_send(NetReturn::Net(net))
-                                    .is_ok()
-                                {}
-                            }
-                            latest_net = Some(net);
-                        }
-                        NetMessage::Setting(setting) => {
-                            self.net.set(setting);
-                        }
-                        NetMessage::Null => (),
-                    }
+        // Messages are handled in the order they were sent. A later version may arrive before
+        // an earlier one has been heard but the edits and settings in between must not be lost.
+        while let Ok(message) = self.receiver.try_recv() {
+            match message {
+                NetMessage::Net(mut net) => {
+                    // Migrate existing nodes to the new network.
+                    self.net.migrate(&mut net);
+                    core::mem::swap(&mut net, &mut self.net);
+                    self.net.apply_edits(&self.sender);
+                    // Send the previous network back for deallocation.
+                    if self
+                        .sender
+                        .as_ref()
+                        .unwrap()
+                        .try_send(NetReturn::Net(net))
+                        .is_ok()
+                    {}
                 }
-                _ => break,
+                NetMessage::Setting(setting) => {
+                    self.net.set(setting);
+                }
+                NetMessage::Null => (),
             }
         }
-        if let Some(mut net) = latest_net {
-            // Migrate existing nodes to the new network.
-            self.net.migrate(&mut net);
-            core::mem::swap(&mut net, &mut self.net);
-            self.net.apply_edits(&self.sender);
-            // Send the previous network back for deallocation.
-            if self
-                .sender
-                .as_ref()
-                .unwrap()
-                .try_send(NetReturn::Net(net))
-                .is_ok()
-            {}
-        }
     }
 }
 
-- 
2.43.0


From 49f1fc64effccc9dc0e6333fac11737f2c21b94d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:00 +0000
Subject: [PATCH 16/36] fix: crossfades last equally long in block and single
 sample processing

---
 src/slot.rs   | 16 +++++++++++-----
 src/vertex.rs | 13 +++++++++----
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/src/slot.rs b/src/slot.rs
index d061459..0a958c1 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -218,9 +218,15 @@ impl AudioUnit for SlotBackend {
         self.handle_messages();
         self.current.process(size, input, output);
         if let Some(next) = self.next.as_deref_mut() {
-            let phase_left = ((1.0 - self.fade_phase) * self.fade_time * self.sample_rate) as usize;
-            let n = min(size, phase_left);
-            let fade_d = 1.0 / (self.fade_time * self.sample_rate) as f32;
+            let fade_step = 1.0 / (self.fade_time * self.sample_rate);
+            // Fade exactly as many samples as in single sample processing.
+            let mut n = 0;
+            let mut fade_end = self.fade_phase;
+            while n < size && fade_end < 1.0 {
+                fade_end += fade_step;
+                n += 1;
+            }
+            let fade_d = fade_step as f32;
             for channel in 0..self.outputs {
                 let mut fade = self.fade_phase as f32;
                 match self.fade {
@@ -268,8 +274,8 @@ impl AudioUnit for SlotBackend {
                     *x = *y;
                 }
             }
-            self.fade_phase += n as f64 / (self.fade_time * self.sample_rate);
-            if phase_left <= size {
+            self.fade_phase = fade_end;
+            if fade_end >= 1.0 {
                 // We don't start fading in the latest unit until the next block.
                 self.next_phase();
             }
diff --git a/src/vertex.rs b/src/vertex.rs
index d455293..03b4af8 100644
--- a/src/vertex.rs
+++ b/src/vertex.rs
@@ -171,9 +171,14 @@ impl Vertex {
             .process(size, input, &mut self.output.buffer_mut());
         let outputs = self.outputs();
         if let Some(next) = self.next.unit.as_deref_mut() {
-            let phase_left = ((1.0 - self.fade_phase) * self.next.fade_time * sample_rate) as usize;
-            let n = min(size, phase_left);
             let fade_d = 1.0 / (self.next.fade_time * sample_rate);
+            // Fade exactly as many samples as in single sample processing.
+            let mut n = 0;
+            let mut fade_end = self.fade_phase;
+            while n < size && fade_end < 1.0 {
+                fade_end += fade_d;
+                n += 1;
+            }
             for channel in 0..outputs {
                 let mut fade = self.fade_phase;
                 match self.next.fade {
@@ -221,8 +226,8 @@ impl Vertex {
                     *x = *y;
                 }
             }
-            self.fade_phase += n as f32 / (self.next.fade_time * sample_rate);
-            if phase_left <= size {
+            self.fade_phase = fade_end;
+            if fade_end >= 1.0 {
                 // We don't start fading in the latest unit until the next block.
                 self.next_phase(sender);
             }
-- 
2.43.0


From a48e46dc7275112a4b053d2b2f2d8c9e1c290b93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:10:00 +0000
Subject: [PATCH 17/36] fix: Net::replace cancels earlier crossfades of the
 node

---
 src/net.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 877f110..528642e 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -465,6 +465,10 @@ impl Net {
         assert_eq!(unit.outputs(), self.vertex[node_index].outputs());
         unit.set_sample_rate(self.sample_rate as f64);
         core::mem::swap(&mut self.vertex[node_index].unit, &mut unit);
+        // Any earlier crossfades of the node are canceled.
+        self.vertex[node_index].next = NodeEdit::default();
+        self.vertex[node_index].latest = NodeEdit::default();
+        self.edit_queue.retain(|edit| edit.id != node);
         self.vertex[node_index].changed = self.revision;
         unit
     }
-- 
2.43.0


From 260ee12150c01a4fddfdccccbbe6725aa5701db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:08 +0000
Subject: [PATCH 18/36] fix: SlotBackend sets the sample rate of incoming units

---
 src/slot.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/slot.rs b/src/slot.rs
index 0a958c1..78ac950 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -135,7 +135,9 @@ impl SlotBackend {
     /// Handle updates.
     fn handle_messages(&mut self) {
         while let Ok(message) = self.receiver.try_recv() {
-            if let SlotMessage::Update(fade, fade_time, unit) = message {
+            if let SlotMessage::Update(fade, fade_time, mut unit) = message {
+                // Make sure the sample rate of the unit matches ours.
+                unit.set_sample_rate(self.sample_rate);
                 if self.next.is_none() {
                     self.next = Some(unit);
                     self.fade_phase = 0.0;
-- 
2.43.0


From 652b267cce174e6ae17173a053dcee3661ef1428 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:19:08 +0000
Subject: [PATCH 19/36] fix: Sequencer backend sets the sample rate of events
 from its frontend

---
 src/sequencer.rs | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index a77ca1c..4b0e429 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -345,17 +345,21 @@ impl Sequencer {
     }
 
     /// Add event. This is an internal method.
-    pub(crate) fn push_event(&mut self, event: Event) {
+    pub(crate) fn push_event(&mut self, mut event: Event) {
         if let Some((sender, receiver)) = &mut self.front {
             // Deallocate all past events.
             while receiver.try_recv().is_ok() {}
             // Send the new event over.
             if sender.try_send(Message::Push(event)).is_ok() {}
-        } else if event.start_time < self.active_threshold {
-            self.active_map.insert(event.id, self.active.len());
-            self.active.push(event);
         } else {
-            self.ready.push(event);
+            // The sample rate of the frontend may be different from ours.
+            event.unit.set_sample_rate(self.sample_rate);
+            if event.start_time < self.active_threshold {
+                self.active_map.insert(event.id, self.active.len());
+                self.active.push(event);
+            } else {
+                self.ready.push(event);
+            }
         }
     }
 
@@ -400,6 +404,8 @@ impl Sequencer {
             // Send the new event over.
             if sender.try_send(Message::PushRelative(event)).is_ok() {}
         } else {
+            // The sample rate of the frontend may be different from ours.
+            event.unit.set_sample_rate(self.sample_rate);
             event.start_time += self.time;
             event.end_time += self.time;
             if event.start_time < self.active_threshold {
-- 
2.43.0


From fca85bf650900fb95632c2d66cc4eebe6dcc13b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:26:16 +0000
Subject: [PATCH 20/36] fix: Sequencer edits that end a waiting event in the
 past cancel it

---
 src/sequencer.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/sequencer.rs b/src/sequencer.rs
index 4b0e429..1371ef9 100644
--- a/src/sequencer.rs
+++ b/src/sequencer.rs
@@ -464,7 +464,7 @@ impl Sequencer {
             let i = self.active_map[&id];
             self.active[i].end_time = end_time;
             self.active[i].fade_out = fade_out_time;
-        } else if end_time < self.active_threshold {
+        } else if end_time < self.active_threshold && !self.is_ready(id) {
             // The edit is already in the past.
         } else {
             // The edit is in the future.
@@ -505,7 +505,7 @@ impl Sequencer {
             let i = self.active_map[&id];
             self.active[i].end_time = self.time + end_time;
             self.active[i].fade_out = fade_out_time;
-        } else if self.time + end_time < self.active_threshold {
+        } else if self.time + end_time < self.active_threshold && !self.is_ready(id) {
             // The edit is already in the past.
         } else {
             // The edit is in the future.
@@ -519,6 +519,11 @@ impl Sequencer {
         }
     }
 
+    /// Returns whether the event is still waiting to be played.
+    fn is_ready(&self, id: EventId) -> bool {
+        self.ready.iter().any(|event| event.id == id)
+    }
+
     /// Move units that start before the end time to the active set.
     fn ready_to_active(&mut self, next_end_time: f64) {
         self.active_threshold = next_end_time - self.sample_duration * 0.5;
-- 
2.43.0


From 1b00b93a4709eb100c148be6a60e375e5600d086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:38:03 +0000
Subject: [PATCH 21/36] fix: Net sample rate changes and resets reach units
 that are being faded in

---
 src/net.rs    |  9 +++++++--
 src/vertex.rs | 29 +++++++++++++++++++++++++++++
 2 files changed, 36 insertions(+), 2 deletions(-)

diff --git a/src/net.rs b/src/net.rs
index 528642e..220b3f2 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1308,13 +1308,18 @@ impl AudioUnit for Net {
         if self.sample_rate != sample_rate {
             self.sample_rate = sample_rate;
             for vertex in &mut self.vertex {
-                vertex.unit.set_sample_rate(sample_rate as f64);
+                vertex.set_sample_rate(sample_rate as f64);
                 // Sample rate change counts as a change
                 // to be sent to the backend because
                 // we cannot change sample rate in the backend
                 // - it may allocate or do something else inappropriate.
                 vertex.changed = self.revision;
             }
+            for edit in &mut self.edit_queue {
+                if let Some(unit) = edit.unit.as_deref_mut() {
+                    unit.set_sample_rate(sample_rate as f64);
+                }
+            }
             // Take the opportunity to unload some calculations.
             if !self.is_ordered() {
                 self.determine_order();
@@ -1324,7 +1329,7 @@ impl AudioUnit for Net {
 
     fn reset(&mut self) {
         for vertex in &mut self.vertex {
-            vertex.unit.reset();
+            vertex.reset();
             // Reseting a unit counts as a change
             // to be sent to the backend because
             // we cannot reset in the backend
diff --git a/src/vertex.rs b/src/vertex.rs
index 03b4af8..28bcd30 100644
--- a/src/vertex.rs
+++ b/src/vertex.rs
@@ -93,6 +93,35 @@ impl Vertex {
     /// Preallocate everything.
     pub fn allocate(&mut self) {
         self.unit.allocate();
+        if let Some(next) = self.next.unit.as_deref_mut() {
+            next.allocate();
+        }
+        if let Some(latest) = self.latest.unit.as_deref_mut() {
+            latest.allocate();
+        }
+    }
+
+    /// Set the sample rate of the unit and of any units we are fading into.
+    pub fn set_sample_rate(&mut self, sample_rate: f64) {
+        self.unit.set_sample_rate(sample_rate);
+        if let Some(next) = self.next.unit.as_deref_mut() {
+            next.set_sample_rate(sample_rate);
+        }
+        if let Some(latest) = self.latest.unit.as_deref_mut() {
+            latest.set_sample_rate(sample_rate);
+        }
+    }
+
+    /// Reset the unit. Any fade starts again.
+    pub fn reset(&mut self) {
+        self.unit.reset();
+        if let Some(next) = self.next.unit.as_deref_mut() {
+            next.reset();
+        }
+        if let Some(latest) = self.latest.unit.as_deref_mut() {
+            latest.reset();
+        }
+        self.fade_phase = 0.0;
     }
 
     /// Calculate source vertex and source port.
-- 
2.43.0


From 231d582ceff695be2bbf6b2119470a717caf58d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:50:43 +0000
Subject: [PATCH 22/36] fix: Net frontends keep the replacements that were
 committed as crossfades

---
 src/net.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/net.rs b/src/net.rs
index 220b3f2..96dbedf 100644
--- a/src/net.rs
+++ b/src/net.rs
@@ -1150,6 +1150,14 @@ impl Net {
         // Send over the original nodes to the backend.
         // This is necessary if the nodes contain any backends, which cannot be cloned effectively.
         core::mem::swap(&mut net.vertex, &mut self.vertex);
+        // The replacements are part of the frontend from now on.
+        for edit in net.edit_queue.iter() {
+            if let Some(unit) = &edit.unit {
+                self.vertex[edit.index].unit = unit.clone();
+                self.vertex[edit.index].next = NodeEdit::default();
+                self.vertex[edit.index].latest = NodeEdit::default();
+            }
+        }
         // Preallocate all necessary memory.
         net.allocate();
         if let Some((sender, receiver)) = &mut self.front {
-- 
2.43.0


From 13655ba28549c7d04dbc92aa7ec4126f922fea96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:01:14 +0000
Subject: [PATCH 23/36] fix: resonator responds to its center and Q settings

---
 src/biquad.rs | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/biquad.rs b/src/biquad.rs
index 11929b1..d3174ca 100644
--- a/src/biquad.rs
+++ b/src/biquad.rs
@@ -366,6 +366,16 @@ impl<F: Real, N: Size<f32>> AudioNode for Resonator<F, N> {
         self.biquad.tick(&[input[0]].into())
     }
 
+    fn set(&mut self, setting: Setting) {
+        match setting.parameter() {
+            Parameter::Center(center) => self.set_center_q(F::from_f32(*center), self.q),
+            Parameter::CenterQ(center, q) => {
+                self.set_center_q(F::from_f32(*center), F::from_f32(*q))
+            }
+            _ => (),
+        }
+    }
+
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         let mut output = SignalFrame::new(self.outputs());
         output.set(
-- 
2.43.0


From fa42f3ab27a44ccd53f95c699fa81b7d2bf0199b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:51 +0000
Subject: [PATCH 24/36] fix: MultiStack and Reduce route only the inputs of the
 first node to it

---
 src/audionode.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/audionode.rs b/src/audionode.rs
index c02518e..d58c8df 100644
--- a/src/audionode.rs
+++ b/src/audionode.rs
@@ -2063,7 +2063,7 @@ where
         if self.x.is_empty() {
             return SignalFrame::new(self.outputs());
         }
-        let mut output = self.x[0].route(input, frequency);
+        let mut output = self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         output.resize(self.outputs());
         for i in 1..N::USIZE {
             let output_i = self.x[i].route(
@@ -2202,7 +2202,7 @@ where
     }
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
-        let mut output = self.x[0].route(input, frequency);
+        let mut output = self.x[0].route(&SignalFrame::copy(input, 0, X::Inputs::USIZE), frequency);
         for j in 1..self.x.len() {
             let output_j = self.x[j].route(
                 &SignalFrame::copy(input, j * X::Inputs::USIZE, X::Inputs::USIZE),
-- 
2.43.0


From 9b2bf74350d98adb0d15b7e24d1d8c9979f129a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:52 +0000
Subject: [PATCH 25/36] fix: generators without inputs have a known latency

---
 src/signal.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/signal.rs b/src/signal.rs
index 5f6346f..38c99ce 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -176,7 +176,8 @@ impl Routing {
     /// Routes signals from input to output.
     pub fn route(&self, input: &SignalFrame, outputs: usize) -> SignalFrame {
         let mut output = SignalFrame::new(outputs);
-        if input.is_empty() {
+        // Generators need no inputs.
+        if input.is_empty() && !matches!(self, Routing::Generator(_)) {
             return output;
         }
         match self {
-- 
2.43.0


From 10dc528d454d89f00acecbe6608c32dace368e50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:52 +0000
Subject: [PATCH 26/36] fix: arbitrary routing adds its latency once

---
 src/signal.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/signal.rs b/src/signal.rs
index 38c99ce..1eaf60a 100644
--- a/src/signal.rs
+++ b/src/signal.rs
@@ -182,11 +182,11 @@ impl Routing {
         }
         match self {
             Routing::Arbitrary(latency) => {
-                let mut combo = input.at(0).distort(*latency);
+                let mut combo = input.at(0).distort(0.0);
                 for i in 1..input.len() {
-                    combo = combo.combine_nonlinear(input.at(i), *latency);
+                    combo = combo.combine_nonlinear(input.at(i), 0.0);
                 }
-                output.fill(combo);
+                output.fill(combo.distort(*latency));
             }
             Routing::Split => {
                 for i in 0..outputs {
-- 
2.43.0


From f4f797f9b4cb4466cc8e04cf52be0f692f749ee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:52 +0000
Subject: [PATCH 27/36] fix: Morph mixes the response of its input to its
 response

---
 src/svf.rs | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/svf.rs b/src/svf.rs
index 3e26370..998dbaa 100644
--- a/src/svf.rs
+++ b/src/svf.rs
@@ -1113,11 +1113,18 @@ impl<F: Real> AudioNode for Morph<F> {
 
     fn route(&mut self, input: &SignalFrame, frequency: f64) -> SignalFrame {
         let mut output = self.filter.route(input, frequency);
+        // Mix the input signal to the output of the filter.
         output.set(
             0,
-            output.at(0).filter(0.0, |r| {
-                (r + Complex64::new(self.morph.to_f64(), 0.0)) * 0.5
-            }),
+            output
+                .at(0)
+                .combine_linear(
+                    input.at(0).scale(self.morph.to_f64()),
+                    0.0,
+                    |x, y| x + y,
+                    |x, y| x + y,
+                )
+                .scale(0.5),
         );
         output
     }
-- 
2.43.0


From ad4547749b4f7a8688a083365a76157ab7219291 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:09:52 +0000
Subject: [PATCH 28/36] fix: Wave discards the latency that nodes have at its
 sample rate

---
 src/wave.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/wave.rs b/src/wave.rs
index cc3a056..2e04685 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -477,6 +477,8 @@ impl Wave {
         assert_eq!(node.inputs(), 0);
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // The latency may depend on the sample rate.
+        node.set_sample_rate(sample_rate);
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
@@ -572,6 +574,8 @@ impl Wave {
         assert_eq!(node.inputs(), self.channels());
         assert!(node.outputs() > 0);
         assert!(duration >= 0.0);
+        // The latency may depend on the sample rate.
+        node.set_sample_rate(self.sample_rate());
         let latency = node.latency().unwrap_or_default();
         // Round latency down to nearest sample.
         let latency_samples = floor(latency) as usize;
-- 
2.43.0


From 47672684543600d54f4147eebb861851b745ec93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:48:44 +0000
Subject: [PATCH 29/36] fix: SlotBackend hands its pseudorandom hash on to the
 contents of its unit

---
 src/slot.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/slot.rs b/src/slot.rs
index 78ac950..c08b618 100644
--- a/src/slot.rs
+++ b/src/slot.rs
@@ -299,12 +299,12 @@ impl AudioUnit for SlotBackend {
 
     fn ping(&mut self, probe: bool, hash: AttoHash) -> AttoHash {
         if !probe {
-            self.current.set_hash(hash.state());
+            self.current.ping(false, hash.clone());
             if let Some(next) = self.next.as_deref_mut() {
-                next.set_hash(hash.state());
+                next.ping(false, hash.clone());
             }
             if let Some(latest) = self.latest.as_deref_mut() {
-                latest.set_hash(hash.state());
+                latest.ping(false, hash.clone());
             }
         }
         hash.hash(self.get_id())
-- 
2.43.0


From 3a464e9c201190f8c30cc2753732bff53becc3fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:03:37 +0000
Subject: [PATCH 30/36] fix: monotonic spline does not overshoot in falling
 segments and follows Steffen's method

---
 src/math.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/math.rs b/src/math.rs
index d183ada..e36f460 100644
--- a/src/math.rs
+++ b/src/math.rs
@@ -372,8 +372,9 @@ pub fn spline_mono<T: Num>(y0: T, y1: T, y2: T, y3: T, x: T) -> T {
     let d0 = y1 - y0;
     let d1 = y2 - y1;
     let d2 = y3 - y2;
-    let d1d = (signum(d0) + signum(d1)) * min(d0 + d1, min(abs(d0), abs(d1)));
-    let d2d = (signum(d1) + signum(d2)) * min(d1 + d2, min(abs(d1), abs(d2)));
+    let quarter = T::from_f32(0.25);
+    let d1d = (signum(d0) + signum(d1)) * min(abs(d0 + d1) * quarter, min(abs(d0), abs(d1)));
+    let d2d = (signum(d1) + signum(d2)) * min(abs(d1 + d2) * quarter, min(abs(d1), abs(d2)));
     x * x * x * (T::new(2) * y1 - T::new(2) * y2 + d1d + d2d)
         + x * x * (T::new(-3) * y1 + T::new(3) * y2 - T::new(2) * d1d - d2d)
         + x * d1d
-- 
2.43.0


From 4039e3249e57bfd0894ef4db7a1e65dd4ebadc16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:43:23 +0000
Subject: [PATCH 31/36] fix: Wave::retain of a span beyond the end of the wave
 leaves an empty wave

---
 src/wave.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/wave.rs b/src/wave.rs
index 2e04685..65eeebc 100644
--- a/src/wave.rs
+++ b/src/wave.rs
@@ -305,8 +305,11 @@ impl Wave {
     /// Only the part of the span overlapping the wave is considered.
     /// That is, the offset may be negative and the end of the span may lie beyond the end of the wave.
     pub fn retain(&mut self, start: isize, length: usize) {
-        let i0 = max(start, 0) as usize;
-        let i1 = min(self.length(), max(0, start + length as isize) as usize);
+        let i1 = min(
+            self.length(),
+            max(0, start.saturating_add_unsigned(length)) as usize,
+        );
+        let i0 = min(i1, max(start, 0) as usize);
         if i0 > 0 {
             for channel in 0..self.channels() {
                 for i in i0..i1 {
-- 
2.43.0


From 1f5eff2c8bbecb6c25c440044e51dbf4df744f1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:46:58 +0000
Subject: [PATCH 32/36] fix: WAV writing reports errors of writing the last
 buffered bytes

---
 src/write.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/write.rs b/src/write.rs
index 30b3bbe..818f408 100644
--- a/src/write.rs
+++ b/src/write.rs
@@ -72,7 +72,7 @@ impl Wave {
                 write16(&mut writer, (sample as i16) as u16)?;
             }
         }
-        std::io::Result::Ok(())
+        writer.flush()
     }
 
     /// Write the wave as a 32-bit float WAV to a buffer.
@@ -94,7 +94,7 @@ impl Wave {
                 writer.write_all(&sample.to_le_bytes())?;
             }
         }
-        std::io::Result::Ok(())
+        writer.flush()
     }
 
     /// Save the wave as a 16-bit WAV file.
-- 
2.43.0


From a2c20c4e4108de7ecf0261bbe889b19b0b144c00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:15 +0000
Subject: [PATCH 33/36] fix: limiter gain takes the outgoing frame into account

---
 src/dynamics.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dynamics.rs b/src/dynamics.rs
index 3a4778e..c40faf3 100644
--- a/src/dynamics.rs
+++ b/src/dynamics.rs
@@ -199,6 +199,8 @@ where
     #[inline]
     fn tick(&mut self, input: &Frame<f32, Self::Inputs>) -> Frame<f32, Self::Outputs> {
         let amplitude = input.iter().fold(0.0, |amp, &x| max(amp, abs(x)));
+        // Include the frame that is about to be output, which leaves the reducer now.
+        let peak = max(self.reducer.total(), amplitude);
         self.reducer.set(self.index, amplitude);
         if self.buffer.len() < self.reducer.length() {
             // We are filling up the initial buffer.
@@ -213,8 +215,7 @@ where
             let output = self.buffer[self.index].clone();
             self.buffer[self.index] = input.clone();
             // Leave some headroom.
-            self.follower
-                .filter_mono(max(1.0, self.reducer.total() * 1.10));
+            self.follower.filter_mono(max(1.0, peak * 1.10));
             self.advance();
             let limit = self.follower.value();
             output * Frame::splat(1.0 / limit)
-- 
2.43.0


From 971cd2965790bbfc0d7ac69ce0105075ca75a416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:15 +0000
Subject: [PATCH 34/36] fix: adsr_live does not share state with its clones,
 starts released, restarts at reset and ends a zero length release

---
 src/adsr.rs | 40 +++++++++++++++++++++-------------------
 1 file changed, 21 insertions(+), 19 deletions(-)

diff --git a/src/adsr.rs b/src/adsr.rs
index 8cec74d..bf92ea5 100644
--- a/src/adsr.rs
+++ b/src/adsr.rs
@@ -15,7 +15,7 @@
 //! connected MIDI input device it finds, and play the corresponding pitches with the volume moderated by
 //! an `adsr_live()` envelope.
 
-use super::prelude::{clamp01, delerp, envelope2, lerp, shared, var, An, EnvelopeIn, Frame, U1};
+use super::prelude::{delerp, envelope2, lerp, An, EnvelopeIn, Frame, U1};
 use super::Real;
 
 pub fn adsr_live(
@@ -24,29 +24,31 @@ pub fn adsr_live(
     sustain: f32,
     release: f32,
 ) -> An<EnvelopeIn<f32, impl FnMut(f32, &Frame<f32, U1>) -> f32 + Clone, U1, f32>> {
-    let neg1 = -1.0;
     let zero = 0.0;
-    let a = shared(zero);
-    let b = shared(neg1);
-    let attack_start = var(&a);
-    let release_start = var(&b);
+    let mut attack_start = zero;
+    let mut release_start = zero;
+    let mut released = true;
     envelope2(move |time, control| {
-        if release_start.value() >= zero && control > zero {
-            attack_start.set_value(time);
-            release_start.set_value(neg1);
-        } else if release_start.value() < zero && control <= zero {
-            release_start.set_value(time);
+        if time <= zero {
+            // Processing starts from the released state.
+            attack_start = zero;
+            release_start = -release;
+            released = true;
         }
-        let ads_value = ads(attack, decay, sustain, time - attack_start.value());
-        if release_start.value() < zero {
+        if released && control > zero {
+            attack_start = time;
+            released = false;
+        } else if !released && control <= zero {
+            release_start = time;
+            released = true;
+        }
+        let ads_value = ads(attack, decay, sustain, time - attack_start);
+        if !released {
             ads_value
+        } else if time < release_start + release {
+            ads_value * delerp(release_start + release, release_start, time)
         } else {
-            ads_value
-                * clamp01(delerp(
-                    release_start.value() + release,
-                    release_start.value(),
-                    time,
-                ))
+            zero
         }
     })
 }
-- 
2.43.0


From 995f7bf31670d21c3c45adf82e943400fc920e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:57 +0000
Subject: [PATCH 35/36] fix: discrete summation oscillator does not divide by
 zero at high roughness

---
 src/oscillator.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/oscillator.rs b/src/oscillator.rs
index 539e8bf..b22b770 100644
--- a/src/oscillator.rs
+++ b/src/oscillator.rs
@@ -104,11 +104,15 @@ impl<F: Real> AudioNode for Sine<F> {
 /// Discrete summation formula. Returns sum, of `i` in `0..n`, of `r ** i * sin(f + i * d)`.
 fn dsf<T: Real>(f: T, d: T, r: T, n: T) -> T {
     // Note: beware of division by zero, which results when `r` = 1 and `d` = 0.
+    // The denominator `1 + r * r - 2 * r * cos(d)` is written as a sum of squares
+    // so it does not cancel to zero when `r` is close to 1 and `d` is close to 0.
+    let s = sin(d * T::from_f32(0.5));
+    let z = squared(T::one() - r) + T::new(4) * r * squared(s);
     // Formula is from Moorer, J. A., The Synthesis of Complex Audio Spectra by Means of Discrete Summation Formulae, 1976.
     (sin(f)
         - r * sin(f - d)
         - pow(r, n + T::one()) * (sin(f + (n + T::one()) * d) - r * sin(f + n * d)))
-        / (T::one() + r * r - T::new(2) * r * cos(d))
+        / z
 }
 
 /// DSF oscillator. Number of inputs is `N`, either 1 or 2.
-- 
2.43.0


From e2133f8ed25e3294769fbd4f89855f759799176d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:13:57 +0000
Subject: [PATCH 36/36] fix: wavetable made from a single cycle wave has the
 shape of the wave

---
 src/wavetable.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/wavetable.rs b/src/wavetable.rs
index fdff6bf..dd49d47 100644
--- a/src/wavetable.rs
+++ b/src/wavetable.rs
@@ -134,7 +134,8 @@ impl Wavetable {
         let spectrum = super::fft::real_fft(&mut data);
         let phase = |i: u32| {
             if (i as usize) < spectrum.len() {
-                spectrum[i as usize].arg() as f64 / f64::TAU
+                // The spectrum holds cosine phases while wavetable partials are sines.
+                spectrum[i as usize].arg() as f64 / f64::TAU + 0.25
             } else {
                 0.0
             }
-- 
2.43.0

