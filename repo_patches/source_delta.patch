From e8b0511c90b9625df423ef836dd54b6a1fafee2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:53:37 +0000
Subject: [PATCH 01/34] fix: keep the impulse period at one sample or more

A frequency above the sample rate gave a period of zero, and the next
block divided by it.
---
 rs/synth/src/node/signal/imp.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/signal/imp.rs b/rs/synth/src/node/signal/imp.rs
index 1cbaa09..fd0ec68 100644
--- a/rs/synth/src/node/signal/imp.rs
+++ b/rs/synth/src/node/signal/imp.rs
@@ -25,7 +25,7 @@ impl Impulse {
         }
     }
     pub fn freq(self, freq: f32) -> Self {
-        let period = (self.sr as f32 / freq) as usize;
+        let period = ((self.sr as f32 / freq) as usize).max(1);
         Self { period, ..self }
     }
     pub fn sr(self, sr: usize) -> Self {
@@ -50,7 +50,9 @@ impl<const N: usize> Node<N> for Impulse {
 
     fn send_msg(&mut self, info: Message) {
         match info {
-            Message::SetToNumber(0, value) => self.period = (self.sr as f32 / value) as usize,
+            Message::SetToNumber(0, value) => {
+                self.period = ((self.sr as f32 / value) as usize).max(1)
+            }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             _ => {}
-- 
2.43.0


From ada1b4afbe1c758c4bde049aa7ac240dbf535483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 02/34] fix: leave the output alone when delayms has no input

A chain that starts with delayms made the first block panic.
---
 rs/synth/src/node/delay/delayms.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index ed1ea93..85eef51 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -44,7 +44,9 @@ impl DelayMs {
 
 impl<const N: usize> Node<N> for DelayMs {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
-        let main_input = inputs.values().next().unwrap();
+        let Some(main_input) = inputs.values().next() else {
+            return;
+        };
         if !(1..=2).contains(&main_input.buffers().len()) {
             return;
         }
-- 
2.43.0


From 3e407101a36601e6de482ff8c1ef7e699751969a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 03/34] fix: weight the two samples of a modulated delay
 correctly

The interpolation weights were swapped, so a whole number of samples was
delayed by one sample too few and the output jumped between samples.
---
 rs/synth/src/node/delay/delayms.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 85eef51..9629fe3 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -92,8 +92,8 @@ impl<const N: usize> Node<N> for DelayMs {
                         .zip(main_input.buffers());
 
                     for ((fixed, out_buf), main_buf) in iter {
-                        out_buf[i] = fixed.get(pos_int) * pos_frac
-                            + fixed.get(pos_int + 1) * (1. - pos_frac);
+                        out_buf[i] = fixed.get(pos_int) * (1. - pos_frac)
+                            + fixed.get(pos_int + 1) * pos_frac;
                         fixed.push(main_buf[i]);
                     }
                 }
-- 
2.43.0


From bfc23ac16559b87ae929e8b1dffed9fa42640a33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 04/34] fix: keep the channels of delayms when its time is set
 to zero

Setting the time to zero dropped the delay lines, so no later setting
produced any output, and only the left channel was passed through.
---
 rs/synth/src/node/delay/delayms.rs | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 9629fe3..61c545d 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -56,7 +56,11 @@ impl<const N: usize> Node<N> for DelayMs {
                 // no modulation
                 match self.delay_n {
                     // equal to a pass node
-                    0 => output[0].copy_from_slice(&main_input.buffers()[0]),
+                    0 => {
+                        for (out_buf, main_buf) in output.iter_mut().zip(main_input.buffers()) {
+                            out_buf.copy_from_slice(main_buf);
+                        }
+                    }
                     _ => {
                         let iter = self
                             .buf
@@ -112,12 +116,8 @@ impl<const N: usize> Node<N> for DelayMs {
                 let delay_n = (value / 1000. * self.sr as f32) as usize;
                 self.delay_n = delay_n;
 
-                if delay_n == 0 {
-                    self.buf.clear();
-                } else {
-                    let chan = self.buf.len();
-                    self.buf = vec![Fixed::from(vec![0.0; delay_n]); chan];
-                };
+                let chan = self.buf.len();
+                self.buf = vec![Fixed::from(vec![0.0; delay_n.max(1)]); chan];
             }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
-- 
2.43.0


From 899e1ab14c00bf84a91e81182af54ce22172b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 05/34] fix: allow delayn to be set to zero samples

The delay line must not be empty; setting it to zero panicked.
---
 rs/synth/src/node/delay/delayn.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/delay/delayn.rs b/rs/synth/src/node/delay/delayn.rs
index f483daa..71293aa 100644
--- a/rs/synth/src/node/delay/delayn.rs
+++ b/rs/synth/src/node/delay/delayn.rs
@@ -62,7 +62,7 @@ impl<const N: usize> Node<N> for DelayN {
         match info {
             Message::SetToNumber(0, value) => {
                 self.delay_n = value as usize;
-                self.buf = Fixed::from(vec![0.0; self.delay_n]);
+                self.buf = Fixed::from(vec![0.0; self.delay_n.max(1)]);
                 // buf2 = Fixed::from(vec![0.0; delay_n]);
                 // self.buf.set_first(self.delay_n);
                 // self.buf2.set_first(delay_n);
-- 
2.43.0


From 2983fb79f37dac2f78297c7e517583765314ee63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 06/34] fix: leave the output alone when pan has no input

A chain that starts with pan made the first block panic.
---
 rs/synth/src/node/effect/pan.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/synth/src/node/effect/pan.rs b/rs/synth/src/node/effect/pan.rs
index 8bc11df..4a9573f 100644
--- a/rs/synth/src/node/effect/pan.rs
+++ b/rs/synth/src/node/effect/pan.rs
@@ -36,7 +36,7 @@ impl<const N: usize> Node<N> for Pan {
                 *left = left_gain * sample; // Left channel
                 *right = right_gain * sample; // Right channel
             }
-        } else {
+        } else if inputs.len() == 2 {
             let ref_input = &inputs[&self.input_order[1]]; // can panic if there is no id
             let main_input = &inputs[&self.input_order[0]]; // can panic if there is no id
 
-- 
2.43.0


From 59b813f035c897b0cd44501fe4b5a1ed1198558c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 07/34] fix: start the adsr attack from the current level

A new gate during the release jumped to zero and stopped short of one.
---
 rs/synth/src/node/envelope/adsr.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/envelope/adsr.rs b/rs/synth/src/node/envelope/adsr.rs
index 57120fc..b96f06e 100644
--- a/rs/synth/src/node/envelope/adsr.rs
+++ b/rs/synth/src/node/envelope/adsr.rs
@@ -96,7 +96,8 @@ impl<const N: usize> Node<N> for Adsr {
                             } else {
                                 // attack from: lasty -> 1.0
                                 *out = self.pos as f32 / attack_len as f32
-                                    * (1.0 - self.state_change_y);
+                                    * (1.0 - self.state_change_y)
+                                    + self.state_change_y;
                             }
                         } else if self.pos > attack_len && self.pos <= attack_len + decay_len {
                             // decay phase
-- 
2.43.0


From 1ea6d2b3bb4340a45c9410025d1da386c0d523a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 08/34] fix: use the second input of onepole as the rate

The filtered signal and the modulating signal were exchanged.
---
 rs/synth/src/node/filter/onepole.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/filter/onepole.rs b/rs/synth/src/node/filter/onepole.rs
index 3209f70..2759021 100644
--- a/rs/synth/src/node/filter/onepole.rs
+++ b/rs/synth/src/node/filter/onepole.rs
@@ -48,9 +48,9 @@ impl<const N: usize> Node<N> for OnePole {
                     .zip(main_input.buffers()[0].iter())
                     .zip(ref_input.buffers()[0].iter())
                 {
-                    self.b = (-2.0 * std::f32::consts::PI * main_in).exp();
+                    self.b = (-2.0 * std::f32::consts::PI * ref_in).exp();
                     self.a = 1. - self.b;
-                    let y = ref_in * self.a + self.b * self.y1;
+                    let y = main_in * self.a + self.b * self.y1;
                     *out = y;
                     self.y1 = y;
                 }
-- 
2.43.0


From 9144b3a64427e495fbc6dd62bdba260e5eb76fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 09/34] fix: feed the current sample into the resonant filters

The newest sample never entered the difference equation, so the high
pass let a constant through and the low pass attenuated it.
---
 rs/synth/src/node/filter/rhpf.rs | 6 ++----
 rs/synth/src/node/filter/rlpf.rs | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/rs/synth/src/node/filter/rhpf.rs b/rs/synth/src/node/filter/rhpf.rs
index ec56e9d..1a57787 100644
--- a/rs/synth/src/node/filter/rhpf.rs
+++ b/rs/synth/src/node/filter/rhpf.rs
@@ -4,7 +4,6 @@ use hashbrown::HashMap;
 pub struct ResonantHighPassFilter {
     cutoff: f32,
     q: f32,
-    x0: f32,
     x1: f32,
     x2: f32,
     y1: f32,
@@ -24,7 +23,6 @@ impl ResonantHighPassFilter {
         Self {
             cutoff: 20.,
             q: 1.0,
-            x0: 0.,
             x1: 0.,
             x2: 0.,
             y1: 0.,
@@ -63,7 +61,7 @@ impl<const N: usize> Node<N> for ResonantHighPassFilter {
                 let b2 = 2.0 * beta;
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
                     self.x2 = self.x1;
                     self.x1 = *x0;
@@ -88,7 +86,7 @@ impl<const N: usize> Node<N> for ResonantHighPassFilter {
 
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
                     self.x2 = self.x1;
                     self.x1 = *x0;
diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 8893e8c..4131422 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -9,7 +9,6 @@ pub struct ResonantLowPassFilter {
     sr: usize,
     cutoff: f32,
     q: f32,
-    x0: f32,
     x1: f32,
     x2: f32,
     y1: f32,
@@ -35,7 +34,6 @@ impl ResonantLowPassFilter {
             step: 0,
             cutoff: 20.,
             q: 1.0,
-            x0: 0.,
             x1: 0.,
             x2: 0.,
             y1: 0.,
@@ -108,7 +106,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                     let b2 = 2.0 * beta;
 
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
 
                     *out = y;
                     self.x2 = self.x1;
@@ -134,7 +132,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
 
                 for (out, x0) in output[0].iter_mut().zip(main_input.buffers()[0].iter()) {
                     let y =
-                        a0 * self.x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
+                        a0 * x0 + a1 * self.x1 + a2 * self.x2 - b1 * self.y1 - b2 * self.y2;
                     *out = y;
                     self.x2 = self.x1;
                     self.x1 = *x0;
-- 
2.43.0


From cf1db15a6369ed9542b7f0bdb1c82a8b2336c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 10/34] fix: weight the two samples of a modulated all-pass
 correctly

The interpolation weights were swapped.
---
 rs/synth/src/node/filter/apfmsgain.rs | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index 0443b2f..c4e9e10 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -82,10 +82,10 @@ impl<const N: usize> Node<N> for AllPassFilterGain {
                     let pos_int = pos.floor() as usize;
                     let pos_frac = pos.fract();
 
-                    let xdelay = self.bufx.get(pos_int) * pos_frac
-                        + self.bufx.get(pos_int + 1) * (1. - pos_frac);
-                    let ydelay = self.bufy.get(pos_int) * pos_frac
-                        + self.bufy.get(pos_int + 1) * (1. - pos_frac);
+                    let xdelay = self.bufx.get(pos_int) * (1. - pos_frac)
+                        + self.bufx.get(pos_int + 1) * pos_frac;
+                    let ydelay = self.bufy.get(pos_int) * (1. - pos_frac)
+                        + self.bufy.get(pos_int + 1) * pos_frac;
 
                     let yn = -self.gain * xn + xdelay + self.gain * ydelay;
 
-- 
2.43.0


From 56f466d62c207ca985950e59c3b65f9bea3e3c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:55:05 +0000
Subject: [PATCH 11/34] fix: keep the all-pass delay at one sample or more

A delay shorter than a sample panicked when the filter was built.
---
 rs/synth/src/node/filter/apfmsgain.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/synth/src/node/filter/apfmsgain.rs b/rs/synth/src/node/filter/apfmsgain.rs
index c4e9e10..bdd7620 100644
--- a/rs/synth/src/node/filter/apfmsgain.rs
+++ b/rs/synth/src/node/filter/apfmsgain.rs
@@ -34,6 +34,7 @@ impl AllPassFilterGain {
         } else {
             delay / 1000. * self.sr as f32
         } as usize;
+        let size = size.max(1);
         Self {
             bufx: ring_buffer::Fixed::from(vec![0.0; size]),
             bufy: ring_buffer::Fixed::from(vec![0.0; size]),
-- 
2.43.0


From b556ad2c99eed65c0d51da5228639cb42e3b4e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 12/34] fix: interpolate points between the neighbours of the
 current position

---
 rs/synth/src/node/signal/points.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index b2be374..e53a500 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -109,7 +109,7 @@ impl<const N: usize> Node<N> for Points {
                 let pos = self.step;
                 let samples = &self.point_list;
 
-                let index = samples.iter().position(|s| pos <= s.0).map_or(0, |p| p - 1);
+                let index = samples.iter().rposition(|s| s.0 <= pos).unwrap_or(0);
 
                 // println!("index {} pos {} samples {:?}", index, pos, samples);
                 if index < samples.len() - 1 {
@@ -132,11 +132,9 @@ impl<const N: usize> Node<N> for Points {
                 let period = bar_dur;
                 let samples = &self.point_list;
 
-                let prev = samples.iter().enumerate().find(|(_, (s, _))| pos <= *s);
-
-                let is_last = prev.is_none();
-                let (index, (prev_pos, prev_val)) =
-                    prev.unwrap_or_else(|| (samples.len() - 1, samples.last().unwrap()));
+                let index = samples.iter().rposition(|s| s.0 <= pos).unwrap_or(0);
+                let is_last = index == samples.len() - 1;
+                let (prev_pos, prev_val) = &samples[index];
 
                 let (next_pos, next_val) = samples[(index + 1) % samples.len()];
 
-- 
2.43.0


From 9c96dea13af8a2bc38f0ba533ed6fcf20cf2b33b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 13/34] fix: replace the number of bars of an existing arrange
 part

---
 rs/synth/src/node/sequencer/arrange.rs | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index 5d47e28..02e6156 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -85,12 +85,11 @@ impl<const N: usize> Node<N> for Arrange {
         match info {
             Message::SetToNumber(i, value) => {
                 self.step = 0;
-                let to_push = i as usize - self.events.len();
-
-                self.events.reserve(to_push + 1);
-                self.events
-                    .extend(std::iter::from_fn(|| Some(NumberOrRef::Number(0.0))).take(to_push));
-                self.events.push(NumberOrRef::Number(value));
+                let i = i as usize;
+                if i >= self.events.len() {
+                    self.events.resize(i + 1, NumberOrRef::Number(0.0));
+                }
+                self.events[i] = NumberOrRef::Number(value);
             }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
-- 
2.43.0


From f99f0464a18eab4a6ea2fb4e14b3bdccd79af901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 14/34] fix: let tempo changes reach arrange and the pattern
 players

---
 rs/synth/src/node/filter/rlpf.rs         | 1 +
 rs/synth/src/node/sampling/psampler.rs   | 1 +
 rs/synth/src/node/sequencer/arrange.rs   | 1 +
 rs/synth/src/node/synth/pattern_synth.rs | 4 +---
 4 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/rs/synth/src/node/filter/rlpf.rs b/rs/synth/src/node/filter/rlpf.rs
index 4131422..b3e2857 100644
--- a/rs/synth/src/node/filter/rlpf.rs
+++ b/rs/synth/src/node/filter/rlpf.rs
@@ -156,6 +156,7 @@ impl<const N: usize> Node<N> for ResonantLowPassFilter {
                 1 => self.q = value,
                 _ => {}
             },
+            Message::SetBPM(bpm) => self.bpm = bpm,
             Message::Index(i) => {
                 // println!("got index without order {}", i);
                 self.input_order.push(i)
diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index eb24ea2..f14825d 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -143,6 +143,7 @@ impl<const N: usize> Node<N> for PSampler {
                 self.samples_dict = samples_dict;
                 self.period_in_cycle = span
             }
+            Message::SetBPM(bpm) => self.cycle_dur = 60. / bpm * 4.,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/sequencer/arrange.rs b/rs/synth/src/node/sequencer/arrange.rs
index 02e6156..9770783 100644
--- a/rs/synth/src/node/sequencer/arrange.rs
+++ b/rs/synth/src/node/sequencer/arrange.rs
@@ -91,6 +91,7 @@ impl<const N: usize> Node<N> for Arrange {
                 }
                 self.events[i] = NumberOrRef::Number(value);
             }
+            Message::SetBPM(bpm) => self.bpm = bpm,
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             Message::ResetOrder => {
diff --git a/rs/synth/src/node/synth/pattern_synth.rs b/rs/synth/src/node/synth/pattern_synth.rs
index e234677..3ea89f2 100644
--- a/rs/synth/src/node/synth/pattern_synth.rs
+++ b/rs/synth/src/node/synth/pattern_synth.rs
@@ -130,9 +130,7 @@ impl<const N: usize> Node<N> for PatternSynth {
     }
     fn send_msg(&mut self, info: Message) {
         match info {
-            // Message::SetBPM(bpm) => {
-            //     self.bpm = bpm
-            // },
+            Message::SetBPM(bpm) => self.cycle_dur = 60. / bpm * 4.,
             Message::SetToSymbol(0, s) => {
                 // panic!();
                 self.events.clear();
-- 
2.43.0


From 4b3087c34f8f139a17ce8b4c097ae0e8e623171f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 15/34] fix: interpolate sample playback with the nearer frame
 weighted more

---
 rs/synth/src/node/sampling/psampler.rs | 18 +++++++++---------
 rs/synth/src/node/sampling/sampler.rs  | 17 ++++++++---------
 2 files changed, 17 insertions(+), 18 deletions(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index f14825d..aaac7ff 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -85,8 +85,8 @@ impl<const N: usize> Node<N> for PSampler {
                                     let left_portion = pos_index_float - left;
                                     let right_portion = 1. - left_portion;
 
-                                    sample.0[left as usize] * left_portion
-                                        + sample.0[right as usize] * right_portion
+                                    sample.0[left as usize] * right_portion
+                                        + sample.0[right as usize] * left_portion
                                 }
                                 _ => 0.0,
                             };
@@ -104,20 +104,20 @@ impl<const N: usize> Node<N> for PSampler {
                                 }
                                 x if x > 0.0 && x < 1.0 => {
                                     let pos_index_float =
-                                        x * (((sample.0.len() / sample.1) - 2) as f32);
+                                        x * (((sample.0.len() / sample.1) - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
                                     let left_portion = pos_index_float - left;
                                     let right_portion = 1. - left_portion;
 
-                                    output[0][i] += sample.0[left as usize] * left_portion
-                                        + sample.0[right as usize] * right_portion;
+                                    output[0][i] += sample.0[left as usize] * right_portion
+                                        + sample.0[right as usize] * left_portion;
 
                                     output[1][i] += sample.0
-                                        [left as usize + (sample.0.len() / sample.1) + 1]
-                                        * left_portion
-                                        + sample.0[right as usize + (sample.0.len() / sample.1) + 1]
-                                            * right_portion
+                                        [left as usize + (sample.0.len() / sample.1)]
+                                        * right_portion
+                                        + sample.0[right as usize + (sample.0.len() / sample.1)]
+                                            * left_portion
                                 }
                                 _ => {}
                             };
diff --git a/rs/synth/src/node/sampling/sampler.rs b/rs/synth/src/node/sampling/sampler.rs
index becf224..b569477 100644
--- a/rs/synth/src/node/sampling/sampler.rs
+++ b/rs/synth/src/node/sampling/sampler.rs
@@ -59,8 +59,8 @@ impl<const N: usize> Node<N> for Sampler {
                                         let left_portion = pos_index_float - left;
                                         let right_portion = 1. - left_portion;
 
-                                        self.sample.0[left as usize] * left_portion
-                                            + self.sample.0[right as usize] * right_portion
+                                        self.sample.0[left as usize] * right_portion
+                                            + self.sample.0[right as usize] * left_portion
                                     }
                                     _ => 0.0,
                                 };
@@ -77,19 +77,18 @@ impl<const N: usize> Node<N> for Sampler {
                                 }
                                 // same comment here about match arms as above
                                 0.0..=1.0 => {
-                                    let pos_index_float = pos * ((self.len - 2) as f32);
+                                    let pos_index_float = pos * ((self.len - 1) as f32);
                                     let left = pos_index_float.floor();
                                     let right = pos_index_float.ceil();
                                     let left_portion = pos_index_float - left;
                                     let right_portion = 1. - left_portion;
 
-                                    output[0][i] += self.sample.0[left as usize] * left_portion
-                                        + self.sample.0[right as usize] * right_portion;
+                                    output[0][i] += self.sample.0[left as usize] * right_portion
+                                        + self.sample.0[right as usize] * left_portion;
 
-                                    output[1][i] += self.sample.0[left as usize + self.len + 1]
-                                        * left_portion
-                                        + self.sample.0[right as usize + self.len + 1]
-                                            * right_portion;
+                                    output[1][i] += self.sample.0[left as usize + self.len]
+                                        * right_portion
+                                        + self.sample.0[right as usize + self.len] * left_portion;
                                 }
                                 _ => {}
                             },
-- 
2.43.0


From dfc6f5ad99d22b6b0a287baba388056a9b5167a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 16/34] fix: apply the attack before the decay in msgsynth

---
 rs/synth/src/node/synth/msgsynth.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/synth/msgsynth.rs b/rs/synth/src/node/synth/msgsynth.rs
index f351415..8a2eff2 100644
--- a/rs/synth/src/node/synth/msgsynth.rs
+++ b/rs/synth/src/node/synth/msgsynth.rs
@@ -106,14 +106,14 @@ impl<const N: usize> Node<N> for MsgSynth {
                     let pos = self.step - synth_info.0;
 
                     let amp = match pos.cmp(&attack_n) {
-                        Ordering::Greater | Ordering::Equal => {
+                        Ordering::Less | Ordering::Equal => {
                             if attack_n == 0 {
                                 0.0
                             } else {
                                 pos as f32 / (self.att * self.sr as f32)
                             }
                         }
-                        Ordering::Less => {
+                        Ordering::Greater => {
                             if decay_n == 0 {
                                 0.0
                             } else {
-- 
2.43.0


From 226f023b98f2df9e9a80f4d30b9637a78d4c9501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 17/34] fix: give the sample rate to the high-pass filter

---
 rs/main/src/util.rs | 1 +
 1 file changed, 1 insertion(+)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index f1658a4..f11e6f4 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -206,6 +206,7 @@ pub fn makenode<const N: usize>(
                     nodes::NumberOrRef::Ref(_) => 100.0,
                 })
                 .q(*qvalue)
+                .sr(sr)
                 .to_boxed_nodedata(1);
 
             let mut reflist = vec![];
-- 
2.43.0


From 93ba217d0eed593ba9a381d7611fd3e5097a6325 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 18/34] fix: use the span and the tempo for pattern synths

---
 rs/main/src/util.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/main/src/util.rs b/rs/main/src/util.rs
index f11e6f4..0f70bf3 100644
--- a/rs/main/src/util.rs
+++ b/rs/main/src/util.rs
@@ -114,7 +114,11 @@ pub fn makenode<const N: usize>(
                 .collect();
 
             (
-                PatternSynth::new(events).sr(sr).to_boxed_nodedata(1),
+                PatternSynth::new(events)
+                    .sr(sr)
+                    .period_in_cycle(*span)
+                    .cycle_dur(60. / bpm * 4.)
+                    .to_boxed_nodedata(1),
                 vec![],
             )
         }
-- 
2.43.0


From 2d3569a5725bf5e999bb419fab77b6214bfa0e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 19/34] fix: ignore messages to a position beyond the end of a
 chain

---
 rs/main/src/lib.rs | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 8562a3c..01dd1d7 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -87,14 +87,15 @@ impl<const N: usize> Engine<N> {
 
             let chain_pos = chain_pos.parse::<usize>().unwrap_or_default();
             let param_pos = param_pos.parse::<u8>().unwrap_or_default();
-            if self.index_info.contains_key(chain_name) {
+            let index = self.index_info.get(chain_name);
+            if let Some(&index) = index.and_then(|chain| chain.get(chain_pos)) {
                 match value.parse::<f32>() {
-                    // todo: check the name and pos
-                    Ok(v) => self.context.graph[self.index_info[chain_name][chain_pos]]
+                    // todo: check the pos
+                    Ok(v) => self.context.graph[index]
                         .node
                         .send_msg(Message::SetToNumber(param_pos, v)),
                     Err(_) => {
-                        self.context.graph[self.index_info[chain_name][chain_pos]]
+                        self.context.graph[index]
                             .node
                             .send_msg(Message::SetToSymbol(param_pos, value.to_string()));
                     }
-- 
2.43.0


From 59094be02ff5e738dea61fce4dd3f591d9ac5e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 20/34] fix: keep the external input available after a reset

---
 rs/main/src/lib.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 01dd1d7..491e65f 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -150,7 +150,11 @@ impl<const N: usize> Engine<N> {
         self.context.reset();
         self.ast = None;
         self.index_info.clear();
-        self.index_info_backup.clear();
+        self.index_info.insert(
+            "~input".to_string(),
+            vec![self.context.add_stereo_node(Pass {})],
+        );
+        self.index_info_backup.clone_from(&self.index_info);
         self.temp_node_index.clear();
         self.samples_dict.clear();
         self.bpm = 120.;
-- 
2.43.0


From 3b75fb4790f7246a46dfa7b5823b788248eb6096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:25:34 +0000
Subject: [PATCH 21/34] fix: follow reordered and repeated nodes when a chain
 is updated

---
 rs/main/src/lib.rs | 39 ++++++++++++++++++++++++++++++++-------
 1 file changed, 32 insertions(+), 7 deletions(-)

diff --git a/rs/main/src/lib.rs b/rs/main/src/lib.rs
index 491e65f..1b8cd77 100644
--- a/rs/main/src/lib.rs
+++ b/rs/main/src/lib.rs
@@ -215,6 +215,34 @@ impl<const N: usize> Engine<N> {
             Ok(())
         }
 
+        // for each node of the old chain, its position in the new chain if it is kept. Kept nodes
+        // appear in the same order in both chains and as many nodes as possible are kept.
+        fn kept_nodes(old: &[Component<'_>], new: &[Component<'_>]) -> Vec<Option<usize>> {
+            let mut common = vec![vec![0; new.len() + 1]; old.len() + 1];
+            for i in (0..old.len()).rev() {
+                for j in (0..new.len()).rev() {
+                    common[i][j] = if old[i] == new[j] {
+                        common[i + 1][j + 1] + 1
+                    } else {
+                        common[i + 1][j].max(common[i][j + 1])
+                    };
+                }
+            }
+            let mut kept = vec![None; old.len()];
+            let (mut i, mut j) = (0, 0);
+            while i < old.len() && j < new.len() {
+                if old[i] == new[j] {
+                    kept[i] = Some(j);
+                    (i, j) = (i + 1, j + 1);
+                } else if common[i + 1][j] >= common[i][j + 1] {
+                    i += 1;
+                } else {
+                    j += 1;
+                }
+            }
+            kept
+        }
+
         if let Some(ref old_ast) = self.ast {
             for (chain_name, new_chain) in &new_ast.get().nodes {
                 let Some(old_chain) = old_ast.get().nodes.get(chain_name) else {
@@ -234,12 +262,9 @@ impl<const N: usize> Engine<N> {
 
                 // we gotta go through every node which exists in the old chain and check if it
                 // exists in the new one.
-                for (old_idx, old_comp) in old_chain.iter().enumerate() {
-                    match new_chain
-                        .iter()
-                        .enumerate()
-                        .find(|(_, comp)| old_comp == *comp)
-                    {
+                let kept = kept_nodes(old_chain, new_chain);
+                for (old_idx, kept_idx) in kept.iter().enumerate() {
+                    match kept_idx.map(|idx| (idx, &new_chain[idx])) {
                         // If it exists in the new chain, then we have to update it
                         Some((idx, new_comp)) => {
                             // the paras can be the same
@@ -270,7 +295,7 @@ impl<const N: usize> Engine<N> {
                     new_chain
                         .iter()
                         .enumerate()
-                        .filter(|(_, comp)| !old_chain.iter().any(|old_comp| old_comp == *comp)),
+                        .filter(|(idx, _)| !kept.contains(&Some(*idx))),
                     &mut graph_diff,
                     &self.samples_dict,
                     self.sr,
-- 
2.43.0


From 6afff4188b722557337eb3b37a671b08664b8ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:07:06 +0000
Subject: [PATCH 22/34] fix: mix mono voices of psampler into both channels

A mono voice copied the left output over the right one, which dropped the
right side of every stereo voice playing at the same time.
---
 rs/synth/src/node/sampling/psampler.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/sampling/psampler.rs b/rs/synth/src/node/sampling/psampler.rs
index aaac7ff..0b0fe01 100644
--- a/rs/synth/src/node/sampling/psampler.rs
+++ b/rs/synth/src/node/sampling/psampler.rs
@@ -75,7 +75,7 @@ impl<const N: usize> Node<N> for PSampler {
                     let sample = self.samples_dict[name];
                     match sample.1 {
                         1 => {
-                            output[0][i] += match pos {
+                            let value = match pos {
                                 x if x == 0.0 => sample.0[0],
                                 x if x == 1.0 => sample.0[sample.0.len() - 1],
                                 x if x > 0.0 && x < 1.0 => {
@@ -90,7 +90,8 @@ impl<const N: usize> Node<N> for PSampler {
                                 }
                                 _ => 0.0,
                             };
-                            output[1][i] = output[0][i];
+                            output[0][i] += value;
+                            output[1][i] += value;
                         }
                         2 => {
                             match pos {
-- 
2.43.0


From a3df6d460df0a14040b6f6b69802c295acb55e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:25:00 +0000
Subject: [PATCH 23/34] fix: keep points in bars aligned after a tempo or span
 change

The sample positions were computed once when the points were set, while the
length of the loop followed later changes of tempo and span.
---
 rs/synth/src/node/signal/points.rs | 27 +++++++++++++++++++++++----
 1 file changed, 23 insertions(+), 4 deletions(-)

diff --git a/rs/synth/src/node/signal/points.rs b/rs/synth/src/node/signal/points.rs
index e53a500..b8bf322 100644
--- a/rs/synth/src/node/signal/points.rs
+++ b/rs/synth/src/node/signal/points.rs
@@ -6,6 +6,7 @@ use hashbrown::HashMap;
 #[derive(Debug, Clone)]
 pub struct Points {
     pub point_list: Vec<(usize, f32)>, // time and value
+    points: Vec<(TimeList, f32)>,
     pub span: f32,
     pub bpm: f32,
     pub sr: usize,
@@ -28,6 +29,7 @@ impl Points {
         // println!("point_list {:?}", point_list);
         Self {
             point_list: vec![],
+            points: vec![],
             span: 1.0,
             bpm: 120.,
             sr: 44100,
@@ -58,8 +60,12 @@ impl Points {
         let bpm = self.bpm;
         let sr = self.sr;
         let span = self.span;
-        let point_list = self.make_point_list(points, bpm, sr, span);
-        Self { point_list, ..self }
+        let point_list = self.make_point_list(points.clone(), bpm, sr, span);
+        Self {
+            point_list,
+            points,
+            ..self
+        }
     }
 
     fn make_point_list(
@@ -92,6 +98,14 @@ impl Points {
 
         point_list
     }
+
+    /// the positions in bars depend on the tempo and on the span
+    fn update_point_list(&mut self) {
+        if !self.points.is_empty() {
+            self.point_list =
+                self.make_point_list(self.points.clone(), self.bpm, self.sr, self.span);
+        }
+    }
 }
 
 impl<const N: usize> Node<N> for Points {
@@ -153,18 +167,23 @@ impl<const N: usize> Node<N> for Points {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetParam(0, GlicolPara::Points(time_list)) => {
-                self.point_list = self.make_point_list(time_list, self.bpm, self.sr, self.span);
+                self.points = time_list;
+                self.update_point_list();
                 self.step = 0;
             }
             Message::SetToNumber(1, num) => {
                 self.span = num;
+                self.update_point_list();
                 self.step = 0;
             }
             Message::SetToBool(2, b) => {
                 self.is_looping = b;
                 self.step = 0;
             }
-            Message::SetBPM(bpm) => self.bpm = bpm,
+            Message::SetBPM(bpm) => {
+                self.bpm = bpm;
+                self.update_point_list();
+            }
             Message::Index(i) => self.input_order.push(i),
             Message::IndexOrder(pos, index) => self.input_order.insert(pos, index),
             _ => {}
-- 
2.43.0


From e9a112d20c9e681b4d73f3b560d2302d237adbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:55 +0000
Subject: [PATCH 24/34] fix: spread the notes of seq over the bar

The parser gave the position of a note in units of a compound, while the
sequencer takes it as a fraction of the bar. Every note after the first
compound fell beyond the bar and was never played.
---
 rs/parser/src/nodes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 44d94f8..b08d78b 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -517,6 +517,7 @@ impl<'ast> Node<'ast> for Seq<'ast> {
         // to do, more than a symbol
         // should be an event that contains time and note
         let compounds = paras.into_inner();
+        let compounds_n = compounds.len();
 
         let events = compounds
             .enumerate()
@@ -534,7 +535,7 @@ impl<'ast> Node<'ast> for Seq<'ast> {
                             .next()
                             .ok_or_else(|| e_span.to_err_with_positives(positives))?;
 
-                        let time = relative_time_sub + i as f32;
+                        let time = (relative_time_sub + i as f32) / compounds_n as f32;
 
                         match_or_return_err!(e,
                             Rule::integer => {
-- 
2.43.0


From 9f197c0fa9f92068d4fc1c9a58ad442b4a1eb05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:42:55 +0000
Subject: [PATCH 25/34] fix: a point list without a factor spans one bar

The factor defaulted to -1, which put every point at the very beginning,
so the curve jumped to its last value.
---
 rs/parser/src/nodes.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index b08d78b..ac1ccc6 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -205,7 +205,7 @@ impl Node<'_> for Points {
         pairs: &mut Pairs<'_, Rule>,
         span: Span<'_>,
     ) -> Result<Self, Box<Error<Rule>>> {
-        let mut node_span = -1.0;
+        let mut node_span = 1.0;
         let mut is_looping = false;
         let points = pairs.next().ok_or_else(|| {
             span.as_end_span()
-- 
2.43.0


From 2767309977aab81925b35239e50d2c7533f6e8ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:38:18 +0000
Subject: [PATCH 26/34] fix: tell the nodes of add_node_chain about their
 inputs

---
 rs/synth/src/context.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/context.rs b/rs/synth/src/context.rs
index cfb72dd..8b80b36 100644
--- a/rs/synth/src/context.rs
+++ b/rs/synth/src/context.rs
@@ -238,7 +238,13 @@ impl<const N: usize> AudioContext<N> {
 
         let j = v
             .windows(2)
-            .map(|pair| self.graph.add_edge(pair[0], pair[1], ()))
+            .map(|pair| {
+                let ret = self.graph.add_edge(pair[0], pair[1], ());
+                self.graph[pair[1]]
+                    .node
+                    .send_msg(Message::Index(pair[0].index()));
+                ret
+            })
             .collect();
 
         (v, j)
-- 
2.43.0


From 0bd79c88628646c52bfff9fa4e874b04bdafe670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 05:59:26 +0000
Subject: [PATCH 27/34] fix: ignore expressions that cannot be compiled or
 evaluated

---
 rs/synth/src/node/dynamic/eval.rs | 32 ++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/rs/synth/src/node/dynamic/eval.rs b/rs/synth/src/node/dynamic/eval.rs
index 617a6eb..f753cd4 100644
--- a/rs/synth/src/node/dynamic/eval.rs
+++ b/rs/synth/src/node/dynamic/eval.rs
@@ -67,24 +67,28 @@ impl<const N: usize> Eval<N> {
         Self { ..self }
     }
 
+    /// code that cannot be compiled is ignored
     fn apply_code(&mut self, code: &str) {
+        let mut var = vec![];
+        let mut slabs = vec![];
+        let mut instructions = vec![];
         let lines = code.split(';');
         for line in lines {
             let mut slab = fasteval::Slab::new();
             let mut assign = line.split(":=");
             if line.contains(":=") {
-                self.var
-                    .push(assign.next().unwrap().replace([' ', '\t', '\n'], ""));
+                var.push(assign.next().unwrap().replace([' ', '\t', '\n'], ""));
             }
-            let compiled = self
-                .parser
-                .parse(assign.next().unwrap(), &mut slab.ps)
-                .unwrap()
-                .from(&slab.ps)
-                .compile(&slab.ps, &mut slab.cs);
-            self.slab.push(slab);
-            self.compiled.push(compiled);
+            let Ok(expr) = self.parser.parse(assign.next().unwrap(), &mut slab.ps) else {
+                return;
+            };
+            let compiled = expr.from(&slab.ps).compile(&slab.ps, &mut slab.cs);
+            slabs.push(slab);
+            instructions.push(compiled);
         }
+        self.var = var;
+        self.slab = slabs;
+        self.compiled = instructions;
     }
 }
 
@@ -103,11 +107,12 @@ impl<const N: usize> Node<N> for Eval<N> {
 
             for (j, ins) in self.compiled.iter().enumerate() {
                 // println!("i is {}", j);
+                let Ok(v) = ins.eval(&self.slab[j], &mut self.map) else {
+                    break;
+                };
                 if j < self.compiled.len() - 1 {
-                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap();
                     self.map.insert(self.var[j].clone(), v);
                 } else {
-                    let v = ins.eval(&self.slab[j], &mut self.map).unwrap();
                     output[0][i] = v as f32;
                 }
             }
@@ -118,9 +123,6 @@ impl<const N: usize> Node<N> for Eval<N> {
     fn send_msg(&mut self, info: Message) {
         match info {
             Message::SetToSymbol(0, code) => {
-                self.slab.clear();
-                self.var.clear();
-                self.compiled.clear();
                 self.apply_code(&code);
                 // self.code(s);
                 // self.compiled = self.parser.parse(&s, &mut self.slab.ps).unwrap().from(&self.slab.ps)
-- 
2.43.0


From 9db4c023c1e7a9bd40c010f480da758e6c22a503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 06:01:55 +0000
Subject: [PATCH 28/34] fix: pass the whole text of eval to the node

---
 rs/parser/src/nodes.rs | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index ac1ccc6..64531a1 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -1113,8 +1113,12 @@ impl<'ast> Node<'ast> for CodeBlock<'ast> {
             .ok_or_else(|| span.as_end_span().to_err_with_positives([Rule::code]))?
             .as_str();
 
+        // the content of `eval` comes without the backticks
         Ok(Self {
-            code: &s[1..s.len() - 1],
+            code: s
+                .strip_prefix('`')
+                .and_then(|s| s.strip_suffix('`'))
+                .unwrap_or(s),
         })
     }
 }
-- 
2.43.0


From b734b3744e08280914ceeded52a1a39b244a6e34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:45 +0000
Subject: [PATCH 29/34] fix: do not take a referenced note signal for the speed
 of a sequence

---
 rs/synth/src/node/sequencer/seq.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/rs/synth/src/node/sequencer/seq.rs b/rs/synth/src/node/sequencer/seq.rs
index a053f92..c4c42bd 100644
--- a/rs/synth/src/node/sequencer/seq.rs
+++ b/rs/synth/src/node/sequencer/seq.rs
@@ -67,7 +67,9 @@ impl<const N: usize> Node<N> for Sequencer {
             _ => {
                 // println!("{:?} {:?}", inputs, self.input_order);
                 let possible_speed = &inputs[&self.input_order[0]].buffers()[0];
-                let has_speed = possible_speed[0] > 0. && possible_speed[1] == 0.;
+                // the first input is a speed only when it is not one of the references
+                let has_main = self.input_order.len() > self.ref_order.len();
+                let has_speed = has_main && possible_speed[0] > 0. && possible_speed[1] == 0.;
 
                 if has_speed {
                     self.speed = possible_speed[0];
@@ -85,7 +87,7 @@ impl<const N: usize> Node<N> for Sequencer {
                                 UsizeOrRef::Usize(value) => *value as f32,
                                 UsizeOrRef::Ref(s) => {
                                     let source = &inputs
-                                        [&self.input_order[self.ref_order[s] + has_speed as usize]]; //panic?
+                                        [&self.input_order[self.ref_order[s] + has_main as usize]]; //panic?
                                     source.buffers()[0][idx]
                                 }
                             };
-- 
2.43.0


From b6f955758ad9240d032f6222378e361f6c9b272c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:45 +0000
Subject: [PATCH 30/34] fix: delay the right channel in delayn

---
 rs/synth/src/node/delay/delayn.rs | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/rs/synth/src/node/delay/delayn.rs b/rs/synth/src/node/delay/delayn.rs
index 71293aa..644e922 100644
--- a/rs/synth/src/node/delay/delayn.rs
+++ b/rs/synth/src/node/delay/delayn.rs
@@ -6,6 +6,7 @@ type Fixed = ring_buffer::Fixed<Vec<f32>>;
 #[derive(Debug, Clone)]
 pub struct DelayN {
     buf: Fixed,
+    buf2: Fixed,
     delay_n: usize,
     input_order: Vec<usize>,
 }
@@ -19,6 +20,7 @@ impl DelayN {
         };
         let buf = ring_buffer::Fixed::from(vec![0.0; init_n]);
         Self {
+            buf2: buf.clone(),
             buf,
             delay_n,
             input_order: Vec::new(),
@@ -33,8 +35,10 @@ impl<const N: usize> Node<N> for DelayN {
             if self.delay_n != 0 {
                 for i in 0..N {
                     output[0][i] = self.buf.push(main_input.buffers()[0][i]);
-                    if main_input.buffers().len() == 1 && output.len() == 2 {
-                        output[1][i] = output[0][i];
+                    if output.len() == 2 {
+                        // a mono signal is on both sides
+                        let right = main_input.buffers().get(1).unwrap_or(&main_input.buffers()[0]);
+                        output[1][i] = self.buf2.push(right[i]);
                     }
                 }
             } else {
@@ -63,7 +67,7 @@ impl<const N: usize> Node<N> for DelayN {
             Message::SetToNumber(0, value) => {
                 self.delay_n = value as usize;
                 self.buf = Fixed::from(vec![0.0; self.delay_n.max(1)]);
-                // buf2 = Fixed::from(vec![0.0; delay_n]);
+                self.buf2 = self.buf.clone();
                 // self.buf.set_first(self.delay_n);
                 // self.buf2.set_first(delay_n);
             }
-- 
2.43.0


From f5b697f0b264396d25328363091f15a64a76a0a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:45 +0000
Subject: [PATCH 31/34] fix: put a mono signal on both sides in delayms

---
 rs/synth/src/node/delay/delayms.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/rs/synth/src/node/delay/delayms.rs b/rs/synth/src/node/delay/delayms.rs
index 61c545d..2013778 100644
--- a/rs/synth/src/node/delay/delayms.rs
+++ b/rs/synth/src/node/delay/delayms.rs
@@ -42,6 +42,12 @@ impl DelayMs {
     }
 }
 
+/// a mono signal is on both sides
+fn both_sides<const N: usize>(input: &Input<N>) -> impl Iterator<Item = &Buffer<N>> {
+    let buffers = input.buffers();
+    buffers.iter().chain(buffers.iter().filter(|_| buffers.len() == 1))
+}
+
 impl<const N: usize> Node<N> for DelayMs {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         let Some(main_input) = inputs.values().next() else {
@@ -57,7 +63,7 @@ impl<const N: usize> Node<N> for DelayMs {
                 match self.delay_n {
                     // equal to a pass node
                     0 => {
-                        for (out_buf, main_buf) in output.iter_mut().zip(main_input.buffers()) {
+                        for (out_buf, main_buf) in output.iter_mut().zip(both_sides(main_input)) {
                             out_buf.copy_from_slice(main_buf);
                         }
                     }
@@ -66,7 +72,7 @@ impl<const N: usize> Node<N> for DelayMs {
                             .buf
                             .iter_mut()
                             .zip(output.iter_mut())
-                            .zip(main_input.buffers());
+                            .zip(both_sides(main_input));
 
                         for ((fixed, out_buf), main_buf) in iter {
                             for (out, main) in out_buf.iter_mut().zip(main_buf.iter()) {
@@ -93,7 +99,7 @@ impl<const N: usize> Node<N> for DelayMs {
                         .buf
                         .iter_mut()
                         .zip(output.iter_mut())
-                        .zip(main_input.buffers());
+                        .zip(both_sides(main_input));
 
                     for ((fixed, out_buf), main_buf) in iter {
                         out_buf[i] = fixed.get(pos_int) * (1. - pos_frac)
-- 
2.43.0


From 0bbd92e7d806ffea24039e2ce6fc39f1c3ccec1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:45 +0000
Subject: [PATCH 32/34] fix: list each reference of a sequence once

---
 rs/parser/src/nodes.rs | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 64531a1..541dc74 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -155,13 +155,18 @@ impl<'ast> Component<'ast> {
             })
             | Self::Get(Get { reference: r }) => vec![r],
 
-            Self::Seq(Seq { events }) => events
-                .iter()
-                .flat_map(|(_, e)| match e {
-                    UsizeOrRef::Usize(_) => None,
-                    UsizeOrRef::Ref(r) => Some(*r),
-                })
-                .collect(),
+            Self::Seq(Seq { events }) => {
+                // each reference is one input, however often it is played
+                let mut refs = vec![];
+                for (_, e) in events {
+                    if let UsizeOrRef::Ref(r) = e {
+                        if !refs.contains(r) {
+                            refs.push(*r);
+                        }
+                    }
+                }
+                refs
+            }
             Self::Arrange(Arrange { events }) => events
                 .iter()
                 .flat_map(|e| match e {
-- 
2.43.0


From 3fc68c8a75fef9ad7b56b29942c6870c3d8a7b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 09:45:45 +0000
Subject: [PATCH 33/34] fix: allow commas and bars in the factor of a point
 list

---
 rs/parser/src/nodes.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/parser/src/nodes.rs b/rs/parser/src/nodes.rs
index 541dc74..0399555 100644
--- a/rs/parser/src/nodes.rs
+++ b/rs/parser/src/nodes.rs
@@ -222,7 +222,8 @@ impl Node<'_> for Points {
                 Rule::math_expression => {
                     let mut one = "1".to_owned();
                     let mut ns = fasteval::EmptyNamespace;
-                    one.push_str(math_or_loop.as_str());
+                    // commas and bars are blanks
+                    one.push_str(&math_or_loop.as_str().replace([',', '|'], " "));
                     node_span = fasteval::ez_eval(&one, &mut ns).unwrap() as f32;
                     if pairs.next().is_some() {
                         is_looping = true;
-- 
2.43.0


From 49428ea4e126beab905b0bad32ef7ebf0442814f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:11:46 +0000
Subject: [PATCH 34/34] fix: balance with the same signal on both sides is
 heard

---
 rs/synth/src/node/effect/balance.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/rs/synth/src/node/effect/balance.rs b/rs/synth/src/node/effect/balance.rs
index 6732175..cc2d1e0 100644
--- a/rs/synth/src/node/effect/balance.rs
+++ b/rs/synth/src/node/effect/balance.rs
@@ -23,7 +23,8 @@ impl<const N: usize> Node<N> for Balance {
     fn process(&mut self, inputs: &mut HashMap<usize, Input<N>>, output: &mut [Buffer<N>]) {
         // println!("inputs {:?} self.input_order {:?}", inputs, self.input_order);
         // panic!();
-        if inputs.len() == 2 {
+        let both_same = matches!(self.input_order[..], [left, right] if left == right);
+        if inputs.len() == 2 || (inputs.len() == 1 && both_same) {
             let left = &inputs[&self.input_order[0]];
             let right = &inputs[&self.input_order[1]];
             output[0] = left.buffers()[0].clone();
-- 
2.43.0

