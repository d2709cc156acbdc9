From 3624cd01161cfd3bc0c42579b7478f592b427bd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 01/62] fix: ParallelModule::stop() could hang on a lost
 wake-up

---
 include/maec/parallel.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index cd63c04..adc0980 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -197,9 +197,14 @@ public:
 
         AudioModule<>::stop();
 
-        // Set the done value to be true
-
-        done = true;
+        {
+            // Set the done value to be true.
+            // We hold the lock here so this can't slip in between a thread
+            // checking the value and going to sleep, as that thread
+            // would then miss the notification and sleep forever.
+            std::lock_guard<std::mutex> lock(qmut);
+            done = true;
+        }
 
         // Notify all condition variables
 
-- 
2.43.0


From d725a1b8ec3218f91bd09760dd20bfbd4c7ba9f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:51 +0000
Subject: [PATCH 02/62] fix: ParallelModule resumes when its maximum queue size
 is raised

---
 include/maec/parallel.hpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index adc0980..488e87e 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -129,7 +129,17 @@ public:
      *
      * @param size New queue size
      */
-    void max_size(std::size_t size) { qsize = size; }
+    void max_size(std::size_t size) {
+
+        {
+            std::lock_guard<std::mutex> lock(qmut);
+            qsize = size;
+        }
+
+        // There may be room in the queue now, wake up the thread
+
+        cv.notify_all();
+    }
 
     /**
      * @brief Gets the current size of the queue
-- 
2.43.0


From 827e44db75cd077f2d7a9f8328759a3d06d2f5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:55 +0000
Subject: [PATCH 03/62] fix: ParallelModule stopped back modules while its
 thread was processing them

---
 include/maec/parallel.hpp | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index 488e87e..91009ab 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -233,6 +233,23 @@ public:
         }
     }
 
+    /**
+     * @brief Stops the backward modules and this module
+     *
+     * State operations are never ran in parallel with processing,
+     * so our thread must be finished before backward modules are stopped.
+     */
+    void meta_stop() override {
+
+        // Finish the thread first
+
+        ParallelModule::stop();
+
+        // Stop the backward modules and ourselves as usual
+
+        AudioModule<>::meta_stop();
+    }
+
     /**
      * @brief Custom meta process operation
      *
-- 
2.43.0


From db5c1da88b75578404b14c7faf2f7ec4e70dd57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 04/62] fix: ModuleMixUp wrote past its copy when the buffer
 was larger than one channel

---
 src/module_mixer.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index d62979b..43e56ad 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -175,10 +175,10 @@ AudioBuffer&& ModuleMixUp::get_buffer() {
 
     // Configure the temporary buffer
 
-    tbuff.set_channels(this->get_info()->channels);
-    tbuff.set_samplerate(this->get_info()->sample_rate);
+    tbuff.set_channels(this->buff.channels());
+    tbuff.set_samplerate(this->buff.get_samplerate());
 
-    tbuff.resize(this->get_info()->out_buffer);
+    tbuff.resize(this->buff.size());
 
     std::copy(this->buff.sbegin(), this->buff.send(), tbuff.sbegin());
 
-- 
2.43.0


From cbb608659a37de1a7b1242e05aacedec58428c3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:48 +0000
Subject: [PATCH 05/62] fix: ModuleMixUp had no forward module to sync info
 from

---
 src/module_mixer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index 43e56ad..a2e26c8 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -169,6 +169,10 @@ void ModuleMixUp::forward(BaseModule* mod) {
     // Add the forward module to our vector:
 
     this->out.push_back(mod);
+
+    // Keep it as our forward module as well, we sync info with it
+
+    AudioModule<>::forward(mod);
 }
 
 AudioBuffer&& ModuleMixUp::get_buffer() {
-- 
2.43.0


From 2fa9f4903488562708ace14e26375d1bdf1437b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 06/62] fix: SourceModule left its state unset when start, stop
 or finish are overridden

---
 include/maec/source_module.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/maec/source_module.hpp b/include/maec/source_module.hpp
index 819c0d7..4135a2a 100644
--- a/include/maec/source_module.hpp
+++ b/include/maec/source_module.hpp
@@ -50,7 +50,10 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_start() override { this->start(); }
+    void meta_start() override {
+        BaseModule::start();
+        this->start();
+    }
 
     /**
      * @brief Meta stop method
@@ -59,7 +62,10 @@ public:
      * we just start ourselves.
      *
      */
-    void meta_stop() override { this->stop(); }
+    void meta_stop() override {
+        BaseModule::stop();
+        this->stop();
+    }
 
     /**
      * @brief Meta info sync method
@@ -77,5 +83,8 @@ public:
      * we do NOT preform any finishes on backwards modules
      *
      */
-    void meta_finish() override { this->finish(); }
+    void meta_finish() override {
+        BaseModule::finish();
+        this->finish();
+    }
 };
-- 
2.43.0


From 12a7d4f09948543f4f2b77ced37a0c412f4515f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 07/62] fix: ModuleMixDown never reported the finishing state

---
 src/module_mixer.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/module_mixer.cpp b/src/module_mixer.cpp
index a2e26c8..335e08e 100644
--- a/src/module_mixer.cpp
+++ b/src/module_mixer.cpp
@@ -92,6 +92,10 @@ void ModuleMixDown::meta_finish() {
         mod->meta_finish();
     }
 
+    // Set our state
+
+    BaseModule::finish();
+
     // Call the user defined finish method
 
     this->finish();
-- 
2.43.0


From 8bd0aa4cb1720723dce80e89a6a2f3e7e89b6d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:57 +0000
Subject: [PATCH 08/62] fix: module count grew on every info sync of a chain

---
 include/maec/sink_module.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/maec/sink_module.hpp b/include/maec/sink_module.hpp
index 9390465..ef93f09 100644
--- a/include/maec/sink_module.hpp
+++ b/include/maec/sink_module.hpp
@@ -87,6 +87,10 @@ public:
         // Configure the AudioInfo:
 
         this->get_info()->from_chain(this->chain_instance);
+
+        // We are the first module of the chain, start counting from here:
+
+        this->chain_instance.module_num = 1;
     }
 };
 
-- 
2.43.0


From 696a5ab0aebd12834c9a1f60700e0ce7baf8934f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:58:21 +0000
Subject: [PATCH 09/62] fix: info sync of a ModuleMixUp whose outputs are not
 synced yet crashed

---
 include/maec/audio_module.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/maec/audio_module.hpp b/include/maec/audio_module.hpp
index 186f6c3..b4ed2a4 100644
--- a/include/maec/audio_module.hpp
+++ b/include/maec/audio_module.hpp
@@ -338,9 +338,13 @@ public:
 
         this->set_chain_info(this->forward()->get_chain_info());
 
-        // Increment the number of modules in the chain
+        // Increment the number of modules in the chain,
+        // the forward module may not be part of one yet
 
-        this->get_chain_info()->module_num++;
+        if (this->get_chain_info() != nullptr) {
+
+            this->get_chain_info()->module_num++;
+        }
     }
 
     /**
-- 
2.43.0


From b2072d28fa75920d4f8c83b2f5170c6395aedcc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 10/62] fix: Counter and LatencyModule counted every channel
 twice

---
 src/meta_audio.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 45cb705..72f6020 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -19,8 +19,7 @@ void Counter::process() {
 
     // Increment the number of samples encountered:
 
-    this->m_samples +=
-        static_cast<int>(this->buff.size()) * this->buff.channels();
+    this->m_samples += static_cast<int>(this->buff.size());
 }
 
 void LatencyModule::reset() {
@@ -65,8 +64,7 @@ void LatencyModule::meta_process() {
 
     // Get size of buffer:
 
-    const int samples =
-        static_cast<int>(this->buff.size() * this->buff.channels());
+    const int samples = static_cast<int>(this->buff.size());
 
     // Update chain timer:
 
@@ -85,7 +83,8 @@ void LatencyModule::meta_process() {
     // Determine the latency:
 
     this->operation_latency =
-        this->operation_time - this->timer.get_time(samples);
+        this->operation_time -
+        this->timer.get_time(samples, this->timer.get_channels());
 
     // Add to total latency:
 
-- 
2.43.0


From 3f20ed1629b04acba33b2aedb388828619881c4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 11/62] fix: LatencyModule averages counted operations from
 before a reset

---
 include/maec/meta_audio.hpp | 8 ++++++--
 src/meta_audio.cpp          | 2 ++
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index 05032fa..eff2f4c 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -228,7 +228,9 @@ public:
      * @return int Average operation time in nanoseconds
      */
     int64_t average_time() const {
-        return this->total_operation_time / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_time / this->processed();
     }
 
     /**
@@ -240,7 +242,9 @@ public:
      * @return int Average operation latency in nanoseconds
      */
     int64_t average_latency() const {
-        return this->total_operation_latency / this->processed();
+        return this->processed() == 0
+                   ? 0
+                   : this->total_operation_latency / this->processed();
     }
 
     /**
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 72f6020..115f209 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -26,6 +26,8 @@ void LatencyModule::reset() {
 
     // Clear values:
 
+    Counter::reset();
+
     this->operation_time = 0;
     this->operation_latency = 0;
     this->total_operation_latency = 0;
-- 
2.43.0


From 6947b7ec2f2ff871ad906fe4b992c57fcae0dab7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 12/62] fix: BufferModule wrote past its output when the buffer
 is larger than the chain's

---
 src/meta_audio.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 115f209..4b0360e 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -99,13 +99,9 @@ void LatencyModule::meta_process() {
 
 void BufferModule::process() {
 
-    // First, create a buffer to use:
+    // Create a buffer to use with the contents of our old buffer:
 
-    this->reserve();
-
-    // Next, fill it using the contents of our old buffer:
-
-    std::copy(this->gbuff->ibegin(), this->gbuff->iend(), this->buff.ibegin());
+    this->set_buffer(AudioBuffer(*this->gbuff));
 }
 
 void UniformBuffer::process() {
-- 
2.43.0


From 53c7abe3836ef2f149d7473500c03520d4201dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:43 +0000
Subject: [PATCH 13/62] fix: UniformBuffer filled only the first channel's
 worth of its output

---
 src/meta_audio.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 4b0360e..0d73e39 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -110,7 +110,9 @@ void UniformBuffer::process() {
 
     this->reserve();
 
-    while (this->index < this->get_info()->out_buffer) {
+    const int size = static_cast<int>(this->buff.size());
+
+    while (this->index < size) {
 
         // Determine if in buffer is out of values:
 
@@ -135,7 +137,7 @@ void UniformBuffer::process() {
         // Determine the number of samples yet to fill:
 
         int remaining =
-            std::min(this->get_info()->out_buffer - this->index,
+            std::min(size - this->index,
                      static_cast<int>(this->ibuff.size()) - this->iindex);
 
         // Fill the current buffer with this value:
-- 
2.43.0


From b429c768efd7f47e5b1e83994ba7cca3c86d4f7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 14/62] fix: remaining samples of an envelope were negative
 after its stop time

SetValue wrote before its buffer and ChainEnvelope asked for a negative size.
The count also ignored the channels the timer counts.
---
 include/maec/envelope.hpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index bf4861a..479503e 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -208,8 +208,21 @@ public:
      * @return int
      */
     int64_t remaining_samples() {
-        return (this->get_stop_time() - this->get_timer()->get_time()) /
-               this->get_timer()->get_npf();
+
+        const int64_t left =
+            this->get_stop_time() - this->get_timer()->get_time();
+
+        // Nothing remains once the stop time has passed:
+
+        if (left <= 0) {
+
+            return 0;
+        }
+
+        // Every frame holds one sample per channel:
+
+        return left / this->get_timer()->get_npf() *
+               this->get_timer()->get_channels();
     }
 };
 
-- 
2.43.0


From f40eb9de3f11431e209fc0b22b8faeaf00503b9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 15/62] fix: ChainEnvelope hung on stop times between samples
 and filled one channel

The number of samples left rounds down, so a stop time that is no multiple of
the frame length was never reached.  A far stop time overflowed an int, and
only the first channel's worth of the buffer was filled.
---
 src/envelope.cpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index be73435..0c0eb24 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -260,21 +260,34 @@ void ChainEnvelope::process() {
 
     // Iterate until buffer is full:
 
-    while (processed < this->get_info()->out_buffer) {
+    const int size = static_cast<int>(tbuff.size());
 
-        int num = this->get_info()->out_buffer - processed;
+    while (processed < size) {
+
+        int num = size - processed;
 
         // First, determine the number of samples current envelope will output:
 
         if (this->current->get_stop_time() >= 0) {
 
-            num = std::min(
-                num, static_cast<int>(this->current->remaining_samples()));
+            int64_t left = this->current->remaining_samples();
+
+            // A frame that starts before the stop time is still a part of it:
+
+            if (left == 0 && this->get_time() < this->current->get_stop_time()) {
+
+                left = this->get_timer()->get_channels();
+            }
+
+            num = static_cast<int>(std::min(static_cast<int64_t>(num), left));
         }
 
         // Set size of current envelope to num value:
 
+        // (every channel is a part of our own buffer)
+
         this->current->get_info()->out_buffer = num;
+        this->current->get_info()->channels = 1;
 
         // Grab buffer from current envelope:
 
-- 
2.43.0


From fb0a70021247cd5c97967deea453597705692b26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 16/62] fix: ChainEnvelope used a freed envelope after an
 envelope was added

Adding an envelope while the trailing one is playing frees it; moving on from
the last envelope read past the end of the collection.
---
 src/envelope.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index 0c0eb24..c731fc5 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -153,6 +153,15 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
     // Optimize?
 
     this->optimize();
+
+    // The envelope we were on may have been the removed one:
+
+    if (this->current != nullptr) {
+
+        this->current = this->envs[this->env_index];
+
+        *(this->current->get_timer()) = *(this->get_timer());
+    }
 }
 
 void ChainEnvelope::optimize() {
@@ -239,6 +248,13 @@ void ChainEnvelope::create_internal(int index) {
 
 void ChainEnvelope::next_envelope() {
 
+    // Determine if there is an envelope to move to:
+
+    if (this->env_index + 1 >= static_cast<int>(this->envs.size())) {
+
+        return;
+    }
+
     // Grab the next envelope:
 
     this->current = this->envs[++(this->env_index)];
-- 
2.43.0


From 6c57cd922a2884f8d883ff2235723f9f7af16751 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 17/62] fix: ChainEnvelope played its first envelope before its
 start time

Without any envelopes it crashed.  Both now give the start value.
---
 include/maec/envelope.hpp | 12 +++++++++++-
 src/envelope.cpp          |  7 +++++++
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index 479503e..b33c97e 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -535,7 +535,17 @@ public:
      * @brief Start method
      *
      */
-    void start() override { this->next_envelope(); }
+    void start() override {
+
+        // Without any envelopes, we return our start value:
+
+        if (this->envs.empty()) {
+
+            this->optimize();
+        }
+
+        this->next_envelope();
+    }
 
     /**
      * @brief Optimizes the internal structure of the ChainEnvelope
diff --git a/src/envelope.cpp b/src/envelope.cpp
index c731fc5..40db719 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -166,6 +166,13 @@ void ChainEnvelope::add_envelope(BaseEnvelope* env) {
 
 void ChainEnvelope::optimize() {
 
+    // Fill in the blank before the first envelope:
+
+    if (this->envs.size() == 1 && this->envs.front()->get_start_time() > 0) {
+
+        this->create_internal(0);
+    }
+
     // Iterate until all modules are optimized:
 
     int size = static_cast<int>(this->envs.size()) - 1;
-- 
2.43.0


From 2db2d45d57a9d68e2523186fb0a5cefd67567d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 18/62] fix: ExponentialRamp starting at zero stayed at zero

---
 src/envelope.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index 40db719..c36bcc9 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -102,7 +102,8 @@ void ExponentialRamp::process() {
 
         // Determine value at current time:
 
-        *iter = this->get_start_value() *
+        *iter = (this->get_start_value() != 0 ? this->get_start_value()
+                                             : SMALL) *
                 std::pow<double, double>(
                     this->val_divide(),
                     static_cast<double>(this->get_time_inc() -
-- 
2.43.0


From 5ffee45b09a17d2624d57c0d594c8abf3fa042d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:48 +0000
Subject: [PATCH 19/62] fix: ADSREnvelope could not be processed and ended its
 decay too early

Starting it never moved to the attack, and the decay stopped at an absolute
time instead of after the attack.
---
 src/envelope.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/envelope.cpp b/src/envelope.cpp
index c36bcc9..70259ce 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -366,7 +366,7 @@ void ADSREnvelope::start() {
     dec->set_start_value(1);
     dec->set_stop_value(this->sustain);
     dec->set_start_time(this->attack);
-    dec->set_stop_time(this->decay);
+    dec->set_stop_time(this->attack + this->decay);
 
     this->add_envelope(dec.get());
     this->envs.add_object(dec);
@@ -377,13 +377,15 @@ void ADSREnvelope::start() {
 
     sus->set_start_value(this->sustain);
     sus->set_stop_value(this->sustain);
-    sus->set_start_time(this->decay);
+    sus->set_start_time(this->attack + this->decay);
     sus->set_stop_time(-1);
 
     this->add_envelope(sus.get());
     this->envs.add_object(sus);
 
-    //
+    // Move to the attack:
+
+    ChainEnvelope::start();
 }
 
 void ADSREnvelope::finish() {
-- 
2.43.0


From e568a9497a8bdb1d1cf348c380d3d0e976c10d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:05 +0000
Subject: [PATCH 20/62] fix: sequential iteration over an empty buffer divided
 by zero

---
 include/maec/dsp/buffer.hpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 5862f6d..0842a59 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -756,6 +756,14 @@ public:
          *
          */
         pointer resolve_pointer(int index) const {
+
+            // Without any complete frames there is nothing to point at
+
+            if (this->buff->channel_capacity() == 0) {
+
+                return this->buff->buff.data() + index;
+            }
+
             return this->buff->buff.data() +
                    (this->get_channel(index) +
                     this->buff->channels() * this->get_sample(index));
-- 
2.43.0


From 2526acfa6e3743c0e580717cd5d92f7c96b76a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:05 +0000
Subject: [PATCH 21/62] fix: RingBuffer resolved negative indexes to the wrong
 value

---
 include/maec/dsp/buffer.hpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 0842a59..3134456 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1898,12 +1898,24 @@ protected:
      *
      * We determine the given index falls within the bounds of the buffer.
      * We utilize the modulo operator to wrap the index around to the start of
-     * the buffer.
+     * the buffer. Negative indexes wrap around to the end of the buffer.
      *
      * @param nindex Index to normalize
      * @return Normalized index
      */
-    int normalize_index(int nindex) const { return nindex % this->size(); }
+    int normalize_index(int nindex) const {
+
+        const int bsize = static_cast<int>(this->size());
+
+        if (bsize == 0) {
+
+            return 0;
+        }
+
+        const int rem = nindex % bsize;
+
+        return rem < 0 ? rem + bsize : rem;
+    }
 
 public:
     /**
-- 
2.43.0


From a078dcb23236e729e785dbb311df6f767ba83d8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:30 +0000
Subject: [PATCH 22/62] fix: lowest 16bit samples did not survive a round trip
 through mf

---
 src/audio_buffer.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/audio_buffer.cpp b/src/audio_buffer.cpp
index 6c487cd..293c635 100644
--- a/src/audio_buffer.cpp
+++ b/src/audio_buffer.cpp
@@ -76,6 +76,13 @@ unsigned char mf_uchar(double val) {
 
 double int16_mf(int16_t val) {
 
+    if (val < 0) {
+
+        // Divide by largest value:
+
+        return static_cast<double>(val) / 32768.;
+    }
+
     // Divide by largest value:
 
     return static_cast<double>(val) / 32767.;
-- 
2.43.0


From c60f7e0db202a4e2fea44d8e45cd2d4ec3a8f23d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 23/62] fix: CharIStream read beyond the end of its array

---
 src/io/mstream.cpp | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index c731d52..9cbc23f 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -16,13 +16,28 @@
 
 void CharIStream::read(char* byts, int num) {
 
+    // Determine the number of bytes we can provide:
+
+    const std::size_t left =
+        this->index < this->arr.size() ? this->arr.size() - this->index : 0;
+    const std::size_t avail = std::min(static_cast<std::size_t>(num), left);
+
     // Copy the contents over:
 
-    std::copy_n(arr.begin() + this->index, num, byts);
+    std::copy_n(arr.begin() + (this->arr.size() - left), avail, byts);
 
     // Increment index:
 
-    this->index += num;
+    this->index += avail;
+
+    // Determine if we hit the end of the array:
+
+    if (avail < static_cast<std::size_t>(num)) {
+
+        // Nothing left, just close:
+
+        this->stop();
+    }
 }
 
 void CharOStream::write(char* byts, int num) {
-- 
2.43.0


From 8c6df3cd1c1cf716c451a2c2767b478b9c939820 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 24/62] fix: CharOStream ignored a position beyond its end

---
 src/io/mstream.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/io/mstream.cpp b/src/io/mstream.cpp
index 9cbc23f..1bd593f 100644
--- a/src/io/mstream.cpp
+++ b/src/io/mstream.cpp
@@ -46,6 +46,13 @@ void CharOStream::write(char* byts, int num) {
 
     std::size_t offset = 0;
 
+    // Determine if there is a gap before the position we write to:
+
+    if (num > 0 && this->index > this->arr.size()) {
+
+        this->arr.resize(this->index);
+    }
+
     // Determine if we need to overwrite instead of push_back:
 
     if (this->index < this->arr.size()) {
-- 
2.43.0


From ba6f3310c689bcc15095ceb9a023d314f9ca11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 25/62] fix: WaveReader lost track of files with an extended
 format chunk

---
 src/io/wav.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index c8302b0..2ede818 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -233,6 +233,20 @@ void WaveReader::start() {
 
     this->read_format_chunk(form);
 
+    // Skip extra format data we do not utilize, along with any padding:
+
+    const uint32_t form_size = chead.chunk_size + (chead.chunk_size & 1);
+
+    if (form_size > WavFormat::size() - ChunkHeader::size()) {
+
+        UnknownChunk extra(form_size -
+                           (WavFormat::size() - ChunkHeader::size()));
+
+        extra.decode(*stream);
+
+        this->total_read += extra.data.size();
+    }
+
     // Set the values from the format chunk:
 
     this->set_format(form.format);
-- 
2.43.0


From 753f79db338906c63374b2b39865fe416ba379bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 26/62] fix: WaveReader did not skip the padding of odd sized
 chunks

---
 include/maec/io/wav.hpp |  8 ++++++++
 src/io/wav.cpp          | 25 +++++++++++++++++++++++++
 2 files changed, 33 insertions(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 42dc25d..d4b4c7e 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -594,6 +594,14 @@ private:
      */
     void read_format_chunk(WavFormat& chunk);
 
+    /**
+     * @brief Skips the padding of the current chunk
+     *
+     * Chunks with an odd size are followed by a byte of padding,
+     * which is not included in the chunk size.
+     */
+    void skip_padding();
+
     /// Size of buffer to output
     int buffer_size = 0;
 
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 2ede818..af2d2ef 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -289,6 +289,22 @@ void WaveReader::read_format_chunk(WavFormat& chunk) {
     this->total_read += 16;
 }
 
+void WaveReader::skip_padding() {
+
+    // Chunks are padded to an even size, unless the file ends there:
+
+    if ((this->head.chunk_size & 1) == 0 || this->done()) {
+
+        return;
+    }
+
+    char pad = 0;
+
+    this->stream->read(&pad, 1);
+
+    this->total_read += 1;
+}
+
 BufferPointer WaveReader::get_data() {
 
     // Define the BufferPointer to return:
@@ -335,6 +351,8 @@ BufferPointer WaveReader::get_data() {
 
                 this->total_read += this->head.chunk_size;
 
+                this->skip_padding();
+
                 continue;
             }
 
@@ -397,6 +415,13 @@ BufferPointer WaveReader::get_data() {
 
         this->chunk_read += to_read;
 
+        // If we finished this chunk, then move past the padding:
+
+        if (this->needs_chunk) {
+
+            this->skip_padding();
+        }
+
         // Determine which type to read in:
 
         if (this->get_bits_per_sample() == 16) {
-- 
2.43.0


From 34c939142a8a1b51e8d0c8d78cd7c41b87b59a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 27/62] fix: WaveWriter did not start its stream

---
 src/io/wav.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index af2d2ef..782daf1 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -478,7 +478,14 @@ BufferPointer WaveReader::get_data() {
 
 void WaveWriter::start() {
 
-    // First, create the wave header:
+    // First, start the stream, if this is not already done:
+
+    if (stream->get_state() == BaseMOStream::mstate::init) {
+
+        stream->start();
+    }
+
+    // Next, create the wave header:
 
     WavHeader whead;
 
-- 
2.43.0


From eebfd57fd23cfd467846d4ef7fb8f09354421d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:51 +0000
Subject: [PATCH 28/62] fix: WaveSource could not be created

---
 include/maec/io/wav.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index d4b4c7e..227a551 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -725,6 +725,7 @@ private:
  * 
  */
 class WaveSource : public SourceModule, public WaveReader {
+public:
 
     WaveSource() = default;
 
-- 
2.43.0


From 1acdcd2a44b4e30cf10d66cd241314ed40b77bdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:12 +0000
Subject: [PATCH 29/62] fix: WaveReader took any chunk before the format chunk
 for it

---
 src/io/wav.cpp | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 782daf1..3a74768 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -212,19 +212,22 @@ void WaveReader::start() {
     this->set_size(head.chunk_size + 8);
 
     // Next, read the format chunk
-    // TODO: Is it always guaranteed that format will always be second chunk?
 
     ChunkHeader chead;
 
     this->read_chunk_header(chead);
 
-    // Determine this chunk is a format chunk:
+    // Discard chunks until we find a format chunk:
 
-    if (chead.chunk_id != "fmt ") {
+    while (chead.chunk_id != "fmt " && !this->done()) {
 
-        // This chunk is not format chunk
-        // TODO: Gotta do something here
-        int dhd = 0;
+        UnknownChunk chunk(chead.chunk_size + (chead.chunk_size & 1));
+
+        chunk.decode(*stream);
+
+        this->total_read += chunk.data.size();
+
+        this->read_chunk_header(chead);
     }
 
     // Read the wave format chunk
-- 
2.43.0


From 45eee9ab813de0da9c1ed422b8caafad9cf7666b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:44 +0000
Subject: [PATCH 30/62] fix: dot_product dropped the fractions of its sum

---
 include/maec/dsp/matrix.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/matrix.hpp b/include/maec/dsp/matrix.hpp
index b28523b..1ff3b1d 100644
--- a/include/maec/dsp/matrix.hpp
+++ b/include/maec/dsp/matrix.hpp
@@ -56,7 +56,7 @@ namespace dsp::mat {
 template <typename A, typename B, typename T = typename std::iterator_traits<A>::value_type>
 T dot_product(const A& aiter, const B& biter, int num) {
 
-    int done = 0;
+    T done = 0;
 
     // Iterate over each value in the provided iterators:
 
-- 
2.43.0


From b01ad939970168bde63456be290d9640543a1482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:44 +0000
Subject: [PATCH 31/62] fix: IIRFilter applied its B coefficients to the wrong
 outputs

---
 include/maec/dsp/iir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index ac44a41..49a20a5 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -231,7 +231,7 @@ private:
             // We then multiply the output value by the B coefficient,
             // and add it to the final value:
 
-            final_value += outputs[index - i] * bcoes[i];
+            final_value += outputs[index - 1 - i] * bcoes[i];
         }
 
         // Add final value to container
-- 
2.43.0


From f9549560293ec549005acec318e1065192f51eaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:44 +0000
Subject: [PATCH 32/62] fix: IIRFilter had no room for its values after its
 size was set

---
 include/maec/dsp/iir.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 49a20a5..550ca62 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -264,8 +264,10 @@ public:
         // Resize the input and output buffers to the size of the number of
         // poles:
 
-        this->inputs.resize(this->acoes.size());
-        this->outputs.resize(this->bcoes.size());
+        // (at least one, as the current value is always stored)
+
+        this->inputs.resize(std::max<std::size_t>(this->acoes.size(), 1));
+        this->outputs.resize(std::max<std::size_t>(this->bcoes.size(), 1));
 
         // The index should be the max of the number of A and B poles:
 
@@ -284,7 +286,10 @@ public:
      *
      * @param size New number of A coefficients
      */
-    void set_asize(int size) { this->acoes.resize(size); }
+    void set_asize(int size) {
+        this->acoes.resize(size);
+        this->reserve();
+    }
 
     /**
      * @brief Gets the number of B coefficients
@@ -298,7 +303,10 @@ public:
      *
      * @param size New number of B coefficients
      */
-    void set_bsize(int size) { this->bcoes.resize(size); }
+    void set_bsize(int size) {
+        this->bcoes.resize(size);
+        this->reserve();
+    }
 
     /**
      * @brief Retrieves a start iterator for the A coefficient vector
-- 
2.43.0


From f8082e87a38bb9c768ddab98fa0e7cf002fd4e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:45:44 +0000
Subject: [PATCH 33/62] fix: SinglePole computed its coefficients from hertz
 instead of fractions

---
 include/maec/dsp/iir.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 550ca62..7eca678 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -650,7 +650,7 @@ public:
 
             // Determine the X value:
 
-            double xval = this->frac_to_x(this->get_freq_high());
+            double xval = this->frac_to_x(this->get_frac_high());
 
             // Generate A & B coefficients:
 
@@ -671,14 +671,14 @@ public:
 
             // Determine the x value:
 
-            double xval = this->frac_to_x(this->get_freq_low());
+            double xval = this->frac_to_x(this->get_frac_low());
 
             // Generate A & B coefficients:
 
             this->set_a(0, (1 + xval) / 2);
             this->set_a(1, -(1 + xval) / 2);
 
-            this->set_b(0, this->get_freq_low());
+            this->set_b(0, xval);
         }
     }
 };
-- 
2.43.0


From 852710e71768293be3a6bf2a11301c2f9d3b02fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:29 +0000
Subject: [PATCH 34/62] fix: BaseConvFilter mixed the channels and dropped the
 sample rate of its input

---
 include/maec/filter_module.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/maec/filter_module.hpp b/include/maec/filter_module.hpp
index dc7634c..41961be 100644
--- a/include/maec/filter_module.hpp
+++ b/include/maec/filter_module.hpp
@@ -223,7 +223,17 @@ public:
 
         auto ibuff = this->get_buffer();
         const std::size_t input_size = ibuff.size();
-        const std::size_t kernel_size = this->kernel->size();
+
+        // Spread the kernel so it meets samples of the same channel only:
+
+        const std::size_t channels = ibuff.channels();
+        const std::size_t kernel_size =
+            ((this->kernel->size() - 1) * channels) + 1;
+        std::vector<double> spread(kernel_size, 0.0);
+
+        for (std::size_t i = 0; i < this->kernel->size(); ++i) {
+            spread[i * channels] = *(this->kernel->ibegin() + i);
+        }
 
         // Allocate a full convolution output buffer (N + M - 1 samples)
         // zero-initialised so the overlap-add accumulation is correct:
@@ -232,7 +242,7 @@ public:
 
         // Run the convolution:
 
-        dsp::conv::input_conv(ibuff.ibegin(), input_size, this->kernel->ibegin(),
+        dsp::conv::input_conv(ibuff.ibegin(), input_size, spread.begin(),
                    kernel_size, conv_out.begin());
 
         // Overlap-add: fold the saved tail from the previous block
@@ -254,7 +264,9 @@ public:
         // Only the first input_size samples are forwarded downstream;
         // the tail will be contributed to the next block via overlap_tail.
 
-        auto nbuff = AudioBuffer(input_size, 1);
+        auto nbuff = AudioBuffer(input_size / channels,
+                                 static_cast<int>(channels),
+                                 ibuff.get_samplerate());
         std::copy(conv_out.begin(), conv_out.begin() + input_size,
                   nbuff.ibegin());
 
-- 
2.43.0


From 959a8f0a6bbb4a49e839ff22d28e0001db6ca773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:03 +0000
Subject: [PATCH 35/62] fix: oscillators advanced their phase for every channel
 of a frame

---
 src/fund_oscillator.cpp | 48 +++++++++++++++++++++++++++--------------
 1 file changed, 32 insertions(+), 16 deletions(-)

diff --git a/src/fund_oscillator.cpp b/src/fund_oscillator.cpp
index c88abdf..1eabb93 100644
--- a/src/fund_oscillator.cpp
+++ b/src/fund_oscillator.cpp
@@ -34,9 +34,11 @@ void SineOscillator::process() {
                                         this->get_phase() /
                                         this->buff.get_samplerate()));
 
-        // Increment the phase:
+        // Increment the phase once per frame:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -64,9 +66,11 @@ void SquareOscillator::process() {
                     ? 1.0
                     : -1.0;
 
-        // Increment the phase:
+        // Increment the phase once per frame:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -94,9 +98,11 @@ void SawtoothOscillator::process() {
                             &placeholder)) -
                 1.0;
 
-        // Increment the phase:
+        // Increment the phase once per frame:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -136,9 +142,11 @@ void TriangleOscillator::process() {
 
         *iter = temp;
 
-        // Increment the phase:
+        // Increment the phase once per frame:
 
-        this->inc_phase(1);
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(1);
+        }
     }
 }
 
@@ -170,9 +178,11 @@ void ModSineOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase once per frame:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -208,9 +218,11 @@ void ModSquareOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase once per frame:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -246,9 +258,11 @@ void ModSawtoothOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase once per frame:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
 
@@ -298,8 +312,10 @@ void ModTriangleOscillator::process() {
 
         auto freqv = fdata.at(iter.get_index());
 
-        // Determine the new phase:
+        // Determine the new phase once per frame:
 
-        this->inc_phase(freqv * (1 / sampler));
+        if (iter.get_channel() + 1 == this->buff.channels()) {
+            this->inc_phase(freqv * (1 / sampler));
+        }
     }
 }
-- 
2.43.0


From 23a39fbb8cc08f56984db38168105ee2bb5297fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:30 +0000
Subject: [PATCH 36/62] fix: freq_map was defined again by every file that
 includes iir.hpp

---
 include/maec/dsp/iir.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index 7eca678..c7ccb3d 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -43,7 +43,7 @@ namespace dsp::iir {
  * @param sra Sample rate in hertz
  * @return double Mapped frequency in radians from -pi to pi
  */
-double freq_map(double freq, double sra) {
+inline double freq_map(double freq, double sra) {
 
     return dsp::consts::pi_2 * (freq / sra);
 }
-- 
2.43.0


From 41f86bb3869b550e857b157096a55135d55cf833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 37/62] fix: square, sawtooth and triangle waves were wrong at
 negative frequencies and phases

---
 src/fund_oscillator.cpp | 58 +++++++++++++++--------------------------
 1 file changed, 21 insertions(+), 37 deletions(-)

diff --git a/src/fund_oscillator.cpp b/src/fund_oscillator.cpp
index 1eabb93..325b91e 100644
--- a/src/fund_oscillator.cpp
+++ b/src/fund_oscillator.cpp
@@ -16,6 +16,17 @@
 
 const double TWO_PI = 2.0 * std::numbers::pi_v<double>;
 
+/**
+ * @brief Determines how far into a cycle we are
+ *
+ * Other than with modf(), this is never negative,
+ * so cycles look the same on both sides of zero.
+ *
+ * @param cycles Number of cycles, can be negative
+ * @return double Position in the current cycle
+ */
+static double cycle_part(double cycles) { return cycles - floor(cycles); }
+
 void SineOscillator::process() {
 
     // Create a new buffer:
@@ -48,10 +59,6 @@ void SquareOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the square wave:
 
     for (auto iter = this->buff.ibegin();
@@ -60,9 +67,8 @@ void SquareOscillator::process() {
 
         // Calculate the square wave:
 
-        *iter = (modf((this->get_frequency() * this->get_phase() /
-                       this->buff.get_samplerate()),
-                      &placeholder) < 0.5)
+        *iter = (cycle_part(this->get_frequency() * this->get_phase() /
+                            this->buff.get_samplerate()) < 0.5)
                     ? 1.0
                     : -1.0;
 
@@ -80,10 +86,6 @@ void SawtoothOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the sawtooth wave:
 
     for (auto iter = this->buff.ibegin();
@@ -92,10 +94,9 @@ void SawtoothOscillator::process() {
 
         // Calculate the sawtooth wave:
 
-        *iter = (2.0 * modf(((this->get_frequency() * this->get_phase() /
-                              this->buff.get_samplerate()) +
-                             0.5),
-                            &placeholder)) -
+        *iter = (2.0 * cycle_part((this->get_frequency() * this->get_phase() /
+                                   this->buff.get_samplerate()) +
+                                  0.5)) -
                 1.0;
 
         // Increment the phase once per frame:
@@ -112,10 +113,6 @@ void TriangleOscillator::process() {
 
     this->reserve();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the triangle wave:
 
     for (auto iter = this->buff.ibegin();
@@ -124,9 +121,8 @@ void TriangleOscillator::process() {
 
         // Calculate the triangle wave:
 
-        double temp = modf((this->get_frequency() * this->get_phase() /
-                            this->buff.get_samplerate()),
-                           &placeholder);
+        double temp = cycle_part(this->get_frequency() * this->get_phase() /
+                                 this->buff.get_samplerate());
 
         if (temp < 0.25) {
             temp *= 4.0;
@@ -200,10 +196,6 @@ void ModSquareOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the square wave:
 
     for (auto iter = this->buff.ibegin();
@@ -212,7 +204,7 @@ void ModSquareOscillator::process() {
 
         // Calculate the square wave:
 
-        *iter = (modf(this->get_phase(), &placeholder) < 0.5) ? 1.0 : -1.0;
+        *iter = (cycle_part(this->get_phase()) < 0.5) ? 1.0 : -1.0;
 
         // Get frequency value:
 
@@ -240,10 +232,6 @@ void ModSawtoothOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the sawtooth wave:
 
     for (auto iter = this->buff.ibegin();
@@ -252,7 +240,7 @@ void ModSawtoothOscillator::process() {
 
         // Calculate the sawtooth wave:
 
-        *iter = (2.0 * modf((this->get_phase() + 0.5), &placeholder)) - 1.0;
+        *iter = (2.0 * cycle_part(this->get_phase() + 0.5)) - 1.0;
 
         // Get the frequency value:
 
@@ -280,10 +268,6 @@ void ModTriangleOscillator::process() {
 
     auto fdata = this->get_frequency()->get();
 
-    // Create a placeholder:
-
-    double placeholder = 0.0;
-
     // Fill the buffer with the triangle wave:
 
     for (auto iter = this->buff.ibegin();
@@ -292,7 +276,7 @@ void ModTriangleOscillator::process() {
 
         // Calculate the triangle wave:
 
-        double temp = modf(this->get_phase(), &placeholder);
+        double temp = cycle_part(this->get_phase());
 
         if (temp < 0.25) {
             temp *= 4.0;
-- 
2.43.0


From 5b8c47287b16d157b08ac0baf4a6a2de2a9bdc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:02 +0000
Subject: [PATCH 38/62] fix: wave readers and writers could not be started
 again

---
 src/io/wav.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 3a74768..db87138 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -181,6 +181,12 @@ void WaveReader::start() {
 
     stream->start();
 
+    // Forget what was read before we were started again:
+
+    this->total_read = 0;
+    this->chunk_read = 0;
+    this->needs_chunk = true;
+
     // Next, read file header:
 
     WavHeader head;
@@ -483,11 +489,15 @@ void WaveWriter::start() {
 
     // First, start the stream, if this is not already done:
 
-    if (stream->get_state() == BaseMOStream::mstate::init) {
+    if (stream->get_state() != BaseMOStream::mstate::started) {
 
         stream->start();
     }
 
+    // Nothing is written so far:
+
+    this->set_size(0);
+
     // Next, create the wave header:
 
     WavHeader whead;
-- 
2.43.0


From 9adf9bd57ea7c6b5c9c6b8f458bbb07b6cc32954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 39/62] fix: a chain envelope that was started again skipped
 its current envelope

---
 include/maec/envelope.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index b33c97e..635fda6 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -544,7 +544,12 @@ public:
             this->optimize();
         }
 
-        this->next_envelope();
+        // If we are started again, we stay on the current envelope:
+
+        if (this->current == nullptr) {
+
+            this->next_envelope();
+        }
     }
 
     /**
-- 
2.43.0


From 36365f54bf23ee771d186d733ca2c3464e885faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 40/62] fix: an ADSR envelope that was started again did not
 start over

---
 include/maec/envelope.hpp | 11 +++++++++++
 src/envelope.cpp          | 34 +++++++++++++++++++++++++++++-----
 2 files changed, 40 insertions(+), 5 deletions(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index 635fda6..109bb79 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -569,6 +569,15 @@ public:
      * This function will be called automatically when necessary.
      */
     void optimize();
+
+protected:
+    /**
+     * @brief Forgets all envelopes in this collection
+     *
+     * We keep the current time, other than that
+     * we behave like a ChainEnvelope that was just created.
+     */
+    void clear_envelopes();
 };
 
 /**
@@ -676,6 +685,8 @@ public:
      *
      * Here, we configure the internal envelope to match
      * the functionality of an ADSR envelope.
+     * The attack begins at the current time,
+     * so we can be started again for another key press.
      *
      */
     void start() override;
diff --git a/src/envelope.cpp b/src/envelope.cpp
index 70259ce..ca94e5a 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -272,6 +272,16 @@ void ChainEnvelope::next_envelope() {
     *(this->current->get_timer()) = *(this->get_timer());
 }
 
+void ChainEnvelope::clear_envelopes() {
+
+    this->envs.clear();
+    this->inter.clear();
+
+    this->env_index = -1;
+    this->optimized = 0;
+    this->current = nullptr;
+}
+
 void ChainEnvelope::process() {
 
     // Create a final buffer:
@@ -347,14 +357,28 @@ void ChainEnvelope::process() {
 
 void ADSREnvelope::start() {
 
+    // Forget the envelopes of an earlier start:
+
+    if (this->envs.num_objects() > 0) {
+
+        this->clear_envelopes();
+        this->envs.clear();
+    }
+
+    // Determine when each part ends:
+
+    const int64_t begin = this->get_time();
+    const int64_t attack_end = begin + this->attack;
+    const int64_t decay_end = attack_end + this->decay;
+
     // Add linear ramp for attack:
 
     std::unique_ptr<BaseEnvelope> att = std::make_unique<LinearRamp>();
 
     att->set_start_value(0);
     att->set_stop_value(1);
-    att->set_start_time(0);
-    att->set_stop_time(this->attack);
+    att->set_start_time(begin);
+    att->set_stop_time(attack_end);
 
     this->add_envelope(att.get());
     this->envs.add_object(att);
@@ -365,8 +389,8 @@ void ADSREnvelope::start() {
 
     dec->set_start_value(1);
     dec->set_stop_value(this->sustain);
-    dec->set_start_time(this->attack);
-    dec->set_stop_time(this->attack + this->decay);
+    dec->set_start_time(attack_end);
+    dec->set_stop_time(decay_end);
 
     this->add_envelope(dec.get());
     this->envs.add_object(dec);
@@ -377,7 +401,7 @@ void ADSREnvelope::start() {
 
     sus->set_start_value(this->sustain);
     sus->set_stop_value(this->sustain);
-    sus->set_start_time(this->attack + this->decay);
+    sus->set_start_time(decay_end);
     sus->set_stop_time(-1);
 
     this->add_envelope(sus.get());
-- 
2.43.0


From 42e0b8db18a8f58519146c6de984ef78972b0ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:12 +0000
Subject: [PATCH 41/62] fix: copied sinks used the chain info of the original

---
 include/maec/sink_module.hpp | 42 ++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/include/maec/sink_module.hpp b/include/maec/sink_module.hpp
index ef93f09..97d53ec 100644
--- a/include/maec/sink_module.hpp
+++ b/include/maec/sink_module.hpp
@@ -18,6 +18,8 @@
 
 #pragma once
 
+#include <utility>
+
 #include "audio_module.hpp"
 #include "base_module.hpp"
 
@@ -70,6 +72,46 @@ public:
         this->set_chain_info(&chain_instance);
     }
 
+    /// Destructor
+    ~SinkModule() override = default;
+
+    /// Copy constructor, the chain info of the copy is its own
+    SinkModule(const SinkModule& sink)
+        : AudioModule<void, B>(sink), chain_instance(sink.chain_instance) {
+
+        this->set_chain_info(&chain_instance);
+    }
+
+    /// Move constructor, the chain info is our own
+    SinkModule(SinkModule&& sink) noexcept
+        : AudioModule<void, B>(std::move(sink)),
+          chain_instance(sink.chain_instance) {
+
+        this->set_chain_info(&chain_instance);
+    }
+
+    /// Copy assignment operator, we keep our own chain info instance
+    SinkModule& operator=(const SinkModule& sink) {
+
+        AudioModule<void, B>::operator=(sink);
+
+        this->chain_instance = sink.chain_instance;
+        this->set_chain_info(&chain_instance);
+
+        return *this;
+    }
+
+    /// Move assignment operator, we keep our own chain info instance
+    SinkModule& operator=(SinkModule&& sink) noexcept {
+
+        AudioModule<void, B>::operator=(std::move(sink));
+
+        this->chain_instance = sink.chain_instance;
+        this->set_chain_info(&chain_instance);
+
+        return *this;
+    }
+
     // void meta_info_sync() override {
 
     //     // Preform the current info sync
-- 
2.43.0


From 38eaa391b66dc048e271e724f698a73eed81aa5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:32:44 +0000
Subject: [PATCH 42/62] fix: modules that are not part of a chain crashed when
 they were done

---
 src/base_module.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/base_module.cpp b/src/base_module.cpp
index 4418a1a..87d4bf2 100644
--- a/src/base_module.cpp
+++ b/src/base_module.cpp
@@ -69,7 +69,10 @@ void BaseModule::done() {
     // Set the state to done:
     this->state_type = State::Finished;
 
-    // Report to the chain that we are done:
+    // Report to the chain that we are done, if we are part of one:
 
-    ++(this->chain->module_finish);
+    if (this->chain != nullptr) {
+
+        ++(this->chain->module_finish);
+    }
 }
-- 
2.43.0


From 6fdfae8555e2ac21ef07f1fa2b9702a4d7613d40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:20 +0000
Subject: [PATCH 43/62] fix: ADSR envelopes had no release and were never done

---
 include/maec/envelope.hpp | 12 +++++++
 src/envelope.cpp          | 68 ++++++++++++++++++++++++++++++++++++++-
 2 files changed, 79 insertions(+), 1 deletion(-)

diff --git a/include/maec/envelope.hpp b/include/maec/envelope.hpp
index 109bb79..82e3c55 100644
--- a/include/maec/envelope.hpp
+++ b/include/maec/envelope.hpp
@@ -607,6 +607,9 @@ private:
     /// Time it takes to ramp to zero after key is released
     int64_t release = 0;
 
+    /// Time the release is over, negative if we are not releasing
+    int64_t release_end = -1;
+
     /// Collection for keeping envelopes:
     Collection<BaseEnvelope> envs;
 
@@ -698,7 +701,16 @@ public:
      * down to zero when called.
      * We determine the current value we are operating at
      * and ramp downwards.
+     * We are done once the release is over.
      *
      */
     void finish() override;
+
+    /**
+     * @brief Processes this envelope
+     *
+     * We report that we are done once the release is over.
+     *
+     */
+    void process() override;
 };
diff --git a/src/envelope.cpp b/src/envelope.cpp
index ca94e5a..1b4b85d 100644
--- a/src/envelope.cpp
+++ b/src/envelope.cpp
@@ -365,6 +365,10 @@ void ADSREnvelope::start() {
         this->envs.clear();
     }
 
+    // We are not releasing (anymore):
+
+    this->release_end = -1;
+
     // Determine when each part ends:
 
     const int64_t begin = this->get_time();
@@ -414,5 +418,67 @@ void ADSREnvelope::start() {
 
 void ADSREnvelope::finish() {
 
-    // Ca
+    const int64_t now = this->get_time();
+
+    // Determine the envelope we are at:
+
+    if (this->get_current() == nullptr) {
+
+        this->start();
+    }
+
+    while (this->get_current()->get_stop_time() >= 0 &&
+           now >= this->get_current()->get_stop_time()) {
+
+        this->next_envelope();
+    }
+
+    // Determine the value we are at:
+
+    auto* env = this->get_current();
+
+    double value = env->get_start_value();
+
+    if (env->get_stop_time() > env->get_start_time()) {
+
+        value += (env->get_stop_value() - env->get_start_value()) *
+                 (static_cast<double>(now - env->get_start_time()) /
+                  static_cast<double>(env->get_stop_time() -
+                                      env->get_start_time()));
+    }
+
+    // Replace all envelopes with a linear ramp for release:
+
+    this->clear_envelopes();
+    this->envs.clear();
+
+    this->release_end = now + this->release;
+
+    std::unique_ptr<BaseEnvelope> rel = std::make_unique<LinearRamp>();
+
+    rel->set_start_value(value);
+    rel->set_stop_value(0);
+    rel->set_start_time(now);
+    rel->set_stop_time(this->release_end);
+
+    this->add_envelope(rel.get());
+    this->envs.add_object(rel);
+
+    // Move to the release:
+
+    ChainEnvelope::start();
+}
+
+void ADSREnvelope::process() {
+
+    ChainEnvelope::process();
+
+    // Determine if the release is over:
+
+    if (this->release_end >= 0 && this->get_time() >= this->release_end) {
+
+        this->release_end = -1;
+
+        this->done();
+    }
 }
-- 
2.43.0


From 3174341ca34f06e4d9618f4ce68733cc79c2f6fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:47 +0000
Subject: [PATCH 44/62] fix: freq_response mixed up the coefficients

---
 include/maec/dsp/iir.hpp | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/include/maec/dsp/iir.hpp b/include/maec/dsp/iir.hpp
index c7ccb3d..d1e02bf 100644
--- a/include/maec/dsp/iir.hpp
+++ b/include/maec/dsp/iir.hpp
@@ -82,22 +82,24 @@ std::complex<double> freq_response(double rad, const A& acoes, const B& bcoes) {
     // We do this by substituting z with e^(i*rad), where i is the imaginary
     // unit.
 
-    // First, compute the numerator
+    // (a delay by one sample is a multiplication with e^(-i*rad))
+
+    // First, compute the numerator, made of the input values
 
     std::complex<double> num = 0;
 
-    for (std::size_t j = 0; j < bcoes.size(); ++j) {
+    for (std::size_t j = 0; j < acoes.size(); ++j) {
 
-        num += bcoes[j] * std::exp(j * rad * 1i);
+        num += acoes[j] * std::exp(-static_cast<double>(j) * rad * 1i);
     }
 
-    // Next compute the denominator
+    // Next compute the denominator, made of the previous output values
 
     std::complex<double> denom = 1;
 
-    for (std::size_t j = 0; j < acoes.size(); ++j) {
+    for (std::size_t j = 0; j < bcoes.size(); ++j) {
 
-        denom += acoes[j] * std::exp(j * rad * 1i);
+        denom -= bcoes[j] * std::exp(-static_cast<double>(j + 1) * rad * 1i);
     }
 
     // The result will be the division between the two
-- 
2.43.0


From c16a5319ae07acddc2d236b3ef20c0171605c2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 45/62] fix: const iterators did not compile with generic
 algorithms

---
 include/maec/dsp/buffer.hpp | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 3134456..535a0b3 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -100,9 +100,9 @@ public:
 
     using iterator_type = typename dsp::util::ChooseType<IsConst, const I, I>::type;
 
-    using value_type = typename dsp::util::ChooseType<IsConst, const T, T>::type;
-    using pointer = value_type*;
-    using reference = value_type&;
+    using value_type = T;
+    using pointer = typename dsp::util::ChooseType<IsConst, const T*, T*>::type;
+    using reference = typename dsp::util::ChooseType<IsConst, const T&, T&>::type;
 
     BaseMAECIterator() = default;
 
@@ -281,7 +281,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator+(const unsigned int& num) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += num;
         return tmp;
     }
@@ -295,7 +295,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator+(const int64_t& num) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += num;
         return tmp;
     }
@@ -310,7 +310,7 @@ public:
      */
     iterator_type operator+(
         const long unsigned int& num) const {  // NOLINT(google-runtime-int)
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += num;
         return tmp;
     }
@@ -325,7 +325,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator+(const I& iter) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp += iter.get_index();
         return tmp;
     }
@@ -359,7 +359,7 @@ public:
      * @return C A new iterator with the new index
      */
     iterator_type operator-(const iterator_type& iter) const {
-        iterator_type tmp = static_cast<const iterator_type&>(*this);
+        I tmp = static_cast<const I&>(*this);
         tmp -= iter.get_index();
         return tmp;
     }
@@ -455,7 +455,9 @@ public:
      */
     reference operator[](int val) const {
 
-        return *(static_cast<iterator_type*>(this)->resolve_pointer(val));
+        I tmp = static_cast<const I&>(*this);
+
+        return *(tmp.resolve_pointer(val));
     }
 
     /**
-- 
2.43.0


From 90da6ceda9c9f4699f135802c8bc86bba06031f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 46/62] fix: -> on iterators did not compile

---
 include/maec/dsp/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 535a0b3..62ea853 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -493,7 +493,7 @@ public:
      *
      * @return pointer
      */
-    pointer base() const { return &(this->point); }
+    pointer base() const { return this->point; }
 
 private:
     /// Current pointer we are on
-- 
2.43.0


From 4f7d4318c4b842e6f3f8fca284c564ac73b5801a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:11:06 +0000
Subject: [PATCH 47/62] fix: matrix_mult did not compile and took rows for
 columns

---
 include/maec/dsp/matrix.hpp | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/maec/dsp/matrix.hpp b/include/maec/dsp/matrix.hpp
index 1ff3b1d..f326a40 100644
--- a/include/maec/dsp/matrix.hpp
+++ b/include/maec/dsp/matrix.hpp
@@ -129,18 +129,24 @@ T dot_product(const A& aiter, const B& biter, int num) {
 template <typename T, typename U, typename V>
 void matrix_mult(const dsp::buff::Buffer<T>& buf1, const dsp::buff::Buffer<U>& buf2, dsp::buff::Buffer<V>& out) {
 
+    // Channels are rows and samples are columns:
+
+    const int rows = static_cast<int>(buf1.channels());
+    const int cols = static_cast<int>(buf2.channel_capacity());
+    const int inner = static_cast<int>(buf1.channel_capacity());
+
     // Configure the out buffer to match our size:
 
-    out.set_channels(buf2.channels());
-    out.set_channel_capacity(buf1.channel_capacity());
+    out.resize(rows * cols);
+    out.set_channels(rows);
 
     // Iterate over the rows:
 
-    for (int row = 0; row < buf1.channel_capacity(); ++row) {
+    for (int row = 0; row < rows; ++row) {
 
         // Iterate over the cols:
 
-        for (int col = 0; col < buf2.channels(); ++col) {
+        for (int col = 0; col < cols; ++col) {
 
             // Grab the iterators:
 
@@ -154,7 +160,7 @@ void matrix_mult(const dsp::buff::Buffer<T>& buf1, const dsp::buff::Buffer<U>& b
 
             // Compute the dot product at this position:
 
-            auto done = dot_product(rowv, colv, buf1.channel_capacity());
+            auto done = dot_product(rowv, colv, inner);
 
             // Store the dot product in the final buffer:
 
-- 
2.43.0


From 265d47d42a097dc910c43a4d546272ba883a71b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:53 +0000
Subject: [PATCH 48/62] fix: conv_fft did not compile and left no room for the
 output

---
 include/maec/dsp/conv.hpp | 48 +++++++++++++++++++++++++--------------
 1 file changed, 31 insertions(+), 17 deletions(-)

diff --git a/include/maec/dsp/conv.hpp b/include/maec/dsp/conv.hpp
index d72b35a..5c49124 100644
--- a/include/maec/dsp/conv.hpp
+++ b/include/maec/dsp/conv.hpp
@@ -26,7 +26,13 @@
 
 #pragma once
 
+#include <algorithm>
+#include <complex>
+#include <vector>
+
 #include "audio_buffer.hpp"
+#include "dsp/ft.hpp"
+#include "dsp/util.hpp"
 
 namespace dsp::conv {
 
@@ -289,39 +295,47 @@ void conv_fft(I input, int input_size, K kernel, int kernel_size, O output) {
 
     int output_size = length_conv(input_size, kernel_size);
 
-    // Next, create new vectors for input and kernel
+    // The transforms need a power of two that fits the whole output:
+
+    int size = 2;
+
+    while (size < output_size) {
+
+        size *= 2;
+    }
+
+    // Next, create new vectors for input and kernel, filled up with zeros:
     // TODO: RESEARCH OTHER METHODS! This can take a lot of memory...
     // Not to mention being super slow in theory...
 
-    std::vector<double> pinput(output_size);
-    std::vector<double> pkernel(output_size);
-
-    // Fill normal content:
+    std::vector<double> pinput(size);
+    std::vector<double> pkernel(size);
 
     std::copy_n(input, input_size, pinput.begin());
     std::copy_n(kernel, kernel_size, pkernel.begin());
 
-    // Fill in zero components:
+    // Define arrays for the transforms and the result:
 
-    std::fill_n(pinput.begin() + input_size, output_size - input_size, 0.0);
-    std::fill_n(pkernel.begin() + kernel_size, output_size - kernel_size, 0.0);
+    const int bins = dsp::ft::length_ft(size);
 
-    // For now, define array for output data:
+    std::vector<std::complex<double>> infp(bins);
+    std::vector<std::complex<double>> kernfp(bins);
+    std::vector<std::complex<double>> outf(bins);
+    std::vector<double> result(size);
 
-    std::vector<std::complex<double>> infp(output_size);
-    std::vector<std::complex<double>> kernfp(output_size);
-    std::vector<std::complex<double>> outf(output_size);
-
-    fft_r_radix2(input, input_size, infp.begin());
-    fft_r_radix2(kernel, kernel_size, kernfp.begin());
+    dsp::ft::fft_r_radix2(pinput.begin(), size, infp.begin());
+    dsp::ft::fft_r_radix2(pkernel.begin(), size, kernfp.begin());
 
     // Multiply signals:
 
-    util::multiply_signals(output_size, infp.begin(), kernfp.begin(), outf.begin());
+    dsp::util::multiply_signals(bins, infp.begin(), kernfp.begin(),
+                                outf.begin());
 
     // Send inputs back through inverse FFT:
 
-    ifft_r_radix2(outf.begin(), output_size, output);
+    dsp::ft::ifft_r_radix2(outf.begin(), bins, result.begin());
+
+    std::copy_n(result.begin(), output_size, output);
 }
 
 }  // namespace dsp::conv
-- 
2.43.0


From 75a197ed73f2e676bac3d5b242a724a072ce210b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:10 +0000
Subject: [PATCH 49/62] fix: ParallelModule broke when stopped from several
 sides, restarted while running or destroyed

Two concurrent stops joined the thread twice, a start or a destruction
while the thread was running called std::terminate(), and a thread that
stopped the module itself was let go: a start after that could leave two
threads running the back modules.
---
 include/maec/parallel.hpp | 120 +++++++++++++++++++++++++++++++-------
 1 file changed, 100 insertions(+), 20 deletions(-)

diff --git a/include/maec/parallel.hpp b/include/maec/parallel.hpp
index 91009ab..4066595 100644
--- a/include/maec/parallel.hpp
+++ b/include/maec/parallel.hpp
@@ -63,6 +63,57 @@ private:
     /// Boolean determining if threads should be done
     std::atomic<bool> done = false;
 
+    /// Mutex for starting and ending the thread
+    std::mutex tmut;
+
+    /// ID of the running thread
+    std::atomic<std::thread::id> tid;
+
+    /**
+     * @brief Asks the thread to finish
+     *
+     * We hold the lock here so this can't slip in between a thread
+     * checking the value and going to sleep, as that thread
+     * would then miss the notification and sleep forever.
+     */
+    void end_thread() {
+
+        {
+            std::lock_guard<std::mutex> lock(qmut);
+            done = true;
+        }
+
+        // Notify all condition variables
+
+        this->cv.notify_all();
+    }
+
+    /**
+     * @brief Waits for the thread to finish
+     *
+     * The thread mutex MUST be held when calling this!
+     */
+    void join_thread() {
+
+        if (this->thread.joinable()) {
+            this->thread.join();
+            this->tid = std::thread::id();
+        }
+    }
+
+    /**
+     * @brief Finishes the thread if it was not finished yet
+     *
+     * The thread mutex MUST be held when calling this!
+     */
+    void finish_thread() {
+
+        if (this->thread.joinable()) {
+            this->end_thread();
+            this->join_thread();
+        }
+    }
+
     /**
      * @brief Function ran by the thread
      *
@@ -74,6 +125,8 @@ private:
      */
     void run_thread() {
 
+        this->tid = std::this_thread::get_id();
+
         // First, we iterate until we are stopped
 
         while (true) {
@@ -109,6 +162,13 @@ private:
 public:
     ParallelModule() = default;
 
+    /**
+     * @brief Destroys the module
+     *
+     * The thread can't outlive us, so we finish it if it is still running.
+     */
+    ~ParallelModule() override { ParallelModule::stop(); }
+
     /**
      * @brief Gets the maximum size of the queue
      *
@@ -161,6 +221,9 @@ public:
      * so we don't contain any old values.
      * Please note that this means any data present in the queue
      * will be destroyed upon restart!
+     *
+     * If a thread from an earlier start is still running,
+     * then it is finished before a new one is created.
      */
     void start() override {
 
@@ -168,6 +231,12 @@ public:
 
         AudioModule<>::start();
 
+        std::lock_guard<std::mutex> tlock(tmut);
+
+        // Finish any thread that is still around
+
+        this->finish_thread();
+
         {
             // We grab the lock to ensure our next operation
             // on the queue is valid.
@@ -195,7 +264,7 @@ public:
      *
      * We also join the thread to enable a graceful shutdown,
      * so this method may block for some time.
-     * A check is in place to detatch the thread in case
+     * A check is in place to not wait in case
      * this is called from the running thread.
      *
      * Please note, this will NOT clear the underlying queue!
@@ -207,30 +276,41 @@ public:
 
         AudioModule<>::stop();
 
-        {
-            // Set the done value to be true.
-            // We hold the lock here so this can't slip in between a thread
-            // checking the value and going to sleep, as that thread
-            // would then miss the notification and sleep forever.
-            std::lock_guard<std::mutex> lock(qmut);
-            done = true;
+        if (this->tid.load() == std::this_thread::get_id()) {
+
+            // We are called from the worker thread itself, so we can't wait
+            // for it to finish. The next start or stop will do so.
+
+            this->end_thread();
+
+            return;
         }
 
-        // Notify all condition variables
+        std::lock_guard<std::mutex> tlock(tmut);
 
-        this->cv.notify_all();
+        // Ask the thread to finish and wait for completion
 
-        // Join the thread and wait for completion if possible.
-        if (this->thread.joinable()) {
-            // If stop() is being called from the worker thread itself,
-            // attempting to join would cause a resource deadlock. In that
-            // case detach the std::thread object instead to avoid throwing.
-            if (this->thread.get_id() != std::this_thread::get_id()) {
-                this->thread.join();
-            } else {
-                this->thread.detach();
-            }
+        this->end_thread();
+        this->join_thread();
+    }
+
+    /**
+     * @brief Starts the backward modules and this module
+     *
+     * State operations are never ran in parallel with processing,
+     * so a thread that is still running must be finished
+     * before backward modules are started.
+     */
+    void meta_start() override {
+
+        {
+            std::lock_guard<std::mutex> tlock(tmut);
+            this->finish_thread();
         }
+
+        // Start the backward modules and ourselves as usual
+
+        AudioModule<>::meta_start();
     }
 
     /**
-- 
2.43.0


From e54b828814621ce6d5c617f5caca144727a3d9fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 50/62] fix: ALSA devices were used after they were closed

---
 src/io/alsa_module.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index dc336c5..112fa6b 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -177,8 +177,8 @@ void DeviceInfo::update() {
 
     // Do some freeing:
 
-    snd_pcm_close(pcm);
     snd_pcm_hw_free(pcm);
+    snd_pcm_close(pcm);
 }
 
 int ALSABase::get_device_count() {
@@ -375,13 +375,13 @@ void ALSABase::alsa_stop() {
 
     snd_pcm_drain(this->pcm);
 
-    // Close the PCM device:
-
-    snd_pcm_close(this->pcm);
-
     // Free the hardware:
 
     snd_pcm_hw_free(this->pcm);
+
+    // Close the PCM device:
+
+    snd_pcm_close(this->pcm);
 }
 
 void ALSASink::process() {
-- 
2.43.0


From 3ba60def3fd2661af9bb60f89e462653c5579854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 51/62] fix: asking for an ALSA device left it open

---
 src/io/alsa_module.cpp | 16 +---------------
 1 file changed, 1 insertion(+), 15 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 112fa6b..131a267 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -73,21 +73,7 @@ void DeviceInfo::create_device(void** hint, int id) {
     free(descr);
     free(io);
 
-    // Now, get our device:
-
-    snd_pcm_t* pcm = nullptr;
-
-    int err =
-        snd_pcm_open(&pcm, this->name.c_str(), SND_PCM_STREAM_PLAYBACK, 0);
-
-    if (err != 0) {
-
-        // We have encountered an error, DO NOT CONTINUE!
-
-        this->load_fail = true;
-
-        return;
-    }
+    // Now, query our device:
 
     this->update();
 }
-- 
2.43.0


From f78a587b685777ea55ef5e229f31c9136fdd0170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 52/62] fix: get_device_by_name leaked the names it went
 through

---
 src/io/alsa_module.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 131a267..295c628 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -257,7 +257,11 @@ DeviceInfo ALSABase::get_device_by_name(const std::string& name) {
 
         // Get the name from the hint:
 
-        std::string const hname(snd_device_name_get_hint(*n, "NAME"));
+        char* const raw_name = snd_device_name_get_hint(*n, "NAME");
+
+        std::string const hname(raw_name);
+
+        free(raw_name);
 
         // Determine if the name is our target:
 
-- 
2.43.0


From e8027fc8c996cea5e7aad7b1d84a707c9c4ceb63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:39 +0000
Subject: [PATCH 53/62] fix: an ALSA device without a description could not be
 loaded

---
 src/io/alsa_module.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 295c628..c6560e7 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -38,7 +38,13 @@ void DeviceInfo::create_device(void** hint, int id) {
     // Set name and description:
 
     this->name = std::string(n);
-    this->description = std::string(descr);
+
+    // Not every device has a description:
+
+    if (descr != nullptr) {
+
+        this->description = std::string(descr);
+    }
 
     // Determine the IO type:
 
-- 
2.43.0


From b2c49d8bb07b4153a73bd5e5cecedea429484c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 54/62] fix: DeviceInfo reported the chosen values as the range
 the device supports

---
 src/io/alsa_module.cpp | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index c6560e7..7167c86 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -117,6 +117,21 @@ void DeviceInfo::update() {
     int a = snd_pcm_hw_params_set_access(pcm, params,
                                          SND_PCM_ACCESS_RW_INTERLEAVED);
 
+    // Query what the device supports, setting values narrows these ranges:
+
+    snd_pcm_hw_params_get_periods_max(params, &this->period_max, 0);
+    snd_pcm_hw_params_get_periods_min(params, &this->period_min, 0);
+    snd_pcm_hw_params_get_period_size_max(params, &this->period_size_max, 0);
+    snd_pcm_hw_params_get_period_size_min(params, &this->period_size_min, 0);
+    snd_pcm_hw_params_get_channels_max(params, &this->channels_max);
+    snd_pcm_hw_params_get_channels_min(params, &this->channels_min);
+    snd_pcm_hw_params_get_period_time_min(params, &this->period_time_min, 0);
+    snd_pcm_hw_params_get_period_time_max(params, &this->period_time_max, 0);
+    snd_pcm_hw_params_get_rate_max(params, &this->sample_rate_max, 0);
+    snd_pcm_hw_params_get_rate_min(params, &this->sample_rate_min, 0);
+    snd_pcm_hw_params_get_buffer_size_max(params, &this->buffer_size_max);
+    snd_pcm_hw_params_get_buffer_size_min(params, &this->buffer_size_min);
+
     // Determine if we should set values:
 
     if (this->channels != 0) {
@@ -143,29 +158,14 @@ void DeviceInfo::update() {
 
     int commit = snd_pcm_hw_params(pcm, params);
 
-    // Now, do some querying:
+    // Query the values that were chosen:
 
-    snd_pcm_hw_params_get_periods_max(params, &this->period_max, 0);
-    snd_pcm_hw_params_get_periods_min(params, &this->period_min, 0);
-    snd_pcm_hw_params_get_period_size_max(params, &this->period_size_max, 0);
-    snd_pcm_hw_params_get_period_size_min(params, &this->period_size_min, 0);
     snd_pcm_hw_params_get_channels(params, &this->channels);
-    snd_pcm_hw_params_get_channels_max(params, &this->channels_max);
-    snd_pcm_hw_params_get_channels_min(params, &this->channels_min);
-    snd_pcm_hw_params_get_period_time_min(params, &this->period_time_min, 0);
-    snd_pcm_hw_params_get_period_time_max(params, &this->period_time_max, 0);
-
     snd_pcm_hw_params_get_periods(params, &this->period, 0);
     snd_pcm_hw_params_get_period_size(params, &this->period_size, 0);
     snd_pcm_hw_params_get_period_time(params, &this->period_time, 0);
-
     snd_pcm_hw_params_get_rate(params, &this->sample_rate, 0);
-    snd_pcm_hw_params_get_rate_max(params, &this->sample_rate_max, 0);
-    snd_pcm_hw_params_get_rate_min(params, &this->sample_rate_min, 0);
-
     snd_pcm_hw_params_get_buffer_size(params, &this->buffer_size);
-    snd_pcm_hw_params_get_buffer_size_max(params, &this->buffer_size_max);
-    snd_pcm_hw_params_get_buffer_size_min(params, &this->buffer_size_min);
 
     // Do some freeing:
 
-- 
2.43.0


From d9f6dcf34be7275efbc59ae0dc5976c02028afc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 55/62] fix: ALSASink told ALSA the number of samples instead
 of frames

---
 src/io/alsa_module.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index 7167c86..bb636cb 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -384,7 +384,7 @@ void ALSASink::process() {
 
     // First, define our temporary vector:
 
-    std::vector<int16_t> temp(buff.size() * buff.channels());
+    std::vector<int16_t> temp(buff.size());
 
     // Next, squish it:
 
@@ -400,11 +400,11 @@ void ALSASink::process() {
         snd_pcm_prepare(this->pcm);
     }
 
-    // Finally, send the data along:
+    // Finally, send the data along, ALSA counts in frames:
 
     this->return_code =
         snd_pcm_writei(this->pcm, reinterpret_cast<int16_t*>(temp.data()),
-                       static_cast<snd_pcm_uframes_t>(temp.size()));
+                       static_cast<snd_pcm_uframes_t>(buff.channel_capacity()));
 
     if (this->return_code == -EPIPE) {
         // Underrun occurred
-- 
2.43.0


From f9bba70de759bc771d7bcf41c959a22d51c160de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 56/62] fix: ALSASink did not hand the values of its device to
 the chain

---
 src/io/alsa_module.cpp | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/src/io/alsa_module.cpp b/src/io/alsa_module.cpp
index bb636cb..0ca6d47 100644
--- a/src/io/alsa_module.cpp
+++ b/src/io/alsa_module.cpp
@@ -439,8 +439,17 @@ void ALSASink::info_sync() {
 
     auto bsize = this->get_device().period_size / 2;
 
-    this->get_info()->out_buffer = bsize;
-    this->get_info()->in_buffer = bsize;
+    // Have the chain reflect the values of the device:
+
+    auto* chain = this->get_chain_info();
+
+    chain->buffer_size = bsize;
+    chain->channels = this->get_device().channels;
+    chain->sample_rate = this->get_device().sample_rate;
+
+    // Finally, configure ourselves to match the chain:
+
+    SinkModule::info_sync();
 }
 
 #endif
-- 
2.43.0


From 354f91827b9a593ee492c6d0b65888673276e10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:50 +0000
Subject: [PATCH 57/62] fix: Buffer took two values for a pair of iterators

---
 include/maec/dsp/buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 62ea853..4ae5293 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -1653,7 +1653,7 @@ public:
      * @param end Stop iterator
      * @param channels Number of channels present
      */
-    template <class ITER1, class ITER2>
+    template <std::input_iterator ITER1, std::input_iterator ITER2>
     constexpr explicit Buffer(const ITER1& begin, const ITER2& end,
                               int channels = 1, double sra = dsp::consts::SAMPLE_RATE)
         : BaseBuffer<std::vector<T>>(begin, end, channels, sra) {}
-- 
2.43.0


From 6d7ddf816e2149e6fb41df75560265cf26a48a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 58/62] fix: a ring buffer lost its place once an index passed
 2^31, and with it every recursive filter after that many samples

---
 include/maec/dsp/buffer.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/maec/dsp/buffer.hpp b/include/maec/dsp/buffer.hpp
index 4ae5293..4509c73 100644
--- a/include/maec/dsp/buffer.hpp
+++ b/include/maec/dsp/buffer.hpp
@@ -19,6 +19,7 @@
 #include <array>
 #include <concepts>
 #include <cstddef>
+#include <cstdint>
 #include <initializer_list>
 #include <iterator>
 #include <vector>
@@ -1905,16 +1906,16 @@ protected:
      * @param nindex Index to normalize
      * @return Normalized index
      */
-    int normalize_index(int nindex) const {
+    std::int64_t normalize_index(std::int64_t nindex) const {
 
-        const int bsize = static_cast<int>(this->size());
+        const auto bsize = static_cast<std::int64_t>(this->size());
 
         if (bsize == 0) {
 
             return 0;
         }
 
-        const int rem = nindex % bsize;
+        const std::int64_t rem = nindex % bsize;
 
         return rem < 0 ? rem + bsize : rem;
     }
@@ -2064,7 +2065,7 @@ public:
      * @param i Index to retrieve
      * @return T& Value at index
      */
-    T& operator[](int nindex) {
+    T& operator[](std::int64_t nindex) {
         return this->buff[this->normalize_index(nindex)];
     }
 
-- 
2.43.0


From 71023fe7ef5687592a9dd2adc3e4fa3d85fbea79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 59/62] fix: the time of a chain timer jumped back after 2^31
 samples

---
 include/maec/chrono.hpp | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/include/maec/chrono.hpp b/include/maec/chrono.hpp
index 2e916ea..39ecc9c 100644
--- a/include/maec/chrono.hpp
+++ b/include/maec/chrono.hpp
@@ -85,7 +85,7 @@ private:
     int channels = 1;
 
     /// Current sample
-    int sample = 0;
+    int64_t sample = 0;
 
     /// Nanoseconds per frame
     int64_t nano_frame = NANO / dsp::consts::SAMPLE_RATE;
@@ -175,8 +175,7 @@ public:
      * @return int64_t Current time in nanoseconds
      */
     int64_t get_time() const {
-        return static_cast<int64_t>((this->sample / this->channels) *
-                                    this->nano_frame);
+        return (this->sample / this->channels) * this->nano_frame;
     }
 
     /**
@@ -220,7 +219,7 @@ public:
      *
      * @param samp
      */
-    void set_sample(int samp) { this->sample = samp; }
+    void set_sample(int64_t samp) { this->sample = samp; }
 
     /**
      * @brief Increments the sample
@@ -240,14 +239,14 @@ public:
      *
      * @param val Value to add to sample number
      */
-    void add_sample(int val) { this->sample += val; }
+    void add_sample(int64_t val) { this->sample += val; }
 
     /**
      * @brief Gets the current sample
      *
      * We return the current sample in this timer.
      *
-     * @return int Current sample
+     * @return int64_t Current sample
      */
-    int get_sample() const { return this->sample; }
+    int64_t get_sample() const { return this->sample; }
 };
-- 
2.43.0


From 2b6c7b451998af62fbe2b2a14ea870222bcfdfb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:03 +0000
Subject: [PATCH 60/62] fix: the samples counted by a counter overflowed after
 2^31 samples

---
 include/maec/meta_audio.hpp | 6 +++---
 src/meta_audio.cpp          | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/maec/meta_audio.hpp b/include/maec/meta_audio.hpp
index eff2f4c..105b406 100644
--- a/include/maec/meta_audio.hpp
+++ b/include/maec/meta_audio.hpp
@@ -39,7 +39,7 @@ private:
     int m_processed = 0;
 
     /// Number of samples we have encountered
-    int m_samples = 0;
+    int64_t m_samples = 0;
 
 public:
     /**
@@ -64,9 +64,9 @@ public:
     /**
      * @brief Gets the number of samples we have encountered
      *
-     * @return int Number of samples encountered
+     * @return int64_t Number of samples encountered
      */
-    int samples() const { return this->m_samples; }
+    int64_t samples() const { return this->m_samples; }
 
     /**
      * @brief Counts how many samples we encounter, and how many times we have
diff --git a/src/meta_audio.cpp b/src/meta_audio.cpp
index 0d73e39..ae02abe 100644
--- a/src/meta_audio.cpp
+++ b/src/meta_audio.cpp
@@ -19,7 +19,7 @@ void Counter::process() {
 
     // Increment the number of samples encountered:
 
-    this->m_samples += static_cast<int>(this->buff.size());
+    this->m_samples += static_cast<int64_t>(this->buff.size());
 }
 
 void LatencyModule::reset() {
-- 
2.43.0


From 6d7b6baf378eb12c564a9666fc23dc93a7b96e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 61/62] fix: WAV chunks that claim 2 GiB or more, as streamed
 files do, made readers throw or deliver nothing

---
 include/maec/io/wav.hpp |  9 +++++-
 src/io/wav.cpp          | 64 ++++++++++++++++++++++-------------------
 2 files changed, 42 insertions(+), 31 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 227a551..36328e3 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -594,6 +594,13 @@ private:
      */
     void read_format_chunk(WavFormat& chunk);
 
+    /**
+     * @brief Reads bytes without keeping them
+     *
+     * @param num Number of bytes to skip
+     */
+    void skip(uint32_t num);
+
     /**
      * @brief Skips the padding of the current chunk
      *
@@ -606,7 +613,7 @@ private:
     int buffer_size = 0;
 
     /// Number of bytes read from chunk
-    int chunk_read = 0;
+    uint32_t chunk_read = 0;
 
     /// Total number of bytes read
     uint32_t total_read = 0;
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index db87138..5af4587 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -11,6 +11,9 @@
 
 #include "io/wav.hpp"
 
+#include <algorithm>
+#include <array>
+#include <limits>
 #include <vector>
 
 #include "audio_buffer.hpp"
@@ -215,7 +218,10 @@ void WaveReader::start() {
 
     // Save the size of the file:
 
-    this->set_size(head.chunk_size + 8);
+    const uint32_t limit = std::numeric_limits<uint32_t>::max();
+
+    this->set_size(static_cast<int>(
+        head.chunk_size > limit - 8 ? limit : head.chunk_size + 8));
 
     // Next, read the format chunk
 
@@ -227,11 +233,9 @@ void WaveReader::start() {
 
     while (chead.chunk_id != "fmt " && !this->done()) {
 
-        UnknownChunk chunk(chead.chunk_size + (chead.chunk_size & 1));
-
-        chunk.decode(*stream);
+        this->skip(chead.chunk_size);
 
-        this->total_read += chunk.data.size();
+        this->skip(chead.chunk_size & 1);
 
         this->read_chunk_header(chead);
     }
@@ -248,12 +252,7 @@ void WaveReader::start() {
 
     if (form_size > WavFormat::size() - ChunkHeader::size()) {
 
-        UnknownChunk extra(form_size -
-                           (WavFormat::size() - ChunkHeader::size()));
-
-        extra.decode(*stream);
-
-        this->total_read += extra.data.size();
+        this->skip(form_size - (WavFormat::size() - ChunkHeader::size()));
     }
 
     // Set the values from the format chunk:
@@ -298,6 +297,25 @@ void WaveReader::read_format_chunk(WavFormat& chunk) {
     this->total_read += 16;
 }
 
+void WaveReader::skip(uint32_t num) {
+
+    // A chunk can be larger than what we can hold, so we read it in pieces:
+
+    std::array<char, 4096> data = {};
+
+    while (num > 0 && !this->stream->bad()) {
+
+        const auto part =
+            std::min(num, static_cast<uint32_t>(data.size()));
+
+        this->stream->read(data.data(), static_cast<int>(part));
+
+        this->total_read += part;
+
+        num -= part;
+    }
+}
+
 void WaveReader::skip_padding() {
 
     // Chunks are padded to an even size, unless the file ends there:
@@ -342,23 +360,10 @@ BufferPointer WaveReader::get_data() {
 
             if (this->head.chunk_id != "data") {
 
-                // Create UnknownChunk:
-
-                UnknownChunk chunk(this->head.chunk_size);
-
-                // Not a data chunk, read data into an unknown chunk:
-
-                this->stream->read(chunk.data.data(), this->head.chunk_size);
-
-                // Also copy over other pieces of info:
-
-                chunk.chunk_id = head.chunk_id;
-                chunk.chunk_size = head.chunk_size;
-
-                // We are past this weird chunk! Continue
+                // Not a data chunk, skip it
                 // TODO: Should we save these chunks somewhere?
 
-                this->total_read += this->head.chunk_size;
+                this->skip(this->head.chunk_size);
 
                 this->skip_padding();
 
@@ -390,19 +395,18 @@ BufferPointer WaveReader::get_data() {
             (this->buffer_size * this->get_channels() - read) *
             this->get_bytes_per_sample();
 
-        const int chunk_bytes =
-            static_cast<int>(head.chunk_size - this->chunk_read);
+        const uint32_t chunk_bytes = head.chunk_size - this->chunk_read;
 
         int to_read = 0;
 
-        if (chunk_bytes <= buffer_bytes) {
+        if (chunk_bytes <= static_cast<uint32_t>(buffer_bytes)) {
 
             // This chunk is NOT big enough to fill a buffer
             // We read all we can and then read a new chunk
 
             this->needs_chunk = true;
 
-            to_read = chunk_bytes;
+            to_read = static_cast<int>(chunk_bytes);
         }
 
         else {
-- 
2.43.0


From d65da557407ac8dd702af595e080f5a2aef8a442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:24:50 +0000
Subject: [PATCH 62/62] fix: WAV files of more than 2 GiB were left without
 their sizes

---
 include/maec/io/wav.hpp |  5 ++++-
 src/io/wav.cpp          | 12 ++++++++----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/maec/io/wav.hpp b/include/maec/io/wav.hpp
index 36328e3..1c93d1f 100644
--- a/include/maec/io/wav.hpp
+++ b/include/maec/io/wav.hpp
@@ -710,7 +710,10 @@ private:
      * 
      * @param num Number to add to total size
      */
-    void increment_size(int num) { this->set_size(this->get_size() + num); }
+    void increment_size(uint32_t num) {
+        this->set_size(static_cast<int>(
+            static_cast<uint32_t>(this->get_size()) + num));
+    }
 
     /// Stream we are reading from
     BaseMOStream* stream = nullptr;
diff --git a/src/io/wav.cpp b/src/io/wav.cpp
index 5af4587..710d7ba 100644
--- a/src/io/wav.cpp
+++ b/src/io/wav.cpp
@@ -557,7 +557,11 @@ void WaveWriter::stop() {
 
     // Determine if we need to correct wave header size:
 
-    if (this->get_size() >= 12) {
+    // Sizes above 2 GiB are still valid, so we compare them unsigned
+
+    const auto total = static_cast<uint32_t>(this->get_size());
+
+    if (total >= 12) {
 
         // Set total size of file:
 
@@ -565,7 +569,7 @@ void WaveWriter::stop() {
 
         // Encode the total size:
 
-        uint32_char(this->get_size() - 8, sout.begin());
+        uint32_char(total - 8, sout.begin());
 
         // Write to file:
 
@@ -574,7 +578,7 @@ void WaveWriter::stop() {
 
     // Determine if we need to correct data header size:
 
-    if (this->get_size() >= 36) {
+    if (total >= 36) {
 
         // Seek to final data chunk:
 
@@ -582,7 +586,7 @@ void WaveWriter::stop() {
 
         // Encode data chunk size:
 
-        uint32_char(this->get_size() - WavHeader::size() - WavFormat::size() -
+        uint32_char(total - WavHeader::size() - WavFormat::size() -
                         ChunkHeader::size(),
                     sout.begin());
 
-- 
2.43.0

