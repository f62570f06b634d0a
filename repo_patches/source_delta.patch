From 9c90d81a6f5fbfd35cff3c3a84bfcb4ff40cb0a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:14 +0000
Subject: [PATCH 01/26] fix: count the BLIFAT bursting phase down on every step

---
 .../cpu-library/impl/populations/blifat/blifat_impl.h        | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
index 0c31824..6457c6c 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_impl.h
@@ -37,9 +37,8 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.inhibitory_conductance_ *= neuron.inhibitory_conductance_decay_;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_)
+    if (neuron.bursting_phase_ && !--neuron.bursting_phase_)
     {
-        --neuron.bursting_phase_;
         neuron.potential_ += neuron.reflexive_weight_;
     }
 
@@ -59,7 +58,7 @@ inline void calculate_pre_impact_single_neuron_state_impl(
     neuron.is_being_forced_ = false;
 
     neuron.potential_ *= neuron.potential_decay_;
-    if (1 == neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
+    if (neuron.bursting_phase_ && !--neuron.bursting_phase_) neuron.potential_ += neuron.reflexive_weight_;
 
     neuron.pre_impact_potential_ = neuron.potential_;
 }
-- 
2.43.0


From 7a9e4a3c52dd876c46aeff4064acd12d4a7acf47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 02/26] fix: multi-threaded delta projection swapped the
 population UIDs of its impact messages

---
 .../backends/cpu-library/impl/projections/delta/delta_impl.h    | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
index 032a563..ff1b2a2 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/delta/delta_impl.h
@@ -165,8 +165,8 @@ void calculate_projection_multithreaded_impl(
         {
             knp::core::messaging::SynapticImpactMessage message_out{
                 {projection_uid, step_n},
-                postsynaptic_uid,
                 presynaptic_uid,
+                postsynaptic_uid,
                 training::stdp::is_forced(projection),
                 {value.second}};
             future_messages.insert(std::make_pair(value.first, message_out));
-- 
2.43.0


From bfaf05c8fa78444615a6a406ec0bb2084b139c4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:18 +0000
Subject: [PATCH 03/26] fix: multi-threaded backend dropped all but the first
 spike message of a projection

---
 .../impl/backend.cpp                          | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
index 8b75e80..4a3520f 100644
--- a/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
+++ b/knp/backends/cpu/cpu-multi-threaded-backend/impl/backend.cpp
@@ -232,16 +232,19 @@ void send_message(ProjectionWrapper &projection, core::MessageEndpoint &endpoint
     }
 }
 
-inline std::unordered_map<uint64_t, size_t> convert_spikes(const core::messaging::SpikeMessage &message)
+inline std::unordered_map<uint64_t, size_t> convert_spikes(const std::vector<core::messaging::SpikeMessage> &messages)
 {
     std::unordered_map<knp::core::Step, size_t> result;
-    for (auto neuron_idx : message.neuron_indexes_)
+    for (const auto &message : messages)
     {
-        auto iter = result.find(neuron_idx);
-        if (result.end() == iter)
-            result.insert({neuron_idx, 1});
-        else
-            ++(iter->second);
+        for (auto neuron_idx : message.neuron_indexes_)
+        {
+            auto iter = result.find(neuron_idx);
+            if (result.end() == iter)
+                result.insert({neuron_idx, 1});
+            else
+                ++(iter->second);
+        }
     }
     return result;
 }
@@ -264,7 +267,7 @@ void MultiThreadedCPUBackend::calculate_projections()
         }
 
         // Looping over synapses.
-        converted_message_buffer.emplace_back(convert_spikes(msg_buf[0]));
+        converted_message_buffer.emplace_back(convert_spikes(msg_buf));
         const auto proj_size = std::visit([](const auto &proj) { return proj.size(); }, projection.arg_);
         for (size_t synapse_index = 0; synapse_index < proj_size; synapse_index += projection_part_size_)
         {
-- 
2.43.0


From 0ed64bb81e773ebcbd653502aeb60a759b4f1ae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:59 +0000
Subject: [PATCH 04/26] fix: synapse search was stale after removing the
 synapses of a postsynaptic neuron

---
 knp/core-library/impl/projection.cpp | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/knp/core-library/impl/projection.cpp b/knp/core-library/impl/projection.cpp
index 924afe7..3414674 100644
--- a/knp/core-library/impl/projection.cpp
+++ b/knp/core-library/impl/projection.cpp
@@ -235,16 +235,11 @@ template <typename SynapseType>
 size_t knp::core::Projection<SynapseType>::remove_postsynaptic_neuron_synapses(size_t neuron_index)  //!OCLINT
 {
     const size_t starting_size = parameters_.size();
-    bool was_index_updated = is_index_updated_;
-    // Basic exception safety.
-    is_index_updated_ = false;
     auto synapses_to_remove = find_synapses(neuron_index, Search::by_postsynaptic);
     std::sort(synapses_to_remove.begin(), synapses_to_remove.end());
+    // Removal shifts the indexes of the remaining synapses.
+    is_index_updated_ = false;
     remove_by_index(parameters_, synapses_to_remove);
-    if (was_index_updated)
-        for (auto &synapse : synapses_to_remove) index_.erase(synapse);
-
-    is_index_updated_ = was_index_updated;
     return starting_size - parameters_.size();
 }
 
-- 
2.43.0


From 01ef6964d7067094631b3214af15513a7612fdf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 05/26] fix: removing a receiver from an endpoint used an
 erased iterator

---
 knp/core-library/impl/message_endpoint.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/core-library/impl/message_endpoint.cpp b/knp/core-library/impl/message_endpoint.cpp
index cf29d86..c546778 100644
--- a/knp/core-library/impl/message_endpoint.cpp
+++ b/knp/core-library/impl/message_endpoint.cpp
@@ -129,11 +129,15 @@ void MessageEndpoint::remove_receiver(const UID &receiver)
 {
     SPDLOG_DEBUG("Removing receiver {}...", std::string(receiver));
 
-    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end(); ++sub_iter)
+    for (auto sub_iter = subscriptions_.begin(); sub_iter != subscriptions_.end();)
     {
         if (get_receiver_uid(sub_iter->second) == receiver)
         {
-            subscriptions_.erase(sub_iter);
+            sub_iter = subscriptions_.erase(sub_iter);
+        }
+        else
+        {
+            ++sub_iter;
         }
     }
     update_senders();
-- 
2.43.0


From 23b1bca9cf8919b28914aebe336c8efaebaad9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:06 +0000
Subject: [PATCH 06/26] fix: an endpoint was sent messages of senders it had
 unsubscribed from

---
 knp/core-library/impl/message_endpoint.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/knp/core-library/impl/message_endpoint.cpp b/knp/core-library/impl/message_endpoint.cpp
index c546778..cd0a5a0 100644
--- a/knp/core-library/impl/message_endpoint.cpp
+++ b/knp/core-library/impl/message_endpoint.cpp
@@ -118,9 +118,9 @@ bool MessageEndpoint::unsubscribe(const UID &receiver)
     if (iter != subscriptions_.end())
     {
         subscriptions_.erase(iter);
+        update_senders();
         return true;
     }
-    update_senders();
     return false;
 }
 
@@ -256,6 +256,8 @@ void MessageEndpoint::update_senders()
         auto sub_senders = std::visit([](auto &sub_var) { return sub_var.get_senders(); }, sub.second);
         new_senders.insert(sub_senders.begin(), sub_senders.end());
     }
+    // Message bus holds a pointer to this set.
+    *senders_ = std::move(new_senders);
 }
 
 
-- 
2.43.0


From 6def6a7d59047943493cc08b421da147be7138ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 07/26] fix: compute time since the last spike of an ISI period
 in the right order

---
 .../knp/backends/cpu-library/impl/populations/training/stdp.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
index d65489e..35759f4 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/training/stdp.h
@@ -105,13 +105,13 @@ neuron_traits::ISIPeriodType update_isi(
             neuron.first_isi_spike_ = step;
             break;
         case neuron_traits::ISIPeriodType::period_started:
-            if (neuron.last_step_ - step < neuron.isi_max_)
+            if (step - neuron.last_step_ < neuron.isi_max_)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_continued;
             }
             break;
         case neuron_traits::ISIPeriodType::period_continued:
-            if (neuron.last_step_ - step >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
+            if (step - neuron.last_step_ >= neuron.isi_max_ || neuron.dopamine_value_ != 0)
             {
                 neuron.isi_status_ = neuron_traits::ISIPeriodType::period_started;
                 neuron.first_isi_spike_ = step;
-- 
2.43.0


From be057ff1c82a36c87886f615a7529c6bb2fcda13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:48 +0000
Subject: [PATCH 08/26] fix: do not wrap around in the stability change of a
 dopamine reward

---
 .../backends/cpu-library/impl/populations/altai/altai_stdp.h   | 2 +-
 .../backends/cpu-library/impl/populations/blifat/blifat_stdp.h | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
index b6ca4d1..b2d99d0 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/altai/altai_stdp.h
@@ -142,7 +142,7 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = step - neuron.first_isi_spike_ - neuron.isi_max_;
+                const double difference = static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_;
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - std::fabs(difference) / neuron.isi_max_, -1.0);
             }
diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
index 7e697a7..9080a8c 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/populations/blifat/blifat_stdp.h
@@ -145,7 +145,8 @@ inline void do_dopamine_plasticity_impl(
             {
                 // A dopamine reward when non-forced changes stability by `D max(2 - |t(TSS) - ISImax| / ISImax, -1)`.
                 const double dopamine_constant = 2.0;
-                const double difference = std::fabs(step - neuron.first_isi_spike_ - neuron.isi_max_);
+                const double difference =
+                    std::fabs(static_cast<double>(step - neuron.first_isi_spike_) - neuron.isi_max_);
                 neuron.stability_ += neuron.stability_change_parameter_ * neuron.dopamine_value_ *
                                      std::max(dopamine_constant - difference / neuron.isi_max_, -1.0);
             }
-- 
2.43.0


From 8ea726f6161b06a560fa4343452b69a06929b4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:45 +0000
Subject: [PATCH 09/26] fix: additive STDP: look up the presynaptic history of
 a spike by presynaptic neuron

---
 .../cpu-library/impl/projections/training/stdp/additive_stdp.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index b3bcc8c..f3f2e2a 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -156,7 +156,7 @@ inline void init_projection(
             append_spike_times(
                 projection, msg,
                 [&projection](uint32_t neuron_index)
-                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_postsynaptic); },
+                { return projection.find_synapses(neuron_index, ProjectionType::Search::by_presynaptic); },
                 &knp::synapse_traits::STDPAdditiveRule<Synapse>::presynaptic_spike_times_);
         }
         if (processing_type == ProcessingType::STDPOnly)
-- 
2.43.0


From 2bb36078885bbb6066557ed64faade32d07604d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:29:57 +0000
Subject: [PATCH 10/26] fix: additive STDP: a postsynaptic spike before the
 presynaptic one has a negative time difference

---
 .../cpu-library/impl/projections/training/stdp/additive_stdp.h  | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
index f3f2e2a..212b43b 100644
--- a/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
+++ b/knp/backends/cpu/cpu-library/include/knp/backends/cpu-library/impl/projections/training/stdp/additive_stdp.h
@@ -69,7 +69,7 @@ public:
             for (const auto &t_n : postsynaptic_spikes)
             {
                 // cppcheck-suppress useStlAlgorithm
-                w_j += stdp_w(static_cast<float>(t_n - t_f));
+                w_j += stdp_w(static_cast<float>(static_cast<int64_t>(t_n - t_f)));
             }
         }
         return w_j;
-- 
2.43.0


From 9af564af6541c0b74a9df201c328425f08b84c93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:31 +0000
Subject: [PATCH 11/26] fix: report the neuron and synapse types a backend
 really supports

---
 knp/meta-library/include/knp/meta/stringify.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/knp/meta-library/include/knp/meta/stringify.h b/knp/meta-library/include/knp/meta/stringify.h
index ebcc688..0948038 100644
--- a/knp/meta-library/include/knp/meta/stringify.h
+++ b/knp/meta-library/include/knp/meta/stringify.h
@@ -92,7 +92,7 @@ std::vector<size_t> get_supported_type_indexes()
     std::vector<size_t> result;
     result.reserve(boost::mp11::mp_size<SupportedTypes>::value);
 
-    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<SupportedTypes, AllTypes>>([&result](auto i)
+    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<AllTypes, SupportedTypes>>([&result](auto i)
                                                                                         { result.push_back(i); });
 
     return result;
@@ -115,7 +115,7 @@ std::vector<std::string> get_supported_type_names(const NamesType &type_names)
     std::vector<std::string> result;
     result.reserve(boost::mp11::mp_size<SupportedTypes>::value);
 
-    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<SupportedTypes, AllTypes>>(
+    boost::mp11::mp_for_each<knp::meta::mp_supported_indexes<AllTypes, SupportedTypes>>(
         [&type_names, &result](auto i) { result.push_back(std::get<i>(type_names)); });
 
     return result;
-- 
2.43.0


From b4e981a9cd4e764c588798bfb01bf168e0bdbd68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:47:21 +0000
Subject: [PATCH 12/26] fix: posting a task to the thread pool does not wait
 for the tasks posted before

---
 .../thread_pool/thread_pool_executor.h        | 23 +++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
index 95fab97..fb1e8d9 100644
--- a/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
+++ b/knp/backends/cpu/thread_pool/include/knp/backends/thread_pool/thread_pool_executor.h
@@ -48,7 +48,20 @@ public:
      * @note Lifetime of thread pool context should be at least as long as lifetime of this class object.
      */
     explicit ThreadPoolExecutor(ThreadPoolContext &context)
-        : context_(context), task_count_(std::make_shared<size_t>(0))
+        : context_(context), task_count_(std::make_shared<size_t>(0)), is_copy_(false)
+    {
+    }
+
+    /**
+     * @brief Copy pool executor.
+     * 
+     * @param other executor to copy.
+     * 
+     * @note A copy shares its tasks with the original executor and does not wait for them when it is destroyed. The
+     * `boost::asio::post` function makes and destroys such copies.
+     */
+    ThreadPoolExecutor(const ThreadPoolExecutor &other)
+        : context_(other.context_), task_count_(other.task_count_), is_copy_(true)
     {
     }
 
@@ -93,8 +106,13 @@ public:
 
     /**
      * @brief Blocking destructor that waits for all tasks to be completed.
+     * 
+     * @note Destructor of a copy does not wait.
      */
-    ~ThreadPoolExecutor() { join(); }
+    ~ThreadPoolExecutor()
+    {
+        if (!is_copy_) join();
+    }
 
 private:
     template <class Func>
@@ -148,6 +166,7 @@ private:
 
     ThreadPoolContext &context_;
     std::shared_ptr<size_t> task_count_;
+    const bool is_copy_;
 };
 
 }  // namespace knp::backends::cpu_executors
-- 
2.43.0


From 78cb82ee77085ac88aa5b1f3ee4b564b62004c4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 13/26] fix: aligned connections address only existing neurons
 when the sizes are not multiples of each other

---
 .../include/knp/framework/projection/synapse_generators.h  | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/projection/synapse_generators.h b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
index 9333512..beca155 100644
--- a/knp/base-framework/include/knp/framework/projection/synapse_generators.h
+++ b/knp/base-framework/include/knp/framework/projection/synapse_generators.h
@@ -100,20 +100,17 @@ template <typename SynapseType>
             syn_gen](size_t index) -> std::optional<typename knp::core::Projection<SynapseType>::Synapse>
     {
         size_t from_index = 0;
-        size_t pack_size = 0;
         size_t to_index = 0;
 
         if (presynaptic_pop_size >= postsynaptic_pop_size)
         {
             from_index = index;
-            pack_size = presynaptic_pop_size / postsynaptic_pop_size;
-            to_index = index / pack_size;
+            to_index = index * postsynaptic_pop_size / presynaptic_pop_size;
         }
         else
         {
             to_index = index;
-            pack_size = postsynaptic_pop_size / presynaptic_pop_size;
-            from_index = index / pack_size;
+            from_index = index * presynaptic_pop_size / postsynaptic_pop_size;
         }
         return std::make_tuple(syn_gen(from_index, to_index), from_index, to_index);
     };
-- 
2.43.0


From d79bc58e1565be0491a296e162e2eeb1ffcc85bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:28 +0000
Subject: [PATCH 14/26] fix: channels which share a hash bucket get only their
 own peers

---
 knp/base-framework/impl/model_loader.cpp | 34 +++++++-----------------
 1 file changed, 10 insertions(+), 24 deletions(-)

diff --git a/knp/base-framework/impl/model_loader.cpp b/knp/base-framework/impl/model_loader.cpp
index 2770968..75ea528 100644
--- a/knp/base-framework/impl/model_loader.cpp
+++ b/knp/base-framework/impl/model_loader.cpp
@@ -34,31 +34,17 @@ void ModelLoader::init_channels(
     knp::framework::Model &model, const std::unordered_multimap<core::UID, core::UID, core::uid_hash> &channels,
     GenType channel_gen)
 {
-    for (size_t i = 0; i < channels.bucket_count(); ++i)
+    // Different channels can share a bucket of the container, so peers are grouped by the channel UID.
+    std::unordered_map<core::UID, std::vector<core::UID>, core::uid_hash> channel_peers;
+
+    for (const auto &[channel_uid, peer_uid] : channels)
+    {
+        SPDLOG_TRACE("Inserting channel {} peer UID = {}...", std::string(channel_uid), std::string(peer_uid));
+        channel_peers[channel_uid].push_back(peer_uid);
+    }
+
+    for (const auto &[channel_uid, p_uids] : channel_peers)
     {
-        auto bucket_iter = channels.begin(i);
-        if (channels.end(i) == bucket_iter) continue;
-        auto channel_uid = bucket_iter->first;
-
-        std::vector<core::UID> p_uids;
-        p_uids.reserve(channels.bucket_size(i));
-
-        std::transform(
-            bucket_iter, channels.end(i), std::back_inserter(p_uids),
-#ifdef __clang__
-#    pragma clang diagnostic push
-#    pragma clang diagnostic ignored "-Wunused-lambda-capture"
-#endif
-            [&channel_uid](const auto &bucket)
-            {
-                SPDLOG_TRACE(
-                    "Inserting channel {} peer bucket UID = {}...", std::string(channel_uid),
-                    std::string(bucket.second));
-                return bucket.second;
-            });
-#ifdef __clang__
-#    pragma clang diagnostic pop
-#endif
         (this->*channel_gen)(model, channel_uid, p_uids);
     }
 }
-- 
2.43.0


From 268d9532dc38d969af2e3cde5847169736eb8fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:44 +0000
Subject: [PATCH 15/26] fix: reading a range of steps from an output channel
 does not reserve memory for the whole range

---
 knp/base-framework/impl/output_channel.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/output_channel.cpp b/knp/base-framework/impl/output_channel.cpp
index 056f217..aa35006 100644
--- a/knp/base-framework/impl/output_channel.cpp
+++ b/knp/base-framework/impl/output_channel.cpp
@@ -56,11 +56,11 @@ std::vector<core::messaging::SpikeMessage> OutputChannel::read_some_from_buffer(
 {
     std::vector<core::messaging::SpikeMessage> result;
 
-    result.reserve(starting_step + final_step + 1);
     // Here we assume that buffer is sorted.
     auto begin_iter = std::lower_bound(message_buffer_.begin(), message_buffer_.end(), starting_step, comp_lower);
     auto end_iter = std::upper_bound(message_buffer_.begin(), message_buffer_.end(), final_step, comp_upper);
 
+    result.reserve(std::distance(begin_iter, end_iter));
     std::move(begin_iter, end_iter, std::back_inserter(result));
     message_buffer_.erase(begin_iter, end_iter);
     return result;
-- 
2.43.0


From 026d1436f4464614627313223b5b0ebe5e22c360 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:43 +0000
Subject: [PATCH 16/26] fix: no group wins when the number of winning groups is
 0

---
 knp/base-framework/impl/message_handlers.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/base-framework/impl/message_handlers.cpp b/knp/base-framework/impl/message_handlers.cpp
index e7c6cb6..308ce04 100644
--- a/knp/base-framework/impl/message_handlers.cpp
+++ b/knp/base-framework/impl/message_handlers.cpp
@@ -69,7 +69,7 @@ knp::core::messaging::SpikeData KWtaRandomHandler::operator()(std::vector<knp::c
 knp::core::messaging::SpikeData GroupWtaRandomHandler::operator()(
     const std::vector<knp::core::messaging::SpikeMessage> &messages)
 {
-    if (messages.empty())
+    if (messages.empty() || num_winners_ == 0)
     {
         return {};
     }
-- 
2.43.0


From 0efc1f2f1fdb60e1c1dce03fff5cad5d413f3476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 17/26] fix: convert_set.h: keep all spikes when the output
 size does not fit the index type

---
 .../include/knp/framework/io/out_converters/convert_set.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h b/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h
index a70e534..4de853f 100644
--- a/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h
+++ b/knp/base-framework/include/knp/framework/io/out_converters/convert_set.h
@@ -24,6 +24,7 @@
 #include <knp/core/impexp.h>
 #include <knp/core/messaging/spike_message.h>
 
+#include <limits>
 #include <set>
 #include <vector>
 
@@ -65,8 +66,11 @@ public:
         }
 
         // Ignore extra neurons.
-        auto iter = result.lower_bound(output_size_);
-        result.erase(iter, result.end());
+        if (output_size_ <= std::numeric_limits<core::messaging::SpikeIndex>::max())
+        {
+            auto iter = result.lower_bound(static_cast<core::messaging::SpikeIndex>(output_size_));
+            result.erase(iter, result.end());
+        }
         return result;
     }
 
-- 
2.43.0


From f518f9f2ce5f4d1d45fa25e61b16ef74d8e29dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:41:55 +0000
Subject: [PATCH 18/26] fix: sequence_converter.h: do not interpret an
 uninitialised value after the end of the stream

---
 .../knp/framework/io/in_converters/sequence_converter.h        | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
index fbae413..72b9345 100644
--- a/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
+++ b/knp/base-framework/include/knp/framework/io/in_converters/sequence_converter.h
@@ -81,7 +81,8 @@ public:
         for (size_t i = 0; i < data_size_; ++i)
         {
             ValueType value;
-            *stream_ >> value;
+            // When the stream has no more values, `value` is left uninitialised.
+            if (!(*stream_ >> value)) break;
             if (interpret_(value))
             {
                 message_data.push_back(i);
-- 
2.43.0


From a9788aca331d5407d007223fe9d1273ea85229b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:52:09 +0000
Subject: [PATCH 19/26] fix: output_channel.cpp: keep held messages in order of
 steps, as reading a range requires

---
 knp/base-framework/impl/output_channel.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/knp/base-framework/impl/output_channel.cpp b/knp/base-framework/impl/output_channel.cpp
index aa35006..f2ff258 100644
--- a/knp/base-framework/impl/output_channel.cpp
+++ b/knp/base-framework/impl/output_channel.cpp
@@ -21,6 +21,8 @@
 
 #include <knp/framework/io/output_channel.h>
 
+#include <algorithm>
+
 namespace knp::framework::io::output
 {
 auto comp_lower(const core::messaging::SpikeMessage &message, core::Step step)
@@ -47,6 +49,12 @@ std::vector<core::messaging::SpikeMessage> OutputChannel::update()
         message_buffer_.push_back(std::move(message));
     }
 
+    // Messages sent at different steps can be received in any order.
+    std::stable_sort(
+        message_buffer_.begin(), message_buffer_.end(),
+        [](const core::messaging::SpikeMessage &first, const core::messaging::SpikeMessage &second)
+        { return first.header_.send_time_ < second.header_.send_time_; });
+
     return message_buffer_;
 }
 
-- 
2.43.0


From 516d4ebb70870ace144f96f93143f35257b74697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:28:47 +0000
Subject: [PATCH 20/26] fix: do not add a frame made of a stale buffer when the
 images of a dataset run out

---
 .../impl/data_processing/classification/image.cpp               | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/knp/base-framework/impl/data_processing/classification/image.cpp b/knp/base-framework/impl/data_processing/classification/image.cpp
index 68f1d81..ac84b0c 100644
--- a/knp/base-framework/impl/data_processing/classification/image.cpp
+++ b/knp/base-framework/impl/data_processing/classification/image.cpp
@@ -41,6 +41,8 @@ void Dataset::process_labels_and_images(
     while (images_stream.good() && labels_stream.good())
     {
         images_stream.read(reinterpret_cast<char *>(image_reading_buffer.data()), image_size);
+        // There is no whole image left: what the buffer holds is an earlier image.
+        if (!images_stream.good()) break;
         auto spikes_frame = image_to_spikes(image_reading_buffer);
 
         std::string str;
-- 
2.43.0


From 8c54b9ee897b587a97c7a54df92aadabccf682f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:43 +0000
Subject: [PATCH 21/26] fix: ZMQ message bus does not limit the number of
 queued messages

With the default high-water marks the publish socket silently drops messages
over 2000 that an endpoint has not received yet, and an endpoint that sends
more than 2000 messages between two routings spins in send_message() forever.
---
 .../impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp        | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
index 72fad81..eb1da56 100644
--- a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
+++ b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
@@ -61,6 +61,10 @@ MessageBusZMQImpl::MessageBusZMQImpl()
       publish_socket_(context_, zmq::socket_type::pub)
 {
     SPDLOG_DEBUG("ZMQ message bus creating...");
+    // No limit on the number of queued messages: by default ZMQ refuses or drops messages over its high-water mark.
+    constexpr int no_limit = 0;
+    zmq_setsockopt(router_socket_.handle(), ZMQ_RCVHWM, &no_limit, sizeof(no_limit));
+    zmq_setsockopt(publish_socket_.handle(), ZMQ_SNDHWM, &no_limit, sizeof(no_limit));
     SPDLOG_DEBUG("Router socket binding to {}...", router_sock_address_);
     router_socket_.bind(router_sock_address_);
     SPDLOG_DEBUG("Publish socket binding to {}...", publish_sock_address_);
-- 
2.43.0


From 38ed408c1eab40a1d98cb810b8619d9d89bd1837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:12:43 +0000
Subject: [PATCH 22/26] fix: ZMQ message bus publishes to endpoints created
 since the last routing

Sending may put off handling of the commands of a socket, among them new
subscriber connections, for about a millisecond: an endpoint created right after
a routing did not get the messages of the next one.
---
 .../impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp       | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
index eb1da56..9949d44 100644
--- a/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
+++ b/knp/core-library/impl/message_bus_zmq_impl/message_bus_zmq_impl.cpp
@@ -130,6 +130,11 @@ size_t MessageBusZMQImpl::step()
         }
 
         SPDLOG_DEBUG("Data was received, bus the message will be resent.");
+        // Asking for events makes the socket accept the subscribers connected since the last call, `send` may put it off.
+        int events = 0;
+        size_t events_size = sizeof(events);
+        zmq_getsockopt(publish_socket_.handle(), ZMQ_EVENTS, &events, &events_size);
+
         // `send_result` is `std::optional` and if it doesn't contain a value, `EAGAIN` is returned by the call.
         zmq::send_result_t send_result;
         do
-- 
2.43.0


From 517c0728f1125e1112ae1866abace7f8e90c66e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:04 +0000
Subject: [PATCH 23/26] fix: cpu devices: the identifier is that of the name
 and stays with a moved device

---
 knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp | 14 +++++++++-----
 knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp     | 15 ++++++++++-----
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
index 4c0f8d2..2c2a89f 100644
--- a/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/unknown_cpu.cpp
@@ -32,9 +32,6 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
-
-
 /**
  * @brief Fake power meter for unknown CPU.
  */
@@ -49,11 +46,17 @@ public:
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
 {
     cpu_name_ = "Unknown CPU " + std::to_string(cpu_num_);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(false))(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_num_{std::move(other.cpu_num_)}, cpu_name_{std::move(other.cpu_name_)} {}
+CPU::CPU(CPU&& other)
+    : Device(std::move(other)),
+      cpu_num_{other.cpu_num_},
+      cpu_name_{std::move(other.cpu_name_)},
+      power_meter_{std::move(other.power_meter_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -61,6 +64,7 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
     std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
diff --git a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
index 363ae42..ef1dd0f 100644
--- a/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
+++ b/knp/backends/cpu/cpu-devices/impl/x86_cpu.cpp
@@ -44,9 +44,6 @@
 namespace knp::devices::cpu
 {
 
-static constexpr const char* ns_uid = "0000-0000-0000-0000";
-
-
 CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<CpuPower>(cpu_num)}
 {
     auto pcm_instance = pcm::PCM::getInstance();
@@ -55,11 +52,17 @@ CPU::CPU(uint32_t cpu_num) : cpu_num_(cpu_num), power_meter_{std::make_unique<Cp
 
     cpu_name_ = pcm_instance->getCPUBrandString() + " " + pcm_instance->getCPUFamilyModelString() + " " +
                 std::to_string(cpu_num);
-    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(ns_uid))(cpu_name_.c_str()));
+    Device::base_.uid_ = knp::core::UID(boost::uuids::name_generator(core::UID(false))(cpu_name_.c_str()));
 }
 
 
-CPU::CPU(CPU&& other) : cpu_name_{std::move(other.cpu_name_)}, power_meter_{std::move(other.power_meter_)} {}
+CPU::CPU(CPU&& other)
+    : Device(std::move(other)),
+      cpu_num_{other.cpu_num_},
+      cpu_name_{std::move(other.cpu_name_)},
+      power_meter_{std::move(other.power_meter_)}
+{
+}
 
 
 CPU::~CPU() {}
@@ -67,6 +70,8 @@ CPU::~CPU() {}
 
 CPU& CPU::operator=(CPU&& other) noexcept
 {
+    std::swap(base_, other.base_);
+    std::swap(cpu_num_, other.cpu_num_);
     cpu_name_.swap(other.cpu_name_);
     power_meter_.swap(other.power_meter_);
     return *this;
-- 
2.43.0


From 1b59a12b203512c4fc58e18fcd07215c4132709a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:25:04 +0000
Subject: [PATCH 24/26] fix: backend.cpp: select every device asked for, in
 place of the ones selected before

---
 knp/core-library/impl/backend.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/knp/core-library/impl/backend.cpp b/knp/core-library/impl/backend.cpp
index 3542aea..f604bab 100644
--- a/knp/core-library/impl/backend.cpp
+++ b/knp/core-library/impl/backend.cpp
@@ -166,22 +166,26 @@ void Backend::_uninit()
 
 void Backend::select_devices(const std::set<UID>& uids)
 {
+    std::vector<std::unique_ptr<Device>> selected;
+
     for (auto&& device : get_devices())
     {
         SPDLOG_DEBUG("Trying UID {}...", std::string(device->get_uid()));
         if (uids.find(device->get_uid()) != uids.end())
         {
             SPDLOG_INFO("Device with UID {} was selected.", std::string(device->get_uid()));
-            devices_.push_back(std::move(device));
-            return;
+            selected.push_back(std::move(device));
+            continue;
         }
         SPDLOG_TRACE("Device with UID {} was not selected.", std::string(device->get_uid()));
     }
 
-    if (uids.size() != devices_.size())
+    if (uids.size() != selected.size())
     {
         throw std::logic_error("Not all devices were selected.");
     }
+
+    devices_ = std::move(selected);
 }
 
 void Backend::select_device(std::unique_ptr<Device>&& device)
-- 
2.43.0


From efb86f0499a807016143630d8c921cc9762e9502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:42 +0000
Subject: [PATCH 25/26] fix: messages: reading a message without spikes or
 impacts from text replaces the contents

---
 knp/core-library/impl/messaging/spike_message.cpp           | 2 --
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 2 --
 2 files changed, 4 deletions(-)

diff --git a/knp/core-library/impl/messaging/spike_message.cpp b/knp/core-library/impl/messaging/spike_message.cpp
index f6e9244..f090a9a 100644
--- a/knp/core-library/impl/messaging/spike_message.cpp
+++ b/knp/core-library/impl/messaging/spike_message.cpp
@@ -58,8 +58,6 @@ std::istream &operator>>(std::istream &stream, SpikeMessage &msg)
     size_t neurons_count = 0;
     stream >> msg.header_.sender_uid_ >> msg.header_.send_time_ >> neurons_count;
 
-    if (0 == neurons_count) return stream;
-
     msg.neuron_indexes_.resize(neurons_count);
     for (size_t i = 0; i < neurons_count; ++i)
     {
diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 96e9f1f..4942916 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -82,8 +82,6 @@ std::istream &operator>>(std::istream &stream, SynapticImpactMessage &msg)
         impacts_count;
 
     msg.is_forcing_ = forcing_buf;
-    if (0 == impacts_count) return stream;
-
     msg.impacts_.resize(impacts_count);
     for (size_t i = 0; i < impacts_count; ++i)
     {
-- 
2.43.0


From dae025deba299c291267db7e40fbd95abbdd4f63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:43:42 +0000
Subject: [PATCH 26/26] fix: synaptic_impact_message.cpp: impacts of different
 types are not equal

---
 knp/core-library/impl/messaging/synaptic_impact_message.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/knp/core-library/impl/messaging/synaptic_impact_message.cpp b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
index 4942916..53ac452 100644
--- a/knp/core-library/impl/messaging/synaptic_impact_message.cpp
+++ b/knp/core-library/impl/messaging/synaptic_impact_message.cpp
@@ -32,7 +32,7 @@ namespace knp::core::messaging
 
 bool SynapticImpact::operator==(const SynapticImpact &other) const
 {
-    return connection_index_ == other.connection_index_ &&
+    return connection_index_ == other.connection_index_ && synapse_type_ == other.synapse_type_ &&
            presynaptic_neuron_index_ == other.presynaptic_neuron_index_ &&
            postsynaptic_neuron_index_ == other.postsynaptic_neuron_index_ && impact_value_ == other.impact_value_;
 }
-- 
2.43.0

