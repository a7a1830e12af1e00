From 4c4ac06a59f868eed3a0ddbf0ffc112b94e3ae0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:32 +0000
Subject: [PATCH 01/30] fix: do not require identical QM and ASIL-B slot states
 when allocating

A restarted ASIL-B provider, whose predecessor died after having updated only
one of the two control blocks (or which ignored the QM control block), finds
slots that are unused in both control blocks, but with different status values.
The same state can be produced by a QM process writing to the QM control block.
The allocation asserted equality and terminated the ASIL-B provider. Allocate
with the status read from the respective control block instead.
---
 .../lola/event_data_control_composite.cpp     | 23 ++++++++-----------
 .../lola/event_data_control_composite.h       | 14 +++++++----
 2 files changed, 20 insertions(+), 17 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
index 4b7a671..fab568c 100644
--- a/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
+++ b/score/mw/com/impl/bindings/lola/event_data_control_composite.cpp
@@ -52,10 +52,10 @@ template <template <class> class AtomicIndirectorType>
 // [Ticket-173043](broken_link_j/Ticket-173043)
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
 auto EventDataControlComposite<AtomicIndirectorType>::GetNextFreeMultiSlot() const noexcept
-    -> std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo>
+    -> std::optional<MultiSlotInfo>
 {
     EventSlotStatus::EventTimeStamp oldest_time_stamp{EventSlotStatus::TIMESTAMP_MAX};
-    std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo> slot_info{};
+    std::optional<MultiSlotInfo> slot_info{};
 
     for (SlotIndexType slot_index = 0U;
          // Suppress "AUTOSAR C++14 A4-7-1" rule finding. This rule states: "An integer expression shall not lead to
@@ -82,13 +82,8 @@ auto EventDataControlComposite<AtomicIndirectorType>::GetNextFreeMultiSlot() con
             const auto time_stamp = slot_b.GetTimeStamp();
             if (time_stamp < oldest_time_stamp)
             {
-                SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-                    static_cast<EventSlotStatus::value_type>(slot_qm) ==
-                        static_cast<EventSlotStatus::value_type>(slot_b),
-                    "Defensive progamming: QM and ASIL-B control slots are expected to be in the same state. Assert "
-                    "this to ensure that returning the qm slot value to be used also for the asil-b slot value is "
-                    "correct. We already check if the qm value is incorrect (hinting at a memory corruption) above.");
-                slot_info = {slot_index, static_cast<EventSlotStatus::value_type>(slot_qm)};
+                slot_info = {{slot_index, static_cast<EventSlotStatus::value_type>(slot_qm)},
+                             {slot_index, static_cast<EventSlotStatus::value_type>(slot_b)}};
                 oldest_time_stamp = time_stamp;
             }
         }
@@ -113,20 +108,22 @@ auto EventDataControlComposite<AtomicIndirectorType>::AllocateNextMultiSlot() no
         const auto free_multi_slot_result = GetNextFreeMultiSlot();
         if (free_multi_slot_result.has_value())
         {
-            const auto qm_old_slot_value_result = asil_qm_control_local_.get().TryAllocateSlot(*free_multi_slot_result);
+            const auto qm_old_slot_value_result =
+                asil_qm_control_local_.get().TryAllocateSlot(free_multi_slot_result->qm);
             if (!(qm_old_slot_value_result.has_value()))
             {
                 continue;
             }
 
-            const auto asil_b_allocation_result = asil_b_control_local_->TryAllocateSlot(*free_multi_slot_result);
+            const auto asil_b_allocation_result =
+                asil_b_control_local_->TryAllocateSlot(free_multi_slot_result->asil_b);
             if (!(asil_b_allocation_result.has_value()))
             {
                 asil_qm_control_local_.get().SetSlotValue(
-                    {free_multi_slot_result->slot_index, qm_old_slot_value_result.value()});
+                    {free_multi_slot_result->qm.slot_index, qm_old_slot_value_result.value()});
                 continue;
             }
-            return free_multi_slot_result->slot_index;
+            return free_multi_slot_result->asil_b.slot_index;
         }
     }
 
diff --git a/score/mw/com/impl/bindings/lola/event_data_control_composite.h b/score/mw/com/impl/bindings/lola/event_data_control_composite.h
index 1fad4f7..f36dec6 100644
--- a/score/mw/com/impl/bindings/lola/event_data_control_composite.h
+++ b/score/mw/com/impl/bindings/lola/event_data_control_composite.h
@@ -128,10 +128,16 @@ class EventDataControlComposite
     bool ignore_qm_control_;
 
     // Algorithms that operate on multiple control blocks
-    // \post the returned selected free slot for qm and asil-b must contain the same index and slot value (therefore, we
-    //       only return a single SlotInfo which represents both qm and asil-b slots).
-    std::optional<typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo> GetNextFreeMultiSlot()
-        const noexcept;
+    /// \brief A slot which is unused in both control blocks, with its status in each of them. The two status values may
+    /// differ: after a restart of the provider (the previous instance may have died after it had updated only one of the
+    /// control blocks or may have ignored the qm control block) or if the qm control block was modified by a QM process.
+    struct MultiSlotInfo
+    {
+        typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo qm;
+        typename ProviderEventDataControlLocalView<AtomicIndirectorType>::SlotInfo asil_b;
+    };
+
+    std::optional<MultiSlotInfo> GetNextFreeMultiSlot() const noexcept;
 
     std::optional<SlotIndexType> AllocateNextMultiSlot() noexcept;
 };
-- 
2.43.0


From 472937207a789971b1526545f01e10b897d9ebc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:27 +0000
Subject: [PATCH 02/30] fix: lock a newly created rollback mutex before others
 can see it

GetMutex() told the first caller that it created the mutex, but the mutex got
locked by that caller only afterwards. A second proxy of the same process for
the same service instance could lock first, skip PrepareRollback() and register
its transaction logs, which the first one then marked and rolled back although
they were in use.
---
 .../lola/rollback_synchronization.cpp         | 19 +++++++++++++++++++
 .../bindings/lola/rollback_synchronization.h  | 11 +++++++++++
 .../transaction_log_rollback_executor.cpp     |  9 ++++-----
 3 files changed, 34 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/rollback_synchronization.cpp b/score/mw/com/impl/bindings/lola/rollback_synchronization.cpp
index b286b6d..5d45353 100644
--- a/score/mw/com/impl/bindings/lola/rollback_synchronization.cpp
+++ b/score/mw/com/impl/bindings/lola/rollback_synchronization.cpp
@@ -20,6 +20,25 @@ std::pair<std::mutex&, bool> RollbackSynchronization::GetMutex(
     const SkeletonInstanceIdentifier skeleton_instance_identifier)
 {
     const std::lock_guard<std::mutex> lock{map_mutex_};
+    return GetMutexUnprotected(skeleton_instance_identifier);
+}
+
+std::pair<std::unique_lock<std::mutex>, bool> RollbackSynchronization::LockMutex(
+    const SkeletonInstanceIdentifier skeleton_instance_identifier)
+{
+    std::unique_lock<std::mutex> map_lock{map_mutex_};
+    auto [mutex, mutex_existed] = GetMutexUnprotected(skeleton_instance_identifier);
+    if (mutex_existed)
+    {
+        // The mutex might be owned by another thread for longer, other service instances shall not have to wait for it.
+        map_lock.unlock();
+    }
+    return {std::unique_lock<std::mutex>{mutex}, mutex_existed};
+}
+
+std::pair<std::mutex&, bool> RollbackSynchronization::GetMutexUnprotected(
+    const SkeletonInstanceIdentifier skeleton_instance_identifier)
+{
     auto search = synchronisation_data_map_.find(skeleton_instance_identifier);
     if (search != synchronisation_data_map_.end())
     {
diff --git a/score/mw/com/impl/bindings/lola/rollback_synchronization.h b/score/mw/com/impl/bindings/lola/rollback_synchronization.h
index 1dcdf2f..a13a1cf 100644
--- a/score/mw/com/impl/bindings/lola/rollback_synchronization.h
+++ b/score/mw/com/impl/bindings/lola/rollback_synchronization.h
@@ -38,7 +38,18 @@ class RollbackSynchronization
     ///         whether the mutex already existed (true) or had been created within the call (false)
     std::pair<std::mutex&, bool> GetMutex(const SkeletonInstanceIdentifier skeleton_instance_identifier);
 
+    /// \brief Locks the mutex for the given skeleton_instance_identifier. Creates it, if not yet existent.
+    /// \details A mutex created within this call gets locked before any other thread is able to see it. I.e. the caller,
+    ///          which gets told that the mutex has been created by its call, is always the first one to own the lock.
+    /// \return a pair, consisting of the lock owning the mutex for the given skeleton_instance_identifier and a bool,
+    ///         indicating, whether the mutex already existed (true) or had been created within the call (false)
+    std::pair<std::unique_lock<std::mutex>, bool> LockMutex(
+        const SkeletonInstanceIdentifier skeleton_instance_identifier);
+
   private:
+    /// \brief Same as GetMutex(), map_mutex_ has to be owned by the caller.
+    std::pair<std::mutex&, bool> GetMutexUnprotected(const SkeletonInstanceIdentifier skeleton_instance_identifier);
+
     std::unordered_map<SkeletonInstanceIdentifier, std::mutex> synchronisation_data_map_{};
     /// \brief mutex to synchronize access to synchronisation_data_map_
     std::mutex map_mutex_{};
diff --git a/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp b/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp
index 69c8430..e8cd574 100644
--- a/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp
+++ b/score/mw/com/impl/bindings/lola/transaction_log_rollback_executor.cpp
@@ -101,11 +101,10 @@ Result<void> TransactionLogRollbackExecutor::RollbackTransactionLogs() noexcept
     auto& lola_runtime = GetBindingRuntime<lola::IRuntime>(BindingType::kLoLa);
     auto& rollback_synchronization = lola_runtime.GetRollbackSynchronization();
 
-    auto [lock, mutex_existed] = rollback_synchronization.GetMutex(skeleton_instance_identifier_);
-    // Suppress Autosar C++14 A8-5-3 states that auto variables shall not be initialized using braced initialization.
-    // This is a false positive, we don't use auto here
-    // coverity[autosar_cpp14_a8_5_3_violation : FALSE]
-    std::lock_guard map_lock{lock};
+    // If the mutex gets created by this call, it is locked before any other Proxy instance is able to get hold of it.
+    // Otherwise another Proxy instance could skip PrepareRollback() and register its transaction logs, before we mark the
+    // logs to be rolled back below.
+    const auto [lock, mutex_existed] = rollback_synchronization.LockMutex(skeleton_instance_identifier_);
 
     // If another Proxy instance has already prepared the rollback for the given service_data_control_ (the special case
     // where we have more than one proxy instance in the same process, which uses the same service instance ->
-- 
2.43.0


From cc13c77412958baee39a6681f6a321101fb5436c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:32 +0000
Subject: [PATCH 03/30] fix: give the region version back when refusing an
 overlapping region

UpdateKnownRegion() claimed a version for overwriting and kept it claimed when it refused the region. A reader which acts on an
outdated version index increments the refcount of the claimed version; as nobody resets it afterwards, the version is never
recognized as unused again and finally no region can be registered anymore (std::terminate).
---
 score/memory/shared/memory_region_map.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/memory/shared/memory_region_map.cpp b/score/memory/shared/memory_region_map.cpp
index 0d185de..bce1dd7 100644
--- a/score/memory/shared/memory_region_map.cpp
+++ b/score/memory/shared/memory_region_map.cpp
@@ -151,6 +151,11 @@ bool MemoryRegionMapImpl<AtomicIndirectorType>::UpdateKnownRegion(const std::uin
         const auto inserted_region_it = insertion_result.first;
         if (DoesRegionIteratorOverlapWithExistingRegionInMap(inserted_region_it, new_known_regions))
         {
+            // Give the acquired version back with the unchanged set of regions. Otherwise increments of its refcount done by
+            // readers, which acted on an outdated version index, would prevent that it is ever recognized as unused again.
+            score::cpp::ignore = new_known_regions.erase(inserted_region_it);
+            known_regions_versions_refcounts_.at(static_cast<std::size_t>(new_version_idx.value()))
+                .store(0U, std::memory_order_release);
             return false;
         }
 
-- 
2.43.0


From e913cf02fa6e0efb4099e849505977ec86b5dd79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:16:32 +0000
Subject: [PATCH 04/30] fix: do not keep a refused region registered under its
 identifier

MemoryResourceRegistry::insert_resource() returned false for an overlapping region, but kept the resource in its registry, so that it
was found by its identifier and its later removal terminated on an assertion.
---
 score/memory/shared/memory_resource_registry.cpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/score/memory/shared/memory_resource_registry.cpp b/score/memory/shared/memory_resource_registry.cpp
index bd1824b..cbb35b4 100644
--- a/score/memory/shared/memory_resource_registry.cpp
+++ b/score/memory/shared/memory_resource_registry.cpp
@@ -78,7 +78,12 @@ auto score::memory::shared::MemoryResourceRegistry::insert_resource(
         const auto memory_range_start_as_integer = CastPointerToInteger(memory_range_start);
         const auto memory_range_end_as_integer = CastPointerToInteger(memory_range_end);
 
-        return region_map_.UpdateKnownRegion(memory_range_start_as_integer, memory_range_end_as_integer);
+        if (!region_map_.UpdateKnownRegion(memory_range_start_as_integer, memory_range_end_as_integer))
+        {
+            // A refused region must not stay registered under its identifier.
+            score::cpp::ignore = this->registry_.erase(result.first);
+            return false;
+        }
     }
     return result.second;
 }
-- 
2.43.0


From ee2b6f823f6feea40117d8a35bab9bfb39ba39a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 05/30] fix: keep the memory bounds of both pointers when
 swapping OffsetPtrs

swap() assigned the raw pointer of right to left, so that left lost the bounds of the memory region it pointed into and out-of-bounds
accesses through it were not detected anymore.
---
 score/memory/shared/offset_ptr.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index cd30d87..089bc82 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -1093,9 +1093,10 @@ template <typename T>
 // coverity[autosar_cpp14_m3_2_3_violation : FALSE] See rationale for autosar_cpp14_m3_2_3_violation above
 void swap(OffsetPtr<T>& left, OffsetPtr<T>& right) noexcept
 {
-    auto* const right_ptr = OffsetPtr<T>::GetPointerWithoutBoundsCheck(&right, right.offset_);
+    // Swap via an OffsetPtr (and not via a raw pointer), so that left also gets the memory bounds right was copied from.
+    const OffsetPtr<T> right_copy{right};
     right = left;
-    left = right_ptr;
+    left = right_copy;
 }
 
 }  // namespace score::memory::shared
-- 
2.43.0


From 2025d6f317fa93b858b23b1e8df133c692951127 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:19:04 +0000
Subject: [PATCH 06/30] fix: do not apply bounds checks to the target of a null
 OffsetPtr

get() of a null pointer to a large type, which lies near the end of its memory region, was reported as out of bounds, because the null
representation was interpreted as offset of a pointed-to object.
---
 score/memory/shared/offset_ptr.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/memory/shared/offset_ptr.h b/score/memory/shared/offset_ptr.h
index 089bc82..9769df9 100644
--- a/score/memory/shared/offset_ptr.h
+++ b/score/memory/shared/offset_ptr.h
@@ -553,6 +553,11 @@ auto OffsetPtr<PointedType>::GetPointerWithBoundsCheck(
     const MemoryRegionBounds& offset_ptr_memory_bounds_when_not_in_shm,
     const std::size_t pointed_type_size) -> pointer
 {
+    // A null pointer has no pointed-to object which could be out of bounds.
+    if (offset == detail_offset_ptr::kNullPtrRepresentation)
+    {
+        return nullptr;
+    }
     if (detail_offset_ptr::IsBoundsCheckingEnabled())
     {
         const auto offset_ptr_bounds = MemoryResourceRegistry::getInstance().GetBoundsFromAddress(offset_ptr_address);
-- 
2.43.0


From 57a867e357f9d25df7840bd47e075c358c28d31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:38 +0000
Subject: [PATCH 07/30] fix: give the descriptor of a lock file back when its
 permissions cannot be set

---
 score/memory/shared/lock_file.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/score/memory/shared/lock_file.cpp b/score/memory/shared/lock_file.cpp
index 6db8448..856236c 100644
--- a/score/memory/shared/lock_file.cpp
+++ b/score/memory/shared/lock_file.cpp
@@ -50,6 +50,8 @@ std::optional<LockFile> LockFile::Create(std::string path) noexcept
     {
         score::mw::log::LogError("shm") << "LockFile::Create failed to chmod file: " << path
                                         << " | Error: " << result.error().ToString();
+        score::cpp::ignore = ::score::os::Unistd::instance().close(create_result.value());
+        score::cpp::ignore = ::score::os::Unistd::instance().unlink(path.data());
         return {};
     }
     constexpr bool owns_file{true};
@@ -76,6 +78,7 @@ std::optional<LockFile> LockFile::CreateOrOpen(std::string path, bool take_owner
     {
         score::mw::log::LogError("shm") << "LockFile::CreateOrOpen failed to chmod file: " << path
                                         << " | Error: " << result.error().ToString();
+        score::cpp::ignore = ::score::os::Unistd::instance().close(create_result.value());
         return {};
     }
     return LockFile{std::move(path), create_result.value(), take_ownership};
-- 
2.43.0


From 789fe101dae5e34a0e6607719a21d6fb370260a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:38 +0000
Subject: [PATCH 08/30] fix: remove a stale lock file only after the shared
 memory object it protects

---
 score/memory/shared/shared_memory_factory_impl.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/score/memory/shared/shared_memory_factory_impl.cpp b/score/memory/shared/shared_memory_factory_impl.cpp
index 6c5bdba..e8173d8 100644
--- a/score/memory/shared/shared_memory_factory_impl.cpp
+++ b/score/memory/shared/shared_memory_factory_impl.cpp
@@ -369,8 +369,12 @@ auto SharedMemoryFactoryImpl::RemoveStaleArtefacts(const std::string& path) noex
             GetResourceIfAlreadyOpened(path, resources_) == nullptr,
             "RemoveStaleArtefacts must not be called when the path corresponds to a currently owned resource.");
     }
-    const auto lock_file_path = SharedMemoryResource::GetLockFilePath(path);
-    score::cpp::ignore = ::score::os::Unistd::instance().unlink(lock_file_path.data());
+    // The stale lock file is removed last: as long as it exists, nobody can open the object, which may only be partially
+    // initialised.
+    const auto remove_lock_file = [&path]() noexcept {
+        const auto lock_file_path = SharedMemoryResource::GetLockFilePath(path);
+        score::cpp::ignore = ::score::os::Unistd::instance().unlink(lock_file_path.data());
+    };
 
     const bool is_shm_in_typed_memory = IsShmInTypedMemory(path);
     // Known coverage bug: "decision couldn't be analyzed"
@@ -386,6 +390,7 @@ auto SharedMemoryFactoryImpl::RemoveStaleArtefacts(const std::string& path) noex
         // part of mw::com) from the ban by listing it in the not relevant for field.
         // NOLINTNEXTLINE(score-banned-function): explanation on lines above.
         score::cpp::ignore = ::score::os::Mman::instance().shm_unlink(path.c_str());
+        remove_lock_file();
         return;
     }
 
@@ -404,6 +409,7 @@ auto SharedMemoryFactoryImpl::RemoveStaleArtefacts(const std::string& path) noex
             << __func__ << __LINE__ << "Unexpected error while trying to unlink shared-memory in typed memory"
             << "Reason: " << unlink_result.error();
     }
+    remove_lock_file();
 }
 
 auto SharedMemoryFactoryImpl::SetTypedMemoryProvider(std::shared_ptr<TypedMemory> typed_memory_ptr) noexcept -> void
-- 
2.43.0


From a70333d0c3feb8d149a9b2885b9ddbe7c96fb676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:49 +0000
Subject: [PATCH 09/30] fix: create-or-open starts over when another process
 held the lock without creating

---
 .../memory/shared/shared_memory_resource.cpp  | 74 ++++++++++---------
 score/memory/shared/shared_memory_resource.h  |  2 +-
 2 files changed, 42 insertions(+), 34 deletions(-)

diff --git a/score/memory/shared/shared_memory_resource.cpp b/score/memory/shared/shared_memory_resource.cpp
index cc67488..b88569b 100644
--- a/score/memory/shared/shared_memory_resource.cpp
+++ b/score/memory/shared/shared_memory_resource.cpp
@@ -360,7 +360,7 @@ score::cpp::expected<std::shared_ptr<SharedMemoryResource>, score::os::Error> Sh
     std::shared_ptr<score::memory::shared::TypedMemory> typed_memory_ptr)
 {
     auto resource = CreateInstance(std::move(input_path), std::move(acl_factory), typed_memory_ptr);
-    const auto result = resource->CreateImpl(user_space_to_reserve, std::move(initialize_callback), permissions);
+    const auto result = resource->CreateImpl(user_space_to_reserve, initialize_callback, permissions);
     if (!result.has_value())
     {
         score::mw::log::LogError("shm") << "Unexpected error while creating Shared Memory Resource with errno"
@@ -381,7 +381,7 @@ score::cpp::expected<std::shared_ptr<SharedMemoryResource>, score::os::Error> Sh
     std::shared_ptr<score::memory::shared::TypedMemory> typed_memory_ptr)
 {
     auto resource = CreateInstance(shared_memory_resource_id, std::move(acl_factory), typed_memory_ptr);
-    const auto result = resource->CreateImpl(user_space_to_reserve, std::move(initialize_callback), permissions);
+    const auto result = resource->CreateImpl(user_space_to_reserve, initialize_callback, permissions);
     // LCOV_EXCL_START (Defensive programming: CreateAnonymous either returns a valid result or terminates.)
     // LCOV_EXCL_BR_START (See line coverage suppression explanation)
     if (!result.has_value())
@@ -497,7 +497,7 @@ SharedMemoryResource::SharedMemoryResource(std::variant<std::string, std::uint64
 // std::terminate call.
 // coverity[autosar_cpp14_a15_5_3_violation : FALSE]
 score::cpp::expected_blank<Error> SharedMemoryResource::CreateImpl(const std::size_t user_space_to_reserve,
-                                                                   const InitializeCallback initialize_callback,
+                                                                   const InitializeCallback& initialize_callback,
                                                                    const UserPermissions& permissions)
 {
     this->opening_mode_ = Fcntl::Open::kReadWrite;
@@ -559,44 +559,52 @@ score::cpp::expected_blank<Error> SharedMemoryResource::CreateOrOpenImpl(const s
     this->opening_mode_ = Fcntl::Open::kReadWrite;
     this->map_mode_ = ::score::os::Mman::Protection::kRead | ::score::os::Mman::Protection::kWrite;
     constexpr bool open_read_write{true};
-    const auto open_result = OpenImpl(open_read_write);
-    if (!open_result.has_value())
+    for (;;)
     {
-        if (open_result.error() == Error::Code::kNoSuchFileOrDirectory)
+        const auto open_result = OpenImpl(open_read_write);
+        if (!open_result.has_value())
         {
-            score::mw::log::LogDebug("shm")
-                << "Could not open shared-memory resource with path" << *path << "with errno" << open_result.error()
-                << "Attempting to create it now instead.";
-
-            const auto creation_result = CreateImpl(user_space_to_reserve, std::move(initialize_callback), permissions);
-            // If the shared memory segment could not be created because another process has created it or has acquired
-            // the lock to create it, wait for the other process to create it.
-            if (!creation_result.has_value())
+            if (open_result.error() == Error::Code::kNoSuchFileOrDirectory)
             {
-                // Create() should terminate for any other error
-                std::stringstream s{};
-                s << "Creating shared memory region failed with errno:" << creation_result.error();
-                SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
-                    ((creation_result.error() == Error::Code::kDeviceOrResourceBusy) ||
-                     (creation_result.error() == Error::Code::kObjectExists)),
-                    s.str().c_str());
-
                 score::mw::log::LogDebug("shm")
-                    << "Could not create shared-memory region with errno:" << creation_result.error()
-                    << "Another process is creating or has already created it. Attempting to open.";
+                    << "Could not open shared-memory resource with path" << *path << "with errno" << open_result.error()
+                    << "Attempting to create it now instead.";
 
-                return OpenImpl(open_read_write);
+                const auto creation_result = CreateImpl(user_space_to_reserve, initialize_callback, permissions);
+                // If the shared memory segment could not be created because another process has created it or has acquired
+                // the lock to create it, wait for the other process to create it.
+                if (!creation_result.has_value())
+                {
+                    // Create() should terminate for any other error
+                    std::stringstream s{};
+                    s << "Creating shared memory region failed with errno:" << creation_result.error();
+                    SCORE_LANGUAGE_FUTURECPP_ASSERT_PRD_MESSAGE(
+                        ((creation_result.error() == Error::Code::kDeviceOrResourceBusy) ||
+                         (creation_result.error() == Error::Code::kObjectExists)),
+                        s.str().c_str());
+
+                    score::mw::log::LogDebug("shm")
+                        << "Could not create shared-memory region with errno:" << creation_result.error()
+                        << "Another process is creating or has already created it. Attempting to open.";
+                    if (creation_result.error() == Error::Code::kDeviceOrResourceBusy)
+                    {
+                        // The lock may as well be held by a process that merely tried to open the (not yet existing)
+                        // object and will not create it: start over.
+                        continue;
+                    }
+                    return OpenImpl(open_read_write);
+                }
+            }
+            else
+            {
+                score::mw::log::LogFatal("shm")
+                    << __func__ << __LINE__ << "Unexpected error while opening Shared Memory Resource" << *path
+                    << "with errno" << open_result.error();
+                std::terminate();
             }
         }
-        else
-        {
-            score::mw::log::LogFatal("shm")
-                << __func__ << __LINE__ << "Unexpected error while opening Shared Memory Resource" << *path
-                << "with errno" << open_result.error();
-            std::terminate();
-        }
+        return {};
     }
-    return {};
 }
 
 score::cpp::expected_blank<Error> SharedMemoryResource::OpenImpl(const bool is_read_write)
diff --git a/score/memory/shared/shared_memory_resource.h b/score/memory/shared/shared_memory_resource.h
index 5f0a79f..11f0623 100644
--- a/score/memory/shared/shared_memory_resource.h
+++ b/score/memory/shared/shared_memory_resource.h
@@ -342,7 +342,7 @@ class SharedMemoryResource : public ISharedMemoryResource, public std::enable_sh
     /// \return in case of error an score::os::Error is returned.
     // coverity[autosar_cpp14_m7_3_1_violation] false-positive: class method (Ticket-234468)
     score::cpp::expected_blank<score::os::Error> CreateImpl(const std::size_t user_space_to_reserve,
-                                                            const InitializeCallback initialize_callback,
+                                                            const InitializeCallback& initialize_callback,
                                                             const UserPermissions& permissions);
 
     /// \brief Called by SharedMemoryResource::CreateOrOpen() after calling the constructor.
-- 
2.43.0


From 4407e2840800de75d201fd7c2f32ad0418f72bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:23:24 +0000
Subject: [PATCH 10/30] fix: give a sample's buffer back before its reference
 guard

---
 score/mw/com/impl/plumbing/sample_ptr.h | 22 ++++++++++++++++------
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/score/mw/com/impl/plumbing/sample_ptr.h b/score/mw/com/impl/plumbing/sample_ptr.h
index 70476eb..604eced 100644
--- a/score/mw/com/impl/plumbing/sample_ptr.h
+++ b/score/mw/com/impl/plumbing/sample_ptr.h
@@ -48,8 +48,8 @@ class SamplePtr final
     /// \param binding_sample_ptr The binding-specific sample pointer.
     template <typename BindingSamplePtrType>
     SamplePtr(BindingSamplePtrType&& binding_sample_ptr, SampleReferenceGuard reference_guard)
-        : binding_sample_ptr_{std::forward<BindingSamplePtrType>(binding_sample_ptr)},
-          reference_guard_{std::move(reference_guard)}
+        : reference_guard_{std::move(reference_guard)},
+          binding_sample_ptr_{std::forward<BindingSamplePtrType>(binding_sample_ptr)}
     {
     }
 
@@ -71,12 +71,19 @@ class SamplePtr final
     SamplePtr(const SamplePtr<SampleType>&) = delete;
     // coverity[autosar_cpp14_a13_3_1_violation]
     SamplePtr(SamplePtr<SampleType>&& other) noexcept
-        : binding_sample_ptr_{std::move(other.binding_sample_ptr_)}, reference_guard_{std::move(other.reference_guard_)}
+        : reference_guard_{std::move(other.reference_guard_)}, binding_sample_ptr_{std::move(other.binding_sample_ptr_)}
     {
         other.binding_sample_ptr_ = score::cpp::blank{};
     }
     SamplePtr& operator=(const SamplePtr<SampleType>&) = delete;
-    SamplePtr& operator=(SamplePtr<SampleType>&& other) & noexcept = default;
+    SamplePtr& operator=(SamplePtr<SampleType>&& other) & noexcept
+    {
+        // The sample which is held so far is released by the destructor of the temporary, i.e. in the order which is
+        // documented at the data members.
+        SamplePtr tmp{std::move(other)};
+        Swap(tmp);
+        return *this;
+    }
 
     SamplePtr& operator=(std::nullptr_t) noexcept
     {
@@ -192,13 +199,16 @@ class SamplePtr final
   private:
     template <typename BindingSamplePtrType>
     explicit SamplePtr(BindingSamplePtrType&& binding_sample_ptr)
-        : binding_sample_ptr_{std::forward<BindingSamplePtrType>(binding_sample_ptr)}, reference_guard_{}
+        : reference_guard_{}, binding_sample_ptr_{std::forward<BindingSamplePtrType>(binding_sample_ptr)}
     {
     }
 
+    // The order of the data members matters: members are destroyed in reverse order of their declaration and the
+    // binding specific sample has to be given back before the reference guard. Otherwise another thread may already
+    // retrieve a further sample, although the maximum number of samples is still in use.
+    SampleReferenceGuard reference_guard_;
     std::variant<score::cpp::blank, lola::SamplePtr<SampleType>, mock_binding::SamplePtr<SampleType>>
         binding_sample_ptr_;
-    SampleReferenceGuard reference_guard_;
 
     template <typename SamplePtrType>
     // Suppress "AUTOSAR C++14 A11-3-1", The rule states: "Friend declarations shall not be used".
-- 
2.43.0


From 87863cb04c86fd7d5c0803eb57b1f4f6462f315d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 11/30] fix: a concurrent Stop() of a client connection is
 neither overwritten nor misreported

---
 score/message_passing/client_connection.cpp | 27 +++++++++++++++------
 score/message_passing/client_connection.h   |  1 +
 2 files changed, 21 insertions(+), 7 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 2cd2e44..e451598 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -347,8 +347,9 @@ void ClientConnection::DoRestart() noexcept
 
 void ClientConnection::TryConnect() noexcept
 {
-    // The order of access to these atomics is important, as stop_reason_ can change in background
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(((stop_reason_ == StopReason::kNone) && (state_ == State::kStarting)) ||
+    // The order of access to these atomics is important, as both can change in background: Stop() sets stop_reason_
+    // first and state_ after it
+    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG((state_ == State::kStarting) ||
                                         ((state_ == State::kStopping) && (stop_reason_ == StopReason::kUserRequested)));
 
     auto& logger = engine_->GetLogger();
@@ -446,7 +447,13 @@ void ClientConnection::TryConnect() noexcept
             this);
     }
 
-    ProcessStateChange(State::kReady);
+    // a concurrent Stop() wins
+    State expected_state = State::kStarting;
+    if (state_.compare_exchange_strong(expected_state, State::kReady))
+    {
+        LogInfo(logger, "ProcessStateChange ", score::cpp::to_underlying(State::kReady));
+        ReportState(State::kReady);
+    }
 }
 
 IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
@@ -644,6 +651,15 @@ void ClientConnection::ProcessStateChangeToStopped() noexcept
     }
 }
 
+void ClientConnection::ReportState(const State state) noexcept
+{
+    // state_ may already be different here, because of a concurrent Stop()
+    if (!callback_context_->state_callback.empty())
+    {
+        callback_context_->state_callback(state);
+    }
+}
+
 void ClientConnection::ProcessStateChange(const State state) noexcept
 {
     LogInfo(engine_->GetLogger(), "ProcessStateChange ", score::cpp::to_underlying(state));
@@ -651,10 +667,7 @@ void ClientConnection::ProcessStateChange(const State state) noexcept
     if (state != State::kStopped)
     {
         state_ = state;
-        if (!callback_context_->state_callback.empty())
-        {
-            callback_context_->state_callback(state_);
-        }
+        ReportState(state);
     }
     else
     {
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 36cce14..9727b6e 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -73,6 +73,7 @@ class ClientConnection final : public IClientConnection
     bool TrySetStopReason(const StopReason stop_reason) noexcept;
 
     void ProcessStateChangeToStopped() noexcept;
+    void ReportState(const State state) noexcept;
     void ProcessStateChange(const State state) noexcept;
     void SwitchToStopState() noexcept;
 
-- 
2.43.0


From 74211bbdcd06bc15a256737f8f838fb130b159c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 12/30] fix: a client connection stops only after its Start()
 call has done its part

---
 score/message_passing/client_connection.cpp | 40 +++++++++++++++------
 1 file changed, 29 insertions(+), 11 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index e451598..bfdbd0a 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -323,8 +323,18 @@ void ClientConnection::Restart() noexcept
 
 void ClientConnection::DoRestart() noexcept
 {
+    // A concurrent Stop() does not finish (see SwitchToStopState()) before this call has done its part. The context is
+    // kept, as a callback called from here may lead to the end of the connection object.
+    std::shared_ptr<CallbackContext> context{callback_context_};
+    std::lock_guard<std::recursive_mutex> guard{context->finalize_mutex};
+
     stop_reason_ = StopReason::kNone;
     ProcessStateChange(State::kStarting);
+    if (state_ != State::kStarting)
+    {
+        // already stopping, or even stopped and possibly not existing anymore, due to a Stop() in the callback
+        return;
+    }
 
     LogInfo(engine_->GetLogger(), "ClientConnection::DoRestart ", engine_->IsOnCallbackThread(), " ", identifier_);
 
@@ -432,12 +442,24 @@ void ClientConnection::TryConnect() noexcept
     posix_endpoint_.disconnect = [this]() noexcept {
         SwitchToStopState();
     };
-    if (IsInCallback())
+    const bool is_in_callback = IsInCallback();
+    if (is_in_callback)
     {
         engine_->RegisterPosixEndpoint(posix_endpoint_);
     }
-    else
+
+    // a concurrent Stop() wins
+    State expected_state = State::kStarting;
+    if (state_.compare_exchange_strong(expected_state, State::kReady))
+    {
+        LogInfo(logger, "ProcessStateChange ", score::cpp::to_underlying(State::kReady));
+        ReportState(State::kReady);
+    }
+
+    if (!is_in_callback)
     {
+        // The background thread shall not handle the connection before the Ready callback has returned. The connection
+        // object still exists: DoRestart() prevents it from being stopped completely.
         engine_->EnqueueCommand(
             connection_timer_,
             ISharedResourceEngine::TimePoint{},
@@ -446,14 +468,6 @@ void ClientConnection::TryConnect() noexcept
             },
             this);
     }
-
-    // a concurrent Stop() wins
-    State expected_state = State::kStarting;
-    if (state_.compare_exchange_strong(expected_state, State::kReady))
-    {
-        LogInfo(logger, "ProcessStateChange ", score::cpp::to_underlying(State::kReady));
-        ReportState(State::kReady);
-    }
 }
 
 IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
@@ -583,7 +597,11 @@ void ClientConnection::SwitchToStopState() noexcept
 {
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(state_ == State::kStopping);
     SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(stop_reason_ != StopReason::kNone);
-    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(IsInCallback());
+    SCORE_LANGUAGE_FUTURECPP_ASSERT_DBG(IsInCallback() || client_config_.sync_first_connect);
+    {
+        // let the Start() or Restart() call in progress on another thread, if any, do its part first
+        std::lock_guard<std::recursive_mutex> guard{callback_context_->finalize_mutex};
+    }
     posix_endpoint_.disconnect = {};  // no need to trigger the cleanup once more
     engine_->CleanUpOwner(this);
     if (client_fd_ != -1)
-- 
2.43.0


From 763e3af611dbfc784683a5e077407b03de35d74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 13/30] fix: messages are not queued behind the end of a client
 connection

---
 score/message_passing/client_connection.cpp | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index bfdbd0a..0097568 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -120,6 +120,11 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::Send(
         return engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::SEND), message);
     }
     std::lock_guard<std::mutex> guard{send_mutex_};
+    if (state_ != State::kReady)
+    {
+        // a message queued now could be left behind by SwitchToStopState()
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (!waiting_for_reply_.has_value())
     {
         if (client_config_.truly_async)
@@ -186,6 +191,11 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     };
 
     std::unique_lock<std::mutex> lock(send_mutex_);
+    if (state_ != State::kReady)
+    {
+        // a message sent or queued now could be left behind by SwitchToStopState()
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (waiting_for_reply_.has_value())
     {
         // TODO: avoid copying the message
@@ -242,6 +252,11 @@ score::cpp::expected_blank<score::os::Error> ClientConnection::SendWithCallback(
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
     }
     std::lock_guard<std::mutex> guard(send_mutex_);
+    if (state_ != State::kReady)
+    {
+        // a message sent or queued now could be left behind by SwitchToStopState()
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EINVAL));
+    }
     if (waiting_for_reply_.has_value())
     {
         if (!TryQueueMessage(message, std::move(callback)))
@@ -602,6 +617,10 @@ void ClientConnection::SwitchToStopState() noexcept
         // let the Start() or Restart() call in progress on another thread, if any, do its part first
         std::lock_guard<std::recursive_mutex> guard{callback_context_->finalize_mutex};
     }
+    {
+        // senders which have still seen the Ready state finish their queueing; the later ones see the Stopping state
+        std::lock_guard<std::mutex> guard{send_mutex_};
+    }
     posix_endpoint_.disconnect = {};  // no need to trigger the cleanup once more
     engine_->CleanUpOwner(this);
     if (client_fd_ != -1)
-- 
2.43.0


From 9fa9bf367eb48eea349cb594c7805a0f1a9193ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 14/30] fix: SendWaitReply returns only after its callback is
 out of use

---
 score/message_passing/client_connection.cpp | 18 ++++++++++--------
 score/message_passing/client_connection.h   |  4 ++++
 2 files changed, 14 insertions(+), 8 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index 0097568..aebe7e4 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -58,6 +58,7 @@ ClientConnection::ClientConnection(std::shared_ptr<ISharedResourceEngine> engine
       send_pool_{},
       send_queue_{},
       waiting_for_reply_{},
+      direct_waiter_{nullptr},
       connection_timer_{},
       disconnection_command_{},
       async_send_command_{},
@@ -214,20 +215,19 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Cli
     else
     {
         waiting_for_reply_ = std::move(callback);
+        direct_waiter_ = &future;
         lock.unlock();
         const auto expected =
             engine_->SendProtocolMessage(client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), message);
         lock.lock();
-        if (!expected.has_value())
+        // if the callback has already been taken (because the connection stops, for instance), it is going to be called
+        if ((!expected.has_value()) && (direct_waiter_ == &future))
         {
-            if (send_queue_.empty())
-            {
-                // no one managed to get into queue while we were blocking it
-                waiting_for_reply_.reset();
-            }
-            else
+            direct_waiter_ = nullptr;
+            waiting_for_reply_.reset();
+            if ((!send_queue_.empty()) && (state_ == State::kReady))
             {
-                // unblock the queue
+                // unblock the queue, as someone managed to get into it while we were blocking it
                 ArmSendQueueUnderLock();
             }
             return score::cpp::make_unexpected(expected.error());
@@ -513,6 +513,7 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
+                direct_waiter_ = nullptr;
                 ProcessSendQueueUnderLock(lock);
                 lock.unlock();
                 callback(message);
@@ -633,6 +634,7 @@ void ClientConnection::SwitchToStopState() noexcept
     {
         auto callback = std::move(*waiting_for_reply_);
         waiting_for_reply_.reset();
+        direct_waiter_ = nullptr;
         lock.unlock();
         if (!callback.empty())
         {
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index 9727b6e..a609f77 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -134,6 +134,10 @@ class ClientConnection final : public IClientConnection
 
     std::optional<ReplyCallback> waiting_for_reply_;
 
+    // the future of the SendWaitReply() call which has put its callback into waiting_for_reply_ directly, as long as the
+    // callback is there
+    const void* direct_waiter_;
+
     ISharedResourceEngine::CommandQueueEntry connection_timer_;
     ISharedResourceEngine::CommandQueueEntry disconnection_command_;
     ISharedResourceEngine::CommandQueueEntry async_send_command_;
-- 
2.43.0


From 6fb8150ee6aeee9b33626b96c1ff2083619b4ec6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 15/30] fix: messages cancelled at the end of a connection free
 their queue places

---
 score/message_passing/client_connection.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index aebe7e4..d254d36 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -644,8 +644,10 @@ void ClientConnection::SwitchToStopState() noexcept
     }
     while (!send_queue_.empty())
     {
-        auto callback = std::move(send_queue_.front().callback);
+        auto& send = send_queue_.front();
+        auto callback = std::move(send.callback);
         send_queue_.pop_front();
+        send_pool_.push_front(send);
         if (!callback.empty())
         {
             lock.unlock();
-- 
2.43.0


From 05f293f22c11d4e353ecc582093c66162bb53903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 16/30] fix: a reply needs a request and failed queued requests
 are reported last

---
 score/message_passing/client_connection.cpp | 63 ++++++++++++++-------
 score/message_passing/client_connection.h   |  8 ++-
 2 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/score/message_passing/client_connection.cpp b/score/message_passing/client_connection.cpp
index d254d36..da5fa19 100644
--- a/score/message_passing/client_connection.cpp
+++ b/score/message_passing/client_connection.cpp
@@ -101,6 +101,7 @@ bool ClientConnection::TryQueueMessage(score::cpp::span<const std::uint8_t> mess
     send_pool_.pop_front();
     send_command.message.assign(message.begin(), message.end());
     send_command.callback = std::move(callback);
+    send_command.failure.reset();
     send_queue_.push_back(send_command);
     return true;
 }
@@ -509,12 +510,13 @@ IClientConnection::StopReason ClientConnection::ProcessInputEvent() noexcept
         case score::cpp::to_underlying(ServerToClient::REPLY):
         {
             std::unique_lock<std::mutex> lock{send_mutex_};
-            if (waiting_for_reply_.has_value())
+            // an empty callback only blocks the queue, there is no request to reply to
+            if (waiting_for_reply_.has_value() && (!waiting_for_reply_->empty()))
             {
                 ReplyCallback callback = std::move(*waiting_for_reply_);
                 waiting_for_reply_.reset();
                 direct_waiter_ = nullptr;
-                ProcessSendQueueUnderLock(lock);
+                ProcessSendQueueUnderLock(lock, false);
                 lock.unlock();
                 callback(message);
             }
@@ -555,12 +557,12 @@ void ClientConnection::ArmSendQueueUnderLock() noexcept
         ISharedResourceEngine::TimePoint{},
         [this](auto) noexcept {
             std::unique_lock<std::mutex> lock(send_mutex_);
-            ProcessSendQueueUnderLock(lock);
+            ProcessSendQueueUnderLock(lock, true);
         },
         this);
 }
 
-void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& lock) noexcept
+void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& lock, const bool may_call_back) noexcept
 {
     while (!send_queue_.empty())
     {
@@ -570,28 +572,45 @@ void ClientConnection::ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& l
         // (LIFO for better cache locality) right after we use its buffer to send the message
         if (!send.callback.empty())
         {
-            waiting_for_reply_ = std::move(send.callback);
-            // waiting_for_reply_ is now guaranteed to be occupied. This forces other potential fully_ordered or
-            // truly_async senders to push their messages into the send_queue_. We neeed to unlock that queue
-            // temporarily, as the other side of SendProtocolMessage is not under our control and it may cause
-            // indefinite delay.
-            lock.unlock();
-            const auto expected = engine_->SendProtocolMessage(
-                client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), send.message);
-            lock.lock();
-            send_pool_.push_front(send);
-            if (expected.has_value())
+            if (!send.failure.has_value())
+            {
+                waiting_for_reply_ = std::move(send.callback);
+                // waiting_for_reply_ is now guaranteed to be occupied. This forces other potential fully_ordered or
+                // truly_async senders to push their messages into the send_queue_. We neeed to unlock that queue
+                // temporarily, as the other side of SendProtocolMessage is not under our control and it may cause
+                // indefinite delay.
+                lock.unlock();
+                const auto expected = engine_->SendProtocolMessage(
+                    client_fd_, score::cpp::to_underlying(ClientToServer::REQUEST), send.message);
+                lock.lock();
+                if (expected.has_value())
+                {
+                    send_pool_.push_front(send);
+                    break;
+                }
+                send.callback = std::move(*waiting_for_reply_);
+                waiting_for_reply_.reset();
+                send.failure = expected.error();
+            }
+            if (!may_call_back)
             {
+                // to be reported by the command
+                send_queue_.push_front(send);
+                ArmSendQueueUnderLock();
                 break;
             }
-            auto callback = std::move(*waiting_for_reply_);
-            // We are not releasing waiting_for_reply_ yet. This makes our life easier if the callback and/or some
-            // competing thread wants to queue another message - they will just add it to the send_queue_ and we will
-            // process it in the next iteration.
-            lock.unlock();
-            callback(score::cpp::make_unexpected(expected.error()));
-            lock.lock();
             waiting_for_reply_.reset();
+            auto callback = std::move(send.callback);
+            const auto error = *send.failure;
+            send_pool_.push_front(send);
+            if (!send_queue_.empty())
+            {
+                ArmSendQueueUnderLock();
+            }
+            lock.unlock();
+            // the connection object may not exist anymore after the callback
+            callback(score::cpp::make_unexpected(error));
+            return;
         }
         else
         {
diff --git a/score/message_passing/client_connection.h b/score/message_passing/client_connection.h
index a609f77..24797b7 100644
--- a/score/message_passing/client_connection.h
+++ b/score/message_passing/client_connection.h
@@ -66,8 +66,9 @@ class ClientConnection final : public IClientConnection
     StopReason ProcessInputEvent() noexcept;
 
     // The lock shall be already taken.
-    // The function may release it, call a user callback, and then lock it again.
-    void ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& lock) noexcept;
+    // The function may release it and then lock it again. If it may call back (the function is the last action on the
+    // connection object then), it reports a failure to the user with the lock released; otherwise, the command does it.
+    void ProcessSendQueueUnderLock(std::unique_lock<std::mutex>& lock, const bool may_call_back) noexcept;
     void ArmSendQueueUnderLock() noexcept;
 
     bool TrySetStopReason(const StopReason stop_reason) noexcept;
@@ -121,12 +122,13 @@ class ClientConnection final : public IClientConnection
       public:
         using allocator_type = score::cpp::pmr::polymorphic_allocator<SendCommand>;
         explicit SendCommand(const allocator_type& allocator)
-            : score::containers::intrusive_list_element<>{}, message(allocator), callback{}
+            : score::containers::intrusive_list_element<>{}, message(allocator), callback{}, failure{}
         {
         }
 
         score::cpp::pmr::vector<std::uint8_t> message;
         ReplyCallback callback;
+        std::optional<score::os::Error> failure;  // of sending the message, still to be reported to the callback
     };
     score::cpp::pmr::vector<SendCommand> send_storage_;
     score::containers::intrusive_list<SendCommand> send_pool_;
-- 
2.43.0


From cf467860efaf18e3cd3ce83bff79f1aee0964a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:55 +0000
Subject: [PATCH 17/30] fix: a truncated header or too long message ends the
 connection

---
 .../unix_domain/unix_domain_engine.cpp            | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index c01611a..37f7f6e 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -247,11 +247,24 @@ score::cpp::expected<score::cpp::span<const std::uint8_t>, score::os::Error> Uni
         // other side disconnected
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EPIPE));
     }
+    if (static_cast<std::size_t>(size_expected.value()) != (sizeof(code) + sizeof(size)))
+    {
+        // other side disconnected in the middle of the header
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EIO));
+    }
     if (size == 0)
     {
         return {};
     }
-    if (size > static_cast<std::uint16_t>(posix_receive_buffer_.size()))
+    // the buffer is shared, but its size is the maximum over all the endpoints
+    const auto found = std::find_if(poll_fds_.begin(), poll_fds_.end(), [fd](const pollfd& poll) noexcept {
+        return poll.fd == fd;
+    });
+    const std::size_t max_receive_size =
+        (found != poll_fds_.end())
+            ? poll_endpoints_[static_cast<std::size_t>(std::distance(poll_fds_.begin(), found))]->max_receive_size
+            : posix_receive_buffer_.size();
+    if (size > max_receive_size)
     {
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
-- 
2.43.0


From 43ab30328fe8b6ba36ea9a2fef79bedca2973164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:56 +0000
Subject: [PATCH 18/30] fix: refuse messages which do not fit the length field

---
 score/message_passing/unix_domain/unix_domain_engine.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/score/message_passing/unix_domain/unix_domain_engine.cpp b/score/message_passing/unix_domain/unix_domain_engine.cpp
index 37f7f6e..7baada7 100644
--- a/score/message_passing/unix_domain/unix_domain_engine.cpp
+++ b/score/message_passing/unix_domain/unix_domain_engine.cpp
@@ -15,6 +15,7 @@
 #include "score/message_passing/unix_domain/unix_domain_socket_address.h"
 
 #include <future>
+#include <limits>
 #include <tuple>
 
 namespace score::message_passing
@@ -192,6 +193,11 @@ score::cpp::expected_blank<score::os::Error> UnixDomainEngine::SendProtocolMessa
     std::uint8_t code,
     const score::cpp::span<const std::uint8_t> message) noexcept
 {
+    if (message.size() > std::numeric_limits<std::uint16_t>::max())
+    {
+        // does not fit into the protocol header
+        return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
+    }
     struct msghdr msg;
     std::ignore = std::memset(static_cast<void*>(&msg), 0, sizeof(msg));
     constexpr auto kVectorCount = 3UL;
-- 
2.43.0


From 31850758836cd1362e11574197ed18566ef6bc45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:56 +0000
Subject: [PATCH 19/30] fix: a failed accept does not terminate the server

---
 score/message_passing/unix_domain/unix_domain_server.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index eb87c2d..fe83f3a 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -237,7 +237,13 @@ void UnixDomainServer::ProcessConnect() noexcept
 {
     auto& socket = engine_->GetOsResources().socket;
 
-    const std::int32_t data_fd = socket->accept(server_fd_, nullptr, nullptr).value();
+    const auto accept_expected = socket->accept(server_fd_, nullptr, nullptr);
+    if (!accept_expected.has_value())
+    {
+        // the client has already gone, or there are not enough resources at the moment
+        return;
+    }
+    const std::int32_t data_fd = accept_expected.value();
 #ifdef __QNX__
     // no support for SO_PEERCRED on QNX
     ClientIdentity identity{0, 0, 0};
-- 
2.43.0


From 8472ee3bc8621ce5cad8b0bb534e2da9eebf339f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:56:56 +0000
Subject: [PATCH 20/30] fix: a server connection can send before its acceptance
 is completed

---
 score/message_passing/unix_domain/unix_domain_server.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/score/message_passing/unix_domain/unix_domain_server.cpp b/score/message_passing/unix_domain/unix_domain_server.cpp
index fe83f3a..f3ae0de 100644
--- a/score/message_passing/unix_domain/unix_domain_server.cpp
+++ b/score/message_passing/unix_domain/unix_domain_server.cpp
@@ -78,7 +78,7 @@ score::cpp::expected_blank<score::os::Error> UnixDomainServer::ServerConnection:
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
     return server_.engine_->SendProtocolMessage(
-        endpoint_.fd, score::cpp::to_underlying(ServerToClient::REPLY), message);
+        fd_, score::cpp::to_underlying(ServerToClient::REPLY), message);
 }
 
 score::cpp::expected_blank<score::os::Error> UnixDomainServer::ServerConnection::Notify(
@@ -89,7 +89,7 @@ score::cpp::expected_blank<score::os::Error> UnixDomainServer::ServerConnection:
         return score::cpp::make_unexpected(score::os::Error::createFromErrno(EMSGSIZE));
     }
     return server_.engine_->SendProtocolMessage(
-        endpoint_.fd, score::cpp::to_underlying(ServerToClient::NOTIFY), message);
+        fd_, score::cpp::to_underlying(ServerToClient::NOTIFY), message);
 }
 
 void UnixDomainServer::ServerConnection::RequestDisconnect() noexcept
-- 
2.43.0


From 27f47b1d1ed47b77f8699a46ba9eee097bb1da56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:55 +0000
Subject: [PATCH 21/30] fix: a partially sent gateway message ends its stream

---
 .../transport_layer/sample/message_framer.cpp | 23 ++++++++++++-------
 1 file changed, 15 insertions(+), 8 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
index b1405c9..c4f0aaf 100644
--- a/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/message_framer.cpp
@@ -17,6 +17,10 @@
 
 #include <score/span.hpp>
 
+#include <sys/socket.h>
+
+#include <tuple>
+
 namespace score::mw::com::gateway
 {
 
@@ -25,8 +29,8 @@ namespace
 
 using score::os::Socket;
 
-/// \brief Helper function to send the buffer's data over a socket.
-int SendAll(std::int32_t socket_fd, const void* data, std::size_t length)
+/// \brief Helper function to send the buffer's data over a socket. Adds what was sent to bytes_sent.
+int SendAll(std::int32_t socket_fd, const void* data, std::size_t length, std::size_t& bytes_sent)
 {
     auto* ptr = static_cast<const char*>(data);
     while (length > 0)
@@ -39,6 +43,7 @@ int SendAll(std::int32_t socket_fd, const void* data, std::size_t length)
         const auto sent = static_cast<std::size_t>(result.value());
         ptr += sent;
         length -= sent;
+        bytes_sent += sent;
     }
     return 0;
 }
@@ -112,13 +117,15 @@ score::Result<void> MessageFramer::SendMessage(std::int32_t socket_fd, const Tra
     std::array<std::uint8_t, MessageHeader::kWireSize> header_buf{};
     header.SerializeToBuffer(header_buf.data());
 
-    if (SendAll(socket_fd, &header_buf, MessageHeader::kWireSize) != 0)
-    {
-        return score::MakeUnexpected(TransportErrorc::kSendFailure);
-    }
-
-    if (SendAll(socket_fd, send_buffer_.data(), payload_size) != 0)
+    std::size_t bytes_sent{0U};
+    if ((SendAll(socket_fd, &header_buf, MessageHeader::kWireSize, bytes_sent) != 0) ||
+        (SendAll(socket_fd, send_buffer_.data(), payload_size, bytes_sent) != 0))
     {
+        if (bytes_sent > 0U)
+        {
+            // The peer would take the next message for the rest of this one: the stream can not be continued.
+            std::ignore = ::shutdown(socket_fd, SHUT_RDWR);
+        }
         return score::MakeUnexpected(TransportErrorc::kSendFailure);
     }
 
-- 
2.43.0


From 786d370cc60e9c2b18065ce8733fd87a4c7470ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:55 +0000
Subject: [PATCH 22/30] fix: refuse to serialize strings which can not be
 deserialized

---
 .../gateway/transport_layer/sample/messages/serialization.h  | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/score/mw/com/gateway/transport_layer/sample/messages/serialization.h b/score/mw/com/gateway/transport_layer/sample/messages/serialization.h
index 9ae369f..8b5cda1 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/serialization.h
+++ b/score/mw/com/gateway/transport_layer/sample/messages/serialization.h
@@ -138,6 +138,11 @@ score::Result<uint32_t> Deserialize(T& value, score::cpp::span<const std::byte>
 template <typename T>
 score::Result<uint32_t> Serialize(const T& string, score::cpp::span<std::byte> target_buffer, std_string_tag)
 {
+    // Deserialize() takes neither an empty string nor what follows a null terminator
+    if (string.empty() || (string.find('\0') != std::string::npos))
+    {
+        return score::MakeUnexpected(score::mw::com::gateway::MessageErrorc::kPayloadInvalid);
+    }
     const auto required_size = string.size() + 1U;
     if (target_buffer.size() < required_size)
     {
-- 
2.43.0


From 8f31fcb80a2533373a6b45c520c38b172ff72f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:55 +0000
Subject: [PATCH 23/30] fix: a gateway message with trailing bytes is malformed

---
 .../transport_layer/sample/messages/gateway_messages.cpp        | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
index 6d9dec7..edf5191 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
@@ -48,7 +48,7 @@ bool DeserializeWithTemplate(T& message, score::cpp::span<const std::uint8_t> da
     // NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast) uint8_t and std::byte have same representation
     score::cpp::span<const std::byte> span(reinterpret_cast<const std::byte*>(data.data()), data.size());
     auto result = gateway::Deserialize(message, span);
-    return result.has_value();
+    return result.has_value() && (result.value() == data.size());
 }
 
 }  // namespace
-- 
2.43.0


From 9a926422ca62c3c627a0db5b72a44f107f9ca477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:33:55 +0000
Subject: [PATCH 24/30] fix: a provide service request carries the names of its
 elements

---
 .../sample/messages/gateway_messages.cpp      | 15 +++++++-
 .../sample/messages/gateway_messages.h        | 36 ++++++++++++++++---
 2 files changed, 46 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
index edf5191..c128776 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.cpp
@@ -60,7 +60,20 @@ std::size_t ProvideServiceRequest::Serialize(score::cpp::span<std::uint8_t> buff
 
 bool ProvideServiceRequest::Deserialize(score::cpp::span<const std::uint8_t> data)
 {
-    return DeserializeWithTemplate(*this, data);
+    const bool result = DeserializeWithTemplate(*this, data);
+    UpdateElements();
+    return result;
+}
+
+void ProvideServiceRequest::UpdateElements()
+{
+    elements_.clear();
+    elements_.reserve(element_infos_.size());
+    for (const auto& info : element_infos_)
+    {
+        elements_.push_back(score::mw::com::EventInfo{
+            info.name, {static_cast<std::size_t>(info.size), static_cast<std::size_t>(info.alignment)}});
+    }
 }
 
 std::size_t AckResponse::Serialize(score::cpp::span<std::uint8_t> buffer) const
diff --git a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
index ec05266..21c8674 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
+++ b/score/mw/com/gateway/transport_layer/sample/messages/gateway_messages.h
@@ -25,6 +25,24 @@
 namespace score::mw::com::gateway
 {
 
+/// \brief Service element configuration as it is sent: it owns the element's name.
+struct ServiceElementInfo
+{
+    std::string name{};
+    std::uint64_t size{0U};
+    std::uint64_t alignment{0U};
+
+    std::tuple<const std::string&, const std::uint64_t&, const std::uint64_t&> GetSerializeMembers() const
+    {
+        return {name, size, alignment};
+    }
+
+    std::tuple<std::string&, std::uint64_t&, std::uint64_t&> GetSerializeMembers()
+    {
+        return {name, size, alignment};
+    }
+};
+
 /// \brief Message to propagate service instance metadata (instance specifier + service element configurations)
 /// from the source gateway to the destination gateway. The destination gateway uses this information to create a
 /// (generic) skeleton for the given service instance.
@@ -36,11 +54,11 @@ class ProvideServiceRequest : public TransportMessage
         using SelfNoRef = std::remove_reference_t<Self>;
         using StringType = std::conditional_t<std::is_const_v<SelfNoRef>, const std::string, std::string>;
         using VectorType = std::conditional_t<std::is_const_v<SelfNoRef>,
-                                              const std::vector<score::mw::com::EventInfo>,
-                                              std::vector<score::mw::com::EventInfo>>;
+                                              const std::vector<ServiceElementInfo>,
+                                              std::vector<ServiceElementInfo>>;
         using Uint32Type = std::conditional_t<std::is_const_v<SelfNoRef>, const std::uint32_t, std::uint32_t>;
         return std::tuple<StringType&, VectorType&, Uint32Type&, Uint32Type&>(
-            self.instance_specifier_, self.elements_, self.shm_control_size_, self.shm_data_size_);
+            self.instance_specifier_, self.element_infos_, self.shm_control_size_, self.shm_data_size_);
     }
 
   public:
@@ -52,10 +70,16 @@ class ProvideServiceRequest : public TransportMessage
                           std::uint32_t shm_data_size = 0U)
         : TransportMessage(MessageType::kProvideServiceRequest),
           instance_specifier_(std::string{service_instance_specifier.ToString()}),
-          elements_(std::move(service_elements)),
           shm_control_size_(shm_control_size),
           shm_data_size_(shm_data_size)
     {
+        element_infos_.reserve(service_elements.size());
+        for (const auto& element : service_elements)
+        {
+            element_infos_.push_back(ServiceElementInfo{
+                std::string{element.name}, element.data_type_meta_info.size, element.data_type_meta_info.alignment});
+        }
+        UpdateElements();
     }
 
     std::size_t Serialize(score::cpp::span<std::uint8_t> buffer) const override;
@@ -91,7 +115,11 @@ class ProvideServiceRequest : public TransportMessage
     }
 
   private:
+    /// \brief Makes the elements' names refer to the ones owned by this message.
+    void UpdateElements();
+
     std::string instance_specifier_;
+    std::vector<ServiceElementInfo> element_infos_;
     std::vector<score::mw::com::EventInfo> elements_;
     std::uint32_t shm_control_size_{0U};
     std::uint32_t shm_data_size_{0U};
-- 
2.43.0


From 9fbff9e54deeccdf718b2811b7d36f18d03c3230 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:05:32 +0000
Subject: [PATCH 25/30] fix: Shutdown of a gateway transport does not lose the
 wakeup of its dispatch thread

---
 .../transport_layer/sample/bidirectional_transport.cpp      | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index a700aba..4345655 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -486,7 +486,11 @@ void BidirectionalTransport::Shutdown()
     receive_socket_.ShutdownFd();
     listen_socket_.ShutdownFd();
 
-    dispatch_shutdown_ = true;
+    {
+        // Without the lock the dispatch thread could miss the notification between checking its condition and waiting.
+        std::lock_guard<std::mutex> lock(dispatch_mutex_);
+        dispatch_shutdown_ = true;
+    }
     dispatch_cv_.notify_all();
 
     threads_.Shutdown();
-- 
2.43.0


From a91baaa17852f5fc89fc14fe9a41e2b158c14fd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:25:11 +0000
Subject: [PATCH 26/30] fix: Shutdown of a gateway transport ends a connection
 which is just being established

---
 .../sample/bidirectional_transport.cpp           | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
index 4345655..2f5e4ee 100644
--- a/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
+++ b/score/mw/com/gateway/transport_layer/sample/bidirectional_transport.cpp
@@ -224,6 +224,12 @@ void BidirectionalTransport::ConnectionLoop(score::cpp::stop_token stop_token)
         }
 
         is_connected_ = true;
+        if (dispatch_shutdown_)
+        {
+            // Shutdown() might have been too early to shut down the sockets which have just been set up.
+            CleanupSocketsForReconnection();
+            break;
+        }
         ReceiveUntilDisconnect(stop_token);
 
         CleanupSocketsForReconnection();
@@ -478,6 +484,11 @@ bool BidirectionalTransport::IsConnected() const
 
 void BidirectionalTransport::Shutdown()
 {
+    {
+        // Without the lock the dispatch thread could miss the notification between checking its condition and waiting.
+        std::lock_guard<std::mutex> lock(dispatch_mutex_);
+        dispatch_shutdown_ = true;
+    }
     is_connected_ = false;
 
     pending_tracker_->NotifyAll();
@@ -486,11 +497,6 @@ void BidirectionalTransport::Shutdown()
     receive_socket_.ShutdownFd();
     listen_socket_.ShutdownFd();
 
-    {
-        // Without the lock the dispatch thread could miss the notification between checking its condition and waiting.
-        std::lock_guard<std::mutex> lock(dispatch_mutex_);
-        dispatch_shutdown_ = true;
-    }
     dispatch_cv_.notify_all();
 
     threads_.Shutdown();
-- 
2.43.0


From 356ea0afe0f169ff505454b25d618423af0fb753 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:03 +0000
Subject: [PATCH 27/30] fix: messages without an instance specifier are
 serialized as before

---
 .../gateway/transport_layer/sample/messages/serialization.h   | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/gateway/transport_layer/sample/messages/serialization.h b/score/mw/com/gateway/transport_layer/sample/messages/serialization.h
index 8b5cda1..c5b6be1 100644
--- a/score/mw/com/gateway/transport_layer/sample/messages/serialization.h
+++ b/score/mw/com/gateway/transport_layer/sample/messages/serialization.h
@@ -138,8 +138,8 @@ score::Result<uint32_t> Deserialize(T& value, score::cpp::span<const std::byte>
 template <typename T>
 score::Result<uint32_t> Serialize(const T& string, score::cpp::span<std::byte> target_buffer, std_string_tag)
 {
-    // Deserialize() takes neither an empty string nor what follows a null terminator
-    if (string.empty() || (string.find('\0') != std::string::npos))
+    // Deserialize() would take the string for shorter than it is
+    if (string.find('\0') != std::string::npos)
     {
         return score::MakeUnexpected(score::mw::com::gateway::MessageErrorc::kPayloadInvalid);
     }
-- 
2.43.0


From 46c25ba2681e2eaf74a38d2b3ab9cc9992f808a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:31:43 +0000
Subject: [PATCH 28/30] fix: a service can be offered again after it was
 withdrawn while proxies were connected

---
 .../mw/com/impl/bindings/lola/skeleton_memory_manager.cpp | 8 +++++++-
 score/mw/com/impl/bindings/lola/skeleton_memory_manager.h | 2 +-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
index dabb70b..3fcd94c 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.cpp
@@ -357,8 +357,14 @@ void SkeletonMemoryManager::RemoveSharedMemory()
     control_asil_resource_.reset();
 }
 
-void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts() const
+void SkeletonMemoryManager::RemoveStaleSharedMemoryArtefacts()
 {
+    // The objects of an earlier offer of this skeleton, which were left in place because proxies still used them, are
+    // stale as well now: they can only be replaced when we do not hold them anymore.
+    storage_resource_.reset();
+    control_qm_resource_.reset();
+    control_asil_resource_.reset();
+
     const auto control_qm_path =
         GetControlChannelShmPath(lola_service_instance_deployment_, QualityType::kASIL_QM, shm_path_builder_);
     const auto control_asil_b_path =
diff --git a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
index 3a596f0..431f434 100644
--- a/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
+++ b/score/mw/com/impl/bindings/lola/skeleton_memory_manager.h
@@ -148,7 +148,7 @@ class SkeletonMemoryManager final
 
     /// \brief Removes stale shared memory artefacts from the filesystem in case a process crashed while creating a
     ///        SharedMemoryResource.
-    void RemoveStaleSharedMemoryArtefacts() const;
+    void RemoveStaleSharedMemoryArtefacts();
 
     /// \brief Cleans up all allocated slots for this SkeletonEvent of any previous running instance
     /// \details Note: Only invoke _after_ a crash was detected!
-- 
2.43.0


From f77abbaa060df7523bf990029988aa4121e0e933 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:47 +0000
Subject: [PATCH 29/30] fix: the handler existence callback is told the status
 which holds after concurrent registrations

---
 .../message_passing_service_instance.cpp      | 117 +++++-------------
 .../message_passing_service_instance.h        |  14 ++-
 2 files changed, 42 insertions(+), 89 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index 5818201..7e17655 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -473,13 +473,6 @@ void MessagePassingServiceInstance::HandleRegisterNotificationMsg(const score::c
     bool already_registered{false};
     bool notify_status_change = false;
 
-    // Check if there are local handlers first (to maintain lock hierarchy: handlers before nodes)
-    std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
-    auto handlers_search = event_update_handlers_.find(elementFqId);
-    const bool has_local_handlers =
-        (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
-    handlers_read_lock.unlock();
-
     // TODO: PMR
     std::unique_lock<std::shared_mutex> write_lock(event_update_interested_nodes_mutex_);
     auto search = event_update_interested_nodes_.find(elementFqId);
@@ -497,9 +490,6 @@ void MessagePassingServiceInstance::HandleRegisterNotificationMsg(const score::c
     }
     write_lock.unlock();
 
-    // Only notify if no local handlers exist
-    notify_status_change = notify_status_change && !has_local_handlers;
-
     if (already_registered)
     {
         score::mw::log::LogWarn("lola")
@@ -511,12 +501,7 @@ void MessagePassingServiceInstance::HandleRegisterNotificationMsg(const score::c
     // This allows SkeletonEvent to start sending NotifyEvent() calls for this event.
     if (notify_status_change)
     {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(elementFqId);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(true);  // Now has handlers
-        }
+        ReportHandlerStatus(elementFqId);
     }
 }
 
@@ -533,25 +518,14 @@ void MessagePassingServiceInstance::HandleUnregisterNotificationMsg(const score:
     bool registration_found{false};
     bool notify_status_change = false;
 
-    // Check if there are local handlers first (to maintain lock hierarchy: handlers before nodes)
-    std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
-    auto handlers_search = event_update_handlers_.find(elementFqId);
-    const bool has_local_handlers =
-        (handlers_search != event_update_handlers_.end()) && (!handlers_search->second.empty());
-    handlers_read_lock.unlock();
-
     std::unique_lock<std::shared_mutex> write_lock(event_update_interested_nodes_mutex_);
     auto search = event_update_interested_nodes_.find(elementFqId);
     if (search != event_update_interested_nodes_.end())
     {
         registration_found = search->second.erase(sender_node_id) == 1U;
 
-        // If this was the last remote node being unregistered, we have a status change only if there are
-        // no local handlers exist.
-        if (registration_found && search->second.empty())
-        {
-            notify_status_change = !has_local_handlers;
-        }
+        // If this was the last remote node being unregistered, the status may have changed
+        notify_status_change = registration_found && search->second.empty();
     }
     write_lock.unlock();
 
@@ -566,12 +540,7 @@ void MessagePassingServiceInstance::HandleUnregisterNotificationMsg(const score:
     // This allows SkeletonEvent to skip NotifyEvent() calls for this event to save performance.
     if (notify_status_change)
     {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(elementFqId);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(false);  // No handlers remain
-        }
+        ReportHandlerStatus(elementFqId);
     }
 }
 
@@ -1066,18 +1035,8 @@ IMessagePassingService::HandlerRegistrationNoType MessagePassingServiceInstance:
         result.first->second.push_back(std::move(newHandler));
     }
 
-    // Check if we need to notify about status change (transition from 0 to 1 local handlers)
-    // We only notify if there were no remote handlers either
-    if (was_empty)
-    {
-        std::shared_lock<std::shared_mutex> nodes_read_lock(event_update_interested_nodes_mutex_);
-        auto nodes_search = event_update_interested_nodes_.find(event_id);
-        const bool has_remote_handlers =
-            (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
-        nodes_read_lock.unlock();
-        // Only notify if no remote handlers exist, because only then we have a state change from 0 -> >0.
-        notify_status_change = !has_remote_handlers;
-    }
+    // The status may have changed (transition from 0 to 1 local handlers)
+    notify_status_change = was_empty;
 
     write_lock.unlock();
 
@@ -1090,12 +1049,7 @@ IMessagePassingService::HandlerRegistrationNoType MessagePassingServiceInstance:
     // This allows SkeletonEvent to start sending NotifyEvent() calls for this event.
     if (notify_status_change)
     {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(true);  // Now has handlers
-        }
+        ReportHandlerStatus(event_id);
     }
 
     return registration_no;
@@ -1180,17 +1134,8 @@ void MessagePassingServiceInstance::UnregisterEventNotification(
             score::cpp::ignore = search->second.erase(result);
             found = true;
 
-            // If this was the last local handler, check if remote nodes interested in update notification exist
-            if (search->second.empty())
-            {
-                std::shared_lock<std::shared_mutex> nodes_read_lock(event_update_interested_nodes_mutex_);
-                auto nodes_search = event_update_interested_nodes_.find(event_id);
-                const bool has_remote_handlers =
-                    (nodes_search != event_update_interested_nodes_.end()) && (!nodes_search->second.empty());
-                nodes_read_lock.unlock();
-                // Only notify if no remote handlers exist, because only then we have a state change from >0 -> 0.
-                notify_status_change = !has_remote_handlers;
-            }
+            // If this was the last local handler, the status may have changed
+            notify_status_change = search->second.empty();
         }
     }
     write_lock.unlock();
@@ -1214,12 +1159,7 @@ void MessagePassingServiceInstance::UnregisterEventNotification(
     // This allows SkeletonEvent to skip NotifyEvent() calls for this event to save performance.
     if (notify_status_change)
     {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
-        if (callback_search != handler_status_change_callbacks_.end())
-        {
-            callback_search->second(false);  // No handlers remain
-        }
+        ReportHandlerStatus(event_id);
     }
 }
 
@@ -1469,10 +1409,25 @@ void MessagePassingServiceInstance::RegisterEventNotificationExistenceChangedCal
     IMessagePassingService::HandlerStatusChangeCallback callback) noexcept
 {
     std::unique_lock<std::shared_mutex> write_lock(handler_status_change_callbacks_mutex_);
-    handler_status_change_callbacks_[event_id] = std::move(callback);
+    handler_status_change_callbacks_[event_id] = HandlerStatusChangeListener{std::move(callback), false};
     write_lock.unlock();
 
-    // Check current handler status and invoke callback if handlers already exist
+    // Invokes the callback immediately only if handlers are already registered.
+    // This avoids unnecessary callback invocation when the atomic flags are already initialized to false.
+    ReportHandlerStatus(event_id);
+}
+
+void MessagePassingServiceInstance::ReportHandlerStatus(const ElementFqId event_id) noexcept
+{
+    // The status is determined and reported under one exclusive lock: concurrent changes of the status trigger a report
+    // each, and the report which comes last tells what holds after all of them.
+    std::lock_guard<std::shared_mutex> callback_lock(handler_status_change_callbacks_mutex_);
+    auto callback_search = handler_status_change_callbacks_.find(event_id);
+    if (callback_search == handler_status_change_callbacks_.end())
+    {
+        return;
+    }
+
     std::shared_lock<std::shared_mutex> handlers_read_lock(event_update_handlers_mutex_);
     auto handlers_search = event_update_handlers_.find(event_id);
     const bool has_local_handlers =
@@ -1486,22 +1441,10 @@ void MessagePassingServiceInstance::RegisterEventNotificationExistenceChangedCal
     nodes_read_lock.unlock();
 
     const bool has_any_handlers = has_local_handlers || has_remote_handlers;
-
-    // Invoke the callback immediately only if handlers are already registered.
-    // This avoids unnecessary callback invocation when the atomic flags are already initialized to false.
-    if (has_any_handlers)
+    if (has_any_handlers != callback_search->second.reported_status)
     {
-        std::shared_lock<std::shared_mutex> callback_read_lock(handler_status_change_callbacks_mutex_);
-        auto callback_search = handler_status_change_callbacks_.find(event_id);
-
-        // LCOV_EXCL_BR_START: Defensive programming: false branch is unreachable in practice. The code inserts a
-        // callback into the map, then immediately looks it up. Between these two operations (both protected by
-        // mutexes), there's no way for the callback to be removed.
-        if (callback_search != handler_status_change_callbacks_.end())
-        // LCOV_EXCL_BR_STOP
-        {
-            callback_search->second(true);
-        }
+        callback_search->second.reported_status = has_any_handlers;
+        callback_search->second.callback(has_any_handlers);
     }
 }
 
diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
index f2e1247..19a5860 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.h
@@ -161,6 +161,13 @@ class MessagePassingServiceInstance : public IMessagePassingServiceInstance
         IMessagePassingService::HandlerRegistrationNoType register_no{};
     };
 
+    /// \brief Callback for changes of the handler registration status together with the status it was told last.
+    struct HandlerStatusChangeListener
+    {
+        IMessagePassingService::HandlerStatusChangeCallback callback;
+        bool reported_status{false};
+    };
+
     /// \brief Counter for registered event receive notifications for the given (target) node.
     struct NodeCounter
     {
@@ -219,6 +226,10 @@ class MessagePassingServiceInstance : public IMessagePassingServiceInstance
     void UnregisterEventNotificationRemote(const ElementFqId event_id,
                                            const IMessagePassingService::HandlerRegistrationNoType registration_no,
                                            const pid_t target_node_id) noexcept;
+    /// \brief Tells the callback registered for given event, whether there are (local or remote) handlers for it, if this
+    ///        changed since it was told last.
+    void ReportHandlerStatus(const ElementFqId event_id) noexcept;
+
     void SendRegisterEventNotificationMessage(const ElementFqId event_id, const pid_t target_node_id) noexcept;
 
     score::Result<void> CallSubscribeServiceMethodLocally(
@@ -338,8 +349,7 @@ class MessagePassingServiceInstance : public IMessagePassingServiceInstance
     /// \details This allows SkeletonEvent instances to be notified when they transition from having
     ///          no handlers to having at least one handler (or vice versa), avoiding unnecessary lock
     ///          overhead in the main path when no handlers are registered.
-    std::unordered_map<ElementFqId, IMessagePassingService::HandlerStatusChangeCallback>
-        handler_status_change_callbacks_;
+    std::unordered_map<ElementFqId, HandlerStatusChangeListener> handler_status_change_callbacks_;
 
     std::shared_mutex handler_status_change_callbacks_mutex_;
 
-- 
2.43.0


From 0bf2fa25d4934d6d410aee0eec8a425109df1529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:52:47 +0000
Subject: [PATCH 30/30] fix: registration messages reach the providing node in
 the order of the registrations

---
 .../lola/messaging/message_passing_service_instance.cpp  | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
index 7e17655..945ec0c 100644
--- a/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
+++ b/score/mw/com/impl/bindings/lola/messaging/message_passing_service_instance.cpp
@@ -1094,14 +1094,13 @@ void MessagePassingServiceInstance::ReregisterEventNotification(const ElementFqI
             // absent from the new MISRA 2023 standard, thus it is in general reasonable to deviate from it.
             // coverity[autosar_cpp14_m5_2_10_violation]
             registration_count->second.counter++;
-            remote_reg_write_lock.unlock();
         }
         else
         {
             // we are the 1st proxy to re-register.
             registration_count->second.node_id = target_node_id;
             registration_count->second.counter = 1U;
-            remote_reg_write_lock.unlock();
+            // sent under the lock, so that the node gets the messages in the order of the registrations
             SendRegisterEventNotificationMessage(event_id, target_node_id);
         }
     }
@@ -1297,8 +1296,8 @@ void MessagePassingServiceInstance::RegisterEventNotificationRemote(const Elemen
         }
     }
     const std::uint16_t reg_counter{registration_count_inserted.first->second.counter};
-    remote_reg_write_lock.unlock();
-    // only if the counter of registrations switched to 1, we send a message to the remote node.
+    // only if the counter of registrations switched to 1, we send a message to the remote node. We still hold the lock, so
+    // that the node gets the messages in the order of the registrations.
     if (reg_counter == 1U)
     {
         SendRegisterEventNotificationMessage(event_id, target_node_id);
@@ -1349,9 +1348,9 @@ void MessagePassingServiceInstance::UnregisterEventNotificationRemote(
             send_message = true;
             score::cpp::ignore = event_update_remote_registrations_.erase(registration_count);
         }
-        remote_reg_write_lock.unlock();
     }
 
+    // We still hold the lock, so that the node gets the messages in the order of the registrations.
     if (send_message)
     {
         const auto message =
-- 
2.43.0

