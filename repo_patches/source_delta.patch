From 62f38a165681c5d127fc013d010c2fb3ade7a9a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:20:49 +0000
Subject: [PATCH 01/77] fix: grow the delay line when the latency equals its
 current size

Add() asked Resize() for 'latency' slots although slot indices 0..latency
must be distinct, so a latency equal to the (power of two) size did not grow
the line and Resize() then moved entries past the end of the vector.
---
 mpact/sim/generic/delay_line.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/delay_line.h b/mpact/sim/generic/delay_line.h
index ceaf6d7..09dcb13 100644
--- a/mpact/sim/generic/delay_line.h
+++ b/mpact/sim/generic/delay_line.h
@@ -86,7 +86,7 @@ class DelayLine : public DelayLineInterface {
     // absl::MutexLock dl(&delay_line_lock_);
     // If the latency is longer than the delay line, resize the delay line.
     if (latency >= static_cast<int>(delay_line_.size())) {
-      Resize(latency);
+      Resize(static_cast<uint32_t>(latency) + 1);
     }
     int pos = (latency + current_) & mask_;
     delay_line_[pos].emplace_back(args...);
@@ -124,7 +124,7 @@ class DelayLine : public DelayLineInterface {
     // sufficient.
     uint32_t prev_size = delay_line_.size();
 
-    if (min_size < prev_size) {
+    if (min_size <= prev_size) {
       return;
     }
 
-- 
2.43.0


From 5aa3238bb694cc8c1060ac79ba29bf648b83498d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:24:50 +0000
Subject: [PATCH 02/77] fix: empty the large-buffer free lists in
 DataBufferFactory::Clear

The loop copied each bucket, so the deleted buffers stayed on the free list
and were handed out, or deleted, again.
---
 mpact/sim/generic/data_buffer.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/data_buffer.cc b/mpact/sim/generic/data_buffer.cc
index 5482a56..a6c0207 100644
--- a/mpact/sim/generic/data_buffer.cc
+++ b/mpact/sim/generic/data_buffer.cc
@@ -30,7 +30,7 @@ void DataBufferFactory::Clear() {
     }
     short_free_list_[i].clear();
   }
-  for (auto bucket : free_list_) {
+  for (auto& bucket : free_list_) {
     for (auto db : bucket.second) {
       delete db;
     }
-- 
2.43.0


From 704a36c23e4edb764db09c18af83e98a4dca9782 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:53 +0000
Subject: [PATCH 03/77] fix: do not recycle a register's buffer when it is set
 to itself

RegisterBase::SetDataBuffer dropped the old reference before taking the new
one, so setting a register to the buffer it already holds put that buffer on
the free list while the register still used it.
---
 mpact/sim/generic/register.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/register.cc b/mpact/sim/generic/register.cc
index bf7c79a..7031b99 100644
--- a/mpact/sim/generic/register.cc
+++ b/mpact/sim/generic/register.cc
@@ -49,10 +49,11 @@ RegisterBase::~RegisterBase() {
 void RegisterBase::SetDataBuffer(DataBuffer* db) {
   // For now, ignore if the sizes don't match.
   // ABSL_HARDENING_ASSERT(db->size<uint8_t>() == size());
+  // Take the new reference first, as db may be the current data buffer.
+  db->IncRef();
   if (nullptr != data_buffer_) {
     data_buffer_->DecRef();
   }
-  db->IncRef();
   data_buffer_ = db;
 }
 
-- 
2.43.0


From 27e1bbebe8ed424dc0f9e8b195d8953803506a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:25:58 +0000
Subject: [PATCH 04/77] fix: a data buffer without a destination is released by
 Submit

destination_ was never initialised and survived recycling, so Submit()'s
check for 'no destination' read an indeterminate or stale pointer.
---
 mpact/sim/generic/data_buffer.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/data_buffer.h b/mpact/sim/generic/data_buffer.h
index e06dcf4..8348174 100644
--- a/mpact/sim/generic/data_buffer.h
+++ b/mpact/sim/generic/data_buffer.h
@@ -270,9 +270,9 @@ class DataBuffer : public ReferenceCount {
  private:
   explicit DataBuffer(unsigned size);
   DataBufferFactory* db_factory_;
-  DataBufferDelayLine* delay_line_;
-  DataBufferDestination* destination_;
-  int latency_;
+  DataBufferDelayLine* delay_line_ = nullptr;
+  DataBufferDestination* destination_ = nullptr;
+  int latency_ = 0;
   unsigned size_;
   void* raw_ptr_;
 };
@@ -307,6 +307,8 @@ class DataBufferDelayRecord {
 // This method is only call from DataBuffer instance, so no need to check for
 // db == nullptr.
 inline void DataBufferFactory::Recycle(DataBuffer* db) {
+  // The next user of the buffer must not inherit where this one was going.
+  db->destination_ = nullptr;
   int size = db->size<uint8_t>();
   if (size <= kShortSize) {
     short_free_list_[size].push_back(db);
-- 
2.43.0


From 4e8539a45be12161334f4fc6b69aabbbeb08f378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:22 +0000
Subject: [PATCH 05/77] fix: a resource operand with latency 0 releases
 immediately

Acquire() entered the release in the delay line with latency 0, which is the
slot that was just processed, so the resources stayed reserved for a full
turn of the line.
---
 mpact/sim/generic/simple_resource_operand.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/simple_resource_operand.h b/mpact/sim/generic/simple_resource_operand.h
index 9b6f9b9..bff272d 100644
--- a/mpact/sim/generic/simple_resource_operand.h
+++ b/mpact/sim/generic/simple_resource_operand.h
@@ -80,8 +80,8 @@ class SimpleResourceOperand : public ResourceOperandInterface {
 
   void Acquire() override {
     resource_set_->Acquire();
-    // Schedule release
-    delay_line_->Add(latency_, resource_set_);
+    // Schedule release (immediate if the latency is 0).
+    Release(latency_);
   }
 
   std::string AsString() const override { return resource_set_->AsString(); }
-- 
2.43.0


From 3ccafff5aebf687742bed29d34cd84d37de1a1e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:28:43 +0000
Subject: [PATCH 06/77] fix: ResourceBitSet grows for the first bit past its
 end

Set() compared the word index with '>' and resized to 'position' bits, so the
first bit of the next word was written past the array; self assignment read
the deleted array.
---
 mpact/sim/generic/resource_bitset.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/resource_bitset.cc b/mpact/sim/generic/resource_bitset.cc
index 41986ac..5d42bec 100644
--- a/mpact/sim/generic/resource_bitset.cc
+++ b/mpact/sim/generic/resource_bitset.cc
@@ -43,6 +43,7 @@ ResourceBitSet::ResourceBitSet(ResourceBitSet&& rhs) {
 }
 
 ResourceBitSet& ResourceBitSet::operator=(const ResourceBitSet& rhs) {
+  if (this == &rhs) return *this;
   delete[] bits_;
   size_ = rhs.size_;
   bits_ = new UInt[size_];
@@ -58,7 +59,7 @@ ResourceBitSet::~ResourceBitSet() {
 void ResourceBitSet::Set(int position) {
   auto word = position / kBitsInUint;
   auto bit = position % kBitsInUint;
-  if (word > size_) Resize(position);
+  if (word >= size_) Resize(position + 1);
   bits_[word] |= static_cast<UInt>(1) << bit;
 }
 
-- 
2.43.0


From 7295c381ac306a1c2f84c5cf6b07909a982f3a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:56 +0000
Subject: [PATCH 07/77] fix: reserve complex resource cycles in a partially
 used last word

The mask of the last word kept its high order bits, although cycles count
from the lsb, so for a depth that is not a multiple of 64 the cycles in the
last word could never be reserved.
---
 mpact/sim/generic/complex_resource.cc | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/generic/complex_resource.cc b/mpact/sim/generic/complex_resource.cc
index bcefed9..ac73287 100644
--- a/mpact/sim/generic/complex_resource.cc
+++ b/mpact/sim/generic/complex_resource.cc
@@ -37,12 +37,10 @@ ComplexResource::ComplexResource(ArchState* state, std::string name,
   bit_array_ = new uint64_t[array_size_];
   memset(bit_array_, 0, 8 * array_size_);
   mask_array_ = new uint64_t[array_size_];
+  // The cycles in the array are counted from the lsb, so the bits of the last
+  // word that are outside the cycle depth are its high order bits. They are
+  // kept, so the vector covers the cycle depth rounded up to whole words.
   memset(mask_array_, 0xff, 8 * array_size_);
-  size_t mod = cycle_depth_ & kLowBitMask;
-  if (mod > 0) {
-    // Clear bits outside the cycle_depth from the last mask.
-    mask_array_[array_size_ - 1] <<= kNumBitsPerWord - mod;
-  }
 }
 
 ComplexResource::~ComplexResource() {
-- 
2.43.0


From d3f67d0d0a8fb847c2639d9aac64532aac2b2165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:29:56 +0000
Subject: [PATCH 08/77] fix: size and validate the cycle mask of a complex
 resource operand

The array was one word short when the end cycle is a multiple of 64 (written
past its end); the depth check looked at the last word of the span even when
it is not the last word of the resource, refused every mask when the depth is
a multiple of 64, and a refused mask left its size behind.
---
 mpact/sim/generic/complex_resource_operand.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/complex_resource_operand.cc b/mpact/sim/generic/complex_resource_operand.cc
index a2413e4..eb54dd7 100644
--- a/mpact/sim/generic/complex_resource_operand.cc
+++ b/mpact/sim/generic/complex_resource_operand.cc
@@ -47,7 +47,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(size_t begin, size_t end) {
         end, ") is greater than cycle depth (", resource_->cycle_depth()));
   }
   // Compute the size of the array needed.
-  span_size_ = (end + 63) / 64;
+  span_size_ = end / 64 + 1;
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and clear the bytes.
@@ -73,10 +73,10 @@ absl::Status ComplexResourceOperand::SetCycleMask(
     return absl::InvalidArgumentError("Span too long for cycle mask");
   }
 
-  span_size_ = span.size();
   // See if there are any bits set beyond the cycle depth of the resource.
   size_t mod = resource_->cycle_depth() & 0x3f;
-  if (span[span_size_ - 1] >> mod) {
+  if ((mod != 0) && !span.empty() &&
+      (span.size() == resource_->bit_array().size()) && (span.back() >> mod)) {
     return absl::InvalidArgumentError(
         absl::StrCat("Bits set beyond the cycle depth of resource '",
                      resource_->name(), "'"));
@@ -92,6 +92,7 @@ absl::Status ComplexResourceOperand::SetCycleMask(
   // Delete any previous allocation.
   delete[] bit_array_;
   // Allocate the array and copy the span.
+  span_size_ = span.size();
   bit_array_ = new uint64_t[span_size_];
   for (int i = 0; i < span_size_; i++) {
     bit_array_[i] = span[i];
-- 
2.43.0


From 094192b9cbd13344c3fe6590fb9f1a0f1c762541 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:28 +0000
Subject: [PATCH 09/77] fix: token fifo respects its depth and loses no tokens
 on refused operations

---
 mpact/sim/generic/token_fifo.cc | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 978d62d..657672f 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -52,7 +52,7 @@ TokenFifoBase::TokenFifoBase(ArchState* arch_state, absl::string_view name,
 
 // The fifo is full if it is at capacity or if there are no token available.
 bool TokenFifoBase::IsFull() const {
-  return (token_store_->available() == 0) ||
+  return FifoBase::IsFull() || (token_store_->available() == 0) ||
          (Reserved() >= token_store_->available());
 }
 
@@ -67,7 +67,8 @@ bool TokenFifoBase::Push(DataBuffer* db) {
     }
     return false;
   }
-  FifoBase::Push(db);
+  // A push that is refused does not consume a token.
+  if (!FifoBase::Push(db)) return false;
   // Acquire a token. There is an error if the fifo is not full but a token
   // cannot be acquired.
   if (!token_store_->Acquire().ok()) {
@@ -81,7 +82,8 @@ bool TokenFifoBase::Push(DataBuffer* db) {
 }
 
 void TokenFifoBase::Pop() {
-  if (IsEmpty()) {
+  // Reservations hold no value (nor token), so they cannot be popped.
+  if (Available() == 0) {
     if (underflow_program_error() != nullptr) {
       underflow_program_error()->Raise("Underflow in " + name());
     }
-- 
2.43.0


From c2ed3205da775a3cac33b3b192050570d8907e07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:39:28 +0000
Subject: [PATCH 10/77] fix: fifo notifications follow the stored values

---
 mpact/sim/generic/fifo_with_notify.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/generic/fifo_with_notify.cc b/mpact/sim/generic/fifo_with_notify.cc
index a4e1db6..16c0b79 100644
--- a/mpact/sim/generic/fifo_with_notify.cc
+++ b/mpact/sim/generic/fifo_with_notify.cc
@@ -26,18 +26,19 @@ namespace generic {
 // Call base class Push. Only call the on_not_empty callback if the fifo is
 // empty prior to pushing.
 bool FifoWithNotifyBase::Push(DataBuffer* db) {
-  if (!IsEmpty()) return FifoBase::Push(db);
-
+  // Reserved slots hold no value, so they are not considered here.
+  bool was_empty = Available() == 0;
   auto res = FifoBase::Push(db);
-  if (on_not_empty_) on_not_empty_(this);
+  if (res && was_empty && on_not_empty_) on_not_empty_(this);
   return res;
 }
 
 // Call base class Pop. Only call the on_empty callback if the fifo is empty
 // after the pop.
 void FifoWithNotifyBase::Pop() {
+  bool was_empty = Available() == 0;
   FifoBase::Pop();
-  if (IsEmpty() && on_empty_) on_empty_(this);
+  if (!was_empty && Available() == 0 && on_empty_) on_empty_(this);
 }
 
 void FifoWithNotifyBase::SetOnNotEmpty(OnEventCallback callback) {
-- 
2.43.0


From fff127a0f532131b80d2f13e9e852317a1e95dab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:45:19 +0000
Subject: [PATCH 11/77] fix: writing to a status register does not release the
 buffer twice

---
 mpact/sim/generic/status_register.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/status_register.h b/mpact/sim/generic/status_register.h
index e607e95..b563544 100644
--- a/mpact/sim/generic/status_register.h
+++ b/mpact/sim/generic/status_register.h
@@ -60,8 +60,8 @@ class StatusRegisterBase : public StateItemBase {
   T Read(T mask);
 
   void SetDataBuffer(DataBuffer* db) override {
-    // Read only state item, so just decrement the ref count and ignore.
-    db->DecRef();
+    // Read only state item, so just ignore the write. The reference to the data
+    // buffer is still held (and will be released) by the caller.
   }
 
   void SetEvaluateFunction(int position, Evaluate eval) {
-- 
2.43.0


From c15223700a99b598f7cb0aed75af6d91c3123a66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:39 +0000
Subject: [PATCH 12/77] fix: DecodeCache::InvalidateRange covers unaligned,
 long and top-of-memory ranges

The loop stepped from an unaligned start, so it missed cached addresses; wrapped
at the top of the address space; and deleting a cache whose creation failed
dereferenced the null entry array.
---
 mpact/sim/generic/decode_cache.cc | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index bbb9a6e..25971f9 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -94,6 +94,7 @@ Instruction* DecodeCache::GetDecodedInstruction(uint64_t address) {
 }
 
 void DecodeCache::Invalidate(uint64_t address) {
+  if (nullptr == instruction_cache_) return;
   uint64_t entry = (address & address_mask_) >> address_shift_;
   Instruction* inst = instruction_cache_[entry];
   if ((nullptr != inst) && (inst->address() == address)) {
@@ -104,12 +105,28 @@ void DecodeCache::Invalidate(uint64_t address) {
 
 void DecodeCache::InvalidateRange(uint64_t start_address,
                                   uint64_t end_address) {
-  for (auto loc = start_address; loc < end_address; loc += address_inc_) {
-    Invalidate(loc);
+  if (nullptr == instruction_cache_) return;
+  if (end_address <= start_address) return;
+  // Visit each cache entry that an address in the range maps to (at most once),
+  // including those the range covers only in part, and remove the instruction
+  // if its address is in the range.
+  uint64_t first = start_address >> address_shift_;
+  uint64_t last = (end_address - 1) >> address_shift_;
+  uint64_t count = last - first;
+  if (count >= static_cast<uint64_t>(num_entries_)) count = num_entries_ - 1;
+  for (uint64_t i = 0; i <= count; ++i) {
+    uint64_t entry = (first + i) & (num_entries_ - 1);
+    Instruction* inst = instruction_cache_[entry];
+    if ((nullptr != inst) && (inst->address() >= start_address) &&
+        (inst->address() < end_address)) {
+      inst->DecRef();
+      instruction_cache_[entry] = nullptr;
+    }
   }
 }
 
 void DecodeCache::InvalidateAll() {
+  if (nullptr == instruction_cache_) return;
   for (int entry = 0; entry < num_entries_; ++entry) {
     if (instruction_cache_[entry] != nullptr) {
       instruction_cache_[entry]->DecRef();
-- 
2.43.0


From 50d55da1573b070b9fea4676c1bcae5f25ddf833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:55:39 +0000
Subject: [PATCH 13/77] fix: Instruction::SetAttributes frees the attribute
 array with delete[]

---
 mpact/sim/generic/instruction.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 6ba87f4..885d24e 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -112,7 +112,7 @@ Instruction::~Instruction() {
 std::string Instruction::AsString() const { return disasm_string_; }
 
 void Instruction::SetAttributes(absl::Span<const int> attributes) {
-  delete attribute_array_;
+  delete[] attribute_array_;
   attribute_array_ = new int[attributes.size()];
   std::memcpy(attribute_array_, attributes.data(),
               attributes.size() * sizeof(int));
-- 
2.43.0


From 930da1139514e399091b31415e8c7b9ff7bab610 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:57:11 +0000
Subject: [PATCH 14/77] fix: Instruction destruction detaches every child and
 only its own link

Destroying a non-first child cleared the parent's child list, and only the first
child's parent pointer was cleared when the parent went away.
---
 mpact/sim/generic/instruction.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/generic/instruction.cc b/mpact/sim/generic/instruction.cc
index 885d24e..39dcfe7 100644
--- a/mpact/sim/generic/instruction.cc
+++ b/mpact/sim/generic/instruction.cc
@@ -94,7 +94,7 @@ Instruction::~Instruction() {
     delete op;
   }
   resource_acquire_.clear();
-  if (parent_ != nullptr) {
+  if ((parent_ != nullptr) && (parent_->child_ == this)) {
     // remove reference to this from the parent
     parent_->child_ = nullptr;
   }
@@ -103,7 +103,10 @@ Instruction::~Instruction() {
     next_ = nullptr;
   }
   if (child_ != nullptr) {
-    child_->parent_ = nullptr;
+    // Every child on the list refers to this instruction, not just the first.
+    for (auto* inst = child_; inst != nullptr; inst = inst->next_) {
+      if (inst->parent_ == this) inst->parent_ = nullptr;
+    }
     child_->DecRef();
     child_ = nullptr;
   }
-- 
2.43.0


From 55348ab44b6d01e7fae2c563010c7aaf64d035b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:19 +0000
Subject: [PATCH 15/77] fix: PerformActions takes no action for an address
 without an action point

---
 mpact/sim/generic/action_point_manager_base.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index ea53a81..f5b0360 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -190,6 +190,7 @@ void ActionPointManagerBase::PerformActions(uint64_t address) {
   if (it == action_point_map_.end()) {
     LOG(ERROR) << absl::StrCat("No action point found at: ",
                                absl::Hex(address));
+    return;
   }
 
   for (auto& [id, action_ptr] : it->second->action_map) {
-- 
2.43.0


From a6762a041b444186b68065437b60be1cc14c8f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:22 +0000
Subject: [PATCH 16/77] fix: a failed instruction write leaves an action point
 unchanged

Clear, enable and disable updated the action before writing memory, so that a
failed write left the action and the instruction in memory at odds, with no way
to retry.
---
 .../sim/generic/action_point_manager_base.cc  | 32 +++++++++++--------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index f5b0360..f58cbbe 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -86,16 +86,18 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
     return absl::NotFoundError(
         absl::StrCat("No action ", id, "found at: ", absl::Hex(address)));
   }
-  // Remove the action.
   auto* action_info = action_it->second;
-  ap->action_map.erase(action_it);
-  ap->num_active -= action_info->is_enabled ? 1 : 0;
-  delete action_info;
+  int num_active = ap->num_active - (action_info->is_enabled ? 1 : 0);
   // If there are no other active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  // Do this first, so that the action is kept if the write fails.
+  if (num_active == 0) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Remove the action.
+  ap->action_map.erase(action_it);
+  ap->num_active = num_active;
+  delete action_info;
   return absl::OkStatus();
 }
 
@@ -115,13 +117,14 @@ absl::Status ActionPointManagerBase::EnableAction(uint64_t address, int id) {
   }
   // If it is already enabled, return ok.
   if (action_it->second->is_enabled) return absl::OkStatus();
-  action_it->second->is_enabled = true;
-  ap->num_active++;
-  // If there is only one active action (this), write a breakpoint instruction.
-  if (ap->num_active == 1) {
+  // If this is the first active action, write a breakpoint instruction. The
+  // action stays disabled if the write fails.
+  if (ap->num_active == 0) {
     auto status = ap_memory_interface_->WriteBreakpointInstruction(address);
     if (!status.ok()) return status;
   }
+  action_it->second->is_enabled = true;
+  ap->num_active++;
   return absl::OkStatus();
 }
 
@@ -141,14 +144,15 @@ absl::Status ActionPointManagerBase::DisableAction(uint64_t address, int id) {
   }
   // If it is already disabled, return ok.
   if (!action_it->second->is_enabled) return absl::OkStatus();
-  // Disable the action.
-  action_it->second->is_enabled = false;
-  ap->num_active--;
-  // If there are no active actions, write back the original instruction.
-  if (ap->num_active == 0) {
+  // If there are no other active actions, write back the original instruction.
+  // The action stays enabled if the write fails.
+  if (ap->num_active == 1) {
     auto status = ap_memory_interface_->WriteOriginalInstruction(address);
     if (!status.ok()) return status;
   }
+  // Disable the action.
+  action_it->second->is_enabled = false;
+  ap->num_active--;
   return absl::OkStatus();
 }
 
-- 
2.43.0


From 8934080fd9fe9e1b43ee48e61db18087b96fad35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:00:46 +0000
Subject: [PATCH 17/77] fix: actions may set and clear action points while they
 run

PerformActions iterated over the map that a running action could change, and
freed the function object of an action that cleared itself.
---
 .../sim/generic/action_point_manager_base.cc  | 26 ++++++++++++-------
 mpact/sim/generic/action_point_manager_base.h |  3 ++-
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index f58cbbe..399aef6 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -15,7 +15,9 @@
 #include "mpact/sim/generic/action_point_manager_base.h"
 
 #include <cstdint>
+#include <memory>
 #include <utility>
+#include <vector>
 
 #include "absl/log/log.h"
 #include "absl/status/status.h"
@@ -32,7 +34,6 @@ ActionPointManagerBase::~ActionPointManagerBase() {
   for (auto& [unused, ap_ptr] : action_point_map_) {
     for (auto& [unused, ai_ptr] : ap_ptr->action_map) {
       ai_ptr->action_fcn = nullptr;
-      delete ai_ptr;
     }
     ap_ptr->action_map.clear();
     delete ap_ptr;
@@ -65,8 +66,8 @@ absl::StatusOr<int> ActionPointManagerBase::SetAction(uint64_t address,
   }
   // Add the function as an enabled action.
   int id = ap->next_id++;
-  auto* action_info =
-      new ActionInfo(std::move(action_fcn), /*is_enabled=*/true);
+  auto action_info =
+      std::make_shared<ActionInfo>(std::move(action_fcn), /*is_enabled=*/true);
   ap->action_map.insert(std::make_pair(id, action_info));
   ap->num_active++;
   return id;
@@ -86,7 +87,7 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
     return absl::NotFoundError(
         absl::StrCat("No action ", id, "found at: ", absl::Hex(address)));
   }
-  auto* action_info = action_it->second;
+  auto& action_info = action_it->second;
   int num_active = ap->num_active - (action_info->is_enabled ? 1 : 0);
   // If there are no other active actions, write back the original instruction.
   // Do this first, so that the action is kept if the write fails.
@@ -97,7 +98,6 @@ absl::Status ActionPointManagerBase::ClearAction(uint64_t address, int id) {
   // Remove the action.
   ap->action_map.erase(action_it);
   ap->num_active = num_active;
-  delete action_info;
   return absl::OkStatus();
 }
 
@@ -179,9 +179,6 @@ bool ActionPointManagerBase::IsActionEnabled(uint64_t address, int id) const {
 
 void ActionPointManagerBase::ClearAllActionPoints() {
   for (auto& [address, ap_ptr] : action_point_map_) {
-    for (auto& [unused, action_ptr] : ap_ptr->action_map) {
-      delete action_ptr;
-    }
     ap_ptr->action_map.clear();
     (void)ap_memory_interface_->WriteOriginalInstruction(ap_ptr->address);
     delete ap_ptr;
@@ -197,7 +194,18 @@ void ActionPointManagerBase::PerformActions(uint64_t address) {
     return;
   }
 
-  for (auto& [id, action_ptr] : it->second->action_map) {
+  // An action may set or clear action points, including itself, so iterate over
+  // a copy that keeps the actions alive, and look each one up again.
+  std::vector<std::pair<int, std::shared_ptr<ActionInfo>>> actions(
+      it->second->action_map.begin(), it->second->action_map.end());
+  for (auto& [id, action_ptr] : actions) {
+    it = action_point_map_.find(address);
+    if (it == action_point_map_.end()) return;
+    auto action_it = it->second->action_map.find(id);
+    if ((action_it == it->second->action_map.end()) ||
+        (action_it->second != action_ptr)) {
+      continue;
+    }
     if (action_ptr->is_enabled) action_ptr->action_fcn(address, id);
   }
 }
diff --git a/mpact/sim/generic/action_point_manager_base.h b/mpact/sim/generic/action_point_manager_base.h
index 798c461..9b7b9b6 100644
--- a/mpact/sim/generic/action_point_manager_base.h
+++ b/mpact/sim/generic/action_point_manager_base.h
@@ -16,6 +16,7 @@
 #define MPACT_SIM_GENERIC_ACTION_POINT_MANAGER_BASE_H_
 
 #include <cstdint>
+#include <memory>
 #include <utility>
 
 #include "absl/container/btree_map.h"
@@ -112,7 +113,7 @@ class ActionPointManagerBase {
     // Number of 'actions' that are enabled.
     int num_active = 0;
     // Map from id to action function struct.
-    absl::btree_map<int, ActionInfo*> action_map;
+    absl::btree_map<int, std::shared_ptr<ActionInfo>> action_map;
     ActionPointInfo(uint64_t address) : address(address) {}
   };
 
-- 
2.43.0


From 4477b2852d423bffd6c44005771d6ec966f7c6b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:41 +0000
Subject: [PATCH 18/77] fix: a tag-only load from untagged memory completes its
 instruction

---
 .../tagged_to_untagged_memory_transactor.cc   | 20 ++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
index ed08831..7970612 100644
--- a/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
+++ b/mpact/sim/util/memory/tagged_to_untagged_memory_transactor.cc
@@ -61,7 +61,25 @@ void TaggedToUntaggedMemoryTransactor::Load(uint64_t address, DataBuffer* db,
                                             DataBuffer* tags, Instruction* inst,
                                             ReferenceCount* context) {
   std::memset(tags->raw_ptr(), 0, tags->size<uint8_t>());
-  if (db == nullptr) return;
+  if (db == nullptr) {
+    // This is a load of tags only, so there is no access to the target memory,
+    // but the load still has to be completed.
+    if (inst == nullptr) return;
+    if (tags->latency() == 0) {
+      inst->Execute(context);
+      return;
+    }
+    inst->IncRef();
+    if (context != nullptr) context->IncRef();
+    inst->state()->function_delay_line()->Add(tags->latency(),
+                                              [inst, context]() {
+                                                inst->Execute(context);
+                                                if (context != nullptr)
+                                                  context->DecRef();
+                                                inst->DecRef();
+                                              });
+    return;
+  }
   target_mem_->Load(address, db, inst, context);
 }
 
-- 
2.43.0


From d741c7fdcf144d51af2c49140656e648d2d0f32c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:10:18 +0000
Subject: [PATCH 19/77] fix: FlatDemandMemory with a base address and no size
 spans the rest of the address space

The maximum address overflowed, so every access was out of bounds.
---
 mpact/sim/util/memory/flat_demand_memory.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index 841d85f..e277e4d 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -32,7 +32,10 @@ FlatDemandMemory::FlatDemandMemory(uint64_t memory_size_in_units,
                                    uint64_t base_address,
                                    unsigned addressable_unit_size, uint8_t fill)
     : base_address_(base_address),
-      max_address_(base_address + memory_size_in_units),
+      // The memory ends at the top of the address space if the size exceeds
+      // what is left of it above the base address.
+      max_address_(base_address +
+                   std::min(memory_size_in_units, ~base_address)),
       fill_value_(fill),
       allocation_byte_size_(kAllocationSize * addressable_unit_size) {
   // Compute the addressable unit shift.
-- 
2.43.0


From 94b25500f6c7ff57e34a2868174f8c2b309b2b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:11:09 +0000
Subject: [PATCH 20/77] fix: unit-stride accesses advance by addressable units,
 not bytes

---
 mpact/sim/util/memory/flat_demand_memory.cc |  5 +++--
 mpact/sim/util/memory/flat_memory.h         | 12 ++++++++++--
 2 files changed, 13 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_demand_memory.cc b/mpact/sim/util/memory/flat_demand_memory.cc
index e277e4d..d6ccd03 100644
--- a/mpact/sim/util/memory/flat_demand_memory.cc
+++ b/mpact/sim/util/memory/flat_demand_memory.cc
@@ -100,7 +100,8 @@ void FlatDemandMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
   bool gather = address_span.size() > 1;
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
-    uint64_t address = gather ? address_span[i] : address_span[0] + i * el_size;
+    uint64_t address =
+        gather ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
@@ -163,7 +164,7 @@ void FlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
   for (unsigned i = 0; i < mask_span.size(); i++) {
     if (!mask_span[i]) continue;
     uint64_t address =
-        scatter ? address_span[i] : address_span[0] + i * el_size;
+        scatter ? address_span[i] : address_span[0] + i * size_in_units;
     uint64_t high = address + size_in_units;
     if (address < base_address_ || high > max_address_) [[unlikely]] {
       LOG(ERROR) << absl::StrFormat(
diff --git a/mpact/sim/util/memory/flat_memory.h b/mpact/sim/util/memory/flat_memory.h
index b51c3d8..ba614b5 100644
--- a/mpact/sim/util/memory/flat_memory.h
+++ b/mpact/sim/util/memory/flat_memory.h
@@ -15,6 +15,7 @@
 #ifndef MPACT_SIM_UTIL_MEMORY_FLAT_MEMORY_H_
 #define MPACT_SIM_UTIL_MEMORY_FLAT_MEMORY_H_
 
+#include <algorithm>
 #include <cstdint>
 
 #include "mpact/sim/generic/instruction.h"
@@ -101,6 +102,11 @@ class FlatMemory : public MemoryInterface {
   int shift() const { return shift_; }
 
  private:
+  // The number of addressable units taken up by an element of the given size.
+  uint64_t UnitsPerElement(uint64_t el_size) const {
+    return std::max<uint64_t>(1, el_size >> shift_);
+  }
+
   // Private helper function used for copying data from memory to the
   // databuffer for the vector gather load.
   template <typename T>
@@ -112,7 +118,8 @@ class FlatMemory : public MemoryInterface {
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry]
+                   : addresses[0] + entry * UnitsPerElement(sizeof(T));
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
@@ -132,7 +139,8 @@ class FlatMemory : public MemoryInterface {
     for (int entry = 0; entry < max; entry++) {
       if (masks[entry]) {
         uint64_t address =
-            gather ? addresses[entry] : addresses[0] + entry * sizeof(T);
+            gather ? addresses[entry]
+                   : addresses[0] + entry * UnitsPerElement(sizeof(T));
         ABSL_HARDENING_ASSERT(address >= base_);
         uint64_t offset = (address - base_) << shift_;
         ABSL_HARDENING_ASSERT(offset + sizeof(T) <= size_);
-- 
2.43.0


From c41d468f96c58117d4d10854fe8baa6c675ef310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:12:10 +0000
Subject: [PATCH 21/77] fix: FlatMemory keeps the instruction alive until a
 delayed load completes

---
 mpact/sim/util/memory/flat_memory.cc | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/flat_memory.cc b/mpact/sim/util/memory/flat_memory.cc
index a3ceee6..d84df06 100644
--- a/mpact/sim/util/memory/flat_memory.cc
+++ b/mpact/sim/util/memory/flat_memory.cc
@@ -33,14 +33,16 @@ void FlatMemory::Load(uint64_t address, DataBuffer* db, Instruction* inst,
   db->CopyFrom(ptr);
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef the instruction, and the context if it is non-null,
+      // before storing them in the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
@@ -72,14 +74,16 @@ void FlatMemory::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
   }
   if (nullptr != inst) {
     if (db->latency() > 0) {
-      // If the context is non-null, need to IncRef it before storing it in the
-      // lambda.
+      // Need to IncRef the instruction, and the context if it is non-null,
+      // before storing them in the lambda.
+      inst->IncRef();
       if (context != nullptr) context->IncRef();
       inst->state()->function_delay_line()->Add(db->latency(),
                                                 [inst, context]() {
                                                   inst->Execute(context);
                                                   if (context != nullptr)
                                                     context->DecRef();
+                                                  inst->DecRef();
                                                 });
     } else {
       inst->Execute(context);
-- 
2.43.0


From 953334ee878acfac1ccae2302aca13a79f5c1048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:17:34 +0000
Subject: [PATCH 22/77] fix: memory watchers follow unit-stride vector accesses

A vector access with a single (start) address was watched through addresses that
are not there.
---
 mpact/sim/util/memory/memory_watcher.cc        | 8 ++++++--
 mpact/sim/util/memory/tagged_memory_watcher.cc | 8 ++++++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/memory_watcher.cc b/mpact/sim/util/memory/memory_watcher.cc
index 34b7fe5..c75f39f 100644
--- a/mpact/sim/util/memory/memory_watcher.cc
+++ b/mpact/sim/util/memory/memory_watcher.cc
@@ -114,7 +114,9 @@ void MemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address is the start of a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -150,7 +152,9 @@ void MemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address is the start of a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
diff --git a/mpact/sim/util/memory/tagged_memory_watcher.cc b/mpact/sim/util/memory/tagged_memory_watcher.cc
index 2e72efd..660cc9f 100644
--- a/mpact/sim/util/memory/tagged_memory_watcher.cc
+++ b/mpact/sim/util/memory/tagged_memory_watcher.cc
@@ -115,7 +115,9 @@ void TaggedMemoryWatcher::Load(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address is the start of a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = ld_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
@@ -166,7 +168,9 @@ void TaggedMemoryWatcher::Store(DataBuffer* address_db, DataBuffer* mask_db,
     for (int i = 0; i < num_entries; i++) {
       // Need to check each unmasked address.
       if (!masks[i]) continue;
-      uint64_t address = addresses[i];
+      // A single address is the start of a unit stride access.
+      uint64_t address =
+          addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size;
       auto [first_match, last] = st_watch_actions_.equal_range(
           AddressRange(address, address + el_size - 1));
       while (first_match != last) {
-- 
2.43.0


From dde312104becbfdce696c441b93e6fa6e1084479 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:09 +0000
Subject: [PATCH 23/77] fix: untagged vector stores clear the tags of every
 element they write

The tags of a unit-stride store were cleared according to the first mask bit
only, for the whole span, masked-off elements included.
---
 mpact/sim/util/memory/tagged_flat_demand_memory.cc | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/memory/tagged_flat_demand_memory.cc b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
index 2537544..ce01ca4 100644
--- a/mpact/sim/util/memory/tagged_flat_demand_memory.cc
+++ b/mpact/sim/util/memory/tagged_flat_demand_memory.cc
@@ -106,19 +106,21 @@ void TaggedFlatDemandMemory::Store(uint64_t address, DataBuffer* db) {
 // Untagged vector store.
 void TaggedFlatDemandMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db) {
-  unsigned num_stores = address_db->size<uint64_t>();
-  if (num_stores == 0) return;
-  unsigned store_size = db->size<uint8_t>() / num_stores;
+  auto address_span = address_db->Get<uint64_t>();
+  if (address_span.empty()) return;
   auto mask_span = mask_db->Get<bool>();
   // Perform stores.
   data_memory_->Store(address_db, mask_db, el_size, db);
   // With no tag data supplied, clear the tags, however, since this is a non
   // tagged store, we are not guaranteed to have proper alignment. Use the 64
   // bit address version of the Store() call for each set of tags.
-  unsigned index = 0;
-  for (auto address : address_db->Get<uint64_t>()) {
+  // If there is a single address, it is the start of a unit stride store.
+  bool scatter = address_span.size() > 1;
+  for (unsigned i = 0; i < mask_span.size(); i++) {
+    if (!mask_span[i]) continue;
     // Clear any affected tags.
-    if (mask_span[index++]) ClearTags(address, store_size);
+    ClearTags(scatter ? address_span[i] : address_span[0] + i * el_size,
+              el_size);
   }
 }
 
-- 
2.43.0


From 0a725cee51846c0eada37465e1bd180df5f8b024 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:18 +0000
Subject: [PATCH 24/77] fix: AtomicTaggedMemory passes the tags of a tagged
 store on to memory

---
 mpact/sim/util/memory/atomic_tagged_memory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 9d43890..7357a06 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -146,7 +146,7 @@ void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
   if (ptr != ll_tag_set_.end()) {
     ll_tag_set_.erase(ptr);
   }
-  tagged_memory_->Store(address, db);
+  tagged_memory_->Store(address, db, tag_db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
-- 
2.43.0


From c9fbdbfe9874838138b4a91c63408098548e7ff1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:18:44 +0000
Subject: [PATCH 25/77] fix: every write breaks the load-linked tags of all the
 granules it touches

Atomic operations left them in place, and stores only removed the tag of their
first granule, or of the first element of a unit-stride store.
---
 mpact/sim/util/memory/atomic_memory.cc        | 32 +++++++++------
 mpact/sim/util/memory/atomic_memory.h         |  2 +
 mpact/sim/util/memory/atomic_tagged_memory.cc | 39 +++++++++++--------
 mpact/sim/util/memory/atomic_tagged_memory.h  |  2 +
 4 files changed, 48 insertions(+), 27 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index b121477..699ee5b 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -132,23 +132,23 @@ void AtomicMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove any matching tags.
+  ClearLinks(address, db->size<uint8_t>());
   memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                          int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove any tags matching the elements that are stored. If there is a single
+  // address, it is the start of a unit stride store.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  for (unsigned i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    ClearLinks(
+        addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size,
+        el_size);
   }
   memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -209,6 +209,8 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
       std::swap(tmp_db->Get<uint64_t>()[0], db->Get<uint64_t>()[0]);
       break;
   }
+  // All the operations below write to memory.
+  ClearLinks(address, el_size);
   if (op == Operation::kAtomicSwap) {
     memory_->Store(address, tmp_db);
     WriteBack(inst, context, db);
@@ -242,6 +244,14 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
   return absl::OkStatus();
 }
 
+void AtomicMemory::ClearLinks(uint64_t address, int size) {
+  if (size <= 0 || ll_tag_set_.empty()) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; ++tag) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 void AtomicMemory::WriteBack(Instruction* inst, ReferenceCount* context,
                              DataBuffer* db) {
   if (inst != nullptr) {
diff --git a/mpact/sim/util/memory/atomic_memory.h b/mpact/sim/util/memory/atomic_memory.h
index 1864787..247381e 100644
--- a/mpact/sim/util/memory/atomic_memory.h
+++ b/mpact/sim/util/memory/atomic_memory.h
@@ -74,6 +74,8 @@ class AtomicMemory : public MemoryInterface, public AtomicMemoryOpInterface {
 
  private:
   static constexpr int kTagShift = 3;
+  // Remove the load linked tags of the given range of memory.
+  void ClearLinks(uint64_t address, int size);
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
   // Returns the db of the given size.
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 7357a06..b15ea88 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -141,33 +141,30 @@ void AtomicTaggedMemory::Load(DataBuffer* address_db, DataBuffer* mask_db,
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db,
                                DataBuffer* tag_db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove any matching tags.
+  ClearLinks(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db, tag_db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(uint64_t address, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  auto ptr = ll_tag_set_.find(address >> kTagShift);
-  if (ptr != ll_tag_set_.end()) {
-    ll_tag_set_.erase(ptr);
-  }
+  // Remove any matching tags.
+  ClearLinks(address, db->size<uint8_t>());
   tagged_memory_->Store(address, db);
 }
 
 // Store the value to memory, but remove any matching tag from the tag set.
 void AtomicTaggedMemory::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                int el_size, DataBuffer* db) {
-  // If the address matches a tag, remove the tag.
-  for (uint64_t address : address_db->Get<uint64_t>()) {
-    auto ptr = ll_tag_set_.find(address >> kTagShift);
-    if (ptr != ll_tag_set_.end()) {
-      ll_tag_set_.erase(ptr);
-    }
+  // Remove any tags matching the elements that are stored. If there is a single
+  // address, it is the start of a unit stride store.
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  for (unsigned i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    ClearLinks(
+        addresses.size() > 1 ? addresses[i] : addresses[0] + i * el_size,
+        el_size);
   }
   tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
@@ -229,6 +226,8 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
       std::swap(tmp_db->Get<uint64_t>()[0], db->Get<uint64_t>()[0]);
       break;
   }
+  // All the operations below write to memory.
+  ClearLinks(address, el_size);
   if (op == Operation::kAtomicSwap) {
     tagged_memory_->Store(address, tmp_db);
     WriteBack(inst, context, db);
@@ -262,6 +261,14 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
   return absl::OkStatus();
 }
 
+void AtomicTaggedMemory::ClearLinks(uint64_t address, int size) {
+  if (size <= 0 || ll_tag_set_.empty()) return;
+  uint64_t last = (address + size - 1) >> kTagShift;
+  for (uint64_t tag = address >> kTagShift; tag <= last; ++tag) {
+    ll_tag_set_.erase(tag);
+  }
+}
+
 void AtomicTaggedMemory::WriteBack(Instruction* inst, ReferenceCount* context,
                                    DataBuffer* db) {
   if (inst != nullptr) {
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.h b/mpact/sim/util/memory/atomic_tagged_memory.h
index 5090bf2..111c137 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.h
+++ b/mpact/sim/util/memory/atomic_tagged_memory.h
@@ -80,6 +80,8 @@ class AtomicTaggedMemory : public TaggedMemoryInterface,
 
  private:
   static constexpr int kTagShift = 3;
+  // Remove the load linked tags of the given range of memory.
+  void ClearLinks(uint64_t address, int size);
   // Write back the result.
   void WriteBack(Instruction* inst, ReferenceCount* context, DataBuffer* db);
   // Returns the db of the given size.
-- 
2.43.0


From 05097706058854f5e1003805dc7cad890dc0f08f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:19:33 +0000
Subject: [PATCH 26/77] fix: a store-conditional of an unsupported size is
 refused before it writes memory

---
 mpact/sim/util/memory/atomic_memory.cc        | 3 +++
 mpact/sim/util/memory/atomic_tagged_memory.cc | 3 +++
 2 files changed, 6 insertions(+)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index 699ee5b..88c775c 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -170,6 +170,9 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
   // Store-conditional.
   if (op == Operation::kStoreConditional) {
+    if (GetDb(el_size) == nullptr)
+      return absl::InternalError(
+          absl::StrCat("Illegal element size (", el_size, ")"));
     uint64_t tag = address >> kTagShift;
     int value = 1;
     // Determine if the store is successful.
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index b15ea88..40a2702 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -187,6 +187,9 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
   }
   // Store-conditional.
   if (op == Operation::kStoreConditional) {
+    if (GetDb(el_size) == nullptr)
+      return absl::InternalError(
+          absl::StrCat("Illegal element size (", el_size, ")"));
     uint64_t tag = address >> kTagShift;
     int value = 1;
     // Determine if the store is successful.
-- 
2.43.0


From b87deaf2e8272616d3a6acc87f03797263d41c30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:48 +0000
Subject: [PATCH 27/77] fix: the router finds the one target that owns the
 whole of a plain access

---
 .../util/memory/single_initiator_router.cc    | 250 +++++-------------
 .../sim/util/memory/single_initiator_router.h |   7 +
 2 files changed, 72 insertions(+), 185 deletions(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index d07b461..acad8c5 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -14,6 +14,7 @@
 
 #include "mpact/sim/util/memory/single_initiator_router.h"
 
+#include <cstddef>
 #include <cstdint>
 #include <string>
 
@@ -120,6 +121,64 @@ absl::Status SingleInitiatorRouter::AddDefaultTarget<AtomicMemoryOpInterface>(
   return absl::OkStatus();
 }
 
+// The target that the whole of [address, address + size) is mapped to in 'map',
+// or nullptr. Sets 'overlap' if any part of it is mapped.
+template <typename Interface>
+static Interface* FindTarget(
+    const SingleInitiatorRouter::InterfaceMap<Interface>& map, uint64_t address,
+    int size, bool& overlap) {
+  uint64_t last = address + size - 1;
+  auto it = map.find({address, last});
+  if (it == map.end()) return nullptr;
+  overlap = true;
+  auto& range = it->first;
+  if ((range.base > address) || (range.top < last)) return nullptr;
+  return it->second;
+}
+
+// Plain accesses can be made to both MemoryInterface and TaggedMemoryInterface
+// targets, so both maps are searched before the default targets are used. The
+// defaults are only used if no part of the access is mapped.
+MemoryInterface* SingleInitiatorRouter::FindPlainTarget(uint64_t address,
+                                                        int size) const {
+  bool overlap = false;
+  MemoryInterface* memory = FindTarget(memory_targets_, address, size, overlap);
+  if (memory != nullptr) return memory;
+  memory = FindTarget(tagged_targets_, address, size, overlap);
+  if ((memory != nullptr) || overlap) return memory;
+  if (default_memory_target_ != nullptr) return default_memory_target_;
+  return default_tagged_target_;
+}
+
+// Vector accesses are not split across multiple targets, so every element that
+// is not masked off has to map to the same target.
+MemoryInterface* SingleInitiatorRouter::FindVectorTarget(
+    DataBuffer* address_db, DataBuffer* mask_db, int el_size) const {
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  // If there is only one address, the access is unit stride.
+  bool gather = addresses.size() > 1;
+  MemoryInterface* memory = nullptr;
+  bool any_enabled = false;
+  for (size_t i = 0; i < masks.size(); i++) {
+    if (!masks[i]) continue;
+    uint64_t address = gather ? addresses[i] : addresses[0] + i * el_size;
+    auto* tmp_memory = FindPlainTarget(address, el_size);
+    if (tmp_memory == nullptr) return nullptr;
+    if (any_enabled && (tmp_memory != memory)) {
+      LOG(ERROR) << "Multiple targets found for vector access";
+      return nullptr;
+    }
+    memory = tmp_memory;
+    any_enabled = true;
+  }
+  // If every element is masked off, the access still has to complete.
+  if (!any_enabled && !addresses.empty()) {
+    memory = FindPlainTarget(addresses[0], el_size);
+  }
+  return memory;
+}
+
 // The next methods are the overridden methods of the different memory
 // interfaces. These perform lookups to find an appropriate target. Failing that
 // they log an error and return.
@@ -127,33 +186,8 @@ absl::Status SingleInitiatorRouter::AddDefaultTarget<AtomicMemoryOpInterface>(
 // Plain memory load.
 void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
                                  Instruction* inst, ReferenceCount* context) {
-  int size = db->size<uint8_t>();
-  auto it = memory_targets_.find({address, address + size - 1});
-  if (it != memory_targets_.end()) {
-    auto& range = it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return it->second->Load(address, db, inst, context);
-    }
-  }
-  // Only use default if there was no match.
-  if ((it == memory_targets_.end()) && (default_memory_target_ != nullptr)) {
-    return default_memory_target_->Load(address, db, inst, context);
-  }
-  // Since the plain memory load can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  auto tagged_it = tagged_targets_.find({address, address});
-  if (tagged_it != tagged_targets_.end()) {
-    auto& range = tagged_it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return tagged_it->second->Load(address, db, inst, context);
-    }
-  }
-  // Only use default if there was no match.
-  if ((tagged_it == tagged_targets_.end()) &&
-      (default_tagged_target_ != nullptr)) {
-    return default_tagged_target_->Load(address, db, inst, context);
-  }
+  auto* memory = FindPlainTarget(address, db->size<uint8_t>());
+  if (memory != nullptr) return memory->Load(address, db, inst, context);
   LOG(ERROR) << absl::StrCat("No target found for address: 0x",
                              absl::Hex(address));
 }
@@ -162,75 +196,10 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
 void SingleInitiatorRouter::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                  int el_size, DataBuffer* db, Instruction* inst,
                                  ReferenceCount* context) {
-  // This is a vector load, so check each address that is not masked off.
-  // Vector memory loads will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
-  MemoryInterface* memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    // If the mask is true, check this address.
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = memory_targets_.find({address, address + el_size - 1});
-      MemoryInterface* tmp_memory = nullptr;
-      if (it == memory_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
-        tmp_memory = default_memory_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (memory != nullptr) {
-        if (tmp_memory != memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        memory = tmp_memory;
-      }
-    }
-  }
+  auto* memory = FindVectorTarget(address_db, mask_db, el_size);
   if (memory != nullptr) {
     return memory->Load(address_db, mask_db, el_size, db, inst, context);
   }
-  // Since the vector memory load can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  TaggedMemoryInterface* tagged_memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size - 1});
-      TaggedMemoryInterface* tmp_memory = nullptr;
-      if (it == tagged_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
-        tmp_memory = default_tagged_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (tagged_memory != nullptr) {
-        if (tmp_memory != tagged_memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        tagged_memory = tmp_memory;
-      }
-    }
-  }
-  if (tagged_memory != nullptr) {
-    return tagged_memory->Load(address_db, mask_db, el_size, db, inst, context);
-  }
   LOG(ERROR) << "No target found for vector load";
 }
 
@@ -264,33 +233,8 @@ void SingleInitiatorRouter::Load(uint64_t address, DataBuffer* db,
 
 // Plain memory store.
 void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
-  int size = db->size<uint8_t>();
-  auto it = memory_targets_.find({address, address + size});
-  if (it != memory_targets_.end()) {
-    auto& range = it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return it->second->Store(address, db);
-    }
-  }
-  // Only use default if there was no match.
-  if ((it == memory_targets_.end()) && (default_memory_target_ != nullptr)) {
-    return default_memory_target_->Store(address, db);
-  }
-  // Since the plain memory store can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  auto tagged_it = tagged_targets_.find({address, address});
-  if (tagged_it != tagged_targets_.end()) {
-    auto& range = tagged_it->first;
-    if ((range.base <= address) && (range.top >= address + size - 1)) {
-      return tagged_it->second->Store(address, db);
-    }
-  }
-  // Only use default if there was no match.
-  if ((tagged_it == tagged_targets_.end()) &&
-      (default_tagged_target_ != nullptr)) {
-    return default_tagged_target_->Store(address, db);
-  }
+  auto* memory = FindPlainTarget(address, db->size<uint8_t>());
+  if (memory != nullptr) return memory->Store(address, db);
   LOG(ERROR) << absl::StrCat("No target found for address: 0x",
                              absl::Hex(address));
 }
@@ -298,74 +242,10 @@ void SingleInitiatorRouter::Store(uint64_t address, DataBuffer* db) {
 // Vector memory store.
 void SingleInitiatorRouter::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                   int el_size, DataBuffer* db) {
-  // This is a vector store, so check each address that is not masked off.
-  // Vector memory stores will not be split across multiple targets.
-  int count = address_db->size<uint64_t>();
-  MemoryInterface* memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    // If the mask is true, check this address.
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = memory_targets_.find({address, address + el_size - 1});
-      MemoryInterface* tmp_memory = nullptr;
-      if (it == memory_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_memory_target_ == nullptr) break;
-        tmp_memory = default_memory_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size - 1))
-          break;
-        tmp_memory = it->second;
-      }
-      if (memory != nullptr) {
-        if (tmp_memory != memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        memory = tmp_memory;
-      }
-    }
-  }
+  auto* memory = FindVectorTarget(address_db, mask_db, el_size);
   if (memory != nullptr) {
     return memory->Store(address_db, mask_db, el_size, db);
   }
-  // Since the vector memory store can occur in both MemoryInterface and
-  // TaggedMemoryInterface, we need to check the tagged memory interface map
-  // too.
-  TaggedMemoryInterface* tagged_memory = nullptr;
-  for (int i = 0; i < count; i++) {
-    if (mask_db->Get<uint8_t>(i)) {
-      auto address = address_db->Get<uint64_t>(i);
-      auto it = tagged_targets_.find({address, address + el_size});
-      TaggedMemoryInterface* tmp_memory = nullptr;
-      if (it == tagged_targets_.end()) {
-        // If there are no overlapping targets, use the default, if it is set.
-        if (default_tagged_target_ == nullptr) break;
-        tmp_memory = default_tagged_target_;
-      } else {
-        auto& range = it->first;
-        // If there is no proper overlap, just break out of the loop. We are
-        // not splitting the memory access across multiple targets.
-        if ((range.base > address) || (range.top < address + el_size)) break;
-        tmp_memory = it->second;
-      }
-      if (tagged_memory != nullptr) {
-        if (tmp_memory != tagged_memory) {
-          LOG(ERROR) << "Multiple targets found for address vector load";
-          return;
-        }
-      } else {
-        tagged_memory = tmp_memory;
-      }
-    }
-  }
-  if (tagged_memory != nullptr) {
-    return tagged_memory->Store(address_db, mask_db, el_size, db);
-  }
   LOG(ERROR) << "No target found for vector store";
 }
 
diff --git a/mpact/sim/util/memory/single_initiator_router.h b/mpact/sim/util/memory/single_initiator_router.h
index 27e5785..32a3a54 100644
--- a/mpact/sim/util/memory/single_initiator_router.h
+++ b/mpact/sim/util/memory/single_initiator_router.h
@@ -106,6 +106,13 @@ class SingleInitiatorRouter : public TaggedMemoryInterface,
   std::string_view name() const { return name_; }
 
  private:
+  // Find the target for a plain access, nullptr if there is none.
+  MemoryInterface* FindPlainTarget(uint64_t address, int size) const;
+  // Find the single target for all enabled elements of a vector access, nullptr
+  // if there is none.
+  MemoryInterface* FindVectorTarget(DataBuffer* address_db, DataBuffer* mask_db,
+                                    int el_size) const;
+
   std::string name_;
   // These maps are used to look up target interfaces based on addresses.
   InterfaceMap<MemoryInterface> memory_targets_;
-- 
2.43.0


From fadb9dc1cd1dc58dafd86f0ed3ffb96e589f2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:27:48 +0000
Subject: [PATCH 28/77] fix: mapping a range of the router to a second target
 is an error

---
 mpact/sim/util/memory/single_initiator_router.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/single_initiator_router.cc b/mpact/sim/util/memory/single_initiator_router.cc
index acad8c5..fc913b3 100644
--- a/mpact/sim/util/memory/single_initiator_router.cc
+++ b/mpact/sim/util/memory/single_initiator_router.cc
@@ -55,7 +55,8 @@ static absl::Status AddTargetPrivate(
   auto it = map.find({base, top});
   if (it != map.end()) {
     // If it is a duplicate, just ignore it and return ok.
-    if ((it->first.base == base) && (it->first.top == top)) {
+    if ((it->first.base == base) && (it->first.top == top) &&
+        (it->second == interface)) {
       return absl::OkStatus();
     }
     // Otherwise return an error.
-- 
2.43.0


From 35f8369250cc967773e5fb89e4c2eb78189ea117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:05 +0000
Subject: [PATCH 29/77] fix: a cache over tagged memory initialises its
 non-cacheable counters

---
 mpact/sim/util/memory/cache.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 8f36b63..3ced6bf 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -76,6 +76,8 @@ Cache::Cache(std::string name, Component* parent,
       dirty_line_writeback_counter_("dirty_line_writeback", 0ULL),
       read_around_counter_("read_around", 0ULL),
       write_around_counter_("write_around", 0ULL),
+      read_non_cacheable_counter_("read_non_cacheable", 0ULL),
+      write_non_cacheable_counter_("write_non_cacheable", 0ULL),
       memory_(tagged_memory),
       tagged_memory_(tagged_memory) {
   // Register the counters.
-- 
2.43.0


From e269f2e236782bbe41c94937eb470ccf4ae26b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:05 +0000
Subject: [PATCH 30/77] fix: a cache line allocated by a write is dirty

---
 mpact/sim/util/memory/cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 3ced6bf..6db2aaa 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -469,7 +469,7 @@ void Cache::ReplaceBlock(uint64_t block, bool is_read) {
   line.valid = true;
   line.tag = block;
   line.pinned = false;
-  line.dirty = false;
+  line.dirty = !is_read;
   line.lru = cycle_counter_->GetValue();
 }
 
-- 
2.43.0


From ad75af223c88c8ee7c142ae10e3f377e39580d22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:05 +0000
Subject: [PATCH 31/77] fix: the cache looks up every element of a unit-stride
 vector access

---
 mpact/sim/util/memory/cache.cc | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 6db2aaa..6304a84 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -260,9 +260,13 @@ void Cache::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                  DataBuffer* db, Instruction* inst, ReferenceCount* context) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // If there is only one address, the access is unit stride.
+  bool gather = address_span.size() > 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/true);
+      uint64_t address =
+          gather ? address_span[i] : address_span[0] + i * el_size;
+      (void)CacheLookup(address, el_size, /*is_read=*/true);
     }
   }
   if (memory_ == nullptr) return;
@@ -320,9 +324,13 @@ void Cache::Store(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
                   DataBuffer* db) {
   auto address_span = address_db->Get<uint64_t>();
   auto mask_span = mask_db->Get<bool>();
-  for (int i = 0; i < address_db->size<uint64_t>(); i++) {
+  // If there is only one address, the access is unit stride.
+  bool gather = address_span.size() > 1;
+  for (int i = 0; i < mask_span.size(); i++) {
     if (mask_span[i]) {
-      (void)CacheLookup(address_span[i], el_size, /*is_read=*/false);
+      uint64_t address =
+          gather ? address_span[i] : address_span[0] + i * el_size;
+      (void)CacheLookup(address, el_size, /*is_read=*/false);
     }
   }
   if (memory_ == nullptr) return;
-- 
2.43.0


From 328dd303fd9119df65f2ef9c5f212a9ab670f9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:05 +0000
Subject: [PATCH 32/77] fix: cache loads without an instruction leave the
 buffer latency and context alone

---
 mpact/sim/util/memory/cache.cc | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 6304a84..6dd3287 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -247,9 +247,14 @@ void Cache::Load(uint64_t address, DataBuffer* db, Instruction* inst,
 
   if (memory_ == nullptr) return;
 
+  if (inst == nullptr) {  // Just forward and return.
+    memory_->Load(address, db, /*inst=*/nullptr, context);
+    return;
+  }
+
   auto* cache_context = new CacheContext(context, db, inst, db->latency());
   if (context) context->IncRef();
-  if (inst) inst->IncRef();
+  inst->IncRef();
   db->IncRef();
   db->set_latency(0);
   memory_->Load(address, db, cache_inst_, cache_context);
@@ -271,9 +276,14 @@ void Cache::Load(DataBuffer* address_db, DataBuffer* mask_db, int el_size,
   }
   if (memory_ == nullptr) return;
 
+  if (inst == nullptr) {  // Just forward and return.
+    memory_->Load(address_db, mask_db, el_size, db, /*inst=*/nullptr, context);
+    return;
+  }
+
   auto* cache_context = new CacheContext(context, db, inst, db->latency());
   if (context) context->IncRef();
-  if (inst) inst->IncRef();
+  inst->IncRef();
   db->IncRef();
   db->set_latency(0);
   memory_->Load(address_db, mask_db, el_size, db, cache_inst_, cache_context);
-- 
2.43.0


From 5a23a05cdfddfb22814e07466d69b884d7dc8b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:33:05 +0000
Subject: [PATCH 33/77] fix: a delayed tag-only load through the cache
 completes

---
 mpact/sim/util/memory/cache.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 6dd3287..3b055ba 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -318,8 +318,11 @@ void Cache::Load(uint64_t address, DataBuffer* db, DataBuffer* tags,
   if (db) {
     db->set_latency(0);
     db->IncRef();
+  } else {
+    tags->set_latency(0);
   }
   tagged_memory_->Load(address, db, tags, cache_inst_, cache_context);
+  if (db == nullptr) tags->set_latency(latency);
   cache_context->DecRef();
 }
 
@@ -368,7 +371,7 @@ void Cache::LoadChild(const Instruction* inst) {
     if (cache_context->latency > 0) {
       if (db != nullptr) db->set_latency(cache_context->latency);
       og_inst->state()->function_delay_line()->Add(
-          db->latency(), [og_inst, og_context]() {
+          cache_context->latency, [og_inst, og_context]() {
             og_inst->Execute(og_context);
             if (og_context != nullptr) og_context->DecRef();
             og_inst->DecRef();
-- 
2.43.0


From 87b8e658ef412827b5e70c7dffa587b18c91afd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:11 +0000
Subject: [PATCH 34/77] fix: Cache::Configure changes nothing if it refuses,
 and replaces earlier ranges

---
 mpact/sim/util/memory/cache.cc | 40 +++++++++++++++++++++-------------
 1 file changed, 25 insertions(+), 15 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 3b055ba..0d972f8 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -19,8 +19,10 @@
 #include <cstdint>
 #include <limits>
 #include <string>
+#include <utility>
 #include <vector>
 
+#include "absl/container/btree_set.h"
 #include "absl/functional/bind_front.h"
 #include "absl/log/check.h"
 #include "absl/log/log.h"
@@ -117,7 +119,6 @@ absl::Status Cache::Configure(const std::string& config,
   if (cycle_counter == nullptr) {
     return absl::InvalidArgumentError("Cycle counter is null");
   }
-  cycle_counter_ = cycle_counter;
   // Split the configuration string into fields, make sure there are 4 fields.
   std::vector<std::string> config_vec = absl::StrSplit(config, ',');
   if (config_vec.size() < 4) {
@@ -145,20 +146,23 @@ absl::Status Cache::Configure(const std::string& config,
     return absl::InvalidArgumentError("Invalid value for line size");
   }
   // Number of sets (set associativity) - 0 means fully set associative.
-  num_sets_ = std::stoull(config_vec[2], &size);
+  uint64_t num_sets = std::stoull(config_vec[2], &size);
   if (size != config_vec[2].size()) {
     return absl::InvalidArgumentError("Invalid value for number of sets");
   }
   // Write allocate.
+  bool write_allocate;
   if (config_vec[3] == "true") {
-    write_allocate_ = true;
+    write_allocate = true;
   } else if (config_vec[3] == "false") {
-    write_allocate_ = false;
+    write_allocate = false;
   } else {
     return absl::InvalidArgumentError("Invalid write allocate value");
   }
   // If there are more than 4 entries, check for cacheable, or non-cacheable
-  // memory ranges. Format is: [c|nc]:<start_address>:<size>
+  // memory ranges. Format is: [c|nc]:<start_address>:<end_address>
+  absl::btree_multiset<AddressRange, AddressRangeLess> non_cacheable_ranges;
+  absl::btree_multiset<AddressRange, AddressRangeLess> cacheable_ranges;
   for (int i = 4; i < config_vec.size(); i++) {
     std::vector<std::string> range_vec = absl::StrSplit(config_vec[i], ':');
     if (range_vec.size() != 3) {
@@ -185,19 +189,17 @@ absl::Status Cache::Configure(const std::string& config,
           "Invalid cacheable range - must start with 'c' or 'nc'");
     }
     if (range_vec[0] == "c") {
-      if (!non_cacheable_ranges_.empty()) {
+      if (!non_cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_cacheable_ = true;
+      cacheable_ranges.insert(AddressRange(range_start, range_end));
     } else {
-      if (!cacheable_ranges_.empty()) {
+      if (!cacheable_ranges.empty()) {
         return absl::InvalidArgumentError(
             "Cannot mix cacheable and non-cacheable ranges");
       }
-      non_cacheable_ranges_.insert(AddressRange(range_start, range_end));
-      has_non_cacheable_ = true;
+      non_cacheable_ranges.insert(AddressRange(range_start, range_end));
     }
   }
   // Sanity check more cache parameters.
@@ -207,7 +209,7 @@ absl::Status Cache::Configure(const std::string& config,
   if (!absl::has_single_bit(line_size)) {
     return absl::InvalidArgumentError("Line size is not a power of 2");
   }
-  if (num_sets_ != 0 && !absl::has_single_bit(num_sets_)) {
+  if (num_sets != 0 && !absl::has_single_bit(num_sets)) {
     return absl::InvalidArgumentError("Number of sets is not a power of 2");
   }
   if (cache_size == 0) {
@@ -220,14 +222,22 @@ absl::Status Cache::Configure(const std::string& config,
     return absl::InvalidArgumentError("Cache size is less than line size");
   }
   // If num_sets is 0, then the cache is fully associative.
-  if (num_sets_ == 0) {
-    num_sets_ = cache_size / line_size;
+  if (num_sets == 0) {
+    num_sets = cache_size / line_size;
   }
   uint64_t num_lines = cache_size / line_size;
-  if (num_sets_ > num_lines) {
+  if (num_sets > num_lines) {
     return absl::InvalidArgumentError(
         "Cache associativity is greater than the number of lines");
   }
+  // The configuration is valid, so commit to it.
+  cycle_counter_ = cycle_counter;
+  num_sets_ = num_sets;
+  write_allocate_ = write_allocate;
+  has_cacheable_ = !cacheable_ranges.empty();
+  has_non_cacheable_ = !non_cacheable_ranges.empty();
+  cacheable_ranges_ = std::move(cacheable_ranges);
+  non_cacheable_ranges_ = std::move(non_cacheable_ranges);
   delete[] cache_lines_;
   cache_lines_ = new CacheLine[num_lines];
   block_shift_ = absl::bit_width(line_size) - 1;
-- 
2.43.0


From 338e22019a8236d26bd3c5d090b9afb87aeafbfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:34:11 +0000
Subject: [PATCH 35/77] fix: Cache::Configure returns an error for a missing or
 oversize number

---
 mpact/sim/util/memory/cache.cc | 43 ++++++++++++++++++++++++++--------
 1 file changed, 33 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/util/memory/cache.cc b/mpact/sim/util/memory/cache.cc
index 0d972f8..93999d0 100644
--- a/mpact/sim/util/memory/cache.cc
+++ b/mpact/sim/util/memory/cache.cc
@@ -16,7 +16,9 @@
 
 #include <unistd.h>
 
+#include <cerrno>
 #include <cstdint>
+#include <cstdlib>
 #include <limits>
 #include <string>
 #include <utility>
@@ -28,6 +30,7 @@
 #include "absl/log/log.h"
 #include "absl/numeric/bits.h"
 #include "absl/status/status.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/str_cat.h"
 #include "absl/strings/str_split.h"
 #include "absl/strings/string_view.h"
@@ -114,6 +117,19 @@ Cache::~Cache() {
   cache_inst_->DecRef();
 }
 
+// Parse the unsigned number that 'text' starts with, and set 'length' to the
+// number of characters used. Returns false if there is no number, or if it
+// doesn't fit in 64 bits.
+static bool ParseNumber(const std::string& text, int base, uint64_t& value,
+                        std::string::size_type& length) {
+  if (text.empty() || !absl::ascii_isdigit(text[0])) return false;
+  char* end;
+  errno = 0;
+  value = std::strtoull(text.c_str(), &end, base);
+  length = end - text.c_str();
+  return errno == 0;
+}
+
 absl::Status Cache::Configure(const std::string& config,
                               CounterValueOutputBase<uint64_t>* cycle_counter) {
   if (cycle_counter == nullptr) {
@@ -126,7 +142,10 @@ absl::Status Cache::Configure(const std::string& config,
   }
   // Compute the cache size in bytes, including any suffixes ('k', 'M', 'G').
   std::string::size_type size;
-  uint64_t cache_size = std::stoull(config_vec[0], &size);
+  uint64_t cache_size;
+  if (!ParseNumber(config_vec[0], 10, cache_size, size)) {
+    return absl::InvalidArgumentError("Invalid value for cache size");
+  }
   if (size < config_vec[0].size()) {
     auto suffix = config_vec[0].substr(size);
     if (suffix == "k") {
@@ -141,13 +160,15 @@ absl::Status Cache::Configure(const std::string& config,
     }
   }
   // Line size in bytes.
-  uint64_t line_size = std::stoull(config_vec[1], &size);
-  if (size != config_vec[1].size()) {
+  uint64_t line_size;
+  if (!ParseNumber(config_vec[1], 10, line_size, size) ||
+      (size != config_vec[1].size())) {
     return absl::InvalidArgumentError("Invalid value for line size");
   }
   // Number of sets (set associativity) - 0 means fully set associative.
-  uint64_t num_sets = std::stoull(config_vec[2], &size);
-  if (size != config_vec[2].size()) {
+  uint64_t num_sets;
+  if (!ParseNumber(config_vec[2], 10, num_sets, size) ||
+      (size != config_vec[2].size())) {
     return absl::InvalidArgumentError("Invalid value for number of sets");
   }
   // Write allocate.
@@ -169,15 +190,17 @@ absl::Status Cache::Configure(const std::string& config,
       return absl::InvalidArgumentError(
           "Invalid (non)cacheable range - must have 3 fields");
     }
-    uint64_t range_start = std::stoull(range_vec[1], &size, 0);
-    if (size != range_vec[1].size()) {
+    uint64_t range_start;
+    if (!ParseNumber(range_vec[1], 0, range_start, size) ||
+        (size != range_vec[1].size())) {
       return absl::InvalidArgumentError(
           "Invalid cacheable range - invalid start address");
     }
-    uint64_t range_end = std::stoull(range_vec[2], &size, 0);
-    if (size != range_vec[2].size()) {
+    uint64_t range_end;
+    if (!ParseNumber(range_vec[2], 0, range_end, size) ||
+        (size != range_vec[2].size())) {
       return absl::InvalidArgumentError(
-          "Invalid cacheable range - invalid size");
+          "Invalid cacheable range - invalid end address");
     }
     if (range_start > range_end) {
       return absl::InvalidArgumentError(
-- 
2.43.0


From 73e0f46104a235a08432c9a0d719494340160a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:12 +0000
Subject: [PATCH 36/77] fix: the memory use profiler marks every word of an
 access

---
 mpact/sim/util/memory/memory_use_profiler.cc | 65 +++++++++-----------
 mpact/sim/util/memory/memory_use_profiler.h  |  3 +
 2 files changed, 33 insertions(+), 35 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index 35ef4ed..fe44600 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -14,7 +14,6 @@
 
 #include "mpact/sim/util/memory/memory_use_profiler.h"
 
-#include <algorithm>
 #include <cstdint>
 #include <cstring>
 #include <ostream>
@@ -39,47 +38,43 @@ MemoryUseTracker::~MemoryUseTracker() {
   memory_use_map_.clear();
 }
 
-// Static helper function.
-static inline void MarkUsedBits(uint64_t byte_offset, int mask, uint8_t* bits) {
-  // Shift right by two, so that every byte offset becomes a word offset.
-  uint64_t word_offset = byte_offset >> 2;
-  // Byte offs
-  uint64_t byte_index = word_offset >> 3;
-  int bit_index = word_offset & 0b111;
-
-  bits[byte_index] |= (mask << bit_index);
-}
-
 void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
-  // The profiling is done on a word boundary, so word or smaller is marked by
-  // a single bit, double words by 2 bits.
+  // The profiling is done on word granularity, so every word that is at least
+  // partially accessed is marked.
   if (size > 8) {
     LOG(INFO) << "MemoryUseTracker::MarkUsed: not profiling accesses > 8 bytes";
     return;
   }
-  size = std::min(size, 4);
-  uint8_t mask = size > 4 ? 0b11 : 0b1;
-  if ((address >= last_start_) && (address + size - 1 <= last_end_)) {
-    return MarkUsedBits(address - last_start_, mask, last_used_);
+  uint64_t first_word = address / kGranularity;
+  uint64_t last_word = (address + size - 1) / kGranularity;
+  for (uint64_t word = first_word; word <= last_word; word++) {
+    MarkWordUsed(word * kGranularity);
   }
-  auto it = memory_use_map_.find(
-      MemoryWatcher::AddressRange{address, address + size - 1});
-  if (it == memory_use_map_.end()) {
-    // Compute new base and top addresses.
-    uint64_t start = address & ~kBaseMask;
-    uint64_t end = start + kSegmentSize - 1;
-    auto* bits = new uint8_t[kBitsSize];
-    std::memset(bits, 0, kBitsSize);
-
-    it = memory_use_map_
-             .insert(
-                 std::make_pair(MemoryWatcher::AddressRange{start, end}, bits))
-             .first;
+}
+
+void MemoryUseTracker::MarkWordUsed(uint64_t address) {
+  if ((last_used_ == nullptr) || (address < last_start_) ||
+      (address > last_end_)) {
+    auto it =
+        memory_use_map_.find(MemoryWatcher::AddressRange{address, address});
+    if (it == memory_use_map_.end()) {
+      // Compute new base and top addresses.
+      uint64_t start = address & ~kBaseMask;
+      uint64_t end = start + kSegmentSize - 1;
+      auto* bits = new uint8_t[kBitsSize];
+      std::memset(bits, 0, kBitsSize);
+
+      it = memory_use_map_
+               .insert(std::make_pair(MemoryWatcher::AddressRange{start, end},
+                                      bits))
+               .first;
+    }
+    last_start_ = it->first.start;
+    last_end_ = it->first.end;
+    last_used_ = it->second;
   }
-  last_start_ = it->first.start;
-  last_end_ = it->first.end;
-  last_used_ = it->second;
-  MarkUsedBits(address - last_start_, mask, it->second);
+  uint64_t word_offset = (address - last_start_) / kGranularity;
+  last_used_[word_offset >> 3] |= 1 << (word_offset & 0b111);
 }
 
 // Write out ranges of words that have been used.
diff --git a/mpact/sim/util/memory/memory_use_profiler.h b/mpact/sim/util/memory/memory_use_profiler.h
index bd24ae1..7a901c5 100644
--- a/mpact/sim/util/memory/memory_use_profiler.h
+++ b/mpact/sim/util/memory/memory_use_profiler.h
@@ -57,6 +57,9 @@ class MemoryUseTracker {
   void WriteUseProfile(std::ostream& os) const;
 
  private:
+  // Mark the word at the given (aligned) address.
+  void MarkWordUsed(uint64_t address);
+
   uint64_t last_start_ = 0;
   uint64_t last_end_ = 0;
   uint8_t* last_used_ = nullptr;
-- 
2.43.0


From d57b945bad7d60e8ad8323bb67ce2c07e4a81098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:12 +0000
Subject: [PATCH 37/77] fix: the memory use profile ends ranges at the end of a
 segment

---
 mpact/sim/util/memory/memory_use_profiler.cc | 21 ++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index fe44600..a6cbc3f 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -83,8 +83,22 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
   uint64_t range_start = 0;
   uint64_t range_end = 0;
   bool range_started = false;
+  auto write_range = [&os, &range_start, &range_end]() {
+    os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start, range_end,
+                          range_end - range_start + 4);
+  };
+  // The end of the previous segment.
+  uint64_t previous_end = 0;
   for (auto const& [range, bits] : memory_use_map_) {
     auto base = range.start;
+    // A range that extends to the end of a segment only continues if the next
+    // segment is adjacent.
+    if (range_started && (base != previous_end + 1)) {
+      range_end = previous_end + 1 - kGranularity;
+      write_range();
+      range_started = false;
+    }
+    previous_end = range.end;
     int byte_index = 0;
     uint8_t byte = bits[byte_index];
     while (byte_index < kBitsSize) {
@@ -101,8 +115,7 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
         int bit_indx = absl::countr_one(byte) - 1;
         range_end = base + (byte_index * 8 + bit_indx) * kGranularity;
         // Output range.
-        os << absl::StrFormat("0x%llx,0x%llx,%llu\n", range_start, range_end,
-                              range_end - range_start + 4);
+        write_range();
         // Clear those bits from the current byte, then we start looking for
         // a new range.
         byte &= ~((1 << (bit_indx + 1)) - 1);
@@ -123,6 +136,10 @@ void MemoryUseTracker::WriteUseProfile(std::ostream& os) const {
       range_started = true;
     }
   }
+  if (range_started) {
+    range_end = previous_end + 1 - kGranularity;
+    write_range();
+  }
 }
 
 }  // namespace internal
-- 
2.43.0


From 5a5680a0d3880fe1e6a13863294d236e18d37a1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:37:12 +0000
Subject: [PATCH 38/77] fix: the memory use profiler follows unit-stride vector
 accesses

---
 mpact/sim/util/memory/memory_use_profiler.cc | 44 +++++++-------------
 mpact/sim/util/memory/memory_use_profiler.h  |  2 +
 2 files changed, 18 insertions(+), 28 deletions(-)

diff --git a/mpact/sim/util/memory/memory_use_profiler.cc b/mpact/sim/util/memory/memory_use_profiler.cc
index a6cbc3f..51f310c 100644
--- a/mpact/sim/util/memory/memory_use_profiler.cc
+++ b/mpact/sim/util/memory/memory_use_profiler.cc
@@ -52,6 +52,18 @@ void MemoryUseTracker::MarkUsed(uint64_t address, int size) {
   }
 }
 
+void MemoryUseTracker::MarkVectorUsed(DataBuffer* address_db,
+                                      DataBuffer* mask_db, int el_size) {
+  auto addresses = address_db->Get<uint64_t>();
+  auto masks = mask_db->Get<bool>();
+  // If there is only one address, the access is unit stride.
+  bool gather = addresses.size() > 1;
+  for (int i = 0; i < masks.size(); ++i) {
+    if (!masks[i]) continue;
+    MarkUsed(gather ? addresses[i] : addresses[0] + i * el_size, el_size);
+  }
+}
+
 void MemoryUseTracker::MarkWordUsed(uint64_t address) {
   if ((last_used_ == nullptr) || (address < last_start_) ||
       (address > last_end_)) {
@@ -158,13 +170,7 @@ void MemoryUseProfiler::Load(uint64_t address, DataBuffer* db,
 void MemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                              int el_size, DataBuffer* db, Instruction* inst,
                              ReferenceCount* context) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) tracker_.MarkVectorUsed(address_db, mask_db, el_size);
   if (memory_) memory_->Load(address_db, mask_db, el_size, db, inst, context);
 }
 
@@ -175,13 +181,7 @@ void MemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 
 void MemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                               int el_size, DataBuffer* db) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) tracker_.MarkVectorUsed(address_db, mask_db, el_size);
   if (memory_) memory_->Store(address_db, mask_db, el_size, db);
 }
 
@@ -201,13 +201,7 @@ void TaggedMemoryUseProfiler::Load(uint64_t address, DataBuffer* db,
 void TaggedMemoryUseProfiler::Load(DataBuffer* address_db, DataBuffer* mask_db,
                                    int el_size, DataBuffer* db,
                                    Instruction* inst, ReferenceCount* context) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) tracker_.MarkVectorUsed(address_db, mask_db, el_size);
   if (tagged_memory_)
     tagged_memory_->Load(address_db, mask_db, el_size, db, inst, context);
 }
@@ -227,13 +221,7 @@ void TaggedMemoryUseProfiler::Store(uint64_t address, DataBuffer* db) {
 
 void TaggedMemoryUseProfiler::Store(DataBuffer* address_db, DataBuffer* mask_db,
                                     int el_size, DataBuffer* db) {
-  if (is_enabled_) {
-    for (int i = 0; i < address_db->size<uint64_t>(); ++i) {
-      if (mask_db->Get<uint8_t>(i)) {
-        tracker_.MarkUsed(address_db->Get<uint64_t>(i), el_size);
-      }
-    }
-  }
+  if (is_enabled_) tracker_.MarkVectorUsed(address_db, mask_db, el_size);
   if (tagged_memory_) tagged_memory_->Store(address_db, mask_db, el_size, db);
 }
 
diff --git a/mpact/sim/util/memory/memory_use_profiler.h b/mpact/sim/util/memory/memory_use_profiler.h
index 7a901c5..250a10d 100644
--- a/mpact/sim/util/memory/memory_use_profiler.h
+++ b/mpact/sim/util/memory/memory_use_profiler.h
@@ -54,6 +54,8 @@ class MemoryUseTracker {
   // Size of each 'use' bit store.
   static constexpr int kBitsSize = kSegmentSize / (kGranularity * 8);
   void MarkUsed(uint64_t address, int size);
+  // Marks the elements of a vector access that aren't masked off.
+  void MarkVectorUsed(DataBuffer* address_db, DataBuffer* mask_db, int el_size);
   void WriteUseProfile(std::ostream& os) const;
 
  private:
-- 
2.43.0


From a59e2938eb5f507fcc2dd81b09d4a70e8e0dfdfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:41:48 +0000
Subject: [PATCH 39/77] fix: the UART scratch register reads zero until it is
 written

---
 mpact/sim/util/other/simple_uart.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/other/simple_uart.h b/mpact/sim/util/other/simple_uart.h
index 3cff450..2dd4bb9 100644
--- a/mpact/sim/util/other/simple_uart.h
+++ b/mpact/sim/util/other/simple_uart.h
@@ -64,7 +64,7 @@ class SimpleUart : public MemoryInterface {
   uint32_t divisor_high_byte_ = 0;
   uint32_t divisor_low_byte_ = 0;
   uint32_t interrupt_enable_ = 0;
-  uint32_t scratch_;
+  uint32_t scratch_ = 0;
   std::ostream* output_;
 };
 
-- 
2.43.0


From 8d8e61bfe66060efaa9173fb7c635fcf15542d55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:44 +0000
Subject: [PATCH 40/77] fix: renode step reports more than 2^32 executed
 instructions correctly

---
 mpact/sim/util/renode/renode_mpact.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 0b96319..08df908 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -393,7 +393,7 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
     return 0;
   }
   // Perform the stepping.
-  uint32_t total_executed = 0;
+  uint64_t total_executed = 0;
   while (num_to_step > 0) {
     // Check how far to step, and make multiple calls if the number
     // is greater than <int>::max();
-- 
2.43.0


From b0a556fa7a67941dea9e506a36c8a2dd8e53946d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:44 +0000
Subject: [PATCH 41/77] fix: renode step accepts a null status pointer on every
 path

---
 mpact/sim/util/renode/renode_mpact.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 08df908..266b1e3 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -371,7 +371,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   }
 
   if (num_to_step == 0) {
-    *status = static_cast<int32_t>(ExecutionResult::kOk);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kOk);
+    }
     return 0;
   }
 
@@ -389,7 +391,9 @@ uint64_t RenodeAgent::Step(int32_t id, uint64_t num_to_step, int32_t* status) {
   // code.
   if (halt_res.value() ==
       *RenodeDebugInterface::HaltReason::kSemihostHaltRequest) {
-    *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    if (status != nullptr) {
+      *status = static_cast<int32_t>(ExecutionResult::kAborted);
+    }
     return 0;
   }
   // Perform the stepping.
-- 
2.43.0


From 49e58c5cc9b26ccf3ea5e46e5e4ad6bd54b7a38b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:44 +0000
Subject: [PATCH 42/77] fix: renode destroy forgets the register name length of
 the instance

---
 mpact/sim/util/renode/renode_mpact.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 266b1e3..2d8acd9 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -204,6 +204,7 @@ void RenodeAgent::Destroy(int32_t id) {
 
   delete dbg_iter->second;
   core_dbg_instances_.erase(dbg_iter);
+  name_length_map_.erase(id);
 
   // Delete the memory access shim.
   auto mem_iter = renode_memory_access_.find(id);
-- 
2.43.0


From 6256f9ad8d87143c87f644bcaffdc3243f532fe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:44 +0000
Subject: [PATCH 43/77] fix: renode construct does not give two simulators the
 same name

---
 mpact/sim/util/renode/renode_mpact.cc | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 2d8acd9..629e9ea 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -142,6 +142,11 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
                                                         int32_t),
                                int32_t (*write_callback)(uint64_t, char*,
                                                          int32_t)) {
+  // Make sure that we don't reuse an instance number that may have been created
+  // through Connect.
+  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
+    RenodeAgent::count_++;
+  }
   std::string name = absl::StrCat("renode", count_);
   auto* memory_access = new RenodeMemoryAccess(read_callback, write_callback);
   auto* dbg = CreateMpactSim(name, cpu_type, memory_access);
@@ -149,11 +154,6 @@ int32_t RenodeAgent::Construct(char* cpu_type, int32_t max_name_length,
     delete memory_access;
     return -1;
   }
-  // Make sure that we don't reuse an instance number that may have been created
-  // through Connect.
-  while (core_dbg_instances_.contains(RenodeAgent::count_)) {
-    RenodeAgent::count_++;
-  }
   core_dbg_instances_.emplace(RenodeAgent::count_, dbg);
   name_length_map_.emplace(RenodeAgent::count_, max_name_length);
   renode_memory_access_.emplace(RenodeAgent::count_, memory_access);
-- 
2.43.0


From e33538534ca43fc69df1e7ff37dcb45918b48371 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:48:44 +0000
Subject: [PATCH 44/77] fix: renode load_image reports read errors and writes
 no empty block

---
 mpact/sim/util/renode/renode_mpact.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_mpact.cc b/mpact/sim/util/renode/renode_mpact.cc
index 629e9ea..a4f4a28 100644
--- a/mpact/sim/util/renode/renode_mpact.cc
+++ b/mpact/sim/util/renode/renode_mpact.cc
@@ -344,6 +344,7 @@ int32_t RenodeAgent::LoadImage(int32_t id, const char* file_name,
     image_file.read(buffer, kBufferSize);
     // Get the number of bytes that was read.
     gcount = image_file.gcount();
+    if (gcount == 0) break;
     // Write to the simulator memory.
     auto res = dbg->WriteMemory(load_address, buffer, gcount);
     // Check that the write succeeded, increment address if it did.
@@ -356,7 +357,11 @@ int32_t RenodeAgent::LoadImage(int32_t id, const char* file_name,
       return -1;
     }
     load_address += gcount;
-  } while (image_file.good() && (gcount > 0));
+  } while (image_file.good());
+  if (image_file.bad()) {
+    LOG(ERROR) << "LoadImage: Failed to read the input file";
+    return -1;
+  }
   return 0;
 }
 
-- 
2.43.0


From d6cad4b3983eef64382c0f6ce26f7a039d32d337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:05:53 +0000
Subject: [PATCH 45/77] fix: a halt during a renode step does not mark the
 program as done

---
 mpact/sim/util/renode/renode_cli_top.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 6292c2b..2916445 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -88,7 +88,6 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
       if ((halt_reason != *HaltReason::kProgramDone) &&
           (halt_reason != *HaltReason::kNone)) {
         cli_status_ = RunStatus::kHalted;
-        program_done_ = true;
         continue;
       }
       // ProgramHalted request halts the simulation. So transfer control and
-- 
2.43.0


From 8e26dfe484ffa5228873a505383298cca29abd38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:06:18 +0000
Subject: [PATCH 46/77] fix: a failed renode step leaves no steps for the CLI
 to take

---
 mpact/sim/util/renode/renode_cli_top.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index 2916445..f605fa5 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -101,6 +101,8 @@ absl::StatusOr<int> RenodeCLITop::RenodeStep(int num) {
       if (renode_steps_to_take_ <= renode_steps_taken_) break;
     } else {
       status = res.status();
+      // The request is over, so there are no more steps for the CLI to take.
+      renode_steps_to_take_ = renode_steps_taken_;
       break;
     }
   }
-- 
2.43.0


From 86ca4b05433d49e95d1c4c77f5b0e6cb81abcab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:15 +0000
Subject: [PATCH 47/77] fix: the socket CLI closes each descriptor once, and
 not while its thread uses it

Both stream buffers and the destructor closed the connection, and the
destructor raced with the thread: it missed a connection accepted at the
same time (and then waited for it for ever), and closed the server socket
before the thread had called accept on it.
---
 mpact/sim/util/renode/socket_cli.cc      | 62 +++++++++++++++---------
 mpact/sim/util/renode/socket_cli.h       |  7 ++-
 mpact/sim/util/renode/socket_streambuf.h |  8 +--
 3 files changed, 49 insertions(+), 28 deletions(-)

diff --git a/mpact/sim/util/renode/socket_cli.cc b/mpact/sim/util/renode/socket_cli.cc
index 4185f38..b59a263 100644
--- a/mpact/sim/util/renode/socket_cli.cc
+++ b/mpact/sim/util/renode/socket_cli.cc
@@ -14,10 +14,10 @@
 
 #include "mpact/sim/util/renode/socket_cli.h"
 
-#include <fcntl.h>
 #include <netinet/in.h>
 #include <sys/socket.h>
 #include <sys/types.h>
+#include <unistd.h>
 
 #include <cerrno>
 #include <cstring>
@@ -29,6 +29,7 @@
 
 #include "absl/functional/any_invocable.h"
 #include "absl/log/log.h"
+#include "absl/synchronization/mutex.h"
 #include "mpact/sim/generic/debug_command_shell_interface.h"
 #include "mpact/sim/util/renode/socket_streambuf.h"
 
@@ -85,21 +86,29 @@ SocketCLI::SocketCLI(int port, DebugCommandShellInterface& dbg_shell,
   // Launch CLI thread.
   cli_thread_ = std::thread([this, port]() {
     // Accept the connection and set up streams.
-    cli_fd_ = accept(server_socket_, /*addr=*/nullptr, /*addrlen=*/nullptr);
-    if (cli_fd_ == -1) {
+    int cli_fd =
+        accept(server_socket_, /*addr=*/nullptr, /*addrlen=*/nullptr);
+    bool stopping;
+    {
+      absl::MutexLock lock(&connection_mutex_);
+      stopping = stopping_;
+      if (!stopping) cli_fd_ = cli_fd;
+    }
+    if (cli_fd == -1) {
       good_ = false;
       LOG(ERROR) << "Failed to accept connection on port " << port << ": "
                  << strerror(errno);
+    } else if (stopping) {
+      // The destructor didn't see this connection, so don't serve it.
+      (void)close(cli_fd);
     } else {
       good_ = true;
       // Create input and output streams attached to the socket from which the
       // cli will read commands/write responses.
-      SocketStreambuf out_buf(cli_fd_);
-      SocketStreambuf in_buf(cli_fd_);
+      SocketStreambuf out_buf(cli_fd);
+      SocketStreambuf in_buf(cli_fd);
       std::ostream os(&out_buf);
-      if (!os.good()) return;
       std::istream is(&in_buf);
-      if (!is.good()) return;
       // Notify that CLI is connected.
       is_connected_cb_(true);
       // Start the CLI.
@@ -107,37 +116,44 @@ SocketCLI::SocketCLI(int port, DebugCommandShellInterface& dbg_shell,
       dbg_shell_.Run(is, os);
       // Notify that CLI is disconnected.
       is_connected_cb_(false);
+      // Once it is closed the destructor must not see the fd.
+      absl::MutexLock lock(&connection_mutex_);
+      cli_fd_ = -1;
+      int err = close(cli_fd);
+      if (err != 0) {
+        LOG(ERROR) << "Failed to close client socket " << cli_fd << ": "
+                   << strerror(errno);
+      }
     }
     good_ = false;
   });
 }
 
 SocketCLI::~SocketCLI() {
-  // Shutdown the connection.
-  if (cli_fd_ != -1) {
-    (void)shutdown(cli_fd_, SHUT_RDWR);
-    int err = close(cli_fd_);
-    if (err != 0) {
-      LOG(ERROR) << "Failed to close client socket " << cli_fd_ << ": "
-                 << strerror(errno);
-    }
+  // Shutdown the connection. This ends any read or write on it. The thread
+  // closes it.
+  {
+    absl::MutexLock lock(&connection_mutex_);
+    stopping_ = true;
+    if (cli_fd_ != -1) (void)shutdown(cli_fd_, SHUT_RDWR);
   }
+  // Shutdown the server socket. This ends any wait for a connection. It can
+  // only be closed once the thread no longer uses it.
   if (server_socket_ != -1) {
     int res = shutdown(server_socket_, SHUT_RDWR);
     if (res != 0) {
       LOG(ERROR) << "Failed to shutdown server socket " << server_socket_
                  << ": " << strerror(errno);
     }
-    res = fcntl(server_socket_, F_GETFD);
-    if (res >= 0) {
-      int err = close(server_socket_);
-      if (err != 0) {
-        LOG(ERROR) << "Failed to close server socket " << server_socket_ << ": "
-                   << strerror(errno);
-      }
-    }
   }
   if (cli_thread_.joinable()) cli_thread_.join();
+  if (server_socket_ != -1) {
+    int err = close(server_socket_);
+    if (err != 0) {
+      LOG(ERROR) << "Failed to close server socket " << server_socket_ << ": "
+                 << strerror(errno);
+    }
+  }
 }
 
 }  // namespace renode
diff --git a/mpact/sim/util/renode/socket_cli.h b/mpact/sim/util/renode/socket_cli.h
index 74124a8..2375ccb 100644
--- a/mpact/sim/util/renode/socket_cli.h
+++ b/mpact/sim/util/renode/socket_cli.h
@@ -5,9 +5,11 @@
 #include <sys/socket.h>
 #include <sys/types.h>
 
+#include <atomic>
 #include <thread>  // NOLINT
 
 #include "absl/functional/any_invocable.h"
+#include "absl/synchronization/mutex.h"
 #include "mpact/sim/generic/debug_command_shell_interface.h"
 #include "mpact/sim/util/program_loader/elf_program_loader.h"
 
@@ -38,8 +40,11 @@ class SocketCLI {
  private:
   DebugCommandShellInterface& dbg_shell_;
   std::thread cli_thread_;
-  bool good_ = false;
+  std::atomic<bool> good_ = false;
   int server_socket_ = -1;
+  // Protects the connection fd and the flag that tells the thread to stop.
+  absl::Mutex connection_mutex_;
+  bool stopping_ = false;
   int cli_fd_ = -1;
   absl::AnyInvocable<void(bool)> is_connected_cb_;
 };
diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index 5408563..1bb5be0 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -27,17 +27,17 @@ namespace renode {
 // This class is used to provide a streambuf interface to a socket file
 // descriptor, so that it can be used to access a socket as an istream/ostream.
 // The overflow and underflow methods are the bare minimum that's required to
-// implement to make this happen. No buffering is performed.
+// implement to make this happen. No buffering is performed. The file descriptor
+// may be shared by several streambufs, so it is left to its owner to close it.
 class SocketStreambuf : public std::streambuf {
  public:
   explicit SocketStreambuf(int fd) : fd_(fd) {}
-  ~SocketStreambuf() override { close(fd_); }
+  ~SocketStreambuf() override = default;
 
   // On overflow write character to the socket fd.
   int overflow(int c) override {
     if (c == EOF) {
-      close(fd_);
-      return c;
+      return traits_type::not_eof(c);
     }
     if (c == '\xa') {
       write(fd_, "\r\n", 2);
-- 
2.43.0


From 38d94c216da63f15acea8957ce6a98c4dd018602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:29:56 +0000
Subject: [PATCH 48/77] fix: the socket CLI stream reports failed writes and
 takes a failed read as end of input

A failed read was taken as a character (whatever was read last), and
characters were lost on interrupted and short writes.
---
 mpact/sim/util/renode/socket_streambuf.h | 46 ++++++++++++++++++------
 1 file changed, 36 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/util/renode/socket_streambuf.h b/mpact/sim/util/renode/socket_streambuf.h
index 1bb5be0..bbe33f3 100644
--- a/mpact/sim/util/renode/socket_streambuf.h
+++ b/mpact/sim/util/renode/socket_streambuf.h
@@ -16,6 +16,8 @@
 
 #include <unistd.h>
 
+#include <cerrno>
+#include <cstddef>
 #include <cstdio>
 #include <streambuf>
 
@@ -34,32 +36,56 @@ class SocketStreambuf : public std::streambuf {
   explicit SocketStreambuf(int fd) : fd_(fd) {}
   ~SocketStreambuf() override = default;
 
-  // On overflow write character to the socket fd.
+  // On overflow write character to the socket fd. Returns eof if the character
+  // could not be written.
   int overflow(int c) override {
     if (c == EOF) {
       return traits_type::not_eof(c);
     }
     if (c == '\xa') {
-      write(fd_, "\r\n", 2);
-      return c;
+      return Write("\r\n", 2) ? c : traits_type::eof();
     }
-    write(fd_, &c, 1);
-    return c;
+    char ch = traits_type::to_char_type(c);
+    return Write(&ch, 1) ? c : traits_type::eof();
   }
 
-  // On underflow read character from the socket fd.
+  // On underflow read character from the socket fd. A failed read is treated as
+  // end of file.
   std::streambuf::int_type underflow() override {
-    int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+    int count = ReadChar();
+    if (count <= 0) return traits_type::eof();
     if (ch_ == '\r') {
-      count = read(fd_, &ch_, 1);
-      if (count == 0) return traits_type::eof();
+      count = ReadChar();
+      if (count <= 0) return traits_type::eof();
     }
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
   }
 
  private:
+  // Write all the characters, continuing after interrupted and short writes.
+  bool Write(const char* str, size_t size) {
+    while (size > 0) {
+      ssize_t count = write(fd_, str, size);
+      if (count < 0) {
+        if (errno == EINTR) continue;
+        return false;
+      }
+      str += count;
+      size -= count;
+    }
+    return true;
+  }
+
+  // Read one character into ch_.
+  int ReadChar() {
+    int count;
+    do {
+      count = read(fd_, &ch_, 1);
+    } while (count < 0 && errno == EINTR);
+    return count;
+  }
+
   char ch_;
   int fd_;
 };
-- 
2.43.0


From bb0ec6e49750e317bb6d1ed6e86cb7ba409e8a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:39:27 +0000
Subject: [PATCH 49/77] fix: loading another elf file forgets the symbols and
 stack size of the previous one

The symbol accessors of the previous file refer to sections that the elf
reader frees when it loads the next file.
---
 mpact/sim/util/program_loader/elf_program_loader.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index 6ebb974..362bc6d 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -62,6 +62,17 @@ ElfProgramLoader::~ElfProgramLoader() {
 // Only load the program into the elf reader so that symbols can be looked up.
 absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
     const std::string& file_name) {
+  // Forget any file that was loaded previously. Loading a file into the elf
+  // reader invalidates the sections that the symbol accessors refer to.
+  loaded_ = false;
+  for (auto* symtab : symbol_accessors_) {
+    delete symtab;
+  }
+  symbol_accessors_.clear();
+  fcn_symbol_map_.clear();
+  function_range_map_.clear();
+  has_stack_size_ = false;
+  stack_size_ = 0;
   struct stat buffer;
   auto result = stat(file_name.c_str(), &buffer);
   if (result == -1) {
-- 
2.43.0


From e90f2445bb1b7e008c701184e83bd849b6a99336 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:40:49 +0000
Subject: [PATCH 50/77] fix: a function symbol without a size does not hide the
 function it is in

---
 mpact/sim/util/program_loader/elf_program_loader.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/program_loader/elf_program_loader.cc b/mpact/sim/util/program_loader/elf_program_loader.cc
index 362bc6d..7c2cbdc 100644
--- a/mpact/sim/util/program_loader/elf_program_loader.cc
+++ b/mpact/sim/util/program_loader/elf_program_loader.cc
@@ -110,8 +110,11 @@ absl::StatusOr<uint64_t> ElfProgramLoader::LoadSymbols(
                          other);
       if (type == ELFIO::STT_FUNC) {
         fcn_symbol_map_.emplace(value, name);
+        // A symbol without a size (e.g., a label) covers no addresses.
+        auto scaled_size = size / text_size_scale_;
+        if (scaled_size == 0) continue;
         function_range_map_.insert(
-            std::make_pair(AddressRange(value, size / text_size_scale_), name));
+            std::make_pair(AddressRange(value, scaled_size), name));
       }
     }
   }
-- 
2.43.0


From 8a3f6cb95794f93d091977391ed33b8c6fe6b843 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:02:47 +0000
Subject: [PATCH 51/77] fix: gdbserver closes its sockets once, ends every
 session and does not take i/o errors for data

---
 mpact/sim/util/gdbserver/gdbserver.cc | 53 ++++++++++++++++++---------
 mpact/sim/util/gdbserver/gdbserver.h  | 36 ++++++++++++------
 2 files changed, 61 insertions(+), 28 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 7325d9b..5e1844f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -14,10 +14,10 @@
 
 #include "mpact/sim/util/gdbserver/gdbserver.h"
 
-#include <fcntl.h>
 #include <netinet/in.h>
 #include <sys/socket.h>
 #include <sys/types.h>
+#include <unistd.h>
 
 #include <cerrno>
 #include <cstddef>
@@ -122,20 +122,47 @@ GdbServer::GdbServer(
 
 GdbServer::~GdbServer() {
   Terminate();
+  DeleteStreams();
+}
+
+void GdbServer::DeleteStreams() {
   delete os_;
+  os_ = nullptr;
   delete is_;
+  is_ = nullptr;
   delete out_buf_;
+  out_buf_ = nullptr;
   delete in_buf_;
+  in_buf_ = nullptr;
 }
 
 bool GdbServer::Connect(int port) {
-  good_ = true;
   if (port <= 0) {
     return false;
   }
+  // Each session starts from the default protocol settings.
+  DeleteStreams();
+  no_ack_mode_ = false;
+  no_ack_mode_latch_ = false;
+  error_message_supported_ = false;
+  thread_suffix_ = false;
+  thread_select_.clear();
+  good_ = true;
+  bool result = RunSession(port);
+  Terminate();
+  return result;
+}
+
+bool GdbServer::RunSession(int port) {
   // Create the socket on the given port.
   server_socket_ =
       socket(/*domain=*/AF_INET, /*type=*/SOCK_STREAM, /*protocol=*/0);
+  if (server_socket_ == -1) {
+    good_ = false;
+    LOG(ERROR) << absl::StrFormat("Failed to create socket: %s",
+                                  strerror(errno));
+    return false;
+  }
   int one = 1;
   int err =
       setsockopt(server_socket_, SOL_SOCKET, SO_REUSEADDR, &one, sizeof(one));
@@ -190,7 +217,6 @@ bool GdbServer::Connect(int port) {
     good_ = false;
     LOG(ERROR) << absl::StrFormat("Failed handshake with GDB client on port %d",
                                   port);
-    Terminate();
     return false;
   }
   // Now read commands from the gdbserver client and process them.
@@ -201,14 +227,12 @@ bool GdbServer::Connect(int port) {
     if (val != '$') {
       if (val == 0xff) {
         LOG(INFO) << "Client disconnected";
-        Terminate();
         return false;
       }
       LOG(ERROR) << absl::StrFormat(
           "Failed to receive command on port %d (expected '$', but received "
           "'%c' - 0x%x)",
           port, val, static_cast<int>(val));
-      Terminate();
       return false;
     }
     buffer_[buffer_pos++] = val;
@@ -220,7 +244,6 @@ bool GdbServer::Connect(int port) {
             "Failed to receive complete command on port %d received: '%s'",
             port,
             std::string_view(reinterpret_cast<char*>(buffer_), buffer_pos));
-        Terminate();
         return false;
       }
       buffer_[buffer_pos++] = val;
@@ -241,20 +264,16 @@ bool GdbServer::Connect(int port) {
 }
 
 void GdbServer::Terminate() {
-  // Shutdown the connection.
+  // Shutdown and close the connection.
   if (cli_fd_ != -1) {
-    int res = fcntl(cli_fd_, F_GETFD);
-    if (res >= 0) {
-      (void)shutdown(cli_fd_, SHUT_RDWR);
-      (void)close(cli_fd_);
-    }
+    (void)shutdown(cli_fd_, SHUT_RDWR);
+    (void)close(cli_fd_);
+    cli_fd_ = -1;
   }
   if (server_socket_ != -1) {
-    int res = shutdown(server_socket_, SHUT_RDWR);
-    res = fcntl(server_socket_, F_GETFD);
-    if (res >= 0) {
-      (void)close(server_socket_);
-    }
+    (void)shutdown(server_socket_, SHUT_RDWR);
+    (void)close(server_socket_);
+    server_socket_ = -1;
   }
   good_ = false;
 }
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index c1e3b4d..bcc5064 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -19,6 +19,9 @@
 #ifndef MPACT_SIM_UTIL_GDBSERVER_GDBSERVER_H_
 #define MPACT_SIM_UTIL_GDBSERVER_GDBSERVER_H_
 
+#include <unistd.h>
+
+#include <cerrno>
 #include <cstdint>
 #include <cstdio>
 #include <istream>
@@ -42,26 +45,32 @@ using ::mpact::sim::generic::DebugInfo;
 // descriptor, so that it can be used to access a socket as an istream/ostream.
 // The overflow and underflow methods are the bare minimum that's required to
 // implement to make this happen. No buffering is performed. This streambuf
-// does not expand \n to \r\n or vice versa.
+// does not expand \n to \r\n or vice versa. The file descriptor is not owned by
+// the streambuf.
 class GdbSocketStreambuf : public std::streambuf {
  public:
   explicit GdbSocketStreambuf(int fd) : fd_(fd) {}
-  ~GdbSocketStreambuf() override { close(fd_); }
 
   // On overflow write character to the socket fd.
-  int overflow(int c) override {
-    if (c == EOF) {
-      close(fd_);
-      return c;
+  int_type overflow(int_type c) override {
+    if (traits_type::eq_int_type(c, traits_type::eof())) {
+      return traits_type::not_eof(c);
     }
-    write(fd_, &c, 1);
-    return c;
+    char ch = traits_type::to_char_type(c);
+    ssize_t count;
+    do {
+      count = write(fd_, &ch, 1);
+    } while ((count < 0) && (errno == EINTR));
+    return count == 1 ? c : traits_type::eof();
   }
 
   // On underflow read character from the socket fd.
-  std::streambuf::int_type underflow() override {
-    int count = read(fd_, &ch_, 1);
-    if (count == 0) return traits_type::eof();
+  int_type underflow() override {
+    ssize_t count;
+    do {
+      count = read(fd_, &ch_, 1);
+    } while ((count < 0) && (errno == EINTR));
+    if (count != 1) return traits_type::eof();
     setg(&ch_, &ch_, &ch_ + 1);
     return traits_type::to_int_type(ch_);
   }
@@ -93,6 +102,11 @@ class GdbServer {
   bool Connect(int port);
 
  private:
+  // Open the port, accept a client, and process its commands until the session
+  // ends. Returns false if the session could not be started or failed.
+  bool RunSession(int port);
+  // Delete the streams of the previous session.
+  void DeleteStreams();
   // Terminate the connection to the GDB client.
   void Terminate();
   // Sends the given response to the GDB client. Wrapping it in the proper
-- 
2.43.0


From 912be3c5c16d02546a3bbe69c58b547bca9d9df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:52 +0000
Subject: [PATCH 52/77] fix: gdbserver does not double escaped characters or
 read past a cut escape

---
 mpact/sim/util/gdbserver/gdbserver.cc | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 5e1844f..dc56f45 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -52,18 +52,18 @@ constexpr std::string_view kGDBServerVersion =
     "name:mpact-sim-gdbserver;version:1.0";
 
 // Some binary data may be escaped in the GDB command. This removes such
-// escapes after the command has been "unwrapped".
-std::string UnescapeCommand(std::string_view escaped_command) {
-  std::string command;
-  for (int i = 0; i < escaped_command.size(); ++i) {
+// escapes after the command has been "unwrapped". Returns false if the command
+// ends in the middle of an escape.
+bool UnescapeCommand(std::string_view escaped_command, std::string& command) {
+  for (size_t i = 0; i < escaped_command.size(); ++i) {
     char c = escaped_command[i];
     if (c == 0x7d) {
-      c = escaped_command[++i] ^ 0x20;
-      command.push_back(c);
+      if (++i == escaped_command.size()) return false;
+      c = escaped_command[i] ^ 0x20;
     }
     command.push_back(c);
   }
-  return command;
+  return true;
 }
 
 }  // namespace
@@ -393,7 +393,11 @@ void GdbServer::AcceptGdbCommand(std::string_view command) {
     os_->put('+');
     os_->flush();
   }
-  std::string clean_command = UnescapeCommand(command_str);
+  std::string clean_command;
+  if (!UnescapeCommand(command_str, clean_command)) {
+    LOG(ERROR) << "Incomplete escape in GDB command";
+    return SendError("incomplete escape");
+  }
   ParseGdbCommand(clean_command);
 }
 
-- 
2.43.0


From 825356add0ed6cc3aece630b684022745d6a934c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:52 +0000
Subject: [PATCH 53/77] fix: gdbserver does not overflow its buffer on
 oversized packets

---
 mpact/sim/util/gdbserver/gdbserver.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index dc56f45..49a2528 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -246,6 +246,11 @@ bool GdbServer::RunSession(int port) {
             std::string_view(reinterpret_cast<char*>(buffer_), buffer_pos));
         return false;
       }
+      // Leave room for the checksum.
+      if (buffer_pos + 2 >= sizeof(buffer_)) {
+        LOG(ERROR) << absl::StrFormat("Command on port %d is too long", port);
+        return false;
+      }
       buffer_[buffer_pos++] = val;
     } while (val != '#');
     // Next read the checksum.
-- 
2.43.0


From e040a90439a4d89683cb63553617533f57c0919f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:52 +0000
Subject: [PATCH 54/77] fix: gdbserver escapes special characters in responses

---
 mpact/sim/util/gdbserver/gdbserver.cc | 23 ++++++++++++++++++++---
 1 file changed, 20 insertions(+), 3 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 49a2528..a038deb 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -66,6 +66,20 @@ bool UnescapeCommand(std::string_view escaped_command, std::string& command) {
   return true;
 }
 
+// Escapes the characters of a response that would otherwise be taken as packet
+// delimiters, escapes, or run-length encoding.
+std::string EscapeResponse(std::string_view response) {
+  std::string escaped_response;
+  for (char c : response) {
+    if ((c == '#') || (c == '$') || (c == '}') || (c == '*')) {
+      escaped_response.push_back('}');
+      c ^= 0x20;
+    }
+    escaped_response.push_back(c);
+  }
+  return escaped_response;
+}
+
 }  // namespace
 
 namespace mpact::sim::util::gdbserver {
@@ -284,14 +298,17 @@ void GdbServer::Terminate() {
 }
 
 void GdbServer::Respond(std::string_view response) {
+  // Escape the characters that have a special meaning in a packet.
+  std::string escaped_response = EscapeResponse(response);
   // Compute the checksum of the response.
   uint8_t checksum = 0;
-  for (char c : response) {
+  for (char c : escaped_response) {
     checksum += c;
   }
   // Format the response string.
-  std::string response_str = absl::StrCat(
-      "$", response, "#", absl::StrFormat("%02x", static_cast<int>(checksum)));
+  std::string response_str =
+      absl::StrCat("$", escaped_response, "#",
+                   absl::StrFormat("%02x", static_cast<int>(checksum)));
   if (log_packets_) {
     LOG(INFO) << absl::StrFormat("Response: '%s'", response_str);
   }
-- 
2.43.0


From 12a93fd17abe27042d82999f376576275651e769 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:52 +0000
Subject: [PATCH 55/77] fix: gdbserver ends the session when the connection
 breaks during a response

---
 mpact/sim/util/gdbserver/gdbserver.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index a038deb..f8276c5 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -276,6 +276,7 @@ bool GdbServer::RunSession(int port) {
 
     AcceptGdbCommand(
         std::string_view(reinterpret_cast<char*>(buffer_), buffer_pos));
+    if (!os_->good()) break;
     buffer_pos = 0;
   }
   good_ = false;
@@ -317,14 +318,17 @@ void GdbServer::Respond(std::string_view response) {
   for (int i = 0; i < 5; ++i) {
     os_->write(response_str.data(), response_str.size());
     os_->flush();
+    // Don't try again if the connection is broken.
+    if (!os_->good()) break;
     if (no_ack_mode_) break;
     ack = is_->get();
     if (ack == '+') break;
+    if (!is_->good()) break;
     LOG(WARNING) << absl::StrFormat("Response not acknowledged ('%c' received)",
                                     ack);
   }
-  if (!no_ack_mode_ && (ack != '+')) {
-    LOG(ERROR) << "Failed to send response after 5 attempts";
+  if (!os_->good() || (!no_ack_mode_ && (ack != '+'))) {
+    LOG(ERROR) << "Failed to send response";
     Terminate();
   }
   no_ack_mode_ = no_ack_mode_latch_;
-- 
2.43.0


From 762f8aded61d6bcfcb957587d33da30e7bf40af4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:52 +0000
Subject: [PATCH 56/77] fix: gdbserver accepts packets with bytes that are not
 valid UTF-8

---
 mpact/sim/util/gdbserver/gdbserver.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index f8276c5..9aac2c8 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -84,7 +84,9 @@ std::string EscapeResponse(std::string_view response) {
 
 namespace mpact::sim::util::gdbserver {
 
-LazyRE2 GdbServer::gdb_command_re_{R"(\$([^#]*)#([0-9a-fA-F]{2}))"};
+// Commands may contain binary data, so they are matched as bytes, not as UTF-8.
+LazyRE2 GdbServer::gdb_command_re_{R"(\$([^#]*)#([0-9a-fA-F]{2}))",
+                                   RE2::Latin1};
 LazyRE2 GdbServer::thread_re_{R"(;?thread\:(\d+);?)"};
 LazyRE2 GdbServer::xfer_read_target_re_{
     R"(Xfer\:features\:read\:target\.xml\:([0-9a-fA-F]+),([0-9a-fA-F]+))"};
-- 
2.43.0


From 64979130ed44ae34d4f0b39428c48898d37ce34e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:03:52 +0000
Subject: [PATCH 57/77] fix: gdbserver does not access the first character of
 empty commands

---
 mpact/sim/util/gdbserver/gdbserver.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 9aac2c8..fb4648e 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -430,6 +430,8 @@ void GdbServer::AcceptGdbCommand(std::string_view command) {
 }
 
 void GdbServer::ParseGdbCommand(std::string_view command) {
+  // The empty command is not supported.
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       // The command is not handled, so respond with an empty string which will
@@ -738,7 +740,7 @@ void GdbServer::GdbVContinue(std::string_view command) {
   if (command == "?") {
     return Respond("vCont;c;s;");
   }
-  if (command.front() != ';') {
+  if (command.empty() || (command.front() != ';')) {
     return SendError("invalid vCont command");
   }
   command.remove_prefix(1);
@@ -858,6 +860,7 @@ void GdbServer::GdbDetach() {
 
 void GdbServer::GdbSelectThread(std::string_view command) {
   int thread_id;
+  if (command.empty()) return SendError("invalid thread select");
   char op = command.front();
   command.remove_prefix(1);
   if (command == "-1") {
@@ -1128,6 +1131,7 @@ void GdbServer::GdbWriteRegister(int thread_id,
 }
 
 void GdbServer::GdbQuery(std::string_view command) {
+  if (command.empty()) return Respond("");
   switch (command.front()) {
     default:
       break;
@@ -1363,7 +1367,7 @@ void GdbServer::GdbRemoveBreakpoint(char type, std::string_view address_str,
 
 void GdbServer::GdbSupported(std::string_view command) {
   // Read supported GDB features.
-  if (command.front() == ':') {
+  if (!command.empty() && (command.front() == ':')) {
     command.remove_prefix(1);
     std::vector<std::string> features = absl::StrSplit(command, ';');
     for (const std::string& feature : features) {
-- 
2.43.0


From 6a92803e0bfada33458734013e33bcb7a055db92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:08 +0000
Subject: [PATCH 58/77] fix: gdbserver rejects thread ids for which there is no
 core

---
 mpact/sim/util/gdbserver/gdbserver.cc | 15 +++++++++++++--
 mpact/sim/util/gdbserver/gdbserver.h  |  3 +++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index fb4648e..c51524f 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -355,15 +355,19 @@ int GdbServer::GetThreadId(char command_type, std::string_view command) {
       bool success = absl::SimpleAtoi(thread_id_str, &thread_id);
       if (!success) {
         LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", thread_id_str);
-        return 1;
+        return 0;
       }
       return thread_id;
     }
     LOG(ERROR) << absl::StrFormat("Invalid thread id: '%s'", command);
-    return 1;
+    return 0;
   }
 }
 
+bool GdbServer::IsValidThreadId(int thread_id) const {
+  return (thread_id >= 1) && (thread_id <= core_debug_interfaces_.size());
+}
+
 void GdbServer::AcceptGdbCommand(std::string_view command) {
   if (log_packets_) {
     LOG(INFO) << absl::StrFormat("Received: '%s'", command);
@@ -648,6 +652,7 @@ std::string GdbServer::GetHaltReason(int thread_id) {
 void GdbServer::GdbHaltReason() { Respond(GetHaltReason(0)); }
 
 void GdbServer::GdbContinue(int thread_id, std::string_view command) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   // If the core is halted due to program done, then just respond with W00.
   if (halt_reasons_[thread_index] == *HaltReason::kProgramDone) {
@@ -872,6 +877,7 @@ void GdbServer::GdbSelectThread(std::string_view command) {
     }
   }
   if (thread_id == 0) thread_id = 1;
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   thread_select_[op] = thread_id;
   Respond("OK");
 }
@@ -992,6 +998,7 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
 }
 
 void GdbServer::GdbReadGprRegisters(int thread_id) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   std::string response;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
@@ -1014,6 +1021,7 @@ void GdbServer::GdbReadGprRegisters(int thread_id) {
 }
 
 void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
@@ -1041,6 +1049,7 @@ void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
 
 void GdbServer::GdbReadRegister(int thread_id,
                                 std::string_view register_number_str) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   uint64_t register_number;
   bool success = absl::SimpleHexAtoi(register_number_str, &register_number);
@@ -1097,6 +1106,7 @@ void GdbServer::GdbReadRegister(int thread_id,
 void GdbServer::GdbWriteRegister(int thread_id,
                                  std::string_view register_number_str,
                                  std::string_view register_value_str) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   uint64_t register_number;
   bool success = absl::SimpleHexAtoi(register_number_str, &register_number);
@@ -1212,6 +1222,7 @@ void GdbServer::GdbSet(std::string_view command) {
 }
 
 void GdbServer::GdbStep(int thread_id) {
+  if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
   auto result = core_debug_interfaces_[thread_index]->Step(1);
   if (!result.ok()) {
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index bcc5064..8e50fa2 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -115,7 +115,10 @@ class GdbServer {
   // Sends the given error message to the GDB client in an error packet.
   void SendError(std::string_view error);
 
+  // Returns the thread id the command applies to, or 0 if it is invalid.
   int GetThreadId(char command_type, std::string_view command);
+  // Returns true if there is a thread with the given id.
+  bool IsValidThreadId(int thread_id) const;
   // Takes a GDB command string, verifies the checksum, and if it is valid,
   // then submits the command to be parsed.
   void AcceptGdbCommand(std::string_view command);
-- 
2.43.0


From 424893bdd90069f9df7147fd95856bc0a91a8c75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:08 +0000
Subject: [PATCH 59/77] fix: gdbserver answers a continue command when the core
 is already running

---
 mpact/sim/util/gdbserver/gdbserver.cc | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index c51524f..572347e 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -686,15 +686,15 @@ void GdbServer::GdbContinue(int thread_id, std::string_view command) {
       LOG(ERROR) << "Failed to run core: " << status.message();
       return SendError(status.message());
     }
-    // Now wait for the core to halt.
-    status = core_debug_interfaces_[thread_index]->Wait();
-    if (!status.ok()) {
-      LOG(ERROR) << "Failed to wait for core to halt: " << status.message();
-      return SendError(status.message());
-    }
-    // Get the halt reason.
-    Respond(GetHaltReason(thread_index));
   }
+  // Now wait for the core to halt.
+  auto status = core_debug_interfaces_[thread_index]->Wait();
+  if (!status.ok()) {
+    LOG(ERROR) << "Failed to wait for core to halt: " << status.message();
+    return SendError(status.message());
+  }
+  // Get the halt reason.
+  Respond(GetHaltReason(thread_index));
 }
 
 void GdbServer::ContinueThread(int thread_id) {
-- 
2.43.0


From ad5e16dc95bd374079bffde173bcb70d991dbe96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:08 +0000
Subject: [PATCH 60/77] fix: gdbserver reports the end of the program with a
 well-formed exit reply, also after a step

---
 mpact/sim/util/gdbserver/gdbserver.cc | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 572347e..1133389 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -643,8 +643,8 @@ std::string GdbServer::GetHaltReason(int thread_id) {
       break;
     case *HaltReason::kProgramDone:
     case *HaltReason::kSemihostHaltRequest:
-      halt_reason_str = "W00thread:1;";
-      break;
+      // The exit reply doesn't have any thread or register information.
+      return "W00";
   }
   return absl::StrCat(halt_reason_str, encoded_pc);
 }
@@ -1229,6 +1229,15 @@ void GdbServer::GdbStep(int thread_id) {
     SendError(result.status().message());
     return;
   }
+  // If the program finished, report that instead of the step.
+  auto halt_reason = core_debug_interfaces_[thread_index]->GetLastHaltReason();
+  if (halt_reason.ok()) {
+    halt_reasons_[thread_index] = halt_reason.value();
+    if ((halt_reason.value() == *HaltReason::kProgramDone) ||
+        (halt_reason.value() == *HaltReason::kSemihostHaltRequest)) {
+      return Respond("W00");
+    }
+  }
   Respond("T05");
 }
 
-- 
2.43.0


From 0013f2945f9709db35b786e0b27f66f8d7a97465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:08 +0000
Subject: [PATCH 61/77] fix: gdbserver vCont resumes each thread once and only
 when the whole command is valid

---
 mpact/sim/util/gdbserver/gdbserver.cc | 83 +++++++++++++++------------
 mpact/sim/util/gdbserver/gdbserver.h  |  5 +-
 2 files changed, 50 insertions(+), 38 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 1133389..f2b06f3 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -697,48 +697,50 @@ void GdbServer::GdbContinue(int thread_id, std::string_view command) {
   Respond(GetHaltReason(thread_index));
 }
 
-void GdbServer::ContinueThread(int thread_id) {
+absl::Status GdbServer::ContinueThread(int thread_id) {
   int thread_index = thread_id - 1;
   // If the program is done, do nothing.
   if (halt_reasons_[thread_index] == *HaltReason::kProgramDone) {
-    return;
+    return absl::OkStatus();
   }
   auto result = core_debug_interfaces_[thread_index]->GetRunStatus();
   if (!result.ok()) {
     LOG(ERROR) << "Failed to get run status for thread " << thread_id << ": "
                << result.status().message();
-    return;
+    return result.status();
   }
   if (result.value() == generic::CoreDebugInterface::RunStatus::kHalted) {
     auto status = core_debug_interfaces_[thread_index]->Run();
     if (!status.ok()) {
       LOG(ERROR) << "Continue on thread " << thread_id
-                 << " failed: " << result.status().message();
-      return;
+                 << " failed: " << status.message();
+      return status;
     }
   }
+  return absl::OkStatus();
 }
 
-void GdbServer::StepThread(int thread_id) {
+absl::Status GdbServer::StepThread(int thread_id) {
   int thread_index = thread_id - 1;
   // If the program is done, do nothing.
   if (halt_reasons_[thread_index] == *HaltReason::kProgramDone) {
-    return;
+    return absl::OkStatus();
   }
   auto result = core_debug_interfaces_[thread_index]->GetRunStatus();
   if (!result.ok()) {
     LOG(ERROR) << "Failed to get run status for thread " << thread_id << ": "
                << result.status().message();
-    return;
+    return result.status();
   }
   if (result.value() == generic::CoreDebugInterface::RunStatus::kHalted) {
     auto result = core_debug_interfaces_[thread_index]->Step(1);
     if (!result.ok()) {
       LOG(ERROR) << "Step on thread " << thread_id
                  << " failed: " << result.status().message();
-      return;
+      return result.status();
     }
   }
+  return absl::OkStatus();
 }
 
 void GdbServer::GdbVContinue(std::string_view command) {
@@ -750,45 +752,54 @@ void GdbServer::GdbVContinue(std::string_view command) {
   }
   command.remove_prefix(1);
   std::vector<std::string> parts = absl::StrSplit(command, ';');
-  for (std::string& part : parts) {
+  // Determine the action for each thread before any of them is resumed. The
+  // leftmost action that applies to a thread is used.
+  std::vector<char> actions(core_debug_interfaces_.size(), '\0');
+  for (const std::string& part : parts) {
     std::string_view part_view = part;
-    std::string_view action = part_view.substr(0, 1);
-    // Get the thread id.
-    std::string_view tid_str = part_view.substr(part.find(':') + 1);
-    // If the tread id is -1, then apply the action to all threads.
-    if (tid_str == "-1") {  // all threads
-      if (action == "c") {  // continue
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
-          ContinueThread(tid);
-        }
-      } else if (action == "s") {  // step
-        for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
-          StepThread(tid);
+    size_t pos = part_view.find(':');
+    std::string_view action = part_view.substr(0, pos);
+    if ((action != "c") && (action != "s")) {
+      return SendError("invalid vCont action");
+    }
+    int first_tid = 1;
+    int last_tid = core_debug_interfaces_.size();
+    // If there is no thread id, or it is -1, then the action applies to all
+    // threads. Otherwise, it applies to the specified thread.
+    if (pos != std::string_view::npos) {
+      std::string_view tid_str = part_view.substr(pos + 1);
+      if (tid_str != "-1") {
+        int tid;
+        bool success = absl::SimpleHexAtoi(tid_str, &tid);
+        if (!success || !IsValidThreadId(tid)) {
+          return SendError("invalid thread id");
         }
+        first_tid = tid;
+        last_tid = tid;
       }
-      continue;
-    }
-    // Otherwise, apply the action to the specified thread.
-    int tid;
-    bool success = absl::SimpleHexAtoi(tid_str, &tid);
-    if (!success || (tid > core_debug_interfaces_.size())) {
-      SendError("invalid thread id");
-      return;
     }
-    if (action == "c") {
-      ContinueThread(tid);
-    } else if (action == "s") {
-      StepThread(tid);
+    for (int tid = first_tid; tid <= last_tid; ++tid) {
+      if (actions[tid - 1] == '\0') actions[tid - 1] = action.front();
     }
   }
+  for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
+    absl::Status status = absl::OkStatus();
+    if (actions[tid - 1] == 'c') status = ContinueThread(tid);
+    if (actions[tid - 1] == 's') status = StepThread(tid);
+    if (!status.ok()) return SendError(status.message());
+  }
   // Wait for all threads that haven't already finished to halt.
   for (int tid = 1; tid <= core_debug_interfaces_.size(); ++tid) {
     if (halt_reasons_[tid - 1] == *HaltReason::kProgramDone) {
       continue;
     }
-    (void)core_debug_interfaces_[tid - 1]->Wait();
+    auto status = core_debug_interfaces_[tid - 1]->Wait();
+    if (!status.ok()) {
+      LOG(ERROR) << "Failed to wait for core to halt: " << status.message();
+      return SendError(status.message());
+    }
     auto result = core_debug_interfaces_[tid - 1]->GetLastHaltReason();
-    if (!result.ok()) continue;
+    if (!result.ok()) return SendError(result.status().message());
     halt_reasons_[tid - 1] = result.value();
   }
   // If the program is done we respond with W00, otherwise T05 and add the
diff --git a/mpact/sim/util/gdbserver/gdbserver.h b/mpact/sim/util/gdbserver/gdbserver.h
index 8e50fa2..c7b0588 100644
--- a/mpact/sim/util/gdbserver/gdbserver.h
+++ b/mpact/sim/util/gdbserver/gdbserver.h
@@ -32,6 +32,7 @@
 #include <vector>
 
 #include "absl/container/flat_hash_map.h"
+#include "absl/status/status.h"
 #include "absl/types/span.h"
 #include "mpact/sim/generic/core_debug_interface.h"
 #include "mpact/sim/generic/debug_info.h"
@@ -136,7 +137,7 @@ class GdbServer {
   void GdbHaltReason();
   // Continue the simulation.
   void GdbContinue(int thread_id, std::string_view command);
-  void ContinueThread(int thread_id);
+  absl::Status ContinueThread(int thread_id);
   void GdbVContinue(std::string_view command);
   // Detach from the simulator.
   void GdbDetach();
@@ -164,7 +165,7 @@ class GdbServer {
   void GdbSet(std::string_view command);
   // Step the simulator.
   void GdbStep(int thread_id);
-  void StepThread(int thread_id);
+  absl::Status StepThread(int thread_id);
   // Add a breakpoint to the simulator.
   void GdbAddBreakpoint(char type, std::string_view address_str,
                         std::string_view kind_str);
-- 
2.43.0


From 7ecf1bb5581fed90be7b8344e850ea0492bd305e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:05:08 +0000
Subject: [PATCH 62/77] fix: gdbserver names the data address in watchpoint
 stop replies

---
 mpact/sim/util/gdbserver/gdbserver.cc | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index f2b06f3..0b52011 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -841,17 +841,19 @@ void GdbServer::GdbVContinue(std::string_view command) {
       return Respond("T05thread:1;hwbreak:;");
     case *HaltReason::kDataWatchPoint: {
       core_debug_interfaces_[0]->GetWatchpointInfo(address, access_type);
-      std::string encoded_address =
-          HexEncodeNumberInTargetEndianness(debug_info_.GetGprWidth(), address);
+      std::string encoded_address = absl::StrCat(absl::Hex(address));
       // Need to differentiate between write (watch), read (rwatch), and
       // read/write (awatch) watch points.
       switch (access_type) {
         case generic::AccessType::kLoad:
-          return Respond(absl::StrCat("T05thread:1;rwatch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;rwatch:",
+                                      encoded_address, ";", encoded_pc));
         case generic::AccessType::kStore:
-          return Respond(absl::StrCat("T05thread:1;watch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;watch:",
+                                      encoded_address, ";", encoded_pc));
         case generic::AccessType::kLoadStore:
-          return Respond(absl::StrCat("T05thread:1;awatch:;", encoded_pc));
+          return Respond(absl::StrCat("T05thread:1;awatch:",
+                                      encoded_address, ";", encoded_pc));
         default:
           LOG(ERROR) << "Invalid access type: "
                      << static_cast<int>(access_type);
-- 
2.43.0


From e7deb0ca44700ffd4dc28ed799ce6a83224b3abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:08 +0000
Subject: [PATCH 63/77] fix: gdbserver checks register writes before making
 them

---
 mpact/sim/util/gdbserver/gdbserver.cc | 72 +++++++++++++++++++--------
 1 file changed, 52 insertions(+), 20 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 0b52011..99a6065 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -33,6 +33,7 @@
 #include "absl/flags/flag.h"
 #include "absl/log/log.h"
 #include "absl/status/status.h"
+#include "absl/strings/ascii.h"
 #include "absl/strings/match.h"
 #include "absl/strings/numbers.h"
 #include "absl/strings/str_cat.h"
@@ -41,6 +42,7 @@
 #include "absl/strings/string_view.h"
 #include "absl/types/span.h"
 #include "mpact/sim/generic/core_debug_interface.h"
+#include "mpact/sim/generic/data_buffer.h"
 #include "mpact/sim/generic/type_helpers.h"
 #include "re2/re2.h"
 
@@ -80,6 +82,20 @@ std::string EscapeResponse(std::string_view response) {
   return escaped_response;
 }
 
+// Decodes a string of two digit hex bytes. Returns false if it isn't one.
+bool DecodeHexBytes(std::string_view str, std::vector<uint8_t>& bytes) {
+  if (str.size() % 2 != 0) return false;
+  for (size_t i = 0; i < str.size(); i += 2) {
+    if (!absl::ascii_isxdigit(str[i]) || !absl::ascii_isxdigit(str[i + 1])) {
+      return false;
+    }
+    uint32_t value;
+    if (!absl::SimpleHexAtoi(str.substr(i, 2), &value)) return false;
+    bytes.push_back(static_cast<uint8_t>(value));
+  }
+  return true;
+}
+
 }  // namespace
 
 namespace mpact::sim::util::gdbserver {
@@ -1036,25 +1052,38 @@ void GdbServer::GdbReadGprRegisters(int thread_id) {
 void GdbServer::GdbWriteGprRegisters(int thread_id, std::string_view data) {
   if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
+  std::vector<uint8_t> bytes;
+  if (!DecodeHexBytes(data, bytes)) {
+    LOG(ERROR) << "Invalid data format";
+    return SendError("Invalid data format");
+  }
+  // Find all the registers, and make sure there is data for all of them, before
+  // writing any of them.
+  std::vector<generic::DataBuffer*> data_buffers;
+  size_t num_bytes = 0;
   for (int i = debug_info_.GetFirstGpr(); i <= debug_info_.GetLastGpr(); ++i) {
     auto it = debug_info_.debug_register_map().find(i);
-    if (it == debug_info_.debug_register_map().end()) {
-      LOG(ERROR) << "Internal error - failed to find register";
-      return SendError("Internal error - failed to find register");
-    }
+    // If the register is not found, go to the next one (assume there is a
+    // gap in the register numbers).
+    if (it == debug_info_.debug_register_map().end()) continue;
     const std::string& register_name = it->second;
     auto result = core_debug_interfaces_[thread_index]->GetRegisterDataBuffer(
         register_name);
-    for (auto& byte : result.value()->Get<uint8_t>()) {
-      if (data.empty()) {
-        LOG(ERROR) << "Invalid data format";
-        return SendError("Invalid data format");
-      }
-      std::string_view byte_str = data.substr(0, 2);
-      data.remove_prefix(2);
-      uint32_t byte_value_tmp;
-      (void)absl::SimpleHexAtoi(byte_str, &byte_value_tmp);
-      byte = static_cast<uint8_t>(byte_value_tmp);
+    if (!result.ok()) {
+      LOG(ERROR) << "Failed to write register: " << result.status().message();
+      return SendError(result.status().message());
+    }
+    data_buffers.push_back(result.value());
+    num_bytes += result.value()->size<uint8_t>();
+  }
+  if (bytes.size() < num_bytes) {
+    LOG(ERROR) << "Invalid data format";
+    return SendError("Invalid data format");
+  }
+  auto byte_iter = bytes.begin();
+  for (auto* data_buffer : data_buffers) {
+    for (auto& byte : data_buffer->Get<uint8_t>()) {
+      byte = *byte_iter++;
     }
   }
   Respond("OK");
@@ -1134,6 +1163,12 @@ void GdbServer::GdbWriteRegister(int thread_id,
     LOG(ERROR) << "Register not found: " << register_number;
     return SendError(absl::StrCat("Register not found: ", register_number));
   }
+  std::vector<uint8_t> bytes;
+  if (register_value_str.empty() ||
+      !DecodeHexBytes(register_value_str, bytes)) {
+    LOG(ERROR) << "Invalid register value: " << register_value_str;
+    return SendError("invalid register value");
+  }
   const std::string& register_name = it->second;
   auto result = core_debug_interfaces_[thread_index]->GetRegisterDataBuffer(
       register_name);
@@ -1142,13 +1177,10 @@ void GdbServer::GdbWriteRegister(int thread_id,
                << result.status().message();
     return SendError(result.status().message());
   }
+  auto byte_iter = bytes.begin();
   for (auto& byte : result.value()->Get<uint8_t>()) {
-    if (register_value_str.empty()) break;
-    std::string_view byte_str = register_value_str.substr(0, 2);
-    register_value_str.remove_prefix(2);
-    uint32_t byte_value_tmp;
-    (void)absl::SimpleHexAtoi(byte_str, &byte_value_tmp);
-    byte = static_cast<uint8_t>(byte_value_tmp);
+    if (byte_iter == bytes.end()) break;
+    byte = *byte_iter++;
   }
   Respond("OK");
 }
-- 
2.43.0


From 55e31a74c8670decb73748d99e15eeadf87c789b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:08 +0000
Subject: [PATCH 64/77] fix: gdbserver checks the data of memory writes and
 reports memory reads without data as errors

---
 mpact/sim/util/gdbserver/gdbserver.cc | 27 +++++++++++++--------------
 1 file changed, 13 insertions(+), 14 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 99a6065..e05475d 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -513,7 +513,7 @@ void GdbServer::ParseGdbCommand(std::string_view command) {
         }
         return Respond("E01");
       }
-      size_t colon_pos = command.find(':');
+      size_t colon_pos = command.find(':', comma_pos);
       if (colon_pos == std::string_view::npos) {
         LOG(ERROR) << "Invalid memory write format";
         return SendError("invalid memory write format");
@@ -955,6 +955,14 @@ void GdbServer::GdbReadMemory(std::string_view address_str,
     }
     return Respond("E01");
   }
+  // An empty response would mean that the command isn't supported.
+  if ((result.value() == 0) && (length != 0)) {
+    LOG(ERROR) << "Failed to read memory: no data";
+    if (error_message_supported_) {
+      return SendError("no data");
+    }
+    return Respond("E01");
+  }
   std::string response;
   for (int i = 0; i < result.value(); ++i) {
     absl::StrAppend(&response, absl::Hex(buffer_[i], absl::kZeroPad2));
@@ -990,25 +998,16 @@ void GdbServer::GdbWriteMemory(std::string_view address_str,
     }
     return Respond("E01");
   }
-  int num_bytes = 0;
-  for (int i = 0; (i < length) && (data.size() >= 2); ++i) {
-    num_bytes++;
-    std::string_view byte = data.substr(0, 2);
-    data.remove_prefix(2);
-    uint32_t value_tmp;
-    (void)absl::SimpleHexAtoi(byte, &value_tmp);
-    uint8_t value = static_cast<uint8_t>(value_tmp);
-    buffer_[i] = value;
-  }
-  if (num_bytes != length) {
+  std::vector<uint8_t> bytes;
+  if (!DecodeHexBytes(data, bytes) || (bytes.size() != length)) {
     LOG(ERROR) << "Length does not match data size";
     if (error_message_supported_) {
       return SendError("length does not match data size");
     }
     return Respond("E01");
   }
-  auto result =
-      core_debug_interfaces_[0]->WriteMemory(address, buffer_, num_bytes);
+  auto result = core_debug_interfaces_[0]->WriteMemory(address, bytes.data(),
+                                                       bytes.size());
   if (!result.ok()) {
     LOG(ERROR) << "Failed to write memory: " << result.status().message();
     if (error_message_supported_) {
-- 
2.43.0


From d114196ca5dc39b35b698725fa013c205cc02d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:06:08 +0000
Subject: [PATCH 65/77] fix: gdbserver skips host info fields without a value

---
 mpact/sim/util/gdbserver/gdbserver.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index e05475d..4389da9 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -1463,7 +1463,12 @@ void GdbServer::GdbHostInfo() {
   std::string response;
   for (const std::string& part : parts) {
     if (part.empty()) continue;
-    std::vector<std::string> key_value = absl::StrSplit(part, ':');
+    std::vector<std::string> key_value =
+        absl::StrSplit(part, absl::MaxSplits(':', 1));
+    if (key_value.size() != 2) {
+      LOG(ERROR) << "Invalid host info: " << part;
+      continue;
+    }
     std::string_view key = key_value[0];
     std::string_view value = key_value[1];
     if (key == "triple") {
-- 
2.43.0


From 9274d20424ed8ae58688e1eeaa60a2b47c766929 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:09:54 +0000
Subject: [PATCH 66/77] fix: gdbserver checks the address of a continue command
 before anything else

---
 mpact/sim/util/gdbserver/gdbserver.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/mpact/sim/util/gdbserver/gdbserver.cc b/mpact/sim/util/gdbserver/gdbserver.cc
index 4389da9..fbb4876 100644
--- a/mpact/sim/util/gdbserver/gdbserver.cc
+++ b/mpact/sim/util/gdbserver/gdbserver.cc
@@ -670,6 +670,12 @@ void GdbServer::GdbHaltReason() { Respond(GetHaltReason(0)); }
 void GdbServer::GdbContinue(int thread_id, std::string_view command) {
   if (!IsValidThreadId(thread_id)) return SendError("invalid thread id");
   int thread_index = thread_id - 1;
+  // The command may have the address to continue from.
+  uint64_t address = 0;
+  if (!command.empty() && !absl::SimpleHexAtoi(command, &address)) {
+    LOG(ERROR) << "Invalid address: " << command;
+    return SendError("invalid address");
+  }
   // If the core is halted due to program done, then just respond with W00.
   if (halt_reasons_[thread_index] == *HaltReason::kProgramDone) {
     Respond("W00");
@@ -684,12 +690,6 @@ void GdbServer::GdbContinue(int thread_id, std::string_view command) {
   if (run_status_res.value() ==
       generic::CoreDebugInterface::RunStatus::kHalted) {
     if (!command.empty()) {
-      uint64_t address;
-      bool success = absl::SimpleHexAtoi(command, &address);
-      if (!success) {
-        LOG(ERROR) << "Invalid address: " << command;
-        return SendError("invalid address");
-      }
       auto status =
           core_debug_interfaces_[thread_index]->WriteRegister("pc", address);
       if (!status.ok()) {
-- 
2.43.0


From c469c66e7d62466f1fe0d3eda330d240db9ab2fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:07:13 +0000
Subject: [PATCH 67/77] fix: decode cache computes its address mask in 64 bits

---
 mpact/sim/generic/decode_cache.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index 25971f9..1d2d11f 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -36,7 +36,7 @@ DecodeCache::DecodeCache(const DecodeCacheProperties& props,
     instruction_cache_ = nullptr;
     return;
   }
-  address_mask_ = (num_entries_ - 1) << address_shift_;
+  address_mask_ = static_cast<uint64_t>(num_entries_ - 1) << address_shift_;
 
   instruction_cache_ = new Instruction*[num_entries_];
   if (nullptr == instruction_cache_) {
-- 
2.43.0


From e7c649a5c27456137ac08878b8dda1f293e93ad1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:15:08 +0000
Subject: [PATCH 68/77] fix: clearing all breakpoints or action points keeps
 those that cannot be restored

---
 mpact/sim/generic/action_point_manager_base.cc | 15 ++++++++++-----
 mpact/sim/generic/breakpoint_manager.cc        | 14 ++++++++++----
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/mpact/sim/generic/action_point_manager_base.cc b/mpact/sim/generic/action_point_manager_base.cc
index 399aef6..532fbed 100644
--- a/mpact/sim/generic/action_point_manager_base.cc
+++ b/mpact/sim/generic/action_point_manager_base.cc
@@ -178,12 +178,17 @@ bool ActionPointManagerBase::IsActionEnabled(uint64_t address, int id) const {
 }
 
 void ActionPointManagerBase::ClearAllActionPoints() {
-  for (auto& [address, ap_ptr] : action_point_map_) {
-    ap_ptr->action_map.clear();
-    (void)ap_memory_interface_->WriteOriginalInstruction(ap_ptr->address);
-    delete ap_ptr;
+  for (auto it = action_point_map_.begin(); it != action_point_map_.end();) {
+    auto* ap = it->second;
+    // Keep the action point if the original instruction cannot be restored.
+    auto status = ap_memory_interface_->WriteOriginalInstruction(ap->address);
+    if (!status.ok() && (ap->num_active > 0)) {
+      ++it;
+      continue;
+    }
+    it = action_point_map_.erase(it);
+    delete ap;
   }
-  action_point_map_.clear();
 }
 
 void ActionPointManagerBase::PerformActions(uint64_t address) {
diff --git a/mpact/sim/generic/breakpoint_manager.cc b/mpact/sim/generic/breakpoint_manager.cc
index d942e98..f119f49 100644
--- a/mpact/sim/generic/breakpoint_manager.cc
+++ b/mpact/sim/generic/breakpoint_manager.cc
@@ -106,11 +106,17 @@ absl::Status BreakpointManager::EnableBreakpoint(uint64_t address) {
 }
 
 void BreakpointManager::ClearAllBreakpoints() {
-  for (auto const& [unused, bp_ptr] : breakpoint_map_) {
-    (void)action_point_manager_->ClearAction(bp_ptr->address, bp_ptr->id);
-    delete bp_ptr;
+  for (auto iter = breakpoint_map_.begin(); iter != breakpoint_map_.end();) {
+    auto* bp = iter->second;
+    auto status = action_point_manager_->ClearAction(bp->address, bp->id);
+    // Keep the breakpoint if its action could not be removed.
+    if (!status.ok() && !absl::IsNotFound(status)) {
+      ++iter;
+      continue;
+    }
+    iter = breakpoint_map_.erase(iter);
+    delete bp;
   }
-  breakpoint_map_.clear();
 }
 
 bool BreakpointManager::IsBreakpoint(uint64_t address) const {
-- 
2.43.0


From 823aeda3316c753cc588b1e21147a159bd539400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:34:18 +0000
Subject: [PATCH 69/77] fix: token fifo is oversubscribed also when it exceeds
 its own capacity

---
 mpact/sim/generic/token_fifo.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/mpact/sim/generic/token_fifo.cc b/mpact/sim/generic/token_fifo.cc
index 657672f..a48476a 100644
--- a/mpact/sim/generic/token_fifo.cc
+++ b/mpact/sim/generic/token_fifo.cc
@@ -57,7 +57,8 @@ bool TokenFifoBase::IsFull() const {
 }
 
 bool TokenFifoBase::IsOverSubscribed() const {
-  return Reserved() > token_store_->available();
+  return FifoBase::IsOverSubscribed() ||
+         (Reserved() > token_store_->available());
 }
 
 bool TokenFifoBase::Push(DataBuffer* db) {
-- 
2.43.0


From 77d8b9ea142389a4c1bb088602a0242f5a933530 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:42:58 +0000
Subject: [PATCH 70/77] fix: atomic memory links every granule an access
 touches

---
 mpact/sim/util/memory/atomic_memory.cc        | 13 ++++++++-----
 mpact/sim/util/memory/atomic_tagged_memory.cc | 13 ++++++++-----
 2 files changed, 16 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/util/memory/atomic_memory.cc b/mpact/sim/util/memory/atomic_memory.cc
index 88c775c..4b8bdf4 100644
--- a/mpact/sim/util/memory/atomic_memory.cc
+++ b/mpact/sim/util/memory/atomic_memory.cc
@@ -161,8 +161,9 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
   db->set_latency(0);
   // Load-linked.
   if (op == Operation::kLoadLinked) {
-    uint64_t tag = address >> kTagShift;
-    if (ll_tag_set_.find(tag) == ll_tag_set_.end()) {
+    // Link every tag the access touches.
+    uint64_t last = (address + el_size - 1) >> kTagShift;
+    for (uint64_t tag = address >> kTagShift; tag <= last; ++tag) {
       ll_tag_set_.insert(tag);
     }
     memory_->Load(address, db, inst, context);
@@ -173,13 +174,15 @@ absl::Status AtomicMemory::PerformMemoryOp(uint64_t address, Operation op,
     if (GetDb(el_size) == nullptr)
       return absl::InternalError(
           absl::StrCat("Illegal element size (", el_size, ")"));
-    uint64_t tag = address >> kTagShift;
+    // The store touches at most two tags.
+    uint64_t first = address >> kTagShift;
+    uint64_t last = (address + el_size - 1) >> kTagShift;
     int value = 1;
     // Determine if the store is successful.
-    if (ll_tag_set_.find(tag) != ll_tag_set_.end()) {
+    if (ll_tag_set_.contains(first) && ll_tag_set_.contains(last)) {
       // Successful SC. Store the value and set result to 0.
       memory_->Store(address, db);
-      ll_tag_set_.erase(tag);
+      ClearLinks(address, el_size);
       value = 0;
     }
     auto res = WriteDb(db, value);
diff --git a/mpact/sim/util/memory/atomic_tagged_memory.cc b/mpact/sim/util/memory/atomic_tagged_memory.cc
index 40a2702..3fec87c 100644
--- a/mpact/sim/util/memory/atomic_tagged_memory.cc
+++ b/mpact/sim/util/memory/atomic_tagged_memory.cc
@@ -178,8 +178,9 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
   db->set_latency(0);
   // Load-linked.
   if (op == Operation::kLoadLinked) {
-    uint64_t tag = address >> kTagShift;
-    if (ll_tag_set_.find(tag) == ll_tag_set_.end()) {
+    // Link every tag the access touches.
+    uint64_t last = (address + el_size - 1) >> kTagShift;
+    for (uint64_t tag = address >> kTagShift; tag <= last; ++tag) {
       ll_tag_set_.insert(tag);
     }
     tagged_memory_->Load(address, db, inst, context);
@@ -190,13 +191,15 @@ absl::Status AtomicTaggedMemory::PerformMemoryOp(uint64_t address, Operation op,
     if (GetDb(el_size) == nullptr)
       return absl::InternalError(
           absl::StrCat("Illegal element size (", el_size, ")"));
-    uint64_t tag = address >> kTagShift;
+    // The store touches at most two tags.
+    uint64_t first = address >> kTagShift;
+    uint64_t last = (address + el_size - 1) >> kTagShift;
     int value = 1;
     // Determine if the store is successful.
-    if (ll_tag_set_.find(tag) != ll_tag_set_.end()) {
+    if (ll_tag_set_.contains(first) && ll_tag_set_.contains(last)) {
       // Successful SC. Store the value and set result to 0.
       tagged_memory_->Store(address, db);
-      ll_tag_set_.erase(tag);
+      ClearLinks(address, el_size);
       value = 0;
     }
     auto res = WriteDb(db, value);
-- 
2.43.0


From 1424ed1e7fcc95b98d80a317abfbfde38ed24126 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:39:01 +0000
Subject: [PATCH 71/77] fix: CLI run doesn't wait for ReNode once the program
 is done

---
 mpact/sim/util/renode/renode_cli_top.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/renode/renode_cli_top.cc b/mpact/sim/util/renode/renode_cli_top.cc
index f605fa5..1f2e76f 100644
--- a/mpact/sim/util/renode/renode_cli_top.cc
+++ b/mpact/sim/util/renode/renode_cli_top.cc
@@ -152,9 +152,10 @@ absl::Status RenodeCLITop::CLIHalt() {
 
 absl::Status RenodeCLITop::CLIRun() {
   // This predicate is used to determine when the command line interface is
-  // in control for the purposes of issuing a run command.
+  // in control for the purposes of issuing a run command. Once the program is
+  // done there may be no more requests from ReNode, so don't wait for one.
   auto cli_is_not_running = [this] {
-    return cli_status_ != RunStatus::kRunning;
+    return program_done_ || (cli_status_ != RunStatus::kRunning);
   };
   run_control_mutex_.LockWhen(absl::Condition(&cli_is_not_running));
   if (top_->GetLastHaltReason().value() == *HaltReason::kProgramDone) {
-- 
2.43.0


From 5a24f0b77aff0de1a84d228c0b00e70e0180a087 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:43:53 +0000
Subject: [PATCH 72/77] fix: decode cache entry may change while the decoder
 runs

---
 mpact/sim/generic/decode_cache.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mpact/sim/generic/decode_cache.cc b/mpact/sim/generic/decode_cache.cc
index 1d2d11f..cd66acd 100644
--- a/mpact/sim/generic/decode_cache.cc
+++ b/mpact/sim/generic/decode_cache.cc
@@ -84,6 +84,9 @@ Instruction* DecodeCache::GetDecodedInstruction(uint64_t address) {
     return nullptr;
   }
 
+  // Read the entry again, as it may have been invalidated or replaced during the
+  // decode.
+  inst = instruction_cache_[indx];
   if (nullptr != inst) {
     inst->DecRef();
   }
-- 
2.43.0


From 634c9339cb4a3797ea284976288b122a699f8153 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:32:21 +0000
Subject: [PATCH 73/77] fix: give the instruction profile a counter for every
 bucket of a range

A range of N buckets had N-1 (or N-2) counters, so that counting the last
instructions of a segment wrote past the end of the array, and they were
missing from the profile.
---
 mpact/sim/util/other/instruction_profiler.cc | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index 966dea3..ff1c546 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -75,8 +75,8 @@ void InstructionProfiler::AddSampleInternal(uint64_t sample) {
 void InstructionProfiler::WriteProfile(std::ostream& os) {
   os << "Address,Count" << "\n";
   for (auto const& [range, counters] : profile_ranges_) {
-    uint64_t size = range.end - range.start;
-    for (auto i = 0; i < size; ++i) {
+    uint64_t size = range.end - range.start + 1;
+    for (uint64_t i = 0; i < size; ++i) {
       if (counters[i] == 0) continue;
       os << absl::StrFormat("0x%llx,%llu\n", (range.start + i) << shift_,
                             counters[i]);
@@ -113,20 +113,20 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
       continue;
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
-    // start a new range.
-    size = end - begin - 1;
-    uint64_t* counters = new uint64_t[size];
-    ::memset(counters, 0, size * sizeof(uint64_t));
+    // start a new range. The address range includes its end.
+    uint64_t num_counters = end - begin;
+    uint64_t* counters = new uint64_t[num_counters];
+    ::memset(counters, 0, num_counters * sizeof(uint64_t));
     profile_ranges_.insert(
-        std::make_pair(MemoryWatcher::AddressRange{begin, end}, counters));
+        std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
     begin = vaddr_begin;
     end = vaddr_begin + size;
   }
   // Make the last entry.
   if (begin != 0 || end != 0) {
-    uint64_t size = end - begin - 1;
-    uint64_t* counters = new uint64_t[size];
-    ::memset(counters, 0, size * sizeof(uint64_t));
+    uint64_t num_counters = end - begin;
+    uint64_t* counters = new uint64_t[num_counters];
+    ::memset(counters, 0, num_counters * sizeof(uint64_t));
     profile_ranges_.insert(
         std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
   }
-- 
2.43.0


From 128032a6f531e621c3b5794d5ad01495099f36fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:07 +0000
Subject: [PATCH 74/77] fix: profile instructions in partially covered buckets

A segment that does not start and end on a bucket boundary reaches one bucket
further than its size in buckets, and may share a bucket with the next one.
---
 mpact/sim/util/other/instruction_profiler.cc | 56 +++++++++++---------
 1 file changed, 30 insertions(+), 26 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.cc b/mpact/sim/util/other/instruction_profiler.cc
index ff1c546..aa4ae6d 100644
--- a/mpact/sim/util/other/instruction_profiler.cc
+++ b/mpact/sim/util/other/instruction_profiler.cc
@@ -86,8 +86,17 @@ void InstructionProfiler::WriteProfile(std::ostream& os) {
 
 void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
   elf_loader_ = elf_loader;
+  // The first and last bucket of the current range.
   uint64_t begin = 0;
-  uint64_t end = 0;
+  uint64_t last = 0;
+  bool has_range = false;
+  auto add_range = [this](uint64_t begin, uint64_t last) {
+    uint64_t num_counters = last - begin + 1;
+    uint64_t* counters = new uint64_t[num_counters];
+    ::memset(counters, 0, num_counters * sizeof(uint64_t));
+    profile_ranges_.insert(
+        std::make_pair(MemoryWatcher::AddressRange{begin, last}, counters));
+  };
   // Iterate through the elf segments (assumes they are in order), and
   // coalesces ranges that are spaced by less than 0x1'000 units of granularity.
   // This reduces the number of ranges in the map and improves performance
@@ -96,40 +105,35 @@ void InstructionProfiler::SetElfLoader(ElfProgramLoader* elf_loader) {
     // Only consider segments that are loaded, executable, and with size > 0.
     if (segment->get_type() != ELFIO::PT_LOAD) continue;
     if ((segment->get_flags() & ELFIO::PF_X) == 0) continue;
-    uint64_t size = segment->get_memory_size() >> shift_;
+    uint64_t size = segment->get_memory_size();
     if (size == 0) continue;
 
-    uint64_t vaddr_begin = segment->get_virtual_address() >> shift_;
-    // If it's the first time we see a segment, just get the start and end
-    // values.
-    if (begin == 0 && end == 0) {
-      begin = vaddr_begin;
-      end = vaddr_begin + size;
+    // A segment may cover its first and last bucket only in part.
+    uint64_t vaddr = segment->get_virtual_address();
+    uint64_t segment_begin = vaddr >> shift_;
+    uint64_t segment_last = (vaddr + size - 1) >> shift_;
+    // If it's the first time we see a segment, just get the first and last
+    // bucket.
+    if (!has_range) {
+      begin = segment_begin;
+      last = segment_last;
+      has_range = true;
       continue;
     };
-    // If the segment is close enough to the current, just coalesce.
-    if (vaddr_begin - end < 0x1000) {
-      end = vaddr_begin + size;
+    // If the segment is close enough to the current, just coalesce. It may
+    // start in the last bucket of the current.
+    if ((segment_begin == last) || (segment_begin - last - 1 < 0x1000)) {
+      last = segment_last;
       continue;
     }
     // Otherwise, create a entry from the previously accumulated ranges, and
-    // start a new range. The address range includes its end.
-    uint64_t num_counters = end - begin;
-    uint64_t* counters = new uint64_t[num_counters];
-    ::memset(counters, 0, num_counters * sizeof(uint64_t));
-    profile_ranges_.insert(
-        std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
-    begin = vaddr_begin;
-    end = vaddr_begin + size;
+    // start a new range.
+    add_range(begin, last);
+    begin = segment_begin;
+    last = segment_last;
   }
   // Make the last entry.
-  if (begin != 0 || end != 0) {
-    uint64_t num_counters = end - begin;
-    uint64_t* counters = new uint64_t[num_counters];
-    ::memset(counters, 0, num_counters * sizeof(uint64_t));
-    profile_ranges_.insert(
-        std::make_pair(MemoryWatcher::AddressRange{begin, end - 1}, counters));
-  }
+  if (has_range) add_range(begin, last);
 }
 
 }  // namespace mpact::sim::util
-- 
2.43.0


From 478af864ed1cdaa9bc6b4d3ba6d9d5fc7dbe6f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:22 +0000
Subject: [PATCH 75/77] fix: no most recently used range before the first
 profile sample

The initial range held the highest address, so a sample of that address was
counted through a null pointer.
---
 mpact/sim/util/other/instruction_profiler.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/mpact/sim/util/other/instruction_profiler.h b/mpact/sim/util/other/instruction_profiler.h
index 35fbf35..480f8a9 100644
--- a/mpact/sim/util/other/instruction_profiler.h
+++ b/mpact/sim/util/other/instruction_profiler.h
@@ -74,8 +74,9 @@ class InstructionProfiler : public CounterValueSetInterface<uint64_t> {
   absl::btree_map<MemoryWatcher::AddressRange, uint64_t*,
                   MemoryWatcher::AddressRangeLess>
       profile_ranges_;
-  uint64_t last_start_ = 0xffff'ffff'ffff'ffffULL;
-  uint64_t last_end_ = 0xffff'ffff'ffff'ffffULL;
+  // The most recently used range. Empty until there is one.
+  uint64_t last_start_ = 1;
+  uint64_t last_end_ = 0;
   uint64_t* last_profile_range_ = nullptr;
 };
 
-- 
2.43.0


From f040b9e7a34e30455a2ab903e2d7c26ddb275a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:51:34 +0000
Subject: [PATCH 76/77] fix: make the log monitor safe to call from several
 threads

Messages are delivered by the thread that logs them, and absl requires
LogSink::Send to be thread-safe. Unguarded, concurrent messages lost counts and
corrupted the list of entries.
---
 mpact/sim/util/other/BUILD      |  1 +
 mpact/sim/util/other/log_sink.h | 38 +++++++++++++++++++++++++++------
 2 files changed, 32 insertions(+), 7 deletions(-)

diff --git a/mpact/sim/util/other/BUILD b/mpact/sim/util/other/BUILD
index bbb989d..1a34d66 100644
--- a/mpact/sim/util/other/BUILD
+++ b/mpact/sim/util/other/BUILD
@@ -31,6 +31,7 @@ cc_library(
         "@abseil-cpp//absl/base:log_severity",
         "@abseil-cpp//absl/log:log_entry",
         "@abseil-cpp//absl/log:log_sink",
+        "@abseil-cpp//absl/synchronization",
     ],
 )
 
diff --git a/mpact/sim/util/other/log_sink.h b/mpact/sim/util/other/log_sink.h
index c54e141..5bf3602 100644
--- a/mpact/sim/util/other/log_sink.h
+++ b/mpact/sim/util/other/log_sink.h
@@ -21,6 +21,7 @@
 #include "absl/base/log_severity.h"
 #include "absl/log/log_entry.h"
 #include "absl/log/log_sink.h"
+#include "absl/synchronization/mutex.h"
 
 namespace mpact {
 namespace sim {
@@ -29,7 +30,8 @@ namespace util {
 // This class is used to count the number of log messages in different
 // categories that are encountered. It can be used to determine if significant
 // errors have occurred. This does not replace any other log sinks, just
-// provides an additional sink for monitoring purposes.
+// provides an additional sink for monitoring purposes. Messages may be logged
+// from any thread, so the methods may be called concurrently.
 class LogSink : public absl::LogSink {
  public:
   LogSink() = default;
@@ -37,6 +39,7 @@ class LogSink : public absl::LogSink {
   // Method called for each log message. Only look at the severity and count
   // the message in the appropriate category.
   void Send(const absl::LogEntry& entry) override {
+    absl::MutexLock lock(&mutex_);
     switch (entry.log_severity()) {
       case absl::LogSeverity::kInfo:
         num_info_++;
@@ -58,23 +61,44 @@ class LogSink : public absl::LogSink {
 
   // Clear all the counts.
   void Reset() {
+    absl::MutexLock lock(&mutex_);
     num_info_ = 0;
     num_warning_ = 0;
     num_error_ = 0;
     num_fatal_ = 0;
   }
 
-  int NumOops() const { return num_warning_ + num_error_ + num_fatal_; }
+  int NumOops() const {
+    absl::MutexLock lock(&mutex_);
+    return num_warning_ + num_error_ + num_fatal_;
+  }
 
   // Getters.
-  int num_info() const { return num_info_; }
-  int num_warning() const { return num_warning_; }
-  int num_error() const { return num_error_; }
-  int num_fatal() const { return num_fatal_; }
+  int num_info() const {
+    absl::MutexLock lock(&mutex_);
+    return num_info_;
+  }
+  int num_warning() const {
+    absl::MutexLock lock(&mutex_);
+    return num_warning_;
+  }
+  int num_error() const {
+    absl::MutexLock lock(&mutex_);
+    return num_error_;
+  }
+  int num_fatal() const {
+    absl::MutexLock lock(&mutex_);
+    return num_fatal_;
+  }
 
-  const std::list<std::string>& oops_entries() const { return oops_entries_; }
+  // Returns a copy of the entries, as more may be added at any time.
+  std::list<std::string> oops_entries() const {
+    absl::MutexLock lock(&mutex_);
+    return oops_entries_;
+  }
 
  private:
+  mutable absl::Mutex mutex_;
   std::list<std::string> oops_entries_;
   int num_info_ = 0;
   int num_warning_ = 0;
-- 
2.43.0


From cf3380c1b871aa4d38ab5b195cb4e26347f71f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:48 +0000
Subject: [PATCH 77/77] fix: read elements of a source operand as half and
 128-bit values

---
 mpact/sim/generic/instruction.h | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/mpact/sim/generic/instruction.h b/mpact/sim/generic/instruction.h
index 12b66b6..16cae7d 100644
--- a/mpact/sim/generic/instruction.h
+++ b/mpact/sim/generic/instruction.h
@@ -346,6 +346,12 @@ inline int16_t GetInstructionSource<int16_t>(const Instruction* inst, int index,
   return inst->Source(index)->AsInt16(element);
 }
 template <>
+inline HalfFP GetInstructionSource<HalfFP>(const Instruction* inst, int index,
+                                           int element) {
+  auto value = inst->Source(index)->AsUint16(element);
+  return HalfFP{.value = value};
+}
+template <>
 inline uint32_t GetInstructionSource<uint32_t>(const Instruction* inst,
                                                int index, int element) {
   return inst->Source(index)->AsUint32(element);
@@ -377,6 +383,16 @@ inline double GetInstructionSource<double>(const Instruction* inst, int index,
   auto value = inst->Source(index)->AsUint64(element);
   return *reinterpret_cast<double*>(&value);
 }
+template <>
+inline absl::uint128 GetInstructionSource<absl::uint128>(
+    const Instruction* inst, int index, int element) {
+  return static_cast<absl::uint128>(inst->Source(index)->AsUint64(element));
+}
+template <>
+inline absl::int128 GetInstructionSource<absl::int128>(const Instruction* inst,
+                                                       int index, int element) {
+  return static_cast<absl::int128>(inst->Source(index)->AsInt64(element));
+}
 
 }  // namespace generic
 }  // namespace sim
-- 
2.43.0

