From 88f138a5fca900ef324fb814899942029aa22fd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:26 +0000
Subject: [PATCH 01/40] fix: Atomic assignment returns the assigned value, not
 a second read of the variable

---
 src/korin/core/public/templates/atomic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/korin/core/public/templates/atomic.h b/src/korin/core/public/templates/atomic.h
index 8aeadd8..f27752e 100644
--- a/src/korin/core/public/templates/atomic.h
+++ b/src/korin/core/public/templates/atomic.h
@@ -265,7 +265,7 @@ struct Atomic final : public ChooseAtomicTypeT<AtomicT>
 	 */
 	FORCE_INLINE AtomicT operator=(const AtomicT & inValue)
 	{
-		return (this->store(inValue), this->value);
+		return (this->store(inValue), inValue);
 	}
 
 private:
-- 
2.43.0


From d4e850b44c8c712ff2a1af244632bd699fac3009 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:46 +0000
Subject: [PATCH 02/40] fix: atomic pointer arithmetic moves by elements, in
 memory as in the returned value

---
 .../core/public/unix/unix_platform_atomics.h   | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/korin/core/public/unix/unix_platform_atomics.h b/src/korin/core/public/unix/unix_platform_atomics.h
index f49b00f..8098fe7 100644
--- a/src/korin/core/public/unix/unix_platform_atomics.h
+++ b/src/korin/core/public/unix/unix_platform_atomics.h
@@ -27,6 +27,15 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_add(value, amount);
 	}
 
+	/**
+	 * Pointers are advanced by whole elements
+	 */
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * add(T * volatile * value, IntT amount)
+	{
+		return __sync_fetch_and_add(value, amount * static_cast<intp>(sizeof(T)));
+	}
+
 	/**
 	 * 
 	 */
@@ -36,6 +45,15 @@ struct UnixPlatformAtomics : public GenericPlatformAtomics
 		return __sync_fetch_and_sub(value, amount);
 	}
 
+	/**
+	 * Pointers are moved back by whole elements
+	 */
+	template<typename T, typename IntT>
+	static FORCE_INLINE T * sub(T * volatile * value, IntT amount)
+	{
+		return __sync_fetch_and_sub(value, amount * static_cast<intp>(sizeof(T)));
+	}
+
 	/**
 	 * 
 	 */
-- 
2.43.0


From ef6865e14808fa7aa9c24b1dec479c36960b0dfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:05 +0000
Subject: [PATCH 03/40] fix: NonCopyable has a default constructor, so that
 MallocObject can own an allocator

---
 src/korin/core/public/templates/types.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/korin/core/public/templates/types.h b/src/korin/core/public/templates/types.h
index d925316..6c8cb59 100644
--- a/src/korin/core/public/templates/types.h
+++ b/src/korin/core/public/templates/types.h
@@ -368,6 +368,8 @@ public:
  */
 struct NonCopyable
 {
+	NonCopyable() = default;
+
 private:
 	NonCopyable(const NonCopyable&) = delete;
 	NonCopyable& operator=(const NonCopyable&) = delete;
-- 
2.43.0


From bef80365255fdd4f9593ffce0b8f7c3e8f4935d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 04/40] fix: MallocPooled sizes its pools with the alignment
 the pools really use

---
 src/korin/core/private/hal/malloc_pool.cpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 32e0f86..d6bd21c 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -135,8 +135,8 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 	, poolInfo{
 		inNumBlocks,
 		inBlockSize,
-		inBlockAlignment,
-		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, inBlockAlignment)
+		PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT),
+		inNumBlocks * MemoryPool::computeLogicalBlockSize(inBlockSize, PlatformMath::max(inBlockAlignment, MIN_ALIGNMENT))
 	}
 	, poolAllocSize{0}
 {
@@ -150,7 +150,7 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 	for (uint32 poolIdx = 0; poolIdx < initialNumPools; ++poolIdx)
 	{
 		void * buffer = nullptr;
-		if (posix_memalign(&buffer, PlatformMath::max(poolInfo.blockAlignment, MIN_ALIGNMENT), poolAllocSize) == 0)
+		if (posix_memalign(&buffer, poolInfo.blockAlignment, poolAllocSize) == 0)
 			createPool(buffer);
 	}
 
-- 
2.43.0


From 812d6e25f6bc61f5b6096e22d9cf789c3213cf99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 05/40] fix: a memory pool that gets no buffer is an exhausted
 pool

---
 src/korin/core/private/hal/malloc_pool.cpp | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index d6bd21c..484c390 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -20,9 +20,13 @@ MemoryPool::MemoryPool(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlign
 	if (bHasOwnBuffer)
 	{
 	#if PLATFORM_UNIX
-		if (UNLIKELY(::posix_memalign(&buffer, blockAlignment, bufferSize) != 0))	
-			// TODO: handle error
-			;
+		if (UNLIKELY(::posix_memalign(&buffer, blockAlignment, bufferSize) != 0))
+		{
+			// No memory, pool is exhausted from the start
+			buffer = head = nullptr;
+			numFreeBlocks = 0;
+			return;
+		}
 	#else
 		// TODO: Windows code
 	#endif
@@ -42,8 +46,8 @@ MemoryPool::MemoryPool(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockAlign
 	}
 	
 	// Reset head and last link
-	head = buffer;
-	*link = nullptr;
+	head = link ? buffer : nullptr;
+	if (LIKELY(link != nullptr)) *link = nullptr;
 }
 
 void * MemoryPool::acquireBlock()
-- 
2.43.0


From 1aa77491ce4af2f20976a606c62c9f9f18016f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:29 +0000
Subject: [PATCH 06/40] fix: MallocPooled works when it holds no pool yet

---
 src/korin/core/private/hal/malloc_pool.cpp | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 484c390..d6a0afd 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -163,7 +163,7 @@ MallocPooled::MallocPooled(uint32 inNumBlocks, sizet inBlockSize, sizet inBlockA
 
 MallocPooled::~MallocPooled()
 {
-	Node * next = root->getMin(), * prev = nullptr;
+	Node * next = root ? root->getMin() : nullptr, * prev = nullptr;
 	while (next)
 	{
 		prev = next;
@@ -204,14 +204,16 @@ void * MallocPooled::alloc(sizet size, sizet alignment)
 
 	if (size <= poolInfo.blockSize && alignment <= poolInfo.blockAlignment)
 	{
-		MemoryPool * pool = head->data;
+		MemoryPool * pool = head ? head->data : nullptr;
 
 		// Create a new pool if necessary
-		if (pool->isExhausted())
+		if (!pool || pool->isExhausted())
 		{
 			void * buffer = nullptr;
 			if (posix_memalign(&buffer, poolInfo.blockAlignment, poolAllocSize) == 0)
 				pool = createPool(buffer);
+			else
+				return nullptr;
 		}
 
 		// Acquire block from pool
-- 
2.43.0


From 36d7e4c137918355809a3e8d8aafb7283405e6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:47 +0000
Subject: [PATCH 07/40] fix: pool allocators refuse a reallocation they cannot
 serve and keep the block

---
 src/korin/core/private/hal/malloc_pool.cpp | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index d6a0afd..25ec664 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -103,17 +103,10 @@ void * MallocPool::realloc(void * orig, sizet size, sizet alignment)
 	CHECKF(size <= pool.blockSize, "requested size exceed pool block max size, backup allocator will be used (pool block size is 0x%llx, requested size is 0x%llx)", pool.blockSize, size)
 	CHECKF(alignment <= pool.blockAlignment, "requested alignment exceeds pool block alignment, backup allocator will be used (pool block alignment is 0x%llx, requested alignment is 0x%llx)", pool.blockAlignment, alignment)
 
-	void * out = orig;
+	void * out = nullptr;
 
-	if (LIKELY(pool.hasBlock(orig)))
-	{
-		if (size > pool.blockSize)
-		{
-			pool.releaseBlock(orig);
-		}
-		else
-			; // Return original block
-	}
+	if (LIKELY(pool.hasBlock(orig) && size <= pool.blockSize && alignment <= pool.blockAlignment))
+		out = orig; // Return original block
 	else
 		; // TODO: use backup allocator
 
@@ -236,7 +229,9 @@ void * MallocPooled::realloc(void * orig, sizet size, sizet alignment)
 	CHECKF(size <= poolInfo.blockSize, "requested size exceed pool block max size, backup allocator will be used (pool block size is 0x%llx, requested size is 0x%llx)", poolInfo.blockSize, size)
 	CHECKF(alignment <= poolInfo.blockAlignment, "requested alignment exceeds pool block alignment, backup allocator will be used (pool block alignment is 0x%llx, requested alignment is 0x%llx)", poolInfo.blockAlignment, alignment)
 
-	return orig;
+	// Original block is left untouched if
+	// request cannot be satisfied
+	return size <= poolInfo.blockSize && alignment <= poolInfo.blockAlignment ? orig : nullptr;
 }
 
 void MallocPooled::free(void * orig)
-- 
2.43.0


From 4bebac1fa1ad7aa16377b3e1bab8241c4f8d9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 08/40] fix: MallocPooled moves a pool back to the front of the
 list when one of its blocks is freed

---
 src/korin/core/private/hal/malloc_pool.cpp | 24 ++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_pool.cpp b/src/korin/core/private/hal/malloc_pool.cpp
index 25ec664..25ca934 100644
--- a/src/korin/core/private/hal/malloc_pool.cpp
+++ b/src/korin/core/private/hal/malloc_pool.cpp
@@ -251,6 +251,26 @@ void MallocPooled::free(void * orig)
 			it = it->right;
 	}
 
-	// Release block, return to pool
-	if (it) it->data->releaseBlock(orig);
+	if (it)
+	{
+		MemoryPool * pool = it->data;
+		const bool bWasExhausted = pool->isExhausted();
+
+		// Release block, return to pool
+		pool->releaseBlock(orig);
+
+		// Move pool back to front
+		Link * link = reinterpret_cast<Link*>(it + 1);
+		if (bWasExhausted && link != head)
+		{
+			link->prev->next = link->next;
+			link->next->prev = link->prev;
+
+			link->next = head;
+			link->prev = head->prev;
+			link->next->prev = link;
+			link->prev->next = link;
+			head = link;
+		}
+	}
 }
\ No newline at end of file
-- 
2.43.0


From 7b52bfafc42a2a2efd30bd520b6af73342ced477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:09 +0000
Subject: [PATCH 09/40] fix: MallocBinned destroys its buckets

---
 src/korin/core/private/hal/malloc_binned.cpp | 7 +++++++
 src/korin/core/public/hal/malloc_binned.h    | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 9c1964c..2f966e4 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -23,6 +23,13 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 	}
 }
 
+MallocBinned::~MallocBinned()
+{
+	// Destroy buckets
+	for (uint32 i = 0; i < numBuckets; ++i)
+		delete buckets[i];
+}
+
 void * MallocBinned::alloc(sizet size, sizet alignment)
 {
 	// Find bucket
diff --git a/src/korin/core/public/hal/malloc_binned.h b/src/korin/core/public/hal/malloc_binned.h
index bef2ccd..e310a17 100644
--- a/src/korin/core/public/hal/malloc_binned.h
+++ b/src/korin/core/public/hal/malloc_binned.h
@@ -50,6 +50,11 @@ public:
 	 */
 	MallocBinned(const BucketInfo & inInfo = {1ull << 16ull/* 1 MB */, 1ull << 3ull, 1ull << 18ull, 1ull << 3ull}, sizet inPoolAlign = DEFAULT_ALIGNMENT);
 
+	/**
+	 * Destructor, destroys buckets
+	 */
+	virtual ~MallocBinned();
+
 protected:
 	/**
 	 * Compute bucket index from requested
-- 
2.43.0


From f137b24ee0014dfb06f7aa9e56d5e338d59942f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 10/40] fix: Array keeps its elements right when it grows,
 inserts, removes or is copied

Growing leaked the old elements and lost the capacity when there was no
memory; inserting assigned to memory that holds no element, read past the
old buffer and overwrote an item taken from the array itself; removing
assigned from and to destroyed elements; removing the last one did not
destroy it; copying constructed each element twice; copying elements that
are not trivial never ended.
---
 src/korin/core/public/containers/array.h      | 96 ++++++++++---------
 .../public/generic/generic_platform_memory.h  | 42 +++++++-
 2 files changed, 92 insertions(+), 46 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index e3d46b2..af23dbb 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -309,20 +309,21 @@ protected:
 		if (inCapacity > capacity)
 		{
 			// Compute minimum capacity according to policy
-			capacity = capacity ? capacity : 2;
-			while (capacity < inCapacity) capacity *= 2;
+			uint64 newCapacity = capacity ? capacity : 2;
+			while (newCapacity < inCapacity) newCapacity *= 2;
 
 			// Allocate new memory
-			T * inBuffer = malloc.alloc(capacity);
+			T * inBuffer = malloc.alloc(newCapacity);
 
-			// Copy elements and free old buffer
+			// Move elements and free old buffer
 			if (buffer)
 			{
-				Memory::constructCopyElements(inBuffer, buffer, count);
+				Memory::relocateElements(inBuffer, buffer, count);
 				malloc.free(buffer);
 			}
 
 			buffer = inBuffer;
+			capacity = newCapacity;
 			return true;
 		}
 
@@ -388,12 +389,16 @@ public:
 	 * @param slack extra space required
 	 */
 	FORCE_INLINE Array(const T * inBuffer, uint64 inCount, uint64 slack = 0)
-		: Array{inCount + slack, inCount}
+		: Array{inCount + slack, inBuffer ? 0 : inCount}
 	{
 		CHECK(buffer != nullptr)
 
 		// Copy source buffer to destination
-		if (inBuffer && count > 0) Memory::constructCopyElements(buffer, inBuffer, count);
+		if (inBuffer && inCount > 0)
+		{
+			Memory::constructCopyElements(buffer, inBuffer, inCount);
+			count = inCount;
+		}
 	}
 
 	/**
@@ -665,18 +670,25 @@ public:
 	{
 		const uint64 j = idx + 1;
 
+		// The item could be one of ours
+		T inItem{forward<ItemT>(item)};
+
 		if (idx < count)
 		{
 			resizeIfNecessary(count + 1);
 
 			// Move elements up to accomodate
-			Memory::moveElements(buffer + j, buffer + idx, count - idx);
+			Memory::relocateElements(buffer + j, buffer + idx, count - idx);
 			++count;
 		}
-		else resizeIfNecessary(count = j);
+		else
+		{
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
-		// Copy construct element
-		return insertNoResize(idx, forward<ItemT>(item));
+		// Move construct element
+		return insertNoResize(idx, move(inItem));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
@@ -686,18 +698,25 @@ public:
 		constexpr uint64 numArgs = 1 + sizeof... (ItemListT);
 		const uint64 j = idx + numArgs;
 
+		// The items could be some of ours
+		T inItems[]{T{forward<ItemT>(item)}, T{forward<ItemListT>(items)} ...};
+
 		if (idx < count)
 		{
 			resizeIfNecessary(count + numArgs);
 
 			// Move element up to accomodate
-			Memory::moveElements(buffer + j, buffer + idx, count - idx);
+			Memory::relocateElements(buffer + j, buffer + idx, count - idx);
 			count += numArgs;
 		}
-		else resizeIfNecessary((count = j));
+		else
+		{
+			resizeIfNecessary(j);
+			count = j;
+		}
 		
-		// Copy construct elements
-		insertNoResize(idx, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		// Move construct elements
+		for (uint64 i = 0; i < numArgs; ++i) insertNoResize(idx + i, move(inItems[i]));
 	}
 	/** @} */
 
@@ -712,27 +731,13 @@ public:
 	template<typename ItemT>
 	T & insertFirst(ItemT && item)
 	{
-		resizeIfNecessary(count + 1);
-
-		// Move elements up
-		Memory::moveElements(buffer + 1, buffer, count);
-		++count;
-
-		// Copy construct element
-		return insertNoResize(0, forward<ItemT>(item));
+		return insertAt(0, forward<ItemT>(item));
 	}
 
 	template<typename ItemT, typename ... ItemListT>
 	void insertFirst(ItemT && item, ItemListT && ... items)
 	{
-		constexpr uint64 numArgs = 1 + sizeof... (items);
-
-		// Resize and move elements up
-		resizeIfNecessary(count + numArgs);
-		Memory::moveElements(buffer + numArgs, buffer, count);
-		count += numArgs;
-
-		insertNoResize(0, forward<ItemT>(item), forward<ItemListT>(items) ...);
+		insertAt(0, forward<ItemT>(item), forward<ItemListT>(items) ...);
 	}
 	/// @}
 
@@ -747,20 +752,23 @@ public:
 	template<typename ItemT>
 	T & insertLast(ItemT && item)
 	{
-		resizeIfNecessary(count + 1);
-		return insertNoResize(count++, forward<ItemT>(item));
+		if (count == capacity)
+		{
+			// The item could be one of ours, take
+			// it out before buffer is replaced
+			T inItem{forward<ItemT>(item)};
+			resizeIfNecessary(count + 1);
+			insertNoResize(count, move(inItem));
+		}
+		else insertNoResize(count, forward<ItemT>(item));
+
+		return buffer[count++];
 	}
 
 	template<typename ItemT, typename ... ItemListT>
 	void insertLast(ItemT && item, ItemListT && ... items)
 	{
-		constexpr uint64 numArgs = 1 + sizeof... (items);
-
-		// Resize and copy construct elements
-		resizeIfNecessary(count + numArgs);
-		insertNoResize(count, forward<ItemT>(item), forward<ItemListT>(items) ...);
-
-		count += numArgs;
+		insertAt(count, forward<ItemT>(item), forward<ItemListT>(items) ...);
 	}
 
 	METHOD_ALIAS(add, insertLast)
@@ -779,12 +787,12 @@ public:
 	{
 		if (num > 0)
 		{
-			// Destroy element
-			Memory::destroyElements(buffer + idx, buffer + idx + num);
-
 			// Move elements to the left
 			Memory::moveElements(buffer + idx, buffer + idx + num, count - (idx + num));
 
+			// Destroy the elements left behind
+			Memory::destroyElements(buffer + count - num, buffer + count);
+
 			// Decrement count
 			count -= num;
 		}
@@ -807,7 +815,7 @@ public:
 		--count;
 
 		// Destroy element
-		Memory::destroyElements(buffer + count, buffer + count);
+		Memory::destroyElements(buffer + count, buffer + count + 1);
 	}
 
 	/**
diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index b5bd1fa..babc8b0 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -112,7 +112,7 @@ struct GenericPlatformMemory
 	template<typename TT>
 	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type copyElements(TT * RESTRICT dst, const TT * RESTRICT src, uint64 n)
 	{
-		for (uint64 i = 0; i < n; ++n, ++dst, ++src)
+		for (uint64 i = 0; i < n; ++i, ++dst, ++src)
 			// Non overlapping required
 			*dst = *src;
 	}
@@ -145,7 +145,7 @@ struct GenericPlatformMemory
 				dst[i] = move(src[i]);
 			}
 		}
-		else if (LIKELY(src > dst))
+		else if (LIKELY(dst > src))
 		{
 			// Copy right to left
 			for (uint64 i = 1; i <= n; ++i)
@@ -164,6 +164,44 @@ struct GenericPlatformMemory
 	}
 	/// @}
 
+	/**
+	 * Move elements to uninitialized memory
+	 * and destroy the originals. Source and
+	 * destination buffer can overlap.
+	 * 
+	 * @param dst destination buffer
+	 * @param src source buffer
+	 * @param n number of elements
+	 * @{
+	 */
+	template<typename TT>
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<TT>::value>::Type relocateElements(TT * dst, TT * src, uint64 n)
+	{
+		if (dst < src)
+		{
+			for (uint64 i = 0; i < n; ++i)
+			{
+				new (dst + i) TT{move(src[i])};
+				src[i].~TT();
+			}
+		}
+		else if (dst > src)
+		{
+			for (uint64 i = n; i > 0; --i)
+			{
+				new (dst + i - 1) TT{move(src[i - 1])};
+				src[i - 1].~TT();
+			}
+		}
+	}
+
+	template<typename TT>
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<TT>::value>::Type relocateElements(TT * dst, TT * src, uint64 n)
+	{
+		memmov(dst, src, n * sizeof(TT));
+	}
+	/// @}
+
 	/**
 	 * Destroy elements in range
 	 * 
-- 
2.43.0


From 39b944718f942bdf22ff853385f6215dee84349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 11/40] fix: a moved-from container can still be used

---
 src/korin/core/public/hal/malloc_object.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/hal/malloc_object.h b/src/korin/core/public/hal/malloc_object.h
index 3caf770..a13490a 100644
--- a/src/korin/core/public/hal/malloc_object.h
+++ b/src/korin/core/public/hal/malloc_object.h
@@ -43,7 +43,7 @@ public:
 	FORCE_INLINE MallocObject(MallocObject && other)
 		: malloc{other.malloc}
 	{
-		other.malloc = nullptr;
+		//
 	}
 
 	/**
@@ -52,7 +52,6 @@ public:
 	FORCE_INLINE MallocObject & operator=(MallocObject && other)
 	{
 		malloc = other.malloc;
-		other.malloc = nullptr;
 
 		return *this;
 	}
@@ -64,6 +63,15 @@ public:
 	{
 		malloc = nullptr;
 	}
+
+	/**
+	 * Returns the allocator used to
+	 * allocate objects.
+	 */
+	FORCE_INLINE MallocBase * getMalloc() const
+	{
+		return malloc;
+	}
 	
 	/**
 	 * Alloc space for n objects of type T.
-- 
2.43.0


From 29f2ee9df1d99cf9c67e932bfce61ab68b604ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 12/40] fix: List removes its ends, assigns and outlives its
 links correctly

Removing the head or the tail by link left a dangling pointer to it; copy
assignment got the length wrong and left a mess when out of memory; move
assignment returned nothing; a list that owns its allocator destroyed it
before the links; pushing several items did not forward them.
---
 src/korin/core/public/containers/list.h | 81 +++++++++----------------
 1 file changed, 27 insertions(+), 54 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index 0542e89..e590a8e 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -289,49 +289,16 @@ public:
 	 */
 	List & operator=(const List & other)
 	{
-		LinkT * it = head;
-		LinkT * jt = other.head;
+		// Copy all items first, we may
+		// not have enough memory for that
+		List copy{malloc.getMalloc()};
 
-		if (!jt)
+		for (const auto & data : other)
 		{
-			// Empty array
-			empty();
-		}
-		else if (!it)
-		{
-			for (const auto & data : other)
-			{
-				// Copy all items
-				pushBack(data);
-			}
-		}
-		else
-		{
-			for (; it && jt; it = (tail = it)->next, jt = jt->next)
-			{
-				// Copy data
-				it->data = jt->data;
-			}
-			
-			while (it)
-			{
-				LinkT * link = it;
-				it = it->next;
-				destroyLink(link);
-			}
-
-			// Push remaining objects
-			while (jt)
-			{
-				pushBack(jt->data);
-				jt = jt->next;
-			}
-
-			// Ensure tail is valid
-			if (tail) tail->next = nullptr;
+			copy.pushBack(data);
 		}
 
-		return *this;
+		return *this = move(copy);
 	}
 
 	/**
@@ -350,6 +317,8 @@ public:
 
 		other.head = other.tail = nullptr;
 		other.length = 0;
+
+		return *this;
 	}
 
 	/**
@@ -464,7 +433,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushBack(DataListT && ... datas)
 	{
-		(pushBack(forward<DataT>(datas)), ...);
+		(pushBack(forward<DataListT>(datas)), ...);
 	}
 	/** @} */
 
@@ -512,7 +481,7 @@ public:
 	template<typename ...DataListT>
 	FORCE_INLINE void pushFront(DataListT && ... datas)
 	{
-		(... ,pushFront(forward<DataT>(datas)));
+		(... ,pushFront(forward<DataListT>(datas)));
 	}
 	/** @} */
 
@@ -521,19 +490,14 @@ public:
 	 */
 	void remove(LinkT * link)
 	{
-		if (link != head && link != tail)
-		{
-			LinkT * prev = link->prev;
-			LinkT * next = link->next;
-			
-			if (prev) prev->next = next;
-			if (next) next->prev = prev;
-		}
-		else
-		{
-			if (link == head) head = head->next;
-			if (link == tail) tail = tail->prev;
-		}
+		LinkT * prev = link->prev;
+		LinkT * next = link->next;
+		
+		if (prev) prev->next = next;
+		if (next) next->prev = prev;
+
+		if (link == head) head = next;
+		if (link == tail) tail = prev;
 
 		--length;
 
@@ -703,6 +667,15 @@ public:
 		//
 	}
 
+	/**
+	 * Destroy list before destroying
+	 * managed allocator.
+	 */
+	FORCE_INLINE ~List()
+	{
+		Base::destroy();
+	}
+
 protected:
 	/// Managed allocator
 	MallocT autoMalloc;
-- 
2.43.0


From c96ec6226296e79e32d2b3de00c8bdadf4cdd9c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 13/40] fix: BinaryTree can be copied when empty and when there
 is not enough memory

---
 src/korin/core/public/containers/tree.h | 120 +++++++-----------------
 1 file changed, 34 insertions(+), 86 deletions(-)

diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index db39000..7c3d8c8 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -1018,79 +1018,37 @@ protected:
 		// Copy data and color
 		NodeT * dst = createNode(srcRoot->data);
 		dst->color = srcRoot->color;
-		
-		// Copy left subtree
-		if (srcRoot->left)
-		{
-			NodeT * left = cloneSubtree(srcRoot->left);
-			NodeT * prev = left->getMax();
 
-			(dst->left = left)->parent = dst;
-			(dst->prev = prev)->next = dst;
-		}
-
-		// Copy right subtree
-		if (srcRoot->right)
+		try
 		{
-			NodeT * right = cloneSubtree(srcRoot->right);
-			NodeT * next = right->getMin();
-			
-			(dst->right = right)->parent = dst;
-			(dst->next = next)->prev = dst;
-		}
-
-		return dst;
-	}
-
-	/**
-	 * Copy subtree and return root.
-	 * 
-	 * If dstRoot is null a new subtree
-	 * is created.
-	 * 
-	 * @param dstRoot destination
-	 * 	subtree root
-	 * @param srcRoot source subtree
-	 * 	root
-	 * @return subtree root
-	 */
-	NodeT * cloneSubtree(NodeT * dstRoot, const NodeT * srcRoot)
-	{
-		// Copy data and color
-		dstRoot->data = srcRoot->data;
-		dstRoot->color = srcRoot->color;
-
-		if (srcRoot->left)
-		{
-			NodeT * left = dstRoot->left ? cloneSubtree(dstRoot->left, srcRoot->left) : cloneSubtree(srcRoot->left);
-			NodeT * prev = left->getMax();
-
-			(dstRoot->left = left)->parent = dstRoot;
-			(dstRoot->prev = prev)->next = dstRoot;
-		}
-		else if (dstRoot->left)
-		{
-			destroySubtree(dstRoot->left);
-			dstRoot->left = nullptr;
-			dstRoot->prev = nullptr;
-		}
+			// Copy left subtree
+			if (srcRoot->left)
+			{
+				NodeT * left = cloneSubtree(srcRoot->left);
+				NodeT * prev = left->getMax();
 
-		if (srcRoot->right)
-		{
-			NodeT * right = dstRoot->right ? cloneSubtree(dstRoot->right, srcRoot->right) : cloneSubtree(srcRoot->right);
-			NodeT * next = right->getMin();
+				(dst->left = left)->parent = dst;
+				(dst->prev = prev)->next = dst;
+			}
 
-			(dstRoot->right = right)->parent = dstRoot;
-			(dstRoot->next = next)->prev = dstRoot;
+			// Copy right subtree
+			if (srcRoot->right)
+			{
+				NodeT * right = cloneSubtree(srcRoot->right);
+				NodeT * next = right->getMin();
+				
+				(dst->right = right)->parent = dst;
+				(dst->next = next)->prev = dst;
+			}
 		}
-		else if (dstRoot->right)
+		catch (...)
 		{
-			destroySubtree(dstRoot->right);
-			dstRoot->right = nullptr;
-			dstRoot->next = nullptr;
+			// Don't leak what we cloned so far
+			destroySubtree(dst);
+			throw;
 		}
 
-		return dstRoot;
+		return dst;
 	}
 
 public:
@@ -1100,7 +1058,7 @@ public:
 	FORCE_INLINE BinaryTree(const BinaryTree & other)
 		: BinaryTree{}
 	{
-		root = cloneSubtree(other.root);
+		if (other.root) root = cloneSubtree(other.root);
 		numNodes = other.numNodes;
 	}	
 	
@@ -1121,29 +1079,19 @@ public:
 	 */
 	FORCE_INLINE BinaryTree & operator=(const BinaryTree & other)
 	{
-		if (!other.root)
+		if (this != &other)
 		{
-			// If other is empty, empty this
-			// as well
+			// Clone the structure first, we may
+			// not have enough memory for that
+			NodeT * newRoot = other.root ? cloneSubtree(other.root) : nullptr;
+
+			// Destroy current structure and
+			// assign the new root node
 			empty();
-		}
-		else if (root)
-		{
-			// If other is not empty, and this
-			// tree has a root node, copy
-			// structure creating only required
-			// nodes
-			cloneSubtree(root, other.root);
-		}
-		else
-		{
-			// In other cases, we clone the
-			// structure from zero and assign
-			// the new root node
-			root = cloneSubtree(other.root);
-		}
 
-		numNodes = other.numNodes;
+			root = newRoot;
+			numNodes = other.numNodes;
+		}
 
 		return *this;
 	}
-- 
2.43.0


From 3d982b8fac9ce04fe810ba85ea1da44fee4bce4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 14/40] fix: Map does not count a pair it could not create

---
 src/korin/core/public/containers/map.h | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/containers/map.h b/src/korin/core/public/containers/map.h
index c0adcd7..4945597 100644
--- a/src/korin/core/public/containers/map.h
+++ b/src/korin/core/public/containers/map.h
@@ -156,10 +156,9 @@ public:
 		{
 			// Pair surely does not exists.
 			// Create a new pair
-			tree.numNodes = 1;
-
 			tree.root = tree.createNode(PairT{forward<KeyAnyT>(key), ValT{}});
 			tree.root->color = BinaryNodeColor::BLACK;
+			tree.numNodes = 1;
 			
 			return tree.root->data.second;
 		}
@@ -187,13 +186,12 @@ public:
 					return next->data.second;
 			}
 			
-			tree.numNodes++;
-
 			// Create and insert node.
 			// Value type must be default constructible.
 			// Update root, it may have changed
 			auto node = prev->insert(tree.createNode(PairT{forward<KeyAnyT>(key), ValT{}}));
 			tree.root = tree.root->getRoot();
+			tree.numNodes++;
 
 			return node->data.second;
 		}
-- 
2.43.0


From d43f026e25e058d569773caa4f471ea382c99327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 15/40] fix: Set strict comparisons, any() of one key, get() of
 a constant set, subtracting itself

---
 src/korin/core/public/containers/set.h | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/src/korin/core/public/containers/set.h b/src/korin/core/public/containers/set.h
index dd73b06..9b738d0 100644
--- a/src/korin/core/public/containers/set.h
+++ b/src/korin/core/public/containers/set.h
@@ -185,10 +185,10 @@ public:
 	}
 
 	template<typename KeyT>
-	FORCE_INLINE bool get(const KeyT & key, T const & outValue) const
+	FORCE_INLINE bool get(const KeyT & key, T & outValue) const
 	{
 		// Get node to fetch value
-		if (NodeT * node = tree.findNode(key))
+		if (const NodeT * node = tree.findNode(key))
 		{
 			outValue = node->data;
 			return true;
@@ -223,7 +223,7 @@ public:
 	template<typename KeyT, typename ...KeyListT>
 	FORCE_INLINE bool any(const KeyT & key, KeyListT && ...keys) const
 	{
-		return (get(keys) || ... || false);
+		return (get(key) || ... || get(keys));
 	}
 
 	/**
@@ -412,6 +412,9 @@ public:
 	 */
 	Set & operator-=(const Set & other)
 	{
+		// Other is emptied while we iterate it
+		if (this == &other) return tree.empty(), *this;
+
 		NodeT * it = tree.getMin();
 		const NodeT * jt = other.tree.getMin();
 
@@ -648,7 +651,7 @@ public:
 		}
 		
 		// Return true only if other still has elements
-		return !it && !eq;
+		return !it && (!eq || jt);
 	}
 
 	/**
@@ -697,8 +700,8 @@ public:
 			}
 		}
 		
-		// Return true only if other still has elements
-		return !jt && !eq;
+		// Return true only if this still has elements
+		return !jt && (!eq || it);
 	}
 
 private:
-- 
2.43.0


From 91ced7fdc8c79bd8d19d55ce04a17e653b728a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 16/40] fix: String appends itself, prints and formats any
 length, searches from past the end

---
 src/korin/core/public/containers/string.h | 46 ++++++++++++-----------
 1 file changed, 24 insertions(+), 22 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index 025f45c..d21a612 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -303,10 +303,14 @@ private:
 	StringBase & appendString(const CharT * src, sizet len)
 	{
 		const sizet currLen = getLength();
+
+		// Source could be part of this string
+		const bool isOwn = src >= *array && src <= *array + currLen;
+		const sizet offset = isOwn ? src - *array : 0;
 		
 		// Resize buffer and copy string content
 		array(currLen + len) = '\0';
-		Memory::memcpy(*array + currLen, src, len);
+		Memory::memcpy(*array + currLen, isOwn ? *array + offset : src, len);
 
 		return *this;
 	}
@@ -321,15 +325,9 @@ private:
 	template<typename... Args>
 	StringBase & appendFormat(const CharT * format, Args &&... args)
 	{
-		// We have an overhead due to the fact that we
-		// don't know the size of the formatted string
-		// a priori
-		constexpr size_t maxlen = 1024;
-		CharT buff[maxlen] = {};
-
-		// Print in buffer and append
-		int32 len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return appendString(buff, len);
+		// Format, then append
+		const StringBase str = StringBase::format(format, forward<Args>(args)...);
+		return appendString(*str, str.getLength());
 	}
 	
 public:
@@ -450,6 +448,11 @@ private:
 	{
 		array(len) = '\0';
 		Memory::memcpy(*array, src, len);
+
+		// Current content could be longer
+		array.count = len + 1;
+
+		return *this;
 	}
 
 	/**
@@ -462,15 +465,9 @@ private:
 	template<typename... Args>
 	StringBase & printFormat(const char * format, Args &&... args)
 	{
-		// We have an overhead due to the fact that we
-		// don't know the size of the formatted string
-		// a priori
-		constexpr sizet maxlen = 1024;
-		CharT buff[maxlen] = {};
-
-		// Print in buffer
-		const sizet len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return printString(buff, len);
+		// Format, then replace
+		const StringBase str = StringBase::format(format, forward<Args>(args)...);
+		return printString(*str, str.getLength());
 	}
 
 public:
@@ -554,8 +551,13 @@ public:
 		char buff[maxlen] = {};
 
 		// Print and return new string
-		int32 len = snprintf(buff, maxlen, format, forward<Args>(args)...);
-		return StringBase{buff, (sizet)len};
+		const int32 len = snprintf(buff, maxlen, format, args...);
+		if (len < static_cast<int32>(maxlen)) return StringBase{buff, len > 0 ? (sizet)len : 0};
+
+		// Doesn't fit, but now we know the length
+		StringBase str{(sizet)len};
+		snprintf(*str, len + 1, format, args...);
+		return str;
 	}
 
 	/**
@@ -646,7 +648,7 @@ public:
 		patternLen = patternLen ? patternLen : PlatformStrings::getLength(pattern);
 
 		// Check pattern length doesn't exceed string length
-		if (patternLen > getLength() - startPos) return -1;
+		if (startPos > getLength() || patternLen > getLength() - startPos) return -1;
 
 		for (sizet idx = startPos, lastIdx = getLength() - patternLen; idx <= lastIdx; ++idx)
 		{
-- 
2.43.0


From f2baba8c25a93ad9c1684ba38f4507a1b784fefd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 17/40] fix: Optional destroys its value exactly once

---
 src/korin/core/public/templates/optional.h | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/korin/core/public/templates/optional.h b/src/korin/core/public/templates/optional.h
index 0b8b08d..e171b66 100644
--- a/src/korin/core/public/templates/optional.h
+++ b/src/korin/core/public/templates/optional.h
@@ -79,13 +79,13 @@ struct Optional
 		{
 			// Move object
 			storage.value = move(*other);
-			other.engaged = false;
+			other.reset();
 		}
 		else if (other.engaged && !this->engaged)
 		{
 			// Move costruct object
 			emplace(move(*other));
-			other.engaged = false;
+			other.reset();
 		}
 		else if (!other.engaged && this->engaged)
 		{
@@ -130,8 +130,11 @@ struct Optional
 	template<typename ...ArgsT>
 	FORCE_INLINE void emplace(ArgsT && ...args)
 	{
-		engaged = true;
+		// Destroy current value, if any
+		reset();
+
 		new (&storage.value) T{forward<ArgsT>(args)...};
+		engaged = true;
 	}
 
 	/**
@@ -183,7 +186,7 @@ struct Optional
 		if (engaged)
 		{
 			engaged = false;
-			storage.~OptionalStorage();
+			storage.value.~T();
 		}
 	}
 
@@ -275,7 +278,7 @@ protected:
 		 */
 		~OptionalStorage()
 		{
-			value.~U();
+			//
 		}
 
 		/// Empty byte
-- 
2.43.0


From 1a7fc6eb491f060fbf3e5f95a02dd2d7a57c4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:44 +0000
Subject: [PATCH 18/40] fix: Function owns, copies and assigns its callable

---
 src/korin/core/public/templates/function.h | 58 ++++++++++++++++++++--
 1 file changed, 53 insertions(+), 5 deletions(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index c6273d2..c68e7a8 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -51,6 +51,13 @@ struct FunctionOwnedObjectInterface
 	 * 
 	 */
 	virtual void destroy() = 0;
+
+	/**
+	 * Creates a copy of the owned object
+	 * on the heap, or returns null if
+	 * the object cannot be copied.
+	 */
+	virtual FunctionOwnedObjectInterface * clone() const = 0;
 };
 
 /**
@@ -110,6 +117,19 @@ struct FunctionOwnedObject : public FunctionOwnedObjectHeap
 	{
 		return &object;
 	}
+
+	virtual FORCE_INLINE FunctionOwnedObjectInterface * clone() const override
+	{
+		if constexpr (__is_constructible(T, const T &))
+		{
+			if (void * heap = MallocAnsi{}.alloc(sizeof(FunctionOwnedObject), alignof(FunctionOwnedObject)))
+			{
+				return new (heap) FunctionOwnedObject{object};
+			}
+		}
+
+		return nullptr;
+	}
 };
 
 /**
@@ -171,14 +191,29 @@ struct FunctionStorage : FunctionStorageBase
 	template<typename FunctorT>
 	typename DecayType<FunctorT>::Type * bind(FunctorT && fn)
 	{
-		using OwnedT = FunctionOwnedObject<FunctorT>;
+		using OwnedT = FunctionOwnedObject<typename DecayType<FunctorT>::Type>;
 
 		// TODO: Use global allocator
 		heap = MallocAnsi{}.alloc(sizeof(OwnedT), alignof(OwnedT));
+		if (!heap) return nullptr;
+
 		OwnedT * object = new (heap) OwnedT{forward<FunctorT>(fn)};
 
 		return &object->object;
 	}
+
+	/**
+	 * Bind a copy of the object owned by
+	 * another storage.
+	 * 
+	 * @param other another storage
+	 * @return true if object was copied
+	 */
+	bool bindCopy(const FunctionStorage & other)
+	{
+		heap = other.getOwnedObject()->clone();
+		return heap != nullptr;
+	}
 };
 
 /**
@@ -236,10 +271,10 @@ struct FunctionBase<StorageT, RetT(Args...)>
 	 * Copy constructor
 	 */
 	FORCE_INLINE FunctionBase(const FunctionBase & other)
-		: callable{other.callable}
+		: callable{nullptr}
 	{
 		// Copy storage
-		//if (callable) storage.bindCopy(other.storage);
+		if (other.callable && storage.bindCopy(other.storage)) callable = other.callable;
 	}
 
 	/**
@@ -257,6 +292,7 @@ struct FunctionBase<StorageT, RetT(Args...)>
 	 */
 	template<typename FunctorT, typename = typename EnableIf<!IsSameType<FunctionBase, typename DecayType<FunctorT>::Type>::value>::Type>
 	FORCE_INLINE FunctionBase(FunctorT && inFn)
+		: callable{nullptr}
 	{
 		auto * binding = storage.bind(forward<FunctorT>(inFn));
 		if (binding)
@@ -298,6 +334,16 @@ struct FunctionBase<StorageT, RetT(Args...)>
 	/** @} */
 
 protected:
+	/**
+	 * Swap callable and storage with
+	 * another function.
+	 */
+	FORCE_INLINE void swapWith(FunctionBase & other)
+	{
+		swap(callable, other.callable);
+		swap(storage.heap, other.storage.heap);
+	}
+
 	/// Ptr function that invokes the call operator
 	RetT (*callable)(void*, Args&...);
 
@@ -335,7 +381,8 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(const Function & other)
 	{
-		swap(*this, Function{other});
+		Function copy(other);
+		this->swapWith(copy);
 		return *this;
 	}
 
@@ -344,7 +391,8 @@ public:
 	 */
 	FORCE_INLINE Function & operator=(Function && other)
 	{
-		swap(*this, other);
+		Function moved(move(other));
+		this->swapWith(moved);
 		return *this;
 	}
 
-- 
2.43.0


From edf74495f0f2721514167e938b56fa22af7072e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:54 +0000
Subject: [PATCH 19/40] fix: assigning an Array to itself does not copy its
 elements onto themselves

---
 src/korin/core/public/containers/array.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index af23dbb..91d10e2 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -449,6 +449,9 @@ public:
 	 */
 	Array & operator=(const Array & other)
 	{
+		// Nothing to copy
+		if (this == &other) return *this;
+
 		// Resize buffer
 		resizeIfNecessary(other.count);
 
-- 
2.43.0


From 8b409115106a3d41f71124116c502cf919fe6a1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:51:42 +0000
Subject: [PATCH 20/40] fix: MallocBinned without memory for its buckets
 refuses instead of crashing or leaking

---
 src/korin/core/private/hal/malloc_binned.cpp | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/hal/malloc_binned.cpp b/src/korin/core/private/hal/malloc_binned.cpp
index 2f966e4..554d476 100644
--- a/src/korin/core/private/hal/malloc_binned.cpp
+++ b/src/korin/core/private/hal/malloc_binned.cpp
@@ -12,6 +12,9 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 {
 	CHECK(numBuckets != 0);
 
+	// Out of memory, there's no bucket to allocate from
+	if (!*buckets) return;
+
 	for (
 		uint32 i = 0, blockSize = bucketInfo.allocUnitMinSize, numBlocks = bucketInfo.poolSize / blockSize;
 		i < numBuckets;
@@ -19,14 +22,17 @@ MallocBinned::MallocBinned(const BucketInfo & inInfo, sizet inPoolAlign)
 	)
 	{
 		// Create bucket
-		buckets.add(new MallocPooled{numBlocks, blockSize, poolAlign, 1});
+		MallocPooled * bucket = new (std::nothrow) MallocPooled{numBlocks, blockSize, poolAlign, 1};
+		if (!bucket) break;
+
+		buckets.add(bucket);
 	}
 }
 
 MallocBinned::~MallocBinned()
 {
 	// Destroy buckets
-	for (uint32 i = 0; i < numBuckets; ++i)
+	for (uint32 i = 0; i < buckets.getCount(); ++i)
 		delete buckets[i];
 }
 
@@ -34,7 +40,7 @@ void * MallocBinned::alloc(sizet size, sizet alignment)
 {
 	// Find bucket
 	const uint32 bucketIdx = getBucketIdx(size);
-	if (bucketIdx < numBuckets)
+	if (bucketIdx < buckets.getCount())
 	{
 		MallocPooled * bucket = buckets[bucketIdx];
 		return bucket->alloc(size, alignment);
@@ -58,7 +64,7 @@ void MallocBinned::free(void * orig)
 {
 	// The only way is to ask each bucket
 	// whether it allocated the block
-	for (uint32 i = 0; i < numBuckets; ++i)
+	for (uint32 i = 0; i < buckets.getCount(); ++i)
 	{
 		MallocPooled * bucket = buckets[i];
 		if (bucket->hasBlock(orig))
-- 
2.43.0


From ad4217d0614e1d5e1e0d9866ef0be7068c02da1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:54 +0000
Subject: [PATCH 21/40] fix: automaton states are destroyed completely through
 their base

---
 src/korin/core/public/regex/state.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index e0d31ef..5846d75 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -75,6 +75,12 @@ namespace Re
 			//
 		}
 
+		/**
+		 * States are destroyed through
+		 * a pointer to base.
+		 */
+		virtual ~StateBase() = default;
+
 		/**
 		 * Returns the immutable set of
 		 * next states (i.e. a set of states
-- 
2.43.0


From bdca97dd9801c06e790be5ef36b4b97e0da07d66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:49 +0000
Subject: [PATCH 22/40] fix: regex repetition of at least one or zero times
 starts at the repeated group

---
 src/korin/core/public/regex/automaton.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 3966be5..490e27c 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -634,7 +634,7 @@ namespace Re
 			// Create epsilon state as future group end
 			// and also to skip groups
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
-			StateT * prevState;
+			StateT * prevState = groupStart[currentGroup];
 
 			for (int32 repeatIdx = 1; repeatIdx < minRepeats; ++repeatIdx)
 			{
@@ -660,7 +660,7 @@ namespace Re
 			{
 				CHECK(minRepeats <= maxRepeats);
 
-				for (int32 repeatIdx = minRepeats; repeatIdx < maxRepeats; ++repeatIdx)
+				for (int32 repeatIdx = PlatformMath::max(minRepeats, 1); repeatIdx < maxRepeats; ++repeatIdx)
 				{
 					// Groups here can be skipped.
 					currentState->addNextState(epsilon);
@@ -670,6 +670,9 @@ namespace Re
 				}
 			}
 
+			// No repetition at all is fine too
+			if (minRepeats == 0) groupStart[currentGroup]->addNextState(epsilon);
+
 			// Define current group as entire
 			// repetition group, such that
 			// following operations address
-- 
2.43.0


From 30e3b9d740ca18f16681131fec5cf74bff2436bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:36 +0000
Subject: [PATCH 23/40] fix: regex quantifiers with nothing before them are
 ignored

---
 src/korin/core/public/regex/automaton.h | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 490e27c..11783c4 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -569,6 +569,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushSkip()
 		{
+			// There may be nothing to work on
+			if (!groupStart[currentGroup]) return *this;
+
 			// We need an epsilon state to
 			// skip the current group
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
@@ -601,6 +604,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushJump()
 		{
+			// There may be nothing to work on
+			if (!groupStart[currentGroup]) return *this;
+
 			// Jump from end of current group
 			// to the beginning of the group
 			groupEnd[currentGroup]->addNextState(groupStart[currentGroup]);
@@ -631,6 +637,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushRepeat(int32 minRepeats = 1, int32 maxRepeats = 1)
 		{
+			// There may be nothing to work on
+			if (!groupStart[currentGroup]) return *this;
+
 			// Create epsilon state as future group end
 			// and also to skip groups
 			StateT * epsilon = automaton.template pushState<typename State::EpsilonT>();
-- 
2.43.0


From b192daa1e5ce7d91ab8d1a72f681bce3012650f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:02 +0000
Subject: [PATCH 24/40] fix: matching a regex never goes around in circles

---
 src/korin/core/public/regex/executor.h | 27 +++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index 447e0ae..f9696aa 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "containers/set.h"
 #include "containers/tuple.h"
 #include "./regex_types.h"
 
@@ -29,6 +30,20 @@ namespace Re
 		using AlphaStringT = typename StateT::AlphaStringT;
 		using VisitT = Tuple<const StateT* /* currentState */, AlphaStringT /* input */, int32 /* totRead */>;
 
+		/**
+		 * Compare type used to find visits
+		 * of the same state with the same
+		 * input left.
+		 */
+		struct FindVisit
+		{
+			FORCE_INLINE int32 operator()(const VisitT & a, const VisitT & b) const
+			{
+				const int32 cmp = FindStateT{}(a.template get<0>(), b.template get<0>());
+				return cmp ? cmp : ThreeWayCompare{}(a.template get<2>(), b.template get<2>());
+			}
+		};
+
 	public:
 		Executor() = delete;
 
@@ -129,6 +144,7 @@ namespace Re
 		{
 			// Empty visit queue
 			visitQueue.empty();
+			knownVisits.empty();
 
 			// Reset current visit with
 			// start state and input
@@ -169,6 +185,9 @@ namespace Re
 		/// Queue of states to visit
 		List<VisitT> visitQueue;
 
+		/// Visits that were enqueued already
+		Set<VisitT, FindVisit> knownVisits;
+
 		/// Current visited state and input
 		VisitT currVisit;
 	};
@@ -189,7 +208,13 @@ namespace Re
 		{
 			for (const StateT * nextState : currState->getNextStates())
 			{
-				visitQueue.pushBack(VisitT{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead});
+				const VisitT visit{nextState, AlphabetTraitsT::consumeInput(currInput, numRead), currNumRead + numRead};
+
+				// Same visit has same outcome, don't go around in circles
+				if (knownVisits.get(visit)) continue;
+
+				knownVisits.set(visit);
+				visitQueue.pushBack(visit);
 			}
 		}
 
-- 
2.43.0


From d4d153cfa872944796990edcaba9cf69cc469952 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:33 +0000
Subject: [PATCH 25/40] fix: regex groups stay inside their buffers, however
 nested or unbalanced

---
 src/korin/core/public/regex/automaton.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 11783c4..8a14a6c 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -527,6 +527,9 @@ namespace Re
 		 */
 		FORCE_INLINE AutomatonBuilder & pushBranch()
 		{
+			// There may be no group left
+			if (currentGroup == 0) return *this;
+
 			// Terminate and push current branch
 			// by linking current state to end
 			// of current group.
@@ -701,14 +704,15 @@ namespace Re
 		/// Current active state
 		StateT * currentState;
 
-		/// Groups buffers
+		/// Groups buffers. Leave room for a macro
+		/// group, inside the innermost group
 		/// @{
-		StateT * groupStart[maxNumGroups];
-		StateT * groupEnd[maxNumGroups];
+		StateT * groupStart[maxNumGroups + 2];
+		StateT * groupEnd[maxNumGroups + 2];
 		/// @}
 
 		/// Current active group
-		int8 currentGroup;
+		int32 currentGroup;
 	};
 
 	/**
-- 
2.43.0


From ff35bf7a7a1579c804f22000f848abd810a43261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:40 +0000
Subject: [PATCH 26/40] fix: no regex state reads past the end of the input,
 nor of the pattern

---
 src/korin/core/private/regex/regex.cpp | 14 +++++++++++---
 src/korin/core/public/regex/state.h    |  2 +-
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/private/regex/regex.cpp b/src/korin/core/private/regex/regex.cpp
index 9ed8bc1..727837e 100644
--- a/src/korin/core/private/regex/regex.cpp
+++ b/src/korin/core/private/regex/regex.cpp
@@ -107,7 +107,7 @@ namespace Re
 				// Matches any single non-digit character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isDigit(*input);
+					return outNumRead = (*input != '\0' && !isDigit(*input));
 				}, "NonDigit");
 				break;
 			}
@@ -127,7 +127,7 @@ namespace Re
 				// Matches any single non-whitespace character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isWhiteSpace(*input);
+					return outNumRead = (*input != '\0' && !isWhiteSpace(*input));
 				}, "NonWhiteSpace");
 				break;
 			}
@@ -147,11 +147,19 @@ namespace Re
 				// Matches any single non-word character
 				builder.pushState<LambdaT>([](const ansichar * input, int32 & outNumRead, int32 /* numRead */) -> bool {
 
-					return outNumRead = !isWord(*input);
+					return outNumRead = (*input != '\0' && !isWord(*input));
 				}, "NonWord");
 				break;
 			}
 
+			case '\0':
+			{
+				// Nothing to escape, this
+				// is a literal backslash
+				builder.pushState<SymbolT>('\\');
+				return 0;
+			}
+
 			default:
 			{
 				// Escaped special character
diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 5846d75..373cf7c 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -491,7 +491,7 @@ namespace Re
 	template<typename AlphaT>
 	FORCE_INLINE bool StateRange<AlphaT>::enterState(const AlphaStringT & input, int32 & outNumRead, int32 /* numRead */) const
 	{
-		return outNumRead = (*input >= min && *input <= max);
+		return outNumRead = (*input != AlphabetTraitsT::terminalSymbol && *input >= min && *input <= max);
 	}
 
 	template<typename AlphaT>
-- 
2.43.0


From 0614624c8222b4e8c3e07b31ef0996ddb8c56533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:32:01 +0000
Subject: [PATCH 27/40] fix: ids of automaton states are unique across threads

---
 src/korin/core/public/regex/state.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/regex/state.h b/src/korin/core/public/regex/state.h
index 373cf7c..267a720 100644
--- a/src/korin/core/public/regex/state.h
+++ b/src/korin/core/public/regex/state.h
@@ -1,6 +1,7 @@
 #pragma once
 
 #include "core_types.h"
+#include "templates/atomic.h"
 #include "templates/function.h"
 #include "containers/list.h"
 #include "containers/tuple.h"
@@ -60,7 +61,7 @@ namespace Re
 			, prevStates{}
 		{
 			// Generate unique id
-			static uint64 counter = 0;
+			static Atomic<uint64> counter{0ull};
 			id = ++counter;
 		}
 
-- 
2.43.0


From 3ebd8e554620f29a5ffe26e749ad86bfdd7bc3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:19 +0000
Subject: [PATCH 28/40] fix: a repeated regex group ends after its skip

---
 src/korin/core/public/regex/automaton.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 8a14a6c..c0d1c7d 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -585,6 +585,12 @@ namespace Re
 			// Create shortcut
 			groupStart[currentGroup]->addNextState(epsilon);
 
+			// Define current group as entire
+			// group that may be skipped, such
+			// that following operations address
+			// it
+			groupEnd[currentGroup] = epsilon;
+
 			return *this;
 		}
 
-- 
2.43.0


From e5057ecb306a69fbe8ee8a6886e92598f8a00503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:50:21 +0000
Subject: [PATCH 29/40] fix: regex quantifiers at the beginning of a group or
 branch have nothing to repeat

---
 src/korin/core/public/regex/automaton.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index c0d1c7d..0f5f90a 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -432,6 +432,9 @@ namespace Re
 				groupStart[currentGroup] = startState;
 				groupEnd[currentGroup] = endState;
 				currentGroup += 1;
+
+				// Nothing inside group yet
+				groupStart[currentGroup] = groupEnd[currentGroup] = nullptr;
 			}
 			else ; // TODO: Error
 
@@ -536,6 +539,9 @@ namespace Re
 			currentState->addNextState(groupEnd[currentGroup - 1]);
 			currentState = groupStart[currentGroup - 1];
 
+			// Nothing on this branch yet
+			groupStart[currentGroup] = groupEnd[currentGroup] = nullptr;
+
 			return *this;
 		}
 
-- 
2.43.0


From ba005bda871536965f4fdef1232a1de842e0be7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:25 +0000
Subject: [PATCH 30/40] fix: a pattern that runs out of memory while compiled
 leaked states

---
 src/korin/core/public/regex/automaton.h | 39 +++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/regex/automaton.h b/src/korin/core/public/regex/automaton.h
index 0f5f90a..c5b7bb9 100644
--- a/src/korin/core/public/regex/automaton.h
+++ b/src/korin/core/public/regex/automaton.h
@@ -94,7 +94,19 @@ namespace Re
 			// 	but I guess each state class should
 			// 	have its own allocator
 			// }
-			return new (MallocObject<StateAnyT>{}.alloc()) StateAnyT{forward<CreateStateArgsT>(createStateArgs)...};
+			StateAnyT * state = MallocObject<StateAnyT>{}.alloc();
+
+			try
+			{
+				return new (state) StateAnyT{forward<CreateStateArgsT>(createStateArgs)...};
+			}
+			catch (...)
+			{
+				// Don't leak the memory of a state
+				// that could not be constructed
+				MallocObject<StateAnyT>{}.free(state);
+				throw;
+			}
 		}
 
 		/**
@@ -200,7 +212,18 @@ namespace Re
 			// Create state and push into
 			// allocated states list
 			StateAnyT * state = createState<StateAnyT>(forward<CreateStateArgsT>(createStateArgs)...);
-			allocatedStates.pushBack(state);
+
+			try
+			{
+				allocatedStates.pushBack(state);
+			}
+			catch (...)
+			{
+				// Nobody else knows about this state
+				destroyState(state);
+				throw;
+			}
+
 			return state;
 		}
 
@@ -251,7 +274,17 @@ namespace Re
 	{
 		// Create start and accepted states
 		startState = createState<typename State::EpsilonT>();
-		acceptedState = createState<typename State::EpsilonT>();
+
+		try
+		{
+			acceptedState = createState<typename State::EpsilonT>();
+		}
+		catch (...)
+		{
+			// Destructor won't be called
+			destroyState(startState);
+			throw;
+		}
 	}
 
 	template<typename AlphaT>
-- 
2.43.0


From eff48ce370e352f9f4bc7cc0a1cc39d22a87754b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 31/40] fix: entries of lists and trees whose data cannot be
 created leaked their block

---
 src/korin/core/public/containers/list.h | 13 ++++++++++++-
 src/korin/core/public/containers/tree.h | 13 ++++++++++++-
 2 files changed, 24 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/public/containers/list.h b/src/korin/core/public/containers/list.h
index e590a8e..b5fe6ec 100644
--- a/src/korin/core/public/containers/list.h
+++ b/src/korin/core/public/containers/list.h
@@ -206,7 +206,18 @@ protected:
 	template<typename DataT>
 	FORCE_INLINE LinkT * createLink(DataT && a) const
 	{
-		return new (malloc.alloc()) LinkT{forward<DataT>(a)};
+		LinkT * link = malloc.alloc();
+
+		try
+		{
+			return new (link) LinkT{forward<DataT>(a)};
+		}
+		catch (...)
+		{
+			// There is no link, give memory back
+			malloc.free(link);
+			throw;
+		}
 	}
 	
 	/**
diff --git a/src/korin/core/public/containers/tree.h b/src/korin/core/public/containers/tree.h
index 7c3d8c8..509d16f 100644
--- a/src/korin/core/public/containers/tree.h
+++ b/src/korin/core/public/containers/tree.h
@@ -976,7 +976,18 @@ protected:
 	template<typename DataT>
 	FORCE_INLINE NodeT * createNode(DataT && data) const
 	{
-		return new (malloc.alloc(1)) NodeT{forward<DataT>(data)};
+		NodeT * node = malloc.alloc(1);
+
+		try
+		{
+			return new (node) NodeT{forward<DataT>(data)};
+		}
+		catch (...)
+		{
+			// There is no node, give memory back
+			malloc.free(node);
+			throw;
+		}
 	}
 
 	/**
-- 
2.43.0


From 3b7c127b18eb2203e0addff6307f633217e5f5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 32/40] fix: elements constructed in bulk are destroyed when
 one of them fails

---
 .../public/generic/generic_platform_memory.h  | 27 ++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index babc8b0..25344c6 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -65,7 +65,18 @@ struct GenericPlatformMemory
 	template<typename T>
 	static FORCE_INLINE typename EnableIf<!IsTriviallyConstructible<T>::value>::Type constructDefaultElements(T * begin, T * end)
 	{
-		for (; begin != end; ++begin) new (begin) T{};
+		T * it = begin;
+
+		try
+		{
+			for (; it != end; ++it) new (it) T{};
+		}
+		catch (...)
+		{
+			// All or nothing
+			destroyElements(begin, it);
+			throw;
+		}
 	}
 
 	template<typename T>
@@ -88,8 +99,18 @@ struct GenericPlatformMemory
 	template<typename T>
 	static FORCE_INLINE typename EnableIf<!IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
-		for (uint32 i = 0; i < n; ++i)
-			new (dst + i) T{src[i]};
+		uint64 i = 0;
+
+		try
+		{
+			for (; i < n; ++i) new (dst + i) T{src[i]};
+		}
+		catch (...)
+		{
+			// All or nothing
+			destroyElements(dst, dst + i);
+			throw;
+		}
 	}
 
 	template<typename T>
-- 
2.43.0


From 0001deec58bdba0aa01feafa6646049460874b58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 33/40] fix: arrays whose elements cannot be created leaked
 their buffer or counted them

---
 src/korin/core/public/containers/array.h | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 91d10e2..1f7ebf7 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -366,18 +366,17 @@ public:
 	 * @param inCapacity array max capacity
 	 */
 	FORCE_INLINE Array(uint64 inCapacity, uint64 inCount = 0)
-		: malloc{}
-		, buffer{nullptr}
-		, capacity{inCapacity}
-		, count{inCount}
+		: Array{}
 	{
 		// Create buffer of capacity
 		buffer = malloc.alloc(inCapacity);
+		capacity = inCapacity;
 		
-		if (count > 0)
+		if (inCount > 0)
 		{
 			// Default construct all items
-			Memory::constructDefaultElements(buffer, buffer + count);
+			Memory::constructDefaultElements(buffer, buffer + inCount);
+			count = inCount;
 		}
 	}
 
@@ -591,7 +590,10 @@ public:
 	{
 		if (idx >= count)
 		{
-			return *(new (&(operator()(idx))) T{forward<ItemT>(initValue)});
+			// The item could be one of ours, and
+			// it could fail to be constructed
+			T inItem{forward<ItemT>(initValue)};
+			return *(new (&(operator()(idx))) T{move(inItem)});
 		}
 		
 		return operator()(idx);
-- 
2.43.0


From 7a739a5c276b9b12f2956f53b2c10c853c427afd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:52 +0000
Subject: [PATCH 34/40] fix: function objects whose callable cannot be copied
 leaked their block

---
 src/korin/core/public/templates/function.h | 25 ++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/korin/core/public/templates/function.h b/src/korin/core/public/templates/function.h
index c68e7a8..fe28720 100644
--- a/src/korin/core/public/templates/function.h
+++ b/src/korin/core/public/templates/function.h
@@ -124,7 +124,15 @@ struct FunctionOwnedObject : public FunctionOwnedObjectHeap
 		{
 			if (void * heap = MallocAnsi{}.alloc(sizeof(FunctionOwnedObject), alignof(FunctionOwnedObject)))
 			{
-				return new (heap) FunctionOwnedObject{object};
+				try
+				{
+					return new (heap) FunctionOwnedObject{object};
+				}
+				catch (...)
+				{
+					MallocAnsi{}.free(heap);
+					throw;
+				}
 			}
 		}
 
@@ -197,9 +205,18 @@ struct FunctionStorage : FunctionStorageBase
 		heap = MallocAnsi{}.alloc(sizeof(OwnedT), alignof(OwnedT));
 		if (!heap) return nullptr;
 
-		OwnedT * object = new (heap) OwnedT{forward<FunctorT>(fn)};
-
-		return &object->object;
+		try
+		{
+			OwnedT * object = new (heap) OwnedT{forward<FunctorT>(fn)};
+			return &object->object;
+		}
+		catch (...)
+		{
+			// There is no object, give memory back
+			MallocAnsi{}.free(heap);
+			heap = nullptr;
+			throw;
+		}
 	}
 
 	/**
-- 
2.43.0


From 3cac46dd5fd668a1a90c26557a9cde251408439b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:30 +0000
Subject: [PATCH 35/40] fix: an array whose elements cannot be moved to a
 larger buffer lost them

---
 src/korin/core/public/containers/array.h      | 13 ++++++-
 .../public/generic/generic_platform_memory.h  | 34 +++++++++++++++++++
 2 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 1f7ebf7..66f68a0 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -318,7 +318,18 @@ protected:
 			// Move elements and free old buffer
 			if (buffer)
 			{
-				Memory::relocateElements(inBuffer, buffer, count);
+				try
+				{
+					Memory::constructMoveElements(inBuffer, buffer, count);
+				}
+				catch (...)
+				{
+					// Keep what we have
+					malloc.free(inBuffer);
+					throw;
+				}
+
+				Memory::destroyElements(buffer, buffer + count);
 				malloc.free(buffer);
 			}
 
diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 25344c6..56a679a 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -120,6 +120,40 @@ struct GenericPlatformMemory
 	}
 	///@}
 
+	/**
+	 * Move elements to uninitialized memory.
+	 * Source and destination buffer must not
+	 * overlap.
+	 * 
+	 * @param dst destination buffer
+	 * @param src source buffer
+	 * @param n num of elements
+	 * @{
+	 */
+	template<typename T>
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<T>::value>::Type constructMoveElements(T * RESTRICT dst, T * RESTRICT src, uint64 n)
+	{
+		uint64 i = 0;
+
+		try
+		{
+			for (; i < n; ++i) new (dst + i) T{move(src[i])};
+		}
+		catch (...)
+		{
+			// All or nothing
+			destroyElements(dst, dst + i);
+			throw;
+		}
+	}
+
+	template<typename T>
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<T>::value>::Type constructMoveElements(T * RESTRICT dst, T * RESTRICT src, uint64 n)
+	{
+		memcpy(dst, src, n * sizeof(T));
+	}
+	/// @}
+
 	/**
 	 * Copy elements from source to destination.
 	 * Source and destination buffer must not
-- 
2.43.0


From 246ee96059e0bc1f6be496b03d3c131e3b8c2114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:49 +0000
Subject: [PATCH 36/40] fix: moving a string copied it, needing memory it might
 not get

---
 src/korin/core/public/containers/string.h | 44 +++++++++++++++++------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/korin/core/public/containers/string.h b/src/korin/core/public/containers/string.h
index d21a612..f2b569d 100644
--- a/src/korin/core/public/containers/string.h
+++ b/src/korin/core/public/containers/string.h
@@ -97,11 +97,35 @@ public:
 	 * would not be terminated
 	 */
 	FORCE_INLINE StringBase(const StringBase & other)
-		: array{other.array.buffer, other.array.count}
+		: array{*other, other.getLength() + 1}
 	{
 		//
 	}
 
+	/**
+	 * Move constructor, the other string is
+	 * left without a buffer and is empty.
+	 */
+	FORCE_INLINE StringBase(StringBase && other)
+		: array{move(other.array)}
+	{
+		//
+	}
+
+	/// Default assignments @{
+	StringBase & operator=(const StringBase & other)
+	{
+		if (this != &other) printString(*other, other.getLength());
+		return *this;
+	}
+
+	StringBase & operator=(StringBase && other)
+	{
+		if (this != &other) array = move(other.array);
+		return *this;
+	}
+	/// @}
+
 protected:
 	/**
 	 * Copy constructor with extra slack
@@ -110,7 +134,7 @@ protected:
 	 * @param slack extra slack to add
 	 */
 	FORCE_INLINE StringBase(const StringBase & other, sizet slack)
-		: array{other.array.buffer, other.array.count, slack}
+		: array{*other, other.getLength() + 1, slack}
 	{
 		//
 	}
@@ -122,7 +146,7 @@ public:
 	 */
 	FORCE_INLINE sizet getLength() const
 	{
-		return array.count - 1;
+		return array.count ? array.count - 1 : 0;
 	}
 
 	METHOD_ALIAS_CONST(getSize, getLength)
@@ -143,7 +167,7 @@ public:
 
 	FORCE_INLINE const CharT * operator*() const
 	{
-		return *array;
+		return array.buffer ? array.buffer : "";
 	}
 
 	METHOD_ALIAS_CONST(getData, operator*)
@@ -199,12 +223,12 @@ public:
 	 */
 	FORCE_INLINE int32 cmp(const StringBase & other) const
 	{
-		return PlatformStrings::cmp(array.buffer, other.array.buffer);
+		return PlatformStrings::cmp(**this, *other);
 	}
 
 	FORCE_INLINE int32 cmp(const CharT * other) const
 	{
-		return PlatformStrings::cmp(array.buffer, other);
+		return PlatformStrings::cmp(**this, other);
 	}
 	/** @} */
 
@@ -218,12 +242,12 @@ public:
 	 */
 	FORCE_INLINE int32 icmp(const StringBase & other) const
 	{
-		return PlatformStrings::icmp(array.buffer, other.array.buffer);
+		return PlatformStrings::icmp(**this, *other);
 	}
 
 	FORCE_INLINE int32 icmp(const CharT * other) const
 	{
-		return PlatformStrings::icmp(array.buffer, other);
+		return PlatformStrings::icmp(**this, other);
 	}
 	/** @} */
 
@@ -382,7 +406,7 @@ public:
 	 */
 	StringBase & operator+=(const StringBase & other)
 	{
-		return appendString(*(other.array), other.getLength());
+		return appendString(*other, other.getLength());
 	}
 
 	/**
@@ -569,7 +593,7 @@ public:
 	 */
 	StringBase substr(sizet len, sizet pos = 0) const
 	{
-		return StringBase{array.buffer + pos, len};
+		return StringBase{**this + pos, len};
 	}
 	
 private:
-- 
2.43.0


From 9e4040511ca21e054309815947d3cfa9c6a541fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:04 +0000
Subject: [PATCH 37/40] fix: arrays counted elements that could not be moved in

---
 src/korin/core/public/containers/array.h | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/korin/core/public/containers/array.h b/src/korin/core/public/containers/array.h
index 66f68a0..2136851 100644
--- a/src/korin/core/public/containers/array.h
+++ b/src/korin/core/public/containers/array.h
@@ -604,7 +604,11 @@ public:
 			// The item could be one of ours, and
 			// it could fail to be constructed
 			T inItem{forward<ItemT>(initValue)};
-			return *(new (&(operator()(idx))) T{move(inItem)});
+			resizeIfNecessary(idx + 1);
+			insertNoResize(idx, move(inItem));
+			count = idx + 1;
+
+			return buffer[idx];
 		}
 		
 		return operator()(idx);
@@ -700,7 +704,10 @@ public:
 		else
 		{
 			resizeIfNecessary(j);
+			insertNoResize(idx, move(inItem));
 			count = j;
+
+			return buffer[idx];
 		}
 		
 		// Move construct element
@@ -728,7 +735,10 @@ public:
 		else
 		{
 			resizeIfNecessary(j);
+			Memory::constructMoveElements(buffer + idx, inItems, numArgs);
 			count = j;
+
+			return;
 		}
 		
 		// Move construct elements
-- 
2.43.0


From 7c1f0c80aac11a4d7504bbbe4a28d302063964b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:08:10 +0000
Subject: [PATCH 38/40] fix: a restarted executor matches the input it was
 restarted with

reset(input) restarted from the previous input, and reset() could not be
instantiated at all.
---
 src/korin/core/public/regex/executor.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/regex/executor.h b/src/korin/core/public/regex/executor.h
index f9696aa..81092e3 100644
--- a/src/korin/core/public/regex/executor.h
+++ b/src/korin/core/public/regex/executor.h
@@ -144,7 +144,7 @@ namespace Re
 		{
 			// Empty visit queue
 			visitQueue.empty();
-			knownVisits.empty();
+			knownVisits = Set<VisitT, FindVisit>{};
 
 			// Reset current visit with
 			// start state and input
@@ -153,10 +153,10 @@ namespace Re
 
 		FORCE_INLINE void reset(const AlphaStringT & inInput)
 		{
-			reset();
-
 			// Change input string
 			input = inInput;
+
+			reset();
 		}
 		/** @} */
 
-- 
2.43.0


From 9ac73473689e628ffe1dc117a4def1850e6132a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:25 +0000
Subject: [PATCH 39/40] fix: the default allocator outlives every object of
 static storage duration

---
 src/korin/core/private/hal/memory_base.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/korin/core/private/hal/memory_base.cpp b/src/korin/core/private/hal/memory_base.cpp
index 5270d93..a9ddff5 100644
--- a/src/korin/core/private/hal/memory_base.cpp
+++ b/src/korin/core/private/hal/memory_base.cpp
@@ -2,5 +2,12 @@
 #include "hal/malloc_ansi.h"
 
 // TODO: Replace with initialization function
-static MallocAnsi gMallocAnsi;
-MallocBase * gMalloc = &gMallocAnsi;
\ No newline at end of file
+// Never destroyed, objects destroyed later
+// may still have to free their memory
+static union GlobalMalloc
+{
+	MallocAnsi ansi;
+	constexpr GlobalMalloc() : ansi{} {}
+	~GlobalMalloc() {}
+} gMallocAnsi;
+MallocBase * gMalloc = &gMallocAnsi.ansi;
-- 
2.43.0


From ebfee25bde0b02409ee84d2d5025ad207d62f1e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:28 +0000
Subject: [PATCH 40/40] fix: elements that are trivially made but not trivially
 copied were copied byte by byte

---
 src/korin/core/public/generic/generic_platform_memory.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/korin/core/public/generic/generic_platform_memory.h b/src/korin/core/public/generic/generic_platform_memory.h
index 56a679a..3e6aed6 100644
--- a/src/korin/core/public/generic/generic_platform_memory.h
+++ b/src/korin/core/public/generic/generic_platform_memory.h
@@ -88,7 +88,7 @@ struct GenericPlatformMemory
 
 	/**
 	 * Copy elements from source to destination.
-	 * If elements are not trivially constructible
+	 * If elements are not trivially copyable
 	 * invoke copy constructor on each element,
 	 * otherwise a simple memory copy is performed.
 	 * 
@@ -97,7 +97,7 @@ struct GenericPlatformMemory
 	 * @param m num of elements
 	 */
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<!IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<!IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		uint64 i = 0;
 
@@ -114,7 +114,7 @@ struct GenericPlatformMemory
 	}
 
 	template<typename T>
-	static FORCE_INLINE typename EnableIf<IsTriviallyConstructible<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
+	static FORCE_INLINE typename EnableIf<IsTriviallyCopyable<T>::value>::Type constructCopyElements(T * RESTRICT dst, const T * RESTRICT src, uint64 n)
 	{
 		memcpy(dst, src, n * sizeof(T));
 	}
-- 
2.43.0

