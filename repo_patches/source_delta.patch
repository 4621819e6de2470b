From f8fadca5607b247a5363b3d9e67af7216461fe86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:21 +0000
Subject: [PATCH 01/36] fix: Crc16Layer::mtu() exceeds the lower layer's MTU of
 257 bytes

---
 src/protocol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index f3d4606..207da2e 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1440,7 +1440,7 @@ uint16_t Crc16Layer::compute(uint8_t input, uint16_t crc)
 size_t Crc16Layer::mtu() const
 {
 	size_t mtu = base::mtu();
-	if(mtu == 0 || mtu > 256U)
+	if(mtu == 0 || mtu > 257U)
 		return 256U;
 	if(mtu <= 3U)
 		return 1U;
-- 
2.43.0


From 5c40c0c9f24048b1f478ad40a1e54befd40c0c83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:51 +0000
Subject: [PATCH 02/36] fix: strncmp() compares characters as unsigned char,
 like ::strncmp()

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 0ea0867..2514921 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -46,8 +46,8 @@ int strncmp(
 
 	size_t i = 0;
 	for(; i < len1 && i < len2; i++) {
-		char c1 = str1[i];
-		char c2 = str2[i];
+		unsigned char c1 = (unsigned char)str1[i];
+		unsigned char c2 = (unsigned char)str2[i];
 
 		if(c1 < c2)
 			return -1;
-- 
2.43.0


From 5c996fd6b2fd3a813c27314d6eb3ab52e6b8fb20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 03/36] fix: saturated_cast() of a floating-point value beyond
 the range of long long saturates at the wrong bound

---
 include/libstored/util.h | 20 +++++++++++++++++---
 1 file changed, 17 insertions(+), 3 deletions(-)

diff --git a/include/libstored/util.h b/include/libstored/util.h
index 7df7a4e..5e050d7 100644
--- a/include/libstored/util.h
+++ b/include/libstored/util.h
@@ -688,17 +688,31 @@ struct saturated_cast_helper {
 		return static_cast<R>(value);
 	}
 
+	template <typename F>
+	__attribute__((pure)) static R cast_rounded(F value) noexcept
+	{
+		// Note that max() may be rounded up by the conversion to F, but then there is no F
+		// between both of them.
+		if(value >= static_cast<F>(std::numeric_limits<R>::max()))
+			return std::numeric_limits<R>::max();
+		// This also handles NaN.
+		if(!(value > static_cast<F>(std::numeric_limits<R>::min())))
+			return std::numeric_limits<R>::min();
+
+		return static_cast<R>(value);
+	}
+
 	__attribute__((pure)) static R cast(float value) noexcept
 	{
-		return cast(llroundf(value));
+		return cast_rounded(roundf(value));
 	}
 	__attribute__((pure)) static R cast(double value) noexcept
 	{
-		return cast(llround(value));
+		return cast_rounded(round(value));
 	}
 	__attribute__((pure)) static R cast(long double value) noexcept
 	{
-		return cast(llroundl(value));
+		return cast_rounded(roundl(value));
 	}
 	__attribute__((pure)) static R cast(bool value) noexcept
 	{
-- 
2.43.0


From 66162b7594de023af3d96a41e84d8c53495b318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:33 +0000
Subject: [PATCH 04/36] fix: memcmp_swap() reports the order of the wrong bytes

---
 src/util.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util.cpp b/src/util.cpp
index 2514921..779a511 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -112,7 +112,7 @@ int memcmp_swap(void const* a, void const* b, size_t len) noexcept
 	return 0;
 
 diff:
-	return a_[i] < b_[i] ? -1 : 1;
+	return a_[i] < b_[len - i - 1] ? -1 : 1;
 }
 
 /*!
-- 
2.43.0


From a2abcf6d0cd225b136e3c8e066dbd18ab208d954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 05/36] fix: ScratchPad rollback to a snapshot of a full chunk
 releases live memory

---
 include/libstored/spm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 98ef872..d953291 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -279,7 +279,8 @@ private:
 		char* snapshot_ = static_cast<char*>(snapshot);
 
 		// Find correct buffer.
-		while(!(snapshot_ >= m_buffer && snapshot_ < &m_buffer[bufferSize()])) {
+		// NB: the snapshot may be at the end, when the buffer was full.
+		while(!(snapshot_ >= m_buffer && snapshot_ <= &m_buffer[bufferSize()])) {
 			m_size = 0; // Don't care, will be recovered later on.
 			bufferPop();
 			stored_assert(m_buffer);
@@ -289,7 +290,7 @@ private:
 		stored_assert(size <= m_total);
 		m_total = size;
 		size_t size_ = (size_t)(snapshot_ - m_buffer);
-		stored_assert(size_ < bufferSize());
+		stored_assert(size_ <= bufferSize());
 		m_size = (size_type)size_;
 
 		STORED_MAKE_MEM_NOACCESS(&m_buffer[m_size], bufferSize() - m_size);
-- 
2.43.0


From 6fc8ce00ff4962c51c01b8bfa77027a9ebcb6709 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 06/36] fix: ScratchPad moves an unused chunk that a snapshot
 still refers to

---
 include/libstored/spm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index d953291..6d23f93 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -463,8 +463,9 @@ public:
 		if(likely(new_cap <= bufferSize()))
 			return;
 
-		if(m_buffer && m_size == 0) {
-			// Grow (realloc) is fine, as nobody is using the current buffer (if any).
+		if(m_buffer && empty()) {
+			// Grow (realloc) is fine, as nobody is using the current buffer (if any). If
+			// there are allocations in older buffers, a snapshot may point to this one.
 			bufferGrow(new_cap);
 		} else {
 			// Grow (realloc) may move the buffer. So don't do that.
-- 
2.43.0


From 70f889a4c547f5e52d1c691cb1958b16fb478f5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 07/36] fix: ScratchPad rollback asserts on a chunk that has
 spare space beyond the maximum size

---
 include/libstored/spm.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 6d23f93..8c44332 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -353,9 +353,9 @@ private:
 			// We don't know m_size. Assume that this is part of a rollback(), which
 			// will set it properly. Set it at worst-case now, such that the assert
 			// above may trigger.
+			// The buffer may be larger than maxSize, as it may have spare space.
 			size_t b = bufferSize();
-			stored_assert(b <= maxSize);
-			m_size = (size_type)b;
+			m_size = (size_type)std::min<size_t>(b, maxSize);
 		}
 	}
 
-- 
2.43.0


From 65a1d766240fda3ddcda47e6ef72ff1a0bf21f8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:44 +0000
Subject: [PATCH 08/36] fix: ScratchPad size counters wrap around beyond the
 maximum size

---
 include/libstored/spm.h | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 8c44332..a394067 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -517,6 +517,9 @@ public:
 	__attribute__((malloc, returns_nonnull, warn_unused_result)) T*
 	alloc(size_t count = 1, size_t align = sizeof(T))
 	{
+		if(unlikely(count > (size_t)maxSize / sizeof(T)))
+			overflow();
+
 		size_t alloc_size = count * sizeof(T);
 		if(unlikely(alloc_size == 0)) {
 			if(unlikely(!m_buffer))
@@ -530,14 +533,11 @@ public:
 		if(padding == align)
 			padding = 0;
 
-		if(unlikely(m_total + alloc_size + padding < m_total)) {
-			// Wrap around -> overflow.
-#	ifdef STORED_cpp_exceptions
-			throw std::bad_alloc();
-#	else
-			std::terminate();
-#	endif
-		}
+		if(unlikely(
+			   alloc_size > (size_t)maxSize - m_total
+			   || padding > (size_t)maxSize - m_total - alloc_size))
+			// The size counters would wrap around.
+			overflow();
 
 		size_t bs = bufferSize();
 		if(likely(m_size + padding <= bs)) {
@@ -570,6 +570,18 @@ public:
 	}
 
 private:
+	/*!
+	 * \brief The maximum size is exceeded.
+	 */
+	static void overflow()
+	{
+#	ifdef STORED_cpp_exceptions
+		throw std::bad_alloc();
+#	else
+		std::terminate();
+#	endif
+	}
+
 	/*! \brief Current buffer chunk. If it gets full, it is pushed onto #m_old and a new one is
 	 * allocated. */
 	char* m_buffer;
-- 
2.43.0


From 7014e12eb927d95b477f7c5d07e83889880f2a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 09/36] fix: unbounded Fifo asserts when it moves its content
 to the start of a full buffer

---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 8394645..fb20f9d 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -198,8 +198,8 @@ public:
 	{
 		stored_assert(dst + (pointer)len >= dst);
 		stored_assert(src + (pointer)len >= src);
-		stored_assert((size_t)dst + len < size());
-		stored_assert((size_t)src + len < size());
+		stored_assert((size_t)dst + len <= size());
+		stored_assert((size_t)src + len <= size());
 
 		impl::buffer_move(m_buffer, dst, src, len);
 	}
-- 
2.43.0


From a92feb7ca32adf3447459858316d641aad6e8eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:14:05 +0000
Subject: [PATCH 10/36] fix: bounded Fifo wraps around at the wrong position
 when the position type overflows

---
 include/libstored/fifo.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index fb20f9d..b06201c 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -569,9 +569,11 @@ public:
 		pointer rp = m_rp.load(std::memory_order_relaxed);
 		stored_assert(count <= available());
 
-		rp = (pointer)(rp + count);
-		if(wp < rp && rp >= m_buffer.size())
-			rp = (pointer)(rp - m_buffer.size());
+		// NB: the sum may not fit in pointer.
+		size_t next = (size_t)rp + count;
+		if(wp < next && next >= m_buffer.size())
+			next -= m_buffer.size();
+		rp = (pointer)next;
 
 		if(!bounded() && wp == rp) {
 			// Reset to the start of the buffer, as it became empty.
@@ -713,9 +715,11 @@ protected:
 
 		if(bounded()) {
 			// Bounded buffer. Do wrap-around.
-			wp_next = (pointer)(wp + count);
-			if(wp_next >= m_buffer.size())
-				wp_next = (pointer)(wp_next - m_buffer.size());
+			// NB: the sum may not fit in pointer.
+			size_t next = (size_t)wp + count;
+			if(next >= m_buffer.size())
+				next -= m_buffer.size();
+			wp_next = (pointer)next;
 		} else {
 			// Unbounded buffer.
 			stored_assert(!ThreadSafe);
-- 
2.43.0


From 39c052d0fbb53ce1b56d76c65ccae72eb227b8ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 11/36] fix: Buffer moves only part of elements larger than a
 byte

---
 include/libstored/fifo.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index b06201c..4c6b512 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -37,13 +37,14 @@ struct buffer_ops {
 	static void set(B& buffer, pointer p, typename B::value_type const* x, size_t len) noexcept
 	{
 		if(len)
-			memcpy(&buffer[p], x, len);
+			memcpy(&buffer[p], x, len * sizeof(typename B::value_type));
 	}
 
 	static void move(B& buffer, pointer dst, pointer src, size_t len) noexcept
 	{
 		if(len)
-			memmove(&buffer[dst], &buffer[src], len);
+			memmove(&buffer[dst], &buffer[src],
+				len * sizeof(typename B::value_type));
 	}
 };
 
-- 
2.43.0


From ace95b279e12cad1df6442aaa16f3775f067ec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:00 +0000
Subject: [PATCH 12/36] fix: MessageFifo corrupts messages or asserts when it
 contains an empty message

---
 include/libstored/fifo.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 4c6b512..130c731 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -906,19 +906,26 @@ public:
 	const_type front() const noexcept
 	{
 		Msg const& msg = m_msg.front();
-		return const_type{&m_buffer[msg.first], msg.second};
+		// NB: an empty message may be at the end of the buffer.
+		return const_type{msg.second ? &m_buffer[msg.first] : nullptr, msg.second};
 	}
 
 	type front() noexcept
 	{
 		Msg& msg = m_msg.front();
-		return type{&m_buffer[msg.first], msg.second};
+		// NB: an empty message may be at the end of the buffer.
+		return type{msg.second ? &m_buffer[msg.first] : nullptr, msg.second};
 	}
 
 	void pop_front() noexcept
 	{
 		Msg const& msg = m_msg.front();
-		m_rp.store((buffer_pointer)(msg.first + msg.second), std::memory_order_relaxed);
+		// An empty message does not occupy the buffer, so the other messages may have been
+		// moved elsewhere since.
+		if(msg.second)
+			m_rp.store(
+				(buffer_pointer)(msg.first + msg.second),
+				std::memory_order_relaxed);
 		m_msg.pop_front();
 	}
 
-- 
2.43.0


From 1a52f5bee0b1349a827788e26172d78b96f9de76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:46 +0000
Subject: [PATCH 13/36] fix: empty MessageFifo refuses messages that fit after
 a partial message was dropped

---
 include/libstored/fifo.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 130c731..f2132dc 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -582,7 +582,9 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(rp, std::memory_order_relaxed);
+			m_rp.store(
+				rp,
+				ThreadSafe ? std::memory_order_release : std::memory_order_relaxed);
 		}
 	}
 
@@ -1004,7 +1006,13 @@ public:
 #    endif
 		}
 
-		if(wp == rp && partial == 0) {
+		if(partial == 0 && (wp == rp || m_msg.empty())) {
+			// NB: wp may not be equal to rp, even though there are no messages, when a
+			// partial message was dropped, after it was moved to the start of the
+			// buffer.  Synchronize with the pop_front() of the last message.
+			if(ThreadSafe)
+				std::atomic_thread_fence(std::memory_order_acquire);
+
 			// Note: Because of race conditions in a threaded
 			// environment, it might be the case that empty() is
 			// not yet true, as pop_front() first updates rp and
-- 
2.43.0


From 649879dadcdb0c780ebb23fcbdbb8e403629380c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:46 +0000
Subject: [PATCH 14/36] fix: FifoLoopback1::mtu() is one byte more than what
 fits in the fifo

---
 include/libstored/fifo.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index f2132dc..6fdf678 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1249,7 +1249,9 @@ public:
 	virtual size_t mtu() const override
 	{
 		size_t res = base::mtu();
-		return res ? std::min(Capacity, res) : Capacity;
+		// NB: one byte of the buffer cannot be used.
+		size_t cap = std::max<size_t>(1, m_fifo.capacity());
+		return res ? std::min(cap, res) : cap;
 	}
 
 	constexpr bool bounded() const noexcept
-- 
2.43.0


From a95de274a27984a40e4039536061e931abbc908b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 15/36] fix: Debugger WriteMem writes everything beyond the
 first 32 bytes to the wrong address

---
 src/debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 2f2888a..bda2a6a 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -714,7 +714,7 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 			if(!decodeHex(Type::Blob, w, wlen))
 				goto error;
 			memcpy(addr, w, wlen);
-			addr += chunk;
+			addr += wlen;
 			p += chunk;
 			len -= chunk;
 		}
-- 
2.43.0


From f720f146599c4345dbc31b0af40f42d83c6afd89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 16/36] fix: Debugger WriteMem writes a part of the data of a
 refused request

---
 src/debugger.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index bda2a6a..1b8ccc6 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -4,6 +4,7 @@
 
 #include <libstored/debugger.h>
 
+#include <cctype>
 #include <cstring>
 
 #ifdef STORED_COMPILER_ARMCC
@@ -704,6 +705,11 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 			// Odd number of nibbles.
 			goto error;
 
+		// Check everything in advance, such that a refused request does not write anything.
+		for(size_t i = 0; i < len; i++)
+			if(!isxdigit((unsigned char)p[i]))
+				goto error;
+
 		// Process data in chunks.
 		while(len > 0) {
 			ScratchPad<>::Snapshot chunk_snapshot = spm().snapshot();
-- 
2.43.0


From 4a1b8b46d5c7045265872ff0feaeb85e33630159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 17/36] fix: Debugger macro with only a separator does not give
 a response

---
 src/debugger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 1b8ccc6..d1a15fd 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -935,6 +935,7 @@ bool Debugger::runMacro(char m, ProtocolLayer& response)
 		return false;
 	case 1:
 		// Expect the separator and at least one char to execute.  Nothing to do.
+		response.encode();
 		return true;
 	default:;
 		// Go execute.
-- 
2.43.0


From 3878f8800831d8316423fc91bae613842354c3e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 18/36] fix: refused Debugger trace request creates a stream

---
 src/debugger.cpp | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index d1a15fd..072274c 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -849,23 +849,24 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 		if(len < 3)
 			goto error;
 
-		m_traceMacro = p[1];
-		m_traceStream = p[2];
-
-		// Make sure the trace stream exists.
-		if(!stream(m_traceStream, true))
-			// Cannot allocate.
-			goto error;
-
+		unsigned int decimate = 1;
 		if(len > 3) {
 			void const* d = &p[3];
 			size_t dlen = std::min<size_t>(8, len - 3); // at most 32-bit
 			if(!decodeHex(Type::Uint, d, dlen))
 				goto error;
 
-			memcpy(&m_traceDecimate, d, sizeof(m_traceDecimate));
-		} else
-			m_traceDecimate = 1;
+			memcpy(&decimate, d, sizeof(decimate));
+		}
+
+		// Make sure the trace stream exists.
+		if(!stream(p[2], true))
+			// Cannot allocate.
+			goto error;
+
+		m_traceMacro = p[1];
+		m_traceStream = p[2];
+		m_traceDecimate = decimate;
 		break;
 	}
 	default:
-- 
2.43.0


From c481a21b304100c14415e0ed00e64bfa4f1176f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 19/36] fix: Debugger write to a bool may store an invalid
 value

---
 src/debugger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 072274c..41c789d 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1103,6 +1103,10 @@ bool Debugger::decodeHex(Type::type type, void const*& data, size_t& len)
 			bin[(len - i - 1) / 2] |= b;
 #endif
 		}
+
+		if((type & ~Type::FlagFunction) == Type::Bool)
+			// Only 0 and 1 are valid representations.
+			bin[0] = bin[0] ? 1U : 0U;
 	} else {
 		if(len & 1U)
 			// Bytes must come in pair of nibbles.
-- 
2.43.0


From 62104db4a272b474393b442472216d5b1779aac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 20/36] fix: Debugger refuses to write an empty string, while
 it can be read

---
 src/debugger.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 41c789d..2d72076 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1075,7 +1075,10 @@ static uint8_t decodeNibble(char c, bool& ok)
  */
 bool Debugger::decodeHex(Type::type type, void const*& data, size_t& len)
 {
-	if(len == 0 || !data)
+	if(!data)
+		return false;
+
+	if(len == 0 && (type & ~Type::FlagFunction) != Type::String)
 		return false;
 
 	char const* src = static_cast<char const*>(data);
-- 
2.43.0


From b84b4bddc977445f0171e84eba611fb9cda3ffd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:11 +0000
Subject: [PATCH 21/36] fix: list() without prefix uses the prefix of an
 earlier call

---
 src/directory.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/directory.cpp b/src/directory.cpp
index 264c4af..a77bb1f 100644
--- a/src/directory.cpp
+++ b/src/directory.cpp
@@ -98,6 +98,8 @@ void list(
 
 	if(prefix)
 		name = prefix;
+	else
+		name.clear();
 
 	list(container, buffer, directory, f, arg, &name);
 }
-- 
2.43.0


From 49cf7f0f253b58b7c4d6326db1c6f846bb361446 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:37 +0000
Subject: [PATCH 22/36] fix: object and scope with the same name got lost in
 the directory

---
 python/libstored/generator/dsl/types.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index ff64c0b..772cdba 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -229,6 +229,16 @@ class Directory(object):
                     pivot -= 1
                 else:
                     pivot += 1
+            if names[pivot] == '\x00':
+                # The end of the name cannot be compared to, as it is encoded
+                # as the end marker.  Use the one after the /, or any other
+                # character in between when there is none.
+                if len(names) > 2:
+                    pivot = 2
+                else:
+                    names.insert(1, '.')
+                    h = {**h, '.': {}}
+                    pivot = 1
             assert(names[pivot] != '/')
             expr = self.generateDict(h[names[pivot]])
 
-- 
2.43.0


From ced95790481b8d118edd2a3362d34d5be154e9b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 23/36] fix: unaligned function callback passes garbage

---
 include/libstored/types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 775fbe6..cc9dea7 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -949,11 +949,11 @@ public:
 			type v;
 
 			if(set) {
+				memcpy(&v, buffer, sizeof(v));
 				container().callback(true, &v, sizeof(v), id());
-				memcpy(buffer, &v, sizeof(v));
 			} else {
-				memcpy(&v, buffer, sizeof(v));
 				container().callback(false, &v, sizeof(v), id());
+				memcpy(buffer, &v, sizeof(v));
 			}
 
 			return sizeof(v);
@@ -1465,11 +1465,11 @@ public:
 			uint64_t v = 0;
 
 			if(set) {
+				memcpy(&v, buffer, size_);
 				container().callback(true, &v, size_, (unsigned int)m_f);
-				memcpy(buffer, &v, size_);
 			} else {
-				memcpy(&v, buffer, size_);
 				container().callback(false, &v, size_, (unsigned int)m_f);
+				memcpy(buffer, &v, size_);
 			}
 
 			return size_;
-- 
2.43.0


From 70c18d83d02ba940c358ac2f49cf26f13cf7a17e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 24/36] fix: copy of a shorter string leaves the tail of the
 old one

---
 include/libstored/types.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index cc9dea7..20f7dfc 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1838,9 +1838,13 @@ public:
 						  static_cast<char*>(buffer()),
 						  static_cast<char const*>(other.buffer()), len)
 					  != 0;
-			if(changed)
-				strncpy(static_cast<char*>(buffer()),
-					static_cast<char const*>(other.buffer()), len);
+			if(changed) {
+				char* buffer_ = static_cast<char*>(buffer());
+				size_t len_ = strncpy(
+					buffer_, static_cast<char const*>(other.buffer()), len);
+				// The byte after the buffer of the string is reserved for the \0.
+				buffer_[len_] = '\0';
+			}
 		} else {
 			if(Config::EnableHooks)
 				changed = memcmp(buffer(), other.buffer(), len) != 0;
-- 
2.43.0


From 19af7ebb01574bc43201acc195579ea43c2b4130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:26 +0000
Subject: [PATCH 25/36] fix: no terminator after a string that fills its
 buffer, even if there is space

---
 include/libstored/types.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 20f7dfc..43090a4 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1292,10 +1292,12 @@ public:
 	 */
 	size_t get(void* dst, size_t len = 0) const
 	{
+		size_t dst_len = 0;
 		if(Type::isFixed(type())) {
 			stored_assert(len == size() || len == 0);
 			len = size();
 		} else {
+			dst_len = len;
 			len = std::min(len, size());
 		}
 
@@ -1307,7 +1309,7 @@ public:
 				char* dst_ = static_cast<char*>(dst);
 				char const* buffer_ = static_cast<char const*>(m_buffer);
 				size_t len_ = strncpy(dst_, buffer_, len);
-				if(len > len_)
+				if(dst_len > len_)
 					dst_[len_] = '\0';
 				len = len_;
 			} else {
-- 
2.43.0


From 4359616e8466f5497afa0d57ecf05092e4c39d88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:30 +0000
Subject: [PATCH 26/36] fix: Variant cannot be constructed from a Function

---
 include/libstored/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 43090a4..51c7076 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1273,7 +1273,7 @@ public:
 		: m_container(f.valid() ? &f.container() : nullptr)
 		, m_f(f.valid() ? f.id() : 0)
 		, m_len(sizeof(T))
-		, m_type(f.type())
+		, m_type((uint8_t)(toType<T>::type | Type::FlagFunction))
 #  ifdef _DEBUG
 		, m_entry()
 #  endif
-- 
2.43.0


From 52df1697525dfe32f5ffeba9631d366b548c58b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 27/36] fix: TerminalLayer misses the end of a frame when its
 content ends with ESC

---
 src/protocol.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 207da2e..cfe9ae7 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -261,9 +261,11 @@ void TerminalLayer::decode(void* buffer, size_t len)
 				m_buffer.clear();
 				nonDebugOffset = i + 1;
 			} else {
-				m_decodeState = StateDebug;
 				m_buffer.push_back((char)Esc);
-				m_buffer.push_back(c);
+				if(c != Esc) {
+					m_decodeState = StateDebug;
+					m_buffer.push_back(c);
+				} // else: this may be the ESC of the end marker
 			}
 			break;
 		}
-- 
2.43.0


From 063c7b190118f5338eb40cbedd45ee8cb748612b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 28/36] fix: TerminalLayer misses the start of a frame after an
 ESC

---
 src/protocol.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index cfe9ae7..7a4615d 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -245,8 +245,9 @@ void TerminalLayer::decode(void* buffer, size_t len)
 						i - nonDebugOffset - 1); // Also skip the ESC
 				m_decodeState = StateDebug;
 				nonDebugOffset = len;
-			} else
+			} else if(c != Esc)
 				m_decodeState = StateNormal;
+			// else: this may be the ESC of the start marker
 			break;
 		case StateDebug:
 			if(unlikely(c == Esc))
-- 
2.43.0


From d09c31a0b1f275d99d2a08f64d50adac002a78aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:59 +0000
Subject: [PATCH 29/36] fix: TerminalLayer passes the first half of a start
 marker that is split over two chunks

---
 src/protocol.cpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 7a4615d..9f50f27 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -245,9 +245,18 @@ void TerminalLayer::decode(void* buffer, size_t len)
 						i - nonDebugOffset - 1); // Also skip the ESC
 				m_decodeState = StateDebug;
 				nonDebugOffset = len;
-			} else if(c != Esc)
-				m_decodeState = StateNormal;
-			// else: this may be the ESC of the start marker
+			} else {
+				if(i == 0) {
+					// This is the ESC of the previous call, which appears to be
+					// non-debug data.
+					char esc = Esc;
+					nonDebugDecode(&esc, 1);
+				}
+
+				if(c != Esc)
+					m_decodeState = StateNormal;
+				// else: this may be the ESC of the start marker
+			}
 			break;
 		case StateDebug:
 			if(unlikely(c == Esc))
@@ -272,6 +281,10 @@ void TerminalLayer::decode(void* buffer, size_t len)
 		}
 	}
 
+	if(len && m_decodeState == StateNormalEsc)
+		// Hold back the ESC, as it may be part of the start marker.
+		len--;
+
 	if(nonDebugOffset < len)
 		nonDebugDecode(static_cast<char*>(buffer) + nonDebugOffset, len - nonDebugOffset);
 }
-- 
2.43.0


From a8fc40fb26024358c6a585e3e80be26f17eafc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 30/36] fix: StoreJournal of a store from 64 KiB up to 16 MiB
 has no key codec

---
 src/synchronizer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 57e6691..35a6bef 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -245,6 +245,7 @@ StoreJournal::StoreJournal(
 	case 2:
 		m_keyCodec = &impl::keyCodec2;
 		break;
+	case 3:
 	case 4:
 		m_keyCodec = &impl::keyCodec4;
 		break;
-- 
2.43.0


From ef5a0fab4eb80e1097cfae5dc9727265aab62651 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:16 +0000
Subject: [PATCH 31/36] fix: range check of an object in a Synchronizer update
 wraps around

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 35a6bef..b645847 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -792,7 +792,7 @@ size_t StoreJournal::keySize() const
  */
 void* StoreJournal::keyToBuffer(StoreJournal::Key key, StoreJournal::Size len, bool* ok) const
 {
-	if(ok && len && key + len > bufferSize())
+	if(ok && (key > bufferSize() || len > bufferSize() - key))
 		*ok = false;
 	return static_cast<char*>(m_buffer) + key;
 }
-- 
2.43.0


From bf9c432b6a9fd115dff14bd7ffdfab8b6f1de0e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:56 +0000
Subject: [PATCH 32/36] fix: StoreJournal::clean() with default threshold drops
 recent changes

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index b645847..ea2123e 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -518,7 +518,7 @@ void StoreJournal::iterateChanged(
 void StoreJournal::clean(StoreJournal::Seq oldest)
 {
 	if(oldest == 0)
-		oldest = seq() - SeqCleanThreshold;
+		oldest = seq() > (Seq)SeqCleanThreshold ? seq() - SeqCleanThreshold : 0;
 
 	bool didErase = false;
 	for(size_t i = m_changes.size(); i > 0; i--)
-- 
2.43.0


From 6e73389eec3a805060fa0e1340f1f1e1118f1dbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:56 +0000
Subject: [PATCH 33/36] fix: StoreJournal forgets the oldest change when it
 moves another one, which is reported as recent later on

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index ea2123e..46f04c9 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -315,7 +315,7 @@ StoreJournal::Seq StoreJournal::bumpSeq(bool force)
 			Seq o_seq = toLong(o.seq);
 			if(m_seq - o_seq > safeRange) {
 				update(o.key, o.len, m_seqLower, 0, m_changes.size());
-				seqLower = m_seqLower;
+				seqLower = std::min(seqLower, m_seqLower);
 			} else
 				seqLower = std::min(seqLower, o_seq);
 		}
-- 
2.43.0


From 9892ccd5f330909f24cab806d059629862f42e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:43:53 +0000
Subject: [PATCH 34/36] fix: SyncConnection::reset() did not complete its Bye
 message

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 46f04c9..ef93ba0 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -838,7 +838,7 @@ SyncConnection::~SyncConnection()
 
 void SyncConnection::reset()
 {
-	encodeCmd(Bye);
+	encodeCmd(Bye, true);
 	flush();
 	dropNonSources();
 	base::reset();
-- 
2.43.0


From 2e50ff503af10b35903c91d984fc2a911ba5d737 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:09 +0000
Subject: [PATCH 35/36] fix: SyncConnection looked up the ID of a Bye in the
 wrong list

---
 src/synchronizer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index ef93ba0..a15473a 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1232,14 +1232,16 @@ void SyncConnection::decode(void* buffer, size_t len)
 			if(!id)
 				break;
 
-			IdInMap::iterator it = m_idIn.find(id);
-			if(it == m_idIn.end())
+			// This is the ID we use to send updates to the other party.
+			StoreMap::iterator it = m_store.begin();
+			while(it != m_store.end() && it->second.idOut != id)
+				++it;
+			if(it == m_store.end())
 				break;
 
-			StoreInfo const& si = m_store[it->second];
-			if(si.source && si.idOut)
+			if(it->second.source)
 				// Hey, we need it!
-				helloAgain(*(it->second));
+				helloAgain(*it->first);
 			else
 				eraseOut(id);
 		} else {
-- 
2.43.0


From 19c960d1eac4a93a459b144b457d9bae783623aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:52 +0000
Subject: [PATCH 36/36] fix: CompressLayer kept decoder state of one message
 for the next

---
 src/compress.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress.cpp b/src/compress.cpp
index 162648d..78a0882 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -94,6 +94,9 @@ void CompressLayer::decode(void* buffer, size_t len)
 	while(heatshrink_decoder_finish(&decoder()) == HSDR_FINISH_MORE)
 		decoderPoll();
 
+	// Like the encoder, start with a clean state for the next message.
+	heatshrink_decoder_reset(&decoder());
+
 	base::decode(m_decodeBuffer.data(), m_decodeBufferSize);
 	m_state &= (uint8_t) ~(uint8_t)FlagDecoding;
 }
-- 
2.43.0

