From 32cac53ccd664a8668ef43e1e7ad45be09228125 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:44 +0000
Subject: [PATCH 01/60] fix: DebugArqLayer: accept the next request during a
 partial retransmit

When the client retransmits its request just before it receives the (delayed)
response, and only a part of that retransmit arrives, the target remained in the
retransmit state and ignored all further requests.
---
 src/protocol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index f3d4606..bce873a 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -988,6 +988,7 @@ void DebugArqLayer::decode(void* buffer, size_t len)
 
 	switch(m_decodeState) {
 	case DecodeStateDecoded:
+	case DecodeStateRetransmit:
 		stored_assert(
 			m_encodeState == EncodeStateIdle
 			|| m_encodeState == EncodeStateUnbufferedIdle);
@@ -1001,8 +1002,7 @@ void DebugArqLayer::decode(void* buffer, size_t len)
 			setPurgeableResponse(false);
 			break;
 		}
-		STORED_FALLTHROUGH
-	case DecodeStateRetransmit:
+
 		if(seq == m_decodeSeqStart) {
 			// This seems to be a retransmit of the current command.
 			switch(m_encodeState) {
-- 
2.43.0


From 60acc27258387b7e65a527cbb65291a767239e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:25 +0000
Subject: [PATCH 02/60] fix: drop the partially received message when a
 connection is reset

When a debug client starts over (reset sequence number) while its multi-frame
request was only received partially, the SegmentationLayer above the
DebugArqLayer prepended the stale fragments to the first new request.
---
 include/libstored/protocol.h | 1 +
 src/protocol.cpp             | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/libstored/protocol.h b/include/libstored/protocol.h
index 1a28795..4f20b99 100644
--- a/include/libstored/protocol.h
+++ b/include/libstored/protocol.h
@@ -448,6 +448,7 @@ public:
 	size_t mtu() const final;
 	size_t lowerMtu() const;
 	virtual void reset() override;
+	virtual void connected() override;
 
 private:
 	size_t m_mtu;
diff --git a/src/protocol.cpp b/src/protocol.cpp
index bce873a..f10dee4 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -360,6 +360,13 @@ void SegmentationLayer::reset()
 	base::reset();
 }
 
+void SegmentationLayer::connected()
+{
+	// The remainder of a partially received message will never arrive.
+	m_decode.clear();
+	base::connected();
+}
+
 size_t SegmentationLayer::mtu() const
 {
 	// We segment, so all layers above can use any size they want.
@@ -984,6 +991,8 @@ void DebugArqLayer::decode(void* buffer, size_t len)
 		uint8_t ack = ResetFlag;
 		base::encode(&ack, sizeof(ack), true);
 		m_encodeSeqReset = false;
+		// Layers above should drop what was received of an incomplete request.
+		base::connected();
 	}
 
 	switch(m_decodeState) {
-- 
2.43.0


From b82a287bb92e173fe590bf45443a5bf741addfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 03/60] fix: SyncConnection: complete the Bye message upon
 reset

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 57e6691..c520435 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -837,7 +837,7 @@ SyncConnection::~SyncConnection()
 
 void SyncConnection::reset()
 {
-	encodeCmd(Bye);
+	encodeCmd(Bye, true);
 	flush();
 	dropNonSources();
 	base::reset();
-- 
2.43.0


From ea4c8833dc2e24ac10a93ce329bc048956ac72e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 04/60] fix: SyncConnection: find the store of a Bye by the ID
 of the other party

---
 src/synchronizer.cpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index c520435..977e674 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1231,14 +1231,16 @@ void SyncConnection::decode(void* buffer, size_t len)
 			if(!id)
 				break;
 
-			IdInMap::iterator it = m_idIn.find(id);
-			if(it == m_idIn.end())
+			// This is the ID that we use to send updates to the other party.
+			StoreMap::iterator it = m_store.begin();
+			for(; it != m_store.end() && it->second.idOut != id; ++it)
+				;
+			if(it == m_store.end())
 				break;
 
-			StoreInfo const& si = m_store[it->second];
-			if(si.source && si.idOut)
+			if(it->second.source)
 				// Hey, we need it!
-				helloAgain(*(it->second));
+				helloAgain(*it->first);
 			else
 				eraseOut(id);
 		} else {
-- 
2.43.0


From 871e79b8038537669e0b4853357105a5bf8e2d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 05/60] fix: SyncConnection: do not apply a Welcome in the
 wrong direction

---
 src/synchronizer.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 977e674..9f06d45 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1166,15 +1166,15 @@ void SyncConnection::decode(void* buffer, size_t len)
 			break;
 		}
 
-		seq = j->second->decodeBuffer(buffer, len);
-		if(!seq) {
+		StoreInfo& si = m_store[j->second];
+		if(!si.source) {
+			// Wrong direction.
 			bye(id);
 			break;
 		}
 
-		StoreInfo& si = m_store[j->second];
-		if(!si.source) {
-			// Wrong direction.
+		seq = j->second->decodeBuffer(buffer, len);
+		if(!seq) {
 			bye(id);
 			break;
 		}
-- 
2.43.0


From c9d7b478934e1a65e33ab175affc2d80083f7550 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 06/60] fix: StoreJournal: bounds check without overflow, for
 every length

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 9f06d45..e109b1e 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -791,7 +791,7 @@ size_t StoreJournal::keySize() const
  */
 void* StoreJournal::keyToBuffer(StoreJournal::Key key, StoreJournal::Size len, bool* ok) const
 {
-	if(ok && len && key + len > bufferSize())
+	if(ok && (len > bufferSize() || key > bufferSize() - len))
 		*ok = false;
 	return static_cast<char*>(m_buffer) + key;
 }
-- 
2.43.0


From a24300b4fee5f076a90fe59c135fc950324d2b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 07/60] fix: StoreJournal: support stores of 64 KiB and larger

---
 src/synchronizer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index e109b1e..48f6397 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -245,6 +245,8 @@ StoreJournal::StoreJournal(
 	case 2:
 		m_keyCodec = &impl::keyCodec2;
 		break;
+	case 3:
+		// There is no 3-byte key, use the next larger one.
 	case 4:
 		m_keyCodec = &impl::keyCodec4;
 		break;
-- 
2.43.0


From a5613db2ae1cdcd477345f7b416bc9bfb1bb7df1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 08/60] fix: StoreJournal: do not clean recent changes

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 48f6397..dad0ec0 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -518,7 +518,7 @@ void StoreJournal::iterateChanged(
  */
 void StoreJournal::clean(StoreJournal::Seq oldest)
 {
-	if(oldest == 0)
+	if(oldest == 0 && seq() > SeqCleanThreshold)
 		oldest = seq() - SeqCleanThreshold;
 
 	bool didErase = false;
-- 
2.43.0


From 97e2c3d1cf01044325ae7b22b3a632a28b489136 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:27 +0000
Subject: [PATCH 09/60] fix: StoreJournal: do not forget the tail of an object
 upon a partial write

---
 src/synchronizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index dad0ec0..bc96a09 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -395,7 +395,8 @@ bool StoreJournal::update(
 
 	if(o.key == key) {
 		o.seq = toShort(seq);
-		o.len = (Size)len;
+		// An earlier, longer, change may not have been sent to everyone yet.
+		o.len = std::max(o.len, (Size)len);
 		return true;
 	} else if(key < o.key)
 		return update(key, len, seq, lower, pivot);
-- 
2.43.0


From ab44b16b56406c0706806ef379aea3ee192a568d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:36 +0000
Subject: [PATCH 10/60] fix: StoreJournal: a full copy is a change of exactly
 the objects that differ

---
 include/libstored/synchronizer.h | 40 +++++++++++++++++++++++-
 src/synchronizer.cpp             | 53 ++++++++++++++++++++++++++++----
 2 files changed, 86 insertions(+), 7 deletions(-)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index a55fd96..fb63827 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -107,6 +107,16 @@ public:
 		virtual bool doHookExitRO() noexcept = 0;
 		virtual bool doHookChanged() noexcept = 0;
 		virtual bool doHooks() noexcept = 0;
+
+#	if STORED_cplusplus >= 201103L
+		// breathe does not like function typedefs
+		using ObjectCallback = void(void* buffer, size_t len, void* arg);
+#	else
+		typedef void(ObjectCallback)(void* buffer, size_t len, void* arg);
+#	endif
+
+		// Call the callback for every variable in the store.
+		virtual void objects(ObjectCallback* cb, void* arg) noexcept;
 	};
 
 	StoreJournal(
@@ -160,7 +170,7 @@ public:
 	Seq encodeUpdates(uint8_t*& buf, Seq sinceSeq);
 
 	static char const* decodeHash(void*& buffer, size_t& len);
-	Seq decodeBuffer(void*& buffer, size_t& len);
+	Seq decodeBuffer(void*& buffer, size_t& len, bool recordAll = false);
 	Seq decodeUpdates(void*& buffer, size_t& len, bool recordAll, void* scratch);
 
 	void reserveHeap(size_t storeVariableCount);
@@ -205,6 +215,8 @@ protected:
 	void regenerate();
 	Seq regenerate(size_t lower, size_t upper);
 
+	static void recordChange(void* buffer, size_t len, void* arg);
+
 	void encodeUpdates(uint8_t*& buf, Seq sinceSeq, size_t lower, size_t upper);
 	void encodeUpdate(uint8_t*& buf, ObjectInfo& o);
 
@@ -227,6 +239,7 @@ private:
 	Seq m_seqLower;
 	bool m_partialSeq;
 	StoreCallback* m_callback;
+	StoreCallback* m_objects;
 
 
 	// sorted based on key
@@ -387,7 +400,32 @@ public:
 			return doHookEntryRO() || doHookExitRO() || doHookChanged();
 		}
 
+		void objects(ObjectCallback* cb, void* arg) noexcept override
+		{
+			ObjectsArg objectsArg = {cb, arg};
+			m_store.list(&objectsCb, (void*)&objectsArg, nullptr, nullptr);
+		}
+
 	private:
+		struct ObjectsArg {
+			ObjectCallback* cb;
+			void* arg;
+		};
+
+		static void objectsCb(
+			void* container, char const* name, Type::type type, void* buffer,
+			size_t len, void* arg)
+		{
+			STORED_UNUSED(container)
+			STORED_UNUSED(name)
+			if(Type::isFunction(type))
+				return;
+
+			// Strings have an additional \0.
+			ObjectsArg& a = *static_cast<ObjectsArg*>(arg);
+			a.cb(buffer, type == Type::String ? len + 1U : len, a.arg);
+		}
+
 		// NOLINTNEXTLINE(cppcoreguidelines-avoid-const-or-ref-data-members)
 		Synchronizable& m_store;
 	};
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index bc96a09..341c870 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -228,6 +228,7 @@ StoreJournal::StoreJournal(
 	, m_seqLower()
 	, m_partialSeq()
 	, m_callback(callback && callback->doHooks() ? callback : nullptr)
+	, m_objects(callback)
 {
 	// Size is 32 bit, where size_t might be 64. But I guess that the
 	// store is never >4G in size...
@@ -599,11 +600,33 @@ StoreJournal::Seq StoreJournal::encodeBuffer(ProtocolLayer& p, bool last)
 	return bumpSeq();
 }
 
+namespace {
+struct RecordChangeArg {
+	StoreJournal* journal;
+	char const* newBuffer;
+};
+} // namespace
+
+/*!
+ * \brief Record a change of the given object when a full store's buffer has other contents for it.
+ */
+void StoreJournal::recordChange(void* buffer, size_t len, void* arg)
+{
+	RecordChangeArg const& a = *static_cast<RecordChangeArg*>(arg);
+	// NOLINTNEXTLINE(cppcoreguidelines-pro-type-cstyle-cast)
+	size_t key = (size_t)((uintptr_t)buffer - (uintptr_t)a.journal->buffer());
+	if(memcmp(buffer, a.newBuffer + key, len) != 0)
+		a.journal->changed((Key)key, len);
+}
+
 /*!
  * \brief Decode and process a full store's buffer from #stored::Synchronizer message.
+ * \param buffer the message
+ * \param len the length of \p buffer
+ * \param recordAll when \c true, record all objects that are changed by the buffer
  * \return the seq number of the applied changes
  */
-StoreJournal::Seq StoreJournal::decodeBuffer(void*& buffer, size_t& len)
+StoreJournal::Seq StoreJournal::decodeBuffer(void*& buffer, size_t& len, bool recordAll)
 {
 	if(len < bufferSize())
 		return 0;
@@ -611,6 +634,15 @@ StoreJournal::Seq StoreJournal::decodeBuffer(void*& buffer, size_t& len)
 	// Don't use entryX/exitX, as we don't take exclusive ownership of the
 	// data, we only update our local copy.
 	STORED_MAKE_MEM_DEFINED(this->buffer(), bufferSize());
+
+	recordAll = recordAll && m_objects;
+	if(recordAll) {
+		// Others should get all objects that change here, also the ones that are not in
+		// the journal yet.
+		RecordChangeArg arg = {this, static_cast<char const*>(buffer)};
+		m_objects->objects(&recordChange, &arg);
+	}
+
 	memcpy(this->buffer(), buffer, bufferSize());
 	STORED_MAKE_MEM_NOACCESS(this->buffer(), bufferSize());
 
@@ -618,10 +650,12 @@ StoreJournal::Seq StoreJournal::decodeBuffer(void*& buffer, size_t& len)
 		m_callback->hookChanged();
 
 	len -= bufferSize();
-	m_partialSeq = true;
-	Seq seq_ = this->seq();
-	for(Changes::iterator it = m_changes.begin(); it != m_changes.end(); ++it)
-		it->seq = it->highest = toShort(seq_);
+	if(!recordAll) {
+		m_partialSeq = true;
+		Seq seq_ = this->seq();
+		for(Changes::iterator it = m_changes.begin(); it != m_changes.end(); ++it)
+			it->seq = it->highest = toShort(seq_);
+	}
 	return bumpSeq();
 }
 
@@ -812,6 +846,12 @@ void StoreJournal::reserveHeap(size_t storeVariableCount)
 
 StoreJournal::StoreCallback::~StoreCallback() is_default
 
+void StoreJournal::StoreCallback::objects(ObjectCallback* cb, void* arg) noexcept
+{
+	STORED_UNUSED(cb)
+	STORED_UNUSED(arg)
+}
+
 
 
 /////////////////////////////
@@ -1176,7 +1216,8 @@ void SyncConnection::decode(void* buffer, size_t len)
 			break;
 		}
 
-		seq = j->second->decodeBuffer(buffer, len);
+		seq = j->second->decodeBuffer(
+			buffer, len, synchronizer().isSynchronizing(*j->second, *this));
 		if(!seq) {
 			bye(id);
 			break;
-- 
2.43.0


From 2f727b82654b9fe8b90864c8b139acb5f251dda8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 11/60] fix: debugger memory write of more than 32 bytes writes
 at the wrong address

---
 src/debugger.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 2f2888a..319a454 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -714,7 +714,8 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 			if(!decodeHex(Type::Blob, w, wlen))
 				goto error;
 			memcpy(addr, w, wlen);
-			addr += chunk;
+			// wlen is in bytes, chunk is in hex digits.
+			addr += wlen;
 			p += chunk;
 			len -= chunk;
 		}
-- 
2.43.0


From 0c78fcf65b1859c1d5aed7126164913f5d353f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 12/60] fix: running a debugger macro without commands gives no
 response

---
 src/debugger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 319a454..014fa86 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -930,6 +930,7 @@ bool Debugger::runMacro(char m, ProtocolLayer& response)
 		return false;
 	case 1:
 		// Expect the separator and at least one char to execute.  Nothing to do.
+		response.encode();
 		return true;
 	default:;
 		// Go execute.
-- 
2.43.0


From 38afd8d8475f377923ac45db2e6204c9c72a8374 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:11 +0000
Subject: [PATCH 13/60] fix: listing without prefix uses the prefix of the
 previous listing

---
 src/directory.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/directory.cpp b/src/directory.cpp
index 264c4af..44e1aea 100644
--- a/src/directory.cpp
+++ b/src/directory.cpp
@@ -98,6 +98,8 @@ void list(
 
 	if(prefix)
 		name = prefix;
+	else
+		name.clear();
 
 	list(container, buffer, directory, f, arg, &name);
 }
@@ -123,8 +125,12 @@ void list(
 	void* container, void* buffer, uint8_t const* directory, String::type* nameBuffer,
 	ListCallbackArg* f, void* arg, char const* prefix)
 {
-	if(nameBuffer && prefix)
-		*nameBuffer = prefix;
+	if(nameBuffer) {
+		if(prefix)
+			*nameBuffer = prefix;
+		else
+			nameBuffer->clear();
+	}
 
 	list(container, buffer, directory, f, arg, nameBuffer);
 }
-- 
2.43.0


From b037604be00d355a4b3cc9490834846e87d45c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:12 +0000
Subject: [PATCH 14/60] fix: debugger trace accepts ? as stream

---
 src/debugger.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 014fa86..0c3d716 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -847,8 +847,9 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 		m_traceMacro = p[1];
 		m_traceStream = p[2];
 
-		// Make sure the trace stream exists.
-		if(!stream(m_traceStream, true))
+		// '?' is ambiguous in the 's' command return. Make sure the
+		// trace stream exists.
+		if(m_traceStream == '?' || !stream(m_traceStream, true))
 			// Cannot allocate.
 			goto error;
 
-- 
2.43.0


From efd432b5fe915dc46d42cfd941e9d0cbb6df1c9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:36 +0000
Subject: [PATCH 15/60] fix: debugger stream reports data as written that is
 dropped after a flush

---
 include/libstored/debugger.h | 4 ++++
 src/debugger.cpp             | 2 ++
 2 files changed, 6 insertions(+)

diff --git a/include/libstored/debugger.h b/include/libstored/debugger.h
index c126fae..dd6c156 100644
--- a/include/libstored/debugger.h
+++ b/include/libstored/debugger.h
@@ -243,6 +243,10 @@ public:
 
 	size_t fits(size_t more) const noexcept
 	{
+		// encode() ignores all data till the flushed data has been read.
+		if(blocked())
+			return 0;
+
 		// Use the overflow region only for unexpected compression output.
 		size_t const default_max = Config::DebuggerStreamBuffer;
 		more = std::min(more, default_max);
diff --git a/src/debugger.cpp b/src/debugger.cpp
index 0c3d716..f5379eb 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1234,6 +1234,8 @@ Stream<>* Debugger::stream(char s, bool alloc)
 					// Got one.
 					if(!recycle) {
 						recycle = it2->second;
+						// It may still be blocked by a flush.
+						recycle->clear();
 					} else {
 						// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
 						delete it2->second;
-- 
2.43.0


From d9d72e43b450ef512de5a291ef4ccc999da45ff0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:42 +0000
Subject: [PATCH 16/60] fix: generator: an object and a scope with the same
 name make both unreachable

---
 python/libstored/generator/dsl/types.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index ff64c0b..06ebfec 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -225,10 +225,17 @@ class Directory(object):
             # Choose pivot to compare to
             pivot = int(len(names) / 2)
             if names[pivot] == '/':
-                if pivot > 0:
+                # Neither / nor the end of a name can be compared to.
+                if pivot > 0 and names[pivot - 1] != '\x00':
                     pivot -= 1
-                else:
+                elif pivot + 1 < len(names):
                     pivot += 1
+                else:
+                    # There is an object and a scope with the same name. Compare
+                    # to a character in between (without object) to tell them apart.
+                    h = dict(h)
+                    h['.'] = {}
+                    names.insert(pivot, '.')
             assert(names[pivot] != '/')
             expr = self.generateDict(h[names[pivot]])
 
-- 
2.43.0


From 7e5ffc140661c770092ed79a40d2ac5d16af520e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:20 +0000
Subject: [PATCH 17/60] fix: generator: no C++ name for an object with only
 special characters

---
 python/libstored/generator/dsl/types.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index 06ebfec..ba004f8 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -50,7 +50,7 @@ def cname(s):
     c = re.sub(r'^[^A-Za-z]_*', '_', c)
     c = re.sub(r'_+$', '', c)
 
-    if s == '':
+    if c == '':
         c = 'obj'
 
     if is_reserved_name(c):
@@ -74,7 +74,7 @@ def vhdlname(s):
     c = s
     c = re.sub(r'\\', '\\\\', c)
 
-    if s == '':
+    if c == '':
         c = 'obj'
 
     u = c
-- 
2.43.0


From 7e1355e6460f4abc13a9dff815adf78e1548cbe4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 18/60] fix: variant of a function object does not compile

---
 include/libstored/types.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 775fbe6..105e4b5 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1273,7 +1273,7 @@ public:
 		: m_container(f.valid() ? &f.container() : nullptr)
 		, m_f(f.valid() ? f.id() : 0)
 		, m_len(sizeof(T))
-		, m_type(f.type())
+		, m_type(static_cast<Type::type>(toType<T>::type | Type::FlagFunction))
 #  ifdef _DEBUG
 		, m_entry()
 #  endif
-- 
2.43.0


From de014ae3dbbb14db4412320524359fe839d235c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:13 +0000
Subject: [PATCH 19/60] fix: variant of a blob at the end of the buffer asserts

---
 include/libstored/store.h.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index 7a5c849..1358ffe 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -449,7 +449,7 @@ private:
 	 */
 	Variant<Implementation> _variantv(Type::type type, size_t offset, size_t len) noexcept
 	{
-		stored_assert(offset + len < sizeof(m_data.buffer));
+		stored_assert(offset + len <= sizeof(m_data.buffer));
 		stored_assert(!Type::isFunction(type));
 		return Variant<Implementation>(implementation(), type, &buffer()[offset], len);
 	}
-- 
2.43.0


From cc0cccfd56bf0c9e838fc7e41a8eb7c692723e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:49 +0000
Subject: [PATCH 20/60] fix: 64-bit types may be unknown, depending on the
 includes before

---
 include/libstored/util.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libstored/util.h b/include/libstored/util.h
index 7df7a4e..6824855 100644
--- a/include/libstored/util.h
+++ b/include/libstored/util.h
@@ -191,6 +191,7 @@
 
 #ifdef __cplusplus
 #  include <cassert>
+#  include <climits>
 #  include <cmath>
 #  include <cstring>
 #  include <limits>
-- 
2.43.0


From fff70cb3119f9d6fbb91ae856dd3534f8c2fad0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:51 +0000
Subject: [PATCH 21/60] fix: setting a string by an empty vector asserts

---
 src/util.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util.cpp b/src/util.cpp
index 0ea0867..93ca713 100644
--- a/src/util.cpp
+++ b/src/util.cpp
@@ -41,8 +41,8 @@ int strncmp(
 	char const* __restrict__ str1, size_t len1, char const* __restrict__ str2,
 	size_t len2) noexcept
 {
-	stored_assert(str1);
-	stored_assert(str2);
+	stored_assert(str1 || len1 == 0);
+	stored_assert(str2 || len2 == 0);
 
 	size_t i = 0;
 	for(; i < len1 && i < len2; i++) {
-- 
2.43.0


From 482d18372de6db9d2e58f62b748c12abf6501729 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 22/60] fix: function value is lost when passed by an unaligned
 buffer

---
 include/libstored/types.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 105e4b5..213d164 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -949,11 +949,11 @@ public:
 			type v;
 
 			if(set) {
+				memcpy(&v, buffer, sizeof(v));
 				container().callback(true, &v, sizeof(v), id());
-				memcpy(buffer, &v, sizeof(v));
 			} else {
-				memcpy(&v, buffer, sizeof(v));
 				container().callback(false, &v, sizeof(v), id());
+				memcpy(buffer, &v, sizeof(v));
 			}
 
 			return sizeof(v);
@@ -1465,11 +1465,11 @@ public:
 			uint64_t v = 0;
 
 			if(set) {
+				memcpy(&v, buffer, size_);
 				container().callback(true, &v, size_, (unsigned int)m_f);
-				memcpy(buffer, &v, size_);
 			} else {
-				memcpy(&v, buffer, size_);
 				container().callback(false, &v, size_, (unsigned int)m_f);
+				memcpy(buffer, &v, size_);
 			}
 
 			return size_;
-- 
2.43.0


From 247cdba515bbdad23229dc03923806b3f1c5828c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 23/60] fix: exit hook after reading a string does not match
 the entry hook

---
 include/libstored/types.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 213d164..e3e4a74 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1302,7 +1302,8 @@ public:
 		if(Type::isFunction(type())) {
 			len = callback(false, dst, len);
 		} else {
-			entryRO(len);
+			size_t const entry_len = len;
+			entryRO(entry_len);
 			if(unlikely(type() == Type::String)) {
 				char* dst_ = static_cast<char*>(dst);
 				char const* buffer_ = static_cast<char const*>(m_buffer);
@@ -1316,7 +1317,7 @@ public:
 				else
 					memcpy(dst, m_buffer, len);
 			}
-			exitRO(len);
+			exitRO(entry_len);
 		}
 		return len;
 	}
-- 
2.43.0


From cfec30e328f8f11ef71da21c181b8da2c4a7dcfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:43:07 +0000
Subject: [PATCH 24/60] fix: copying a string variant does not terminate a
 shorter string

---
 include/libstored/types.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index e3e4a74..3baf41e 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1830,6 +1830,10 @@ public:
 		size_t len = size();
 		bool changed = true;
 
+		// The byte after the buffer of the string is reserved for the \0.
+		if(type() == Type::String)
+			len++;
+
 		other.entryRO(len);
 		entryX(len);
 
@@ -1839,9 +1843,13 @@ public:
 						  static_cast<char*>(buffer()),
 						  static_cast<char const*>(other.buffer()), len)
 					  != 0;
-			if(changed)
-				strncpy(static_cast<char*>(buffer()),
-					static_cast<char const*>(other.buffer()), len);
+			if(changed) {
+				char* buffer_ = static_cast<char*>(buffer());
+				size_t len_ = strncpy(
+					buffer_, static_cast<char const*>(other.buffer()),
+					len - 1U);
+				buffer_[len_] = '\0';
+			}
 		} else {
 			if(Config::EnableHooks)
 				changed = memcmp(buffer(), other.buffer(), len) != 0;
-- 
2.43.0


From 6071ab54b21500bb09d19d2cdcbaa4dcdc85a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 25/60] fix: position in a fifo of 128 to 254 elements
 overflows

---
 include/libstored/fifo.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 8394645..a20d794 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -569,9 +569,11 @@ public:
 		pointer rp = m_rp.load(std::memory_order_relaxed);
 		stored_assert(count <= available());
 
-		rp = (pointer)(rp + count);
-		if(wp < rp && rp >= m_buffer.size())
-			rp = (pointer)(rp - m_buffer.size());
+		// Note that the sum may not fit in a pointer.
+		size_t rp_next = (size_t)rp + count;
+		if(wp < rp && rp_next >= m_buffer.size())
+			rp_next -= m_buffer.size();
+		rp = (pointer)rp_next;
 
 		if(!bounded() && wp == rp) {
 			// Reset to the start of the buffer, as it became empty.
@@ -713,9 +715,11 @@ protected:
 
 		if(bounded()) {
 			// Bounded buffer. Do wrap-around.
-			wp_next = (pointer)(wp + count);
-			if(wp_next >= m_buffer.size())
-				wp_next = (pointer)(wp_next - m_buffer.size());
+			// Note that the sum may not fit in a pointer.
+			size_t next = (size_t)wp + count;
+			if(next >= m_buffer.size())
+				next -= m_buffer.size();
+			wp_next = (pointer)next;
 		} else {
 			// Unbounded buffer.
 			stored_assert(!ThreadSafe);
-- 
2.43.0


From 467451c0d6e3efe41f3d0f13c3189baaf141056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:24 +0000
Subject: [PATCH 26/60] fix: moving the data of an unbounded fifo asserts

---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index a20d794..66509a3 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -198,8 +198,8 @@ public:
 	{
 		stored_assert(dst + (pointer)len >= dst);
 		stored_assert(src + (pointer)len >= src);
-		stored_assert((size_t)dst + len < size());
-		stored_assert((size_t)src + len < size());
+		stored_assert((size_t)dst + len <= size());
+		stored_assert((size_t)src + len <= size());
 
 		impl::buffer_move(m_buffer, dst, src, len);
 	}
-- 
2.43.0


From c9fc7702f01b5b4aaa93941b79d2d3cee5b86a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 27/60] fix: space of a message fifo with only a limited number
 of messages

---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 66509a3..a76904a 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -885,10 +885,10 @@ public:
 
 	size_t space() const noexcept
 	{
-		if(!bounded())
-			return std::numeric_limits<size_t>::max();
 		if(m_msg.full())
 			return 0;
+		if(Capacity == 0)
+			return std::numeric_limits<size_t>::max();
 
 		size_t rp = m_rp.load(std::memory_order_relaxed);
 		size_t wp = m_wp.load(std::memory_order_relaxed);
-- 
2.43.0


From 023b7a8ada192ea9caf3fa916c93365c15edfd80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 28/60] fix: empty messages make a message fifo overwrite
 others

---
 include/libstored/fifo.h | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index a76904a..5f6862a 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -895,6 +895,10 @@ public:
 		size_t partial = m_wp_partial - wp;
 		size_t sz = size();
 
+		// When empty, append_back() starts at the beginning of the buffer.
+		if(m_msg.empty())
+			return sz - partial - 1U;
+
 		if(wp < rp)
 			return rp - wp - partial - 1U;
 		else
@@ -996,15 +1000,15 @@ public:
 #    endif
 		}
 
-		if(wp == rp && partial == 0) {
-			// Note: Because of race conditions in a threaded
-			// environment, it might be the case that empty() is
-			// not yet true, as pop_front() first updates rp and
-			// then pops the message.
-
+		// Note: wp == rp does not imply that there are no messages, as there may be
+		// zero-length messages.
+		if(m_msg.empty()) {
 			// When empty, the other side ignores the wp/rp, so we
 			// can safely tinker with it.
-			wp = m_wp_partial = wp_partial = 0;
+			if(wp > 0)
+				m_buffer.move(0, wp, partial);
+			wp = 0;
+			m_wp_partial = wp_partial = (buffer_pointer)partial;
 			rp = 0;
 			m_wp.store(wp, std::memory_order_relaxed);
 			m_rp.store(rp, std::memory_order_relaxed);
-- 
2.43.0


From c72b321f80ac697b63c6e80014b43c6dc83d8667 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 29/60] fix: front of a zero-length message at the end of the
 fifo asserts

---
 include/libstored/fifo.h | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 5f6862a..b75287c 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -114,6 +114,16 @@ public:
 		return true;
 	}
 
+	type const* data() const noexcept
+	{
+		return m_buffer.data();
+	}
+
+	type* data() noexcept
+	{
+		return m_buffer.data();
+	}
+
 	type const& operator[](pointer p) const noexcept
 	{
 		stored_assert((size_t)p < size());
@@ -173,6 +183,16 @@ public:
 		return false;
 	}
 
+	type const* data() const noexcept
+	{
+		return m_buffer.data();
+	}
+
+	type* data() noexcept
+	{
+		return m_buffer.data();
+	}
+
 	type const& operator[](pointer p) const noexcept
 	{
 		stored_assert((size_t)p < size());
@@ -909,13 +929,13 @@ public:
 	const_type front() const noexcept
 	{
 		Msg const& msg = m_msg.front();
-		return const_type{&m_buffer[msg.first], msg.second};
+		return const_type{m_buffer.data() + msg.first, msg.second};
 	}
 
 	type front() noexcept
 	{
 		Msg& msg = m_msg.front();
-		return type{&m_buffer[msg.first], msg.second};
+		return type{m_buffer.data() + msg.first, msg.second};
 	}
 
 	void pop_front() noexcept
-- 
2.43.0


From a3f0cd6e25f8f6e7c7e86d8b243a0bd95994bbd9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 30/60] fix: fifo loopback mixes messages when a part does not
 fit

---
 include/libstored/fifo.h | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index b75287c..38687aa 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1201,12 +1201,20 @@ public:
 	{
 		bool res = false;
 
-		do {
-			if(last)
-				res = m_fifo.push_back((char const*)buffer, len);
-			else
-				res = m_fifo.append_back((char const*)buffer, len);
-		} while(!res && overflow());
+		// When a part has been dropped, drop the remainder of the message as well.
+		if(!m_drop) {
+			do {
+				if(last)
+					res = m_fifo.push_back((char const*)buffer, len);
+				else
+					res = m_fifo.append_back((char const*)buffer, len);
+			} while(!res && overflow());
+
+			if(!res)
+				m_fifo.reset_back();
+		}
+
+		m_drop = !last && (m_drop || !res);
 
 		base::encode(buffer, len, last);
 	}
@@ -1292,6 +1300,7 @@ public:
 
 private:
 	Fifo_type m_fifo;
+	bool m_drop = false;
 	Callable<OverflowCallback>::type m_overflowCallback;
 };
 
-- 
2.43.0


From b85b2b16182f2081819ce22bfee1a206a48546ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:59 +0000
Subject: [PATCH 31/60] fix: fifo loopback never accepts a message of the size
 of its mtu

---
 include/libstored/fifo.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 38687aa..22eeed8 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1265,7 +1265,8 @@ public:
 	virtual size_t mtu() const override
 	{
 		size_t res = base::mtu();
-		return res ? std::min(Capacity, res) : Capacity;
+		// The buffer of the fifo cannot be filled completely.
+		return res ? std::min(m_fifo.capacity(), res) : m_fifo.capacity();
 	}
 
 	constexpr bool bounded() const noexcept
-- 
2.43.0


From 17a9ca6907d79948d4195a9617bb6da1f5a045f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:48 +0000
Subject: [PATCH 32/60] fix: fifo elements are accessed without synchronization
 between threads

---
 include/libstored/fifo.h | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 22eeed8..fc85dda 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -514,7 +514,7 @@ public:
 
 	bool empty() const noexcept
 	{
-		return m_wp.load(std::memory_order_relaxed) == m_rp.load(std::memory_order_relaxed);
+		return m_wp.load(load_order()) == m_rp.load(load_order());
 	}
 
 	bool full() const noexcept
@@ -524,15 +524,15 @@ public:
 
 	size_t available() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(load_order());
+		pointer rp = m_rp.load(load_order());
 		return wp >= rp ? wp - rp : wp + m_buffer.size() - rp;
 	}
 
 	size_t available_chunk() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(load_order());
+		pointer rp = m_rp.load(load_order());
 		return wp >= rp ? wp - rp : m_buffer.size() - rp;
 	}
 
@@ -601,7 +601,7 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(rp, std::memory_order_relaxed);
+			m_rp.store(rp, store_order());
 		}
 	}
 
@@ -702,7 +702,7 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(m_wp.load(std::memory_order_relaxed), std::memory_order_relaxed);
+			m_rp.store(m_wp.load(std::memory_order_relaxed), store_order());
 		}
 	}
 
@@ -712,7 +712,7 @@ public:
 	{
 		pointer rp = m_rp.load(
 			ThreadSafe ? std::memory_order_consume : std::memory_order_relaxed);
-		pointer wp = m_wp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(load_order());
 		return View{m_buffer, rp, wp};
 	}
 
@@ -760,6 +760,18 @@ protected:
 		}
 	}
 
+	// Loading the pointer of the other side gives access to the elements in the buffer.
+	static constexpr std::memory_order load_order() noexcept
+	{
+		return ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed;
+	}
+
+	// Storing the own pointer hands over the elements to the other side.
+	static constexpr std::memory_order store_order() noexcept
+	{
+		return ThreadSafe ? std::memory_order_release : std::memory_order_relaxed;
+	}
+
 private:
 	Buffer_type m_buffer;
 	std::atomic<pointer> m_wp{0};
@@ -941,7 +953,9 @@ public:
 	void pop_front() noexcept
 	{
 		Msg const& msg = m_msg.front();
-		m_rp.store((buffer_pointer)(msg.first + msg.second), std::memory_order_relaxed);
+		m_rp.store(
+			(buffer_pointer)(msg.first + msg.second),
+			ThreadSafe ? std::memory_order_release : std::memory_order_relaxed);
 		m_msg.pop_front();
 	}
 
@@ -1005,7 +1019,8 @@ public:
 		if(!message.size())
 			return true;
 
-		buffer_pointer rp = m_rp.load(std::memory_order_relaxed);
+		buffer_pointer rp = m_rp.load(
+			ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed);
 		buffer_pointer wp = m_wp.load(std::memory_order_relaxed);
 		buffer_pointer wp_partial = m_wp_partial;
 		stored_assert(wp_partial >= wp);
-- 
2.43.0


From c85e910242ae0d6ded107519494e6019759637cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:19 +0000
Subject: [PATCH 33/60] fix: moving the data of an unbounded fifo of multi-byte
 elements loses elements

---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index fc85dda..2d15558 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -37,13 +37,13 @@ struct buffer_ops {
 	static void set(B& buffer, pointer p, typename B::value_type const* x, size_t len) noexcept
 	{
 		if(len)
-			memcpy(&buffer[p], x, len);
+			memcpy(&buffer[p], x, len * sizeof(*x));
 	}
 
 	static void move(B& buffer, pointer dst, pointer src, size_t len) noexcept
 	{
 		if(len)
-			memmove(&buffer[dst], &buffer[src], len);
+			memmove(&buffer[dst], &buffer[src], len * sizeof(typename B::value_type));
 	}
 };
 
-- 
2.43.0


From 7d86f465c7a4457c1526f2a10e914841b7bc7b57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 34/60] fix: typed variable or function by name of a store does
 not compile

---
 include/libstored/store.h.tmpl | 4 ++--
 include/libstored/types.h      | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index 1358ffe..c6da1bb 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -915,7 +915,7 @@ public:
 	Variable<T,Implementation> variable(char const* name,
 		size_t len = std::numeric_limits<size_t>::max()) noexcept
 	{
-		return freeVariable(name, len).apply(*this);
+		return freeVariable<T>(name, len).apply(implementation());
 	}
 
 	/*!
@@ -942,7 +942,7 @@ public:
 	Function<T,Implementation>
 	function(char const* name, size_t len = std::numeric_limits<size_t>::max()) noexcept
 	{
-		return freeFunction(name, len).apply(*this);
+		return freeFunction<T>(name, len).apply(implementation());
 	}
 
 	/*!
diff --git a/include/libstored/types.h b/include/libstored/types.h
index 3baf41e..5d4ece8 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1975,7 +1975,7 @@ public:
 	 * \brief Get the typed function corresponding to this variant.
 	 */
 	template <typename T, typename Container>
-	Variable<T, Container> function(Container& container) const noexcept
+	Function<T, Container> function(Container& container) const noexcept
 	{
 		return apply<Container>(container).template function<T>();
 	}
-- 
2.43.0


From c4eeff5c52208474c677b4c04c4d901d2a51d92d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:33 +0000
Subject: [PATCH 35/60] fix: free function in a store with 255 or more
 functions

---
 include/libstored/types.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 5d4ece8..c055a3a 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1118,8 +1118,9 @@ public:
 #  ifdef DOXYGEN
 	typedef unsigned int f_type;
 #  else
-	typedef typename value_type<static_cast<uintmax_t>(
-		Container::FunctionCount > 0 ? Container::FunctionCount - 1 : 0)>::type f_type;
+	// The IDs are 1..FunctionCount, and the maximum value of the type is not used.
+	typedef typename value_type<static_cast<uintmax_t>(Container::FunctionCount) + 1U>::type
+		f_type;
 #  endif
 
 	/*! \brief Constructor for an invalid variable. */
-- 
2.43.0


From 029be6daf61328c20df236350237138ecd99db9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 36/60] fix: rollback to a snapshot of a full scratch pad chunk
 asserts

---
 include/libstored/spm.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 98ef872..922f34b 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -279,7 +279,8 @@ private:
 		char* snapshot_ = static_cast<char*>(snapshot);
 
 		// Find correct buffer.
-		while(!(snapshot_ >= m_buffer && snapshot_ < &m_buffer[bufferSize()])) {
+		// Note that the snapshot is at the end of the buffer, when it was full.
+		while(!(snapshot_ >= m_buffer && snapshot_ <= &m_buffer[bufferSize()])) {
 			m_size = 0; // Don't care, will be recovered later on.
 			bufferPop();
 			stored_assert(m_buffer);
@@ -289,7 +290,7 @@ private:
 		stored_assert(size <= m_total);
 		m_total = size;
 		size_t size_ = (size_t)(snapshot_ - m_buffer);
-		stored_assert(size_ < bufferSize());
+		stored_assert(size_ <= bufferSize());
 		m_size = (size_type)size_;
 
 		STORED_MAKE_MEM_NOACCESS(&m_buffer[m_size], bufferSize() - m_size);
-- 
2.43.0


From 6cf902070f76bb1262732629cd57ae08501df2ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 37/60] fix: rollback to a snapshot of an unused scratch pad
 chunk asserts

---
 include/libstored/spm.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 922f34b..8aa4469 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -463,8 +463,9 @@ public:
 		if(likely(new_cap <= bufferSize()))
 			return;
 
-		if(m_buffer && m_size == 0) {
+		if(m_buffer && empty()) {
 			// Grow (realloc) is fine, as nobody is using the current buffer (if any).
+			// If not empty, a snapshot may refer to the (still unused) current buffer.
 			bufferGrow(new_cap);
 		} else {
 			// Grow (realloc) may move the buffer. So don't do that.
-- 
2.43.0


From 1e625d3f36182ab2d7331e30f0266bf4a45a2c21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:26 +0000
Subject: [PATCH 38/60] fix: scratch pad hands out overlapping memory beyond
 its maximum size

---
 include/libstored/spm.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 8aa4469..c214120 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -354,8 +354,7 @@ private:
 			// will set it properly. Set it at worst-case now, such that the assert
 			// above may trigger.
 			size_t b = bufferSize();
-			stored_assert(b <= maxSize);
-			m_size = (size_type)b;
+			m_size = (size_type)std::min<size_t>(b, maxSize);
 		}
 	}
 
@@ -517,21 +516,22 @@ public:
 	__attribute__((malloc, returns_nonnull, warn_unused_result)) T*
 	alloc(size_t count = 1, size_t align = sizeof(T))
 	{
-		size_t alloc_size = count * sizeof(T);
-		if(unlikely(alloc_size == 0)) {
+		if(unlikely(count == 0)) {
 			if(unlikely(!m_buffer))
 				reserve(spare);
 			// NOLINTNEXTLINE(cppcoreguidelines-pro-type-reinterpret-cast)
 			return reinterpret_cast<T*>(m_buffer);
 		}
 
+		size_t alloc_size = count * sizeof(T);
 		align = std::max<size_t>(1, std::min(sizeof(void*), align));
 		size_t padding = align - m_size % align;
 		if(padding == align)
 			padding = 0;
 
-		if(unlikely(m_total + alloc_size + padding < m_total)) {
-			// Wrap around -> overflow.
+		if(unlikely(count > maxSize / sizeof(T)
+			    || alloc_size + padding > (size_t)maxSize - (size_t)m_total)) {
+			// Does not fit in the counters -> overflow.
 #	ifdef STORED_cpp_exceptions
 			throw std::bad_alloc();
 #	else
-- 
2.43.0


From 6c2e57d04d0879dfba1225f603114efe16e21d09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 39/60] fix: casting through a pipe returns a dangling
 reference

The casted value of a segment may be a temporary, and the cast of the next
segment may return a reference to it.
---
 include/libstored/pipes.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 23d384a..ba4bdcd 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -561,14 +561,14 @@ public:
 
 	static constexpr bool has_extract = Init::has_extract || Last::has_extract;
 
-	decltype(auto) exit_cast(type_in x) const
+	auto exit_cast(type_in x) const
 	{
 		return Last::exit_cast(Init::exit_cast(x));
 	}
 
 	static constexpr bool has_exit_cast = Init::has_exit_cast || Last::has_exit_cast;
 
-	decltype(auto) entry_cast(type_out x) const
+	auto entry_cast(type_out x) const
 	{
 		return Init::entry_cast(Last::entry_cast(x));
 	}
-- 
2.43.0


From 01b6d19dd6c511e4e57d157666dce3702d487aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 40/60] fix: moving an exit value of a pipe does not move the
 value it holds

---
 include/libstored/pipes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index ba4bdcd..9a9e004 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -787,7 +787,7 @@ public:
 	ExitValue(ExitValue&& v) noexcept
 		: m_p{v.m_p}
 	{
-		if(m_p)
+		if(!m_p)
 			new(m_v.data()) type{std::move(v.value())};
 	}
 
-- 
2.43.0


From 1656b1fdc6ad3aa4fa484f9079975ac36a29d191 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:24 +0000
Subject: [PATCH 41/60] fix: comparing a value with an exit value of a pipe
 swaps the operands

---
 include/libstored/pipes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 9a9e004..6f3901a 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -827,7 +827,7 @@ public:
 		}                                                                \
 		friend bool operator op(type const& x, ExitValue<type> const& v) \
 		{                                                                \
-			return v.get() op x;                                     \
+			return x op v.get();                                     \
 		}
 
 	EXITVALUE_COMPARE_OP(==)
-- 
2.43.0


From 9c4889edf638fe29980d26e70fc00aa593f16fc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:39 +0000
Subject: [PATCH 42/60] fix: saturated cast of large floating point values does
 not saturate

---
 include/libstored/util.h | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/include/libstored/util.h b/include/libstored/util.h
index 6824855..2703dee 100644
--- a/include/libstored/util.h
+++ b/include/libstored/util.h
@@ -689,17 +689,33 @@ struct saturated_cast_helper {
 		return static_cast<R>(value);
 	}
 
+	// Beyond the range of long long, the result of llround() is unspecified.
+	template <typename T>
+	__attribute__((pure)) static R round_(T value, long long (*llround_)(T)) noexcept
+	{
+		T const limit = -static_cast<T>(std::numeric_limits<long long>::min());
+
+		if(value >= limit)
+			return value >= 2 * limit
+				       ? cast(std::numeric_limits<unsigned long long>::max())
+				       : cast(static_cast<unsigned long long>(value));
+		if(!(value >= -limit))
+			return cast(std::numeric_limits<long long>::min());
+
+		return cast(llround_(value));
+	}
+
 	__attribute__((pure)) static R cast(float value) noexcept
 	{
-		return cast(llroundf(value));
+		return round_(value, llroundf);
 	}
 	__attribute__((pure)) static R cast(double value) noexcept
 	{
-		return cast(llround(value));
+		return round_(value, llround);
 	}
 	__attribute__((pure)) static R cast(long double value) noexcept
 	{
-		return cast(llroundl(value));
+		return round_(value, llroundl);
 	}
 	__attribute__((pure)) static R cast(bool value) noexcept
 	{
-- 
2.43.0


From 6d5f8baf71211b343074382d6b0c4e18bc312692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 43/60] fix: poller leaves returned events of an earlier poll
 in pollables without events

---
 src/poller.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/poller.cpp b/src/poller.cpp
index 46aee9e..d69bd01 100644
--- a/src/poller.cpp
+++ b/src/poller.cpp
@@ -375,11 +375,11 @@ int ZmqPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 		// Error.
 		return errno;
 
-	for(size_t i = 0; res > 0 && i < items.size(); i++) {
+	for(size_t i = 0; i < items.size(); i++) {
 		zmq_pollitem_t& item = items[i];
 		Pollable::Events revents = 0;
 
-		if(item.revents) {
+		if(res > 0 && item.revents) {
 			res--;
 
 			try {
@@ -448,11 +448,11 @@ int PollPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 		// Error.
 		return errno;
 
-	for(size_t i = 0; res > 0 && i < items.size(); i++) {
+	for(size_t i = 0; i < items.size(); i++) {
 		struct pollfd& item = items[i];
 		Pollable::Events revents = 0;
 
-		if(item.revents) {
+		if(res > 0 && item.revents) {
 			res--;
 
 			try {
@@ -548,6 +548,7 @@ int LoopPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 				event(revents, i);
 				break;
 			case EAGAIN:
+				event(0, i);
 				break;
 			default:
 				if(!res)
-- 
2.43.0


From 4660df39519b7908852e9dfa9b720393d9207c5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 44/60] fix: modifying events of a poller by resource keeps the
 old pollable

---
 include/libstored/poller.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 7a5c528..89269d9 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1251,9 +1251,9 @@ private:
 
 		T* p = static_cast<T*>(*it);
 		stored_assert(p);
-		void* user_data = p->user_data;
 		remove(*p);
-		return add<T, A>(a, user_data, events);
+		p->events = events;
+		return add(*p);
 	}
 
 	template <typename T, typename A, typename C>
-- 
2.43.0


From e8eeb09dd9092ae697f66d15aae77ccfc76722d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:45 +0000
Subject: [PATCH 45/60] fix: poller does not find ZeroMQ sockets to modify or
 remove

---
 include/libstored/poller.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 89269d9..843730a 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1170,7 +1170,7 @@ public:
 		bool operator()(PollableZmqSocket const& p, void* socket) const
 		{
 			// NOLINTNEXTLINE(bugprone-multi-level-implicit-pointer-conversion)
-			return p.socket == (void*)&socket;
+			return p.socket == socket;
 		}
 	};
 
-- 
2.43.0


From 7f839e55234d689a080f86c1e0c09894447cc5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:54 +0000
Subject: [PATCH 46/60] fix: compression layer only decodes its first message

---
 src/compress.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/compress.cpp b/src/compress.cpp
index 162648d..098e34b 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -94,6 +94,9 @@ void CompressLayer::decode(void* buffer, size_t len)
 	while(heatshrink_decoder_finish(&decoder()) == HSDR_FINISH_MORE)
 		decoderPoll();
 
+	// The encoder restarts for every message, drop the padding and history.
+	heatshrink_decoder_reset(&decoder());
+
 	base::decode(m_decodeBuffer.data(), m_decodeBufferSize);
 	m_state &= (uint8_t) ~(uint8_t)FlagDecoding;
 }
-- 
2.43.0


From 00ca6d63fce9ff33328f119c146f730b9e29b30c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 47/60] fix: let a timeout of -1 block indefinitely in file and
 ZeroMQ layers

The timeout in us was divided to ms, which makes -1 a timeout of 0 ms. As a
result, encode() to a pipe that is full closed the layer with EINVAL, and lost
data, just like recv(-1) did when there was no data. ZmqLayer::recv(-1)
returned immediately. Sending over a ZeroMQ socket without peer does still not
block.
---
 src/protocol.cpp |  4 +++-
 src/zmq.cpp      | 10 ++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index f10dee4..2473212 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1788,7 +1788,9 @@ int PolledFileLayer::block(
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		// Mind that -1 us (block indefinitely) is not to be rounded to 0 ms.
+		Poller::Result const& pres =
+			poller.poll(timeout_us < 0 ? -1 : (int)(timeout_us / 1000L));
 
 		if(pres.empty()) {
 			if(timeout_us <= 0 && errno == EINTR)
diff --git a/src/zmq.cpp b/src/zmq.cpp
index 1de8a22..74ae011 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -134,9 +134,15 @@ int ZmqLayer::block(bool forReading, long timeout_us, bool suspend)
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		// Mind that -1 us (block indefinitely) is not to be rounded to 0 ms.
+		Poller::Result const& pres =
+			poller.poll(timeout_us < 0 ? -1 : (int)(timeout_us / 1000L));
 
 		if(pres.empty()) {
+			if(timeout_us < 0 && errno == EINTR)
+				// Interrupted. Retry.
+				continue;
+
 			err = errno;
 			if(!err) {
 				// Should not happen.
@@ -290,7 +296,7 @@ void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 		setLastError(0);
 	} else if(setLastError(errno) != EAGAIN) { // NOLINT(bugprone-branch-clone)
 						   // Some other error occurred.
-	} else if(block(false)) {
+	} else if(block(false, 0)) {
 		// Socket is not writable, and blocking failed.
 	} else {
 		// Socket should be writable now. This is a blocking call,
-- 
2.43.0


From 04351d267e1bcc1d04b65cea11ccdea79aec07e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:54 +0000
Subject: [PATCH 48/60] fix: report the result of the second send attempt of
 ZmqLayer properly

The error and success paths were swapped.
---
 src/zmq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index 74ae011..bb1abde 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -302,7 +302,7 @@ void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 		// Socket should be writable now. This is a blocking call,
 		// but it should not block anymore.
 		// NOLINTNEXTLINE(cppcoreguidelines-pro-type-cstyle-cast)
-		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) != -1)
+		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) == -1)
 			// Some error.
 			setLastError(errno);
 		else
-- 
2.43.0


From 88a9753f7d8d449f575de99921a68702ad2fabf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 49/60] fix: apply PID parameters at the first run when there
 is a reset object

---
 include/libstored/components.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index e5d6e0c..5503e25 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -2640,10 +2640,11 @@ protected:
 					doReset = true;
 					reset_o = false;
 				}
-			} else if(unlikely(std::isnan(m_y_prev))) {
-				doReset = true;
 			}
 
+			if(unlikely(std::isnan(m_y_prev)))
+				doReset = true;
+
 			type sp = setpoint();
 			type e = sp - y;
 
-- 
2.43.0


From ec277289b14c9804d0db3e9da942b46dfe87e792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 50/60] fix: PID with negative Ki is healthy when epsilon is
 omitted

---
 include/libstored/components.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 5503e25..a55013d 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -2618,7 +2618,7 @@ public:
 
 		// If the result is true, the integrator is not too
 		// large, such that smallest error can still reduce it.
-		return i - e * k < i;
+		return i - e * std::fabs(k) < i;
 	}
 
 protected:
-- 
2.43.0


From 94f7f511028ae9a8d0487c8b32d07e585fecdca6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 51/60] fix: pulse wave with a negative phase

---
 include/libstored/components.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index a55013d..836dc3a 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -3338,6 +3338,9 @@ public:
 								  * period,
 						period);
 
+				if(t < 0)
+					t += period;
+
 				if(t < pulse)
 					output = amplitude();
 				else
-- 
2.43.0


From 1560a48d5bc4a7d67988d24cec7af976c58eb0b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 52/60] fix: ramp stop distance after a reset or when disabled
 while moving

---
 include/libstored/components.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 836dc3a..2aa6eb4 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4114,7 +4114,7 @@ protected:
 				m_v_max_ =
 					a > 0 ? std::max<type_>(1, (type_)std::lround(sl / a)) : 0;
 				m_x_ = 0;
-				m_x_stop_ = m_v_ * std::abs(m_v_) / 2;
+				m_x_stop_ = m_v_ * (std::abs(m_v_) - 1) / 2;
 				m_start = m_x;
 			}
 
@@ -4124,7 +4124,7 @@ protected:
 				m_start = output = input;
 				m_v_ = (type_)std::lround((output - m_x) / m_adt);
 				m_x_ = 0;
-				m_x_stop_ = m_v_ * std::abs(m_v_) / 2;
+				m_x_stop_ = m_v_ * (std::abs(m_v_) - 1) / 2;
 			} else {
 				auto err = input - m_x;
 
-- 
2.43.0


From 25f29d37afb6abde1ca22414d71ace6cdf75cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 53/60] fix: preserve the speed of a ramp when its parameters
 are reset

---
 include/libstored/components.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 2aa6eb4..3c128a6 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4110,7 +4110,7 @@ protected:
 				}
 
 				m_adt = a * dt;
-				m_v_ = a > 0 ? (type_)std::lround(v / a) : 0;
+				m_v_ = m_adt > 0 ? (type_)std::lround(v / m_adt) : 0;
 				m_v_max_ =
 					a > 0 ? std::max<type_>(1, (type_)std::lround(sl / a)) : 0;
 				m_x_ = 0;
-- 
2.43.0


From 5e5fc089d339e506994d86fa16f16eb3700a0eba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 54/60] fix: slow down a ramp when its speed limit is lowered

---
 include/libstored/components.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 3c128a6..805f479 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4143,6 +4143,9 @@ protected:
 							x_stop_ += v_++;
 						else
 							x_stop_ -= ++v_;
+					} else if(v_ > m_v_max_) {
+						// The limit was lowered.
+						x_stop_ -= --v_;
 					}
 
 					if(m_v_ > 0 && err < (type)(x_stop_ + v_ + 1) * m_adt) {
@@ -4165,6 +4168,9 @@ protected:
 							x_stop_ += v_--;
 						else
 							x_stop_ -= --v_;
+					} else if(v_ < -m_v_max_) {
+						// The limit was lowered.
+						x_stop_ -= ++v_;
 					}
 
 					if(m_v_ < 0 && err > (type)(x_stop_ + v_ - 1) * m_adt) {
-- 
2.43.0


From 9dda2659550b951d2f34e0da19bf0447aa33814b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 55/60] fix: ramp with only an acceleration limit

---
 include/libstored/components.h | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 805f479..9856f4b 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4104,15 +4104,21 @@ protected:
 				if(a == std::numeric_limits<type>::infinity()) {
 					// No speed and acceleration limit. Disable ramping.
 					a = 0;
-				} else if(a > 0) {
+				} else if(a > 0 && !std::isinf(sl)) {
 					auto v_steps = std::lround(sl / a);
 					a = sl / (type)v_steps;
 				}
 
 				m_adt = a * dt;
 				m_v_ = m_adt > 0 ? (type_)std::lround(v / m_adt) : 0;
-				m_v_max_ =
-					a > 0 ? std::max<type_>(1, (type_)std::lround(sl / a)) : 0;
+				if(!(a > 0))
+					m_v_max_ = 0;
+				else if(std::isinf(sl))
+					// The stop distance must still fit.
+					m_v_max_ = (type_)std::sqrt(
+						(type)std::numeric_limits<type_>::max());
+				else
+					m_v_max_ = std::max<type_>(1, (type_)std::lround(sl / a));
 				m_x_ = 0;
 				m_x_stop_ = m_v_ * (std::abs(m_v_) - 1) / 2;
 				m_start = m_x;
-- 
2.43.0


From 90718329d4929db7297225116045e7afe2e682a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:03 +0000
Subject: [PATCH 56/60] fix: ramp without limits is healthy

---
 include/libstored/components.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 9856f4b..4c3df46 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4048,6 +4048,9 @@ public:
 		if(!(accelerationLimit() > 0))
 			// No limit set.
 			return true;
+		if(std::isinf(accelerationLimit()) && std::isinf(speedLimit()))
+			// Not limited.
+			return true;
 
 		if(!(m_adt > 0))
 			// That's not good. Numbers are probably already to far apart.
-- 
2.43.0


From cb31038b64b0db2e7869dad86efaef30f77b5677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 57/60] fix: MTU of the Python TerminalLayer raises a NameError

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index c6a04df..3900902 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -219,7 +219,7 @@ class TerminalLayer(ProtocolLayer):
         m = super().mtu
         if m == 0:
             return 0
-        return max(1, m - len(start) - len(end))
+        return max(1, m - len(self.start) - len(self.end))
 
 class PubTerminalLayer(TerminalLayer):
     """
-- 
2.43.0


From 3f4d05bad7a5c39c3dcc4e7b223baac4bc14ab30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 58/60] fix: Python SegmentationLayer drops empty messages when
 there is an MTU

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index 3900902..0aa8335 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -270,7 +270,7 @@ class SegmentationLayer(ProtocolLayer):
         mtu = self._mtu
         if self._mtu == None:
             mtu = super().mtu
-        if mtu == 0:
+        if mtu == 0 or len(data) == 0:
             super().encode(data + self.end)
         else:
             mtu = max(1, mtu - 1)
-- 
2.43.0


From 952c70dc8852b9a68f26753003f81fa158af04b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 59/60] fix: Python Crc16Layer exceeds the MTU by one byte

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index 0aa8335..8556f13 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -507,7 +507,7 @@ class Crc16Layer(ProtocolLayer):
         m = super().mtu
         if m == 0:
             return 256
-        return min(256, max(1, m - 1))
+        return min(256, max(1, m - 2))
 
 class ProtocolStack(ProtocolLayer):
     name = 'stack'
-- 
2.43.0


From c336f7f202de2ae23522f0995549850d187da36d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:35 +0000
Subject: [PATCH 60/60] fix: Python DebugArqLayer never recovers when the first
 request is lost

---
 python/libstored/protocol.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index 8556f13..6d14f36 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -308,6 +308,17 @@ class DebugArqLayer(ProtocolLayer):
         if len(data) == 0:
             return
 
+        if data[0] == self.reset_flag:
+            # The reset is acknowledged. This is not (a part of) the response.
+            if self._syncing:
+                self._syncing = False
+                self._decode_seq = self.nextSeq(0)
+                self._decode_seq_start = self._decode_seq
+                for r in self._request:
+                    super().encode(r)
+                self.activity()
+            return
+
         (seq, msg) = self.decode_seq(data)
         if data[0] & self.reset_flag:
             self._decode_seq = seq
@@ -326,12 +337,6 @@ class DebugArqLayer(ProtocolLayer):
         else:
             self.logger.debug(f'unexpected seq {seq} instead of {self._decode_seq}; dropped')
 
-        if self._syncing and data[0] == self.reset_flag:
-            self._syncing = False
-            for r in self._request:
-                super().encode(r)
-            self.activity()
-
     def decode_seq(self, data):
         seq = 0
         if len(data) == 0:
-- 
2.43.0

