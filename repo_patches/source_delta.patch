From ec7116b7f9eb7dcfb110025568482a3421c6ce09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 001/102] fix: lookup by type, variant of a function, and key
 of a variant did not compile

---
 include/libstored/store.h.tmpl | 4 ++--
 include/libstored/types.h      | 5 +++--
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index 7a5c849..fb08375 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -915,7 +915,7 @@ public:
 	Variable<T,Implementation> variable(char const* name,
 		size_t len = std::numeric_limits<size_t>::max()) noexcept
 	{
-		return freeVariable(name, len).apply(*this);
+		return freeVariable<T>(name, len).apply(implementation());
 	}
 
 	/*!
@@ -942,7 +942,7 @@ public:
 	Function<T,Implementation>
 	function(char const* name, size_t len = std::numeric_limits<size_t>::max()) noexcept
 	{
-		return freeFunction(name, len).apply(*this);
+		return freeFunction<T>(name, len).apply(implementation());
 	}
 
 	/*!
diff --git a/include/libstored/types.h b/include/libstored/types.h
index 775fbe6..f2798fa 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1273,7 +1273,8 @@ public:
 		: m_container(f.valid() ? &f.container() : nullptr)
 		, m_f(f.valid() ? f.id() : 0)
 		, m_len(sizeof(T))
-		, m_type(f.type())
+		, m_type((uint8_t)((unsigned int)toType<T>::type
+			   | (unsigned int)Type::FlagFunction))
 #  ifdef _DEBUG
 		, m_entry()
 #  endif
@@ -1777,7 +1778,7 @@ public:
 	typename Container::Key key() const noexcept
 	{
 		stored_assert(isVariable());
-		return container()->bufferToKey(m_buffer);
+		return container().bufferToKey(m_buffer);
 	}
 
 	/*!
-- 
2.43.0


From 8271cac57068d07abacfa35c41ab6d147cd0bb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:01:46 +0000
Subject: [PATCH 002/102] fix: unaligned function call passed the value in the
 wrong direction

---
 include/libstored/types.h | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index f2798fa..56df56d 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -948,13 +948,10 @@ public:
 			stored_assert(len >= sizeof(type));
 			type v;
 
-			if(set) {
-				container().callback(true, &v, sizeof(v), id());
+			memcpy(&v, buffer, sizeof(v));
+			container().callback(set, &v, sizeof(v), id());
+			if(!set)
 				memcpy(buffer, &v, sizeof(v));
-			} else {
-				memcpy(&v, buffer, sizeof(v));
-				container().callback(false, &v, sizeof(v), id());
-			}
 
 			return sizeof(v);
 		} else
@@ -1465,13 +1462,10 @@ public:
 			stored_assert(size_ <= sizeof(uint64_t) && len >= size_);
 			uint64_t v = 0;
 
-			if(set) {
-				container().callback(true, &v, size_, (unsigned int)m_f);
+			memcpy(&v, buffer, size_);
+			container().callback(set, &v, size_, (unsigned int)m_f);
+			if(!set)
 				memcpy(buffer, &v, size_);
-			} else {
-				memcpy(&v, buffer, size_);
-				container().callback(false, &v, size_, (unsigned int)m_f);
-			}
 
 			return size_;
 		} else
-- 
2.43.0


From a6aee8412afee555224e008c78abaeaad696262e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:05 +0000
Subject: [PATCH 003/102] fix: free function truncated the function identifier

---
 include/libstored/types.h | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 56df56d..85c1f1b 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1111,13 +1111,13 @@ public:
 	typedef Function<type, Container> Function_type;
 	/*! \brief The full (bound) Function type. */
 	typedef Function_type Bound_type;
-	/*! \brief A type that is able to store the store's buffer offset. */
-#  ifdef DOXYGEN
+	/*!
+	 * \brief A type that is able to store the function identifier.
+	 *
+	 * Identifiers are unique over all stores that are generated together, so they are not
+	 * bounded by the number of functions of this \c Container.
+	 */
 	typedef unsigned int f_type;
-#  else
-	typedef typename value_type<static_cast<uintmax_t>(
-		Container::FunctionCount > 0 ? Container::FunctionCount - 1 : 0)>::type f_type;
-#  endif
 
 	/*! \brief Constructor for an invalid variable. */
 	constexpr FreeFunction() noexcept
@@ -1130,13 +1130,8 @@ protected:
 	 * \details This can only be called by #stored::Variant<void>::variable().
 	 */
 	constexpr explicit FreeFunction(unsigned int f) noexcept
-		: m_f(static_cast<f_type>(f))
-	{
-#  if STORED_cplusplus < 201103L || STORED_cplusplus >= 201402L
-		// For C++11, the body must be empty.
-		stored_assert(f < std::numeric_limits<f_type>::max());
-#  endif
-	}
+		: m_f(f)
+	{}
 
 	friend class Variant<void>;
 
-- 
2.43.0


From fe8d0f895b4f0cefa3216d9247b43fa041224f55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:05 +0000
Subject: [PATCH 004/102] fix: copy of a string variant kept the tail of a
 longer destination

---
 include/libstored/types.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 85c1f1b..4024841 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1828,9 +1828,13 @@ public:
 						  static_cast<char*>(buffer()),
 						  static_cast<char const*>(other.buffer()), len)
 					  != 0;
-			if(changed)
-				strncpy(static_cast<char*>(buffer()),
-					static_cast<char const*>(other.buffer()), len);
+			if(changed) {
+				char* dst = static_cast<char*>(buffer());
+				size_t dst_len =
+					strncpy(dst, static_cast<char const*>(other.buffer()), len);
+				if(dst_len < len)
+					dst[dst_len] = '\0';
+			}
 		} else {
 			if(Config::EnableHooks)
 				changed = memcmp(buffer(), other.buffer(), len) != 0;
-- 
2.43.0


From 7cb202844ca0a3d8ffc65e0dbb9fc7acebadf8ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:05 +0000
Subject: [PATCH 005/102] fix: accessor of a blob at the end of the store's
 buffer asserted

---
 include/libstored/store.h.tmpl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index fb08375..c6da1bb 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -449,7 +449,7 @@ private:
 	 */
 	Variant<Implementation> _variantv(Type::type type, size_t offset, size_t len) noexcept
 	{
-		stored_assert(offset + len < sizeof(m_data.buffer));
+		stored_assert(offset + len <= sizeof(m_data.buffer));
 		stored_assert(!Type::isFunction(type));
 		return Variant<Implementation>(implementation(), type, &buffer()[offset], len);
 	}
-- 
2.43.0


From 98fa8f59c4689145c603e861374c7ed5651d50f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 006/102] fix: list without prefix used the prefix of the
 previous list

---
 src/directory.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/directory.cpp b/src/directory.cpp
index 264c4af..2fb37c6 100644
--- a/src/directory.cpp
+++ b/src/directory.cpp
@@ -96,8 +96,8 @@ void list(
 			(prefix ? strlen(prefix) * 2U : 0U)
 			+ 128U); // Some arbitrary buffer, which should usually be sufficient.
 
-	if(prefix)
-		name = prefix;
+	// Drop the prefix of a previous call.
+	name = prefix ? prefix : "";
 
 	list(container, buffer, directory, f, arg, &name);
 }
-- 
2.43.0


From 9416b34f3bab1e5000a7dfb42dd45086649db07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:31 +0000
Subject: [PATCH 007/102] fix: full string was not terminated when read into a
 sufficiently large buffer

---
 include/libstored/types.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libstored/types.h b/include/libstored/types.h
index 4024841..54fa3a6 100644
--- a/include/libstored/types.h
+++ b/include/libstored/types.h
@@ -1285,6 +1285,8 @@ public:
 	 */
 	size_t get(void* dst, size_t len = 0) const
 	{
+		size_t const dst_len = len;
+
 		if(Type::isFixed(type())) {
 			stored_assert(len == size() || len == 0);
 			len = size();
@@ -1300,7 +1302,7 @@ public:
 				char* dst_ = static_cast<char*>(dst);
 				char const* buffer_ = static_cast<char const*>(m_buffer);
 				size_t len_ = strncpy(dst_, buffer_, len);
-				if(len > len_)
+				if(dst_len > len_)
 					dst_[len_] = '\0';
 				len = len_;
 			} else {
-- 
2.43.0


From b187bf48b587ff8422bf54bf7d1086cb4c9fd6df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:06 +0000
Subject: [PATCH 008/102] fix: saturated_cast of a large floating point value
 did not saturate

---
 include/libstored/util.h | 34 +++++++++++++++++++++++++++++++---
 1 file changed, 31 insertions(+), 3 deletions(-)

diff --git a/include/libstored/util.h b/include/libstored/util.h
index 7df7a4e..15f5439 100644
--- a/include/libstored/util.h
+++ b/include/libstored/util.h
@@ -690,15 +690,18 @@ struct saturated_cast_helper {
 
 	__attribute__((pure)) static R cast(float value) noexcept
 	{
-		return cast(llroundf(value));
+		R res = R();
+		return saturate(value, res) ? res : cast(llroundf(value));
 	}
 	__attribute__((pure)) static R cast(double value) noexcept
 	{
-		return cast(llround(value));
+		R res = R();
+		return saturate(value, res) ? res : cast(llround(value));
 	}
 	__attribute__((pure)) static R cast(long double value) noexcept
 	{
-		return cast(llroundl(value));
+		R res = R();
+		return saturate(value, res) ? res : cast(llroundl(value));
 	}
 	__attribute__((pure)) static R cast(bool value) noexcept
 	{
@@ -708,6 +711,31 @@ struct saturated_cast_helper {
 	{
 		return value;
 	}
+
+private:
+	/*!
+	 * \brief Saturate a floating point value that may not fit in a long long, such that it can
+	 *	be rounded safely otherwise.
+	 * \return \c true when \p res holds the result
+	 */
+	template <typename T>
+	static bool saturate(T value, R& res) noexcept
+	{
+		if(!(value > static_cast<T>(std::numeric_limits<R>::min()))) {
+			res = std::numeric_limits<R>::min();
+			return true;
+		}
+		if(value >= static_cast<T>(std::numeric_limits<R>::max())) {
+			res = std::numeric_limits<R>::max();
+			return true;
+		}
+		if(value >= static_cast<T>(std::numeric_limits<long long>::max())) {
+			// Large unsigned value, which does not have a fraction.
+			res = static_cast<R>(value);
+			return true;
+		}
+		return false;
+	}
 };
 
 template <>
-- 
2.43.0


From 1ef568b503c26ed302654e999398bb3251c4dc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:04:50 +0000
Subject: [PATCH 009/102] fix: non-ASCII characters in a string initializer
 were mangled

---
 python/libstored/generator/dsl/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index ff64c0b..912fe42 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -604,7 +604,7 @@ class Variable(Object):
             self.size = type.blob.size
             self.init = None
             if self.type == 'string' and type.init is not None:
-                self.init = bytes(str(type.init), "utf-8").decode("unicode_escape")
+                self.init = str(type.init).encode("latin-1", "backslashreplace").decode("unicode_escape")
                 l = len(self.init.encode())
                 if self.size < l:
                     sys.exit(f'String initializer is too long')
-- 
2.43.0


From c8497d2ec3329fff3344381d290f23cc8ee9abb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:05:06 +0000
Subject: [PATCH 010/102] fix: array accessor ignored an index when only one
 object was left

---
 python/libstored/generator/dsl/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/libstored/generator/dsl/types.py b/python/libstored/generator/dsl/types.py
index 912fe42..b966a5f 100644
--- a/python/libstored/generator/dsl/types.py
+++ b/python/libstored/generator/dsl/types.py
@@ -405,7 +405,8 @@ class ArrayLookup(object):
     def _tree(self, objects, index = 0):
         if len(objects) == 0:
             return None
-        if len(objects) == 1:
+        if index >= len(objects[0].name_index) or objects[0].name_index[index][1] is None:
+            # No more subscripts.
             return objects[0]
 
         res = {}
-- 
2.43.0


From 3a997d28373d3aea313100ebab20352189c92a02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 011/102] fix: debugger memory write skipped every other chunk

---
 src/debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 2f2888a..bda2a6a 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -714,7 +714,7 @@ void Debugger::process(void const* frame, size_t len, ProtocolLayer& response)
 			if(!decodeHex(Type::Blob, w, wlen))
 				goto error;
 			memcpy(addr, w, wlen);
-			addr += chunk;
+			addr += wlen;
 			p += chunk;
 			len -= chunk;
 		}
-- 
2.43.0


From 91bada97b35eaa94bc096592c7773d7df0f80ab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 012/102] fix: debugger macro without commands gave no response

---
 src/debugger.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index bda2a6a..00abe2e 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -929,6 +929,7 @@ bool Debugger::runMacro(char m, ProtocolLayer& response)
 		return false;
 	case 1:
 		// Expect the separator and at least one char to execute.  Nothing to do.
+		response.encode();
 		return true;
 	default:;
 		// Go execute.
-- 
2.43.0


From 7d6d0573854ce65a29cec66f6f36b4e18d3d3e7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 013/102] fix: debugger write to a bool stored values other
 than 0 and 1

---
 src/debugger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 00abe2e..cc448e6 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1096,6 +1096,10 @@ bool Debugger::decodeHex(Type::type type, void const*& data, size_t& len)
 			bin[(len - i - 1) / 2] |= b;
 #endif
 		}
+
+		if((Type::type)(type & ~Type::FlagFunction) == Type::Bool)
+			// Any other value than 0 or 1 is not a valid representation of a bool.
+			bin[0] = bin[0] ? 1 : 0;
 	} else {
 		if(len & 1U)
 			// Bytes must come in pair of nibbles.
-- 
2.43.0


From 936aeede91cf1614b8269c1ed24abdffa7cfdb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 014/102] fix: stream data was dropped but reported as accepted
 when blocked

---
 src/debugger.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index cc448e6..18b8311 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1188,7 +1188,7 @@ size_t Debugger::stream(char s, char const* data, size_t len)
 		return 0;
 
 	Stream<>* str = stream(s, true);
-	if(!str)
+	if(!str || str->blocked())
 		return 0;
 
 	len = str->fits(len);
-- 
2.43.0


From 3fc8daf004228ff9ea1ce2fdcb00da35fb006cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:43 +0000
Subject: [PATCH 015/102] fix: recycled debug stream could still be blocked

---
 src/debugger.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 18b8311..e0847e1 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1247,6 +1247,10 @@ Stream<>* Debugger::stream(char s, bool alloc)
 				}
 		}
 
+		if(recycle)
+			// It is empty, but may be blocked by a flush.
+			recycle->clear();
+
 		if(m_streams.size() < Config::DebuggerStreams) {
 			// Add a new stream.
 			return m_streams
-- 
2.43.0


From 53fdd2a45f5e3949d66f818a4fe632a0226a01d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 016/102] fix: aliases dangled after unmapping their store

---
 include/libstored/debugger.h | 13 +++++++++++++
 src/debugger.cpp             | 30 ++++++++++++++++++++++++++----
 2 files changed, 39 insertions(+), 4 deletions(-)

diff --git a/include/libstored/debugger.h b/include/libstored/debugger.h
index c126fae..82d2077 100644
--- a/include/libstored/debugger.h
+++ b/include/libstored/debugger.h
@@ -344,6 +344,8 @@ protected:
 	friend class DebugVariantTyped;
 	// NOLINTNEXTLINE(cppcoreguidelines-virtual-class-destructor)
 	friend class DebugVariant;
+	// For finding all aliases of a store.
+	friend class Debugger;
 };
 
 /*!
@@ -598,6 +600,11 @@ public:
 	 */
 	virtual char const* name() const noexcept = 0;
 
+	/*!
+	 * \brief Returns the container of all variants returned by #find().
+	 */
+	virtual void* container() const noexcept = 0;
+
 	/*!
 	 * \brief Performs a lookup of the given object name.
 	 * \param name the name to find, which can be abbreviated until unambiguous
@@ -659,6 +666,11 @@ public:
 		return store().name();
 	}
 
+	void* container() const noexcept final
+	{
+		return &store();
+	}
+
 	DebugVariant
 	find(char const* name, size_t len = std::numeric_limits<size_t>::max()) noexcept final
 	{
@@ -778,6 +790,7 @@ public:
 
 protected:
 	void map(DebugStoreBase* store, char const* name);
+	void release(DebugStoreBase* store);
 
 private:
 	/*! \brief The store map. */
diff --git a/src/debugger.cpp b/src/debugger.cpp
index e0847e1..ee5d307 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -161,9 +161,31 @@ void Debugger::map(DebugStoreBase* store, char const* name)
 		m_map.insert(StoreMap::value_type(name, store));
 	} else {
 		// Replace previous mapping.
-		// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
-		delete it->second;
+		DebugStoreBase* old = it->second;
 		it->second = store;
+		release(old);
+	}
+}
+
+/*!
+ * \brief Delete a store that is not in the map anymore, and all aliases to its objects.
+ */
+void Debugger::release(DebugStoreBase* store)
+{
+	void* container = store->container();
+	// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
+	delete store;
+
+	for(StoreMap::const_iterator it = m_map.begin(); it != m_map.end(); ++it)
+		if(it->second->container() == container)
+			// Still mapped by another name.
+			return;
+
+	for(AliasMap::iterator it = m_aliases.begin(); it != m_aliases.end();) {
+		if(static_cast<DebugVariantBase const&>(it->second).container() == container)
+			m_aliases.erase(it++);
+		else
+			++it;
 	}
 }
 
@@ -181,9 +203,9 @@ void Debugger::unmap(char const* name)
 	if(it == m_map.end())
 		return;
 
-	// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
-	delete it->second;
+	DebugStoreBase* store = it->second;
 	m_map.erase(it);
+	release(store);
 }
 
 /*!
-- 
2.43.0


From b03f9166fbc994bf8b3de82b6a0a8201c61e9202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:38:43 +0000
Subject: [PATCH 017/102] fix: name listed with a prefix could resolve to
 another object of the only store

---
 src/debugger.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index ee5d307..f51bed6 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -82,6 +82,19 @@ notfound:
 		// No store mapped.
 		goto notfound;
 	case 1: {
+		StoreMap::const_iterator it = m_map.begin();
+
+		if(Config::DebuggerListPrefixAlways) {
+			// The prefix is part of the name, as listed.
+			size_t prefix_len = strlen(it->first);
+			if(len > prefix_len && ::strncmp(name, it->first, prefix_len) == 0
+			   && name[prefix_len] == '/') {
+				DebugVariant v = it->second->find(&name[prefix_len], len - prefix_len);
+				if(v.valid())
+					return v;
+			}
+		}
+
 		// The name may not contain a prefix. Try to forward it to the only mapped store.
 		DebugVariant v = m_map.begin()->second->find(name, len);
 		if(v.valid())
-- 
2.43.0


From 0299c61b368d95f3f68aee8f2d064e204051bf85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:05 +0000
Subject: [PATCH 018/102] fix: sending a full store asserted when its RO hooks
 call the base implementation

---
 include/libstored/store.h.tmpl   | 16 ++++++++++++++++
 include/libstored/synchronizer.h | 16 ++++++++++++----
 2 files changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/libstored/store.h.tmpl b/include/libstored/store.h.tmpl
index c6da1bb..9ad834b 100644
--- a/include/libstored/store.h.tmpl
+++ b/include/libstored/store.h.tmpl
@@ -780,9 +780,25 @@ private:
 			m_locked = false;
 		}
 	}
+
+protected:
+	/*!
+	 * \brief Override the administration of the nested entry check.
+	 * \details This allows entering multiple variables at the same time.
+	 */
+	void __hookSetLocked(bool locked) noexcept
+	{
+		m_locked = locked;
+	}
 #	else // NDEBUG
 	void __hookEntryCheck() noexcept {}
 	void __hookExitCheck() noexcept {}
+
+protected:
+	void __hookSetLocked(bool locked) noexcept
+	{
+		STORED_UNUSED(locked)
+	}
 #	endif // NDEBUG
 
 protected:
diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index a55fd96..1a45713 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -294,8 +294,12 @@ public:
 		{
 			STORED_UNUSED(container)
 			STORED_UNUSED(name)
-			if(!Type::isFunction(type))
-				static_cast<Synchronizable*>(arg)->hookEntryRO(type, buffer, len);
+			if(!Type::isFunction(type)) {
+				Synchronizable* s = static_cast<Synchronizable*>(arg);
+				s->hookEntryRO(type, buffer, len);
+				// All variables are entered at once.
+				s->__hookSetLocked(false);
+			}
 		}
 
 		static void hookExitROCb(
@@ -304,8 +308,12 @@ public:
 		{
 			STORED_UNUSED(container)
 			STORED_UNUSED(name)
-			if(!Type::isFunction(type))
-				static_cast<Synchronizable*>(arg)->hookExitRO(type, buffer, len);
+			if(!Type::isFunction(type)) {
+				Synchronizable* s = static_cast<Synchronizable*>(arg);
+				s->__hookSetLocked(true);
+				s->hookExitRO(type, buffer, len);
+				s->__hookSetLocked(false);
+			}
 		}
 
 		static void hookChangedCb(
-- 
2.43.0


From 8e7fd1c5ef5a36fb4d46f56dd31aef47c9e2e3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:18 +0000
Subject: [PATCH 019/102] fix: stores between 64 kB and 16 MB could not be
 synchronized

---
 src/synchronizer.cpp | 75 ++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 75 insertions(+)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 57e6691..35b7537 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -166,6 +166,77 @@ public:
 	}
 };
 
+// NOLINTNEXTLINE(cppcoreguidelines-special-member-functions,hicpp-special-member-functions)
+class KeyCodec3 final : public KeyCodec {
+public:
+	~KeyCodec3() override is_default
+
+	size_t size() const noexcept override
+	{
+		return 3U;
+	}
+
+	void encode(uint8_t* buf, size_t& offset, type key) const noexcept override
+	{
+		encode3(buf, key);
+		offset += 3U;
+	}
+
+	void encode2(uint8_t*& buf, type a, type b) const noexcept override
+	{
+		encode3(buf, a);
+		encode3(buf + 3, b);
+		buf += 6;
+	}
+
+	type decode(uint8_t*& buffer, size_t& len, bool& ok) const noexcept override
+	{
+		if(unlikely(len < 3U)) {
+			ok = false;
+			return 0;
+		}
+
+		type key = decode3(buffer);
+		len -= 3U;
+		buffer += 3;
+		return key;
+	}
+
+	void push_back2(void* list, size_t& len, type a, type b) const noexcept override
+	{
+		uint8_t* list_ = static_cast<uint8_t*>(list) + len * 3U;
+		encode3(list_, a);
+		encode3(list_ + 3, b);
+		len += 2U;
+	}
+
+	type pop_front(void*& list, size_t& len) const noexcept override
+	{
+		stored_assert(len > 0);
+		uint8_t* list_ = static_cast<uint8_t*>(list);
+		type key = decode3(list_);
+		list = list_ + 3;
+		len--;
+		return key;
+	}
+
+private:
+	static void encode3(uint8_t* buf, type key) noexcept
+	{
+		size_t const lsb = Config::StoreInLittleEndian ? 0U : 2U;
+		buf[lsb] = (uint8_t)key;
+		buf[1] = (uint8_t)(key >> 8U);
+		buf[2U - lsb] = (uint8_t)(key >> 16U);
+	}
+
+	static type decode3(uint8_t const* buf) noexcept
+	{
+		size_t const lsb = Config::StoreInLittleEndian ? 0U : 2U;
+		return (type)buf[lsb] | (type)((type)buf[1] << 8U)
+		       | (type)((type)buf[2U - lsb] << 16U);
+	}
+};
+
 // NOLINTNEXTLINE(cppcoreguidelines-special-member-functions,hicpp-special-member-functions)
 class KeyCodec4 final : public KeyCodec {
 public:
@@ -207,6 +278,7 @@ public:
 
 static KeyCodec1 const keyCodec1;
 static KeyCodec2 const keyCodec2;
+static KeyCodec3 const keyCodec3;
 static KeyCodec4 const keyCodec4;
 
 } // namespace impl
@@ -245,6 +317,9 @@ StoreJournal::StoreJournal(
 	case 2:
 		m_keyCodec = &impl::keyCodec2;
 		break;
+	case 3:
+		m_keyCodec = &impl::keyCodec3;
+		break;
 	case 4:
 		m_keyCodec = &impl::keyCodec4;
 		break;
-- 
2.43.0


From 526396759764280fcdbc5499c1a6bc187cd2cd83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:00 +0000
Subject: [PATCH 020/102] fix: initial synchronization of an intermediate store
 was not forwarded

---
 include/libstored/synchronizer.h | 37 ++++++++++++++++++++++-
 src/synchronizer.cpp             | 50 ++++++++++++++++++++++++++++----
 2 files changed, 81 insertions(+), 6 deletions(-)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index 1a45713..90edbfb 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -107,6 +107,12 @@ public:
 		virtual bool doHookExitRO() noexcept = 0;
 		virtual bool doHookChanged() noexcept = 0;
 		virtual bool doHooks() noexcept = 0;
+
+		typedef void(VariableCallback)(void* buffer, size_t len, void* arg);
+		/*!
+		 * \brief Iterate over the buffers of all variables in the store.
+		 */
+		virtual void listVariables(VariableCallback* cb, void* arg) noexcept = 0;
 	};
 
 	StoreJournal(
@@ -160,7 +166,7 @@ public:
 	Seq encodeUpdates(uint8_t*& buf, Seq sinceSeq);
 
 	static char const* decodeHash(void*& buffer, size_t& len);
-	Seq decodeBuffer(void*& buffer, size_t& len);
+	Seq decodeBuffer(void*& buffer, size_t& len, bool recordAll = false);
 	Seq decodeUpdates(void*& buffer, size_t& len, bool recordAll, void* scratch);
 
 	void reserveHeap(size_t storeVariableCount);
@@ -215,6 +221,8 @@ protected:
 	size_t bufferSize() const;
 	size_t keySize() const;
 
+	static void decodeBufferCallback(void* buffer, size_t len, void* arg);
+
 	void iterateChanged(
 		Seq since, IterateChangedCallback* cb, void* arg, size_t lower, size_t upper) const;
 
@@ -226,7 +234,9 @@ private:
 	Seq m_seq;
 	Seq m_seqLower;
 	bool m_partialSeq;
+	// Only set when there are hooks to be called.
 	StoreCallback* m_callback;
+	StoreCallback* m_store;
 
 
 	// sorted based on key
@@ -395,7 +405,32 @@ public:
 			return doHookEntryRO() || doHookExitRO() || doHookChanged();
 		}
 
+		void listVariables(VariableCallback* cb, void* arg) noexcept override
+		{
+			ListVariablesArg a = {cb, arg};
+			m_store.list(&listVariablesCb, &a, nullptr, nullptr);
+		}
+
 	private:
+		struct ListVariablesArg {
+			VariableCallback* cb;
+			void* arg;
+		};
+
+		static void listVariablesCb(
+			void* container, char const* name, Type::type type, void* buffer,
+			size_t len, void* arg)
+		{
+			STORED_UNUSED(container)
+			STORED_UNUSED(name)
+			if(Type::isFunction(type))
+				return;
+
+			// A string has a terminating \0 in the buffer.
+			ListVariablesArg const* a = static_cast<ListVariablesArg*>(arg);
+			a->cb(buffer, type == Type::String ? len + 1U : len, a->arg);
+		}
+
 		// NOLINTNEXTLINE(cppcoreguidelines-avoid-const-or-ref-data-members)
 		Synchronizable& m_store;
 	};
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 35b7537..528378b 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -300,6 +300,7 @@ StoreJournal::StoreJournal(
 	, m_seqLower()
 	, m_partialSeq()
 	, m_callback(callback && callback->doHooks() ? callback : nullptr)
+	, m_store(callback)
 {
 	// Size is 32 bit, where size_t might be 64. But I guess that the
 	// store is never >4G in size...
@@ -671,11 +672,37 @@ StoreJournal::Seq StoreJournal::encodeBuffer(ProtocolLayer& p, bool last)
 	return bumpSeq();
 }
 
+/*!
+ * \brief Arguments for #stored::StoreJournal::decodeBufferCallback().
+ */
+struct DecodeBufferArg {
+	StoreJournal* journal;
+	char const* current;
+	char const* received;
+	bool recordAll;
+};
+
+/*!
+ * \brief Record a change of a variable, if the received full buffer has another value.
+ */
+void StoreJournal::decodeBufferCallback(void* buffer, size_t len, void* arg)
+{
+	DecodeBufferArg const* a = static_cast<DecodeBufferArg*>(arg);
+	char const* b = static_cast<char*>(buffer);
+	size_t offset = (size_t)(b - a->current);
+
+	if(memcmp(b, a->received + offset, len) != 0)
+		a->journal->changed((Key)offset, len, a->recordAll);
+}
+
 /*!
  * \brief Decode and process a full store's buffer from #stored::Synchronizer message.
+ * \param buffer the received message
+ * \param len the length of \p buffer
+ * \param recordAll record the change of every variable, such that it is forwarded to others
  * \return the seq number of the applied changes
  */
-StoreJournal::Seq StoreJournal::decodeBuffer(void*& buffer, size_t& len)
+StoreJournal::Seq StoreJournal::decodeBuffer(void*& buffer, size_t& len, bool recordAll)
 {
 	if(len < bufferSize())
 		return 0;
@@ -683,6 +710,14 @@ StoreJournal::Seq StoreJournal::decodeBuffer(void*& buffer, size_t& len)
 	// Don't use entryX/exitX, as we don't take exclusive ownership of the
 	// data, we only update our local copy.
 	STORED_MAKE_MEM_DEFINED(this->buffer(), bufferSize());
+
+	if(m_store) {
+		DecodeBufferArg arg = {
+			this, static_cast<char const*>(this->buffer()),
+			static_cast<char const*>(buffer), recordAll};
+		m_store->listVariables(&decodeBufferCallback, &arg);
+	}
+
 	memcpy(this->buffer(), buffer, bufferSize());
 	STORED_MAKE_MEM_NOACCESS(this->buffer(), bufferSize());
 
@@ -691,9 +726,13 @@ StoreJournal::Seq StoreJournal::decodeBuffer(void*& buffer, size_t& len)
 
 	len -= bufferSize();
 	m_partialSeq = true;
-	Seq seq_ = this->seq();
-	for(Changes::iterator it = m_changes.begin(); it != m_changes.end(); ++it)
-		it->seq = it->highest = toShort(seq_);
+
+	if(!m_store) {
+		Seq seq_ = this->seq();
+		for(Changes::iterator it = m_changes.begin(); it != m_changes.end(); ++it)
+			it->seq = it->highest = toShort(seq_);
+	}
+
 	return bumpSeq();
 }
 
@@ -1241,7 +1280,8 @@ void SyncConnection::decode(void* buffer, size_t len)
 			break;
 		}
 
-		seq = j->second->decodeBuffer(buffer, len);
+		seq = j->second->decodeBuffer(
+			buffer, len, synchronizer().isSynchronizing(*j->second, *this));
 		if(!seq) {
 			bye(id);
 			break;
-- 
2.43.0


From 0c0598789c5984a5be38b95352890afccdf6bbf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:54 +0000
Subject: [PATCH 021/102] fix: store in multiple synchronizers was not
 synchronized between them

---
 include/libstored/synchronizer.h | 18 ++++++++++++++++--
 src/synchronizer.cpp             |  7 +++++--
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index 90edbfb..7430168 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -171,6 +171,14 @@ public:
 
 	void reserveHeap(size_t storeVariableCount);
 
+	/*!
+	 * \brief Checks if the store is mapped in more than one #stored::Synchronizer.
+	 */
+	bool isShared() const
+	{
+		return m_mapped > 1U;
+	}
+
 protected:
 	/*!
 	 * \brief Element in the \c m_changes administration.
@@ -227,6 +235,8 @@ protected:
 		Seq since, IterateChangedCallback* cb, void* arg, size_t lower, size_t upper) const;
 
 private:
+	friend class Synchronizer;
+
 	char const* m_hash;
 	void* m_buffer;
 	size_t m_bufferSize;
@@ -237,6 +247,8 @@ private:
 	// Only set when there are hooks to be called.
 	StoreCallback* m_callback;
 	StoreCallback* m_store;
+	// Number of Synchronizers that handle this store.
+	size_t m_mapped;
 
 
 	// sorted based on key
@@ -671,7 +683,8 @@ public:
 	template <typename Store>
 	void map(Synchronizable<Store>& store)
 	{
-		m_storeMap.insert(std::make_pair(store.hash(), &store.journal()));
+		if(m_storeMap.insert(std::make_pair(store.hash(), &store.journal())).second)
+			store.journal().m_mapped++;
 
 		if(Synchronizable<Store>::MaxMessageSize > m_encodeBuffer.size())
 			m_encodeBuffer.resize(Synchronizable<Store>::MaxMessageSize);
@@ -683,7 +696,8 @@ public:
 	template <typename Store>
 	void unmap(Synchronizable<Store>& store)
 	{
-		m_storeMap.erase(store.hash());
+		if(m_storeMap.erase(store.hash()) && store.journal().m_mapped)
+			store.journal().m_mapped--;
 
 		for(Connections::iterator it = m_connections.begin(); it != m_connections.end();
 		    ++it)
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 528378b..49fa802 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -301,6 +301,7 @@ StoreJournal::StoreJournal(
 	, m_partialSeq()
 	, m_callback(callback && callback->doHooks() ? callback : nullptr)
 	, m_store(callback)
+	, m_mapped()
 {
 	// Size is 32 bit, where size_t might be 64. But I guess that the
 	// store is never >4G in size...
@@ -1281,7 +1282,9 @@ void SyncConnection::decode(void* buffer, size_t len)
 		}
 
 		seq = j->second->decodeBuffer(
-			buffer, len, synchronizer().isSynchronizing(*j->second, *this));
+			buffer, len,
+			j->second->isShared()
+				|| synchronizer().isSynchronizing(*j->second, *this));
 		if(!seq) {
 			bye(id);
 			break;
@@ -1319,7 +1322,7 @@ void SyncConnection::decode(void* buffer, size_t len)
 		process(j, synchronizer().encodeBuffer());
 
 		StoreJournal::Seq seq = 0;
-		bool recordAll = synchronizer().isSynchronizing(j, *this);
+		bool recordAll = j.isShared() || synchronizer().isSynchronizing(j, *this);
 		seq = it->second->decodeUpdates(buffer, len, recordAll, scratch);
 		if(!seq) {
 			bye(id);
-- 
2.43.0


From fcf91a2b5dbc23ff587dd6a739dfeff2ade7db1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:06 +0000
Subject: [PATCH 022/102] fix: bounds check of received synchronizer keys could
 overflow

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 49fa802..cb01b2e 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -906,7 +906,7 @@ size_t StoreJournal::keySize() const
  */
 void* StoreJournal::keyToBuffer(StoreJournal::Key key, StoreJournal::Size len, bool* ok) const
 {
-	if(ok && len && key + len > bufferSize())
+	if(ok && (key >= bufferSize() || len > bufferSize() - key))
 		*ok = false;
 	return static_cast<char*>(m_buffer) + key;
 }
-- 
2.43.0


From c222dd790c7fcc8249fdf8b8e52d1a85f75d9e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:03 +0000
Subject: [PATCH 023/102] fix: received updates could overflow the
 synchronizer's encode buffer

---
 include/libstored/synchronizer.h | 11 +++++++++++
 src/synchronizer.cpp             | 26 +++++++++++++++++++++++++-
 2 files changed, 36 insertions(+), 1 deletion(-)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index 7430168..8066f5a 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -113,6 +113,10 @@ public:
 		 * \brief Iterate over the buffers of all variables in the store.
 		 */
 		virtual void listVariables(VariableCallback* cb, void* arg) noexcept = 0;
+		/*!
+		 * \brief Return the type of the variable at the given buffer.
+		 */
+		virtual Type::type bufferToType(void const* buffer) noexcept = 0;
 	};
 
 	StoreJournal(
@@ -222,6 +226,8 @@ protected:
 	void encodeUpdates(uint8_t*& buf, Seq sinceSeq, size_t lower, size_t upper);
 	void encodeUpdate(uint8_t*& buf, ObjectInfo& o);
 
+	bool isVariable(Key key, Size len) const;
+
 	void encodeKey(ProtocolLayer& p, Key key);
 	Key decodeKey(uint8_t*& buffer, size_t& len, bool& ok);
 
@@ -423,6 +429,11 @@ public:
 			m_store.list(&listVariablesCb, &a, nullptr, nullptr);
 		}
 
+		Type::type bufferToType(void const* buffer) noexcept override
+		{
+			return m_store.bufferToType(buffer);
+		}
+
 	private:
 		struct ListVariablesArg {
 			VariableCallback* cb;
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index cb01b2e..c4141e7 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -828,7 +828,7 @@ StoreJournal::decodeUpdates(void*& buffer, size_t& len, bool recordAll, void* sc
 		Size size = (Size)decodeKey(buffer_, len, ok);
 		void* obj = keyToBuffer(key, size, &ok);
 
-		if(unlikely(!ok || len < size)) {
+		if(unlikely(!ok || len < size || !isVariable(key, size))) {
 			// Decoding error. Stop processing this message.
 			buffer = buffer_;
 			ok = false;
@@ -911,6 +911,30 @@ void* StoreJournal::keyToBuffer(StoreJournal::Key key, StoreJournal::Size len, b
 	return static_cast<char*>(m_buffer) + key;
 }
 
+/*!
+ * \brief Checks if the given key and length match a variable in the store.
+ *
+ * The total size of all recorded changes is limited by the size of the store,
+ * as long as every change is limited to its own variable.
+ */
+bool StoreJournal::isVariable(StoreJournal::Key key, StoreJournal::Size len) const
+{
+	if(!m_store)
+		return true;
+
+	char const* b = static_cast<char const*>(m_buffer) + key;
+
+	if(m_store->bufferToType(b) == Type::Invalid)
+		return false;
+
+	// The buffer must not extend to another variable.
+	for(Size i = 1; i < len; i++)
+		if(m_store->bufferToType(b + i) != Type::Invalid)
+			return false;
+
+	return true;
+}
+
 /*!
  * \brief Pre-allocate memory for the given number of variables.
  *
-- 
2.43.0


From 52aa8e59b04f81e1946dd180a3ec12a2040d3b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 024/102] fix: use after free when a synchronizer's peer
 responds before encode returns

---
 src/synchronizer.cpp | 47 ++++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 17 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index c4141e7..33518e4 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1030,10 +1030,11 @@ void SyncConnection::source(StoreJournal& store)
 	StoreInfo& si = m_store[&store];
 	si.source = true;
 
-	encodeCmd(Hello);
-	store.encodeHash(*this, false);
 	Id id = nextId();
 	m_idIn[id] = &store;
+
+	encodeCmd(Hello);
+	store.encodeHash(*this, false);
 	encodeId(id, true);
 }
 
@@ -1263,13 +1264,8 @@ void SyncConnection::decode(void* buffer, size_t len)
 			break;
 		}
 
-		encodeCmd(Welcome);
-		encodeId(id);
-
-		StoreInfo& si = m_store[j];
-		si.source = false;
-		si.idOut = id;
-
+		// Finish all administration first, as the other party may respond
+		// to the Welcome before encode() returns.
 		for(IdInMap::iterator it = m_idIn.begin(); it != m_idIn.end(); ++it)
 			if(it->second == j) {
 				// Apparently, we already had a sync to this store. Replace it.
@@ -1277,11 +1273,18 @@ void SyncConnection::decode(void* buffer, size_t len)
 				break;
 			}
 
-		id = nextId();
-		m_idIn[id] = j;
-		encodeId(id, false);
+		Id welcome_id = nextId();
+		m_idIn[welcome_id] = j;
+
+		StoreInfo& si = m_store[j];
+		si.source = false;
+		si.idOut = id;
+		si.seq = j->bumpSeq();
 
-		si.seq = j->encodeBuffer(*this, true);
+		encodeCmd(Welcome);
+		encodeId(id);
+		encodeId(welcome_id, false);
+		j->encodeBuffer(*this, true);
 		break;
 	}
 	case Welcome: {
@@ -1345,16 +1348,21 @@ void SyncConnection::decode(void* buffer, size_t len)
 		StoreJournal& j = *it->second;
 		process(j, synchronizer().encodeBuffer());
 
+		// The other party may have responded already, before process() returns.
+		it = m_idIn.find(id);
+		if(it == m_idIn.end() || it->second != &j)
+			break;
+
 		StoreJournal::Seq seq = 0;
 		bool recordAll = j.isShared() || synchronizer().isSynchronizing(j, *this);
-		seq = it->second->decodeUpdates(buffer, len, recordAll, scratch);
+		seq = j.decodeUpdates(buffer, len, recordAll, scratch);
 		if(!seq) {
 			bye(id);
 			break;
 		}
 
-		stored_assert(m_store.find(it->second) != m_store.end());
-		m_store[it->second].seq = seq;
+		stored_assert(m_store.find(&j) != m_store.end());
+		m_store[&j].seq = seq;
 		break;
 	}
 	case Bye: {
@@ -1475,9 +1483,14 @@ again:
  */
 void SyncConnection::helloAgain()
 {
+	// The other party may respond before encode() returns, which may change m_store.
+	Vector<StoreJournal*>::type sources;
 	for(StoreMap::iterator it = m_store.begin(); it != m_store.end(); ++it)
 		if(it->second.source)
-			helloAgain(*it->first);
+			sources.push_back(it->first);
+
+	for(size_t i = 0; i < sources.size(); i++)
+		helloAgain(*sources[i]);
 }
 
 /*!
-- 
2.43.0


From 3eb8738b88d504a533aff251cd9328f816e96d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 025/102] fix: goodbye by id was applied to the wrong store

---
 src/synchronizer.cpp | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 33518e4..c2c7d6a 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1381,14 +1381,17 @@ void SyncConnection::decode(void* buffer, size_t len)
 			if(!id)
 				break;
 
-			IdInMap::iterator it = m_idIn.find(id);
-			if(it == m_idIn.end())
+			// It is the id we use to send updates to the other party.
+			StoreMap::iterator it = m_store.begin();
+			while(it != m_store.end() && it->second.idOut != id)
+				++it;
+
+			if(it == m_store.end())
 				break;
 
-			StoreInfo const& si = m_store[it->second];
-			if(si.source && si.idOut)
+			if(it->second.source)
 				// Hey, we need it!
-				helloAgain(*(it->second));
+				helloAgain(*it->first);
 			else
 				eraseOut(id);
 		} else {
-- 
2.43.0


From 23638da726a341923da3422e9aa5ba617543564a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:17 +0000
Subject: [PATCH 026/102] fix: resetting a SyncConnection sent a malformed
 goodbye

---
 src/synchronizer.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index c2c7d6a..d087131 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -976,7 +976,7 @@ SyncConnection::~SyncConnection()
 
 void SyncConnection::reset()
 {
-	encodeCmd(Bye);
+	encodeCmd(Bye, true);
 	flush();
 	dropNonSources();
 	base::reset();
-- 
2.43.0


From 03f3ae044950bb603d9a0ba5e683683c38fb0028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:49:22 +0000
Subject: [PATCH 027/102] fix: resetting a SyncConnection could drop the peer's
 new session

---
 src/synchronizer.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index d087131..d5998bf 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -976,9 +976,10 @@ SyncConnection::~SyncConnection()
 
 void SyncConnection::reset()
 {
+	// Drop first, as the other party may send a new Hello before encode() returns.
+	dropNonSources();
 	encodeCmd(Bye, true);
 	flush();
-	dropNonSources();
 	base::reset();
 	helloAgain();
 }
-- 
2.43.0


From a10d2084c85521e8b85c82a8f915ba13246fc494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 028/102] fix: ids of a previous session could be mistaken for
 another store

---
 include/libstored/synchronizer.h | 11 ++++++++---
 src/synchronizer.cpp             |  5 +++--
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index 8066f5a..cb1ce39 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -669,8 +669,6 @@ private:
 	// Id determined by this class (set in Hello message)
 	typedef Map<Id, StoreJournal*>::type IdInMap;
 	IdInMap m_idIn;
-
-	Id m_idInNext;
 };
 
 /*!
@@ -685,7 +683,10 @@ public:
 	/*!
 	 * \brief Ctor.
 	 */
-	Synchronizer() is_default
+	Synchronizer()
+		: m_idInNext(1)
+	{}
+
 	~Synchronizer();
 
 	/*!
@@ -793,6 +794,10 @@ private:
 
 	typedef Vector<uint8_t>::type EncodeBuffer;
 	EncodeBuffer m_encodeBuffer;
+
+	friend class SyncConnection;
+	// The next ID to be used by any of the connections.
+	SyncConnection::Id m_idInNext;
 };
 
 } // namespace stored
diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index d5998bf..79bc08b 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -961,7 +961,6 @@ StoreJournal::StoreCallback::~StoreCallback() is_default
  */
 SyncConnection::SyncConnection(Synchronizer& synchronizer, ProtocolLayer& connection)
 	: m_synchronizer(&synchronizer)
-	, m_idInNext(1)
 {
 	connection.wrap(*this);
 }
@@ -1047,7 +1046,9 @@ SyncConnection::Id SyncConnection::nextId()
 	stored_assert(m_idIn.size() < std::numeric_limits<Id>::max() / 2U);
 
 	while(true) {
-		Id id = m_idInNext++;
+		// Do not start over when a connection is replaced, as remnants of the
+		// previous session may still arrive.
+		Id id = m_synchronizer->m_idInNext++;
 
 		if(id == 0)
 			continue;
-- 
2.43.0


From a84c315e0b65d1b6a35914001322b8507916e7fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:59:58 +0000
Subject: [PATCH 029/102] fix: a peer's Hello could make syncFrom() assert

---
 src/synchronizer.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 79bc08b..ea50260 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1022,9 +1022,12 @@ void SyncConnection::source(StoreJournal& store)
 {
 	StoreMap::iterator it = m_store.find(&store);
 	if(it != m_store.end()) {
-		// Already registered, but the direction should not have changed...
-		stored_assert(it->second.source);
-		return;
+		if(it->second.source)
+			// Already registered.
+			return;
+
+		// The other party uses us as source. Turn it around.
+		erase(store.hash());
 	}
 
 	StoreInfo& si = m_store[&store];
-- 
2.43.0


From bb51c448d05d9413a301dacf8854a6a45b9ccd8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:12 +0000
Subject: [PATCH 030/102] fix: cleaning a young journal dropped all changes

---
 src/synchronizer.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index ea50260..1973583 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -593,8 +593,11 @@ void StoreJournal::iterateChanged(
  */
 void StoreJournal::clean(StoreJournal::Seq oldest)
 {
-	if(oldest == 0)
+	if(oldest == 0) {
+		if(seq() <= SeqCleanThreshold)
+			return;
 		oldest = seq() - SeqCleanThreshold;
+	}
 
 	bool didErase = false;
 	for(size_t i = m_changes.size(); i > 0; i--)
-- 
2.43.0


From e2546c01a05d0d4ab65b1109bd60d4d997cf56f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:42 +0000
Subject: [PATCH 031/102] fix: data races in the thread-safe FIFOs

---
 include/libstored/fifo.h | 58 +++++++++++++++++++++++++++++++---------
 1 file changed, 46 insertions(+), 12 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 8394645..f15c4b9 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -494,7 +494,7 @@ public:
 
 	bool empty() const noexcept
 	{
-		return m_wp.load(std::memory_order_relaxed) == m_rp.load(std::memory_order_relaxed);
+		return m_wp.load(load_order()) == m_rp.load(load_order());
 	}
 
 	bool full() const noexcept
@@ -504,15 +504,15 @@ public:
 
 	size_t available() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(load_order());
+		pointer rp = m_rp.load(load_order());
 		return wp >= rp ? wp - rp : wp + m_buffer.size() - rp;
 	}
 
 	size_t available_chunk() const noexcept
 	{
-		pointer wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(load_order());
+		pointer rp = m_rp.load(load_order());
 		return wp >= rp ? wp - rp : m_buffer.size() - rp;
 	}
 
@@ -579,7 +579,8 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(rp, std::memory_order_relaxed);
+			// Release the popped items to the producer.
+			m_rp.store(rp, store_order());
 		}
 	}
 
@@ -680,7 +681,7 @@ public:
 			m_wp.store(0, std::memory_order_relaxed);
 			m_rp.store(0, std::memory_order_relaxed);
 		} else {
-			m_rp.store(m_wp.load(std::memory_order_relaxed), std::memory_order_relaxed);
+			m_rp.store(m_wp.load(load_order()), store_order());
 		}
 	}
 
@@ -690,7 +691,7 @@ public:
 	{
 		pointer rp = m_rp.load(
 			ThreadSafe ? std::memory_order_consume : std::memory_order_relaxed);
-		pointer wp = m_wp.load(std::memory_order_relaxed);
+		pointer wp = m_wp.load(load_order());
 		return View{m_buffer, rp, wp};
 	}
 
@@ -704,12 +705,28 @@ protected:
 		UnboundedMoveThreshold = 64,
 	};
 
+	/*!
+	 * \brief Order to load a pointer that is updated by the other side.
+	 */
+	static constexpr std::memory_order load_order() noexcept
+	{
+		return ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed;
+	}
+
+	/*!
+	 * \brief Order to store a pointer that is read by the other side.
+	 */
+	static constexpr std::memory_order store_order() noexcept
+	{
+		return ThreadSafe ? std::memory_order_release : std::memory_order_relaxed;
+	}
+
 	void reserve_back(pointer& wp, pointer& wp_next, size_t count = 1)
 	{
 		stored_assert(space() >= count);
 
 		wp = m_wp.load(std::memory_order_relaxed);
-		pointer rp = m_rp.load(std::memory_order_relaxed);
+		pointer rp = m_rp.load(load_order());
 
 		if(bounded()) {
 			// Bounded buffer. Do wrap-around.
@@ -886,7 +903,7 @@ public:
 		if(m_msg.full())
 			return 0;
 
-		size_t rp = m_rp.load(std::memory_order_relaxed);
+		size_t rp = m_rp.load(load_order());
 		size_t wp = m_wp.load(std::memory_order_relaxed);
 		size_t partial = m_wp_partial - wp;
 		size_t sz = size();
@@ -913,7 +930,8 @@ public:
 	void pop_front() noexcept
 	{
 		Msg const& msg = m_msg.front();
-		m_rp.store((buffer_pointer)(msg.first + msg.second), std::memory_order_relaxed);
+		// Release the message's data to the producer.
+		m_rp.store((buffer_pointer)(msg.first + msg.second), store_order());
 		m_msg.pop_front();
 	}
 
@@ -944,6 +962,22 @@ public:
 	}
 
 protected:
+	/*!
+	 * \brief Order to load a pointer that is updated by the other side.
+	 */
+	static constexpr std::memory_order load_order() noexcept
+	{
+		return ThreadSafe ? std::memory_order_acquire : std::memory_order_relaxed;
+	}
+
+	/*!
+	 * \brief Order to store a pointer that is read by the other side.
+	 */
+	static constexpr std::memory_order store_order() noexcept
+	{
+		return ThreadSafe ? std::memory_order_release : std::memory_order_relaxed;
+	}
+
 	void push_back_partial()
 	{
 		stored_assert(!m_msg.full());
@@ -977,7 +1011,7 @@ public:
 		if(!message.size())
 			return true;
 
-		buffer_pointer rp = m_rp.load(std::memory_order_relaxed);
+		buffer_pointer rp = m_rp.load(load_order());
 		buffer_pointer wp = m_wp.load(std::memory_order_relaxed);
 		buffer_pointer wp_partial = m_wp_partial;
 		stored_assert(wp_partial >= wp);
-- 
2.43.0


From d85d5cda4ccd89bbbaf14191c048cdd40044d37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:42 +0000
Subject: [PATCH 032/102] fix: moving the contents of an unbounded Fifo with a
 full buffer asserted

---
 include/libstored/fifo.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index f15c4b9..a3de9df 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -198,8 +198,8 @@ public:
 	{
 		stored_assert(dst + (pointer)len >= dst);
 		stored_assert(src + (pointer)len >= src);
-		stored_assert((size_t)dst + len < size());
-		stored_assert((size_t)src + len < size());
+		stored_assert((size_t)dst + len <= size());
+		stored_assert((size_t)src + len <= size());
 
 		impl::buffer_move(m_buffer, dst, src, len);
 	}
-- 
2.43.0


From 4efac7f17c2567c65c7bd99e4db20e098dceaa41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:42 +0000
Subject: [PATCH 033/102] fix: pointers of a bounded Fifo could overflow

---
 include/libstored/fifo.h | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index a3de9df..aa36ca9 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -569,9 +569,11 @@ public:
 		pointer rp = m_rp.load(std::memory_order_relaxed);
 		stored_assert(count <= available());
 
-		rp = (pointer)(rp + count);
-		if(wp < rp && rp >= m_buffer.size())
-			rp = (pointer)(rp - m_buffer.size());
+		// Do not add first; it may not fit in pointer.
+		if(wp < rp && count >= m_buffer.size() - rp)
+			rp = (pointer)(count - (m_buffer.size() - rp));
+		else
+			rp = (pointer)(rp + count);
 
 		if(!bounded() && wp == rp) {
 			// Reset to the start of the buffer, as it became empty.
@@ -730,9 +732,11 @@ protected:
 
 		if(bounded()) {
 			// Bounded buffer. Do wrap-around.
-			wp_next = (pointer)(wp + count);
-			if(wp_next >= m_buffer.size())
-				wp_next = (pointer)(wp_next - m_buffer.size());
+			// Do not add first; it may not fit in pointer.
+			if(count >= m_buffer.size() - wp)
+				wp_next = (pointer)(count - (m_buffer.size() - wp));
+			else
+				wp_next = (pointer)(wp + count);
 		} else {
 			// Unbounded buffer.
 			stored_assert(!ThreadSafe);
-- 
2.43.0


From 3833c328d15b0aac354164e6c080549ca62d5aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:42 +0000
Subject: [PATCH 034/102] fix: empty messages corrupted the administration of
 MessageFifo

---
 include/libstored/fifo.h | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index aa36ca9..4b46979 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -935,7 +935,9 @@ public:
 	{
 		Msg const& msg = m_msg.front();
 		// Release the message's data to the producer.
-		m_rp.store((buffer_pointer)(msg.first + msg.second), store_order());
+		// An empty message does not occupy any data.
+		if(msg.second)
+			m_rp.store((buffer_pointer)(msg.first + msg.second), store_order());
 		m_msg.pop_front();
 	}
 
@@ -987,6 +989,16 @@ protected:
 		stored_assert(!m_msg.full());
 		buffer_pointer wp = m_wp.load(std::memory_order_relaxed);
 		stored_assert(m_wp_partial >= wp);
+
+		if(m_wp_partial == wp) {
+			// Empty message. wp may be at the end of the buffer, so
+			// don't point there.
+			if(Capacity == 0)
+				m_buffer.resize(1);
+			m_msg.emplace_back((buffer_pointer)0, (buffer_pointer)0);
+			return;
+		}
+
 		m_wp.store(m_wp_partial, std::memory_order_relaxed);
 		m_msg.emplace_back(wp, (buffer_pointer)(m_wp_partial - wp));
 	}
-- 
2.43.0


From ee692ca54c5d29eabf2a23f83fee00329ae8bbbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:42 +0000
Subject: [PATCH 035/102] fix: partial message got stuck in an otherwise empty
 MessageFifo

---
 include/libstored/fifo.h | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 4b46979..79a7821 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -912,7 +912,10 @@ public:
 		size_t partial = m_wp_partial - wp;
 		size_t sz = size();
 
-		if(wp < rp)
+		if(rp == m_wp_end)
+			// Empty, except for the partial message. The whole buffer can be used.
+			return sz - partial - 1U;
+		else if(wp < rp)
 			return rp - wp - partial - 1U;
 		else
 			return rp == 0 ? sz - wp - partial - 1U
@@ -1000,6 +1003,7 @@ protected:
 		}
 
 		m_wp.store(m_wp_partial, std::memory_order_relaxed);
+		m_wp_end = m_wp_partial;
 		m_msg.emplace_back(wp, (buffer_pointer)(m_wp_partial - wp));
 	}
 
@@ -1042,16 +1046,20 @@ public:
 #    endif
 		}
 
-		if(wp == rp && partial == 0) {
+		if(rp == m_wp_end) {
 			// Note: Because of race conditions in a threaded
 			// environment, it might be the case that empty() is
 			// not yet true, as pop_front() first updates rp and
 			// then pops the message.
 
 			// When empty, the other side ignores the wp/rp, so we
-			// can safely tinker with it.
-			wp = m_wp_partial = wp_partial = 0;
+			// can safely tinker with it. Only our partial message
+			// may be there.
+			m_buffer.move(0, wp, partial);
+			m_wp_partial = wp_partial = (buffer_pointer)partial;
+			wp = 0;
 			rp = 0;
+			m_wp_end = 0;
 			m_wp.store(wp, std::memory_order_relaxed);
 			m_rp.store(rp, std::memory_order_relaxed);
 		}
@@ -1131,7 +1139,7 @@ public:
 	void clear()
 	{
 		m_rp.store(
-			m_wp_partial = m_wp.load(std::memory_order_relaxed),
+			m_wp_end = m_wp_partial = m_wp.load(std::memory_order_relaxed),
 			std::memory_order_relaxed);
 		m_msg.clear();
 	}
@@ -1141,6 +1149,8 @@ private:
 	std::atomic<buffer_pointer> m_rp{0};
 	std::atomic<buffer_pointer> m_wp{0};
 	buffer_pointer m_wp_partial{0};
+	// End of the last message; all data has been popped when m_rp gets here.
+	buffer_pointer m_wp_end{0};
 
 	Fifo<Msg, Messages> m_msg;
 };
-- 
2.43.0


From e5ff7743c590f0cf866d8ac273f209227ce5c5ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:42 +0000
Subject: [PATCH 036/102] fix: messages of the MTU never fitted in FifoLoopback

---
 include/libstored/fifo.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 79a7821..65f9d93 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -849,7 +849,7 @@ static constexpr size_t defaultMessages(size_t capacity)
  *
  * If the FIFO is bounded (\p Capacity is set to the total buffer size for
  * all queued messages), it can queue any number of messages (but limited
- * by \p Messages) of any size (up to \p Capacity). Messages of different
+ * by \p Messages) of any size (up to #capacity()). Messages of different
  * length can be used. It does not use dynamic memory allocation.  It can
  * be configured to be thread-safe, which is also async-signal safe.
  * Therefore, it can be used to pass messages between threads, but also
@@ -1037,7 +1037,7 @@ public:
 		stored_assert(wp_partial >= wp);
 		size_t partial = (size_t)(wp_partial - wp);
 
-		if(unlikely(Capacity > 0 && message.size() + partial > Capacity)) {
+		if(unlikely(Capacity > 0 && message.size() + partial > capacity())) {
 			// Will never fit.
 #    ifdef STORED_cpp_exceptions
 			throw std::bad_alloc();
@@ -1289,7 +1289,7 @@ public:
 	virtual size_t mtu() const override
 	{
 		size_t res = base::mtu();
-		return res ? std::min(Capacity, res) : Capacity;
+		return res ? std::min(m_fifo.capacity(), res) : m_fifo.capacity();
 	}
 
 	constexpr bool bounded() const noexcept
-- 
2.43.0


From 538771aafe7b825b4e1d4f40705a718dbd3d974d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:33:42 +0000
Subject: [PATCH 037/102] fix: partially dropped message of FifoLoopback was
 mixed with the next one

---
 include/libstored/fifo.h | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 65f9d93..7916e43 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -1231,14 +1231,25 @@ public:
 	 */
 	virtual void encode(void const* buffer, size_t len, bool last = true) override
 	{
-		bool res = false;
-
-		do {
-			if(last)
-				res = m_fifo.push_back((char const*)buffer, len);
-			else
-				res = m_fifo.append_back((char const*)buffer, len);
-		} while(!res && overflow());
+		if(m_drop) {
+			// The start of this message did not fit, drop the remainder.
+			m_drop = !last;
+		} else {
+			bool res = false;
+
+			do {
+				if(last)
+					res = m_fifo.push_back((char const*)buffer, len);
+				else
+					res = m_fifo.append_back((char const*)buffer, len);
+			} while(!res && overflow());
+
+			if(!res) {
+				// Drop the message as a whole.
+				m_fifo.reset_back();
+				m_drop = !last;
+			}
+		}
 
 		base::encode(buffer, len, last);
 	}
@@ -1283,6 +1294,8 @@ public:
 	virtual void reset() override
 	{
 		base::reset();
+		m_fifo.reset_back();
+		m_drop = false;
 		setLastError(0);
 	}
 
@@ -1324,6 +1337,7 @@ public:
 
 private:
 	Fifo_type m_fifo;
+	bool m_drop = false;
 	Callable<OverflowCallback>::type m_overflowCallback;
 };
 
-- 
2.43.0


From 0bb07b98e6768c34026a1988f096ddf4a6b3443c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:05 +0000
Subject: [PATCH 038/102] fix: Buffer copied bytes instead of elements

---
 include/libstored/fifo.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/libstored/fifo.h b/include/libstored/fifo.h
index 7916e43..64c03f6 100644
--- a/include/libstored/fifo.h
+++ b/include/libstored/fifo.h
@@ -37,13 +37,14 @@ struct buffer_ops {
 	static void set(B& buffer, pointer p, typename B::value_type const* x, size_t len) noexcept
 	{
 		if(len)
-			memcpy(&buffer[p], x, len);
+			memcpy(&buffer[p], x, len * sizeof(*x));
 	}
 
 	static void move(B& buffer, pointer dst, pointer src, size_t len) noexcept
 	{
 		if(len)
-			memmove(&buffer[dst], &buffer[src], len);
+			memmove(&buffer[dst], &buffer[src],
+				len * sizeof(typename B::value_type));
 	}
 };
 
-- 
2.43.0


From f70d1a0b7078df9eb6d35d33ef246686ac6bdc5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 039/102] fix: rollback of a ScratchPad to a fully used chunk
 dropped that chunk

---
 include/libstored/spm.h | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 98ef872..8b27138 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -260,7 +260,7 @@ public:
 	 */
 	Snapshot snapshot() noexcept
 	{
-		return Snapshot(*this, empty() ? nullptr : &m_buffer[m_size], m_total);
+		return Snapshot(*this, empty() ? nullptr : m_buffer + m_size, m_total);
 	}
 
 private:
@@ -278,8 +278,9 @@ private:
 		// cppcheck-suppress constVariablePointer
 		char* snapshot_ = static_cast<char*>(snapshot);
 
-		// Find correct buffer.
-		while(!(snapshot_ >= m_buffer && snapshot_ < &m_buffer[bufferSize()])) {
+		// Find correct buffer. It may have been completely in use.
+		while(!(m_buffer && snapshot_ >= m_buffer
+			&& snapshot_ <= m_buffer + bufferSize())) {
 			m_size = 0; // Don't care, will be recovered later on.
 			bufferPop();
 			stored_assert(m_buffer);
@@ -289,10 +290,10 @@ private:
 		stored_assert(size <= m_total);
 		m_total = size;
 		size_t size_ = (size_t)(snapshot_ - m_buffer);
-		stored_assert(size_ < bufferSize());
+		stored_assert(size_ <= bufferSize());
 		m_size = (size_type)size_;
 
-		STORED_MAKE_MEM_NOACCESS(&m_buffer[m_size], bufferSize() - m_size);
+		STORED_MAKE_MEM_NOACCESS(m_buffer + m_size, bufferSize() - m_size);
 	}
 
 	/*!
-- 
2.43.0


From f0327d9c3192d953b248f261427abbe2e054f9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:43 +0000
Subject: [PATCH 040/102] fix: growing a ScratchPad invalidated snapshots of an
 unused chunk

---
 include/libstored/spm.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 8b27138..407fbc6 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -370,6 +370,8 @@ private:
 		// Standard allocators don't have realloc. So, deallocate first,
 		// and then allocate a new one.
 		chunkDeallocate(chunk(), bufferSize());
+		// allocate() may throw std::bad_alloc.
+		m_buffer = nullptr;
 		m_buffer = buffer(allocate<char>(size + chunkHeader));
 		setBufferSize(size);
 
@@ -463,8 +465,9 @@ public:
 		if(likely(new_cap <= bufferSize()))
 			return;
 
-		if(m_buffer && m_size == 0) {
+		if(m_buffer && empty()) {
 			// Grow (realloc) is fine, as nobody is using the current buffer (if any).
+			// If it is not the first chunk, there may still be a snapshot of it.
 			bufferGrow(new_cap);
 		} else {
 			// Grow (realloc) may move the buffer. So don't do that.
-- 
2.43.0


From 0d9654b9eaef0a1c835b9444ad9a58fb75be35ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:11 +0000
Subject: [PATCH 041/102] fix: counters of ScratchPad overflowed, such that
 allocations overlapped

---
 include/libstored/spm.h | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/include/libstored/spm.h b/include/libstored/spm.h
index 407fbc6..ca70e39 100644
--- a/include/libstored/spm.h
+++ b/include/libstored/spm.h
@@ -9,6 +9,7 @@
 #	include <libstored/macros.h>
 #	include <libstored/util.h>
 
+#	include <algorithm>
 #	include <new>
 
 namespace stored {
@@ -31,7 +32,7 @@ namespace stored {
  * \tparam MaxSize the maximum total size to be allocated, which is used to
  *         determine the type of the internal counters.
  */
-template <size_t MaxSize = 0xffff>
+template <size_t MaxSize = (size_t)0xffffffffUL>
 class ScratchPad {
 	STORED_CLASS_NOCOPY(ScratchPad)
 public:
@@ -353,9 +354,7 @@ private:
 			// We don't know m_size. Assume that this is part of a rollback(), which
 			// will set it properly. Set it at worst-case now, such that the assert
 			// above may trigger.
-			size_t b = bufferSize();
-			stored_assert(b <= maxSize);
-			m_size = (size_type)b;
+			m_size = (size_type)std::min<size_t>(bufferSize(), MaxSize);
 		}
 	}
 
@@ -519,6 +518,15 @@ public:
 	__attribute__((malloc, returns_nonnull, warn_unused_result)) T*
 	alloc(size_t count = 1, size_t align = sizeof(T))
 	{
+		if(unlikely(count > MaxSize / sizeof(T))) {
+			// Does not fit in the counters.
+#	ifdef STORED_cpp_exceptions
+			throw std::bad_alloc();
+#	else
+			std::terminate();
+#	endif
+		}
+
 		size_t alloc_size = count * sizeof(T);
 		if(unlikely(alloc_size == 0)) {
 			if(unlikely(!m_buffer))
@@ -532,8 +540,8 @@ public:
 		if(padding == align)
 			padding = 0;
 
-		if(unlikely(m_total + alloc_size + padding < m_total)) {
-			// Wrap around -> overflow.
+		if(unlikely(padding > MaxSize - m_total || alloc_size > MaxSize - m_total - padding)) {
+			// Counters would overflow.
 #	ifdef STORED_cpp_exceptions
 			throw std::bad_alloc();
 #	else
-- 
2.43.0


From 8f5208295a79180b64cb3cc5e2ce4a760a7e593f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 042/102] fix: Crc16Layer::mtu() did not leave room for the CRC
 for an MTU of 257 bytes

---
 src/protocol.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index f3d4606..b3af0ac 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1440,7 +1440,7 @@ uint16_t Crc16Layer::compute(uint8_t input, uint16_t crc)
 size_t Crc16Layer::mtu() const
 {
 	size_t mtu = base::mtu();
-	if(mtu == 0 || mtu > 256U)
+	if(mtu == 0 || mtu > 256U + 2U)
 		return 256U;
 	if(mtu <= 3U)
 		return 1U;
-- 
2.43.0


From 69fd3ab895bd16307e80872c9dd638c8309e48cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:01 +0000
Subject: [PATCH 043/102] fix: TerminalLayer mixed up an ESC before, or split
 from, the start of a message with other data

---
 src/protocol.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index b3af0ac..ad0846e 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -245,8 +245,16 @@ void TerminalLayer::decode(void* buffer, size_t len)
 						i - nonDebugOffset - 1); // Also skip the ESC
 				m_decodeState = StateDebug;
 				nonDebugOffset = len;
-			} else
-				m_decodeState = StateNormal;
+			} else {
+				if(i == 0) {
+					// The previous buffer ended with an ESC, which was held back.
+					char esc = Esc;
+					nonDebugDecode(&esc, sizeof(esc));
+				}
+				// Another ESC may also be the start of a message.
+				if(c != Esc)
+					m_decodeState = StateNormal;
+			}
 			break;
 		case StateDebug:
 			if(unlikely(c == Esc))
@@ -269,6 +277,10 @@ void TerminalLayer::decode(void* buffer, size_t len)
 		}
 	}
 
+	// Hold back a trailing ESC, as it may be the start of a message.
+	if(len > 0 && m_decodeState == StateNormalEsc)
+		len--;
+
 	if(nonDebugOffset < len)
 		nonDebugDecode(static_cast<char*>(buffer) + nonDebugOffset, len - nonDebugOffset);
 }
-- 
2.43.0


From d4e9dca21c4c054777767f82f837f1b07f1b34dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:19 +0000
Subject: [PATCH 044/102] fix: protocol layers mixed up messages when called
 recursively from within decode()

---
 src/protocol.cpp | 49 +++++++++++++++++++++++++++++++++++++-----------
 1 file changed, 38 insertions(+), 11 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index ad0846e..3ceae2d 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -264,10 +264,20 @@ void TerminalLayer::decode(void* buffer, size_t len)
 			break;
 		case StateDebugEsc:
 			if(likely(c == EscEnd)) {
-				base::decode(m_buffer.data(), m_buffer.size());
+				// Update administration first, as the upper layers may trigger
+				// recursive calls to this function.
 				m_decodeState = StateNormal;
-				m_buffer.clear();
 				nonDebugOffset = i + 1;
+
+				Vector<char>::type msg;
+				msg.swap(m_buffer);
+				base::decode(msg.data(), msg.size());
+
+				if(m_buffer.empty()) {
+					// Reuse memory.
+					msg.clear();
+					m_buffer.swap(msg);
+				}
 			} else {
 				m_decodeState = StateDebug;
 				m_buffer.push_back((char)Esc);
@@ -408,8 +418,17 @@ void SegmentationLayer::decode(void* buffer, size_t len)
 
 		if(buffer_[len - 1] == EndMarker) {
 			// Got it.
-			base::decode(m_decode.data(), m_decode.size());
-			m_decode.clear();
+			// Do not touch m_decode during the decode, as the upper layers may trigger
+			// recursive calls to this function.
+			Vector<char>::type msg;
+			msg.swap(m_decode);
+			base::decode(msg.data(), msg.size());
+
+			if(m_decode.empty()) {
+				// Reuse memory.
+				msg.clear();
+				m_decode.swap(msg);
+			}
 		}
 	} else {
 		// Full packet is in buffer. Forward immediately.
@@ -440,8 +459,8 @@ void SegmentationLayer::encode(void const* buffer, size_t len, bool last)
 		if(chunk == remaining && len) {
 			// Full MTU.
 			char cont = ContinueMarker;
-			base::encode(&cont, 1, true);
 			m_encoded = 0;
+			base::encode(&cont, 1, true);
 		} else {
 			// Partial MTU. Record that we already filled some of the packet.
 			m_encoded += chunk;
@@ -451,8 +470,8 @@ void SegmentationLayer::encode(void const* buffer, size_t len, bool last)
 	if(last) {
 		// The marker always ends the packet.
 		char end = EndMarker;
-		base::encode(&end, 1, true);
 		m_encoded = 0;
+		base::encode(&end, 1, true);
 	}
 }
 
@@ -1341,8 +1360,9 @@ void Crc8Layer::encode(void const* buffer, size_t len, bool last)
 	base::encode(buffer, len, false);
 
 	if(last) {
-		base::encode(&m_crc, 1, true);
+		uint8_t crc = m_crc;
 		m_crc = init;
+		base::encode(&crc, 1, true);
 	}
 }
 
@@ -1438,8 +1458,8 @@ void Crc16Layer::encode(void const* buffer, size_t len, bool last)
 
 	if(last) {
 		uint8_t crc[2] = {(uint8_t)(m_crc >> 8U), (uint8_t)m_crc};
-		base::encode(crc, sizeof(crc), true);
 		m_crc = init;
+		base::encode(crc, sizeof(crc), true);
 	}
 }
 
@@ -1510,9 +1530,16 @@ void BufferLayer::encode(void const* buffer, size_t len, bool last)
 			base::encode(buffer_, len, last);
 		} else {
 			// Got already something in the buffer. Concat and forward.
-			m_buffer.append(buffer_, len);
-			base::encode(m_buffer.data(), m_buffer.size(), last);
-			m_buffer.clear();
+			String::type msg;
+			msg.swap(m_buffer);
+			msg.append(buffer_, len);
+			base::encode(msg.data(), msg.size(), last);
+
+			if(m_buffer.empty()) {
+				// Reuse memory.
+				msg.clear();
+				m_buffer.swap(msg);
+			}
 		}
 	} else {
 		// Save for later.
-- 
2.43.0


From 195d8b7a66ab50499c1a026286ba0912e6f378db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:00 +0000
Subject: [PATCH 045/102] fix: ArqLayer could exchange resets endlessly

A retransmitted reset made both sides reset each other over and over again
(ack 0 + reset in one message is the response to our reset).
---
 src/protocol.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 3ceae2d..df7a0f1 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -563,11 +563,17 @@ void ArqLayer::decode(void* buffer, size_t len)
 				if(unlikely((hdr & SeqMask) == 0)) {
 					// This is an ack to our reset message. We are connected
 					// now.
-					reconnect = true;
 					base::connected();
 				}
 			}
 
+			if(unlikely((hdr & SeqMask) == 0)) {
+				// The other side has seen our reset message. So, a reset in the
+				// same message is the response to it, which does not require us
+				// to reset again, even if we got an ack before.
+				reconnect = true;
+			}
+
 			buffer_++;
 			len--;
 		} else if(likely((hdr & SeqMask) == m_recvSeq)) {
-- 
2.43.0


From ef3675e8f0f1781cf7e65b71aeea69e0a692ee8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:07 +0000
Subject: [PATCH 046/102] fix: DebugArqLayer ignored the next request after an
 incomplete retransmit

---
 src/protocol.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index df7a0f1..8159731 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1025,6 +1025,7 @@ void DebugArqLayer::decode(void* buffer, size_t len)
 
 	switch(m_decodeState) {
 	case DecodeStateDecoded:
+	case DecodeStateRetransmit:
 		stored_assert(
 			m_encodeState == EncodeStateIdle
 			|| m_encodeState == EncodeStateUnbufferedIdle);
@@ -1038,8 +1039,7 @@ void DebugArqLayer::decode(void* buffer, size_t len)
 			setPurgeableResponse(false);
 			break;
 		}
-		STORED_FALLTHROUGH
-	case DecodeStateRetransmit:
+
 		if(seq == m_decodeSeqStart) {
 			// This seems to be a retransmit of the current command.
 			switch(m_encodeState) {
-- 
2.43.0


From 6d5749f68fafb0b53bd1113824db159ab8190b5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:00 +0000
Subject: [PATCH 047/102] fix: part of a request before a client's reset was
 mixed with the next request

---
 include/libstored/protocol.h | 1 +
 src/protocol.cpp             | 9 +++++++++
 2 files changed, 10 insertions(+)

diff --git a/include/libstored/protocol.h b/include/libstored/protocol.h
index 1a28795..4f20b99 100644
--- a/include/libstored/protocol.h
+++ b/include/libstored/protocol.h
@@ -448,6 +448,7 @@ public:
 	size_t mtu() const final;
 	size_t lowerMtu() const;
 	virtual void reset() override;
+	virtual void connected() override;
 
 private:
 	size_t m_mtu;
diff --git a/src/protocol.cpp b/src/protocol.cpp
index 8159731..0d13bce 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -402,6 +402,13 @@ size_t SegmentationLayer::lowerMtu() const
 		return std::min<size_t>(m_mtu, lower_mtu);
 }
 
+void SegmentationLayer::connected()
+{
+	// The remainder of a partially received message is not going to come anymore.
+	m_decode.clear();
+	base::connected();
+}
+
 void SegmentationLayer::decode(void* buffer, size_t len)
 {
 	if(len == 0)
@@ -1018,6 +1025,8 @@ void DebugArqLayer::decode(void* buffer, size_t len)
 		m_decodeSeq = nextSeq(seq);
 		m_encodeSeq = 1;
 		setPurgeableResponse(false);
+		// Let the layers above drop the part of the request that was received before.
+		base::connected();
 		uint8_t ack = ResetFlag;
 		base::encode(&ack, sizeof(ack), true);
 		m_encodeSeqReset = false;
-- 
2.43.0


From 5d43599e9145ea0b63cf27b9895bfcfd0578adba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 048/102] fix: CompressLayer only decoded the first message
 properly

---
 src/compress.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/compress.cpp b/src/compress.cpp
index 162648d..948d992 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -76,6 +76,8 @@ void CompressLayer::decode(void* buffer, size_t len)
 
 	m_state |= (uint8_t)FlagDecoding;
 
+	// Every message is compressed separately. Drop the padding of the previous one.
+	heatshrink_decoder_reset(&decoder());
 	m_decodeBufferSize = 0;
 
 	uint8_t* in_buf = static_cast<uint8_t*>(buffer);
-- 
2.43.0


From 681b4cfa5f65592f154163ee07a11d2f3772674c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:33 +0000
Subject: [PATCH 049/102] fix: CompressLayer kept a partial message upon a
 reset

---
 include/libstored/compress.h |  1 +
 src/compress.cpp             | 13 +++++++++++++
 2 files changed, 14 insertions(+)

diff --git a/include/libstored/compress.h b/include/libstored/compress.h
index 7b77792..22a71c4 100644
--- a/include/libstored/compress.h
+++ b/include/libstored/compress.h
@@ -64,6 +64,7 @@ public:
 	using base::encode;
 #		endif
 	virtual size_t mtu() const override;
+	virtual void reset() override;
 
 	void setPurgeableResponse(bool purgeable = true) final
 	{
diff --git a/src/compress.cpp b/src/compress.cpp
index 948d992..ee66de0 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -56,6 +56,19 @@ CompressLayer::~CompressLayer()
 		heatshrink_decoder_free(&decoder());
 }
 
+void CompressLayer::reset()
+{
+	if(m_encoder)
+		heatshrink_encoder_reset(&encoder());
+
+	if(m_decoder)
+		heatshrink_decoder_reset(&decoder());
+
+	m_decodeBufferSize = 0;
+	m_state = 0;
+	base::reset();
+}
+
 void CompressLayer::decode(void* buffer, size_t len)
 {
 	stored_assert(len == 0 || buffer);
-- 
2.43.0


From d898c622cfa4ddb6a7288f0c6850e23c15d5dce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:34 +0000
Subject: [PATCH 050/102] fix: CompressLayer overwrote a message when called
 recursively from within decode()

---
 src/compress.cpp | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/compress.cpp b/src/compress.cpp
index ee66de0..f616d23 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -109,8 +109,19 @@ void CompressLayer::decode(void* buffer, size_t len)
 	while(heatshrink_decoder_finish(&decoder()) == HSDR_FINISH_MORE)
 		decoderPoll();
 
-	base::decode(m_decodeBuffer.data(), m_decodeBufferSize);
+	// Do not touch the message during the decode, as the upper layers may trigger recursive calls
+	// to this function.
+	Vector<uint8_t>::type msg;
+	msg.swap(m_decodeBuffer);
+	size_t size = m_decodeBufferSize;
+	m_decodeBufferSize = 0;
 	m_state &= (uint8_t) ~(uint8_t)FlagDecoding;
+
+	base::decode(msg.data(), size);
+
+	if(m_decodeBuffer.empty())
+		// Reuse memory.
+		m_decodeBuffer.swap(msg);
 }
 
 /*!
-- 
2.43.0


From f350d7d70ffca8c54a3ab4288f06a545d1b28e39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:46 +0000
Subject: [PATCH 051/102] fix: CompressLayer could not encode a response from
 within encode()

---
 src/compress.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/compress.cpp b/src/compress.cpp
index f616d23..562f6b9 100644
--- a/src/compress.cpp
+++ b/src/compress.cpp
@@ -188,9 +188,10 @@ void CompressLayer::encode(void const* buffer, size_t len, bool last)
 	if(last) {
 		while(heatshrink_encoder_finish(&encoder()) == HSER_FINISH_MORE)
 			encoderPoll();
-		base::encode(nullptr, 0, true);
 		heatshrink_encoder_reset(&encoder());
 		m_state &= (uint8_t) ~(uint8_t)FlagEncoding;
+		// As a response may be encoded immediately, be ready for a new message.
+		base::encode(nullptr, 0, true);
 	}
 }
 
-- 
2.43.0


From 40cc02ba98a7ab5513c3eab403dc670b11067957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 052/102] fix: Callable: do not destroy the wrapper when
 copying the functor threw

---
 include/libstored/allocator.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libstored/allocator.h b/include/libstored/allocator.h
index 9b498e4..1e5fb0f 100644
--- a/include/libstored/allocator.h
+++ b/include/libstored/allocator.h
@@ -338,7 +338,8 @@ protected:
 					f.m_w->clone(w);
 					m_w = w;
 				} catch(...) {
-					cleanup(w);
+					// There is no object in w yet.
+					deallocate(w);
 #    ifdef STORED_cpp_exceptions
 					throw;
 #    endif
-- 
2.43.0


From fc4f12b107c53794a9c4bf43976b84b662e478a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 053/102] fix: Callable: memory leak when constructing a large
 functor throws

---
 include/libstored/allocator.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/libstored/allocator.h b/include/libstored/allocator.h
index 1e5fb0f..4d7df1a 100644
--- a/include/libstored/allocator.h
+++ b/include/libstored/allocator.h
@@ -303,8 +303,18 @@ protected:
 				int>::type = 0>
 		// NOLINTNEXTLINE(misc-forwarding-reference-overload,bugprone-forwarding-reference-overload)
 		explicit Forwarder(F_&& f)
-			: m_w{new(allocate<Wrapper<F>>()) Wrapper<F>(std::forward<F_>(f))}
-		{}
+			: m_w{}
+		{
+			auto w = allocate<Wrapper<F>>();
+			try {
+				m_w = new(w) Wrapper<F>(std::forward<F_>(f));
+			} catch(...) {
+				deallocate(w);
+#    ifdef STORED_cpp_exceptions
+				throw;
+#    endif
+			}
+		}
 
 		explicit Forwarder(Wrapper<F>& w) noexcept
 			: m_w{&w}
-- 
2.43.0


From f555fe7b4a86db687021a1809a28c5301dfe3864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:33 +0000
Subject: [PATCH 054/102] fix: Callable: self-move assignment uses a destroyed
 object

---
 include/libstored/allocator.h | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/libstored/allocator.h b/include/libstored/allocator.h
index 4d7df1a..ed3ee70 100644
--- a/include/libstored/allocator.h
+++ b/include/libstored/allocator.h
@@ -457,9 +457,11 @@ public:
 
 	Callable& operator=(Callable&& c) noexcept
 	{
-		destroy();
-		c.get().move(m_buffer.data());
-		c = nullptr;
+		if(&c != this) {
+			destroy();
+			c.get().move(m_buffer.data());
+			c = nullptr;
+		}
 		return *this;
 	}
 
-- 
2.43.0


From 41fa035448ff6e88b19000d8efc66c7a1a80b804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 055/102] fix: Loopback bypasses the configured allocator

---
 src/protocol.cpp | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 0d13bce..729a72f 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1685,8 +1685,8 @@ impl::Loopback1::Loopback1(ProtocolLayer& from, ProtocolLayer& to)
  */
 impl::Loopback1::~Loopback1()
 {
-	// NOLINTNEXTLINE(cppcoreguidelines-owning-memory, cppcoreguidelines-no-malloc)
-	free(m_buffer);
+	if(m_buffer)
+		deallocate<char>(m_buffer, m_capacity);
 }
 
 void impl::Loopback1::reset()
@@ -1700,17 +1700,14 @@ void impl::Loopback1::reserve(size_t capacity)
 	if(likely(capacity <= m_capacity))
 		return;
 
-	// NOLINTNEXTLINE(cppcoreguidelines-owning-memory, cppcoreguidelines-no-malloc)
-	void* p = realloc(m_buffer, capacity);
-	if(unlikely(!p)) {
-#ifdef STORED_cpp_exceptions
-		throw std::bad_alloc();
-#else
-		std::terminate();
-#endif
+	char* p = allocate<char>(capacity);
+
+	if(m_buffer) {
+		memcpy(p, m_buffer, m_len);
+		deallocate<char>(m_buffer, m_capacity);
 	}
 
-	m_buffer = static_cast<char*>(p);
+	m_buffer = p;
 	m_capacity = capacity;
 }
 
-- 
2.43.0


From b351ef43f4fb1dbd62561b8565c33eac45f5d482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:58 +0000
Subject: [PATCH 056/102] fix: ZmqLayer bypasses the configured allocator

---
 src/zmq.cpp | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index 1de8a22..bb882b9 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -55,8 +55,8 @@ ZmqLayer::ZmqLayer(void* context, int type, ProtocolLayer* up, ProtocolLayer* do
  */
 ZmqLayer::~ZmqLayer()
 {
-	// NOLINTNEXTLINE(cppcoreguidelines-owning-memory,cppcoreguidelines-no-malloc)
-	free(m_buffer);
+	if(m_buffer)
+		deallocate<char>(static_cast<char*>(m_buffer), m_bufferCapacity);
 
 	zmq_close(m_socket);
 
@@ -208,12 +208,24 @@ int ZmqLayer::recv1(long timeout_us)
 		size_t newBufferSize = m_bufferSize + msgSize;
 
 		if(newBufferSize > m_bufferCapacity) {
-			// NOLINTNEXTLINE(cppcoreguidelines-no-malloc,cppcoreguidelines-owning-memory)
-			void* p = realloc(m_buffer, newBufferSize);
-			if(!p) {
+			char* p = nullptr;
+
+#	ifdef STORED_cpp_exceptions
+			try {
+				p = allocate<char>(newBufferSize);
+			} catch(std::bad_alloc const&) {
 				res = ENOMEM;
 				goto error_buffer;
 			}
+#	else
+			p = allocate<char>(newBufferSize);
+#	endif
+
+			if(m_buffer) {
+				memcpy(p, m_buffer, m_bufferSize);
+				deallocate<char>(
+					static_cast<char*>(m_buffer), m_bufferCapacity);
+			}
 
 			m_buffer = p;
 			m_bufferCapacity = newBufferSize;
-- 
2.43.0


From 61db579fad1ba81e6af850413bf36780cd28a82a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 057/102] fix: Debugger leaks a stream when registering it
 fails

---
 src/debugger.cpp | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index f51bed6..6c045ff 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -1288,9 +1288,20 @@ Stream<>* Debugger::stream(char s, bool alloc)
 
 		if(m_streams.size() < Config::DebuggerStreams) {
 			// Add a new stream.
-			return m_streams
-				.insert(std::make_pair(s, recycle ? recycle : new Stream<>()))
-				.first->second;
+			if(!recycle)
+				recycle = new Stream<>(); // NOLINT(cppcoreguidelines-owning-memory)
+
+			try {
+				m_streams.insert(std::make_pair(s, recycle));
+			} catch(...) {
+				// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
+				delete recycle;
+#ifdef STORED_cpp_exceptions
+				throw;
+#endif
+			}
+
+			return recycle;
 		} else {
 			// Out of buffers.
 			stored_assert(!recycle);
-- 
2.43.0


From cf51612e78d2263518cd87ffa2130ec0d2626192 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 058/102] fix: memory leak of a pipe that cannot be added to
 its group

---
 include/libstored/pipes.h | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 23d384a..35dd819 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -1077,6 +1077,27 @@ public:
 	}
 };
 
+namespace impl {
+
+/*!
+ * \brief Let the group manage the pipe, or delete it when that fails.
+ */
+template <typename P>
+void manage(Group& group, P* p)
+{
+	try {
+		group.add(*p);
+	} catch(...) {
+		// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
+		delete p;
+#	ifdef STORED_cpp_exceptions
+		throw;
+#	endif
+	}
+}
+
+} // namespace impl
+
 template <typename... S_>
 // NOLINTNEXTLINE(cppcoreguidelines-rvalue-reference-param-not-moved)
 constexpr auto operator>>(Segments<S_...>&& s, Cap&& e)
@@ -1091,7 +1112,7 @@ constexpr auto& operator>>(Segments<S_...>&& s, Ref&& e)
 {
 	// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
 	auto* p = new SpecificCappedPipe<Segments<S_...>>{std::move(s)};
-	e.group.add(*p);
+	impl::manage(e.group, p);
 	return *p;
 }
 
-- 
2.43.0


From 33962f2749116953dfc8e363e01c8c8cbd02149a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:44 +0000
Subject: [PATCH 059/102] fix: memory leak of a connection that cannot be
 registered

---
 src/synchronizer.cpp | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/synchronizer.cpp b/src/synchronizer.cpp
index 1973583..0e425d4 100644
--- a/src/synchronizer.cpp
+++ b/src/synchronizer.cpp
@@ -1571,7 +1571,17 @@ SyncConnection const& Synchronizer::connect(ProtocolLayer& connection)
 {
 	// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
 	SyncConnection* c = new SyncConnection(*this, connection);
-	m_connections.insert(c);
+
+	try {
+		m_connections.insert(c);
+	} catch(...) {
+		// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
+		delete c;
+#ifdef STORED_cpp_exceptions
+		throw;
+#endif
+	}
+
 	return *c;
 }
 
-- 
2.43.0


From 94d21fbe5b190eab739fe0a6e1bb29e10182c04a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:24 +0000
Subject: [PATCH 060/102] fix: memory leak of a debugged store that cannot be
 mapped

---
 src/debugger.cpp | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/debugger.cpp b/src/debugger.cpp
index 6c045ff..31cb2ba 100644
--- a/src/debugger.cpp
+++ b/src/debugger.cpp
@@ -171,7 +171,15 @@ void Debugger::map(DebugStoreBase* store, char const* name)
 
 	if(it == m_map.end()) {
 		// New; insert.
-		m_map.insert(StoreMap::value_type(name, store));
+		try {
+			m_map.insert(StoreMap::value_type(name, store));
+		} catch(...) {
+			// NOLINTNEXTLINE(cppcoreguidelines-owning-memory)
+			delete store;
+#ifdef STORED_cpp_exceptions
+			throw;
+#endif
+		}
 	} else {
 		// Replace previous mapping.
 		DebugStoreBase* old = it->second;
-- 
2.43.0


From 8d8389b4d0e936fd3f8c3e1671845332fc3c1c7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:15 +0000
Subject: [PATCH 061/102] fix: SyncConnection bypasses the configured allocator

---
 include/libstored/synchronizer.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libstored/synchronizer.h b/include/libstored/synchronizer.h
index cb1ce39..c2b32ba 100644
--- a/include/libstored/synchronizer.h
+++ b/include/libstored/synchronizer.h
@@ -595,6 +595,7 @@ class Synchronizer;
  */
 class SyncConnection : public ProtocolLayer {
 	STORED_CLASS_NOCOPY(SyncConnection)
+	STORED_CLASS_NEW_DELETE(SyncConnection)
 public:
 	typedef ProtocolLayer base;
 	typedef uint16_t Id;
-- 
2.43.0


From 9ea6553f4e9c9730bd431b09abeddbef3db1325b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:31 +0000
Subject: [PATCH 062/102] fix: Signalling: call the connected functions after
 the exclusive access

A connected function that accesses any variable of the store, even the
one that changed, triggered the nested access assert.
---
 include/libstored/signal.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/libstored/signal.h b/include/libstored/signal.h
index fd9e216..7a0b96f 100644
--- a/include/libstored/signal.h
+++ b/include/libstored/signal.h
@@ -223,13 +223,15 @@ public:
 
 	void __hookExitX(Type::type type, void* buffer, size_t len, bool changed) noexcept
 	{
+		// Finish the exclusive access first, as the connected functions
+		// may want to access the store too.
+		Base::__hookExitX(type, buffer, len, changed);
+
 		if(changed) {
 			// The lookup is linear in the number of connected
 			// functions with this key.
 			m_signal(this->bufferToKey(buffer));
 		}
-
-		Base::__hookExitX(type, buffer, len, changed);
 	}
 
 private:
-- 
2.43.0


From 4d02322852295a85a610f86fe50fd64ab3cc00a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 063/102] fix: stale Pollable::revents after a poll

When the poll timed out, or the last pollables were not triggered, their
revents still held the value of an earlier poll.
---
 src/poller.cpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/poller.cpp b/src/poller.cpp
index 46aee9e..a9df74c 100644
--- a/src/poller.cpp
+++ b/src/poller.cpp
@@ -375,13 +375,12 @@ int ZmqPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 		// Error.
 		return errno;
 
-	for(size_t i = 0; res > 0 && i < items.size(); i++) {
+	// Also report those without events, to update their revents.
+	for(size_t i = 0; i < items.size(); i++) {
 		zmq_pollitem_t& item = items[i];
 		Pollable::Events revents = 0;
 
 		if(item.revents) {
-			res--;
-
 			try {
 				if(item.revents & ZMQ_POLLIN) // NOLINT(hicpp-signed-bitwise)
 					revents.set(Pollable::PollInIndex);
@@ -448,13 +447,12 @@ int PollPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 		// Error.
 		return errno;
 
-	for(size_t i = 0; res > 0 && i < items.size(); i++) {
+	// Also report those without events, to update their revents.
+	for(size_t i = 0; i < items.size(); i++) {
 		struct pollfd& item = items[i];
 		Pollable::Events revents = 0;
 
 		if(item.revents) {
-			res--;
-
 			try {
 				if(item.revents & POLLIN) // NOLINT(hicpp-signed-bitwise)
 					revents.set(Pollable::PollInIndex);
@@ -548,6 +546,7 @@ int LoopPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 				event(revents, i);
 				break;
 			case EAGAIN:
+				event(0, i);
 				break;
 			default:
 				if(!res)
-- 
2.43.0


From 975f66cf74ef1eac44908f17511fefaf5d1cd71d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 064/102] fix: PollPoller did not report an invalid file
 descriptor

poll() returned immediately (even without timeout), without any result.
Report PollErr, like ZmqPoller does.
---
 src/poller.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/poller.cpp b/src/poller.cpp
index a9df74c..5496d83 100644
--- a/src/poller.cpp
+++ b/src/poller.cpp
@@ -458,7 +458,7 @@ int PollPoller::doPoll(int timeout_ms, PollItemList& items) noexcept
 					revents.set(Pollable::PollInIndex);
 				if(item.revents & POLLOUT) // NOLINT(hicpp-signed-bitwise)
 					revents.set(Pollable::PollOutIndex);
-				if(item.revents & POLLERR) // NOLINT(hicpp-signed-bitwise)
+				if(item.revents & (POLLERR | POLLNVAL)) // NOLINT(hicpp-signed-bitwise)
 					revents.set(Pollable::PollErrIndex);
 				if(item.revents & POLLPRI) // NOLINT(hicpp-signed-bitwise)
 					revents.set(Pollable::PollPriIndex);
-- 
2.43.0


From c5353d673fc0bc5d34c0ad1995f8d6eadcc4d4ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 065/102] fix: Poller could not find a ZeroMQ socket to remove
 or modify

---
 include/libstored/poller.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 7a5c528..8e9cec4 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1169,8 +1169,7 @@ public:
 	struct compare_socket {
 		bool operator()(PollableZmqSocket const& p, void* socket) const
 		{
-			// NOLINTNEXTLINE(bugprone-multi-level-implicit-pointer-conversion)
-			return p.socket == (void*)&socket;
+			return p.socket == socket;
 		}
 	};
 
-- 
2.43.0


From 937e859ed89940b1adf9a529c3f6629609cc0270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 066/102] fix: Poller::modify() kept a stale pollable

Afterwards, remove() and modify() found the stale one, and the actual
one stayed registered.
---
 include/libstored/poller.h | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 8e9cec4..2be8de5 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1250,9 +1250,20 @@ private:
 
 		T* p = static_cast<T*>(*it);
 		stored_assert(p);
-		void* user_data = p->user_data;
-		remove(*p);
-		return add<T, A>(a, user_data, events);
+
+		int res = remove(*p);
+		if(!res) {
+			p->events = events;
+			res = add(*p);
+		}
+
+		if(res) {
+			delete p; // NOLINT(cppcoreguidelines-owning-memory)
+			*it = m_pollables.back();
+			m_pollables.pop_back();
+		}
+
+		return res;
 	}
 
 	template <typename T, typename A, typename C>
-- 
2.43.0


From 976a6f0dce4b5581e3069f45fb9235825293a348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 067/102] fix: Poller leaked a pollable when out of memory

---
 include/libstored/poller.h | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 2be8de5..77a26d5 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1233,12 +1233,20 @@ private:
 		T* p = new T(a, events, user_data); // NOLINT(cppcoreguidelines-owning-memory)
 		int res = add(*p);
 
-		if(res)
+		if(res) {
 			delete p; // NOLINT(cppcoreguidelines-owning-memory)
-		else
+			return res;
+		}
+
+		try {
 			m_pollables.push_back(p);
+		} catch(...) {
+			remove(*p);
+			delete p; // NOLINT(cppcoreguidelines-owning-memory)
+			return ENOMEM;
+		}
 
-		return res;
+		return 0;
 	}
 
 	template <typename T, typename A, typename C>
-- 
2.43.0


From a0b79fb197563a5c14c7b66c4f6017ec71b41a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:23 +0000
Subject: [PATCH 068/102] fix: the deprecated Poller::poll() did not wait for
 negative or sub-millisecond timeouts

---
 include/libstored/poller.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/libstored/poller.h b/include/libstored/poller.h
index 77a26d5..eee6546 100644
--- a/include/libstored/poller.h
+++ b/include/libstored/poller.h
@@ -1067,7 +1067,12 @@ public:
 	Result const& poll(long timeout_us, bool suspend = false)
 	{
 		STORED_UNUSED(suspend)
-		return base::poll((int)(timeout_us / 1000L));
+		if(timeout_us < 0)
+			// Block until there are events.
+			return base::poll(-1);
+
+		// Round up, to not return too early.
+		return base::poll((int)(timeout_us / 1000L + (timeout_us % 1000L ? 1 : 0)));
 	}
 
 	struct compare_fd {
-- 
2.43.0


From 0bec8c3b90aeca8d6fd216cf92be90c5350070ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 069/102] fix: block() did not detect that the peer is lost

It checked the requested events, instead of those that are returned by
the poller, and kept polling.
---
 src/protocol.cpp | 13 +++++++------
 src/zmq.cpp      | 13 +++++++------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 729a72f..160a4ae 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1842,15 +1842,16 @@ int PolledFileLayer::block(
 				// Should not happen.
 				err = EINVAL;
 			break;
-		} else if((pres[0]->events
-			   & (Pollable::Events)(Pollable::PollErr | Pollable::PollHup))
-				  .any()) {
+		} else if((pres[0]->revents & events).any()) {
+			// Got it.
+			break;
+		} else if(forReading) {
+			// Hang-up or error. Let the caller find out by reading.
+			break;
+		} else {
 			// Something is wrong with the pipe/socket.
 			err = EIO;
 			break;
-		} else if((pres[0]->events & events).any()) {
-			// Got it.
-			break;
 		}
 	}
 
diff --git a/src/zmq.cpp b/src/zmq.cpp
index bb882b9..1269d15 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -143,15 +143,16 @@ int ZmqLayer::block(bool forReading, long timeout_us, bool suspend)
 				err = EINVAL;
 			}
 			break;
-		} else if((pres[0]->events
-			   & (Pollable::Events)(Pollable::PollErr | Pollable::PollHup))
-				  .any()) {
+		} else if((pres[0]->revents & events).any()) {
+			// Got it.
+			break;
+		} else if(forReading) {
+			// Hang-up or error. Let the caller find out by reading.
+			break;
+		} else {
 			// Something is wrong with the socket.
 			err = EIO;
 			break;
-		} else if((pres[0]->events & events).any()) {
-			// Got it.
-			break;
 		}
 	}
 
-- 
2.43.0


From fd490c01715796f65752e1346633f4da20efb306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 070/102] fix: block() did not wait with an infinite or
 sub-millisecond timeout

So, encode() to a full pipe closed the pipe or lost the message, as did
recv(-1) when there was nothing to receive.
---
 src/protocol.cpp | 6 +++++-
 src/zmq.cpp      | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index 160a4ae..b721c76 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -1830,7 +1830,11 @@ int PolledFileLayer::block(
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		Poller::Result const& pres = poller.poll(
+			timeout_us < 0 ? -1 /* forever */
+				       // Round up, to not return too early.
+				       : (int)(timeout_us / 1000L
+					       + (timeout_us % 1000L ? 1 : 0)));
 
 		if(pres.empty()) {
 			if(timeout_us <= 0 && errno == EINTR)
diff --git a/src/zmq.cpp b/src/zmq.cpp
index 1269d15..486460c 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -134,7 +134,11 @@ int ZmqLayer::block(bool forReading, long timeout_us, bool suspend)
 	}
 
 	while(true) {
-		Poller::Result const& pres = poller.poll((int)(timeout_us / 1000L));
+		Poller::Result const& pres = poller.poll(
+			timeout_us < 0 ? -1 /* forever */
+				       // Round up, to not return too early.
+				       : (int)(timeout_us / 1000L
+					       + (timeout_us % 1000L ? 1 : 0)));
 
 		if(pres.empty()) {
 			err = errno;
-- 
2.43.0


From 478caa3f1bfb3d84badc887048575645132d2189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 071/102] fix: FileLayer and ZmqLayer gave up upon an
 interrupted system call

---
 src/protocol.cpp | 6 ++++++
 src/zmq.cpp      | 4 ++++
 2 files changed, 10 insertions(+)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index b721c76..aec280c 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -2093,6 +2093,9 @@ done:
 				// We should be able to write more now. Retry.
 				continue;
 			}
+			case EINTR:
+				// Interrupted. Retry.
+				continue;
 			default:
 				goto error;
 			}
@@ -2165,6 +2168,9 @@ again:
 			if(block(fd_r(), true, timeout_us))
 				return lastError();
 
+			goto again;
+		case EINTR:
+			// Interrupted. Retry.
 			goto again;
 		default:
 			close();
diff --git a/src/zmq.cpp b/src/zmq.cpp
index 486460c..3002a93 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -141,6 +141,10 @@ int ZmqLayer::block(bool forReading, long timeout_us, bool suspend)
 					       + (timeout_us % 1000L ? 1 : 0)));
 
 		if(pres.empty()) {
+			if(timeout_us <= 0 && errno == EINTR)
+				// Interrupted. Retry.
+				continue;
+
 			err = errno;
 			if(!err) {
 				// Should not happen.
-- 
2.43.0


From bc868f9fea59749e94e08fd07ada54fcce8c4145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:49 +0000
Subject: [PATCH 072/102] fix: ZmqLayer::encode() set the wrong error after
 blocking

---
 src/zmq.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/zmq.cpp b/src/zmq.cpp
index 3002a93..e47fff6 100644
--- a/src/zmq.cpp
+++ b/src/zmq.cpp
@@ -317,7 +317,7 @@ void ZmqLayer::encode(void const* buffer, size_t len, bool last)
 		// Socket should be writable now. This is a blocking call,
 		// but it should not block anymore.
 		// NOLINTNEXTLINE(cppcoreguidelines-pro-type-cstyle-cast)
-		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) != -1)
+		if(zmq_send(m_socket, (void*)buffer, len, last ? 0 : ZMQ_SNDMORE) == -1)
 			// Some error.
 			setLastError(errno);
 		else
-- 
2.43.0


From 2d121083a448d6959d7efc87f9c0cee27112cdc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:33 +0000
Subject: [PATCH 073/102] fix: SerialLayer did not wait for data

With VMIN=0, read() returns 0 instead of EAGAIN, such that recv() with
a timeout returned immediately.
---
 src/protocol.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/protocol.cpp b/src/protocol.cpp
index aec280c..4d9bc4a 100644
--- a/src/protocol.cpp
+++ b/src/protocol.cpp
@@ -3805,7 +3805,9 @@ SerialLayer::SerialLayer(
 		return;
 #    endif
 	}
-	config.c_cc[VMIN] = 0;
+	// As the fd is O_NONBLOCK, read() returns EAGAIN when there is no data.
+	// With VMIN=0, it would return 0, which cannot be distinguished from EOF.
+	config.c_cc[VMIN] = 1;
 	config.c_cc[VTIME] = 0;
 
 	speed_t speed = baud_to_speed_t(baud);
-- 
2.43.0


From c1cfdc999023563933a726e6bdb7702ae4c42052 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:27 +0000
Subject: [PATCH 074/102] fix: pipes::Cast between equal numeric types was
 ambiguous

---
 include/libstored/pipes.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 35dd819..f919d3b 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -1302,8 +1302,11 @@ public:
 	}
 };
 
-template <typename T, bool is_number>
-class Cast<T, T, is_number> : public Identity<T> {};
+template <typename T>
+class Cast<T, T, true> : public Identity<T> {};
+
+template <typename T>
+class Cast<T, T, false> : public Identity<T> {};
 
 } // namespace impl
 
-- 
2.43.0


From bf7de55d3360ccc602e3ddd21688b3159a71d957 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 075/102] fix: moving a pipes::ExitValue did not move its value

---
 include/libstored/pipes.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index f919d3b..42710d0 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -787,7 +787,7 @@ public:
 	ExitValue(ExitValue&& v) noexcept
 		: m_p{v.m_p}
 	{
-		if(m_p)
+		if(!m_p)
 			new(m_v.data()) type{std::move(v.value())};
 	}
 
-- 
2.43.0


From bc9a7260b0cd2dca565dfa870123715878cd9811 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 076/102] fix: pipes: exit_cast() and entry_cast() may return a
 dangling reference

---
 include/libstored/pipes.h | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 42710d0..335a57f 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -539,6 +539,13 @@ public:
 			std::decay_t<typename segment_traits<Last>::type_out>,
 			typename segment_traits<Last>::type_out>;
 
+private:
+	// The type to be returned for a cast from A to B. If A is not a reference, B may be a
+	// reference to this temporary A. So, return B by value in that case.
+	template <typename A, typename B>
+	using cast_type =
+		std::conditional_t<std::is_reference<A>::value, B, std::decay_t<B>>;
+
 protected:
 	template <typename... S_, typename SN_>
 	constexpr explicit Segments(Segments<S_...>&& init, SN_&& last)
@@ -563,14 +570,22 @@ public:
 
 	decltype(auto) exit_cast(type_in x) const
 	{
-		return Last::exit_cast(Init::exit_cast(x));
+		return static_cast<cast_type<
+			decltype(std::declval<Init const&>().exit_cast(x)),
+			decltype(std::declval<Last const&>().exit_cast(
+				std::declval<Init const&>().exit_cast(x)))>>(
+			Last::exit_cast(Init::exit_cast(x)));
 	}
 
 	static constexpr bool has_exit_cast = Init::has_exit_cast || Last::has_exit_cast;
 
 	decltype(auto) entry_cast(type_out x) const
 	{
-		return Init::entry_cast(Last::entry_cast(x));
+		return static_cast<cast_type<
+			decltype(std::declval<Last const&>().entry_cast(x)),
+			decltype(std::declval<Init const&>().entry_cast(
+				std::declval<Last const&>().entry_cast(x)))>>(
+			Init::entry_cast(Last::entry_cast(x)));
 	}
 
 	static constexpr bool has_entry_cast = Init::has_entry_cast || Last::has_entry_cast;
-- 
2.43.0


From 8507901c5cd98a232d2fd22891ceaf473df9acf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 077/102] fix: pipes::RateLimit did not keep the interval after
 a trigger

---
 include/libstored/pipes.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 335a57f..c502be4 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -2740,6 +2740,7 @@ public:
 			*triggered = true;
 
 		m_changed = false;
+		m_suppress = now + m_interval;
 		m_p->inject(m_value);
 		return m_value;
 	}
-- 
2.43.0


From f5311479c594109b3851fbbfd6bab528b67b5c23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:32 +0000
Subject: [PATCH 078/102] fix: pipes::similar_to overflowed for integers

---
 include/libstored/pipes.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index c502be4..832f600 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -2053,11 +2053,18 @@ template <typename T, unsigned int order>
 struct similar_to<T, order, false> {
 	bool operator()(T const& a, T const& b) const
 	{
-		T margin = std::max(std::abs(a), std::abs(b))
-			   / static_cast<T>(impl::pow<10, order>::value);
-		T diff = std::abs(a - b);
+		// Do the computation in an unsigned type, such that it cannot overflow.
+		unsigned long long margin = std::max(abs(a), abs(b)) / impl::pow<10, order>::value;
+		unsigned long long diff = a < b ? (unsigned long long)b - (unsigned long long)a
+						: (unsigned long long)a - (unsigned long long)b;
 		return diff <= margin;
 	}
+
+private:
+	static unsigned long long abs(T const& x)
+	{
+		return x < T{} ? 0ULL - (unsigned long long)x : (unsigned long long)x;
+	}
 };
 } // namespace impl
 
-- 
2.43.0


From a391e868196695f9daa17488198b7eab8beabf68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 079/102] fix: PinIn::input() accessed the input object when
 not available

---
 include/libstored/components.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index e5d6e0c..d85055b 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -1807,7 +1807,7 @@ public:
 	 * \brief Return the last computed \c input value, or compute the pin state when the object
 	 *	is not available.
 	 */
-	template <char I = 'i', std::enable_if_t<Bound::template has<I>(), int> = 0>
+	template <char I = 'i', std::enable_if_t<Bound::template valid<I>(), int> = 0>
 	bool input() const noexcept
 	{
 		return inputObject().get();
@@ -1817,7 +1817,7 @@ public:
 	 * \brief Return the last computed \c input value, or compute the pin state when the object
 	 *	is not available.
 	 */
-	template <char I = 'i', std::enable_if_t<!Bound::template has<I>(), int> = 0>
+	template <char I = 'i', std::enable_if_t<!Bound::template valid<I>(), int> = 0>
 	bool input() noexcept
 	{
 		return (*this)();
-- 
2.43.0


From 92cf6d680b495365aee6d56d8b904127f3332236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 080/102] fix: integer Amplifier without override always
 returned 0

---
 include/libstored/components.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index d85055b..1582953 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -1635,12 +1635,12 @@ protected:
 	{
 		type output = override_();
 
-		if(!std::isnan(output)) {
+		if(overrideObject().valid() && !std::isnan(output)) {
 			// Keep override value.
 		} else {
 			if(!enabled())
 				output = input;
-			else if(std::isnan(output))
+			else
 				output = input * gain() + offset();
 
 			output = std::min(std::max(low(), output), high());
-- 
2.43.0


From a9baee0661aaed9a6921fc8ff75d061ab9ef2851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:47 +0000
Subject: [PATCH 081/102] fix: HighPass doubled its first input

---
 include/libstored/components.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 1582953..fdee64d 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -3703,7 +3703,7 @@ protected:
 
 				if(unlikely(std::isnan(m_alpha))) {
 					doReset = true;
-					m_prev_output = input;
+					m_prev_input = m_prev_output = input;
 				}
 
 				if(unlikely(doReset)) {
-- 
2.43.0


From 9b2cde890b1e0239052b5502ca78952538bb363c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 082/102] fix: PID ignored its parameters when reset is
 initially false

---
 include/libstored/components.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index fdee64d..c66d2c3 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -2633,15 +2633,12 @@ protected:
 			if(!enabled())
 				return m_u;
 
-			bool doReset = false;
+			// Always initialize at the first run.
+			bool doReset = std::isnan(m_y_prev);
 			decltype(auto) reset_o = resetObject();
-			if(reset_o.valid()) {
-				if(unlikely(reset_o.get())) {
-					doReset = true;
-					reset_o = false;
-				}
-			} else if(unlikely(std::isnan(m_y_prev))) {
+			if(unlikely(reset_o.valid() && reset_o.get())) {
 				doReset = true;
+				reset_o = false;
 			}
 
 			type sp = setpoint();
-- 
2.43.0


From c748d07706b7095d18f08c1a4a7242f514e3c3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 083/102] fix: PID with a negative Kp was never healthy

---
 include/libstored/components.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index c66d2c3..ae275d4 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -2609,8 +2609,8 @@ public:
 	 */
 	bool isHealthy() const noexcept
 	{
-		auto k = Ki();
-		if(k == 0)
+		auto k = std::fabs(Ki());
+		if(!(k > 0))
 			return true;
 
 		auto e = epsilon();
-- 
2.43.0


From acad9b2d462ed45ccfe0f16a8d09358cfcc39339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 084/102] fix: PulseWave with a negative phase had a wrong duty
 cycle

---
 include/libstored/components.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index ae275d4..a51f96e 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -3333,6 +3333,8 @@ public:
 							+ phase() * ((type)1 / ((type)2 * pi<type>))
 								  * period,
 						period);
+				if(t < 0)
+					t += period;
 
 				if(t < pulse)
 					output = amplitude();
-- 
2.43.0


From ed964c207c05a9f2f0fec2f322cf7eea5ed93391 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 085/102] fix: Ramp lost its speed at a reset

---
 include/libstored/components.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index a51f96e..7993c2a 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4105,7 +4105,7 @@ protected:
 				}
 
 				m_adt = a * dt;
-				m_v_ = a > 0 ? (type_)std::lround(v / a) : 0;
+				m_v_ = m_adt > 0 ? (type_)std::lround(v / m_adt) : 0;
 				m_v_max_ =
 					a > 0 ? std::max<type_>(1, (type_)std::lround(sl / a)) : 0;
 				m_x_ = 0;
-- 
2.43.0


From 9eba124a56c2a0805cffe60a498b5a921cc35eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 086/102] fix: Ramp without speed limit ignored the
 acceleration limit

---
 include/libstored/components.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 7993c2a..532909b 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4099,15 +4099,20 @@ protected:
 				if(a == std::numeric_limits<type>::infinity()) {
 					// No speed and acceleration limit. Disable ramping.
 					a = 0;
-				} else if(a > 0) {
+				} else if(a > 0 && sl < std::numeric_limits<type>::infinity()) {
 					auto v_steps = std::lround(sl / a);
 					a = sl / (type)v_steps;
 				}
 
 				m_adt = a * dt;
 				m_v_ = m_adt > 0 ? (type_)std::lround(v / m_adt) : 0;
-				m_v_max_ =
-					a > 0 ? std::max<type_>(1, (type_)std::lround(sl / a)) : 0;
+				if(!(a > 0))
+					m_v_max_ = 0;
+				else if(sl < std::numeric_limits<type>::infinity())
+					m_v_max_ = std::max<type_>(1, (type_)std::lround(sl / a));
+				else
+					// No speed limit, but prevent overflow of m_x_stop_.
+					m_v_max_ = (type_)1 << (sizeof(type_) * 4 - 2);
 				m_x_ = 0;
 				m_x_stop_ = m_v_ * std::abs(m_v_) / 2;
 				m_start = m_x;
-- 
2.43.0


From dc80c31bb3eb6a744f3d9e4ab6bda64ff1e4d770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 087/102] fix: Ramp exceeded its acceleration limit

---
 include/libstored/components.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 532909b..8714efd 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4100,7 +4100,8 @@ protected:
 					// No speed and acceleration limit. Disable ramping.
 					a = 0;
 				} else if(a > 0 && sl < std::numeric_limits<type>::infinity()) {
-					auto v_steps = std::lround(sl / a);
+					// Round up, as the limit should not be exceeded.
+					auto v_steps = std::lround(std::ceil(sl / a));
 					a = sl / (type)v_steps;
 				}
 
-- 
2.43.0


From 6eafdb739d3bc62ab6a6770a3bdb17a09a1c34bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 088/102] fix: Ramp overflowed its speed while disabled

---
 include/libstored/components.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index 8714efd..b236de6 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4123,7 +4123,9 @@ protected:
 				output = input;
 			} else if(unlikely(!enabled())) {
 				m_start = output = input;
-				m_v_ = (type_)std::lround((output - m_x) / m_adt);
+				type v_max = (type)m_v_max_;
+				m_v_ = (type_)std::lround(
+					std::max(-v_max, std::min(v_max, (output - m_x) / m_adt)));
 				m_x_ = 0;
 				m_x_stop_ = m_v_ * std::abs(m_v_) / 2;
 			} else {
-- 
2.43.0


From 38edc0ac5ecf7e21cc4ea252dcf96e0003b360bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:09 +0000
Subject: [PATCH 089/102] fix: Ramp did not slow down when the speed limit was
 reduced

---
 include/libstored/components.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index b236de6..cb062ee 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4135,6 +4135,11 @@ protected:
 					// Close enough. Stop.
 					m_x_ = m_x_stop_ = m_v_ = 0;
 					output = m_start = input;
+				} else if(unlikely(m_v_ > m_v_max_)) {
+					// The speed limit was reduced. Slow down.
+					m_x_stop_ -= --m_v_;
+				} else if(unlikely(m_v_ < -m_v_max_)) {
+					m_x_stop_ -= ++m_v_;
 				} else if(err > 0) {
 					// Should be moving up towards target.
 					auto x_stop_ = m_x_stop_;
-- 
2.43.0


From 56fe340800071aba5e1ad5d8167fdc81d9120993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:19 +0000
Subject: [PATCH 090/102] fix: Ramp computed a wrong breaking distance at a
 reset

---
 include/libstored/components.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/libstored/components.h b/include/libstored/components.h
index cb062ee..571b2a9 100644
--- a/include/libstored/components.h
+++ b/include/libstored/components.h
@@ -4115,7 +4115,7 @@ protected:
 					// No speed limit, but prevent overflow of m_x_stop_.
 					m_v_max_ = (type_)1 << (sizeof(type_) * 4 - 2);
 				m_x_ = 0;
-				m_x_stop_ = m_v_ * std::abs(m_v_) / 2;
+				m_x_stop_ = m_v_ * (std::abs(m_v_) - 1) / 2;
 				m_start = m_x;
 			}
 
@@ -4127,7 +4127,7 @@ protected:
 				m_v_ = (type_)std::lround(
 					std::max(-v_max, std::min(v_max, (output - m_x) / m_adt)));
 				m_x_ = 0;
-				m_x_stop_ = m_v_ * std::abs(m_v_) / 2;
+				m_x_stop_ = m_v_ * (std::abs(m_v_) - 1) / 2;
 			} else {
 				auto err = input - m_x;
 
-- 
2.43.0


From 435f9213dafabd7af9e1e802c40a11bede8bf040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 091/102] fix: Python TerminalLayer.mtu raised NameError

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index c6a04df..3900902 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -219,7 +219,7 @@ class TerminalLayer(ProtocolLayer):
         m = super().mtu
         if m == 0:
             return 0
-        return max(1, m - len(start) - len(end))
+        return max(1, m - len(self.start) - len(self.end))
 
 class PubTerminalLayer(TerminalLayer):
     """
-- 
2.43.0


From 43d88bf25a5d119396dae402ca7b4f276f9f5cf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 092/102] fix: Python Crc16Layer ignored a byte of the CRC in
 the MTU

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index 3900902..c0bde53 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -507,7 +507,7 @@ class Crc16Layer(ProtocolLayer):
         m = super().mtu
         if m == 0:
             return 256
-        return min(256, max(1, m - 1))
+        return min(256, max(1, m - 2))
 
 class ProtocolStack(ProtocolLayer):
     name = 'stack'
-- 
2.43.0


From 6682b841bd97d5ea7603865d6d953fe589ff461f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:16 +0000
Subject: [PATCH 093/102] fix: Python DebugArqLayer dropped the retransmitted
 first response

---
 python/libstored/protocol.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/protocol.py b/python/libstored/protocol.py
index c0bde53..c9976d0 100644
--- a/python/libstored/protocol.py
+++ b/python/libstored/protocol.py
@@ -312,7 +312,7 @@ class DebugArqLayer(ProtocolLayer):
         if data[0] & self.reset_flag:
             self._decode_seq = seq
 
-        if self._req:
+        if self._req and not self._syncing:
             # We got a response, so the request should be finished now.
             self._req = False
             # This is the first part of the response.
-- 
2.43.0


From b7310878b798e0c5ce3c6950e0d789231291a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:29 +0000
Subject: [PATCH 094/102] Revert "fix: pipes::RateLimit did not keep the
 interval after a trigger"

This reverts commit 8507901c5cd98a232d2fd22891ceaf473df9acf8.
---
 include/libstored/pipes.h | 1 -
 1 file changed, 1 deletion(-)

diff --git a/include/libstored/pipes.h b/include/libstored/pipes.h
index 832f600..9680532 100644
--- a/include/libstored/pipes.h
+++ b/include/libstored/pipes.h
@@ -2747,7 +2747,6 @@ public:
 			*triggered = true;
 
 		m_changed = false;
-		m_suppress = now + m_interval;
 		m_p->inject(m_value);
 		return m_value;
 	}
-- 
2.43.0


From 01b07678a8c427ea3825063613b3adbc45d4a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:35 +0000
Subject: [PATCH 095/102] fix: attributes of Python ZmqClient all gave the last
 object

---
 python/libstored/zmq_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 7c44f99..69bc7ae 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1494,7 +1494,7 @@ class ZmqClient(QObject):
                 res.append(obj)
                 pyname = self.pyname(obj.name)
                 wobj = weakref.ref(obj)
-                setattr(ZmqClient, pyname, _Property(Object, lambda s, wobj=wobj: obj, constant=True))
+                setattr(ZmqClient, pyname, _Property(Object, lambda s, wobj=wobj: wobj(), constant=True))
 
         self._objects = res
 
-- 
2.43.0


From bed27a6c7f259b313bd6810ca084b93f2c324e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:12 +0000
Subject: [PATCH 096/102] fix: Python ZmqClient.readMem sent the length in
 decimal

---
 python/libstored/zmq_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 69bc7ae..826726c 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1612,7 +1612,7 @@ class ZmqClient(QObject):
         return self.req(b'v').decode()
 
     def readMem(self, pointer, size):
-        rep = self.req(('R%x %d' % (pointer, size)).encode()).decode()
+        rep = self.req(('R%x %x' % (pointer, size)).encode()).decode()
 
         if rep == '?':
             return None
-- 
2.43.0


From 78606443c503a01eba5ec3c8a4c6ac4394f224a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:32 +0000
Subject: [PATCH 097/102] fix: Python Macro used a macro that the server did
 not accept

---
 python/libstored/zmq_client.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 826726c..e5939d4 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -874,7 +874,11 @@ class Macro(object):
         if isinstance(cmd, str):
             cmd = cmd.encode()
         self._cmds[key] = (cmd, cb)
-        self._update()
+
+        if not self._update():
+            # The server did not accept it, so the macro is still what it was. Rollback.
+            self.remove(key)
+            return False
 
         # Check if it still works...
         if cb is None:
@@ -899,7 +903,7 @@ class Macro(object):
 
     def _update(self):
         if self._macro is None:
-            return
+            return True
 
         cmds = []
         for c in self._cmds.values():
@@ -907,7 +911,7 @@ class Macro(object):
                 cmds.append(b'e' + self._repsep)
             cmds.append(c[0])
 
-        self._client.assignMacro(self._macro, cmds, self._reqsep)
+        return self._client.assignMacro(self._macro, cmds, self._reqsep)
 
     def run(self, asyncDecode=False):
         if not self._macro is None:
@@ -970,7 +974,8 @@ class Tracing(Macro):
         self._stream = self._client.stream(stream, raw=True)
 
         # Start with sample separator.
-        self.add('e\n', None, 'e')
+        if not self.add('e\n', None, 'e'):
+            raise ValueError('Cannot assign macro for tracing')
 
         # We must have a macro, not a simulated Macro instance.
         if self.macro is None:
@@ -980,7 +985,8 @@ class Tracing(Macro):
         if t is None:
             raise ValueError('Cannot determine time stamp variable')
 
-        self.add(f'r{t.shortName()}', None, 't')
+        if not self.add(f'r{t.shortName()}', None, 't'):
+            raise ValueError('Cannot assign macro for tracing')
         self._enabled = False
         self._updateTracing(True);
 
@@ -992,10 +998,11 @@ class Tracing(Macro):
             pass
 
     def _update(self):
-        super()._update()
+        res = super()._update()
         # Remove existing samples from buffer, as the layout is changing.
         self._stream.reset()
         self._updateTracing()
+        return res
 
     def _updateTracing(self, force=False):
         if self._enabled is None:
-- 
2.43.0


From 6f7ab27c403f498efbda793f780f453a435f3628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 098/102] fix: Python Tracing that is not available disabled
 the tracing of another client

---
 python/libstored/zmq_client.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index e5939d4..b1da685 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -992,8 +992,9 @@ class Tracing(Macro):
 
     def __del__(self):
         try:
-            self._enabled = False
-            self.client.reqAsync(b't')
+            if self._enabled:
+                self._enabled = False
+                self.client.reqAsync(b't')
         except:
             pass
 
-- 
2.43.0


From cc73e0457fe91287453410204737f15960221bed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:05 +0000
Subject: [PATCH 099/102] fix: Python Tracing decoded the last sample with the
 layout of the next one

---
 python/libstored/zmq_client.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index b1da685..474b574 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1002,6 +1002,7 @@ class Tracing(Macro):
         res = super()._update()
         # Remove existing samples from buffer, as the layout is changing.
         self._stream.reset()
+        self._partial = b''
         self._updateTracing()
         return res
 
-- 
2.43.0


From 2293700680bc43fd3404f958b50921a088ddf5ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:56 +0000
Subject: [PATCH 100/102] fix: Python Tracing decoded uncompressed samples with
 the layout of later ones

---
 python/libstored/zmq_client.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index 474b574..c15b153 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -782,7 +782,9 @@ class Stream(object):
             raise ValueError('Stream capability missing')
 
         self._compressed = 'f' in self._client.capabilities()
-        self.reset()
+        if self._compressed:
+            # Drop old data, as we missed the start of the stream.
+            self.reset()
 
     @property
     def client(self):
@@ -827,9 +829,9 @@ class Stream(object):
     def reset(self):
         if self._compressed:
             self.client.reqAsync(b'f' + self.name.encode(), lambda x: None)
-            # Drop old data, as we missed the start of the stream.
-            self.client.reqAsync(b's' + self.name.encode(), lambda x: None)
-            self._reset()
+        # Drop all data that is in the stream now.
+        self.client.reqAsync(b's' + self.name.encode(), lambda x: None)
+        self._reset()
 
     def _reset(self):
         if self._compressed:
-- 
2.43.0


From 7430260c546522272b73632b0d4f52e51e688fc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 101/102] fix: Python Tracing.decimate could not be set

---
 python/libstored/zmq_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index c15b153..accbb58 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1031,7 +1031,7 @@ class Tracing(Macro):
         return self._decimate
 
     @decimate.setter
-    def _decimate_set(self, decimate):
+    def decimate(self, decimate):
         if not isinstance(decimate, int):
             return
 
-- 
2.43.0


From 94108c27134d553c60fb3681112fae109362ab18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:58:34 +0000
Subject: [PATCH 102/102] fix: Python ZmqClient did not accept the name of a
 time variable

---
 python/libstored/zmq_client.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/libstored/zmq_client.py b/python/libstored/zmq_client.py
index accbb58..917798a 100644
--- a/python/libstored/zmq_client.py
+++ b/python/libstored/zmq_client.py
@@ -1337,15 +1337,16 @@ class ZmqClient(QObject):
         if self._t == False:
             # Not found
             return None
-        elif not self._t is None:
+        elif not self._t is None and not isinstance(self._t, str):
             return self._t
 
         # Not initialized.
+        name = self._t
         self._t = False
 
-        if isinstance(self._t, str):
+        if isinstance(name, str):
             # Take the given time variable
-            t = self.find(self._t)
+            t = self.find(name)
         else:
             # Try finding /t (unit)
             t = self.find('/t (')
-- 
2.43.0

