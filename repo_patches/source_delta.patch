From 01b71f8cbedf484d4be39d079f68cb7e22f02646 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 01/37] fix: Lock and Get must not lock and return an expired
 object

An object that is locked never expires, so locking it before checking its
expiration made LaG revive (and lock) objects that had already expired.
---
 src/memcache/sockets.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 5967188..cd5ced0 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -184,6 +184,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     case binary_command::LaGK:
     case binary_command::LaGKQ:
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
+            if( obj.expired() ) return false;
             if( (binary_command::LaG <= cmd.command()) &&
                 (cmd.command() <= binary_command::LaGKQ) ) {
                 if( obj.locked() ) {
@@ -193,7 +194,6 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 obj.lock();
                 add_lock(k);
             }
-            if( obj.expired() ) return false;
             if( cmd.exptime() != mc::binary_request::EXPTIME_NONE ) {
                 obj.touch( cmd.exptime() );
                 if( ! m_slaves.empty() )
-- 
2.43.0


From 6041117c2cca9665e2c43e1d2821f45b10cda83a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 02/37] fix: return NotFound for LaGKQ of a missing object

docs/locking.md says that LaGKQ, as well as LaGQ, responds with NotFound.
---
 src/memcache/sockets.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index cd5ced0..63ccf51 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -217,7 +217,9 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         std::tie(p, len) = cmd.key();
         if( ! m_hash.apply(cybozu::hash_key(p, len), h, c) ) {
             g_stats.get_misses.fetch_add(1, relaxed);
-            if( ! cmd.quiet() || cmd.command() == binary_command::LaGQ )
+            if( ! cmd.quiet() ||
+                cmd.command() == binary_command::LaGQ ||
+                cmd.command() == binary_command::LaGKQ )
                 r.error( binary_status::NotFound );
         } else {
             g_stats.get_hits.fetch_add(1, relaxed);
-- 
2.43.0


From da23f8768b0132069025274fe5e3d9a24f8b2733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 03/37] fix: avoid integer overflow in counter Acquire

m_consumption + resources may wrap around, which allowed consumption to
exceed the given maximum.
---
 src/counter/object.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/counter/object.hpp b/src/counter/object.hpp
index d877147..8091dd0 100644
--- a/src/counter/object.hpp
+++ b/src/counter/object.hpp
@@ -23,7 +23,7 @@ public:
     }
 
     bool acquire(std::uint32_t resources, std::uint32_t maximum) noexcept {
-        if( m_consumption + resources > maximum )
+        if( m_consumption > maximum || resources > maximum - m_consumption )
             return false;
 
         std::time_t t = now();
-- 
2.43.0


From b61b3f50367dd37e71c7b106c55b51838f74498c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:44 +0000
Subject: [PATCH 04/37] fix: counter Release of zero resources is always
 allowed

docs/counter.md says Not acquired is returned if the connection tries to
release more resources than it acquired; zero is never more than that.
---
 src/counter/sockets.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index 675a653..a4549b8 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -209,6 +209,8 @@ void counter_socket::on_acquire(const cybozu::hash_key& k, std::uint32_t resourc
 }
 
 bool counter_socket::on_release(const cybozu::hash_key& k, std::uint32_t resources) {
+    if( resources == 0 )
+        return true;
     auto it = m_acquired_resources.find(&k);
     if( it == m_acquired_resources.end() )
         return false;
-- 
2.43.0


From 729c57b1be28fd53dc11898477603f39de7720ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:53 +0000
Subject: [PATCH 05/37] fix: echo the opcode of unknown commands in counter
 responses

Responses to requests with an unknown opcode carried the internal code of
command::Unknown instead of the opcode of the request.
---
 src/counter/counter.cpp | 5 +++--
 src/counter/counter.hpp | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/counter/counter.cpp b/src/counter/counter.cpp
index 3b84948..ddea96a 100644
--- a/src/counter/counter.cpp
+++ b/src/counter/counter.cpp
@@ -52,7 +52,8 @@ void request::parse(const char* p, std::size_t len) noexcept {
     cybozu::ntoh(p + 4, body_length);
     if( len < HEADER_SIZE + body_length ) return;  // incomplete
 
-    m_command = (counter::command)*(const uint8_t*)(p + 1);
+    m_raw_command = *(const uint8_t*)(p + 1);
+    m_command = (counter::command)m_raw_command;
     m_flags = *(const uint8_t*)(p + 2);
     m_body_length = body_length;
     m_opaque = p + 8;
@@ -120,7 +121,7 @@ void request::parse(const char* p, std::size_t len) noexcept {
 inline void response::fill_header(char* header, counter::status status,
                                   std::uint32_t body_length) {
     header[0] = (char)RESPONSE_MAGIC;
-    header[1] = (char)m_request.command();
+    header[1] = (char)m_request.raw_command();
     header[2] = (char)status;
     header[3] = 0;
     cybozu::hton(body_length, header + 4);
diff --git a/src/counter/counter.hpp b/src/counter/counter.hpp
index a2d3e95..7b99990 100644
--- a/src/counter/counter.hpp
+++ b/src/counter/counter.hpp
@@ -50,6 +50,7 @@ public:
 
     std::size_t length() const noexcept { return m_request_length; }
     counter::command command() const noexcept { return m_command; }
+    std::uint8_t raw_command() const noexcept { return m_raw_command; }
     std::uint8_t flags() const noexcept { return m_flags; }
     std::uint32_t body_length() const noexcept { return m_body_length; }
     const char* opaque() const noexcept { return m_opaque; }
@@ -63,6 +64,7 @@ private:
 
     std::size_t m_request_length = 0;
     counter::command m_command = counter::command::Unknown;
+    std::uint8_t m_raw_command = 0;
     std::uint8_t m_flags = 0;
     std::uint32_t m_body_length = 0;
     const char* m_opaque = nullptr;
-- 
2.43.0


From e16940858c434d457bb33afd8120232276760b4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:13 +0000
Subject: [PATCH 06/37] fix: echo the opcode of unknown commands in binary
 responses

Responses to requests with an unknown opcode carried the internal code of
binary_command::Unknown instead of the opcode of the request.
---
 src/memcache/memcache.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.hpp b/src/memcache/memcache.hpp
index 37b6464..08d473a 100644
--- a/src/memcache/memcache.hpp
+++ b/src/memcache/memcache.hpp
@@ -311,6 +311,9 @@ public:
     // Return the command type.
     binary_command command() const noexcept { return m_command; }
 
+    // Return the raw opcode byte of the request.
+    char opcode() const noexcept { return m_p[1]; }
+
     // The command is quiet or not.
     bool quiet() const noexcept { return m_quiet; }
 
@@ -398,7 +401,7 @@ private:
                      std::uint32_t data_len, std::uint64_t cas,
                      binary_status status = binary_status::OK) const noexcept {
         buf[0] = '\x81';
-        buf[1] = (char)m_request.command();
+        buf[1] = m_request.opcode();
         cybozu::hton(key_len, buf+2);
         buf[4] = (char)extras_len;
         buf[5] = '\x00';
-- 
2.43.0


From 1f972402e87fd3ca6e21899d3209d0f7c51c5edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:39 +0000
Subject: [PATCH 07/37] fix: use a unique lock context for each connection

Locks were bound to file descriptors.  Since a descriptor is recycled as soon
as a connection is closed, a new connection could unlock objects locked by the
old one whose locks were not yet released; the old one then failed to release
them.  Besides, when the socket had already been invalidated, the thread-local
context of another connection was left as is and unlock_all() threw
std::logic_error, which terminated the process.
---
 src/memcache/object.cpp  |  2 +-
 src/memcache/object.hpp  |  7 ++++---
 src/memcache/sockets.cpp | 11 +++++++----
 src/memcache/sockets.hpp |  4 ++++
 4 files changed, 16 insertions(+), 8 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index cd57921..fd2b0a5 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -24,7 +24,7 @@ std::uint64_t to_uint64(const char* p, std::size_t len) {
 
 namespace yrmcds { namespace memcache {
 
-thread_local int g_context = -1;
+thread_local std::int64_t g_context = -1;
 
 file_flusher::~file_flusher() {
     if( m_fd == -1 ) return;
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index a17cc41..d2eebcc 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -25,8 +25,9 @@ namespace yrmcds { namespace memcache {
 
 // Context for object locking.
 //
-// The context is in fact the file descriptor of a client connection.
-extern thread_local int g_context;
+// The context is in fact a unique identifier of a client connection.
+// -1 is reserved to represent no context.
+extern thread_local std::int64_t g_context;
 
 
 // Purge temporary file contents from the page cache at dtor.
@@ -171,7 +172,7 @@ private:
     std::time_t m_exptime;
     std::uint64_t m_cas = 1;
     mutable unsigned int m_gc_old = 0;
-    int m_lock = -1;
+    std::int64_t m_lock = -1;
     std::thread::id m_unlocker;
 };
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 63ccf51..aee9b1d 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -5,7 +5,9 @@
 
 #include <cybozu/util.hpp>
 
+#include <atomic>
 #include <cstddef>
+#include <cstdint>
 #include <cstring>
 #include <sys/socket.h>
 #include <sys/types.h>
@@ -22,6 +24,9 @@ const char NOT_LOCKED[] = "CLIENT_ERROR object is not locked or not found\x0d\x0
 
 const std::memory_order relaxed = std::memory_order_relaxed;
 
+// The source of unique lock contexts.
+std::atomic<std::int64_t> g_next_context(0);
+
 } // anonymous namespace
 
 namespace yrmcds { namespace memcache {
@@ -34,6 +39,7 @@ memcache_socket::memcache_socket(int fd,
                                  const std::vector<repl_socket*>& slaves)
     : cybozu::tcp_socket(fd),
       m_busy(false),
+      m_context(g_next_context.fetch_add(1, relaxed)),
       m_finder(finder),
       m_hash(hash),
       m_pending(0),
@@ -44,10 +50,7 @@ memcache_socket::memcache_socket(int fd,
 
     m_recvjob = [this](cybozu::dynbuf& buf) {
         // set lock context for objects.
-        with_fd([](int fd) -> bool {
-            g_context = fd;
-            return true;
-        });
+        g_context = m_context;
 
         // load pending data
         if( ! m_pending.empty() ) {
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index f591074..7e7f46f 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -15,6 +15,7 @@
 #include <cybozu/util.hpp>
 #include <cybozu/worker.hpp>
 
+#include <cstdint>
 #include <functional>
 #include <vector>
 
@@ -69,6 +70,9 @@ public:
 private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_busy;
+    // File descriptors are recycled while an old connection may still hold
+    // locks, so a lock context must never be shared between connections.
+    const std::int64_t m_context;
     const std::function<cybozu::worker*()>& m_finder;
     cybozu::hash_map<object>& m_hash;
     cybozu::dynbuf m_pending;
-- 
2.43.0


From 391337aae765b40b8a015b4c2cce78c05eb5c37c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:58 +0000
Subject: [PATCH 08/37] fix: never reuse CAS unique values

CAS unique of every object started from 1, so that a stale value could match
an object that had been deleted (or evicted) and stored again.
---
 src/memcache/object.cpp | 16 +++++++++++-----
 src/memcache/object.hpp |  5 ++++-
 2 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index fd2b0a5..b9be7e8 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -4,6 +4,7 @@
 #include "object.hpp"
 #include "stats.hpp"
 
+#include <atomic>
 #include <cstdint>
 #include <fcntl.h>
 #include <limits>
@@ -26,6 +27,11 @@ namespace yrmcds { namespace memcache {
 
 thread_local std::int64_t g_context = -1;
 
+std::uint64_t object::next_cas() noexcept {
+    static std::atomic<std::uint64_t> cas(0);
+    return cas.fetch_add(1, std::memory_order_relaxed) + 1;
+}
+
 file_flusher::~file_flusher() {
     if( m_fd == -1 ) return;
     if( ::fdatasync(m_fd) == 0 )
@@ -61,7 +67,7 @@ void object::set(const char* p, std::size_t len,
                  std::uint32_t flags_, std::time_t exptime) {
     m_flags = flags_;
     m_exptime = exptime;
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     m_data.reset();
 
@@ -81,7 +87,7 @@ void object::set(const char* p, std::size_t len,
 }
 
 void object::append(const char* p, std::size_t len) {
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     if( len == 0 ) return;
 
@@ -103,7 +109,7 @@ void object::append(const char* p, std::size_t len) {
 }
 
 void object::prepend(const char* p, std::size_t len) {
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     if( len == 0 ) return;
 
@@ -146,7 +152,7 @@ std::uint64_t object::incr(std::uint64_t n) {
                           "%llu", (unsigned long long)u64_value);
     m_data.reset();
     m_data.append(s_value, m_length);
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     return u64_value;
 }
@@ -166,7 +172,7 @@ std::uint64_t object::decr(std::uint64_t n) {
                           "%llu", (unsigned long long)u64_value);
     m_data.reset();
     m_data.append(s_value, m_length);
-    ++ m_cas;
+    m_cas = next_cas();
     m_gc_old = 0;
     return u64_value;
 }
diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index d2eebcc..a50c7c5 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -165,12 +165,15 @@ public:
     }
 
 private:
+    // Generate a server-wide unique value for CAS.
+    static std::uint64_t next_cas() noexcept;
+
     std::size_t m_length;
     cybozu::dynbuf m_data;
     std::unique_ptr<tempfile> m_file;
     std::uint32_t m_flags;
     std::time_t m_exptime;
-    std::uint64_t m_cas = 1;
+    std::uint64_t m_cas = next_cas();
     mutable unsigned int m_gc_old = 0;
     std::int64_t m_lock = -1;
     std::thread::id m_unlocker;
-- 
2.43.0


From 67b28ce2ab4cabe6ede591259333a6b3ec4ea451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:11 +0000
Subject: [PATCH 09/37] fix: reject malformed numbers in text requests

strtoull skips leading white spaces including CR and LF, so that a missing
number was taken from the following line, and accepts signs.  errno was not
cleared either, so that 18446744073709551615 might be rejected depending on
what happened before.
---
 src/memcache/memcache.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 23ba03a..d2dabc0 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -53,9 +53,12 @@ inline UInt to_uint(const char* p, bool& result) {
     static_assert( sizeof(UInt) <= sizeof(unsigned long long),
                    "UInt is larger than unsigned long long" );
     result = false;
+    // strtoull skips leading white spaces, including CR and LF,
+    // and accepts signs.
+    if( *p < '0' || '9' < *p ) return 0;
     char* end;
+    errno = 0;
     unsigned long long i = strtoull(p, &end, 10);
-    if( i == 0 && p == end ) return 0;
     if( i == std::numeric_limits<unsigned long long>::max() &&
         errno == ERANGE ) return 0;
     char c = *end;
-- 
2.43.0


From 2c6025b106e093069b527431e22150c8841479b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 10/37] fix: replicate flags and exptime of empty objects

Slaves ignored flags and exptime of an empty object so that the object became
immortal and lost its flags after failover.
---
 src/memcache/memcache.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index d2dabc0..39de110 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -871,10 +871,14 @@ void binary_request::parse() noexcept {
     case binary_command::ReplaceQ:
     case binary_command::RaU:
     case binary_command::RaUQ:
-        if( extras_len != 8 || key_len == 0 || data_len == 0 )
+        if( extras_len != 8 || key_len == 0 )
             return; // invalid
+        // Empty objects may be replicated, though clients cannot send them.
+        // Hence flags and exptime need to be parsed before the next check.
         cybozu::ntoh(p_extra, m_flags);
         m_exptime = binary_exptime(p_extra + 4);
+        if( data_len == 0 )
+            return; // invalid
         break;
     case binary_command::Delete:
     case binary_command::DeleteQ:
-- 
2.43.0


From 85e178f75600705ef05ab8e23366bc3adb8d8bd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:08:26 +0000
Subject: [PATCH 11/37] fix: do not truncate expiration time when replicating

Expiration time not less than 2^32 was truncated, and 2^32-1 was taken as a
special value, so that slaves had expired or immortal objects.
---
 src/memcache/object.hpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/memcache/object.hpp b/src/memcache/object.hpp
index a50c7c5..59db58f 100644
--- a/src/memcache/object.hpp
+++ b/src/memcache/object.hpp
@@ -101,7 +101,14 @@ public:
         return m_cas;
     }
 
+    // Return the expiration time for the binary protocol.
+    //
+    // Far future that cannot be represented is rounded to the largest
+    // valid value; 0xffffffff has a special meaning in the protocol.
     std::uint32_t exptime() const noexcept {
+        const std::time_t MAX_EXPTIME = 0xfffffffe;
+        if( m_exptime > MAX_EXPTIME )
+            return (std::uint32_t)MAX_EXPTIME;
         return (std::uint32_t)m_exptime;
     }
 
-- 
2.43.0


From e0e9376decc4be6c4a064b38f8d2bfd7d8f834f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:03 +0000
Subject: [PATCH 12/37] fix: do not let append/prepend grow objects over the
 hard limit

Slaves reject such objects as too large and stored empty ones instead.
---
 src/memcache/sockets.cpp | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index aee9b1d..563f5fc 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -354,6 +354,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > MAX_REQUEST_LENGTH ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -381,6 +385,10 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > MAX_REQUEST_LENGTH ) {
+                r.error( binary_status::TooLargeValue );
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.quiet() )
                 r.set( obj.cas_unique() );
@@ -681,6 +689,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > MAX_REQUEST_LENGTH ) {
+                r.error();
+                return true;
+            }
             obj.append(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
@@ -703,6 +715,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
             const char* p2;
             std::size_t len2;
             std::tie(p2, len2) = cmd.data();
+            if( obj.size() + len2 > MAX_REQUEST_LENGTH ) {
+                r.error();
+                return true;
+            }
             obj.prepend(p2, len2);
             if( ! cmd.no_reply() )
                 r.stored();
-- 
2.43.0


From b1e29579258009644cdd0e96b851dc258e8b815d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 13/37] fix: erase old object memory upon prepend when
 secure_erase is enabled

---
 src/memcache/object.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index b9be7e8..48a144a 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -129,7 +129,7 @@ void object::prepend(const char* p, std::size_t len) {
             m_file->write(buf.data(), new_size);
         }
     } else {
-        cybozu::dynbuf buf(new_size);
+        cybozu::dynbuf buf(new_size, g_config.secure_erase());
         buf.append(p, len);
         buf.append(m_data.data(), m_length);
         m_data.swap(buf);
-- 
2.43.0


From 9109d6916664a6ea2f2b9c4c6aac444d20664572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:29 +0000
Subject: [PATCH 14/37] fix: do not lose flush_all requested while GC is
 running

GC for a flush cleared flush_time unconditionally at its end, so that a newly
requested (delayed) flush was silently lost.
---
 src/memcache/gc.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 31fcbc3..92e02d8 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -143,8 +143,9 @@ void gc_thread::gc() {
         }
     }
 
+    // Do not forget another flush requested during this GC.
     if( flush )
-        g_stats.flush_time.store(0);
+        g_stats.flush_time.compare_exchange_strong(t, 0);
 }
 
 
-- 
2.43.0


From 60faab5940f87af73cd12f0fdef9528418d20792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:52 +0000
Subject: [PATCH 15/37] fix: Delete must not succeed for expired objects

An expired object that is not yet collected must look as if it did not exist.
---
 src/memcache/sockets.cpp | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 563f5fc..87c38bb 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -407,6 +407,13 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.quiet() )
+                    r.error( binary_status::NotFound );
+                if( ! m_slaves.empty() )
+                    repl_delete(m_slaves, k);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -842,6 +849,13 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
                     r.locked();
                 return false;
             }
+            if( obj.expired() ) {
+                if( ! cmd.no_reply() )
+                    r.not_found();
+                if( ! m_slaves.empty() )
+                    repl_delete(m_slaves, k);
+                return true;
+            }
             if( obj.locked_by_self() )
                 remove_lock(k);
             if( ! cmd.no_reply() )
-- 
2.43.0


From 40aef45f7f9085e8901357eb5b414cc6cab1ee9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:09:56 +0000
Subject: [PATCH 16/37] fix: Increment/Decrement must initialize expired
 objects

An expired object that is not yet collected must look as if it did not exist,
that is, a new object should be created if the request has an initial value.
---
 src/memcache/sockets.cpp | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 87c38bb..bed3eea 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -9,6 +9,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <cstring>
+#include <string>
 #include <sys/socket.h>
 #include <sys/types.h>
 
@@ -439,7 +440,18 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                // do the same as when the object does not exist.
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                const std::string initial = std::to_string( cmd.initial() );
+                obj.set(initial.data(), initial.size(), 0, cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
@@ -477,7 +489,18 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
                 r.error( binary_status::Locked );
                 return true;
             }
-            if( obj.expired() ) return false;
+            if( obj.expired() ) {
+                // do the same as when the object does not exist.
+                if( cmd.exptime() == mc::binary_request::EXPTIME_NONE )
+                    return false;
+                const std::string initial = std::to_string( cmd.initial() );
+                obj.set(initial.data(), initial.size(), 0, cmd.exptime());
+                if( ! cmd.quiet() )
+                    r.incdec( cmd.initial(), obj.cas_unique() );
+                if( ! m_slaves.empty() )
+                    repl_object(m_slaves, k, obj);
+                return true;
+            }
             if( cmd.cas_unique() != 0 &&
                 cmd.cas_unique() != obj.cas_unique() ) {
                 r.error( binary_status::Exists );
-- 
2.43.0


From b72d300c0d4450f3053210aaf621b43f31385d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:34 +0000
Subject: [PATCH 17/37] fix: close connections closed by clients

Connections were left in CLOSE_WAIT forever after clients closed them, which
leaked file descriptors and connection slots limited by max_connections.
---
 cybozu/tcp.hpp           | 20 ++++++++++++++++++++
 src/counter/sockets.cpp  |  3 +++
 src/memcache/sockets.cpp |  3 +++
 3 files changed, 26 insertions(+)

diff --git a/cybozu/tcp.hpp b/cybozu/tcp.hpp
index d6d099d..65fece2 100644
--- a/cybozu/tcp.hpp
+++ b/cybozu/tcp.hpp
@@ -171,6 +171,26 @@ public:
         });
     }
 
+    // Close the socket after all pending data have been sent.
+    //
+    // Unlike <send_close>, this function never blocks.
+    // No more data can be sent after this.
+    //
+    // @return `true` if this socket is valid, `false` otherwise.
+    bool flush_close() {
+        return with_fd([=](int fd) -> bool {
+            lock_guard g(m_lock);
+            m_shutdown = true;
+            if( empty() ) {
+                _flush(fd);
+                return false;
+            }
+            g.unlock();
+            m_cond_write.notify_all();
+            return true;
+        });
+    }
+
     enum class recv_result {
         OK,    // Received some data.
         AGAIN, // No data was available.
diff --git a/src/counter/sockets.cpp b/src/counter/sockets.cpp
index a4549b8..18b6bb0 100644
--- a/src/counter/sockets.cpp
+++ b/src/counter/sockets.cpp
@@ -37,6 +37,9 @@ counter_socket::counter_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 release_all();
+                // Otherwise, this connection would be left open forever.
+                if( res == recv_result::NONE )
+                    flush_close();
                 break;
             }
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index bed3eea..72fb21c 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -66,6 +66,9 @@ memcache_socket::memcache_socket(int fd,
             if( res == recv_result::RESET || res == recv_result::NONE ) {
                 buf.reset();
                 unlock_all();
+                // Otherwise, this connection would be left open forever.
+                if( res == recv_result::NONE )
+                    flush_close();
                 break;
             }
 
-- 
2.43.0


From 8f4a7cbb8633bea45136a5983826aa0ddde638c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:52 +0000
Subject: [PATCH 18/37] fix: send pending responses before closing upon quit

Responses to pipelined commands before quit were discarded if they could not
be sent immediately.
---
 src/memcache/sockets.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 72fb21c..9160c4b 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -591,7 +591,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
     case binary_command::QuitQ:
         unlock_all();
         if( cmd.quiet() ) {
-            invalidate_and_close();
+            flush_close();
         } else {
             r.quit();
         }
@@ -997,7 +997,7 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::QUIT:
         unlock_all();
-        invalidate_and_close();
+        flush_close();
         break;
     default:
         cybozu::logger::info() << "not implemented";
-- 
2.43.0


From 9214356d55821926a55c132e2d5c818a500f519f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:18 +0000
Subject: [PATCH 19/37] fix: reject garbage in numeric configuration values

Garbage following a number was silently ignored; for example, "1MB" was
taken as 1 byte and "1.5G" was as 1G.
---
 cybozu/config_parser.hpp | 18 ++++++++++++++++--
 src/config.cpp           |  5 ++++-
 2 files changed, 20 insertions(+), 3 deletions(-)

diff --git a/cybozu/config_parser.hpp b/cybozu/config_parser.hpp
index 30596cf..008dee8 100644
--- a/cybozu/config_parser.hpp
+++ b/cybozu/config_parser.hpp
@@ -4,6 +4,7 @@
 #ifndef CYBOZU_CONFIG_PARSER_HPP
 #define CYBOZU_CONFIG_PARSER_HPP
 
+#include <cstddef>
 #include <unordered_map>
 #include <string>
 #include <stdexcept>
@@ -96,7 +97,12 @@ public:
     // @return An integer converted from the associated value.
     int get_as_int(const std::string& key) const {
         try {
-            return std::stoi(get(key));
+            const std::string& s = get(key);
+            std::size_t parsed;
+            int n = std::stoi(s, &parsed);
+            if( parsed != s.size() )
+                throw illegal_value(key);
+            return n;
         } catch(const std::invalid_argument& e) {
             throw illegal_value(key);
         } catch(const std::out_of_range& e) {
@@ -113,7 +119,15 @@ public:
     // @return An uint64_t integer converted from the associated value.
     std::uint64_t get_as_uint64(const std::string& key) const {
         try {
-            return std::stoull(get(key));
+            const std::string& s = get(key);
+            // std::stoull accepts negative numbers.
+            if( s.find('-') != std::string::npos )
+                throw illegal_value(key);
+            std::size_t parsed;
+            std::uint64_t n = std::stoull(s, &parsed);
+            if( parsed != s.size() )
+                throw illegal_value(key);
+            return n;
         } catch(const std::invalid_argument& e) {
             throw illegal_value(key);
         } catch(const std::out_of_range& e) {
diff --git a/src/config.cpp b/src/config.cpp
index 2b4c12f..8d65a76 100644
--- a/src/config.cpp
+++ b/src/config.cpp
@@ -61,7 +61,10 @@ inline std::size_t parse_unit(std::string& s, const char* cmd) {
     }
     if( base != 1 )
         s.pop_back();
-    int n = std::stoi( s );
+    std::size_t parsed;
+    int n = std::stoi( s, &parsed );
+    if( parsed != s.size() )
+        throw yrmcds::config::bad_config(std::string("Bad value for ") + cmd);
     if( n < 1 )
         throw yrmcds::config::bad_config(cmd + std::string(" must be > 0"));
     return base * static_cast<std::size_t>(n);
-- 
2.43.0


From 4c6e08f3587588dbbedc2ad4c00d297dfeda7af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:02 +0000
Subject: [PATCH 20/37] fix: binary Flush with zero expiration must flush at
 once

---
 src/memcache/memcache.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/memcache/memcache.cpp b/src/memcache/memcache.cpp
index 39de110..9cb11a7 100644
--- a/src/memcache/memcache.cpp
+++ b/src/memcache/memcache.cpp
@@ -908,6 +908,8 @@ void binary_request::parse() noexcept {
             return; // invalid
         if( extras_len == 4 ) { // yrmcds extension
             m_exptime = binary_exptime(p_extra);
+            if( m_exptime == 0 ) // the same as without extras
+                m_exptime = g_current_time.load(relaxed);
         } else {
             m_exptime = g_current_time.load(relaxed);
         }
-- 
2.43.0


From 13e415e62efee9367ea356b08c8a2ee0fd738901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:18 +0000
Subject: [PATCH 21/37] fix: do not starve worker synchronization under steady
 load

A worker that was busy at every check could delay releasing locks and resources
of closed connections, and adding slaves, for as long as the load continued.
Finishing a job also proves that a worker has passed a quiescent state.
---
 cybozu/worker.hpp |  9 ++++++++-
 src/sync.hpp      | 28 ++++++++++++++++++++--------
 2 files changed, 28 insertions(+), 9 deletions(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index 797a04f..e906c04 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -29,7 +29,7 @@ public:
     // Constructor.
     // @bufsiz   The size of the internal buffer.
     worker(std::size_t bufsiz)
-        : m_running(false), m_exit(false),
+        : m_running(false), m_finished(0), m_exit(false),
           m_event(eventfd(0, EFD_CLOEXEC)), m_buffer(bufsiz)
     {
         if( m_event == -1 )
@@ -54,6 +54,11 @@ public:
         return m_running.load(std::memory_order_acquire);
     }
 
+    // Return the number of jobs this worker thread has finished.
+    std::uint64_t finished() const noexcept {
+        return m_finished.load(std::memory_order_acquire);
+    }
+
     // Ask this worker thread to execute a new job.
     // @job_  A callback function to be executed by the worker thread.
     void post_job(job job_) {
@@ -87,12 +92,14 @@ public:
 
             m_job(m_buffer);
             m_buffer.reset();
+            m_finished.fetch_add(1, std::memory_order_release);
         }
     }
 
 private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_running;
+    std::atomic<std::uint64_t> m_finished;
     bool m_exit;
     const int m_event;
     dynbuf m_buffer;
diff --git a/src/sync.hpp b/src/sync.hpp
index 667c74f..1e71964 100644
--- a/src/sync.hpp
+++ b/src/sync.hpp
@@ -9,6 +9,7 @@
 #include <cybozu/worker.hpp>
 
 #include <bitset>
+#include <cstdint>
 #include <functional>
 #include <memory>
 #include <vector>
@@ -22,6 +23,20 @@ public:
 
     void set(int n) { m_flags[n] = true; }
 
+    // Record the progress of a worker when this request is added.
+    void start(int n, const cybozu::worker& w) {
+        m_finished[n] = w.finished();
+        if( ! w.is_running() )
+            set(n);
+    }
+
+    // A worker that gets busy again by every check is also synchronized
+    // if it has finished a job since this request was added.
+    void update(int n, const cybozu::worker& w) {
+        if( ! w.is_running() || w.finished() != m_finished[n] )
+            set(n);
+    }
+
     bool check() {
         if( ! m_flags.all() ) return false;
         m_callback();
@@ -31,6 +46,7 @@ public:
 private:
     std::function<void()> m_callback;
     std::bitset<MAX_WORKERS> m_flags;
+    std::uint64_t m_finished[MAX_WORKERS] = {};
 };
 
 
@@ -45,10 +61,8 @@ public:
 
     void add_request(std::unique_ptr<sync_request> req) {
         const std::size_t n = m_workers.size();
-        for( std::size_t i = 0; i < n; ++i ) {
-            if( ! m_workers[i]->is_running() )
-                req->set(i);
-        }
+        for( std::size_t i = 0; i < n; ++i )
+            req->start(i, *m_workers[i]);
         for( std::size_t i = n; i < MAX_WORKERS; ++i )
             req->set(i);
         if( ! req->check() )
@@ -58,10 +72,8 @@ public:
     void check() {
         const std::size_t n = m_workers.size();
         for( std::size_t i = 0; i < n; ++i ) {
-            if( ! m_workers[i]->is_running() ) {
-                for( auto& req: m_requests )
-                    req->set(i);
-            }
+            for( auto& req: m_requests )
+                req->update(i, *m_workers[i]);
         }
         for( auto it = m_requests.begin(); it != m_requests.end(); ) {
             if( (*it)->check() ) {
-- 
2.43.0


From 553f54f9259bd0dd461f61f1f1664cc7b9ba561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:22 +0000
Subject: [PATCH 22/37] fix: keep every requested flush

A flush requested while another was being carried out was lost if both came in
the same second, and a delayed flush made objects already flushed visible again.
---
 src/memcache/gc.cpp      |  4 ++--
 src/memcache/sockets.cpp |  4 ++--
 src/memcache/stats.cpp   | 30 ++++++++++++++++++++++++++++++
 src/memcache/stats.hpp   | 17 +++++++++++++++++
 4 files changed, 51 insertions(+), 4 deletions(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 92e02d8..77e2598 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -52,6 +52,7 @@ void gc_thread::run() {
 }
 
 void gc_thread::gc() {
+    std::uint64_t flush_requests = g_stats.flush_requests();
     std::time_t t = g_stats.flush_time.load();
     bool flush = (t != 0) && (std::time(nullptr) >= t);
     unsigned int evict_age = 0;
@@ -143,9 +144,8 @@ void gc_thread::gc() {
         }
     }
 
-    // Do not forget another flush requested during this GC.
     if( flush )
-        g_stats.flush_time.compare_exchange_strong(t, 0);
+        g_stats.complete_flush(flush_requests);
 }
 
 
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 9160c4b..5bea83f 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -598,7 +598,7 @@ void memcache_socket::cmd_bin(const memcache::binary_request& cmd) {
         break;
     case binary_command::Flush:
     case binary_command::FlushQ:
-        g_stats.flush_time.store( cmd.exptime() );
+        g_stats.request_flush( cmd.exptime() );
         if( ! cmd.quiet() )
             r.success();
         break;
@@ -983,7 +983,7 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         r.end();
         break;
     case text_command::FLUSH_ALL:
-        g_stats.flush_time.store( cmd.exptime() );
+        g_stats.request_flush( cmd.exptime() );
         if( ! cmd.no_reply() )
             r.ok();
         break;
diff --git a/src/memcache/stats.cpp b/src/memcache/stats.cpp
index 07a3cc4..ec7507c 100644
--- a/src/memcache/stats.cpp
+++ b/src/memcache/stats.cpp
@@ -1,5 +1,6 @@
 // (C) 2013-2014 Cybozu.
 
+#include "../global.hpp"
 #include "stats.hpp"
 
 namespace yrmcds { namespace memcache {
@@ -39,6 +40,8 @@ void statistics::reset() noexcept {
     /* Realtime staticstics. */
     total_objects = 0;
     flush_time = 0;
+    next_flush_time = 0;
+    n_flush_requests = 0;
     curr_connections = 0;
     total_connections = 0;
     for( auto& v: text_ops )
@@ -52,4 +55,31 @@ void statistics::reset() noexcept {
     cas_badval = 0;
 }
 
+void statistics::request_flush(std::time_t t) {
+    std::lock_guard<std::mutex> g(flush_lock);
+    std::time_t now = g_current_time.load(std::memory_order_relaxed);
+    std::time_t current = flush_time.load(std::memory_order_relaxed);
+    if( t > now && current != 0 && current <= now ) {
+        next_flush_time = t;
+        return;
+    }
+    flush_time.store(t);
+    next_flush_time = 0;
+    ++ n_flush_requests;
+}
+
+std::uint64_t statistics::flush_requests() {
+    std::lock_guard<std::mutex> g(flush_lock);
+    return n_flush_requests;
+}
+
+void statistics::complete_flush(std::uint64_t requests) {
+    std::lock_guard<std::mutex> g(flush_lock);
+    // Do not forget another flush requested during the garbage collection.
+    if( n_flush_requests != requests )
+        return;
+    flush_time.store(next_flush_time);
+    next_flush_time = 0;
+}
+
 }} // namespace yrmcds::memcache
diff --git a/src/memcache/stats.hpp b/src/memcache/stats.hpp
index a50aef1..7b46644 100644
--- a/src/memcache/stats.hpp
+++ b/src/memcache/stats.hpp
@@ -10,6 +10,7 @@
 #include <cstddef>
 #include <cstdint>
 #include <ctime>
+#include <mutex>
 
 namespace yrmcds { namespace memcache {
 
@@ -22,6 +23,19 @@ struct statistics {
     // Reset all counters.
     void reset() noexcept;
 
+    // Request "flush_all" at `t`.
+    //
+    // If another flush has taken effect but has not been completed, a flush
+    // in the future is postponed until its completion.
+    void request_flush(std::time_t t);
+
+    // Return the number of flushes that have been requested to take effect.
+    std::uint64_t flush_requests();
+
+    // Tell that a garbage collection has removed flushed objects.
+    // @requests  <flush_requests> before the garbage collection.
+    void complete_flush(std::uint64_t requests);
+
     /* object counters.  Updated at every GC. */
     alignas(CACHELINE_SIZE)
     std::atomic<std::uint32_t> objects;
@@ -58,6 +72,9 @@ struct statistics {
     std::atomic<std::uint64_t> total_objects;
     alignas(CACHELINE_SIZE)
     std::atomic<std::time_t> flush_time; // abused by "flush_all"
+    std::mutex flush_lock;               // for updating flush_time
+    std::time_t next_flush_time;
+    std::uint64_t n_flush_requests;
     alignas(CACHELINE_SIZE)
     std::atomic<std::uint64_t> curr_connections;
     std::atomic<std::uint64_t> total_connections;
-- 
2.43.0


From 7f1173585a74c0baa431ccfd760859b3f37d08b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:41 +0000
Subject: [PATCH 23/37] fix: text cas must honor max_data_size

---
 src/memcache/sockets.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 5bea83f..991b582 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -764,6 +764,10 @@ void memcache_socket::cmd_text(const memcache::text_request& cmd) {
         break;
     case text_command::CAS:
         std::tie(p, len) = cmd.key();
+        if( std::get<1>(cmd.data()) > g_config.max_data_size() ) {
+            r.error();
+            return;
+        }
         h = [this,&cmd,&r](const cybozu::hash_key& k, object& obj) -> bool {
             if( obj.locked_by_other() ) {
                 if( ! cmd.no_reply() )
-- 
2.43.0


From 20e58c5ec4e1ef7b814a65a5b858090ddb1d183c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:08 +0000
Subject: [PATCH 24/37] fix: locked objects must not keep others from being
 evicted

---
 src/memcache/gc.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 77e2598..8f78a12 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -116,7 +116,9 @@ void gc_thread::gc() {
         m_used_memory += sizeof(cybozu::hash_key) + k.length() + sizeof(object);
         if( g_config.heap_data_limit() >= obj.size() )
             m_used_memory += obj.size();
-        m_oldest_age = std::max(m_oldest_age, obj.age());
+        // Locked objects cannot be evicted, so must not affect <evict_age>.
+        if( ! obj.locked() )
+            m_oldest_age = std::max(m_oldest_age, obj.age());
         m_largest_object_size = std::max(m_largest_object_size, obj.size());
         if( ! m_new_slaves.empty() )
             repl_object(m_new_slaves, k, obj, false);
-- 
2.43.0


From 6600467a895b756223ce410717fbd7d2a70a7c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:33 +0000
Subject: [PATCH 25/37] fix: jobs posted while a worker thread starts must not
 be lost

The thread cleared m_running on its first turn, so a job posted before that was
forgotten and the worker waited for m_running in a busy loop for ever.
---
 cybozu/worker.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index e906c04..3385774 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -81,7 +81,6 @@ public:
     void run() {
         while ( true ) {
             // wait a new job or an exit signal
-            m_running.store(false, std::memory_order_release);
             std::uint64_t i;
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
@@ -93,6 +92,10 @@ public:
             m_job(m_buffer);
             m_buffer.reset();
             m_finished.fetch_add(1, std::memory_order_release);
+
+            // not before the first job, or a job that was posted while
+            // this thread was starting would be forgotten.
+            m_running.store(false, std::memory_order_release);
         }
     }
 
-- 
2.43.0


From 31f9201219c450e46913a9f7fb150806e8f7a269 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:12 +0000
Subject: [PATCH 26/37] fix: do not die when VIP cannot be checked for lack of
 file descriptors

---
 src/memcache/gc.cpp | 12 +++++++++++-
 src/server.hpp      | 12 +++++++++++-
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/memcache/gc.cpp b/src/memcache/gc.cpp
index 8f78a12..a837caa 100644
--- a/src/memcache/gc.cpp
+++ b/src/memcache/gc.cpp
@@ -6,12 +6,22 @@
 #include "stats.hpp"
 
 #include <algorithm>
+#include <cerrno>
 #include <cstdlib>
+#include <system_error>
 
 namespace yrmcds { namespace memcache {
 
 void gc_thread::run() {
-    if( ! cybozu::has_ip_address(g_config.vip()) ) {
+    bool has_vip = true;
+    try {
+        has_vip = cybozu::has_ip_address(g_config.vip());
+    } catch( const std::system_error& e ) {
+        // If out of file descriptors, check it again at the next GC.
+        if( e.code().value() != EMFILE && e.code().value() != ENFILE ) throw;
+        cybozu::logger::error() << "Failed to check VIP: " << e.what();
+    }
+    if( ! has_vip ) {
         cybozu::logger::error() << "VIP has been lost.  Exiting quickly...";
         std::quick_exit(2);
     }
diff --git a/src/server.hpp b/src/server.hpp
index 1400484..140868a 100644
--- a/src/server.hpp
+++ b/src/server.hpp
@@ -10,10 +10,13 @@
 
 #include <cybozu/hash_map.hpp>
 #include <cybozu/ip_address.hpp>
+#include <cybozu/logger.hpp>
 #include <cybozu/reactor.hpp>
 #include <cybozu/worker.hpp>
 
+#include <cerrno>
 #include <ctime>
+#include <system_error>
 #include <vector>
 
 namespace yrmcds {
@@ -24,7 +27,14 @@ public:
     server();
 
     static bool is_master() {
-        return cybozu::has_ip_address( g_config.vip() );
+        try {
+            return cybozu::has_ip_address( g_config.vip() );
+        } catch( const std::system_error& e ) {
+            // If out of file descriptors, callers will check it again.
+            if( e.code().value() != EMFILE && e.code().value() != ENFILE ) throw;
+            cybozu::logger::error() << "Failed to check VIP: " << e.what();
+            return false;
+        }
     }
 
     void serve();
-- 
2.43.0


From 0c9264c8ac86d7bab658acc3e1b7750fb763c7a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:30 +0000
Subject: [PATCH 27/37] fix: do not die upon storing large objects for lack of
 file descriptors

---
 src/memcache/object.cpp | 69 +++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 24 deletions(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 48a144a..33eb252 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -4,12 +4,16 @@
 #include "object.hpp"
 #include "stats.hpp"
 
+#include <cybozu/logger.hpp>
+
 #include <atomic>
+#include <cerrno>
 #include <cstdint>
 #include <fcntl.h>
 #include <limits>
 #include <stdio.h>
 #include <string>
+#include <system_error>
 #include <unistd.h>
 
 namespace {
@@ -21,6 +25,18 @@ std::uint64_t to_uint64(const char* p, std::size_t len) {
     return static_cast<std::uint64_t>(ull);
 }
 
+// Return a new temporary file, or `nullptr` if file descriptors are run out.
+// In the latter case, data will be stored in the heap memory.
+std::unique_ptr<yrmcds::tempfile> new_tempfile() {
+    try {
+        return std::unique_ptr<yrmcds::tempfile>(new yrmcds::tempfile);
+    } catch( const std::system_error& e ) {
+        if( e.code().value() != EMFILE && e.code().value() != ENFILE ) throw;
+        cybozu::logger::warning() << "Failed to create a temporary file: " << e.what();
+        return nullptr;
+    }
+}
+
 } // anonymous namespace
 
 namespace yrmcds { namespace memcache {
@@ -43,8 +59,9 @@ object::object(const char* p, std::size_t len,
                std::uint32_t flags_, std::time_t exptime)
     : m_length(len), m_data(0, g_config.secure_erase()), m_file(nullptr),
       m_flags(flags_), m_exptime(exptime) {
-    if( len > g_config.heap_data_limit() ) {
-        m_file = std::unique_ptr<tempfile>(new tempfile);
+    if( len > g_config.heap_data_limit() )
+        m_file = new_tempfile();
+    if( m_file.get() != nullptr ) {
         m_file->write(p, len);
     } else {
         if( len > 0 )
@@ -73,13 +90,16 @@ void object::set(const char* p, std::size_t len,
 
     if( len > g_config.heap_data_limit() ) {
         if( m_file.get() == nullptr ) {
-            m_file = std::unique_ptr<tempfile>(new tempfile);
+            m_file = new_tempfile();
         } else {
             m_file->clear();
         }
-        m_file->write(p, len);
     } else {
         m_file = nullptr;
+    }
+    if( m_file.get() != nullptr ) {
+        m_file->write(p, len);
+    } else {
         if( len > 0 )
             m_data.append(p, len);
     }
@@ -92,16 +112,16 @@ void object::append(const char* p, std::size_t len) {
     if( len == 0 ) return;
 
     std::size_t new_size = m_length + len;
-    if( new_size > g_config.heap_data_limit() ) {
-        if( m_file.get() == nullptr ) {
-            m_file = std::unique_ptr<tempfile>(new tempfile);
+    if( new_size > g_config.heap_data_limit() && m_file.get() == nullptr ) {
+        m_file = new_tempfile();
+        if( m_file.get() != nullptr ) {
             if( m_length > 0 )
                 m_file->write(m_data.data(), m_length);
             m_data.reset();
-            m_file->write(p, len);
-        } else {
-            m_file->write(p, len);
         }
+    }
+    if( m_file.get() != nullptr ) {
+        m_file->write(p, len);
     } else {
         m_data.append(p, len);
     }
@@ -114,20 +134,21 @@ void object::prepend(const char* p, std::size_t len) {
     if( len == 0 ) return;
 
     std::size_t new_size = m_length + len;
-    if( new_size > g_config.heap_data_limit() ) {
-        if( m_file.get() == nullptr ) {
-            m_file = std::unique_ptr<tempfile>(new tempfile);
-            m_file->write(p, len);
-            if( m_length > 0 )
-                m_file->write(m_data.data(), m_length);
-            m_data.reset();
-        } else {
-            cybozu::dynbuf buf(new_size);
-            buf.append(p, len);
-            m_file->read_contents(buf);
-            m_file->clear();
-            m_file->write(buf.data(), new_size);
-        }
+    std::unique_ptr<tempfile> new_file;
+    if( new_size > g_config.heap_data_limit() && m_file.get() == nullptr )
+        new_file = new_tempfile();
+    if( new_file.get() != nullptr ) {
+        m_file = std::move(new_file);
+        m_file->write(p, len);
+        if( m_length > 0 )
+            m_file->write(m_data.data(), m_length);
+        m_data.reset();
+    } else if( m_file.get() != nullptr ) {
+        cybozu::dynbuf buf(new_size);
+        buf.append(p, len);
+        m_file->read_contents(buf);
+        m_file->clear();
+        m_file->write(buf.data(), new_size);
     } else {
         cybozu::dynbuf buf(new_size, g_config.secure_erase());
         buf.append(p, len);
-- 
2.43.0


From 43f2c3e554fc6da08275786297946cd385cded1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:48 +0000
Subject: [PATCH 28/37] fix: release locks of closed connections while GC runs
 continuously

---
 src/memcache/handler.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 509c07a..48bfcbd 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -31,6 +31,12 @@ bool handler::gc_ready(std::time_t now) {
             return false;
         m_last_gc = now;
         m_gc_thread = nullptr;
+
+        // Invalidated sockets cannot be destructed while GC is running.
+        // Unless they are given a chance between GCs, locks held by closed
+        // connections would not be released while GC runs continuously.
+        if( m_reactor.has_garbage() )
+            return false;
     }
 
     std::time_t t = g_stats.flush_time.load(relaxed);
-- 
2.43.0


From 66e85d913de9e966f133265b0c6ce62e60d01834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:31 +0000
Subject: [PATCH 29/37] fix: do not hang when stopped while a worker is
 executing a job

---
 cybozu/worker.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cybozu/worker.hpp b/cybozu/worker.hpp
index 3385774..d570d33 100644
--- a/cybozu/worker.hpp
+++ b/cybozu/worker.hpp
@@ -85,6 +85,10 @@ public:
             ssize_t n = ::read(m_event, &i, sizeof(i));
             if( n == -1 )
                 throw_unix_error(errno, "read(eventfd)");
+
+            // m_running may have been cleared after <stop> was called
+            // during the last job.
+            if( m_exit ) return;
             while( ! m_running.load(std::memory_order_acquire) );
 
             if( m_exit ) return;
@@ -103,7 +107,7 @@ private:
     alignas(CACHELINE_SIZE)
     std::atomic<bool> m_running;
     std::atomic<std::uint64_t> m_finished;
-    bool m_exit;
+    std::atomic<bool> m_exit;
     const int m_event;
     dynbuf m_buffer;
     job m_job;
-- 
2.43.0


From 0d9c579931f2301091ec7dc8b66dc10b2791aae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:41 +0000
Subject: [PATCH 30/37] fix: erase copies of values made for incr/decr when
 secure_erase is enabled

---
 src/memcache/object.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/memcache/object.cpp b/src/memcache/object.cpp
index 33eb252..40c05a0 100644
--- a/src/memcache/object.cpp
+++ b/src/memcache/object.cpp
@@ -19,7 +19,14 @@
 namespace {
 
 std::uint64_t to_uint64(const char* p, std::size_t len) {
-    unsigned long long ull = std::stoull( std::string(p, len) );
+    struct copy {
+        std::string s;
+        ~copy() {
+            if( yrmcds::g_config.secure_erase() && ! s.empty() )
+                cybozu::clear_memory(&s[0], s.size());
+        }
+    } c{ std::string(p, len) };
+    unsigned long long ull = std::stoull( c.s );
     if( ull > std::numeric_limits<std::uint64_t>::max() )
         throw std::out_of_range("out of range for uint64");
     return static_cast<std::uint64_t>(ull);
-- 
2.43.0


From 17835356fd82acdecaea1f128c799cb4194b5b59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:03 +0000
Subject: [PATCH 31/37] fix: send no updates to a new slave before its initial
 replication starts

Jobs that began before a slave joined do not send updates to it, whereas
other jobs do.  The slave could receive an object by the latter and miss
its removal by the former, so that it kept a removed object.  Removals by
a collection that was running when the slave joined were missed likewise.
---
 src/memcache/handler.cpp     |  3 +++
 src/memcache/replication.cpp | 12 ++++++------
 src/memcache/sockets.hpp     | 13 +++++++++++++
 3 files changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 48bfcbd..98ee817 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -134,6 +134,9 @@ void handler::on_master_interval() {
     }
 
     if( gc_ready(g_current_time.load(relaxed)) ) {
+        // All running jobs know new slaves by now.
+        for( repl_socket* slave: m_new_slaves )
+            slave->set_ready();
         m_gc_thread = std::unique_ptr<gc_thread>(
             new gc_thread(m_hash, m_slaves, m_new_slaves));
         m_new_slaves.clear();
diff --git a/src/memcache/replication.cpp b/src/memcache/replication.cpp
index 2ec94d0..c39910c 100644
--- a/src/memcache/replication.cpp
+++ b/src/memcache/replication.cpp
@@ -50,8 +50,8 @@ void repl_object(const std::vector<repl_socket*>& slaves,
         {key.data(), key.length()},
         {data.data(), data.size()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 4, flush);
+    for( repl_socket* s: slaves )
+        if( s->ready() ) s->sendv(iov, 4, flush);
 }
 
 void repl_touch(const std::vector<repl_socket*>& slaves,
@@ -65,8 +65,8 @@ void repl_touch(const std::vector<repl_socket*>& slaves,
         {extras, sizeof(extras)},
         {key.data(), key.length()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 3, true);
+    for( repl_socket* s: slaves )
+        if( s->ready() ) s->sendv(iov, 3, true);
 }
 
 void repl_delete(const std::vector<repl_socket*>& slaves,
@@ -77,8 +77,8 @@ void repl_delete(const std::vector<repl_socket*>& slaves,
         {header, sizeof(header)},
         {key.data(), key.length()}
     };
-    for( cybozu::tcp_socket* s: slaves )
-        s->sendv(iov, 2, false);
+    for( repl_socket* s: slaves )
+        if( s->ready() ) s->sendv(iov, 2, false);
 }
 
 std::size_t repl_recv(const char* p, std::size_t len,
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 7e7f46f..49227c2 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -16,6 +16,7 @@
 #include <cybozu/worker.hpp>
 
 #include <cstdint>
+#include <atomic>
 #include <functional>
 #include <vector>
 
@@ -117,6 +118,17 @@ public:
         return m_last_heartbeat + g_config.slave_timeout() <= now;
     }
 
+    // Updates are not sent to a slave until its initial replication starts.
+    // Jobs that began before the slave joined do not know the slave.  If the
+    // slave received updates by other jobs while such a job is running, it
+    // would miss removals of objects it has already received.
+    bool ready() const {
+        return m_ready.load(std::memory_order_relaxed);
+    }
+    void set_ready() {
+        m_ready.store(true, std::memory_order_relaxed);
+    }
+
     std::string peer_ip() {
         std::string addr = "unknown address";
         try {
@@ -141,6 +153,7 @@ private:
     std::vector<char> m_recvbuf;
     cybozu::worker::job m_sendjob;
     std::time_t m_last_heartbeat;
+    std::atomic<bool> m_ready{false};
 
     virtual bool on_readable(int) override final;
     virtual bool on_writable(int) override final;
-- 
2.43.0


From 14ed0d5ff197cfb61c9fc8deacfe64568fc524a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:21 +0000
Subject: [PATCH 32/37] fix: apply updates already received before giving up
 the master connection

When the connection to the master is reset, or this node gets the virtual
IP address, what the kernel has received from the master was thrown away
unread.  Updates that the old master had replicated were thus missing on
the new master.
---
 src/memcache/handler.cpp |  4 +++-
 src/memcache/sockets.cpp | 17 +++++++++++++++++
 src/memcache/sockets.hpp | 18 ++++++++++++++++--
 3 files changed, 36 insertions(+), 3 deletions(-)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index 98ee817..a6cab94 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -184,8 +184,10 @@ void handler::on_slave_interval() {
 }
 
 void handler::on_slave_end() {
-    if( m_repl_client_socket->valid() )
+    if( m_repl_client_socket->valid() ) {
+        m_repl_client_socket->drain();
         m_reactor.remove_resource(*m_repl_client_socket);
+    }
 }
 
 void handler::dump_stats() {
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 991b582..fe14267 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -10,6 +10,7 @@
 #include <cstdint>
 #include <cstring>
 #include <string>
+#include <sys/ioctl.h>
 #include <sys/socket.h>
 #include <sys/types.h>
 
@@ -1098,4 +1099,20 @@ bool repl_client_socket::on_readable(int fd) {
     return true;
 }
 
+void repl_client_socket::drain(int fd) {
+    int remain = 0;
+    if( ::ioctl(fd, FIONREAD, &remain) == -1 ) return;
+    while( remain > 0 ) {
+        char* p = m_recvbuf.prepare(MAX_RECVSIZE);
+        ssize_t n = ::recv(fd, p, MAX_RECVSIZE, 0);
+        if( n == -1 && errno == EINTR )
+            continue;
+        if( n <= 0 )
+            break;
+        m_recvbuf.consume(n);
+        m_recvbuf.erase( repl_recv(m_recvbuf.data(), m_recvbuf.size(), m_hash) );
+        remain -= n;
+    }
+}
+
 }} // namespace yrmcds::memcache
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index 49227c2..b97fa20 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -165,18 +165,32 @@ public:
     repl_client_socket(int fd, cybozu::hash_map<object>& m):
         cybozu::tcp_socket(fd), m_hash(m), m_recvbuf(30 << 20) {}
 
+    // Apply what has been received from the master but not been read yet.
+    //
+    // This must be called before giving up the connection, or updates that
+    // the master has replicated may be lost.  Only for the reactor thread.
+    void drain(int fd);
+    void drain() {
+        with_fd([this](int fd) -> bool {
+            drain(fd);
+            return true;
+        });
+    }
+
 private:
     cybozu::hash_map<object>& m_hash;
     cybozu::dynbuf m_recvbuf;
 
     virtual bool on_readable(int) override final;
-    virtual bool on_hangup(int) override final {
+    virtual bool on_hangup(int fd) override final {
         cybozu::logger::warning() << "The connection to master has hung up.";
+        drain(fd);
         m_reactor->quit();
         return invalidate();
     }
-    virtual bool on_error(int) override final {
+    virtual bool on_error(int fd) override final {
         cybozu::logger::warning() << "An error occurred on the connection to master.";
+        drain(fd);
         m_reactor->quit();
         return invalidate();
     }
-- 
2.43.0


From 61052a5c3e667754fd0f88283acbb7533c685fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:28:11 +0000
Subject: [PATCH 33/37] fix: set the clock before serving as the master

While a slave cannot connect to the master, nothing updates the clock.
After promotion the server thus served expired objects and gave new ones
deadlines in the past for up to a second.
---
 src/server.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/server.cpp b/src/server.cpp
index 9fdf23e..aa3e31b 100644
--- a/src/server.cpp
+++ b/src/server.cpp
@@ -12,6 +12,7 @@
 
 #include <algorithm>
 #include <cstdlib>
+#include <ctime>
 #include <signal.h>
 #include <thread>
 
@@ -128,6 +129,10 @@ void server::serve_slave() {
 void server::serve_master() {
     cybozu::logger::info() << "Entering master mode";
 
+    // The clock may have stopped long ago while this node was looking for
+    // its master.
+    g_current_time.store(std::time(nullptr), std::memory_order_relaxed);
+
     for( auto& handler: m_handlers )
         handler->on_master_start();
 
-- 
2.43.0


From bd97b67be5c83e50c658b3edeb7c7bf65b0f283c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:11 +0000
Subject: [PATCH 34/37] fix: do not call the interval callback after the
 reactor has been stopped

When the connection to the master ended in an iteration in which the
interval callback was due, the callback destroyed the replication client
socket, which handler::on_slave_end and the callback itself then used.
---
 cybozu/reactor.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/cybozu/reactor.cpp b/cybozu/reactor.cpp
index 2ab8f7d..8e99082 100644
--- a/cybozu/reactor.cpp
+++ b/cybozu/reactor.cpp
@@ -74,6 +74,7 @@ void reactor::run(std::function<void(reactor& r)> callback, int interval) {
     m_running = true;
     while( m_running ) {
         poll();
+        if( ! m_running ) break;
         auto now = crn::steady_clock::now();
         auto diff = crn::duration_cast<crn::milliseconds>(now - last).count();
         if( diff > milli_interval ) {
-- 
2.43.0


From a82c47ca5be3103f31cb7b491d995463015c6f88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:27 +0000
Subject: [PATCH 35/37] fix: do not lose the connection to the master silently
 when a heartbeat fails

A heartbeat on a connection that had just been reset dropped the
connection without leaving the slave mode.  The slave never connected to
a master again, and used the destroyed socket.
---
 src/memcache/handler.cpp | 3 +--
 src/memcache/sockets.cpp | 9 +++++++++
 src/memcache/sockets.hpp | 6 ++++++
 3 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/memcache/handler.cpp b/src/memcache/handler.cpp
index a6cab94..d3a54df 100644
--- a/src/memcache/handler.cpp
+++ b/src/memcache/handler.cpp
@@ -179,8 +179,7 @@ bool handler::on_slave_start() {
 
 void handler::on_slave_interval() {
     // ping to the master
-    char c = '\0';
-    m_repl_client_socket->send(&c, sizeof(c), true);
+    m_repl_client_socket->heartbeat();
 }
 
 void handler::on_slave_end() {
diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index fe14267..4c389ec 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -1099,6 +1099,15 @@ bool repl_client_socket::on_readable(int fd) {
     return true;
 }
 
+void repl_client_socket::heartbeat() {
+    with_fd([](int fd) -> bool {
+        char c = '\0';
+        while( ::send(fd, &c, sizeof(c), MSG_NOSIGNAL|MSG_DONTWAIT) == -1 &&
+               errno == EINTR );
+        return true;
+    });
+}
+
 void repl_client_socket::drain(int fd) {
     int remain = 0;
     if( ::ioctl(fd, FIONREAD, &remain) == -1 ) return;
diff --git a/src/memcache/sockets.hpp b/src/memcache/sockets.hpp
index b97fa20..4e855e1 100644
--- a/src/memcache/sockets.hpp
+++ b/src/memcache/sockets.hpp
@@ -165,6 +165,12 @@ public:
     repl_client_socket(int fd, cybozu::hash_map<object>& m):
         cybozu::tcp_socket(fd), m_hash(m), m_recvbuf(30 << 20) {}
 
+    // Send a heartbeat to the master.
+    //
+    // Errors are ignored.  If the connection is broken, the reactor gets to
+    // know it and calls `on_hangup` or `on_error`.
+    void heartbeat();
+
     // Apply what has been received from the master but not been read yet.
     //
     // This must be called before giving up the connection, or updates that
-- 
2.43.0


From f74246fdb3544157ef3a09ac562c661371f1c919 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 36/37] fix: do not exit when recv fails on a replication
 connection

recv may fail with ETIMEDOUT, EHOSTUNREACH, etc. when the host at the
other end goes down.  This killed the slave just when it was to be
promoted, or the master.
---
 src/memcache/sockets.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/memcache/sockets.cpp b/src/memcache/sockets.cpp
index 4c389ec..1968b45 100644
--- a/src/memcache/sockets.cpp
+++ b/src/memcache/sockets.cpp
@@ -13,6 +13,7 @@
 #include <sys/ioctl.h>
 #include <sys/socket.h>
 #include <sys/types.h>
+#include <system_error>
 
 namespace mc = yrmcds::memcache;
 using mc::text_command;
@@ -1029,7 +1030,10 @@ bool repl_socket::on_readable(int fd) {
                 cybozu::logger::info() << "The connection to the slave (" << addr << ") has been reset.";
                 return invalidate();
             }
-            cybozu::throw_unix_error(errno, "recv");
+            // e.g. ETIMEDOUT or EHOSTUNREACH when the slave's host is down.
+            cybozu::logger::warning() << "recv from a slave failed: "
+                                      << std::system_category().message(errno);
+            return invalidate();
         }
         if( n == 0 ) {
             std::string addr = "unknown address";
@@ -1078,7 +1082,11 @@ bool repl_client_socket::on_readable(int fd) {
                 m_reactor->quit();
                 return invalidate();
             }
-            cybozu::throw_unix_error(errno, "recv");
+            // e.g. ETIMEDOUT or EHOSTUNREACH when the master's host is down.
+            cybozu::logger::warning() << "recv from the master failed: "
+                                      << std::system_category().message(errno);
+            m_reactor->quit();
+            return invalidate();
         }
         if( n == 0 ) {
             cybozu::logger::info() << "The connection to master has been closed.";
-- 
2.43.0


From a62c1db9619f5e3b0ba03aec1281d43bc70c9597 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:42 +0000
Subject: [PATCH 37/37] fix: do not exit when recv fails on a client connection

recv may fail with ETIMEDOUT, EHOSTUNREACH, etc. when the client's host
goes down.  The whole server exited.
---
 cybozu/tcp.hpp | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/cybozu/tcp.hpp b/cybozu/tcp.hpp
index 65fece2..1e710a3 100644
--- a/cybozu/tcp.hpp
+++ b/cybozu/tcp.hpp
@@ -214,7 +214,9 @@ public:
                 n = ::recv(fd, p, max_recvsize, 0);
             } while( n == -1 && errno == EINTR );
 
-            return (n != -1) || (errno != ECONNRESET);
+            // Errors such as ETIMEDOUT (no answers to keep-alive probes) or
+            // EHOSTUNREACH end just this connection like ECONNRESET does.
+            return (n != -1) || (errno == EAGAIN) || (errno == EWOULDBLOCK);
         });
 
         if( ! ret ) {
@@ -225,11 +227,8 @@ public:
             return recv_result::NONE;
         }
 
-        if( n == -1 ) {
-            if( errno == EAGAIN || errno == EWOULDBLOCK )
-                return recv_result::AGAIN;
-            throw_unix_error(errno, "recv");
-        }
+        if( n == -1 )
+            return recv_result::AGAIN;
 
         buf.consume(n);
         return recv_result::OK;
-- 
2.43.0

