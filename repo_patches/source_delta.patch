From 93d781db2f120571ee9fe8cc7faa8acf6dbcfdb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:08:38 +0000
Subject: [PATCH 01/19] fix: concat_iterator: start in the second container
 when the first is empty

---
 lib/include/sse/schemes/utils/concat_iterator.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/lib/include/sse/schemes/utils/concat_iterator.hpp b/lib/include/sse/schemes/utils/concat_iterator.hpp
index f95fd9d..34835fb 100644
--- a/lib/include/sse/schemes/utils/concat_iterator.hpp
+++ b/lib/include/sse/schemes/utils/concat_iterator.hpp
@@ -53,6 +53,11 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        // an empty first container has no element to point to
+        if (internal_iterator == c1.end()) {
+            internal_iterator    = c2.begin();
+            point_to_container_2 = true;
+        }
     }
 
     concat_iterator(Container&         c1,
@@ -126,6 +131,11 @@ public:
         : container_1(&c1), container_2(&c2), internal_iterator(c1.begin()),
           point_to_container_2(false)
     {
+        // an empty first container has no element to point to
+        if (internal_iterator == c1.end()) {
+            internal_iterator    = c2.begin();
+            point_to_container_2 = true;
+        }
     }
 
     concat_const_iterator(const Container&   c1,
-- 
2.43.0


From fe1b276678212fde4efbbbc817ce6eb683cb6206 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:16 +0000
Subject: [PATCH 02/19] fix: RocksDBCounter: do not reset a counter that could
 not be read

---
 lib/utils/rocksdb_wrapper.cpp | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/lib/utils/rocksdb_wrapper.cpp b/lib/utils/rocksdb_wrapper.cpp
index 8661718..1107884 100644
--- a/lib/utils/rocksdb_wrapper.cpp
+++ b/lib/utils/rocksdb_wrapper.cpp
@@ -111,8 +111,14 @@ bool RocksDBCounter::get_and_increment(const std::string& key, uint32_t& val)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = 0;
+    } else {
+        // the counter could not be read: do not reset it
+        logger::logger()->error("Unable to read the counter\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
@@ -143,8 +149,14 @@ bool RocksDBCounter::increment(const std::string& key, uint32_t default_value)
         ::memcpy(&val, data.data(), sizeof(uint32_t));
 
         val++;
-    } else {
+    } else if (s.IsNotFound()) {
         val = default_value;
+    } else {
+        // the counter could not be read: do not reset it
+        logger::logger()->error("Unable to read the counter\nkey="
+                                + utility::hex_string(key)
+                                + "\nRocksdb status: " + s.ToString());
+        return false;
     }
 
     rocksdb::Slice k_v(reinterpret_cast<const char*>(&val), sizeof(uint32_t));
-- 
2.43.0


From 002a59b9d7deb1bafc4a5e8807b8a76611268b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 03/19] fix: awonvm_vector: reject reads at the end of the
 vector

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 087f142..160c7d6 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -333,7 +333,7 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 template<typename T, size_t ALIGNMENT>
 T awonvm_vector<T, ALIGNMENT>::get(size_t index)
 {
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -375,7 +375,7 @@ void awonvm_vector<T, ALIGNMENT>::async_get(size_t            index,
         m_io_warn_flag = true;
     }
 
-    if (index > m_size.load()) {
+    if (index >= m_size.load()) {
         throw std::invalid_argument("Index (" + std::to_string(index)
                                     + ") out of bounds (size="
                                     + std::to_string(m_size.load()) + ")");
@@ -438,7 +438,7 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     submissions.reserve(requests.size());
 
     for (const auto& req : requests) {
-        if (req.index > m_size.load()) {
+        if (req.index >= m_size.load()) {
             throw std::invalid_argument("Index (" + std::to_string(req.index)
                                         + ") out of bounds (size="
                                         + std::to_string(m_size.load()) + ")");
-- 
2.43.0


From ec74d0bfc34bde757ad0542b3d39e8265d42957f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 04/19] fix: awonvm_vector: synchronous and asynchronous
 appends agree on positions, none after commit

---
 .../sse/schemes/abstractio/awonvm_vector.hpp        | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 160c7d6..6afb95f 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -220,11 +220,11 @@ size_t awonvm_vector<T, ALIGNMENT>::push_back(const T& val)
     }
 
     size_t pos = m_size.fetch_add(1);
-    // off_t  off = pos * sizeof(T);
+    off_t  off = pos * sizeof(T);
 
-    // fix issue with the alignment of val
-    // int res = pwrite(m_fd, &val, sizeof(T), off);
-    int res = write(m_fd, &val, sizeof(T));
+    // the position in the file must not depend on the file cursor, which
+    // asynchronous writes do not move
+    int res = pwrite(m_fd, &val, sizeof(T), off);
 
     if (res != sizeof(T)) {
         std::cerr << "Error during pwrite: " << res << "\n";
@@ -246,6 +246,11 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
         throw std::runtime_error("No IO Scheduler set");
     }
 
+    if (m_is_committed) {
+        throw std::runtime_error(
+            "Invalid state during write: the vector is committed");
+    }
+
     if (!m_use_direct_io && !m_io_warn_flag) {
         std::cerr << "awonvm_vector uses buffered IOs. Calls for async IOs "
                      "will be synchronous.\n";
-- 
2.43.0


From ee351f319469fd1102c4d96010099d27c8999175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 05/19] fix: awonvm_vector: moving transfers the size and the
 state, and the source gives up the file

---
 .../sse/schemes/abstractio/awonvm_vector.hpp        | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 6afb95f..dbd3623 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -173,9 +173,14 @@ template<typename T, size_t ALIGNMENT>
 awonvm_vector<T, ALIGNMENT>::awonvm_vector(awonvm_vector&& vec) noexcept
     : m_filename(vec.m_filename), m_use_direct_io(vec.m_use_direct_io),
       m_fd(vec.m_fd), m_device_page_size(vec.m_device_page_size),
-      m_io_scheduler(std::move(vec.m_io_scheduler))
+      m_size(vec.m_size.load()), m_is_committed(vec.m_is_committed.load()),
+      m_io_scheduler(std::move(vec.m_io_scheduler)),
+      m_io_warn_flag(vec.m_io_warn_flag)
 {
-    vec.m_fd = 0;
+    // the moved-from vector does not own the file anymore
+    vec.m_fd           = -1;
+    vec.m_size         = 0;
+    vec.m_is_committed = true;
 }
 
 template<typename T, size_t ALIGNMENT>
@@ -188,7 +193,9 @@ awonvm_vector<T, ALIGNMENT>::~awonvm_vector()
             m_io_scheduler->wait_completions();
         }
     }
-    close(m_fd);
+    if (m_fd >= 0) {
+        close(m_fd);
+    }
 }
 
 template<typename T, size_t ALIGNMENT>
-- 
2.43.0


From 3cde4f8f4ca218ffc0cf543fab58728fcfa917a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 06/19] fix: awonvm_vector: free the I/O buffer of failed
 asynchronous requests

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index dbd3623..f355eeb 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -291,6 +291,7 @@ size_t awonvm_vector<T, ALIGNMENT>::async_push_back(const T& val)
     ret = m_io_scheduler->submit_pwrite(m_fd, buf, sizeof(T), off, buf, cb);
 
     if (ret != 1) {
+        free(buf);
         // we should have a specific exception type here to be able to return
         // which position was corrupted
         throw std::runtime_error("Error when submitting the read async IO: "
@@ -473,6 +474,8 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
 
             if (res == sizeof(T)) {
                 result.reset(reinterpret_cast<T*>(buf));
+            } else {
+                free(buf); // avoid memory leaks
             }
 
             get_callback(std::move(result));
-- 
2.43.0


From 2ed4f89a0eebd70911bf6c24d92e216067ec5275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:12 +0000
Subject: [PATCH 07/19] fix: awonvm_vector: set_use_direct_access without a
 scheduler

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index f355eeb..7734f43 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -325,7 +325,9 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 {
     if (flag != m_use_direct_io) {
         // wait for unfinished async IOs
-        m_io_scheduler->wait_completions();
+        if (m_io_scheduler) {
+            m_io_scheduler->wait_completions();
+        }
 
         // close the current file descriptor
         close(m_fd);
@@ -335,8 +337,10 @@ void awonvm_vector<T, ALIGNMENT>::set_use_direct_access(bool flag)
 
 
         // recreate an async scheduler
-        Scheduler* new_sched = m_io_scheduler->duplicate();
-        m_io_scheduler.reset(new_sched);
+        if (m_io_scheduler) {
+            Scheduler* new_sched = m_io_scheduler->duplicate();
+            m_io_scheduler.reset(new_sched);
+        }
 
         m_use_direct_io = flag;
         m_io_warn_flag  = false;
-- 
2.43.0


From 4f8c9d1e7f6cee11073d2c88e19985ae819b5a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 08/19] fix: awonvm_vector: drop unused reserved space when
 committing

---
 lib/include/sse/schemes/abstractio/awonvm_vector.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 7734f43..8a15865 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -308,6 +308,15 @@ void awonvm_vector<T, ALIGNMENT>::commit() noexcept
     if (!m_is_committed) {
         if (m_io_scheduler) {
             m_io_scheduler->wait_completions();
+        }
+
+        // drop the space that has been reserved and not been used: the size of
+        // a reopened vector is computed from the size of the file
+        if (ftruncate(m_fd, m_size.load() * sizeof(T)) != 0) {
+            std::cerr << "Error during ftruncate: errno " << errno << "\n";
+        }
+
+        if (m_io_scheduler) {
             Scheduler* new_sched = m_io_scheduler->duplicate();
             m_io_scheduler.reset(
                 new_sched); // this will block until the completion of write
-- 
2.43.0


From 7d4eaf93997ea065c747b2ec4fe61f4cabc1b722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 09/19] fix: thread pool scheduler: take the lock when waiting
 for completions

---
 lib/abstractio/thread_pool_aio_scheduler.cpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/lib/abstractio/thread_pool_aio_scheduler.cpp b/lib/abstractio/thread_pool_aio_scheduler.cpp
index 95b7725..70f73bb 100644
--- a/lib/abstractio/thread_pool_aio_scheduler.cpp
+++ b/lib/abstractio/thread_pool_aio_scheduler.cpp
@@ -32,11 +32,10 @@ ThreadPoolAIOScheduler::~ThreadPoolAIOScheduler()
 
 void ThreadPoolAIOScheduler::wait_completions()
 {
-    while (this->m_running_queries != 0) {
-        std::unique_lock<std::mutex> lock(m_cv_lock);
-        m_cv_submission.wait(lock,
-                             [this] { return this->m_running_queries == 0; });
-    }
+    // always take the lock: the last query still uses it, and the scheduler
+    // might be destroyed as soon as this function returns
+    std::unique_lock<std::mutex> lock(m_cv_lock);
+    m_cv_submission.wait(lock, [this] { return this->m_running_queries == 0; });
 }
 
 int ThreadPoolAIOScheduler::submit_pread(int                     fd,
-- 
2.43.0


From 701b0c0638218ddf9884f3990fd492528b969e9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:08 +0000
Subject: [PATCH 10/19] fix: linux aio: a failed io_getevents does not complete
 any query

---
 lib/abstractio/linux_aio_scheduler.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index bd41073..4a47369 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -67,8 +67,10 @@ void LinuxAIOScheduler::notify_loop()
         int num_events = io_getevents(m_ioctx, 1, kMaxNr, events, &timeout);
 
         if (num_events < 0) {
-            std::cerr << "Error in io_getevents: " << std::to_string(errno)
-                      << "(" << strerror(errno) << ")\n";
+            // libaio returns the error code, and no event has been read
+            std::cerr << "Error in io_getevents: " << std::to_string(-num_events)
+                      << "(" << strerror(-num_events) << ")\n";
+            continue;
         }
 
         if (num_events > 0) {
-- 
2.43.0


From 49cb491d473800ed19ff0e8d74b0dfb9ef15edcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:32:19 +0000
Subject: [PATCH 11/19] fix: batches of reads report which requests have been
 accepted

---
 lib/abstractio/linux_aio_scheduler.cpp        | 21 +++++++++++++------
 .../sse/schemes/abstractio/awonvm_vector.hpp  |  6 ++++--
 .../sse/schemes/abstractio/scheduler.hpp      |  8 +++++--
 3 files changed, 25 insertions(+), 10 deletions(-)

diff --git a/lib/abstractio/linux_aio_scheduler.cpp b/lib/abstractio/linux_aio_scheduler.cpp
index 4a47369..b5368e9 100644
--- a/lib/abstractio/linux_aio_scheduler.cpp
+++ b/lib/abstractio/linux_aio_scheduler.cpp
@@ -150,14 +150,23 @@ size_t LinuxAIOScheduler::submit_iocbs(struct iocb** iocbs, size_t n_iocbs)
             std::unique_lock<std::mutex> lock(m_cv_lock);
 
             m_waiting_submissions = true;
-            while (m_waiting_submissions) {
-                m_cv_submission.wait(lock);
-            }
+            // do not wait forever: all the events might already have been
+            // reaped when the flag is set
+            m_cv_submission.wait_for(lock,
+                                     std::chrono::milliseconds(10),
+                                     [this] { return !m_waiting_submissions; });
         } else {
-            m_failed_queries_count.fetch_add(remaining_subs);
             std::cerr << "Submission error: " << res << "\n";
             perror("io_submit");
-            return -1;
+            // the remaining requests will never complete
+            for (size_t i = 0; i < remaining_subs; i++) {
+                delete static_cast<LinuxAIORequest*>(iocbs_head[i]->data);
+            }
+            m_failed_queries_count.fetch_add(remaining_subs);
+            if (remaining_subs == n_iocbs) {
+                return -1; // nothing has been submitted
+            }
+            break;
         }
     }
 
@@ -219,7 +228,7 @@ int LinuxAIOScheduler::submit_preads(const std::vector<PReadSumission>& subs)
     for (const auto& sub : subs) {
         // check that the arguments are well-formed
         if (check_args(sub.buf, sub.len, sub.offset) != 0) {
-            continue;
+            break;
         }
 
         uint64_t         query_id = m_submitted_queries_count.fetch_add(1);
diff --git a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
index 8a15865..1062965 100644
--- a/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
+++ b/lib/include/sse/schemes/abstractio/awonvm_vector.hpp
@@ -501,8 +501,10 @@ void awonvm_vector<T, ALIGNMENT>::async_gets(
     int ret = m_io_scheduler->submit_preads(submissions);
 
     if (ret < 0 || static_cast<size_t>(ret) != submissions.size()) {
-        for (auto& sub : submissions) {
-            free(sub.buf);
+        // the first ret requests have been accepted: their buffers are freed by
+        // their callbacks
+        for (size_t i = (ret < 0) ? 0 : ret; i < submissions.size(); i++) {
+            free(submissions[i].buf);
         }
 
         throw std::runtime_error(
diff --git a/lib/include/sse/schemes/abstractio/scheduler.hpp b/lib/include/sse/schemes/abstractio/scheduler.hpp
index 4bb2915..d4d81a4 100644
--- a/lib/include/sse/schemes/abstractio/scheduler.hpp
+++ b/lib/include/sse/schemes/abstractio/scheduler.hpp
@@ -79,6 +79,9 @@ public:
                              scheduler_callback_type callback)
         = 0;
 
+    // submits the requests in order and stops at the first one which is
+    // rejected. Returns the number of accepted requests (these are the first
+    // ones), or a negative error code if none has been accepted.
     inline virtual int submit_preads(const std::vector<PReadSumission>& subs);
 
     virtual int submit_pwrite(int                     fd,
@@ -102,9 +105,10 @@ int Scheduler::submit_preads(const std::vector<PReadSumission>& subs)
         int err = this->submit_pread(
             read.fd, read.buf, read.len, read.offset, read.data, read.callback);
 
-        if (err == 1) {
-            ret++;
+        if (err != 1) {
+            break;
         }
+        ret++;
     }
     return ret;
 }
-- 
2.43.0


From 4e58e9a18c59d6d999250752416518e44935256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:37:28 +0000
Subject: [PATCH 12/19] fix: logger: create the shared logger under a lock

Threads logging for the first time at the same time would all try to
register it: the registration throws in all but one of them, and a failing
asynchronous read was then never reported to its caller.
---
 lib/utils/logger.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/utils/logger.cpp b/lib/utils/logger.cpp
index 69813c8..d7d8f40 100644
--- a/lib/utils/logger.cpp
+++ b/lib/utils/logger.cpp
@@ -28,14 +28,20 @@
 #include <fstream>
 #include <iostream>
 #include <memory>
+#include <mutex>
 
 namespace sse {
 namespace logger {
 
 std::shared_ptr<spdlog::logger> shared_logger_(nullptr);
 
+// logger() is called from concurrent threads
+static std::mutex shared_logger_mutex_;
+
 std::shared_ptr<spdlog::logger> logger()
 {
+    std::lock_guard<std::mutex> lock(shared_logger_mutex_);
+
     if (!shared_logger_) {
         // initialize the logger
         shared_logger_ = spdlog::stderr_color_mt("console");
@@ -45,6 +51,8 @@ std::shared_ptr<spdlog::logger> logger()
 
 void set_logger(const std::shared_ptr<spdlog::logger>& logger)
 {
+    std::lock_guard<std::mutex> lock(shared_logger_mutex_);
+
     if (logger) {
         shared_logger_ = logger;
     } else {
-- 
2.43.0


From ac2b94f658aa8980297f039a797dac61a1a4845b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:24:02 +0000
Subject: [PATCH 13/19] fix: a moved-from CuckooBuilder no longer commits when
 destructed

---
 lib/include/sse/schemes/oceanus/cuckoo.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/oceanus/cuckoo.hpp b/lib/include/sse/schemes/oceanus/cuckoo.hpp
index 11841d3..651adb9 100644
--- a/lib/include/sse/schemes/oceanus/cuckoo.hpp
+++ b/lib/include/sse/schemes/oceanus/cuckoo.hpp
@@ -48,7 +48,14 @@ public:
     using param_type   = CuckooBuilderParam;
 
     explicit CuckooBuilder(CuckooBuilderParam p);
-    CuckooBuilder(CuckooBuilder&&) noexcept = default;
+    CuckooBuilder(CuckooBuilder&& rhs) noexcept
+        : params(std::move(rhs.params)), allocator(std::move(rhs.allocator)),
+          data(std::move(rhs.data)), spilled_data(std::move(rhs.spilled_data)),
+          n_elements(rhs.n_elements), is_committed(rhs.is_committed)
+    {
+        // the moved-from builder must not commit anything when destructed
+        rhs.is_committed = true;
+    }
 
     ~CuckooBuilder();
 
-- 
2.43.0


From c310b4c4ec0a046f8604d29a5ad0573b5ed88dce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 14/19] fix: tethys store: a bucket is counted as read after it
 is stored in the state

---
 lib/include/sse/schemes/tethys/tethys_store.hpp | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/lib/include/sse/schemes/tethys/tethys_store.hpp b/lib/include/sse/schemes/tethys/tethys_store.hpp
index 7858920..e4bee6e 100644
--- a/lib/include/sse/schemes/tethys/tethys_store.hpp
+++ b/lib/include/sse/schemes/tethys/tethys_store.hpp
@@ -334,16 +334,21 @@ void TethysStore<PAGE_SIZE, Key, T, TethysHasher, ValueDecoder>::
 {
     auto bucket_cb = [this, callback, state](
                          std::unique_ptr<payload_type> bucket, size_t index) {
-        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
-
-        if (completed == 1) {
+        // the first bucket of a key is in the first half of the table, the
+        // second one in the second half
+        if (index < table_size / 2) {
             state->index_0  = index;
             state->bucket_0 = std::move(bucket);
-        } else if (completed == 2) {
+        } else {
             state->index_1  = index;
             state->bucket_1 = std::move(bucket);
+        }
 
+        // the callbacks of the two buckets can run concurrently: a bucket is
+        // counted only once it has been stored in the state
+        uint8_t completed = state->completion_counter.fetch_add(1) + 1;
 
+        if (completed == 2) {
             std::vector<T> stash_res;
 
             auto stash_it = stash.find(state->key);
-- 
2.43.0


From 11341596c09dc0452cf3885761641c81ace846ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:39:44 +0000
Subject: [PATCH 15/19] fix: EncodeSeparateEncoder: do not encode an empty
 share

---
 lib/include/sse/schemes/tethys/encoders/encode_separate.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
index 35237fa..0dd002a 100644
--- a/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
+++ b/lib/include/sse/schemes/tethys/encoders/encode_separate.hpp
@@ -78,6 +78,12 @@ struct EncodeSeparateEncoder
         // spilled control values
         encoded_list_size = std::min(encoded_list_size, original_list_size);
 
+        if (encoded_list_size == 0) {
+            // a zero length marks the end of the bucket for the decoder, which
+            // would miss the lists encoded afterwards
+            return 0;
+        }
+
         auto sublist_begin = values.begin();
         auto sublist_end   = values.end();
         // size_t sublist_begin = 0;
-- 
2.43.0


From 96733a080e8a2fb650d86079b691f87c892f587d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 16/19] fix: pluto server: the padding of a full block is not
 part of the results

---
 lib/include/sse/schemes/pluto/pluto_server.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_server.hpp b/lib/include/sse/schemes/pluto/pluto_server.hpp
index ac69fe1..5854ef9 100644
--- a/lib/include/sse/schemes/pluto/pluto_server.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_server.hpp
@@ -60,9 +60,13 @@ auto PlutoServer<Params>::search(const SearchRequest& search_request)
         try {
             typename Params::ht_value_type v = hash_table.get(key);
 
-            res.complete_lists.reserve(res.complete_lists.size() + v.size());
-            res.complete_lists.insert(
-                res.complete_lists.end(), v.begin(), v.end());
+            // only the first kPlutoListLength entries of the value are list
+            // elements, the rest is padding
+            res.complete_lists.reserve(res.complete_lists.size()
+                                       + Params::kPlutoListLength);
+            res.complete_lists.insert(res.complete_lists.end(),
+                                      v.begin(),
+                                      v.begin() + Params::kPlutoListLength);
         } catch (const std::out_of_range& e) {
             break;
         }
-- 
2.43.0


From e38fcd2c82a524f5a9fd5c41e2f9e3d35fa1e63a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:19:23 +0000
Subject: [PATCH 17/19] fix: pluto builder: building an empty database inserted
 dummy blocks without end

---
 lib/include/sse/schemes/pluto/pluto_builder.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/pluto/pluto_builder.hpp b/lib/include/sse/schemes/pluto/pluto_builder.hpp
index 4475dce..47a04f1 100644
--- a/lib/include/sse/schemes/pluto/pluto_builder.hpp
+++ b/lib/include/sse/schemes/pluto/pluto_builder.hpp
@@ -92,7 +92,8 @@ void PlutoBuilder<Params>::build()
     // for the security of the scheme, because we do not want to leak the
     // number of full blocks, we have to insert a dummy block in the hash
     // table
-    const size_t n_full_blocks = 1 + ((n_elts - 1) / Params::kPlutoListLength);
+    const size_t n_full_blocks
+        = (n_elts + Params::kPlutoListLength - 1) / Params::kPlutoListLength;
 
     typename Params::ht_value_type v = {0x00};
 
-- 
2.43.0


From 7ce59ea797d03740c60f210859848ace20abe834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:46 +0000
Subject: [PATCH 18/19] fix: diana client: the match count is the number of
 entries, not the last index

---
 lib/include/sse/schemes/diana/diana_client.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/include/sse/schemes/diana/diana_client.hpp b/lib/include/sse/schemes/diana/diana_client.hpp
index ec3d036..a54180d 100644
--- a/lib/include/sse/schemes/diana/diana_client.hpp
+++ b/lib/include/sse/schemes/diana/diana_client.hpp
@@ -126,7 +126,8 @@ uint32_t DianaClient<T>::get_match_count(const std::string& kw) const
 
     bool found = counter_map_.get(kw, kw_counter);
 
-    return (found) ? kw_counter : 0;
+    // the counter stores the number of the last entry, the first one being 0
+    return (found) ? kw_counter + 1 : 0;
 }
 
 template<typename T>
-- 
2.43.0


From b646610df4bd54c94bd04d2528593c6508534776 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:17:58 +0000
Subject: [PATCH 19/19] fix: sophos server: TDP orders beyond the pool's
 maximum ended the process

search_parallel_light and the callback variants evaluate the TDP with the
requested number of threads as order, which throws inside of a thread when
it exceeds the order of the pool; the order of the pool itself was 0 when
the number of hardware threads is unknown and wrapped for 128 or more.
---
 .../sse/schemes/sophos/sophos_server.hpp      |  3 +++
 lib/sophos/sophos_server.cpp                  | 21 +++++++++++++++++--
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/lib/include/sse/schemes/sophos/sophos_server.hpp b/lib/include/sse/schemes/sophos/sophos_server.hpp
index 4ae058c..bf89148 100644
--- a/lib/include/sse/schemes/sophos/sophos_server.hpp
+++ b/lib/include/sse/schemes/sophos/sophos_server.hpp
@@ -67,6 +67,9 @@ public:
 private:
     RockDBWrapper edb_;
 
+    // maximum order of the TDP pool
+    uint8_t max_rsa_threads_;
+
     sse::crypto::TdpMultPool public_tdp_;
 };
 
diff --git a/lib/sophos/sophos_server.cpp b/lib/sophos/sophos_server.cpp
index 832df6d..02f034d 100644
--- a/lib/sophos/sophos_server.cpp
+++ b/lib/sophos/sophos_server.cpp
@@ -30,11 +30,18 @@
 namespace sse {
 namespace sophos {
 
+// the order of the TDP pool must be positive and fits on 8 bits, whatever the
+// number of hardware threads (0 if it is unknown)
+static uint8_t tdp_pool_order()
+{
+    const unsigned n_threads = std::thread::hardware_concurrency();
+    return 2 * std::min<unsigned>(std::max<unsigned>(n_threads, 1), 127);
+}
 
 SophosServer::SophosServer(const std::string& db_path,
                            const std::string& tdp_pk)
-    : edb_(db_path),
-      public_tdp_(tdp_pk, 2 * std::thread::hardware_concurrency())
+    : edb_(db_path), max_rsa_threads_(tdp_pool_order()),
+      public_tdp_(tdp_pk, max_rsa_threads_)
 {
 }
 
@@ -208,6 +215,7 @@ std::list<index_type> SophosServer::search_parallel(SearchRequest& req,
     // use at least two threads to make the RSA computations
     unsigned n_rsa_threads
         = std::max<unsigned>(std::thread::hardware_concurrency(), 2);
+    n_rsa_threads = std::min<unsigned>(n_rsa_threads, max_rsa_threads_);
 
     for (unsigned t = 0; t < n_rsa_threads; t++) {
         rsa_threads.emplace_back(rsa_job, t, req.add_count, n_rsa_threads);
@@ -295,6 +303,9 @@ std::list<index_type> SophosServer::search_parallel_light(SearchRequest& req,
 
     std::vector<std::thread> rsa_threads;
 
+    // the TDP cannot be evaluated with a larger order
+    thread_count = std::min(thread_count, max_rsa_threads_);
+
     //    unsigned n_threads =
     //    std::thread::hardware_concurrency()-access_threads;
 
@@ -384,6 +395,9 @@ void SophosServer::search_parallel_callback(
 
     std::vector<std::thread> rsa_threads;
 
+    // the TDP cannot be evaluated with a larger order
+    rsa_thread_count = std::min(rsa_thread_count, max_rsa_threads_);
+
     //    unsigned n_threads =
     //    std::thread::hardware_concurrency()-access_threads;
 
@@ -469,6 +483,9 @@ void SophosServer::search_parallel_light_callback(
 
     std::vector<std::thread> rsa_threads;
 
+    // the TDP cannot be evaluated with a larger order
+    thread_count = std::min(thread_count, max_rsa_threads_);
+
     //    unsigned n_threads =
     //    std::thread::hardware_concurrency()-access_threads;
 
-- 
2.43.0

