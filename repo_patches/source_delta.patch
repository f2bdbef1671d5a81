From ea3aa63abaf0abe02f429a86bbfd0d3398dcda4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:28 +0000
Subject: [PATCH 001/119] fix: vector: resize(n, true) releases the blocks it
 cuts off

---
 include/stxxl/bits/containers/vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index d87be88..63415a7 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1149,7 +1149,7 @@ private:
             if (m_from != NULL)
                 m_from->set_size(new_bids_size * block_type::raw_size);
             else
-                m_bm->delete_blocks(m_bids.begin() + old_bids_size, m_bids.end());
+                m_bm->delete_blocks(m_bids.begin() + new_bids_size, m_bids.end());
 
             m_bids.resize(new_bids_size);
 
-- 
2.43.0


From 362269d96c44f19fdd10ccbd199291b176de73a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 002/119] fix: vector_bufwriter: keep the last full block when
 growing the vector at a block boundary

---
 include/stxxl/bits/containers/vector.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 63415a7..6c95380 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -2481,8 +2481,9 @@ public:
                 delete m_bufout;
                 m_bufout = NULL;
 
-                if (m_iter.block_offset() != 0)
-                    m_iter.block_externally_updated();
+                // inform the vector about the last block written, also if it was
+                // completed exactly at the end of the vector.
+                m_prevblk.block_externally_updated();
             }
 
             vector_type& v = *m_iter.parent_vector();
-- 
2.43.0


From 923a672b8b1dea279e52136ffcf98123e26dcd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:43 +0000
Subject: [PATCH 003/119] fix: vector: forget cached pages beyond the end when
 the capacity shrinks

---
 include/stxxl/bits/containers/vector.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 6c95380..18793bc 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1153,13 +1153,13 @@ private:
 
             m_bids.resize(new_bids_size);
 
-            // don't resize m_page_to_slot or m_page_status, because it is
-            // still needed to check page status and match the mapping
-            // m_slot_to_page
-
-            // clear dirty flag, so these pages will be never written
-            std::fill(m_page_status.begin() + new_pages_size,
-                      m_page_status.end(), (unsigned char)valid_on_disk);
+            // evict the removed pages from the cache, they will never be written
+            for (size_t i = new_pages_size; i < m_page_status.size(); ++i) {
+                if (m_page_to_slot[i] != on_disk)
+                    m_free_slots.push(m_page_to_slot[i]);
+            }
+            m_page_status.resize(new_pages_size);
+            m_page_to_slot.resize(new_pages_size);
         }
 
         m_size = n;
-- 
2.43.0


From 3db0e5a62e66e6d6bd84a471ddb12f471a9b49c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:27 +0000
Subject: [PATCH 004/119] fix: onoff_switch: a spurious wakeup does not end
 wait_for_on() and wait_for_off()

---
 include/stxxl/bits/common/onoff_switch.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/onoff_switch.h b/include/stxxl/bits/common/onoff_switch.h
index 2d87fa3..df6393f 100644
--- a/include/stxxl/bits/common/onoff_switch.h
+++ b/include/stxxl/bits/common/onoff_switch.h
@@ -61,14 +61,14 @@ public:
     void wait_for_on()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (!m_on)
+        while (!m_on)
             m_cond.wait(lock);
     }
     //! wait for switch to turn OFF
     void wait_for_off()
     {
         scoped_mutex_lock lock(m_mutex);
-        if (m_on)
+        while (m_on)
             m_cond.wait(lock);
     }
     //! return true if switch is ON
-- 
2.43.0


From ab029360c4c694ce3817f82b878d54cf5a0fd894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:33 +0000
Subject: [PATCH 005/119] fix: disk_queues: protect the map of queues, requests
 may be issued by several threads

---
 include/stxxl/bits/io/disk_queues.h | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/io/disk_queues.h b/include/stxxl/bits/io/disk_queues.h
index 9aa2312..19c8976 100644
--- a/include/stxxl/bits/io/disk_queues.h
+++ b/include/stxxl/bits/io/disk_queues.h
@@ -20,6 +20,7 @@
 
 #include <stxxl/bits/namespace.h>
 #include <stxxl/bits/singleton.h>
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/io/iostats.h>
 #include <stxxl/bits/io/request.h>
 #include <stxxl/bits/io/request_queue_impl_qwqr.h>
@@ -43,6 +44,10 @@ class disk_queues : public singleton<disk_queues>
 
 protected:
     request_queue_map queues;
+
+    //! protects queues: requests may be issued by several threads
+    mutex queues_mutex;
+
     disk_queues()
     {
         stxxl::stats::get_instance(); // initialize stats before ourselves
@@ -54,6 +59,7 @@ public:
 #ifdef STXXL_HACK_SINGLE_IO_THREAD
         disk = 42;
 #endif
+        scoped_mutex_lock lock(queues_mutex);
         request_queue_map::iterator qi = queues.find(disk);
         request_queue* q;
         if (qi == queues.end())
@@ -70,6 +76,7 @@ public:
         }
         else
             q = qi->second;
+        lock.unlock();
 
         q->add_request(req);
     }
@@ -87,18 +94,17 @@ public:
 #ifdef STXXL_HACK_SINGLE_IO_THREAD
         disk = 42;
 #endif
-        if (queues.find(disk) != queues.end())
-            return queues[disk]->cancel_request(req);
+        if (request_queue* q = get_queue(disk))
+            return q->cancel_request(req);
         else
             return false;
     }
 
     request_queue * get_queue(DISKID disk)
     {
-        if (queues.find(disk) != queues.end())
-            return queues[disk];
-        else
-            return NULL;
+        scoped_mutex_lock lock(queues_mutex);
+        request_queue_map::iterator qi = queues.find(disk);
+        return (qi != queues.end()) ? qi->second : NULL;
     }
 
     ~disk_queues()
@@ -115,6 +121,7 @@ public:
     //!                 - NONE, read and write requests are served by turns, alternately
     void set_priority_op(request_queue::priority_op op)
     {
+        scoped_mutex_lock lock(queues_mutex);
         for (request_queue_map::iterator i = queues.begin(); i != queues.end(); i++)
             i->second->set_priority_op(op);
     }
-- 
2.43.0


From 6b05513bc9e30af553842755596c6c058d44db54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 006/119] fix: wait_any: remove the waiter from all requests
 when one of them reports an error

---
 include/stxxl/bits/io/request_operations.h | 42 ++++++++++++----------
 1 file changed, 24 insertions(+), 18 deletions(-)

diff --git a/include/stxxl/bits/io/request_operations.h b/include/stxxl/bits/io/request_operations.h
index 4d04828..4569679 100644
--- a/include/stxxl/bits/io/request_operations.h
+++ b/include/stxxl/bits/io/request_operations.h
@@ -109,33 +109,39 @@ RequestIterator wait_any(RequestIterator reqs_begin, RequestIterator reqs_end)
 
     RequestIterator cur = reqs_begin, result = reqs_end;
 
-    for ( ; cur != reqs_end; cur++)
+    try
     {
-        if ((request_ptr(*cur))->add_waiter(&sw))
+        for ( ; cur != reqs_end; cur++)
         {
-            // request is already done, no waiter was added to the request
-            result = cur;
-
-            if (cur != reqs_begin)
+            if ((request_ptr(*cur))->add_waiter(&sw))
             {
-                while (--cur != reqs_begin)
-                    (request_ptr(*cur))->delete_waiter(&sw);
-
-                (request_ptr(*cur))->delete_waiter(&sw);
+                // request is already done, no waiter was added to the request
+                result = cur;
+                break;
             }
-
-            (request_ptr(*result))->check_errors();
-
-            return result;
         }
-    }
 
-    sw.wait_for_on();
+        if (result == reqs_end)
+            sw.wait_for_on();
+    }
+    catch (...)
+    {
+        // a failed request rethrows its error, sw must not stay registered
+        for (cur = reqs_begin; cur != reqs_end; cur++)
+            (request_ptr(*cur))->delete_waiter(&sw);
+        throw;
+    }
 
+    // remove all waiters before errors are rethrown
     for (cur = reqs_begin; cur != reqs_end; cur++)
-    {
         (request_ptr(*cur))->delete_waiter(&sw);
-        if (result == reqs_end && (request_ptr(*cur))->poll())
+
+    if (result != reqs_end)
+        (request_ptr(*result))->check_errors();
+
+    for (cur = reqs_begin; cur != reqs_end && result == reqs_end; cur++)
+    {
+        if ((request_ptr(*cur))->poll())
             result = cur;
     }
 
-- 
2.43.0


From 2f42cc7d536a5692ed0686330c02733489ce4897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:14 +0000
Subject: [PATCH 007/119] fix: request queues: do not wait on the semaphore
 with the queue locked when cancelling

---
 lib/io/linuxaio_queue.cpp          | 11 +++++++++--
 lib/io/request_queue_impl_1q.cpp   |  6 +++++-
 lib/io/request_queue_impl_qwqr.cpp |  7 +++++--
 3 files changed, 19 insertions(+), 5 deletions(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 08bc72d..b61330d 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -98,6 +98,7 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
         STXXL_ERRMSG("Non-LinuxAIO request submitted to LinuxAIO queue.");
 
     queue_type::iterator pos;
+    bool was_still_waiting = false;
     {
         scoped_mutex_lock lock(waiting_mtx);
 
@@ -111,11 +112,17 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
             // request is canceled, but was not yet posted.
             dynamic_cast<linuxaio_request*>(req.get())->completed(false, true);
 
-            num_waiting_requests--; // will never block
-            return true;
+            was_still_waiting = true;
         }
     }
 
+    // only now that the queue is unlocked: the posting thread may have passed
+    // the semaphore already, and has to find the queue empty to raise it again.
+    if (was_still_waiting) {
+        num_waiting_requests--;
+        return true;
+    }
+
     scoped_mutex_lock lock(posted_mtx);
 
     return false;
diff --git a/lib/io/request_queue_impl_1q.cpp b/lib/io/request_queue_impl_1q.cpp
index 554978a..9366c45 100644
--- a/lib/io/request_queue_impl_1q.cpp
+++ b/lib/io/request_queue_impl_1q.cpp
@@ -96,10 +96,14 @@ bool request_queue_impl_1q::cancel_request(request_ptr& req)
         {
             m_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
 
+    // only now that the queue is unlocked: the worker may have passed the
+    // semaphore already, and has to find the queue empty to raise it again.
+    if (was_still_in_queue)
+        m_sem--;
+
     return was_still_in_queue;
 }
 
diff --git a/lib/io/request_queue_impl_qwqr.cpp b/lib/io/request_queue_impl_qwqr.cpp
index 27e471d..fdc9520 100644
--- a/lib/io/request_queue_impl_qwqr.cpp
+++ b/lib/io/request_queue_impl_qwqr.cpp
@@ -114,7 +114,6 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_read_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
     else
@@ -127,10 +126,14 @@ bool request_queue_impl_qwqr::cancel_request(request_ptr& req)
         {
             m_write_queue.erase(pos);
             was_still_in_queue = true;
-            m_sem--;
         }
     }
 
+    // only now that the queue is unlocked: the worker may have passed the
+    // semaphore already, and has to find the queue empty to raise it again.
+    if (was_still_in_queue)
+        m_sem--;
+
     return was_still_in_queue;
 }
 
-- 
2.43.0


From 9c8aa56a52ff9cc3c700a60304c1688d78420500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:40 +0000
Subject: [PATCH 008/119] fix: request cancel: the request may be completed
 between testing and using its file

---
 lib/io/linuxaio_request.cpp   | 6 ++++--
 lib/io/request_with_state.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 464acc6..051c2d1 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -97,11 +97,13 @@ bool linuxaio_request::cancel()
 {
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] cancel()");
 
-    if (!m_file) return false;
+    // the request may be completed meanwhile, which sets m_file to zero
+    file* f = m_file;
+    if (!f) return false;
 
     request_ptr req(this);
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
-        disk_queues::get_instance()->get_queue(m_file->get_queue_id())
+        disk_queues::get_instance()->get_queue(f->get_queue_id())
         );
     return queue->cancel_request(req);
 }
diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index 4560286..2fad653 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -53,10 +53,12 @@ bool request_with_state::cancel()
 {
     STXXL_VERBOSE3_THIS("request_with_state::cancel() " << m_file << " " << m_buffer << " " << m_offset);
 
-    if (m_file)
+    // the request may be completed meanwhile, which sets m_file to zero
+    file* f = m_file;
+    if (f)
     {
         request_ptr rp(this);
-        if (disk_queues::get_instance()->cancel_request(rp, m_file->get_queue_id()))
+        if (disk_queues::get_instance()->cancel_request(rp, f->get_queue_id()))
         {
             m_state.set_to(DONE);
             notify_waiters();
-- 
2.43.0


From bbd0d8081b09cc62739d43322e8cc4c3b2c50985 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:36 +0000
Subject: [PATCH 009/119] fix: linuxaio_queue: halve the number of events when
 io_setup() has too few left

---
 lib/io/linuxaio_queue.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index b61330d..9db6909 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -50,7 +50,7 @@ linuxaio_queue::linuxaio_queue(int desired_queue_length)
     while ((result = syscall(SYS_io_setup, max_events, &context)) == -1 &&
            errno == EAGAIN && max_events > 1)
     {
-        max_events <<= 1;               // try with half as many events
+        max_events >>= 1;               // try with half as many events
     }
     if (result != 0) {
         STXXL_THROW_ERRNO(io_error, "linuxaio_queue::linuxaio_queue"
-- 
2.43.0


From 7ebc10b65e71cc0ef7fb8ea18f9b39243a362a15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:52 +0000
Subject: [PATCH 010/119] fix: linuxaio: check the results of operations, and
 fill reads past the end of the file with zeros

---
 include/stxxl/bits/io/linuxaio_request.h |  4 +++
 lib/io/linuxaio_queue.cpp                |  6 +++-
 lib/io/linuxaio_request.cpp              | 37 ++++++++++++++++++++++++
 3 files changed, 46 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/io/linuxaio_request.h b/include/stxxl/bits/io/linuxaio_request.h
index 6ee20e5..862afd8 100644
--- a/include/stxxl/bits/io/linuxaio_request.h
+++ b/include/stxxl/bits/io/linuxaio_request.h
@@ -60,6 +60,10 @@ public:
     bool post();
     bool cancel();
     bool cancel_aio();
+    //! examine the result of the operation as reported by the OS: an error or
+    //! a short transfer is an error of the request, the part of a read that
+    //! lies beyond the end of the file is filled with zeros.
+    void check_result(int64 result);
     void completed(bool posted, bool canceled);
     void completed(bool canceled) { completed(true, canceled); }
 };
diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 9db6909..9e32b3c 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -189,7 +189,11 @@ void linuxaio_queue::handle_events(io_event* events, long num_events, bool cance
     {
         // unsigned_type is as long as a pointer, and like this, we avoid an icpc warning
         request_ptr* r = reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(events[e].data));
-        r->get()->completed(canceled);
+        // polymorphic_downcast
+        linuxaio_request* req = dynamic_cast<linuxaio_request*>(r->get());
+        if (!canceled)
+            req->check_result(static_cast<int64>(events[e].res));
+        req->completed(canceled);
         delete r;              // release auto_ptr reference
         num_free_events++;
         num_posted_requests--; // will never block
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 051c2d1..84058ed 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -19,6 +19,7 @@
 #include <stxxl/bits/verbose.h>
 #include <stxxl/bits/common/error_handling.h>
 
+#include <cstring>
 #include <unistd.h>
 #include <sys/syscall.h>
 
@@ -46,6 +47,42 @@ void linuxaio_request::completed(bool posted, bool canceled)
     request_with_state::completed(canceled);
 }
 
+void linuxaio_request::check_result(int64 result)
+{
+    if (result == static_cast<int64>(m_bytes))
+        return;
+
+    try
+    {
+        if (result < 0) {
+            STXXL_THROW2(io_error, "linuxaio_request::check_result",
+                         (m_type == READ ? "read" : "write") <<
+                         " path=" << dynamic_cast<linuxaio_file*>(m_file)->filename <<
+                         " offset=" << m_offset << " bytes=" << m_bytes <<
+                         " : " << strerror(static_cast<int>(-result)));
+        }
+
+        if (m_type == READ &&
+            m_offset + static_cast<offset_type>(result) >= m_file->size())
+        {
+            // read request extends past end-of-file
+            // fill reminder with zeroes
+            memset(static_cast<char*>(m_buffer) + result, 0, m_bytes - result);
+        }
+        else {
+            STXXL_THROW2(io_error, "linuxaio_request::check_result",
+                         (m_type == READ ? "read" : "write") <<
+                         " path=" << dynamic_cast<linuxaio_file*>(m_file)->filename <<
+                         " offset=" << m_offset << " bytes=" << m_bytes <<
+                         " : only " << result << " bytes were transferred");
+        }
+    }
+    catch (const io_error& ex)
+    {
+        error_occured(ex.what());
+    }
+}
+
 void linuxaio_request::fill_control_block()
 {
     linuxaio_file* af = dynamic_cast<linuxaio_file*>(m_file);
-- 
2.43.0


From 3e2c9d052a753bc0ac9af1ba13ce3b95042d9ede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:58 +0000
Subject: [PATCH 011/119] fix: linuxaio: a request rejected by the OS fails,
 and does not end the program or leak its reference

---
 lib/io/linuxaio_queue.cpp   | 34 +++++++++++++++++++---------------
 lib/io/linuxaio_request.cpp | 31 +++++++++++++++++++++----------
 2 files changed, 40 insertions(+), 25 deletions(-)

diff --git a/lib/io/linuxaio_queue.cpp b/lib/io/linuxaio_queue.cpp
index 9e32b3c..b22f96e 100644
--- a/lib/io/linuxaio_queue.cpp
+++ b/lib/io/linuxaio_queue.cpp
@@ -132,7 +132,6 @@ bool linuxaio_queue::cancel_request(request_ptr& req)
 void linuxaio_queue::post_requests()
 {
     request_ptr req;
-    io_event* events = new io_event[max_events];
 
     for ( ; ; ) // as long as thread is running
     {
@@ -153,23 +152,30 @@ void linuxaio_queue::post_requests()
             num_free_events--; // might block because too many requests are posted
 
             // polymorphic_downcast
-            while (!dynamic_cast<linuxaio_request*>(req.get())->post())
+            linuxaio_request* aio_req = dynamic_cast<linuxaio_request*>(req.get());
+            try
             {
-                // post failed, so first handle events to make queues (more)
-                // empty, then try again.
-
-                // wait for at least one event to complete, no time limit
-                long num_events = syscall(SYS_io_getevents, context, 1, max_events, events, NULL);
-                if (num_events < 0) {
-                    STXXL_THROW_ERRNO(io_error, "linuxaio_queue::post_requests"
-                                      " io_getevents() nr_events=" << num_events);
+                while (!aio_req->post())
+                {
+                    // post failed, so wait until the OS has resources again.
+                    // The events are left to the waiting thread: with both
+                    // threads taking them, one waits for an event forever.
+                    usleep(100);
                 }
 
-                handle_events(events, num_events, false);
+                // request is finally posted
+                num_posted_requests++;
+            }
+            catch (const io_error& ex)
+            {
+                // request was rejected by the OS, no event will follow
+                aio_req->error_occured(ex.what());
+                aio_req->completed(false, false);
+                num_free_events++;
             }
 
-            // request is finally posted
-            num_posted_requests++;
+            // do not keep the request until the next one arrives
+            req = request_ptr();
         }
         else
         {
@@ -179,8 +185,6 @@ void linuxaio_queue::post_requests()
             num_waiting_requests++;
         }
     }
-
-    delete[] events;
 }
 
 void linuxaio_queue::handle_events(io_event* events, long num_events, bool canceled)
diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index 84058ed..cacf90a 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -99,7 +99,8 @@ void linuxaio_request::fill_control_block()
 }
 
 //! Submits an I/O request to the OS
-//! \returns false if submission fails
+//! \returns false if submission fails temporarily and has to be tried again
+//! \throws io_error if the OS rejects the request
 bool linuxaio_request::post()
 {
     STXXL_VERBOSE_LINUXAIO("linuxaio_request[" << this << "] post()");
@@ -113,18 +114,28 @@ bool linuxaio_request::post()
         disk_queues::get_instance()->get_queue(m_file->get_queue_id())
         );
     long success = syscall(SYS_io_submit, queue->get_io_context(), 1, &cb_pointer);
-    if (success == 1)
+    int submit_errno = errno;
+
+    if (success != 1)
     {
-        if (m_type == READ)
-            stats::get_instance()->read_started(m_bytes, now);
-        else
-            stats::get_instance()->write_started(m_bytes, now);
+        // no event will deliver the reference held by the control block
+        delete reinterpret_cast<request_ptr*>(static_cast<unsigned_type>(cb.aio_data));
+
+        // temporary lack of resources, try again
+        if (success == 0 || submit_errno == EAGAIN)
+            return false;
     }
-    else if (success == -1 && errno != EAGAIN)
-        STXXL_THROW_ERRNO(io_error, "linuxaio_request::post"
-                          " io_submit()");
 
-    return success == 1;
+    if (m_type == READ)
+        stats::get_instance()->read_started(m_bytes, now);
+    else
+        stats::get_instance()->write_started(m_bytes, now);
+
+    if (success != 1)
+        STXXL_THROW_ERRNO2(io_error, "linuxaio_request::post"
+                           " io_submit()", submit_errno);
+
+    return true;
 }
 
 //! Cancel the request
-- 
2.43.0


From cc48de2dac79a740bc5fb3903d9bb72b0b9c3cf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:27 +0000
Subject: [PATCH 012/119] fix: wbtl_file: hold the mapping lock when changing
 the free space map in writes

---
 lib/io/wbtl_file.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index 310d76a..d150798 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -271,8 +271,10 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
             STXXL_VERBOSE_WBTL("wbtl:w2disk  p" << FMT_A_S(buffer_address[curbuf], write_block_size));
 
             // mark remaining part as free
-            if (curpos < write_block_size)
+            if (curpos < write_block_size) {
+                scoped_mutex_lock mapping_lock(mapping_mutex);
                 _add_free_region(buffer_address[curbuf] + curpos, write_block_size - curpos);
+            }
 
             if (backend_request.get()) {
                 backend_request->wait(false);
@@ -283,7 +285,10 @@ void wbtl_file::swrite(void* buffer, offset_type offset, size_type bytes)
 
         curbuf = 1 - curbuf;
 
-        buffer_address[curbuf] = get_next_write_block();
+        {
+            scoped_mutex_lock mapping_lock(mapping_mutex);
+            buffer_address[curbuf] = get_next_write_block();
+        }
         curpos = 0;
     }
     assert(bytes <= write_block_size - curpos);
-- 
2.43.0


From 5215eb846f6fb0302a16e0111ac6fba7bbc9db98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:33 +0000
Subject: [PATCH 013/119] fix: simdisk_file: an operation slower than the
 simulated disk is no error

---
 lib/io/simdisk_file.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/io/simdisk_file.cpp b/lib/io/simdisk_file.cpp
index a39f58b..b9050f8 100644
--- a/lib/io/simdisk_file.cpp
+++ b/lib/io/simdisk_file.cpp
@@ -196,7 +196,9 @@ void sim_disk_file::serve(void* buffer, offset_type offset, size_type bytes,
 
     delay = delay - timestamp() + op_start;
 
-    assert(delay > 0.0);
+    // the operation itself may have taken longer than the simulated one
+    if (delay <= 0.0)
+        return;
 
     int seconds_to_wait = static_cast<int>(floor(delay));
     if (seconds_to_wait)
-- 
2.43.0


From a639259c2f58dce5c2cc6e0980812be109193734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:44 +0000
Subject: [PATCH 014/119] fix: wbtl_file: wait for the last write to the
 backend before deleting it and its buffer

---
 lib/io/wbtl_file.cpp | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index d150798..4017e11 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -49,6 +49,18 @@ wbtl_file::wbtl_file(
 
 wbtl_file::~wbtl_file()
 {
+    // the last write to the backend may be in progress
+    if (backend_request.get())
+    {
+        try {
+            backend_request->wait(false);
+        }
+        catch (const io_error& ex) {
+            STXXL_ERRMSG("wbtl_file::~wbtl_file: " << ex.what());
+        }
+        backend_request = request_ptr();
+    }
+
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[1]);
     stxxl::aligned_dealloc<STXXL_BLOCK_ALIGN>(write_buffer[0]);
     delete storage;
-- 
2.43.0


From 0d35d61e4ffa2b6a29b43e7f755ed82bf8379333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 015/119] fix: block_manager: discard a block before its region
 can be allocated again

---
 include/stxxl/bits/mng/block_manager.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 4e1514a..0498ed6 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -246,8 +246,9 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
         return;  // self managed disk
     STXXL_VERBOSE_BLOCK_LIFE_CYCLE("BLC:delete " << FMT_BID(bid));
     assert(bid.storage->get_allocator_id() >= 0);
-    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
+    // discard first: once deallocated, the region may be given to another thread
     disk_files[bid.storage->get_allocator_id()]->discard(bid.offset, bid.size);
+    disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
 
 #if STXXL_MNG_COUNT_ALLOCATION
     m_current_allocation -= BlockSize;
-- 
2.43.0


From 531bc4f99cca427aa9a9dee35594251e2247096e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 016/119] fix: block_manager: protect the allocation counters,
 blocks may be allocated by several threads

---
 include/stxxl/bits/mng/block_manager.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index 0498ed6..c3438df 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -42,6 +42,7 @@
 #include <stxxl/bits/mng/disk_allocator.h>
 #include <stxxl/bits/mng/block_alloc.h>
 #include <stxxl/bits/mng/config.h>
+#include <stxxl/bits/common/mutex.h>
 #include <stxxl/bits/common/utils.h>
 #include <stxxl/bits/common/simple_vector.h>
 
@@ -69,6 +70,9 @@ class block_manager : public singleton<block_manager>
     block_manager();
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    //! protects the counters, blocks may be allocated by several threads
+    mutex m_allocation_mutex;
+
     //! total requested allocation in bytes
     uint64 m_total_allocation;
 
@@ -229,6 +233,7 @@ void block_manager::new_blocks_int(
     }
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock lock(m_allocation_mutex);
     m_total_allocation += nblocks * BIDType::size;
     m_current_allocation += nblocks * BIDType::size;
     m_maximum_allocation = STXXL_MAX(m_maximum_allocation, m_current_allocation);
@@ -251,6 +256,7 @@ void block_manager::delete_block(const BID<BlockSize>& bid)
     disk_allocators[bid.storage->get_allocator_id()]->delete_block(bid);
 
 #if STXXL_MNG_COUNT_ALLOCATION
+    scoped_mutex_lock lock(m_allocation_mutex);
     m_current_allocation -= BlockSize;
 #endif // STXXL_MNG_COUNT_ALLOCATION
 }
-- 
2.43.0


From 4a25ea35fd6ec4350bb9346970e3291363365278 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 017/119] fix: block_manager: give back the blocks already
 allocated when an allocation fails

---
 include/stxxl/bits/mng/block_manager.h  | 11 ++++++++++-
 include/stxxl/bits/mng/disk_allocator.h | 10 +++++++++-
 2 files changed, 19 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/mng/block_manager.h b/include/stxxl/bits/mng/block_manager.h
index c3438df..4e888b2 100644
--- a/include/stxxl/bits/mng/block_manager.h
+++ b/include/stxxl/bits/mng/block_manager.h
@@ -217,7 +217,16 @@ void block_manager::new_blocks_int(
         if (bl[i])
         {
             disk_bids[i].resize(bl[i]);
-            disk_allocators[i]->new_blocks(disk_bids[i]);
+            try {
+                disk_allocators[i]->new_blocks(disk_bids[i]);
+            }
+            catch (...) {
+                // give back what the other disks have allocated
+                for (unsigned_type d = 0; d < i; ++d)
+                    for (int_type b = 0; b < bl[d]; ++b)
+                        disk_allocators[d]->delete_block(disk_bids[d][b]);
+                throw;
+            }
         }
     }
 
diff --git a/include/stxxl/bits/mng/disk_allocator.h b/include/stxxl/bits/mng/disk_allocator.h
index 59ad085..479d73b 100644
--- a/include/stxxl/bits/mng/disk_allocator.h
+++ b/include/stxxl/bits/mng/disk_allocator.h
@@ -240,7 +240,15 @@ void disk_allocator::new_blocks(BID<BlockSize>* begin, BID<BlockSize>* end)
 
     BID<BlockSize>* middle = begin + ((end - begin) / 2);
     new_blocks(begin, middle);
-    new_blocks(middle, end);
+    try {
+        new_blocks(middle, end);
+    }
+    catch (...) {
+        // give back the first half
+        for (BID<BlockSize>* cur = begin; cur != middle; ++cur)
+            delete_block(*cur);
+        throw;
+    }
 }
 
 //! \}
-- 
2.43.0


From 0aad01921fc0a25bf787f7599b2f6b6100e6cfe3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:05 +0000
Subject: [PATCH 018/119] fix: config: determine the range of flash devices
 also for disks given by add_disk()

---
 lib/mng/config.cpp | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index 66e92d9..cab5e88 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -21,6 +21,9 @@
 #include <stxxl/bits/common/utils.h>
 #include <stxxl/version.h>
 
+#include <algorithm>
+#include <iterator>
+
 #if STXXL_WINDOWS
    #ifndef NOMINMAX
     #define NOMINMAX
@@ -39,6 +42,11 @@ static inline bool exist_file(const std::string& path)
     return in.good();
 }
 
+static inline bool is_regular_disk(const disk_config& cfg)
+{
+    return !cfg.flash;
+}
+
 config::~config()
 {
     for (disk_list_type::const_iterator it = disks_list.begin();
@@ -60,6 +68,11 @@ void config::initialize()
         find_config();
     }
 
+    // put flash devices after regular disks, also those given by add_disk()
+    first_flash = (unsigned int)std::distance(
+        disks_list.begin(),
+        std::stable_partition(disks_list.begin(), disks_list.end(), is_regular_disk));
+
     m_max_device_id = 0;
 
     is_initialized = true;
-- 
2.43.0


From a61511efdea191dcca93159c3f409ba0d14e467e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 019/119] fix: block_scheduler: a read started after a write
 could get lost between the two threads

---
 include/stxxl/bits/mng/block_scheduler.h | 32 ++++++++++++++++++------
 1 file changed, 24 insertions(+), 8 deletions(-)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 091d9d8..7c34b34 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -20,6 +20,7 @@
 #include <stxxl/bits/mng/block_manager.h>
 #include <stxxl/bits/mng/typed_block.h>
 #include <stxxl/bits/common/addressable_queues.h>
+#include <stxxl/bits/common/mutex.h>
 
 STXXL_BEGIN_NAMESPACE
 
@@ -1151,6 +1152,7 @@ protected:
 
     struct write_read_request
     {
+        mutex flags_mutex;                             // protects write_done_soon and shall_read
         bool write_done_soon;                          // set by read_after_write, checked by schedule_read()
         bool shall_read;                               // checked by read_after_write, set by schedule_read()
         swappable_blocks_iterator block_to_start_read; // used by read_after_write, set by schedule_read()
@@ -1159,6 +1161,24 @@ protected:
 
         write_read_request()
             : write_done_soon(false), shall_read(false), block_to_start_read(), taker(), write_req(0) { }
+
+        //! Set shall_read.
+        //! \return if it is not too late, i.e. read_after_write will respect it
+        bool set_shall_read(bool read)
+        {
+            scoped_mutex_lock lock(flags_mutex);
+            shall_read = read;
+            return ! write_done_soon;
+        }
+
+        //! Note that the write is done.
+        //! \return if a read is wanted
+        bool set_write_done()
+        {
+            scoped_mutex_lock lock(flags_mutex);
+            write_done_soon = true;
+            return shall_read;
+        }
     };
 
     struct read_after_write
@@ -1170,8 +1190,7 @@ protected:
 
         void operator () (request*)
         {
-            wrr->write_done_soon = true;
-            if (wrr->shall_read)
+            if (wrr->set_write_done())
                 wrr->taker->second.read_req = wrr->block_to_start_read->read_async();
         }
     };
@@ -1231,10 +1250,8 @@ protected:
     //! \return if successful
     bool try_interrupt_read(const write_scheduled_blocks_iterator& writing_block)
     {
-        // stop read
-        writing_block->second->shall_read = false;
-        // check if stopped
-        if (! writing_block->second->write_done_soon)
+        // stop read and check if stopped
+        if (writing_block->second->set_shall_read(false))
             return true;
         // => possibly to late
         scheduled_blocks_reference taker = *writing_block->second->taker;
@@ -1336,9 +1353,8 @@ protected:
                 // tell the completion handler that we want a read
                 writing_block->second->block_to_start_read = swappable_blocks.begin() + block_to_read->first;
                 writing_block->second->taker = block_to_read;
-                writing_block->second->shall_read = true;
                 // and check if it is not to late
-                if (writing_block->second->write_done_soon)
+                if (! writing_block->second->set_shall_read(true))
                 {
                     // => the completion handler may have missed our wish to read
                     // so wait for it to finish and check
-- 
2.43.0


From bfe0ad78f1c6a93ed8eb0732bdb6f7a951062d7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 020/119] fix: block_scheduler: do not reuse the memory of an
 evicted clean block while it is still being written

---
 include/stxxl/bits/mng/block_scheduler.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 7c34b34..5a09133 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -1564,6 +1564,13 @@ protected:
                                        !shall_keep_internal_block(scheduled_blocks.find(giver), false));
                             }
                             write_read_request* wrr = schedule_write(giver);
+                            if (! wrr)
+                            {
+                                // => clean, but possibly a previous write did not finish yet
+                                write_scheduled_blocks_iterator it = write_scheduled_blocks.find(giver);
+                                if (it != write_scheduled_blocks.end())
+                                    wrr = it->second;
+                            }
                             schedule_meta->second.giver.first = (wrr != NULL);
                             schedule_meta->second.giver.second = giver;
                             schedule_meta->second.reserved_iblock = swappable_blocks[giver].detach_internal_block();
-- 
2.43.0


From d7e5681ca3ead0bfca00bea477ed85b3b40c0c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:08 +0000
Subject: [PATCH 021/119] fix: block_scheduler: extracting a block that is
 still in memory while prefetching

---
 include/stxxl/bits/mng/block_scheduler.h | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/block_scheduler.h b/include/stxxl/bits/mng/block_scheduler.h
index 5a09133..aa5f28f 100644
--- a/include/stxxl/bits/mng/block_scheduler.h
+++ b/include/stxxl/bits/mng/block_scheduler.h
@@ -1857,8 +1857,30 @@ public:
 
         SwappableBlockType& sblock = swappable_blocks[sbid];
         wait_on_write(sbid);
+        internal_block_type* iblock = 0;
+        if (sblock.is_evictable())
+        {
+            // => nobody needed the internal_block yet
+            if (free_evictable_blocks.erase(sbid) == 0)
+                scheduled_evictable_blocks.erase(sbid);
+            iblock = sblock.detach_internal_block();
+        }
+        external_block_type eblock = sblock.extract_external_block();
+        if (iblock)
+        {
+            if (shall_keep_internal_block(schedule_meta))
+                // => swappable_block shall keep its internal_block
+                schedule_meta->second.reserved_iblock = iblock;
+            else
+            {
+                // release internal block and give it to prefetcher
+                return_free_internal_block(iblock);
+                if (next_op_to_schedule != prediction_sequence.end())
+                    schedule_next_operations();
+            }
+        }
         operation_done(schedule_meta);
-        return sblock.extract_external_block();
+        return eblock;
     }
 };
 
-- 
2.43.0


From c53b2d0ba22b064da2aef06b663dc98dfb07567a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:06 +0000
Subject: [PATCH 022/119] fix: request: drop the reference to the file before
 reporting the request as done

poll(), wait_any() and poll_any() reported a request as finished before its
completion handler had been called and while it still used its file, which
may be deleted by then.
---
 lib/io/request_with_state.cpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index 2fad653..1fc6683 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -60,10 +60,10 @@ bool request_with_state::cancel()
         request_ptr rp(this);
         if (disk_queues::get_instance()->cancel_request(rp, f->get_queue_id()))
         {
-            m_state.set_to(DONE);
-            notify_waiters();
             m_file->delete_request_ref();
             m_file = 0;
+            m_state.set_to(DONE);
+            notify_waiters();
             m_state.set_to(READY2DIE);
             return true;
         }
@@ -83,12 +83,13 @@ bool request_with_state::poll()
 void request_with_state::completed(bool canceled)
 {
     STXXL_VERBOSE3_THIS("request_with_state::completed()");
-    m_state.set_to(DONE);
     if (!canceled)
         m_on_complete(this);
-    notify_waiters();
+    // once the request is found to be done, its file may be deleted
     m_file->delete_request_ref();
     m_file = 0;
+    m_state.set_to(DONE);
+    notify_waiters();
     m_state.set_to(READY2DIE);
 }
 
-- 
2.43.0


From 25e8c5e6f627a48f8a21b93a3ee4976d9be40346 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 023/119] fix: deque: steps backwards given to operator +, +=
 and [] of iterators

A negative step was reduced modulo the size of the array after wrapping
around modulo 2^64, which gives another element unless that size is a power
of two.
---
 include/stxxl/bits/containers/deque.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/containers/deque.h b/include/stxxl/bits/containers/deque.h
index 93dc654..90a26f5 100644
--- a/include/stxxl/bits/containers/deque.h
+++ b/include/stxxl/bits/containers/deque.h
@@ -88,7 +88,7 @@ public:
 
     self_type operator + (size_type op) const
     {
-        return self_type(m_deque, (m_offset + op) % m_deque->m_vector.size());
+        return self_type(m_deque, (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size());
     }
 
     self_type& operator -= (size_type op)
@@ -99,7 +99,7 @@ public:
 
     self_type& operator += (size_type op)
     {
-        m_offset = (m_offset + op) % m_deque->m_vector.size();
+        m_offset = (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size();
         return *this;
     }
 
@@ -125,12 +125,12 @@ public:
 
     reference operator [] (size_type op)
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     const_reference operator [] (size_type op) const
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     self_type& operator ++ ()
@@ -287,7 +287,7 @@ public:
 
     self_type operator + (size_type op) const
     {
-        return self_type(m_deque, (m_offset + op) % m_deque->m_vector.size());
+        return self_type(m_deque, (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size());
     }
 
     self_type& operator -= (size_type op)
@@ -298,7 +298,7 @@ public:
 
     self_type& operator += (size_type op)
     {
-        m_offset = (m_offset + op) % m_deque->m_vector.size();
+        m_offset = (m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size();
         return *this;
     }
 
@@ -314,7 +314,7 @@ public:
 
     const_reference operator [] (size_type op) const
     {
-        return m_deque->m_vector[(m_offset + op) % m_deque->m_vector.size()];
+        return m_deque->m_vector[(m_offset + m_deque->m_vector.size() + op) % m_deque->m_vector.size()];
     }
 
     self_type& operator ++ ()
-- 
2.43.0


From 875eee27327c4806f5901fcd46bffb21a02529c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:04 +0000
Subject: [PATCH 024/119] fix: deque: deques of different sizes are not equal

---
 include/stxxl/bits/containers/deque.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/deque.h b/include/stxxl/bits/containers/deque.h
index 90a26f5..f83f6d0 100644
--- a/include/stxxl/bits/containers/deque.h
+++ b/include/stxxl/bits/containers/deque.h
@@ -696,7 +696,7 @@ public:
 template <class ValueType, class VectorType>
 bool operator == (const deque<ValueType, VectorType>& a, const deque<ValueType, VectorType>& b)
 {
-    return std::equal(a.begin(), a.end(), b.begin());
+    return a.size() == b.size() && std::equal(a.begin(), a.end(), b.begin());
 }
 
 template <class ValueType, class VectorType>
-- 
2.43.0


From c8199871db6759f1331ca264e513263a745be58e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:55 +0000
Subject: [PATCH 025/119] fix: priority queue: internal mergers of an arity
 that is not a power of two

The embedded tree doubles its number of slots up to the next power of two,
while the arrays of int_merger had only as many slots as its arity, so the
slots above were written behind the arrays.
---
 include/stxxl/bits/containers/pq_int_merger.h | 28 ++++++++++---------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/include/stxxl/bits/containers/pq_int_merger.h b/include/stxxl/bits/containers/pq_int_merger.h
index 28b276c..326eb19 100644
--- a/include/stxxl/bits/containers/pq_int_merger.h
+++ b/include/stxxl/bits/containers/pq_int_merger.h
@@ -28,7 +28,7 @@ STXXL_BEGIN_NAMESPACE
  */
 namespace priority_queue_local {
 
-template <class ValueType, class CompareType, unsigned MaxArity>
+template <class ValueType, class CompareType, unsigned Arity>
 class int_merger : private noncopyable
 {
 public:
@@ -37,17 +37,19 @@ public:
     //! comparator object type
     typedef CompareType compare_type;
 
-    enum { max_arity = MaxArity };
+    // arity_bound / 2  <  arity  <=  arity_bound, like in the embedded tree,
+    // which also visits the slots arity .. max_arity-1
+    enum { arity = Arity, max_arity = 1UL << (LOG2<Arity>::ceil) };
 
     //! our type
-    typedef int_merger<ValueType, CompareType, MaxArity> self_type;
+    typedef int_merger<ValueType, CompareType, Arity> self_type;
 
 #if STXXL_PARALLEL && STXXL_PARALLEL_PQ_MULTIWAY_MERGE_INTERNAL
     //! type of embedded adapter to parallel multiway_merge
-    typedef parallel_merger_adapter<self_type, CompareType, MaxArity> tree_type;
+    typedef parallel_merger_adapter<self_type, CompareType, Arity> tree_type;
 #else
     //! type of embedded loser tree
-    typedef loser_tree<self_type, CompareType, MaxArity> tree_type;
+    typedef loser_tree<self_type, CompareType, Arity> tree_type;
 #endif
 
     //! type of sequences in which the values are stored: memory arrays
@@ -67,13 +69,13 @@ protected:
     // 0..k-1
 
     //! pointer to current element
-    value_type* current[MaxArity];
+    value_type* current[max_arity];
     //! pointer to end of block for current element
-    value_type* current_end[MaxArity];
+    value_type* current_end[max_arity];
     //! start of Segments
-    value_type* segment[MaxArity];
+    value_type* segment[max_arity];
     //! just to count the internal memory consumption, in bytes
-    unsigned_type segment_size[MaxArity];
+    unsigned_type segment_size[max_arity];
 
     unsigned_type mem_cons_;
 
@@ -181,10 +183,10 @@ public:
     void swap(int_merger& obj)
     {
         std::swap(sentinel, obj.sentinel);
-        swap_1D_arrays(current, obj.current, MaxArity);
-        swap_1D_arrays(current_end, obj.current_end, MaxArity);
-        swap_1D_arrays(segment, obj.segment, MaxArity);
-        swap_1D_arrays(segment_size, obj.segment_size, MaxArity);
+        swap_1D_arrays(current, obj.current, max_arity);
+        swap_1D_arrays(current_end, obj.current_end, max_arity);
+        swap_1D_arrays(segment, obj.segment, max_arity);
+        swap_1D_arrays(segment_size, obj.segment_size, max_arity);
         std::swap(mem_cons_, obj.mem_cons_);
     }
 
-- 
2.43.0


From d7c564a58d47d99e9bc54e0116e4594864a23b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 026/119] fix: parallel merge sort: temporary elements are
 destroyed and their memory freed as it was allocated

---
 include/stxxl/bits/parallel/multiway_mergesort.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/parallel/multiway_mergesort.h b/include/stxxl/bits/parallel/multiway_mergesort.h
index 1f9e6cc..1bce292 100644
--- a/include/stxxl/bits/parallel/multiway_mergesort.h
+++ b/include/stxxl/bits/parallel/multiway_mergesort.h
@@ -290,7 +290,13 @@ inline void parallel_sort_mwms_pu(PMWMSSorterPU<RandomAccessIterator>* d,
     std::copy(sd->merging_places[iam], sd->merging_places[iam] + length_am, sd->source + offset);
 #endif
 
-    delete sd->temporaries[iam];
+#if STXXL_MULTIWAY_MERGESORT_COPY_LAST
+    delete[] sd->temporaries[iam];
+#else
+    for (DiffType i = 0; i < length_local; ++i)
+        sd->temporaries[iam][i].~ValueType();
+    ::operator delete (sd->temporaries[iam]);
+#endif
 
     t.tic("copy back");
 
-- 
2.43.0


From 93bda6f73585f74611b95e104cec052487e16cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 027/119] fix: loser trees: free copied elements as their
 memory was allocated

---
 include/stxxl/bits/parallel/losertree.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/parallel/losertree.h b/include/stxxl/bits/parallel/losertree.h
index 218f8dd..618899e 100644
--- a/include/stxxl/bits/parallel/losertree.h
+++ b/include/stxxl/bits/parallel/losertree.h
@@ -95,7 +95,7 @@ public:
         for (size_type i = 0; i < (2 * k); ++i)
             losers[i].~Loser();
 
-        delete losers;
+        operator delete (losers);
     }
 
     void print(std::ostream& os)
-- 
2.43.0


From b6bfe6c6bee1cad16e67dbdc473a93026d99b298 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 028/119] fix: multiseq_partition: order equal elements by
 their sequence in all steps

---
 include/stxxl/bits/parallel/multiseq_selection.h | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiseq_selection.h b/include/stxxl/bits/parallel/multiseq_selection.h
index 57e7599..390d105 100644
--- a/include/stxxl/bits/parallel/multiseq_selection.h
+++ b/include/stxxl/bits/parallel/multiseq_selection.h
@@ -204,17 +204,16 @@ void multiseq_partition(
         n /= 2;
 
         const value_type* lmax = NULL; // impossible to avoid the warning?
+        diff_type lmax_seq = -1;       // sequence *lmax is from
         for (diff_type i = 0; i < m; ++i)
         {
             if (a[i] > 0)
             {
-                if (!lmax)
-                    lmax = &(S(i)[a[i] - 1]);
-                else
+                // max, favor rear sequences
+                if (!lmax || !comp(S(i)[a[i] - 1], *lmax))
                 {
-                    // max, favor rear sequences
-                    if (!comp(S(i)[a[i] - 1], *lmax))
-                        lmax = &(S(i)[a[i] - 1]);
+                    lmax = &(S(i)[a[i] - 1]);
+                    lmax_seq = i;
                 }
             }
         }
@@ -222,7 +221,9 @@ void multiseq_partition(
         for (diff_type i = 0; i < m; ++i)
         {
             diff_type middle = (b[i] + a[i]) / 2;
-            if (lmax && middle < seqlen[i] && comp(S(i)[middle], *lmax))
+            // equal elements are ordered by their sequence
+            if (lmax && middle < seqlen[i] &&
+                (i < lmax_seq ? !comp(*lmax, S(i)[middle]) : comp(S(i)[middle], *lmax)))
                 a[i] = std::min(a[i] + n + 1, seqlen[i]);
             else
                 b[i] -= n + 1;
-- 
2.43.0


From 722d46ad64687755030eb1433c5a10c6f443ac6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 029/119] fix: stable unguarded loser tree of copies: smaller
 elements of sources with a larger number

---
 include/stxxl/bits/parallel/losertree.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/parallel/losertree.h b/include/stxxl/bits/parallel/losertree.h
index 618899e..16c07d7 100644
--- a/include/stxxl/bits/parallel/losertree.h
+++ b/include/stxxl/bits/parallel/losertree.h
@@ -874,7 +874,9 @@ public:
         int source = losers[0].source;
         for (unsigned int pos = (k + source) / 2; pos > 0; pos /= 2)
         {
-            if (!comp(key, losers[pos].key) && losers[pos].source < source)
+            // the smaller one gets promoted, ties are broken by source
+            if (comp(losers[pos].key, key) ||
+                (!comp(key, losers[pos].key) && losers[pos].source < source))
             {
                 // the other one is smaller
                 swap(losers[pos].source, source);
-- 
2.43.0


From b33badddcc334c93658ea655a47950c6c7bd9ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 030/119] fix: multiway_merge: loser tree over empty sequences
 only

---
 include/stxxl/bits/parallel/multiway_merge.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index 0608554..903f2bd 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -957,6 +957,9 @@ multiway_merge_loser_tree(RandomAccessIteratorIterator seqs_begin,
         total_length += iterpair_size(seqs_begin[t]);
     }
 
+    if (!arbitrary_element) // no elements at all
+        return target;
+
     for (source_type t = 0; t < k; ++t)
     {
         if (UNLIKELY(seqs_begin[t].first == seqs_begin[t].second))
-- 
2.43.0


From 26b6cb225b456d09de988c5b01e7bfc2e1a5f644 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 031/119] fix: parallel multiway_merge: a part of the elements
 merged by one thread

---
 include/stxxl/bits/parallel/multiway_merge.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index 903f2bd..c279ac5 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -1473,13 +1473,13 @@ parallel_multiway_merge_exact_splitting(
         offsets[s].resize(num_seqs);
         multiseq_partition(seqs_begin, seqs_end,
                            ranks[s + 1], offsets[s].begin(), comp);
+    }
 
-        if (!tight) // last one also needed and available
-        {
-            offsets[num_threads - 1].resize(num_seqs);
-            multiseq_partition(seqs_begin, seqs_end,
-                               length, offsets[num_threads - 1].begin(), comp);
-        }
+    if (!tight) // last one also needed and available
+    {
+        offsets[num_threads - 1].resize(num_seqs);
+        multiseq_partition(seqs_begin, seqs_end,
+                           length, offsets[num_threads - 1].begin(), comp);
     }
 
     // for each processor
-- 
2.43.0


From 023f8effe7f4f647ca3ffc3c64c3a9df9f0a363d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 032/119] fix: parallel multiway_merge: a part of the elements
 with splitting by samples

---
 include/stxxl/bits/parallel/multiway_merge.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index c279ac5..2b54cef 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -1376,6 +1376,10 @@ parallel_multiway_merge_sampling_splitting(
     const DiffType num_seqs = seqs_end - seqs_begin;
     const DiffType num_samples = num_threads * SETTINGS::merge_oversampling;
 
+    // ends of the elements to merge
+    std::vector<RandomAccessIterator> ends(num_seqs);
+    multiseq_partition(seqs_begin, seqs_end, length, ends.begin(), comp);
+
     // pick samples
     value_type* samples = new value_type[num_seqs * num_samples];
 
@@ -1406,7 +1410,7 @@ parallel_multiway_merge_sampling_splitting(
             if (slab > 0) {
                 chunks[slab][seq].first =
                     std::upper_bound(
-                        seqs_begin[seq].first, seqs_begin[seq].second,
+                        seqs_begin[seq].first, ends[seq],
                         samples[num_samples * num_seqs * slab / num_threads],
                         comp);
             }
@@ -1416,12 +1420,12 @@ parallel_multiway_merge_sampling_splitting(
             if ((slab + 1) < num_threads) {
                 chunks[slab][seq].second =
                     std::upper_bound(
-                        seqs_begin[seq].first, seqs_begin[seq].second,
+                        seqs_begin[seq].first, ends[seq],
                         samples[num_samples * num_seqs * (slab + 1) / num_threads],
                         comp);
             }
             else    // absolute ending
-                chunks[slab][seq].second = seqs_begin[seq].second;
+                chunks[slab][seq].second = ends[seq];
         }
     }
 
-- 
2.43.0


From 84b519b7836b6be5e3efe16ec474d1aa89904368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:09 +0000
Subject: [PATCH 033/119] fix: parallel merge sort: samples of threads with few
 elements

---
 include/stxxl/bits/parallel/multiway_mergesort.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/parallel/multiway_mergesort.h b/include/stxxl/bits/parallel/multiway_mergesort.h
index 1bce292..0f85bfb 100644
--- a/include/stxxl/bits/parallel/multiway_mergesort.h
+++ b/include/stxxl/bits/parallel/multiway_mergesort.h
@@ -119,7 +119,8 @@ inline void determine_samples(PMWMSSorterPU<RandomAccessIterator>* d,
                   (thread_index_t)(num_samples + 1), es.begin());
 
     for (DiffType i = 0; i < num_samples; i++)
-        sd->samples[d->iam * num_samples + i] = sd->source[sd->starts[d->iam] + es[i + 1]];
+        sd->samples[d->iam * num_samples + i] = sd->source[
+            std::min(sd->starts[d->iam] + es[i + 1], sd->starts[d->iam + 1] - 1)];
 }
 
 /*!
-- 
2.43.0


From 2fd3036dd81041981c748e9c2e4f6594d1e072ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 034/119] fix: multiway_merge: unguarded merging does not read
 beyond the end of a sequence

---
 include/stxxl/bits/parallel/multiway_merge.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index 2b54cef..43e652c 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -1065,8 +1065,9 @@ multiway_merge_loser_tree_unguarded(
         ++i;
 #endif
         // feed
-        // replace from same source
-        lt.delete_min_insert(*seqs_begin[source].first);
+        // replace from same source, which may be at its end after the last element
+        if (LIKELY(target != target_end))
+            lt.delete_min_insert(*seqs_begin[source].first);
     }
 
     return target;
-- 
2.43.0


From 39f5a6210b481a3b42b6d18f840dc8cd1ebb9fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:36 +0000
Subject: [PATCH 035/119] fix: parallel multiway_merge: fewer threads than
 asked for

---
 include/stxxl/bits/parallel/multiway_merge.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index 43e652c..9d74bbb 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -1583,6 +1583,9 @@ parallel_multiway_merge(RandomAccessIteratorIterator seqs_begin,
     {
 #pragma omp single
         {
+            // there may be fewer threads than asked for
+            num_threads = omp_get_num_threads();
+
             if (SETTINGS::multiway_merge_splitting == SETTINGS::SAMPLING)
             {
                 parallel_multiway_merge_sampling_splitting<Stable>(
-- 
2.43.0


From 81a196aaab04b74f067039127caf926490557b1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:50 +0000
Subject: [PATCH 036/119] fix: parallel merge sort: fewer threads than asked
 for

---
 .../stxxl/bits/parallel/multiway_mergesort.h  | 70 +++++++++++--------
 1 file changed, 40 insertions(+), 30 deletions(-)

diff --git a/include/stxxl/bits/parallel/multiway_mergesort.h b/include/stxxl/bits/parallel/multiway_mergesort.h
index 0f85bfb..4b397cb 100644
--- a/include/stxxl/bits/parallel/multiway_mergesort.h
+++ b/include/stxxl/bits/parallel/multiway_mergesort.h
@@ -336,41 +336,51 @@ parallel_sort_mwms(RandomAccessIterator begin,
         num_threads = static_cast<thread_index_t>(n);
 
     PMWMSSortingData<RandomAccessIterator> sd;
+    PMWMSSorterPU<RandomAccessIterator>* pus = NULL;
+    DiffType* starts = NULL;
 
-    sd.source = begin;
-    sd.temporaries = new ValueType*[num_threads];
+    //now sort in parallel
+#pragma omp parallel num_threads(num_threads)
+    {
+#pragma omp single
+        {
+            // there may be fewer threads than asked for
+            num_threads = omp_get_num_threads();
+
+            sd.source = begin;
+            sd.temporaries = new ValueType*[num_threads];
 #if STXXL_MULTIWAY_MERGESORT_COPY_LAST
-    sd.sorting_places = new RandomAccessIterator[num_threads];
-    sd.merging_places = new ValueType*[num_threads];
+            sd.sorting_places = new RandomAccessIterator[num_threads];
+            sd.merging_places = new ValueType*[num_threads];
 #else
-    sd.sorting_places = new ValueType*[num_threads];
-    sd.merging_places = new RandomAccessIterator[num_threads];
+            sd.sorting_places = new ValueType*[num_threads];
+            sd.merging_places = new RandomAccessIterator[num_threads];
 #endif
-    if (SETTINGS::sort_splitting == SETTINGS::SAMPLING)
-        sd.samples = new ValueType[num_threads * (SETTINGS::sort_mwms_oversampling * num_threads - 1)];
-    else
-        sd.samples = NULL;
-    sd.offsets = new DiffType[num_threads - 1];
-    sd.pieces = new std::vector<PMWMSPiece<DiffType> >[num_threads];
-    for (int s = 0; s < num_threads; s++)
-        sd.pieces[s].resize(num_threads);
-    PMWMSSorterPU<RandomAccessIterator>* pus = new PMWMSSorterPU<RandomAccessIterator>[num_threads];
-    DiffType* starts = sd.starts = new DiffType[num_threads + 1];
-
-    DiffType chunk_length = n / num_threads, split = n % num_threads, start = 0;
-    for (int i = 0; i < num_threads; i++)
-    {
-        starts[i] = start;
-        start += (i < split) ? (chunk_length + 1) : chunk_length;
-        pus[i].num_threads = num_threads;
-        pus[i].iam = i;
-        pus[i].sd = &sd;
-    }
-    starts[num_threads] = start;
+            if (SETTINGS::sort_splitting == SETTINGS::SAMPLING)
+                sd.samples = new ValueType[num_threads * (SETTINGS::sort_mwms_oversampling * num_threads - 1)];
+            else
+                sd.samples = NULL;
+            sd.offsets = new DiffType[num_threads - 1];
+            sd.pieces = new std::vector<PMWMSPiece<DiffType> >[num_threads];
+            for (int s = 0; s < num_threads; s++)
+                sd.pieces[s].resize(num_threads);
+            pus = new PMWMSSorterPU<RandomAccessIterator>[num_threads];
+            starts = sd.starts = new DiffType[num_threads + 1];
+
+            DiffType chunk_length = n / num_threads, split = n % num_threads, start = 0;
+            for (int i = 0; i < num_threads; i++)
+            {
+                starts[i] = start;
+                start += (i < split) ? (chunk_length + 1) : chunk_length;
+                pus[i].num_threads = num_threads;
+                pus[i].iam = i;
+                pus[i].sd = &sd;
+            }
+            starts[num_threads] = start;
+        }
 
-    //now sort in parallel
-#pragma omp parallel num_threads(num_threads)
-    parallel_sort_mwms_pu<Stable>(&(pus[omp_get_thread_num()]), comp);
+        parallel_sort_mwms_pu<Stable>(&(pus[omp_get_thread_num()]), comp);
+    }
 
     delete[] starts;
     delete[] sd.temporaries;
-- 
2.43.0


From 978df2abf16643b4443729e79f9c4366988a928c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 037/119] fix: multiway_merge: unguarded merging of four does
 not read beyond the end of a sequence

---
 include/stxxl/bits/parallel/multiway_merge.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/parallel/multiway_merge.h b/include/stxxl/bits/parallel/multiway_merge.h
index 9d74bbb..e38027f 100644
--- a/include/stxxl/bits/parallel/multiway_merge.h
+++ b/include/stxxl/bits/parallel/multiway_merge.h
@@ -615,11 +615,11 @@ multiway_merge_4_variant(RandomAccessIteratorIterator seqs_begin,
 
 #define STXXL_MERGE4CASE(a, b, c, d, c0, c1, c2)          \
     s ## a ## b ## c ## d:                                \
-    if (length == 0) goto finish;                         \
     *target = *seq ## a;                                  \
     ++target;                                             \
     --length;                                             \
     ++seq ## a;                                           \
+    if (length == 0) goto finish;                         \
     if (seq ## a c0 seq ## b) goto s ## a ## b ## c ## d; \
     if (seq ## a c1 seq ## c) goto s ## b ## a ## c ## d; \
     if (seq ## a c2 seq ## d) goto s ## b ## c ## a ## d; \
-- 
2.43.0


From 13d9057f124fed8bfa76b1c6c8fda1a2fc54e246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:34 +0000
Subject: [PATCH 038/119] fix: stable unguarded loser trees: padding equal to
 elements comes last

---
 include/stxxl/bits/parallel/losertree.h | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/parallel/losertree.h b/include/stxxl/bits/parallel/losertree.h
index 16c07d7..1ae873c 100644
--- a/include/stxxl/bits/parallel/losertree.h
+++ b/include/stxxl/bits/parallel/losertree.h
@@ -874,9 +874,11 @@ public:
         int source = losers[0].source;
         for (unsigned int pos = (k + source) / 2; pos > 0; pos /= 2)
         {
-            // the smaller one gets promoted, ties are broken by source
+            // the smaller one gets promoted, ties are broken by source, with
+            // the padding (source -1) coming last
             if (comp(losers[pos].key, key) ||
-                (!comp(key, losers[pos].key) && losers[pos].source < source))
+                (!comp(key, losers[pos].key) &&
+                 (unsigned int)losers[pos].source < (unsigned int)source))
             {
                 // the other one is smaller
                 swap(losers[pos].source, source);
@@ -1054,9 +1056,11 @@ public:
         int source = losers[0].source;
         for (unsigned int pos = (k + source) / 2; pos > 0; pos /= 2)
         {
-            //the smaller one gets promoted, ties are broken by source
+            //the smaller one gets promoted, ties are broken by source, with
+            //the padding (source -1) coming last
             if (comp(*losers[pos].keyp, *keyp) ||
-                (!comp(*keyp, *losers[pos].keyp) && losers[pos].source < source))
+                (!comp(*keyp, *losers[pos].keyp) &&
+                 (unsigned int)losers[pos].source < (unsigned int)source))
             {
                 //the other one is smaller
                 swap(losers[pos].source, source);
-- 
2.43.0


From 7b424fb50da09d7cc56b5335e01420f37401f613 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 039/119] fix: map: find() and erase() decide by the comparator
 whether keys are equal

---
 include/stxxl/bits/containers/btree/btree.h | 8 ++++----
 include/stxxl/bits/containers/btree/leaf.h  | 6 +++---
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/containers/btree/btree.h b/include/stxxl/bits/containers/btree/btree.h
index fb14497..265394e 100644
--- a/include/stxxl/bits/containers/btree/btree.h
+++ b/include/stxxl/bits/containers/btree/btree.h
@@ -637,7 +637,7 @@ public:
             assert(leaf);
             iterator result = leaf->find(k);
             m_leaf_cache.unfix_node((leaf_bid_type)it->second);
-            assert(result == end() || result->first == k);
+            assert(result == end() || !(m_key_compare(result->first, k) || m_key_compare(k, result->first)));
             assert(m_leaf_cache.nfixed() == 0);
             assert(m_node_cache.nfixed() == 0);
             return result;
@@ -650,7 +650,7 @@ public:
         iterator result = node->find(k, m_height - 1);
         m_node_cache.unfix_node((node_bid_type)it->second);
 
-        assert(result == end() || result->first == k);
+        assert(result == end() || !(m_key_compare(result->first, k) || m_key_compare(k, result->first)));
         assert(m_leaf_cache.nfixed() == 0);
         assert(m_node_cache.nfixed() == 0);
         return result;
@@ -668,7 +668,7 @@ public:
             assert(leaf);
             const_iterator result = leaf->find(k);
             m_leaf_cache.unfix_node((leaf_bid_type)it->second);
-            assert(result == end() || result->first == k);
+            assert(result == end() || !(m_key_compare(result->first, k) || m_key_compare(k, result->first)));
             assert(m_leaf_cache.nfixed() == 0);
             assert(m_node_cache.nfixed() == 0);
             return result;
@@ -681,7 +681,7 @@ public:
         const_iterator result = node->find(k, m_height - 1);
         m_node_cache.unfix_node((node_bid_type)it->second);
 
-        assert(result == end() || result->first == k);
+        assert(result == end() || !(m_key_compare(result->first, k) || m_key_compare(k, result->first)));
         assert(m_leaf_cache.nfixed() == 0);
         assert(m_node_cache.nfixed() == 0);
         return result;
diff --git a/include/stxxl/bits/containers/btree/leaf.h b/include/stxxl/bits/containers/btree/leaf.h
index d7c619f..2f1d88d 100644
--- a/include/stxxl/bits/containers/btree/leaf.h
+++ b/include/stxxl/bits/containers/btree/leaf.h
@@ -425,7 +425,7 @@ public:
         value_type search_val(k, data_type());
         typename block_type::iterator lb =
             std::lower_bound(m_block->begin(), m_block->begin() + size(), search_val, m_vcmp);
-        if (lb == m_block->begin() + size() || lb->first != k)
+        if (lb == m_block->begin() + size() || m_cmp(k, lb->first))
             return m_btree->end();
 
         return iterator(m_btree, my_bid(), unsigned(lb - m_block->begin()));
@@ -436,7 +436,7 @@ public:
         value_type search_val(k, data_type());
         typename block_type::iterator lb =
             std::lower_bound(m_block->begin(), m_block->begin() + size(), search_val, m_vcmp);
-        if (lb == m_block->begin() + size() || lb->first != k)
+        if (lb == m_block->begin() + size() || m_cmp(k, lb->first))
             return m_btree->end();
 
         return const_iterator(m_btree, my_bid(), unsigned(lb - m_block->begin()));
@@ -509,7 +509,7 @@ public:
         typename block_type::iterator it =
             std::lower_bound(m_block->begin(), m_block->begin() + size(), search_val, m_vcmp);
 
-        if (it == m_block->begin() + size() || it->first != k)
+        if (it == m_block->begin() + size() || m_cmp(k, it->first))
             return 0;
         // no such element
 
-- 
2.43.0


From ff994ed4cc5f622b6a4d1ae71e98c9f29dfa799e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:01 +0000
Subject: [PATCH 040/119] fix: map: swapping exchanges which cached nodes have
 to be written

---
 include/stxxl/bits/containers/btree/node_cache.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/btree/node_cache.h b/include/stxxl/bits/containers/btree/node_cache.h
index 69cbfd3..4377eae 100644
--- a/include/stxxl/bits/containers/btree/node_cache.h
+++ b/include/stxxl/bits/containers/btree/node_cache.h
@@ -565,12 +565,13 @@ public:
         change_btree_pointers(m_btree);
         obj.change_btree_pointers(obj.m_btree);
         std::swap(m_fixed, obj.m_fixed);
+        std::swap(m_dirty, obj.m_dirty);
         std::swap(m_free_nodes, obj.m_free_nodes);
         std::swap(m_bid2node, obj.m_bid2node);
         std::swap(m_pager, obj.m_pager);
         std::swap(m_alloc_strategy, obj.m_alloc_strategy);
         std::swap(n_found, obj.n_found);
-        std::swap(n_not_found, obj.n_found);
+        std::swap(n_not_found, obj.n_not_found);
         std::swap(n_created, obj.n_created);
         std::swap(n_deleted, obj.n_deleted);
         std::swap(n_read, obj.n_read);
-- 
2.43.0


From 7542785dfa1e6fcc19be2a7f323d3066326830d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:37 +0000
Subject: [PATCH 041/119] fix: map: bulk construction of a too high tree gives
 back its blocks

---
 include/stxxl/bits/containers/btree/btree.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/containers/btree/btree.h b/include/stxxl/bits/containers/btree/btree.h
index 265394e..9a0bce5 100644
--- a/include/stxxl/bits/containers/btree/btree.h
+++ b/include/stxxl/bits/containers/btree/btree.h
@@ -419,6 +419,9 @@ private:
             STXXL_VERBOSE1("Increasing height to " << m_height);
             if (m_node_cache.size() < (m_height - 1))
             {
+                // no destructor will run: give back the blocks
+                m_root_node.insert(bids.begin(), bids.end());
+                deallocate_children();
                 STXXL_THROW2(std::runtime_error, "btree::bulk_construction",
                              "The height of the tree (" << m_height << ") has exceeded the required capacity (" << (m_node_cache.size() + 1) << ") of the node cache. Increase the node cache size.");
             }
-- 
2.43.0


From 6a05b362fa6667309d2109e8ecfa36ea7fc70f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 042/119] fix: sort, ksort: do not overwrite the block after a
 range that starts within a block

---
 include/stxxl/bits/algo/ksort.h | 2 --
 include/stxxl/bits/algo/sort.h  | 2 --
 2 files changed, 4 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 33ec8cf..1f229e3 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -922,8 +922,6 @@ void ksort(ExtIterator first, ExtIterator last, KeyExtractor keyobj, unsigned_ty
                     *cur_bid = (*it).bid;
                 }
 
-                *cur_bid = (*it).bid;
-
                 delete sorted_first_block;
                 delete[] reqs;
                 delete out;
diff --git a/include/stxxl/bits/algo/sort.h b/include/stxxl/bits/algo/sort.h
index 2a14fb4..e4c4873 100644
--- a/include/stxxl/bits/algo/sort.h
+++ b/include/stxxl/bits/algo/sort.h
@@ -879,8 +879,6 @@ void sort(ExtIterator first, ExtIterator last, StrictWeakOrdering cmp, unsigned_
                     *cur_bid = (*it).bid;
                 }
 
-                *cur_bid = (*it).bid;
-
                 delete sorted_first_block;
                 delete[] reqs;
                 delete out;
-- 
2.43.0


From a5e3eb80603922363da2b443fceb79a5c7c4e19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 043/119] fix: sort, ksort: a range of a file that starts
 within a block stays in the file

---
 include/stxxl/bits/algo/ksort.h | 5 ++++-
 include/stxxl/bits/algo/sort.h  | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 1f229e3..04591ff 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -630,7 +630,10 @@ ksort_blocks(InputBidIterator input_bids, unsigned_type _n,
             runs_left -= runs2merge;
         }
         // allocate blocks in the new runs
-        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && !input_bids->is_managed())
+        // (the first block of the input is a temporary one if the range starts
+        // within a block)
+        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) &&
+            (!input_bids->is_managed() || (_n > 1 && !(input_bids + 1)->is_managed())))
         {
             // if we sort a file we can reuse the input bids for the output
             InputBidIterator cur = input_bids;
diff --git a/include/stxxl/bits/algo/sort.h b/include/stxxl/bits/algo/sort.h
index e4c4873..1ecca85 100644
--- a/include/stxxl/bits/algo/sort.h
+++ b/include/stxxl/bits/algo/sort.h
@@ -587,7 +587,10 @@ sort_blocks(InputBidIterator input_bids,
             runs_left -= runs2merge;
         }
         // allocate blocks for the new runs
-        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) && !input_bids->is_managed())
+        // (the first block of the input is a temporary one if the range starts
+        // within a block)
+        if (cur_out_run == 1 && blocks_in_new_run == int_type(_n) &&
+            (!input_bids->is_managed() || (_n > 1 && !(input_bids + 1)->is_managed())))
         {
             // if we sort a file we can reuse the input bids for the output
             input_bid_iterator cur = input_bids;
-- 
2.43.0


From e3bbb6939d3dae46abf3772da2aae91cbb0b2810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:52 +0000
Subject: [PATCH 044/119] fix: ksort: runs have at least one block

---
 include/stxxl/bits/algo/ksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 04591ff..6206704 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -548,7 +548,7 @@ ksort_blocks(InputBidIterator input_bids, unsigned_type _n,
                                 (block_type::raw_size + block_type::size * sizeof(type_key<type, key_type>));
     STXXL_VERBOSE("Reducing number of blocks in a run from " << m2 << " to " <<
                   m2_rf << " due to key size: " << sizeof(typename KeyExtractor::key_type) << " bytes");
-    m2 = m2_rf;
+    m2 = STXXL_MAX<unsigned_type>(m2_rf, 1);
     unsigned_type full_runs = _n / m2;
     unsigned_type partial_runs = ((_n % m2) ? 1 : 0);
     unsigned_type nruns = full_runs + partial_runs;
-- 
2.43.0


From d53c482ca9259b5e93ada411c6cde0259f13c548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 045/119] fix: stable_ksort: read exactly the blocks of the
 range

---
 include/stxxl/bits/algo/stable_ksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index bd05e8a..b552f0f 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -149,7 +149,7 @@ void distribute(
 
     int_type i = 0;
 
-    buf_istream_type in(first.bid(), last.bid() + ((first.block_offset()) ? 1 : 0),
+    buf_istream_type in(first.bid(), last.bid() + ((last.block_offset()) ? 1 : 0),
                         nread_buffers);
 
     buffered_writer<block_type> out(
-- 
2.43.0


From 3c3eeec7c784688bbdc37eda9ca7162263cf6375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:02 +0000
Subject: [PATCH 046/119] fix: stable_ksort: empty ranges, empty buckets and
 buckets of one element

---
 include/stxxl/bits/algo/stable_ksort.h | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index b552f0f..46bc39f 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -230,6 +230,9 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
     typedef stable_ksort_local::bid_sequence<bid_type, alloc_strategy> bucket_bids_type;
     typedef stable_ksort_local::type_key<value_type> type_key_;
 
+    if (first == last)
+        return;
+
     first.flush();     // flush container
 
     double begin = timestamp();
@@ -370,21 +373,24 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
             // classify first nbucket_blocks-1 blocks, they are full
             type_key_* ref_ptr = refs1;
             key_type offset1 = offset + (key_type(1) << key_type(shift)) * key_type(k);
-            for (i = 0; i < nbucket_blocks - 1; i++)
+            for (i = 0; i + 1 < nbucket_blocks; i++)
             {
                 reqs1[i]->wait();
                 stable_ksort_local::classify_block(blocks1[i].begin(), blocks1[i].end(),
                                                    ref_ptr, bucket1, offset1, shift1 /*,k1*/);
             }
-            // last block might be non-full
-            const unsigned_type last_block_size =
-                (unsigned_type)(bucket_sizes[k] - (nbucket_blocks - 1) * block_type::size);
-            reqs1[i]->wait();
+            if (nbucket_blocks > 0)
+            {
+                // last block might be non-full
+                const unsigned_type last_block_size =
+                    (unsigned_type)(bucket_sizes[k] - (nbucket_blocks - 1) * block_type::size);
+                reqs1[i]->wait();
 
-            //STXXL_MSG("block_type::size: "<<block_type::size<<" last_block_size:"<<last_block_size);
+                //STXXL_MSG("block_type::size: "<<block_type::size<<" last_block_size:"<<last_block_size);
 
-            classify_block(blocks1[i].begin(), blocks1[i].begin() + last_block_size,
-                           ref_ptr, bucket1, offset1, shift1);
+                classify_block(blocks1[i].begin(), blocks1[i].begin() + last_block_size,
+                               ref_ptr, bucket1, offset1, shift1);
+            }
 
             exclusive_prefix_sum(bucket1, k1);
             classify(refs1, refs1 + bucket_sizes[k], refs2, bucket1, offset1, shift1);
@@ -396,7 +402,7 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
                 type_key_* cEnd = refs2 + bucket1[i];
                 type_key_* dEnd = refs1 + bucket1[i];
 
-                const unsigned log_k2 = ilog2_floor(bucket1[i]) - 1;        // adaptive bucket size
+                const unsigned log_k2 = STXXL_MAX<unsigned>(ilog2_floor(cEnd - c), 1) - 1;        // adaptive bucket size
                 const unsigned_type k2 = unsigned_type(1) << log_k2;
                 int_type* bucket2 = new int_type[k2];
                 const unsigned shift2 = shift1 - log_k2;
-- 
2.43.0


From e2aa8b8ce3a2f8176534da448d2463cd5c902ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 047/119] fix: ksort: no shift by the whole width of the key

---
 include/stxxl/bits/algo/ksort.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/include/stxxl/bits/algo/ksort.h b/include/stxxl/bits/algo/ksort.h
index 6206704..aa87f31 100644
--- a/include/stxxl/bits/algo/ksort.h
+++ b/include/stxxl/bits/algo/ksort.h
@@ -205,8 +205,7 @@ create_runs(
     run = *runs;
     int_type run_size = (*runs)->size();
     key_type offset = 0;
-    const int log_k1 = ilog2_ceil((m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE) ?
-                                  (m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE) : 2);
+    const int log_k1 = STXXL_MAX<int>(ilog2_ceil(m2 * BlockType::size * sizeof(type_key_) / STXXL_L2_SIZE), 1);
     const int log_k2 = ilog2_floor(m2 * Blocks1->size) - log_k1 - 1;
     STXXL_VERBOSE("log_k1: " << log_k1 << " log_k2:" << log_k2);
     const int_type k1 = int_type(1) << log_k1;
-- 
2.43.0


From 39f58abdcde55d8547597c7672b37132f4ea96ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:06 +0000
Subject: [PATCH 048/119] fix: stable_ksort: elements with equal keys keep
 their order

---
 include/stxxl/bits/algo/stable_ksort.h | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index 46bc39f..650d57a 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -65,16 +65,18 @@ struct type_key
     { }
 };
 
+// equal keys are ordered by the position of the elements in the bucket, the
+// blocks of which are in consecutive memory: this makes the sort stable
 template <typename Type>
 bool operator < (const type_key<Type>& a, const type_key<Type>& b)
 {
-    return a.key < b.key;
+    return a.key < b.key || (a.key == b.key && a.ptr < b.ptr);
 }
 
 template <typename Type>
 bool operator > (const type_key<Type>& a, const type_key<Type>& b)
 {
-    return a.key > b.key;
+    return b < a;
 }
 
 template <typename BIDType, typename AllocStrategy>
-- 
2.43.0


From d976e3380d3d7670d67b7635d65b38f0ae5778e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:14 +0000
Subject: [PATCH 049/119] fix: stable_ksort: smaller buckets are classified by
 their own number of bits

---
 include/stxxl/bits/algo/stable_ksort.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/algo/stable_ksort.h b/include/stxxl/bits/algo/stable_ksort.h
index 650d57a..7b9f277 100644
--- a/include/stxxl/bits/algo/stable_ksort.h
+++ b/include/stxxl/bits/algo/stable_ksort.h
@@ -357,7 +357,6 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
         int_type* bucket1 = new int_type[k1];
 
         const unsigned int shift = (unsigned int)(sizeof(key_type) * 8 - lognbuckets);
-        const unsigned int shift1 = shift - log_k1;
 
         STXXL_VERBOSE_STABLE_KSORT("Classifying " << nbuckets << " buckets, max size:" << max_bucket_size_rec <<
                                    " block size:" << block_type::size << " log_k1:" << log_k1);
@@ -368,6 +367,7 @@ void stable_ksort(ExtIterator first, ExtIterator last, unsigned_type M)
             const unsigned log_k1_k = STXXL_MAX<unsigned>(ilog2_ceil(bucket_sizes[k] * sizeof(type_key_) / STXXL_L2_SIZE), 1);
             assert(log_k1_k <= log_k1);
             k1 = (unsigned_type)(1) << log_k1_k;
+            const unsigned int shift1 = shift - log_k1_k;
             std::fill(bucket1, bucket1 + k1, 0);
 
             STXXL_VERBOSE_STABLE_KSORT("Classifying bucket " << k << " size:" << bucket_sizes[k] <<
-- 
2.43.0


From 6e9fc23e1074743d3000061cec36a1983f2aa2de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:21 +0000
Subject: [PATCH 050/119] fix: runs_creator<use_push>: size() after the result
 was computed

---
 include/stxxl/bits/stream/sort_stream.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 062ea87..dade811 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -507,6 +507,7 @@ protected:
             STXXL_VERBOSE1("runs_creator(use_push): Small input optimization, input length: " << m_cur_el);
             m_result->small_run.assign(m_blocks1[0].begin(), m_blocks1[0].begin() + m_cur_el);
             m_result->elements = m_cur_el;
+            m_cur_el = 0;
             return;
         }
 
@@ -530,6 +531,7 @@ protected:
             m_write_reqs[i] = m_blocks1[i].write(run[i].bid);
         }
         m_result->add_run(run, m_cur_el);
+        m_cur_el = 0;
 
         for (i = 0; i < m_m2; ++i)
         {
-- 
2.43.0


From 4a6924e21a784afab7545dc0f7a43030cc11d06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 051/119] fix: runs_creator<use_push>: buffers and blocks are
 not released while being written

---
 include/stxxl/bits/stream/sort_stream.h | 34 ++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index dade811..eb612c8 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -494,6 +494,31 @@ protected:
                                    m_cmp);
     }
 
+    //! Cancel all writes, and wait for those that cannot be cancelled, such that
+    //! buffers and external blocks can be released or reused.
+    void cancel_writes()
+    {
+        if (!m_write_reqs)
+            return;
+
+        for (unsigned_type i = 0; i < m_m2; ++i)
+        {
+            if (m_write_reqs[i].get())
+                m_write_reqs[i]->cancel();
+        }
+        for (unsigned_type i = 0; i < m_m2; ++i)
+        {
+            try {
+                if (m_write_reqs[i].get())
+                    m_write_reqs[i]->wait();
+            }
+            catch (const io_error&) {
+                // what was written is dropped anyway
+            }
+            m_write_reqs[i] = request_ptr();
+        }
+    }
+
     void compute_result()
     {
         if (m_cur_el == 0)
@@ -567,12 +592,15 @@ public:
     ~runs_creator()
     {
         m_result_computed = 1;
+        cancel_writes();
         deallocate();
     }
 
     //! Clear current state and remove all items.
     void clear()
     {
+        cancel_writes();
+
         if (!m_result)
             m_result = new sorted_runs_data_type;
         else
@@ -580,12 +608,6 @@ public:
 
         m_result_computed = false;
         m_cur_el = 0;
-
-        for (unsigned_type i = 0; i < m_m2; ++i)
-        {
-            if (m_write_reqs[i].get())
-                m_write_reqs[i]->cancel();
-        }
     }
 
     //! Allocates input buffers and clears result.
-- 
2.43.0


From efc659c830381072937b74f24f625bbfb72fa14b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:44 +0000
Subject: [PATCH 052/119] fix: sorter: finish_clear() clears the result in both
 states

---
 include/stxxl/bits/containers/sorter.h  | 2 +-
 include/stxxl/bits/stream/sort_stream.h | 1 +
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/sorter.h b/include/stxxl/bits/containers/sorter.h
index 013ac5f..a7f78af 100644
--- a/include/stxxl/bits/containers/sorter.h
+++ b/include/stxxl/bits/containers/sorter.h
@@ -161,10 +161,10 @@ public:
         if (m_state == STATE_OUTPUT)
         {
             m_runs_merger.deallocate();
-            m_runs_creator.result()->clear();
         }
 
         m_runs_creator.deallocate();
+        m_runs_creator.result()->clear();
     }
 
     //! \}
diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index eb612c8..3d0e076 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -1289,6 +1289,7 @@ public:
     {
         deallocate_prefetcher();
         m_sruns = NULL;         // release reference on result object
+        m_elements_remaining = 0;
     }
 
 public:
-- 
2.43.0


From 3437a319eb30670af302fb22205a565ca8a31f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:14 +0000
Subject: [PATCH 053/119] fix: runs_merger: parallel merging starts anew when
 it is initialized again

---
 include/stxxl/bits/stream/sort_stream.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 3d0e076..9d763e5 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -1261,6 +1261,7 @@ public:
         {
 #if STXXL_PARALLEL_MULTIWAY_MERGE
 // begin of STL-style merging
+            num_currently_mergeable = 0;
             seqs = new std::vector<sequence>(nruns);
             buffers = new std::vector<block_type*>(nruns);
 
-- 
2.43.0


From 55f2be36ee750c5e46d95d161c374014a7756306 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:51 +0000
Subject: [PATCH 054/119] fix: stream::transform: the sixth input may have
 another type than the fifth

---
 include/stxxl/bits/stream/stream.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/stream/stream.h b/include/stxxl/bits/stream/stream.h
index 919ad46..684bc32 100644
--- a/include/stxxl/bits/stream/stream.h
+++ b/include/stxxl/bits/stream/stream.h
@@ -749,7 +749,7 @@ private:
 public:
     //! Construction.
     transform(Operation& o, Input1& i1_, Input2& i2_, Input3& i3_, Input4& i4_,
-              Input5& i5_, Input5& i6_)
+              Input5& i5_, Input6& i6_)
         : op(o), i1(i1_), i2(i2_), i3(i3_), i4(i4_), i5(i5_), i6(i6_)
     {
         if (!empty())
-- 
2.43.0


From a255a3e04b67f2bedece1fe013af78cb8e7d8d35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:33 +0000
Subject: [PATCH 055/119] fix: vector_iterator2stream_sr: a copy takes over the
 stream instead of deleting it twice

---
 include/stxxl/bits/stream/stream.h | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/stream/stream.h b/include/stxxl/bits/stream/stream.h
index 684bc32..e34c8ac 100644
--- a/include/stxxl/bits/stream/stream.h
+++ b/include/stxxl/bits/stream/stream.h
@@ -289,8 +289,9 @@ struct streamify_traits<
 template <class InputIterator>
 class vector_iterator2stream_sr
 {
-    vector_iterator2stream<InputIterator>* vec_it_stream;
-    iterator2stream<InputIterator>* it_stream;
+    // both are handed over to the copy, like the buffers of vector_iterator2stream
+    mutable vector_iterator2stream<InputIterator>* vec_it_stream;
+    mutable iterator2stream<InputIterator>* it_stream;
 
     typedef typename InputIterator::block_type block_type;
 
@@ -319,7 +320,10 @@ public:
 
     vector_iterator2stream_sr(const self_type& a)
         : vec_it_stream(a.vec_it_stream), it_stream(a.it_stream)
-    { }
+    {
+        a.vec_it_stream = NULL;
+        a.it_stream = NULL;
+    }
 
     //! Standard stream method.
     const value_type& operator * () const
-- 
2.43.0


From e0ef14812c862c8a4e3ce4415e2c360818ac1761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:14 +0000
Subject: [PATCH 056/119] fix: for_each_m: elements assigned in blocks that
 were never written are kept

---
 include/stxxl/bits/algo/scan.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stxxl/bits/algo/scan.h b/include/stxxl/bits/algo/scan.h
index d769860..42714ff 100644
--- a/include/stxxl/bits/algo/scan.h
+++ b/include/stxxl/bits/algo/scan.h
@@ -183,6 +183,10 @@ UnaryFunction for_each_m(ExtIterator begin, ExtIterator end,
         }
     }
 
+    // the blocks may not have been written before
+    for (cur = begin - begin.block_offset(); cur < end; cur += ExtIterator::block_type::size)
+        cur.block_externally_updated();
+
     return functor;
 }
 
-- 
2.43.0


From b93a4a0a9fce43fb65f2168347c7d15d3d0b0275 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:44 +0000
Subject: [PATCH 057/119] fix: random_shuffle: empty ranges, and elements moved
 to blocks that were never written

---
 include/stxxl/bits/algo/random_shuffle.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/stxxl/bits/algo/random_shuffle.h b/include/stxxl/bits/algo/random_shuffle.h
index 531f6ce..4af04b1 100644
--- a/include/stxxl/bits/algo/random_shuffle.h
+++ b/include/stxxl/bits/algo/random_shuffle.h
@@ -206,6 +206,9 @@ void random_shuffle(
 
     STXXL_VERBOSE1("random_shuffle: Vector Version");
 
+    if (first == last)
+        return;
+
     // make sure we have at least 6 blocks + 1 page
     if (M < 6 * BlockSize + PageSize * BlockSize) {
         STXXL_ERRMSG("random_shuffle: insufficient memory, " << M << " bytes supplied,");
@@ -357,6 +360,10 @@ void random_shuffle(
             out << tmp;
         }
     }
+
+    // the blocks may not have been written before
+    for (_cur = first - first.block_offset(); _cur < last; _cur += block_type::size)
+        _cur.block_externally_updated();
 }
 
 //! External equivalent of std::random_shuffle (specialization for stxxl::vector)
-- 
2.43.0


From 4aed70f730931c03b5552c2f406804ec4f5fc516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 058/119] fix: for_each_m: a single buffer is no longer divided
 into two streams without buffers

---
 include/stxxl/bits/algo/scan.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/algo/scan.h b/include/stxxl/bits/algo/scan.h
index 42714ff..4aecd4a 100644
--- a/include/stxxl/bits/algo/scan.h
+++ b/include/stxxl/bits/algo/scan.h
@@ -145,6 +145,9 @@ UnaryFunction for_each_m(ExtIterator begin, ExtIterator end,
     if (nbuffers == 0)
         nbuffers = 2 * config::get_instance()->disks_number();
 
+    // each of the streams needs a buffer
+    nbuffers = STXXL_MAX<int_type>(nbuffers, 2);
+
     // create prefetching stream,
     buf_istream_type in(begin.bid(), end.bid() + ((end.block_offset()) ? 1 : 0), nbuffers / 2);
     // create buffered write stream for blocks
-- 
2.43.0


From b1b3af68ddbbd2bd56cf7b3a947782c9178faca4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 059/119] fix: hash_map: maps without buckets can be searched
 and changed, and keep their elements

---
 .../stxxl/bits/containers/hash_map/hash_map.h | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 0759bd2..3dfc4f4 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -373,6 +373,9 @@ public:
     //! \return iterator pointing to the inserted value
     iterator insert_oblivious(const value_type& value)
     {
+        if (buckets_.size() == 0)
+            _rebuild_buckets(128);
+
         internal_size_type i_bucket = _bkt_num(value.first);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, value.first);
@@ -451,6 +454,9 @@ public:
     //! \return number of values actually erased (0 or 1)
     external_size_type erase(const key_type& key)
     {
+        if (buckets_.size() == 0)
+            return 0;
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -505,6 +511,9 @@ public:
     //! \param key key for value to release
     void erase_oblivious(const key_type& key)
     {
+        if (buckets_.size() == 0)
+            return;
+
         internal_size_type i_bucket = _bkt_num(key);
         bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -621,6 +630,9 @@ public:
     //! \param key key for value to look up
     iterator find(const key_type& key)
     {
+        if (buckets_.size() == 0)
+            return this->_end<iterator>();
+
         if (buffer_size_ + 1 >= max_buffer_size_)       // (*)
             _rebuild_buckets();
 
@@ -678,6 +690,9 @@ public:
     //! \param key key for value to look up
     const_iterator find(const key_type& key) const
     {
+        if (buckets_.size() == 0)
+            return this->_end<const_iterator>();
+
         internal_size_type i_bucket = _bkt_num(key);
         const bucket_type& bucket = buckets_[i_bucket];
         node_type* node = _find_key_internal(bucket, key);
@@ -742,6 +757,9 @@ public:
     //! since using this operator will check external-memory.
     mapped_type& operator [] (const key_type& key)
     {
+        if (buckets_.size() == 0)
+            _rebuild_buckets(128);
+
         if (buffer_size_ + 1 >= max_buffer_size_)       // (*)
             _rebuild_buckets();
 
@@ -1121,6 +1139,8 @@ protected:
         // determine new number of buckets from desired load_factor ...
         internal_size_type n_new;
         n_new = (internal_size_type)ceil((double)num_total_ / ((double)subblock_size * (double)opt_load_factor()));
+        if (n_new == 0)
+            n_new = 1;
 
         // ... but give the user the chance to request even more buckets
         if (n_desired > n_new)
@@ -1320,6 +1340,8 @@ public:
         // calculate new number of buckets
         external_size_type num_total_new = num_total_ + (l - f);         // estimated number of elements
         external_size_type n_buckets_new = (external_size_type)ceil((double)num_total_new / ((double)subblock_size * (double)opt_load_factor()));
+        if (n_buckets_new == 0)
+            n_buckets_new = 1;
         if (n_buckets_new > max_bucket_count())
             n_buckets_new = max_bucket_count();
 
-- 
2.43.0


From 6601b049df4ac462fad61ffff6a02f6bd70da0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 060/119] fix: hash_map: operator[] counts elements it adds,
 and iterators follow those it moves into the buffer

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 3dfc4f4..f0c0a4f 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -784,10 +784,10 @@ public:
             external_size_type i_external = result.first;
             value_type found_value = result.second;
 
+            const bool found = (i_external < bucket.n_external_ && _eq(found_value.first, key));
+
             value_type buffer_value =
-                (i_external < bucket.n_external_ && _eq(found_value.first, key))
-                ? found_value
-                : value_type(key, mapped_type());
+                found ? found_value : value_type(key, mapped_type());
 
             // add a new node to the buffer. this new node's value overwrites
             // the external value if it was found and otherwise is set to (key,
@@ -800,6 +800,11 @@ public:
             ++buffer_size_;
             // note that we already checked the buffer-size in (*)
 
+            if (found)
+                iterator_map_.fix_iterators_2int(i_bucket, key, new_node);
+            else
+                ++num_total_;
+
             return new_node->value_.second;
         }
     }
-- 
2.43.0


From 4c09f9aff55f89aea7567feaa63cc619ceae6ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 061/119] fix: hash_map: erase_oblivious() of missing keys does
 not make the estimated size wrap around

---
 .../stxxl/bits/containers/hash_map/hash_map.h  | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index f0c0a4f..652bb38 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -249,6 +249,14 @@ public:
     { return node_allocator_; }
 
 protected:
+    //! Count one value less. The (estimated) number of values may be too small,
+    //! e.g. after erase_oblivious() of missing keys, but it must not wrap around.
+    void _decrease_num_total()
+    {
+        if (num_total_ > 0)
+            --num_total_;
+    }
+
     /*!
      * After using *oblivious_-methods only an estimate for the total number of
      * elements can be given.  This method accesses external memory to
@@ -422,7 +430,7 @@ public:
     //! \param it iterator pointing to the value to erase
     void erase(const_iterator it)
     {
-        --num_total_;
+        _decrease_num_total();
         bucket_type& bucket = buckets_[it.i_bucket_];
 
         if (it.source_ == src_internal)
@@ -467,7 +475,7 @@ public:
             if (!node->deleted())
             {
                 node->set_deleted(true);
-                --num_total_;
+                _decrease_num_total();
                 iterator_map_.fix_iterators_2end(i_bucket, key);
                 return 1;
             }
@@ -486,7 +494,7 @@ public:
             // found in external memory; add delete-node
             if (i_external < bucket.n_external_ && _eq(ext_value.first, key))
             {
-                --num_total_;
+                _decrease_num_total();
 
                 if (node)
                     node->set_next(_new_node(value_type(key, mapped_type()), node->next(), true));
@@ -523,7 +531,7 @@ public:
         {
             if (!node->deleted())
             {
-                --num_total_;
+                _decrease_num_total();
                 node->set_deleted(true);
                 iterator_map_.fix_iterators_2end(i_bucket, key);
             }
@@ -532,7 +540,7 @@ public:
         else
         {
             oblivious_ = true;
-            --num_total_;
+            _decrease_num_total();
 
             if (node)
                 node->set_next(_new_node(value_type(key, mapped_type()), node->next(), true));
-- 
2.43.0


From b0f34aa86dcc2b9ee3287ad09574c6a2d95f1f32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 062/119] fix: hash_map: bulk insertion keeps elements with
 different keys and the same hash value

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index 652bb38..cec7e9d 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -1251,7 +1251,7 @@ protected:
         {
             value_type v_old = *in_;
             ++in_;
-            while (!in_.empty() && v_old.first == (*in_).first)
+            while (!in_.empty() && map_._eq(v_old.second.first, (*in_).second.first))
                 ++in_;
         }
     };
-- 
2.43.0


From a84f0b44fbe006667b2a03df1bbd5200a69b395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 063/119] fix: hash_map: the greatest hash values belong to the
 last bucket

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index cec7e9d..a53d0f6 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -970,9 +970,12 @@ protected:
     {
         //! TODO maybe specialize double arithmetic to integer. the old code
         //! was faulty -tb.
-        return (internal_size_type)(
+        internal_size_type i_bucket = (internal_size_type)(
             (double)n * ((double)hash_(key) / (double)std::numeric_limits<internal_size_type>::max())
             );
+
+        // the greatest hash values are rounded up
+        return (i_bucket < n || n == 0) ? i_bucket : n - 1;
     }
 
     /*!
-- 
2.43.0


From ed8946b5ee540719abceae81ab4c2575638269a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 064/119] fix: hash_map: equal_range() contains the element
 found

---
 include/stxxl/bits/containers/hash_map/hash_map.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/hash_map.h b/include/stxxl/bits/containers/hash_map/hash_map.h
index a53d0f6..4fcaf03 100644
--- a/include/stxxl/bits/containers/hash_map/hash_map.h
+++ b/include/stxxl/bits/containers/hash_map/hash_map.h
@@ -749,7 +749,10 @@ public:
     std::pair<iterator, iterator> equal_range(const key_type& key)
     {
         iterator it = find(key);
-        return std::pair<iterator, iterator>(it, it);
+        iterator next = it;
+        if (next != end())
+            ++next;
+        return std::pair<iterator, iterator>(it, next);
     }
 
     //! Finds a range containing all values with given key. Const access
@@ -758,7 +761,10 @@ public:
     std::pair<const_iterator, const_iterator> equal_range(const key_type& key) const
     {
         const_iterator cit = find(key);
-        return std::pair<const_iterator, const_iterator>(cit, cit);
+        const_iterator next = cit;
+        if (next != end())
+            ++next;
+        return std::pair<const_iterator, const_iterator>(cit, next);
     }
 
     //! Convenience operator to quickly insert or find values. Use with caution
-- 
2.43.0


From 35d9385b1915fb90de0e322810534987505e3a55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 065/119] fix: hash_map: an iterator at the end differs from
 one at an element that was inserted again

---
 include/stxxl/bits/containers/hash_map/iterator.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/iterator.h b/include/stxxl/bits/containers/hash_map/iterator.h
index b8f1760..58eb542 100644
--- a/include/stxxl/bits/containers/hash_map/iterator.h
+++ b/include/stxxl/bits/containers/hash_map/iterator.h
@@ -170,8 +170,8 @@ public:
     //! Two iterators are equal if the point to the same value in the same map
     bool operator == (const hash_map_iterator_base& obj) const
     {
-        if (end_ && obj.end_)
-            return true;
+        if (end_ || obj.end_)
+            return end_ == obj.end_;
 
         if (map_ != obj.map_ ||
             i_bucket_ != obj.i_bucket_ ||
-- 
2.43.0


From 476d1ca8f4e24d1ab1d6690f21aea685027f398a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:19 +0000
Subject: [PATCH 066/119] fix: hash_map: the block a reader is at stays in the
 cache

---
 include/stxxl/bits/containers/hash_map/util.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/util.h b/include/stxxl/bits/containers/hash_map/util.h
index ff31eb6..ce30185 100644
--- a/include/stxxl/bits/containers/hash_map/util.h
+++ b/include/stxxl/bits/containers/hash_map/util.h
@@ -230,8 +230,6 @@ public:
             if (curr_bid_ == end_bid_)
                 return false;
 
-            cache_.retain_block(*curr_bid_);
-
             // if a complete page has been consumed, prefetch the next one
             if (prefetch_ && (curr_bid_ - begin_bid_) % page_size_ == 0)
             {
@@ -249,6 +247,9 @@ public:
         if (i_value_ % subblock_size == 0)
         {
             subblock_ = cache_.get_subblock(*curr_bid_, i_value_ / subblock_size);
+            // the block is certainly cached now, and has to stay there
+            if (i_value_ == 0)
+                cache_.retain_block(*curr_bid_);
         }
 
         return true;
@@ -273,7 +274,10 @@ public:
         cache_.release_block(*curr_bid_);
 
         if (bid == end_bid_)
+        {
+            curr_bid_ = end_bid_;
             return;
+        }
 
         // skip to block
         while (curr_bid_ != bid) {
-- 
2.43.0


From 4dbc1671bec489e1256c73b1097b5ef2d6725ac3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 067/119] fix: hash_map: elements on disks that cannot read
 parts of blocks are found

---
 include/stxxl/bits/containers/hash_map/block_cache.h | 12 ++++++++++++
 include/stxxl/bits/io/file.h                         |  5 +++++
 include/stxxl/bits/io/fileperblock_file.h            |  3 +++
 include/stxxl/bits/io/wbtl_file.h                    |  2 ++
 4 files changed, 22 insertions(+)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index 03663d9..74a78d4 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -415,6 +415,18 @@ public:
             retain_count_[i_block] = 0;
         }
 
+        // the file can only read complete blocks
+        if (!bid.storage->reads_parts())
+        {
+            reqs_[i_block] = block->read(bid);
+            reqs_[i_block]->wait();
+
+            valid_subblock_[i_block] = valid_all;
+            pager_.hit(i_block);
+
+            return &((*block)[i_subblock]);
+        }
+
         // now actually load the wanted subblock and store it within *block
         subblock_bid_type subblock_bid(
             bid.storage, bid.offset + i_subblock * subblock_type::raw_size
diff --git a/include/stxxl/bits/io/file.h b/include/stxxl/bits/io/file.h
index 1615b13..b8a4a43 100644
--- a/include/stxxl/bits/io/file.h
+++ b/include/stxxl/bits/io/file.h
@@ -148,6 +148,11 @@ public:
         STXXL_UNUSED(prefix);
     }
 
+    //! Tells whether a part of a previously written region can be read, i.e.
+    //! a region starting or ending inside of it. Otherwise, only regions can
+    //! be read that were written as a whole.
+    virtual bool reads_parts() const { return true; }
+
     //! close and remove file
     virtual void close_remove() { }
 
diff --git a/include/stxxl/bits/io/fileperblock_file.h b/include/stxxl/bits/io/fileperblock_file.h
index 4dd1768..79e63e6 100644
--- a/include/stxxl/bits/io/fileperblock_file.h
+++ b/include/stxxl/bits/io/fileperblock_file.h
@@ -63,6 +63,9 @@ public:
 
     virtual void lock();
 
+    //! Every block is a file of its own, which is found by the block's offset.
+    virtual bool reads_parts() const { return false; }
+
     //! Frees the specified region.
     //! Actually deletes the corresponding file if the whole thing is deleted.
     virtual void discard(offset_type offset, offset_type length);
diff --git a/include/stxxl/bits/io/wbtl_file.h b/include/stxxl/bits/io/wbtl_file.h
index 933a216..75d8e92 100644
--- a/include/stxxl/bits/io/wbtl_file.h
+++ b/include/stxxl/bits/io/wbtl_file.h
@@ -88,6 +88,8 @@ public:
     offset_type size();
     void set_size(offset_type newsize);
     void lock();
+    //! Blocks are mapped as a whole, and found by their offset.
+    virtual bool reads_parts() const { return false; }
     void serve(void* buffer, offset_type offset, size_type bytes,
                request::request_type type);
     void discard(offset_type offset, offset_type size);
-- 
2.43.0


From 91ea140575a2e461ef4d879cbce7f43bbcc08f98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 068/119] fix: hash_map: blocks that are still being written
 back are not read

---
 .../bits/containers/hash_map/block_cache.h    | 22 +++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index 74a78d4..6320e2d 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -40,6 +40,8 @@ public:
 
 protected:
     std::vector<block_type*> blocks_;
+    //! bids of the blocks being written
+    std::vector<bid_type> bids_;
     std::vector<request_ptr> reqs_;
     std::vector<unsigned_type> free_blocks_;
     std::list<unsigned_type> busy_blocks_; // TODO make that a circular-buffer
@@ -49,6 +51,7 @@ public:
     {
         blocks_.reserve(size);
         free_blocks_.reserve(size);
+        bids_.resize(size);
         reqs_.resize(size);
 
         for (unsigned_type i = 0; i < size; i++) {
@@ -76,12 +79,24 @@ public:
         block_type* buffer = blocks_[i_buffer];
 
         blocks_[i_buffer] = write_block;
+        bids_[i_buffer] = bid;
         reqs_[i_buffer] = blocks_[i_buffer]->write(bid);
         busy_blocks_.push_back(i_buffer);
 
         return buffer;
     }
 
+    //! Wait until the given block is on disk, if it is being written.
+    void wait(const bid_type& bid)
+    {
+        for (std::list<unsigned_type>::const_iterator it = busy_blocks_.begin();
+             it != busy_blocks_.end(); ++it)
+        {
+            if (bids_[*it] == bid && reqs_[*it].valid())
+                reqs_[*it]->wait();
+        }
+    }
+
     void flush()
     {
         while (!busy_blocks_.empty()) {
@@ -99,6 +114,7 @@ public:
     void swap(block_cache_write_buffer& obj)
     {
         std::swap(blocks_, obj.blocks_);
+        std::swap(bids_, obj.bids_);
         std::swap(reqs_, obj.reqs_);
         std::swap(free_blocks_, obj.free_blocks_);
         std::swap(busy_blocks_, obj.busy_blocks_);
@@ -413,6 +429,9 @@ public:
             bids_[i_block] = bid;
             dirty_[i_block] = false;
             retain_count_[i_block] = 0;
+
+            // the block may have been kicked and is still being written
+            write_buffer_.wait(bid);
         }
 
         // the file can only read complete blocks
@@ -472,6 +491,9 @@ public:
             bids_[i_block] = bid;
             retain_count_[i_block] = 0;
             dirty_[i_block] = false;
+
+            // the block may have been kicked and is still being written
+            write_buffer_.wait(bid);
         }
 
         // now actually load the block
-- 
2.43.0


From 01b6bba381fa79e1a99da513bd6ff4ea19e80685 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:58 +0000
Subject: [PATCH 069/119] fix: hash_map: block_cache::clear() waits for blocks
 being written

---
 include/stxxl/bits/containers/hash_map/block_cache.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index 6320e2d..2ff5390 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -534,6 +534,9 @@ public:
             free_blocks_.push_back(i);
         }
         bid_map_.clear();
+
+        // callers may delete the blocks, whose space is used again
+        write_buffer_.flush();
     }
 
     //! Print statistics: Number of hits/misses, blocks forced from cache or
-- 
2.43.0


From 81c4baa66061bf86c75bb672265a53035e7fa29e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:11 +0000
Subject: [PATCH 070/119] fix: hash_map: iterators of swapped maps follow their
 elements to the other map

---
 include/stxxl/bits/containers/hash_map/block_cache.h  | 2 +-
 include/stxxl/bits/containers/hash_map/iterator_map.h | 7 +++++--
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index 2ff5390..b838758 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -581,7 +581,7 @@ public:
         std::swap(pager_, obj.pager_);
 
         std::swap(n_found, obj.n_found);
-        std::swap(n_not_found, obj.n_found);
+        std::swap(n_not_found, obj.n_not_found);
         std::swap(n_read, obj.n_read);
         std::swap(n_written, obj.n_written);
         std::swap(n_clean_forced, obj.n_clean_forced);
diff --git a/include/stxxl/bits/containers/hash_map/iterator_map.h b/include/stxxl/bits/containers/hash_map/iterator_map.h
index 57555b3..ce5fee1 100644
--- a/include/stxxl/bits/containers/hash_map/iterator_map.h
+++ b/include/stxxl/bits/containers/hash_map/iterator_map.h
@@ -226,18 +226,21 @@ private:
             outc.push_back((*i).second);
     }
 
-    // changes hash_map pointer in all contained iterators
+    // changes hash_map pointer in all contained iterators; their readers refer
+    // to the cache and the blocks of the map they were in
     void change_hash_map_pointers(hash_map_type* map)
     {
         for (mmiterator_type it = it_map_.begin(); it != it_map_.end(); ++it)
+        {
             ((*it).second)->map_ = map;
+            ((*it).second)->reset_reader();
+        }
     }
 
 public:
     void swap(iterator_map<HashMap>& obj)
     {
         std::swap(it_map_, obj.it_map_);
-        std::swap(map_, obj.map_);
 
         change_hash_map_pointers(map_);
         obj.change_hash_map_pointers(obj.map_);
-- 
2.43.0


From 00783474a1faa1893d5744a1ee13fb3f870fd30a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:36 +0000
Subject: [PATCH 071/119] fix: hash_map: a new reader does not release blocks
 retained by others

---
 include/stxxl/bits/containers/hash_map/util.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/util.h b/include/stxxl/bits/containers/hash_map/util.h
index ce30185..65bf75b 100644
--- a/include/stxxl/bits/containers/hash_map/util.h
+++ b/include/stxxl/bits/containers/hash_map/util.h
@@ -160,8 +160,11 @@ public:
         if (prefetch)
             enable_prefetching();
 
-        // will (amongst other things) set subblock_ and retain current block
-        skip_to(seq_begin, i_subblock);
+        // not skip_to(), which releases the current block: it was not yet
+        // retained by this reader, but maybe by others
+        i_value_ = i_subblock * subblock_size;
+        subblock_ = cache_.get_subblock(*curr_bid_, i_subblock);
+        cache_.retain_block(*curr_bid_);
     }
 
     ~buffered_reader()
-- 
2.43.0


From 687bc5c0c0644e370d7fa28a02385e4bda16cdbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:14 +0000
Subject: [PATCH 072/119] fix: parallel_priority_queue: internal arrays check
 the size of their own values

The constructor took the values over and then asserted that the vector they
came from was not empty, which failed always.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 558396f..7bc2e0b 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -308,7 +308,7 @@ public:
           m_block_pointers(1)
     {
         std::swap(m_values, values);
-        STXXL_ASSERT(values.size() > 0);
+        STXXL_ASSERT(m_values.size() > 0);
         m_block_pointers[0] = std::make_pair(&(*m_values.begin()), &(*m_values.begin()) + m_values.size());
     }
 
-- 
2.43.0


From 45101e72d577be36989ad61d6674466a9ff4965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 073/119] fix: winner_tree: doubling the number of slots ends

The loop over the old slots ran until an unsigned index became negative and
wrote beyond the tree, for example with the fifth external array of a
parallel_priority_queue.
---
 include/stxxl/bits/common/winner_tree.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/common/winner_tree.h b/include/stxxl/bits/common/winner_tree.h
index 598cd1e..9ce450c 100644
--- a/include/stxxl/bits/common/winner_tree.h
+++ b/include/stxxl/bits/common/winner_tree.h
@@ -251,8 +251,8 @@ public:
         size_t tree_size = (m_num_slots << 1) - 1;
         m_tree.resize(tree_size, invalid_key);
 
-        for (unsigned_type i = old_tree_size - 1; i >= 0; --i) {
-            size_t old_index = i;
+        for (unsigned_type i = old_tree_size; i > 0; --i) {
+            size_t old_index = i - 1;
             size_t old_level = ilog2_floor(old_index + 1);
             size_t new_index = old_index + (1 << old_level);
             m_tree[new_index] = m_tree[old_index];
-- 
2.43.0


From 429e6a5bdbd218e2f13569da2e119ffaaec583ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:18 +0000
Subject: [PATCH 074/119] fix: parallel_priority_queue: elements equal to the
 first one of the next block are merged

Only elements before the first one of the next external block were merged.
When all accessible elements were equal to it, there were none: refilling
the extract buffer failed, and merging external arrays never ended.
---
 .../stxxl/bits/containers/parallel_priority_queue.h    | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 7bc2e0b..1788730 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -3678,15 +3678,17 @@ protected:
 
                 // remove timer if parallel
                 //stats.refill_lower_bound_time.start();
+                // elements equal to the limit may be merged, too: without
+                // them no element may be left to make progress with.
                 if (reuse_previous_lower_bounds) {
                     // Be careful that sequences[i].second is really valid and
                     // set by a previous calculate_merge_sequences() run!
-                    end = std::lower_bound(sequences[i].second, end,
+                    end = std::upper_bound(sequences[i].second, end,
                                            gmin_value, m_inv_compare);
                 }
                 else
                 {
-                    end = std::lower_bound(begin, end,
+                    end = std::upper_bound(begin, end,
                                            gmin_value, m_inv_compare);
                 }
                 //stats.refill_lower_bound_time.stop();
@@ -4325,7 +4327,9 @@ protected:
                         const value_type& gmin_value =
                             m_external_arrays[gmin_index].get_next_block_min();
 
-                        end = std::lower_bound(begin, end,
+                        // include equal elements, see
+                        // calculate_merge_sequences()
+                        end = std::upper_bound(begin, end,
                                                gmin_value, m_inv_compare);
                     }
 
-- 
2.43.0


From 2e2f04cf7ff93ae483bac78cde9670a57d5b1f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:22 +0000
Subject: [PATCH 075/119] fix: parallel_priority_queue: no stale internal
 arrays in the minima tree

When no internal array was left, the minima tree of the internal arrays kept
the players of the removed ones, which were compared with the next one.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 1788730..9dc6038 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -1800,7 +1800,7 @@ public:
         }
         else
         {
-            m_head.deactivate_player(IA);
+            clear_internal_arrays();
         }
     }
 
-- 
2.43.0


From 2a03ead0e34c023dcad75f71a4008d3dd422b9fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:36 +0000
Subject: [PATCH 076/119] fix: parallel_priority_queue: enough write blocks for
 all threads that merge

The pool of write blocks was sized for the insertion heaps and the current
number of OpenMP threads. Merging uses the number of threads at the start of
the program: with more of them the pool ran out of blocks, or grew without
its memory being counted.
---
 .../bits/containers/parallel_priority_queue.h | 25 +++++++++++++------
 1 file changed, 18 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 9dc6038..1c3fab1 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -59,6 +59,19 @@ STXXL_BEGIN_NAMESPACE
 
 namespace ppq_local {
 
+//! Number of threads that may write to an external array at the same time:
+//! parallel merging uses its own setting, which may differ from the current
+//! maximum of OpenMP.
+inline unsigned_type max_merge_threads()
+{
+#if STXXL_PARALLEL
+    return (unsigned_type)std::max(omp_get_max_threads(),
+                                   (int)parallel::SETTINGS::num_threads);
+#else
+    return 1;
+#endif
+}
+
 /*!
  * A random-access iterator class for block oriented data.  The iterator is
  * intended to be provided by the internal_array and external_array classes
@@ -1519,13 +1532,8 @@ public:
         m_ref_total = 0;
 #endif
 
-#if STXXL_PARALLEL
-        if (num_threads == 0)
-            num_threads = omp_get_max_threads();
-#else
         if (num_threads == 0)
-            num_threads = 1;
-#endif
+            num_threads = (unsigned int)max_merge_threads();
 
         m_ea.prepare_write(num_threads);
 
@@ -2419,7 +2427,10 @@ public:
         // initially zero.
 
         // prepare write buffer pool: calculate size and subtract from mem_left
-        external_array_type::prepare_write_pool(m_pool, m_num_insertion_heaps);
+        // (external arrays enlarge it for all threads that merge into them)
+        external_array_type::prepare_write_pool(
+            m_pool, std::max((unsigned_type)m_num_insertion_heaps,
+                             ppq_local::max_merge_threads()));
         m_mem_left -= m_pool.size_write() * block_size;
 
         // prepare internal arrays
-- 
2.43.0


From fbb75351dc122ee6cc2b4656f900e57ea6d4d246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 077/119] fix: parallel_priority_queue: bulk_pop() of no
 elements takes none

A size of zero meant the default size of the extract buffer.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 1c3fab1..12682b2 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2827,6 +2827,11 @@ public:
         const size_t n_elements = std::min<size_t>(max_size, size());
         assert(n_elements < m_extract_buffer_limit);
 
+        if (n_elements == 0) {
+            out.resize(0);
+            return;
+        }
+
         if (m_heaps_size > 0)
             flush_insertion_heaps();
 
-- 
2.43.0


From 2c12efc2699735389b96cb0c0cdd5e42c7f78d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 078/119] fix: parallel_priority_queue: limit_pop() updates the
 minima tree

The extract buffer stayed active when its last element was taken, and the
next comparison read beyond its end. Its next element was not compared with
the other minima.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 12682b2..72cb704 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -3257,6 +3257,11 @@ public:
         assert(m_extract_buffer_size > 0);
         --m_extract_buffer_size;
 
+        if (!extract_buffer_empty())
+            m_minima.update_extract_buffer();
+        else
+            m_minima.deactivate_extract_buffer();
+
         if (extract_buffer_empty() && !m_limit_has_full_range)
         {
             // extract more items
-- 
2.43.0


From eaac19df074137c2c951db4aa85ca3f1eee051c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:35 +0000
Subject: [PATCH 079/119] fix: parallel_priority_queue: bulk_pop_limit() takes
 elements when blocks are missing

When no further block could be read, only elements before the first one of
the next block were taken, and there were none if all were equal to it.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 72cb704..42e6978 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2887,8 +2887,8 @@ public:
             const value_type& ea_limit =
                 m_external_arrays[limiting_ea_index].get_next_block_min();
 
-            if (m_compare(ea_limit, this_limit)) {
-                // No more EM data smaller or equal to limit
+            if (!m_inv_compare(ea_limit, this_limit)) {
+                // No more EM data smaller than the limit
                 break;
             }
 
@@ -2922,7 +2922,10 @@ public:
                 end = m_internal_arrays[j].end();
             }
 
-            end = std::lower_bound(begin, end, this_limit, m_inv_compare);
+            if (has_full_range)
+                end = std::lower_bound(begin, end, this_limit, m_inv_compare);
+            else // limited by a block: include equal elements
+                end = std::upper_bound(begin, end, this_limit, m_inv_compare);
 
             sizes[i] = std::distance(begin, end);
             sequences[i] = std::make_pair(begin, end);
-- 
2.43.0


From 0e878f6ae73d155bd68caedd22ef3177f597ca3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 080/119] fix: parallel_priority_queue: bulk_pop_limit()
 accepts internal arrays emptied by pop()

They are removed later, and an assertion failed on them.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 42e6978..0e8d543 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2869,6 +2869,9 @@ public:
                 flush_insertion_heaps_with_limit(limit);
         }
 
+        // remove arrays that have run empty in pop()
+        cleanup_internal_arrays();
+
         size_type ias = m_internal_arrays.size();
         size_type eas = m_external_arrays.size();
         std::vector<size_type> sizes(eas + ias);
-- 
2.43.0


From 2d764d1943a65bb045969da95649d2a8998c2da9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:18 +0000
Subject: [PATCH 081/119] fix: parallel_priority_queue: blocks of external
 arrays created in limit sessions are read

External arrays created during bulk pushes are hinted at the end of the bulk.
In a limit session elements are taken during the bulk: no block of such an
array was read, and limit_top() accessed an empty extract buffer. The delayed
hints were also forgotten when an array was removed before.
---
 .../bits/containers/parallel_priority_queue.h | 36 +++++++++++++------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 0e8d543..38fd1ca 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2045,9 +2045,9 @@ protected:
     //! and bulk_push just accumulate the elements for eventual sorting.
     bool m_is_very_large_bulk;
 
-    //! First index in m_external_arrays that was not re-hinted during a
-    //! bulk_push sequence.
-    unsigned_type m_bulk_first_delayed_external_array;
+    //! If external arrays were created during a bulk_push sequence: they are
+    //! hinted at its end, or when elements are taken in a limit session.
+    bool m_bulk_delayed_hints;
 
     //! Index of the currently smallest element in the extract buffer
     size_type m_extract_buffer_index;
@@ -2358,6 +2358,7 @@ public:
           // (unnamed)
           m_in_bulk_push(false),
           m_is_very_large_bulk(false),
+          m_bulk_delayed_hints(false),
           m_extract_buffer_index(0),
           // Number of elements currently in the data structures
           m_heaps_size(0),
@@ -2611,7 +2612,7 @@ public:
     {
         assert(!m_in_bulk_push);
         m_in_bulk_push = true;
-        m_bulk_first_delayed_external_array = m_external_arrays.size();
+        m_bulk_delayed_hints = false;
 
         size_type heap_capacity = m_num_insertion_heaps * m_insertion_heap_capacity;
 
@@ -2811,14 +2812,24 @@ public:
             }
         }
 
-        if (m_bulk_first_delayed_external_array != m_external_arrays.size()) {
-            STXXL_DEBUG("bulk_push_end: run delayed re-hinting of EAs");
-            rebuild_hint_tree();
-        }
+        run_delayed_hints();
 
         check_invariants();
     }
 
+protected:
+    //! Hint external arrays created during a bulk_push sequence.
+    void run_delayed_hints()
+    {
+        if (!m_bulk_delayed_hints) return;
+
+        STXXL_DEBUG("run delayed re-hinting of EAs");
+        m_bulk_delayed_hints = false;
+        rebuild_hint_tree();
+    }
+
+public:
+
     //! Extract up to max_size values at once.
     void bulk_pop(std::vector<value_type>& out, size_t max_size)
     {
@@ -2869,6 +2880,9 @@ public:
                 flush_insertion_heaps_with_limit(limit);
         }
 
+        // inside a limit session: flushing may have created external arrays
+        run_delayed_hints();
+
         // remove arrays that have run empty in pop()
         cleanup_internal_arrays();
 
@@ -3394,7 +3408,7 @@ public:
         if (!m_in_bulk_push)
             rebuild_hint_tree();
         else
-            assert(m_external_arrays.size() - 1 >= m_bulk_first_delayed_external_array);
+            m_bulk_delayed_hints = true;
 
         check_invariants();
     }
@@ -4166,7 +4180,7 @@ protected:
         if (!m_in_bulk_push)
             rebuild_hint_tree();
         else
-            assert(m_external_arrays.size() - 1 >= m_bulk_first_delayed_external_array);
+            m_bulk_delayed_hints = true;
 
         check_invariants();
     }
@@ -4401,7 +4415,7 @@ protected:
             }
 
             if (m_in_bulk_push)
-                m_bulk_first_delayed_external_array = 0; // TODO: workaround
+                m_bulk_delayed_hints = true;
         } // destroy external_array_writer
 
         // clean up now empty arrays
-- 
2.43.0


From 1dde2544f1362a4f5d9bace23be51253f26ca05f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 082/119] fix: parallel_priority_queue: merging no external
 arrays does nothing

merge_external_arrays() created an external array without elements when there
were none to merge.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 38fd1ca..278dd1f 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -4228,6 +4228,10 @@ protected:
             ea_index.push_back(i);
         }
 
+        // return if there is nothing to merge.
+        if (ea_index.empty())
+            return;
+
         // return if there is not enough RAM for the new array.
         // TODO: force_merge_all==true is for freeing memory. Breaking here is not
         // helpful in this case. But one should maybe reserve some space in advance.
-- 
2.43.0


From 67097570c0e944170a2c9a0d314e56daed52816f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:01 +0000
Subject: [PATCH 083/119] fix: parallel_priority_queue: memory is freed until
 there is enough

When flushing the internal arrays did not free enough memory, external arrays
were not merged, and the amount of free memory became negative: an assertion
failed, or memory was considered free without limit from then on. The same
happened when there was too little for the array into which all external
arrays are merged.
---
 .../stxxl/bits/containers/parallel_priority_queue.h  | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 278dd1f..f57bf9b 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -3422,8 +3422,14 @@ public:
         if (m_internal_size > 0) {
             flush_internal_arrays();
         }
-        else {
+
+        // not enough or no internal arrays: release the read blocks of the
+        // external arrays, then there may be enough for another one.
+        if (m_mem_left < mem_free && m_external_size > 0) {
             merge_external_arrays();
+
+            if (m_mem_left < mem_free && m_internal_size > 0)
+                flush_internal_arrays();
         }
 
         assert(m_mem_left >= mem_free);
@@ -4237,6 +4243,8 @@ protected:
         // helpful in this case. But one should maybe reserve some space in advance.
         if (m_mem_left < external_array_type::int_memory(level_size) && !force_merge_all)
             return;
+        const bool has_free_memory =
+            (m_mem_left >= external_array_type::int_memory(level_size));
         m_mem_left -= external_array_type::int_memory(level_size);
 
         STXXL_ASSERT(force_merge_all || c_max_external_level_size == ea_index.size());
@@ -4289,7 +4297,7 @@ protected:
                 min_tree.rebuild();
 
                 // === fill available memory with read blocks ===
-                while (m_mem_left >= block_size) {
+                while (has_free_memory && m_mem_left >= block_size) {
                     block_type* new_block = new block_type();
                     m_pool.add_prefetch(new_block);
                     ++m_num_read_blocks;
-- 
2.43.0


From 7c79f7cb6bac6719d279167f6658d43fb379985e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:16 +0000
Subject: [PATCH 084/119] fix: parallel_priority_queue: merging a level leaves
 memory for the read blocks

A level of external arrays was merged when there was enough memory for the
new array, but the read blocks of the last array of the level were still to
be allocated: an assertion failed, or the amount of free memory became
negative.
---
 .../stxxl/bits/containers/parallel_priority_queue.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index f57bf9b..634cadb 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -4238,13 +4238,20 @@ protected:
         if (ea_index.empty())
             return;
 
+        // memory needed for the new array, and for the read blocks of arrays
+        // added since the read pool was resized.
+        size_type mem_needed = external_array_type::int_memory(level_size);
+        const unsigned_type num_read_blocks =
+            m_num_read_blocks_per_ea * m_external_arrays.size();
+        if (num_read_blocks > m_num_read_blocks)
+            mem_needed += (num_read_blocks - m_num_read_blocks) * block_size;
+
         // return if there is not enough RAM for the new array.
         // TODO: force_merge_all==true is for freeing memory. Breaking here is not
         // helpful in this case. But one should maybe reserve some space in advance.
-        if (m_mem_left < external_array_type::int_memory(level_size) && !force_merge_all)
+        if (m_mem_left < mem_needed && !force_merge_all)
             return;
-        const bool has_free_memory =
-            (m_mem_left >= external_array_type::int_memory(level_size));
+        const bool has_free_memory = (m_mem_left >= mem_needed);
         m_mem_left -= external_array_type::int_memory(level_size);
 
         STXXL_ASSERT(force_merge_all || c_max_external_level_size == ea_index.size());
-- 
2.43.0


From fc45a9f33e9e743f2e7b01f3c1c0bbe4fc344728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:44 +0000
Subject: [PATCH 085/119] fix: parallel_priority_queue: games are replayed when
 external arrays are removed

Arrays before the removed ones had been defeated by them in the trees of the
next blocks, and were not found there afterwards: elements were taken out
although smaller ones were still in external memory.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 634cadb..dbcb034 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -2264,6 +2264,12 @@ protected:
             update_hint_tree(i);
         }
 
+        // Replay the games of the removed arrays for those they defeated.
+        for (size_t i = swap_end_index; i < size; ++i) {
+            m_external_min_tree.replay_on_deactivations(i);
+            m_hint_tree.replay_on_deactivations(i);
+        }
+
         STXXL_DEBUG("Removed " << m_external_arrays.end() - swap_end <<
                     " empty external arrays.");
 
-- 
2.43.0


From e156ca1d25a87850572c6483392c50b2a1637f46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:07:44 +0000
Subject: [PATCH 086/119] fix: parallel_priority_queue: levels with more
 external arrays than planned are merged

A level that could not be merged for lack of memory keeps growing, and an
assertion failed when it was merged later.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index dbcb034..189e73b 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -4260,7 +4260,7 @@ protected:
         const bool has_free_memory = (m_mem_left >= mem_needed);
         m_mem_left -= external_array_type::int_memory(level_size);
 
-        STXXL_ASSERT(force_merge_all || c_max_external_level_size == ea_index.size());
+        STXXL_ASSERT(force_merge_all || c_max_external_level_size <= ea_index.size());
         unsigned_type num_arrays_to_merge = ea_index.size();
 
         STXXL_DEBUG("merging external arrays" <<
-- 
2.43.0


From 9e1a09bffe40d0a67de42d18051534740155764d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:11 +0000
Subject: [PATCH 087/119] fix: parallel_priority_queue: merging a level knows
 which blocks have no hints

The tree of arrays with blocks in external memory was built before the
hints were removed, so an array whose blocks had all been hinted did not
limit the merge, and greater elements of other arrays were merged first.
---
 .../bits/containers/parallel_priority_queue.h | 27 ++++++++++---------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 189e73b..b5ad6f2 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -4296,19 +4296,6 @@ protected:
             {
                 STXXL_DEBUG("num_arrays_done = " << num_arrays_done);
 
-                // === build hints ===
-
-                for (int_type i = 0; i < num_arrays_to_merge; ++i) {
-                    if (m_external_arrays[ea_index[i]].has_unhinted_em_data()) {
-                        min_tree.activate_without_replay(i);
-                    }
-                    else {
-                        min_tree.deactivate_without_replay(i);
-                    }
-                }
-
-                min_tree.rebuild();
-
                 // === fill available memory with read blocks ===
                 while (has_free_memory && m_mem_left >= block_size) {
                     block_type* new_block = new block_type();
@@ -4318,11 +4305,25 @@ protected:
                 }
                 // ==============================================
 
+                // === build hints ===
+
                 // cleanup hints (all arrays, not only the ones to merge)
                 for (unsigned_type i = 0; i < m_external_arrays.size(); ++i) {
                     m_external_arrays[i].rebuild_hints_prepare();
                 }
 
+                // the hints removed above are data without hints again
+                for (int_type i = 0; i < num_arrays_to_merge; ++i) {
+                    if (m_external_arrays[ea_index[i]].has_unhinted_em_data()) {
+                        min_tree.activate_without_replay(i);
+                    }
+                    else {
+                        min_tree.deactivate_without_replay(i);
+                    }
+                }
+
+                min_tree.rebuild();
+
                 // virtually release all hints
                 unsigned_type free_prefetch_blocks =
                     m_pool.free_size_prefetch() + m_num_hinted_blocks;
-- 
2.43.0


From be7b6cc768ae760cf1433c1a3ac318317d305627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 088/119] fix: parallel_priority_queue: enough memory is
 requested for new internal arrays

The size of the internal_array object, and unused capacity of the extract
buffer, are subtracted from the memory left, which could wrap around.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index b5ad6f2..f370dd2 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -3369,7 +3369,7 @@ protected:
         if (back_sum)
         {
             // test that enough RAM is available for remaining items
-            flush_ia_ea_until_memory_free(back_sum * sizeof(value_type));
+            flush_ia_ea_until_memory_free(internal_array_type::int_memory(back_sum));
 
             std::vector<value_type> values(back_sum);
 
@@ -3783,7 +3783,7 @@ protected:
         // counted
         if (!do_not_flush)
             flush_ia_ea_until_memory_free(
-                internal_array_type::int_memory(m_extract_buffer.size())
+                internal_array_type::int_memory(m_extract_buffer.capacity())
                 );
 
         if (m_extract_buffer_size == 0) return;
@@ -4022,10 +4022,11 @@ protected:
         size_type max_mem_needed;
 
         if (c_merge_sorted_heaps) {
-            max_mem_needed = m_mem_for_heaps;
+            max_mem_needed = sizeof(internal_array_type) + m_mem_for_heaps;
         }
         else {
-            max_mem_needed = insertion_heap_int_memory();
+            max_mem_needed = m_num_insertion_heaps
+                             * internal_array_type::int_memory(m_insertion_heap_capacity);
         }
 
         // test that enough RAM is available for merged internal array:
-- 
2.43.0


From 8e17f3ae1a97d68e6073a87d8f6cde8bf8bf1474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:27:39 +0000
Subject: [PATCH 089/119] fix: parallel_priority_queue: a wrapped amount of
 memory left is not enough memory

Flushing the internal arrays adds the extract buffer to them even if there
is no memory for it. Until they are flushed m_mem_left is wrapped around,
and was taken for a large amount when the external arrays are merged first.
---
 .../bits/containers/parallel_priority_queue.h | 21 ++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index f370dd2..5c6b846 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -3419,11 +3419,18 @@ public:
         check_invariants();
     }
 
+    //! Whether the given number of bytes is free. m_mem_left wraps around while
+    //! the extract buffer is among the internal arrays to be flushed.
+    bool has_memory_left(size_type mem) const
+    {
+        return m_mem_left <= m_mem_total && m_mem_left >= mem;
+    }
+
     //! Free up memory by flushing internal arrays and combining external
     //! arrays until enough bytes are free.
     void flush_ia_ea_until_memory_free(internal_size_type mem_free)
     {
-        if (m_mem_left >= mem_free) return;
+        if (has_memory_left(mem_free)) return;
 
         if (m_internal_size > 0) {
             flush_internal_arrays();
@@ -3431,14 +3438,14 @@ public:
 
         // not enough or no internal arrays: release the read blocks of the
         // external arrays, then there may be enough for another one.
-        if (m_mem_left < mem_free && m_external_size > 0) {
+        if (!has_memory_left(mem_free) && m_external_size > 0) {
             merge_external_arrays();
 
-            if (m_mem_left < mem_free && m_internal_size > 0)
+            if (!has_memory_left(mem_free) && m_internal_size > 0)
                 flush_internal_arrays();
         }
 
-        assert(m_mem_left >= mem_free);
+        assert(has_memory_left(mem_free));
     }
 
     //! Automatically resize the read/prefetch buffer pool depending on number
@@ -3465,7 +3472,7 @@ public:
 
             // -tb: this may recursively call this function!
             //flush_ia_ea_until_memory_free(mem_needed);
-            STXXL_ASSERT(m_mem_left >= mem_needed);
+            STXXL_ASSERT(has_memory_left(mem_needed));
 
             while (new_num_read_blocks > m_num_read_blocks) {
                 block_type* new_block = new block_type();
@@ -4256,9 +4263,9 @@ protected:
         // return if there is not enough RAM for the new array.
         // TODO: force_merge_all==true is for freeing memory. Breaking here is not
         // helpful in this case. But one should maybe reserve some space in advance.
-        if (m_mem_left < mem_needed && !force_merge_all)
+        const bool has_free_memory = has_memory_left(mem_needed);
+        if (!has_free_memory && !force_merge_all)
             return;
-        const bool has_free_memory = (m_mem_left >= mem_needed);
         m_mem_left -= external_array_type::int_memory(level_size);
 
         STXXL_ASSERT(force_merge_all || c_max_external_level_size <= ea_index.size());
-- 
2.43.0


From 65bcb7c40d9294b894c9223729d5dc62b339048c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:30:49 +0000
Subject: [PATCH 090/119] fix: parallel_priority_queue: removing a hint does
 not cancel a write request

The request of a hinted block that was still in the write pool is the one
that writes it. Cancelled, the block never gets to disk.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 5c6b846..cb0c4cf 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -1013,7 +1013,10 @@ public:
         for (size_t i = m_unhinted_block; i < m_old_unhinted_block; ++i) {
             STXXL_DEBUG("ea[" << this << "]: discarding prefetch hint on"
                         " block " << i);
-            m_requests[i]->cancel();
+            // there might be write requests 'stolen' from the write pool,
+            // these may not be canceled
+            if (m_requests[i]->get_type() == request::READ)
+                m_requests[i]->cancel();
             m_requests[i]->wait();
             // put block back into pool
             m_pool->add_prefetch(m_blocks[i]);
-- 
2.43.0


From 70a7acc1f6191af7f24ab514f28acfcd018c95b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:47 +0000
Subject: [PATCH 091/119] fix: parallel_priority_queue: enough write blocks
 when merge_advance() copies the rest

merge_advance() holds the block its output iterator points to while the
rest of a sequence is copied to further blocks, so each thread has two
blocks at a time, in addition to the ones at the boundaries.
---
 include/stxxl/bits/containers/parallel_priority_queue.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index cb0c4cf..8b91d25 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -820,8 +820,9 @@ public:
         unsigned_type write_blocks = num_threads;
         // need at least one
         if (write_blocks == 0) write_blocks = 1;
-        // for holding boundary blocks
-        write_blocks *= 2;
+        // for holding boundary blocks, and the block before the rest of a
+        // sequence that is copied
+        write_blocks *= 3;
         // more disks than threads?
         if (write_blocks < config::get_instance()->disks_number())
             write_blocks = config::get_instance()->disks_number();
-- 
2.43.0


From b1bc30c70c8f09759cb9ecf93b9b8f4875469e15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:28 +0000
Subject: [PATCH 092/119] fix: parallel_priority_queue: a read block is
 reclaimed when others hold them all

When blocks of one external array were read and it turns out that elements
of another array are smaller, there may be no read block left for the other
array, and none is released as no element can be taken out. Then the last
block of an array, which is needed later, is given up, to be read again.
---
 .../bits/containers/parallel_priority_queue.h | 69 ++++++++++++++++++-
 1 file changed, 67 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/parallel_priority_queue.h b/include/stxxl/bits/containers/parallel_priority_queue.h
index 8b91d25..b732124 100644
--- a/include/stxxl/bits/containers/parallel_priority_queue.h
+++ b/include/stxxl/bits/containers/parallel_priority_queue.h
@@ -1113,6 +1113,28 @@ public:
         return i - begin;
     }
 
+    //! Gives up the last block loaded in RAM, it has to be read again. Does
+    //! nothing for the block the read position is in. Returns whether a block
+    //! was released into the block pool.
+    bool release_last_block()
+    {
+        const unsigned_type end_block_index = get_end_block_index();
+
+        if (end_block_index < get_current_block_index() + 2) return false;
+
+        // blocks after the last one have to be read after it
+        assert(m_unhinted_block == end_block_index);
+
+        const unsigned_type i = end_block_index - 1;
+        m_pool->add_prefetch(m_blocks[i]);
+        m_blocks[i] = NULL;
+        m_requests[i] = request_ptr();
+        m_unhinted_block = i;
+        m_end_index = i * (external_size_type)block_items;
+
+        return true;
+    }
+
     //! Returns the number of blocks loaded in RAM.
     size_t num_used_blocks() const
     {
@@ -2919,7 +2941,8 @@ public:
                 break;
             }
 
-            if (m_external_arrays[limiting_ea_index].num_hinted_blocks() == 0) {
+            if (m_external_arrays[limiting_ea_index].num_hinted_blocks() == 0 &&
+                (has_accessible_until(ea_limit) || !reclaim_read_block(limiting_ea_index))) {
                 // No more read/prefetch blocks available for EA
                 this_limit = ea_limit;
                 has_full_range = false;
@@ -3862,7 +3885,8 @@ protected:
                             " limiting_ea_index=" << limiting_ea_index);
 
                 if (limiting_ea_index < eas) {
-                    if (m_external_arrays[limiting_ea_index].num_hinted_blocks() == 0)
+                    if (m_external_arrays[limiting_ea_index].num_hinted_blocks() == 0 &&
+                        (output_size > 0 || !reclaim_read_block(limiting_ea_index)))
                         break;
 
                     wait_next_ea_blocks(limiting_ea_index);
@@ -3917,6 +3941,47 @@ protected:
         check_invariants();
     }
 
+    //! Makes sure that the next block of an EA is hinted. It contains the
+    //! smallest element, but other EAs may have taken all read blocks. Returns
+    //! false if there is none to be reclaimed.
+    bool reclaim_read_block(unsigned_type ea_index)
+    {
+        // hinted blocks go to the smallest elements first
+        rebuild_hint_tree();
+
+        for (size_t i = 0; i < m_external_arrays.size() &&
+             m_external_arrays[ea_index].num_hinted_blocks() == 0; ++i)
+        {
+            if (i == ea_index) continue;
+
+            while (m_external_arrays[ea_index].num_hinted_blocks() == 0 &&
+                   m_external_arrays[i].release_last_block())
+            {
+                --m_num_used_read_blocks;
+                m_external_min_tree.activate_without_replay(i);
+                update_external_min_tree(i);
+                rebuild_hint_tree();
+            }
+        }
+
+        return m_external_arrays[ea_index].num_hinted_blocks() > 0;
+    }
+
+    //! Returns whether the arrays' data in RAM has an element that is not
+    //! greater than the given one.
+    bool has_accessible_until(const value_type& value)
+    {
+        for (size_t i = 0; i < m_external_arrays.size(); ++i) {
+            if (m_external_arrays[i].buffer_size() > 0 &&
+                !m_inv_compare(value, m_external_arrays[i].get_min())) return true;
+        }
+        for (size_t i = 0; i < m_internal_arrays.size(); ++i) {
+            if (!m_internal_arrays[i].empty() &&
+                !m_inv_compare(value, m_internal_arrays[i].get_min())) return true;
+        }
+        return false;
+    }
+
     //! Requests more EM data from a given EA and updates
     //! the winner trees and hints accordingly.
     inline void wait_next_ea_blocks(unsigned_type ea_index)
-- 
2.43.0


From 9179046d311a6c19e35e12da373ab1f738c729b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:26 +0000
Subject: [PATCH 093/119] fix: binary_reader: the check for available bytes
 does not overflow

---
 include/stxxl/bits/common/binary_buffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/binary_buffer.h b/include/stxxl/bits/common/binary_buffer.h
index 9cc2289..1a3a465 100644
--- a/include/stxxl/bits/common/binary_buffer.h
+++ b/include/stxxl/bits/common/binary_buffer.h
@@ -515,7 +515,7 @@ public:
     //! Check that n bytes are available at the cursor.
     inline bool cursor_available(size_t n) const
     {
-        return (m_curr + n <= m_size);
+        return (n <= m_size - m_curr);
     }
 
     //! Throws a std::underflow_error unless n bytes are available at the
-- 
2.43.0


From ea8fc30f93ac6404c39db4acda2dfcf2388d60ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 094/119] fix: wbtl_file: the file carries the device id of its
 disk

---
 include/stxxl/bits/io/wbtl_file.h | 3 ++-
 lib/io/create_file.cpp            | 2 +-
 lib/io/wbtl_file.cpp              | 5 +++--
 3 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/io/wbtl_file.h b/include/stxxl/bits/io/wbtl_file.h
index 75d8e92..e98e3ef 100644
--- a/include/stxxl/bits/io/wbtl_file.h
+++ b/include/stxxl/bits/io/wbtl_file.h
@@ -83,7 +83,8 @@ public:
         size_type write_buffer_size,
         int write_buffers = 2,
         int queue_id = DEFAULT_QUEUE,
-        int allocator_id = NO_ALLOCATOR);
+        int allocator_id = NO_ALLOCATOR,
+        unsigned int device_id = DEFAULT_DEVICE_ID);
     ~wbtl_file();
     offset_type size();
     void set_size(offset_type newsize);
diff --git a/lib/io/create_file.cpp b/lib/io/create_file.cpp
index 7add1fb..8f2bf87 100644
--- a/lib/io/create_file.cpp
+++ b/lib/io/create_file.cpp
@@ -222,7 +222,7 @@ file * create_file(disk_config& cfg, int mode, int disk_allocator_id)
             new syscall_file(cfg.path, mode, -1, -1); // FIXME: ID
         wbtl_file* result =
             new stxxl::wbtl_file(backend, 16 * 1024 * 1024, 2, cfg.queue,
-                                 disk_allocator_id);
+                                 disk_allocator_id, cfg.device_id);
         result->lock();
 
         if (cfg.unlink_on_open)
diff --git a/lib/io/wbtl_file.cpp b/lib/io/wbtl_file.cpp
index 4017e11..b0f08fa 100644
--- a/lib/io/wbtl_file.cpp
+++ b/lib/io/wbtl_file.cpp
@@ -34,8 +34,9 @@ wbtl_file::wbtl_file(
     file* backend_file,
     size_type write_buffer_size,
     int write_buffers,
-    int queue_id, int allocator_id)
-    : disk_queued_file(queue_id, allocator_id), storage(backend_file),
+    int queue_id, int allocator_id, unsigned int device_id)
+    : file(device_id),
+      disk_queued_file(queue_id, allocator_id), storage(backend_file),
       sz(0), write_block_size(write_buffer_size),
       free_bytes(0), curbuf(1), curpos(write_block_size)
 {
-- 
2.43.0


From 19b72c2cc2c4fdfb43f318e17e7f991269a47a6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 095/119] fix: disk_config::parse_line() resets all options

---
 lib/mng/config.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index cab5e88..a452227 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -293,7 +293,9 @@ void disk_config::parse_line(const std::string& line)
     // flash is already set
     queue = file::DEFAULT_QUEUE;
     device_id = file::DEFAULT_DEVICE_ID;
+    raw_device = false;
     unlink_on_open = false;
+    queue_length = 0;
 
     // *** Save Basic Options ***
 
-- 
2.43.0


From 345725625ff38851f462d85f15b5d474045598a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:55 +0000
Subject: [PATCH 096/119] fix: disk_config: a missing fileio is a runtime_error

---
 lib/mng/config.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/mng/config.cpp b/lib/mng/config.cpp
index a452227..7431160 100644
--- a/lib/mng/config.cpp
+++ b/lib/mng/config.cpp
@@ -338,6 +338,10 @@ void disk_config::parse_fileio()
 {
     // skip over leading spaces
     size_t leadspace = io_impl.find_first_not_of(' ');
+    if (leadspace == std::string::npos) {
+        STXXL_THROW(std::runtime_error,
+                    "Missing fileio in disk configuration file.");
+    }
     if (leadspace > 0)
         io_impl = io_impl.substr(leadspace);
 
-- 
2.43.0


From 3d009a97da13614f8a610b5c5d9c380d02ca5784 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:03 +0000
Subject: [PATCH 097/119] fix: parse_SI_IEC_size: no number and sizes beyond 64
 bits are refused

---
 lib/common/utils.cpp | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/common/utils.cpp b/lib/common/utils.cpp
index c0b66f0..da5d8e9 100644
--- a/lib/common/utils.cpp
+++ b/lib/common/utils.cpp
@@ -14,6 +14,9 @@
 #include <stxxl/bits/common/utils.h>
 #include <stxxl/bits/namespace.h>
 
+#include <cerrno>
+#include <cstdlib>
+#include <limits>
 #include <sstream>
 #include <iomanip>
 
@@ -24,8 +27,10 @@ STXXL_BEGIN_NAMESPACE
 bool parse_SI_IEC_size(const std::string& str, uint64& size, char def_unit)
 {
     char* endptr;
+    errno = 0;
     size = strtoul(str.c_str(), &endptr, 10);
-    if (!endptr) return false;          // parse failed, no number
+    if (endptr == str.c_str()) return false; // parse failed, no number
+    if (errno == ERANGE) return false;  // number too large
 
     while (endptr[0] == ' ') ++endptr;  // skip over spaces
 
@@ -86,7 +91,11 @@ bool parse_SI_IEC_size(const std::string& str, uint64& size, char def_unit)
 
     // multiply size
     for (unsigned int p = 0; p < power; ++p)
+    {
+        if (size > std::numeric_limits<uint64>::max() / base)
+            return false;               // size too large
         size *= base;
+    }
 
     return (endptr[0] == 0);
 }
-- 
2.43.0


From c07b3795f62277dd0c422ad109a87c9ac664175e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:03 +0000
Subject: [PATCH 098/119] fix: cmdline_parser::output_wrap() terminates when
 the indent exceeds the line

---
 lib/common/cmdline.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/common/cmdline.cpp b/lib/common/cmdline.cpp
index 7c1999d..a5c54ce 100644
--- a/lib/common/cmdline.cpp
+++ b/lib/common/cmdline.cpp
@@ -31,7 +31,8 @@ void cmdline_parser::output_wrap(std::ostream& os, const std::string& text, size
 
         // scan forward in text until we hit a newline or wrap point
         while (to != text.size() &&
-               to + current + indent < t + wraplen &&
+               // at least one character, also if the indent exceeds wraplen
+               (to == t || to + current + indent < t + wraplen) &&
                text[to] != '\n')
         {
             if (text[to] == ' ') lspace = to;
-- 
2.43.0


From 7494cdd7e582b80d45d88d135d4a40d2435f8752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:04:04 +0000
Subject: [PATCH 099/119] fix: swap_vector::erase() keeps a single element
 behind the erased range

---
 include/stxxl/bits/common/swap_vector.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/common/swap_vector.h b/include/stxxl/bits/common/swap_vector.h
index 7bf7e03..2caab17 100644
--- a/include/stxxl/bits/common/swap_vector.h
+++ b/include/stxxl/bits/common/swap_vector.h
@@ -237,7 +237,7 @@ public:
     {
         assert(first >= begin());
         assert(last <= end());
-        if (last < m_array + m_size - 1)
+        if (last < end())
         {
             // iteratively swap forward the elements behind last
             iterator f = first;
-- 
2.43.0


From bec8a4db4e67a7eb4c3632c4f0fae1e2254bd19d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:28 +0000
Subject: [PATCH 100/119] fix: the output operator of the matrix statistics is
 inline

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 0ae6ffc..4081484 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -98,7 +98,7 @@ struct matrix_operation_statistic_data : public matrix_operation_statistic_datas
     { return matrix_operation_statistic_data(matrix_operation_statistic_dataset(*this) - matrix_operation_statistic_dataset(stat)); }
 };
 
-std::ostream& operator << (std::ostream& o, const matrix_operation_statistic_data& statsd)
+inline std::ostream& operator << (std::ostream& o, const matrix_operation_statistic_data& statsd)
 {
     o << "matrix operation statistics" << std::endl;
     o << "block multiplication calls                     : "
-- 
2.43.0


From 7a4885f7acc02bd002064b16d74b106dcd5bd82b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 101/119] fix: matrix from two vectors is filled, and its
 blocks are zero beyond the limits

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 4081484..205a37e 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -1993,7 +1993,7 @@ struct matrix_operations
 
     // +-+-+-+ vector-vector multiplication +-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+-+
 
-    static void recursive_matrix_from_vectors(swappable_block_matrix_type A, const column_vector_type& l,
+    static void recursive_matrix_from_vectors(const swappable_block_matrix_type& A, const column_vector_type& l,
                                               const row_vector_type& r, vector_size_type offset_l = 0, vector_size_type offset_r = 0)
     {
         // catch empty intervals
@@ -2016,7 +2016,7 @@ struct matrix_operations
         recursive_matrix_from_vectors(qa.dl, l, r, offset_l + qa.ul.get_height(), offset_r                    );
     }
 
-    static void naive_matrix_from_vectors(swappable_block_matrix_type A, const column_vector_type& l,
+    static void naive_matrix_from_vectors(const swappable_block_matrix_type& A, const column_vector_type& l,
                                           const row_vector_type& r, vector_size_type offset_l = 0, vector_size_type offset_r = 0)
     {
         for (size_type row = 0; row < A.get_height(); ++row)
@@ -2030,13 +2030,13 @@ struct matrix_operations
                                                     const column_vector_type& l, const row_vector_type& r,
                                                     vector_size_type offset_l, vector_size_type offset_r)
     {
-        // acquire
-        internal_block_type& ia = bs_a.acquire(a, true);
+        const int_type row_limit = std::min(BlockSideLength, unsigned(l.size() - offset_l)),
+            col_limit = std::min(BlockSideLength, unsigned(r.size() - offset_r));
+        // acquire (elements beyond the limits have to be zero)
+        internal_block_type& ia = bs_a.acquire(a, row_limit == int_type(BlockSideLength) && col_limit == int_type(BlockSideLength));
         // multiply
         if (! bs_a.is_simulating())
         {
-            int_type row_limit = std::min(BlockSideLength, unsigned(l.size() - offset_l)),
-                col_limit = std::min(BlockSideLength, unsigned(r.size() - offset_r));
             if (a_is_transposed)
                 for (int_type col = 0; col < col_limit; ++col)
                     for (int_type row = 0; row < row_limit; ++row)
-- 
2.43.0


From 6077c9a08900ac66d116490412067a953cdef41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 102/119] fix: assigning a matrix iterator releases the block
 of the old matrix

---
 include/stxxl/bits/containers/matrix.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix.h b/include/stxxl/bits/containers/matrix.h
index ae6ae1b..18e1c38 100644
--- a/include/stxxl/bits/containers/matrix.h
+++ b/include/stxxl/bits/containers/matrix.h
@@ -503,8 +503,13 @@ public:
 
     matrix_iterator& operator = (const matrix_iterator& other)
     {
+        if (m != other.m)
+        {
+            // the current block belongs to the old matrix
+            release_current_iblock();
+            m = other.m;
+        }
         set_pos(other.current_row, other.current_col);
-        m = other.m;
         if (other.current_iblock)
             acquire_current_iblock();
         return *this;
@@ -806,8 +811,13 @@ public:
 
     const_matrix_iterator& operator = (const const_matrix_iterator& other)
     {
+        if (m != other.m)
+        {
+            // the current block belongs to the old matrix
+            release_current_iblock();
+            m = other.m;
+        }
         set_pos(other.current_row, other.current_col);
-        m = other.m;
         if (other.current_iblock)
             acquire_current_iblock();
         return *this;
-- 
2.43.0


From 4e0e3e9d2813b3eedf26a831e38dad4fc05a4e03 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:16:27 +0000
Subject: [PATCH 103/119] fix: matrix iterators at different elements compare
 as unequal

---
 include/stxxl/bits/containers/matrix.h | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/stxxl/bits/containers/matrix.h b/include/stxxl/bits/containers/matrix.h
index 18e1c38..8f87125 100644
--- a/include/stxxl/bits/containers/matrix.h
+++ b/include/stxxl/bits/containers/matrix.h
@@ -577,6 +577,9 @@ public:
         return current_row == other.current_row && current_col == other.current_col && m == other.m;
     }
 
+    bool operator != (const matrix_iterator& other) const
+    { return ! operator == (other); }
+
     //! Returns reference access to the element referenced by the iterator.
     //! The reference is only valid so long as the iterator is not moved.
     ValueType& operator * ()
@@ -885,6 +888,9 @@ public:
         return current_row == other.current_row && current_col == other.current_col && m == other.m;
     }
 
+    bool operator != (const const_matrix_iterator& other) const
+    { return ! operator == (other); }
+
     //! Returns reference access to the element referenced by the iterator.
     //! The reference is only valid so long as the iterator is not moved.
     const ValueType& operator * ()
-- 
2.43.0


From cc6a9afbe76a341aa67a53cbe6fd39ef79808d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 104/119] fix: multi-level Strassen-Winograd gives the right
 factor its own dimensions

---
 .../stxxl/bits/containers/matrix_arithmetic.h    | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 205a37e..b426d34 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -460,7 +460,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -469,7 +469,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
         const swappable_block_matrix_type& existing_a, const size_type a_from_row, const size_type a_from_col,
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -478,7 +478,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(bs_c, n, l),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -486,7 +486,7 @@ struct feedable_strassen_winograd<ValueType, BlockSideLength, 0, AExists, BExist
     feedable_strassen_winograd(
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(bs_c, n, l),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m),
           n(n), m(m), l(l),
           iblock(0) { }
@@ -881,27 +881,27 @@ struct feedable_strassen_winograd_block_grained<ValueType, BlockSideLength, 0, A
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m) { }
 
     inline feedable_strassen_winograd_block_grained(
         const swappable_block_matrix_type& existing_a, const size_type a_from_row, const size_type a_from_col,
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(existing_a, n, l, a_from_row, a_from_col),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m) { }
 
     inline feedable_strassen_winograd_block_grained(
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l,
         const swappable_block_matrix_type& existing_b, const size_type b_from_row, const size_type b_from_col)
         : a(bs_c, n, l),
-          b(existing_b, n, l, b_from_row, b_from_col),
+          b(existing_b, l, m, b_from_row, b_from_col),
           c(bs_c, n, m) { }
 
     inline feedable_strassen_winograd_block_grained(
         block_scheduler_type& bs_c, const size_type n, const size_type m, const size_type l)
         : a(bs_c, n, l),
-          b(bs_c, n, l),
+          b(bs_c, l, m),
           c(bs_c, n, m) { }
 
     inline void feed_a(const size_type& row, const size_type& col, const swappable_block_matrix_type& bl)
-- 
2.43.0


From 8b914393c68485d760315753a28e0e323be8bf3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:18:22 +0000
Subject: [PATCH 105/119] fix: block-grained Strassen-Winograd multiplies with
 the right factor

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index b426d34..6dffefa 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -1441,22 +1441,22 @@ struct matrix_operations
             {
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 5 && 5 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 5:
-                use_feedable_sw_block_grained<5>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<5>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 4 && 4 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 4:
-                use_feedable_sw_block_grained<4>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<4>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 3 && 3 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 3:
-                use_feedable_sw_block_grained<3>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<3>(padded_a, padded_b, padded_c);
                 break;
             #endif
             #if (STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_MAX_NUM_LEVELS >= 2 && 2 > STXXL_MATRIX_MULTI_LEVEL_STRASSEN_WINOGRAD_BASE_CASE)
             case 2:
-                use_feedable_sw_block_grained<2>(padded_a, padded_a, padded_c);
+                use_feedable_sw_block_grained<2>(padded_a, padded_b, padded_c);
                 break;
             #endif
             default:  // only here in case of wrong bounds
-- 
2.43.0


From 1aafb90539e0efb3660cde3146283d21d940143d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:18 +0000
Subject: [PATCH 106/119] fix: multi-level Strassen-Winograd regards the
 transposition of its factors

---
 include/stxxl/bits/containers/matrix_arithmetic.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/matrix_arithmetic.h b/include/stxxl/bits/containers/matrix_arithmetic.h
index 6dffefa..95cf602 100644
--- a/include/stxxl/bits/containers/matrix_arithmetic.h
+++ b/include/stxxl/bits/containers/matrix_arithmetic.h
@@ -1576,7 +1576,9 @@ struct matrix_operations
                 for (int_type element_row_in_block = 0; element_row_in_block < int_type(BlockSideLength); ++element_row_in_block)
                     for (int_type element_col_in_block = 0; element_col_in_block < int_type(BlockSideLength); ++element_col_in_block)
                         fsw.feed_a_element(element_row_in_block * BlockSideLength + element_col_in_block,
-                                           mtq_a.read_element(element_row_in_block * BlockSideLength + element_col_in_block));
+                                           mtq_a.read_element(A.is_transposed()
+                                                              ? element_row_in_block + element_col_in_block * BlockSideLength
+                                                              : element_row_in_block * BlockSideLength + element_col_in_block));
                 fsw.end_feeding_a_block(block_row, block_col,
                                         mtq_a.end_reading_block(block_row, block_col));
             }
@@ -1594,7 +1596,9 @@ struct matrix_operations
                 for (int_type element_row_in_block = 0; element_row_in_block < int_type(BlockSideLength); ++element_row_in_block)
                     for (int_type element_col_in_block = 0; element_col_in_block < int_type(BlockSideLength); ++element_col_in_block)
                         fsw.feed_b_element(element_row_in_block * BlockSideLength + element_col_in_block,
-                                           mtq_b.read_element(element_row_in_block * BlockSideLength + element_col_in_block));
+                                           mtq_b.read_element(B.is_transposed()
+                                                              ? element_row_in_block + element_col_in_block * BlockSideLength
+                                                              : element_row_in_block * BlockSideLength + element_col_in_block));
                 fsw.end_feeding_b_block(block_row, block_col,
                                         mtq_b.end_reading_block(block_row, block_col));
             }
-- 
2.43.0


From 963c3ba705854be0845923e50de84b78161334c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:26 +0000
Subject: [PATCH 107/119] fix: account for a Linux AIO request before it is
 submitted

The event of the request may arrive before io_submit() returns, so that the
time of its end was accounted before that of its start, and the parallel read,
write and I/O times became negative.
---
 lib/io/linuxaio_request.cpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/lib/io/linuxaio_request.cpp b/lib/io/linuxaio_request.cpp
index cacf90a..b6111d5 100644
--- a/lib/io/linuxaio_request.cpp
+++ b/lib/io/linuxaio_request.cpp
@@ -107,12 +107,15 @@ bool linuxaio_request::post()
 
     fill_control_block();
     iocb* cb_pointer = &cb;
-    // io_submit might considerable time, so we have to remember the current
-    // time before the call.
-    double now = timestamp();
     linuxaio_queue* queue = dynamic_cast<linuxaio_queue*>(
         disk_queues::get_instance()->get_queue(m_file->get_queue_id())
         );
+    // io_submit might take considerable time, and the request may already be
+    // finished when it returns, so it has to be accounted for before the call.
+    if (m_type == READ)
+        stats::get_instance()->read_started(m_bytes);
+    else
+        stats::get_instance()->write_started(m_bytes);
     long success = syscall(SYS_io_submit, queue->get_io_context(), 1, &cb_pointer);
     int submit_errno = errno;
 
@@ -123,14 +126,15 @@ bool linuxaio_request::post()
 
         // temporary lack of resources, try again
         if (success == 0 || submit_errno == EAGAIN)
+        {
+            if (m_type == READ)
+                stats::get_instance()->read_canceled(m_bytes);
+            else
+                stats::get_instance()->write_canceled(m_bytes);
             return false;
+        }
     }
 
-    if (m_type == READ)
-        stats::get_instance()->read_started(m_bytes, now);
-    else
-        stats::get_instance()->write_started(m_bytes, now);
-
     if (success != 1)
         STXXL_THROW_ERRNO2(io_error, "linuxaio_request::post"
                            " io_submit()", submit_errno);
-- 
2.43.0


From fe154e2cef7420075d4dd302fcfdd83645120dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:17:14 +0000
Subject: [PATCH 108/119] fix: compute the merge factor of the sorters in
 integers

The rounding of logarithm and root gave a factor of m + 1 for m^5 runs and m
concurrent ones (e.g. 3125 and 5), which the merger has no memory for, and an
additional pass for m^3 runs.
---
 include/stxxl/bits/algo/sort_base.h | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/algo/sort_base.h b/include/stxxl/bits/algo/sort_base.h
index c059207..40e42f2 100644
--- a/include/stxxl/bits/algo/sort_base.h
+++ b/include/stxxl/bits/algo/sort_base.h
@@ -15,6 +15,7 @@
 
 #include <cmath>
 #include <stxxl/bits/common/types.h>
+#include <stxxl/bits/common/utils.h>
 
 #ifndef STXXL_NO_WARN_RECURSIVE_SORT
 #define STXXL_WARNMSG_RECURSIVE_SORT STXXL_ERRMSG
@@ -36,10 +37,30 @@
 
 STXXL_BEGIN_NAMESPACE
 
-// Optimal merging: merge r = pow(nruns,1/ceil(log(nruns)/log(m))) runs at once
+// Optimal merging: merge r = pow(nruns,1/ceil(log(nruns)/log(m))) runs at once,
+// but never more than m (in integers, as the roots and logarithms are inexact)
 inline unsigned_type optimal_merge_factor(unsigned_type num_runs, unsigned_type max_concurrent_runs)
 {
-    return unsigned_type(ceil(pow(double(num_runs), 1. / ceil(log(double(num_runs)) / log(double(max_concurrent_runs))))));
+    if (num_runs <= max_concurrent_runs || max_concurrent_runs < 2)
+        return STXXL_MIN(num_runs, max_concurrent_runs);
+
+    // number of merge passes needed
+    unsigned_type passes = 0;
+    for (unsigned_type left = num_runs; left > 1; left = div_ceil(left, max_concurrent_runs))
+        ++passes;
+
+    // smallest factor for which this number of passes suffices
+    unsigned_type factor = unsigned_type(pow(double(num_runs), 1. / double(passes)));
+    factor = STXXL_MAX<unsigned_type>(factor, 3) - 1;
+    for ( ; factor < max_concurrent_runs; ++factor)
+    {
+        unsigned_type left = num_runs;
+        for (unsigned_type i = 0; i < passes; ++i)
+            left = div_ceil(left, factor);
+        if (left <= 1)
+            break;
+    }
+    return factor;
 }
 
 STXXL_END_NAMESPACE
-- 
2.43.0


From 56184cd92235ed6d19124bf816bf15d36c4abfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:48:18 +0000
Subject: [PATCH 109/119] fix: wait_all() waits for all requests even if one of
 them has failed

---
 include/stxxl/bits/io/request_operations.h | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/io/request_operations.h b/include/stxxl/bits/io/request_operations.h
index 4569679..75e4d9d 100644
--- a/include/stxxl/bits/io/request_operations.h
+++ b/include/stxxl/bits/io/request_operations.h
@@ -34,7 +34,26 @@ template <class RequestIterator>
 void wait_all(RequestIterator reqs_begin, RequestIterator reqs_end)
 {
     for ( ; reqs_begin != reqs_end; ++reqs_begin)
-        (request_ptr(*reqs_begin))->wait();
+    {
+        try
+        {
+            (request_ptr(*reqs_begin))->wait();
+        }
+        catch (...)
+        {
+            // the buffers are in use until all other requests are finished, too
+            for (++reqs_begin; reqs_begin != reqs_end; ++reqs_begin)
+            {
+                try
+                {
+                    (request_ptr(*reqs_begin))->wait();
+                }
+                catch (const io_error&)
+                { }
+            }
+            throw;
+        }
+    }
 }
 
 //! Suspends calling thread until \b all given requests are completed.
-- 
2.43.0


From 0558f33a295d1a66d6052329a1c9485aa4380a13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 110/119] fix: poll() looks for the error of a request only
 when it is done

---
 lib/io/request_with_state.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/io/request_with_state.cpp b/lib/io/request_with_state.cpp
index 1fc6683..0229d4a 100644
--- a/lib/io/request_with_state.cpp
+++ b/lib/io/request_with_state.cpp
@@ -75,9 +75,13 @@ bool request_with_state::poll()
 {
     const request_state s = m_state();
 
+    if (s != DONE && s != READY2DIE)
+        return false;
+
+    // the thread which serves the request reports an error before that
     check_errors();
 
-    return s == DONE || s == READY2DIE;
+    return true;
 }
 
 void request_with_state::completed(bool canceled)
-- 
2.43.0


From 7033f3f5eb16f53ddc7946a832c9f0d8358425a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 111/119] fix: block_prefetcher reports blocks which could not
 be read

---
 include/stxxl/bits/mng/block_prefetcher.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/mng/block_prefetcher.h b/include/stxxl/bits/mng/block_prefetcher.h
index 8fe69b3..7fd53f4 100644
--- a/include/stxxl/bits/mng/block_prefetcher.h
+++ b/include/stxxl/bits/mng/block_prefetcher.h
@@ -93,6 +93,9 @@ protected:
         int_type ibuffer = pref_buffer[iblock];
         STXXL_VERBOSE1("block_prefetcher: returning buffer " << ibuffer);
         assert(ibuffer >= 0 && ibuffer < nreadblocks);
+        // the switch is also turned on if the block could not be read
+        if (read_reqs[ibuffer].valid())
+            read_reqs[ibuffer]->wait();
         return (read_buffers + ibuffer);
     }
 
@@ -211,8 +214,15 @@ public:
     ~block_prefetcher()
     {
         for (int_type i = 0; i < nreadblocks; ++i)
-            if (read_reqs[i].valid())
-                read_reqs[i]->wait();
+        {
+            try
+            {
+                if (read_reqs[i].valid())
+                    read_reqs[i]->wait();
+            }
+            catch (const io_error&)
+            { }     // the block is not needed any more, or pull_block() has thrown it
+        }
 
         delete[] read_reqs;
         delete[] read_bids;
-- 
2.43.0


From 9656f00ec9097101e4ea3da55b0c8082f4619b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:11 +0000
Subject: [PATCH 112/119] fix: a vector remains consistent if a page cannot be
 read or written

---
 include/stxxl/bits/containers/vector.h | 62 +++++++++++++++-----------
 1 file changed, 36 insertions(+), 26 deletions(-)

diff --git a/include/stxxl/bits/containers/vector.h b/include/stxxl/bits/containers/vector.h
index 18793bc..dfc8233 100644
--- a/include/stxxl/bits/containers/vector.h
+++ b/include/stxxl/bits/containers/vector.h
@@ -1449,25 +1449,31 @@ public:
         for (unsigned_type i = 0; i < numpages(); i++)
             non_free_slots[i] = true;
 
-        while (!m_free_slots.empty())
-        {
-            non_free_slots[m_free_slots.front()] = false;
-            m_free_slots.pop();
-        }
+        // the free slots remain known if a page cannot be written
+        for (std::queue<int_type> free_slots = m_free_slots;
+             !free_slots.empty(); free_slots.pop())
+            non_free_slots[free_slots.front()] = false;
 
         for (unsigned_type i = 0; i < numpages(); i++)
         {
-            m_free_slots.push(i);
-            int_type page_no = m_slot_to_page[i];
             if (non_free_slots[i])
             {
+                int_type page_no = m_slot_to_page[i];
                 STXXL_VERBOSE_VECTOR("flush(): flushing page " << i << " at address " <<
                                      (int64(page_no) * int64(block_type::size) * int64(page_size)));
                 write_page(page_no, i);
-
-                m_page_to_slot[page_no] = on_disk;
             }
         }
+
+        while (!m_free_slots.empty())
+            m_free_slots.pop();
+
+        for (unsigned_type i = 0; i < numpages(); i++)
+        {
+            m_free_slots.push(i);
+            if (non_free_slots[i])
+                m_page_to_slot[m_slot_to_page[i]] = on_disk;
+        }
     }
 
     //! \}
@@ -1602,7 +1608,7 @@ private:
         if (m_page_status[page_no] == uninitialized)
             return;
         STXXL_VERBOSE_VECTOR("read_page(): page_no=" << page_no << " cache_slot=" << cache_slot);
-        request_ptr* reqs = new request_ptr[page_size];
+        simple_vector<request_ptr> reqs(page_size);
         int_type block_no = page_no * page_size;
         int_type last_block = STXXL_MIN(block_no + page_size, int_type(m_bids.size()));
         int_type i = cache_slot * page_size, j = 0;
@@ -1611,8 +1617,7 @@ private:
             reqs[j] = (*m_cache)[i].read(m_bids[block_no]);
         }
         assert(last_block - page_no * page_size > 0);
-        wait_all(reqs, last_block - page_no * page_size);
-        delete[] reqs;
+        wait_all(reqs.begin(), last_block - page_no * page_size);
     }
     void write_page(int_type page_no, int_type cache_slot) const
     {
@@ -1620,7 +1625,7 @@ private:
         if (!(m_page_status[page_no] & dirty))
             return;
         STXXL_VERBOSE_VECTOR("write_page(): page_no=" << page_no << " cache_slot=" << cache_slot);
-        request_ptr* reqs = new request_ptr[page_size];
+        simple_vector<request_ptr> reqs(page_size);
         int_type block_no = page_no * page_size;
         int_type last_block = STXXL_MIN(block_no + page_size, int_type(m_bids.size()));
         assert(block_no < last_block);
@@ -1629,10 +1634,9 @@ private:
         {
             reqs[j] = (*m_cache)[i].write(m_bids[block_no]);
         }
-        m_page_status[page_no] = valid_on_disk;
         assert(last_block - page_no * page_size > 0);
-        wait_all(reqs, last_block - page_no * page_size);
-        delete[] reqs;
+        wait_all(reqs.begin(), last_block - page_no * page_size);
+        m_page_status[page_no] = valid_on_disk;
     }
 
     reference element(size_type offset)
@@ -1658,12 +1662,15 @@ private:
                 int_type kicked_slot = m_pager.kick();
                 m_pager.hit(kicked_slot);
                 int_type old_page_no = m_slot_to_page[kicked_slot];
-                m_page_to_slot[page_no] = kicked_slot;
-                m_page_to_slot[old_page_no] = on_disk;
-                m_slot_to_page[kicked_slot] = page_no;
 
                 write_page(old_page_no, kicked_slot);
+                m_page_to_slot[old_page_no] = on_disk;
+                m_free_slots.push(kicked_slot);
+
                 read_page(page_no, kicked_slot);
+                m_free_slots.pop();
+                m_page_to_slot[page_no] = kicked_slot;
+                m_slot_to_page[kicked_slot] = page_no;
 
                 m_page_status[page_no] = dirty;
 
@@ -1672,13 +1679,13 @@ private:
             else
             {
                 int_type free_slot = m_free_slots.front();
+                read_page(page_no, free_slot);
+
                 m_free_slots.pop();
                 m_pager.hit(free_slot);
                 m_page_to_slot[page_no] = free_slot;
                 m_slot_to_page[free_slot] = page_no;
 
-                read_page(page_no, free_slot);
-
                 m_page_status[page_no] = dirty;
 
                 return (*m_cache)[free_slot * page_size + offset.get_block1()][offset.get_offset()];
@@ -1740,25 +1747,28 @@ private:
                 int_type kicked_slot = m_pager.kick();
                 m_pager.hit(kicked_slot);
                 int_type old_page_no = m_slot_to_page[kicked_slot];
-                m_page_to_slot[page_no] = kicked_slot;
-                m_page_to_slot[old_page_no] = on_disk;
-                m_slot_to_page[kicked_slot] = page_no;
 
                 write_page(old_page_no, kicked_slot);
+                m_page_to_slot[old_page_no] = on_disk;
+                m_free_slots.push(kicked_slot);
+
                 read_page(page_no, kicked_slot);
+                m_free_slots.pop();
+                m_page_to_slot[page_no] = kicked_slot;
+                m_slot_to_page[kicked_slot] = page_no;
 
                 return (*m_cache)[kicked_slot * page_size + offset.get_block1()][offset.get_offset()];
             }
             else
             {
                 int_type free_slot = m_free_slots.front();
+                read_page(page_no, free_slot);
+
                 m_free_slots.pop();
                 m_pager.hit(free_slot);
                 m_page_to_slot[page_no] = free_slot;
                 m_slot_to_page[free_slot] = page_no;
 
-                read_page(page_no, free_slot);
-
                 return (*m_cache)[free_slot * page_size + offset.get_block1()][offset.get_offset()];
             }
         }
-- 
2.43.0


From 17c958d2532148fab5935fa00a3a0f472f9fe042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:59:30 +0000
Subject: [PATCH 113/119] fix: a buf_ostream within a block may be destroyed by
 an exception

---
 include/stxxl/bits/mng/buf_ostream.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/stxxl/bits/mng/buf_ostream.h b/include/stxxl/bits/mng/buf_ostream.h
index 048116f..8b18f85 100644
--- a/include/stxxl/bits/mng/buf_ostream.h
+++ b/include/stxxl/bits/mng/buf_ostream.h
@@ -13,6 +13,7 @@
 #ifndef STXXL_MNG_BUF_OSTREAM_HEADER
 #define STXXL_MNG_BUF_OSTREAM_HEADER
 
+#include <exception>
 #include <stxxl/bits/noncopyable.h>
 #include <stxxl/bits/mng/buf_writer.h>
 
@@ -116,7 +117,8 @@ public:
     //! Deallocates internal objects.
     ~buf_ostream()
     {
-        assert(current_elem == 0);
+        // unless an exception has left the stream within a block
+        assert(current_elem == 0 || std::uncaught_exception());
     }
 };
 
-- 
2.43.0


From 2480e0ec34ce60e10a09ef4042e49b6a7df07d9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:01:49 +0000
Subject: [PATCH 114/119] fix: basic_runs_merger does not delete its structures
 twice if a rewind fails

---
 include/stxxl/bits/stream/sort_stream.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 9d763e5..8417eb3 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -1034,9 +1034,12 @@ private:
         if (m_prefetcher)
         {
             delete m_losers;
+            m_losers = NULL;        // also if initialize() fails to make new ones
 #if STXXL_PARALLEL_MULTIWAY_MERGE
             delete seqs;
+            seqs = NULL;
             delete buffers;
+            buffers = NULL;
 #endif
             delete m_prefetcher;
             delete[] m_prefetch_seq;
-- 
2.43.0


From 192e2707488f4bdb29e340da4ec7971a80ca4799 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:02:58 +0000
Subject: [PATCH 115/119] fix: a sorter does not free its runs twice if merging
 them fails

---
 include/stxxl/bits/stream/sort_stream.h | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/include/stxxl/bits/stream/sort_stream.h b/include/stxxl/bits/stream/sort_stream.h
index 8417eb3..4debb0b 100644
--- a/include/stxxl/bits/stream/sort_stream.h
+++ b/include/stxxl/bits/stream/sort_stream.h
@@ -1428,15 +1428,14 @@ void basic_runs_merger<RunsType, CompareType, AllocStr>::merge_recursively()
                 bm->new_blocks(alloc_strategy(), make_bid_iterator(new_runs.runs[cur_out_run].begin()), make_bid_iterator(new_runs.runs[cur_out_run].end()));
 
                 // Construct temporary sorted_runs object as input into recursive merger.
-                // This sorted_runs is copied a subset of the over-large set of runs, which
+                // This sorted_runs takes over a subset of the over-large set of runs, which
                 // will be deallocated from external memory once the runs are merged.
                 sorted_runs_type cur_runs = new sorted_runs_data_type;
                 cur_runs->runs.resize(runs2merge);
                 cur_runs->runs_sizes.resize(runs2merge);
 
-                std::copy(m_sruns->runs.begin() + nruns - runs_left,
-                          m_sruns->runs.begin() + nruns - runs_left + runs2merge,
-                          cur_runs->runs.begin());
+                std::swap_ranges(cur_runs->runs.begin(), cur_runs->runs.end(),
+                                 m_sruns->runs.begin() + nruns - runs_left);
                 std::copy(m_sruns->runs_sizes.begin() + nruns - runs_left,
                           m_sruns->runs_sizes.begin() + nruns - runs_left + runs2merge,
                           cur_runs->runs_sizes.begin());
@@ -1483,8 +1482,8 @@ void basic_runs_merger<RunsType, CompareType, AllocStr>::merge_recursively()
 
                 elements_left -= m_sruns->runs_sizes.back();
 
-                // copy block identifiers into new sorted_runs object
-                new_runs.runs.back() = m_sruns->runs.back();
+                // move block identifiers into new sorted_runs object
+                std::swap(new_runs.runs.back(), m_sruns->runs.back());
                 new_runs.runs_sizes.back() = m_sruns->runs_sizes.back();
             }
 
-- 
2.43.0


From 31ac4c696c4a951071dc20f69a7bb76f3a3d960b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:40 +0000
Subject: [PATCH 116/119] fix: a btree iterator stays registered if advancing
 it fails to read

---
 .../stxxl/bits/containers/btree/iterator.h    | 16 +++++++-
 include/stxxl/bits/containers/btree/leaf.h    | 37 ++++++++++++-------
 2 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/include/stxxl/bits/containers/btree/iterator.h b/include/stxxl/bits/containers/btree/iterator.h
index 5854d92..d9b29c0 100644
--- a/include/stxxl/bits/containers/btree/iterator.h
+++ b/include/stxxl/bits/containers/btree/iterator.h
@@ -143,7 +143,13 @@ protected:
         bid_type cur_bid = bid;
         const leaf_type* leaf = btree->m_leaf_cache.get_const_node(bid, true);
         assert(leaf);
-        leaf->increment_iterator(*this);
+        try {
+            leaf->increment_iterator(*this);
+        }
+        catch (...) {
+            btree->m_leaf_cache.unfix_node(cur_bid);
+            throw;
+        }
         btree->m_leaf_cache.unfix_node(cur_bid);
         return *this;
     }
@@ -154,7 +160,13 @@ protected:
         bid_type cur_bid = bid;
         const leaf_type* leaf = btree->m_leaf_cache.get_const_node(bid, true);
         assert(leaf);
-        leaf->decrement_iterator(*this);
+        try {
+            leaf->decrement_iterator(*this);
+        }
+        catch (...) {
+            btree->m_leaf_cache.unfix_node(cur_bid);
+            throw;
+        }
         btree->m_leaf_cache.unfix_node(cur_bid);
         return *this;
     }
diff --git a/include/stxxl/bits/containers/btree/leaf.h b/include/stxxl/bits/containers/btree/leaf.h
index 2f1d88d..9b2fb4b 100644
--- a/include/stxxl/bits/containers/btree/leaf.h
+++ b/include/stxxl/bits/containers/btree/leaf.h
@@ -375,6 +375,8 @@ public:
 
         m_btree->m_iterator_map.unregister_iterator(it);
 
+        const bool prefetch_succ = (it.pos == 0 && m_btree->m_prefetching_enabled);
+
         ++(it.pos);
         if (it.pos == size() && succ().valid())
         {
@@ -383,40 +385,47 @@ public:
             it.pos = 0;
             it.bid = succ();
         }
-        // increment of pos from 0 to 1
-        else if (it.pos == 1 && m_btree->m_prefetching_enabled)
-        {
-            // prefetch the succ leaf
-            if (succ().valid())
-                m_btree->m_leaf_cache.prefetch_node(succ());
-        }
         m_btree->m_iterator_map.register_iterator(it);
+
+        // increment of pos from 0 to 1: prefetch the succ leaf (the iterator
+        // is registered again: prefetching may throw)
+        if (prefetch_succ && it.pos == 1 && succ().valid())
+            m_btree->m_leaf_cache.prefetch_node(succ());
     }
 
     void decrement_iterator(iterator_base& it) const
     {
         assert(it.bid == my_bid());
 
-        m_btree->m_iterator_map.unregister_iterator(it);
+        bid_type new_bid = it.bid;
+        unsigned_type new_pos = it.pos - 1;
 
+        // the iterator stays registered while reading, which may throw
         if (it.pos == 0)
         {
             assert(pred().valid());
 
-            it.bid = pred();
+            new_bid = pred();
             normal_leaf const* pred_leaf = m_btree->m_leaf_cache.get_const_node(pred(), true);
             assert(pred_leaf);
-            it.pos = pred_leaf->size() - 1;
+            new_pos = pred_leaf->size() - 1;
 
             // prefetch the pred leaf of pred_leaf
-            if (m_btree->m_prefetching_enabled && pred_leaf->pred().valid())
-                m_btree->m_leaf_cache.prefetch_node(pred_leaf->pred());
+            try {
+                if (m_btree->m_prefetching_enabled && pred_leaf->pred().valid())
+                    m_btree->m_leaf_cache.prefetch_node(pred_leaf->pred());
+            }
+            catch (...) {
+                m_btree->m_leaf_cache.unfix_node(pred());
+                throw;
+            }
 
             m_btree->m_leaf_cache.unfix_node(pred());
         }
-        else
-            --it.pos;
 
+        m_btree->m_iterator_map.unregister_iterator(it);
+        it.bid = new_bid;
+        it.pos = new_pos;
         m_btree->m_iterator_map.register_iterator(it);
     }
 
-- 
2.43.0


From 043f943147f8659aff5ccfed9c84e517e6c9e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:57:47 +0000
Subject: [PATCH 117/119] fix: a hash_map iterator stays registered if
 advancing it fails to read

---
 .../stxxl/bits/containers/hash_map/iterator.h | 47 ++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/iterator.h b/include/stxxl/bits/containers/hash_map/iterator.h
index 58eb542..fa22b32 100644
--- a/include/stxxl/bits/containers/hash_map/iterator.h
+++ b/include/stxxl/bits/containers/hash_map/iterator.h
@@ -254,6 +254,31 @@ public:
         assert(!end_);
 
         internal_size_type i_bucket_old = i_bucket_;
+
+        try {
+            search_next(start_prefetching);
+        }
+        catch (...) {
+            // reading failed: the iterator is still registered where it was
+            i_bucket_ = i_bucket_old;
+            throw;
+        }
+
+        if (end_)
+        {
+            this->map_->iterator_map_.unregister_iterator(*this, i_bucket_old);
+        }
+        else if (i_bucket_old != i_bucket_)
+        {
+            this->map_->iterator_map_.unregister_iterator(*this, i_bucket_old);
+            this->map_->iterator_map_.register_iterator(*this, i_bucket_);
+        }
+    }
+
+protected:
+    //! find_next() without registering the iterator at its new bucket
+    void search_next(bool start_prefetching)
+    {
         bucket_type bucket = map_->buckets_[i_bucket_];
 
         if (reader_ == NULL)
@@ -302,7 +327,7 @@ public:
                     {
                         key_ = node_->value_.first;
                         source_ = hash_map_type::src_internal;
-                        goto end_search;       // just this once - I promise...
+                        return;
                     }
                     else
                         // continue search if internal value flaged as deleted
@@ -313,7 +338,7 @@ public:
                 {
                     key_ = reader_->const_value().first;
                     source_ = hash_map_type::src_external;
-                    goto end_search;
+                    return;
                 }
             }
             // only external values left
@@ -321,7 +346,7 @@ public:
             {
                 key_ = reader_->const_value().first;
                 source_ = hash_map_type::src_external;
-                goto end_search;
+                return;
             }
             // only internal values left
             while (tmp_node)
@@ -331,7 +356,7 @@ public:
                 {
                     key_ = node_->value_.first;
                     source_ = hash_map_type::src_internal;
-                    goto end_search;
+                    return;
                 }
                 else
                     tmp_node = tmp_node->next();        // continue search
@@ -344,7 +369,7 @@ public:
             {
                 end_ = true;
                 reset_reader();
-                goto end_search;
+                return;
             }
             else
             {
@@ -355,19 +380,9 @@ public:
                 reader_->skip_to(map_->bids_.begin() + bucket.i_block_, bucket.i_subblock_);
             }
         }
-
-end_search:
-        if (end_)
-        {
-            this->map_->iterator_map_.unregister_iterator(*this, i_bucket_old);
-        }
-        else if (i_bucket_old != i_bucket_)
-        {
-            this->map_->iterator_map_.unregister_iterator(*this, i_bucket_old);
-            this->map_->iterator_map_.register_iterator(*this, i_bucket_);
-        }
     }
 
+public:
     virtual ~hash_map_iterator_base()
     {
         STXXL_VERBOSE3("hash_map_iterator_base deconst " << this);
-- 
2.43.0


From e6e87b2a80f746eefe83650b7c46d02ca48a6f14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:22:20 +0000
Subject: [PATCH 118/119] fix: constructing a btree from an unsorted range does
 not leak blocks if it fails

---
 include/stxxl/bits/containers/btree/btree.h | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/btree/btree.h b/include/stxxl/bits/containers/btree/btree.h
index 9a0bce5..a4b6de5 100644
--- a/include/stxxl/bits/containers/btree/btree.h
+++ b/include/stxxl/bits/containers/btree/btree.h
@@ -995,7 +995,14 @@ public:
         if (range_sorted == false)
         {
             create_empty_leaf();
-            insert(begin, end);
+            try {
+                insert(begin, end);
+            }
+            catch (...) {
+                // no destructor will run: give back the blocks
+                deallocate_children();
+                throw;
+            }
             assert(m_leaf_cache.nfixed() == 0);
             assert(m_node_cache.nfixed() == 0);
             return;
@@ -1029,7 +1036,14 @@ public:
         if (range_sorted == false)
         {
             create_empty_leaf();
-            insert(begin, end);
+            try {
+                insert(begin, end);
+            }
+            catch (...) {
+                // no destructor will run: give back the blocks
+                deallocate_children();
+                throw;
+            }
             assert(m_leaf_cache.nfixed() == 0);
             assert(m_node_cache.nfixed() == 0);
             return;
-- 
2.43.0


From a4f0ca7bc1927cb29a5af37efd7bd2ef70bcda07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:49:58 +0000
Subject: [PATCH 119/119] fix: block_cache::flush() leaves the blocks in the
 cache

---
 include/stxxl/bits/containers/hash_map/block_cache.h | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/stxxl/bits/containers/hash_map/block_cache.h b/include/stxxl/bits/containers/hash_map/block_cache.h
index b838758..da70252 100644
--- a/include/stxxl/bits/containers/hash_map/block_cache.h
+++ b/include/stxxl/bits/containers/hash_map/block_cache.h
@@ -20,6 +20,7 @@
 
 #include <stxxl/bits/noncopyable.h>
 #include <stxxl/bits/compat/hash_map.h>
+#include <stxxl/bits/io/request_operations.h>
 #include <stxxl/bits/mng/block_manager.h>
 #include <stxxl/bits/containers/pager.h>
 
@@ -505,18 +506,21 @@ public:
     //! Write all dirty blocks back to disk
     void flush()
     {
+        // write from where the blocks are: they stay cached
+        std::vector<request_ptr> writes;
+
         for (typename bid_map_type::const_iterator i = bid_map_.begin();
              i != bid_map_.end(); ++i)
         {
             const unsigned_type i_block = (*i).second;
             if (dirty_[i_block])
             {
-                blocks_[i_block] =
-                    write_buffer_.write(blocks_[i_block], bids_[i_block]);
+                writes.push_back(blocks_[i_block]->write(bids_[i_block]));
 
                 dirty_[i_block] = false;
             }
         }
+        wait_all(writes.begin(), writes.end());
         write_buffer_.flush();
     }
 
-- 
2.43.0

