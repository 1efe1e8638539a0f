From 00f28bce0962f56066bc9b5a74ce48316ed02f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:40 +0000
Subject: [PATCH 01/45] fix: scoped_lock move assignment releases the mutex it
 already holds

---
 include/coro/mutex.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/coro/mutex.hpp b/include/coro/mutex.hpp
index 7fe1c05..fa5bcb0 100644
--- a/include/coro/mutex.hpp
+++ b/include/coro/mutex.hpp
@@ -99,6 +99,8 @@ public:
     {
         if (std::addressof(other) != this)
         {
+            // Release the mutex this lock currently holds, otherwise it would stay locked forever.
+            unlock();
             m_mutex = std::exchange(other.m_mutex, nullptr);
         }
         return *this;
-- 
2.43.0


From 2dd05a4013127ea2e0b38b061a3eb6718c703262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:38 +0000
Subject: [PATCH 02/45] fix: latch::remaining reports zero after counting past
 zero

---
 include/coro/latch.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/coro/latch.hpp b/include/coro/latch.hpp
index ffd8b6a..2e8cdfd 100644
--- a/include/coro/latch.hpp
+++ b/include/coro/latch.hpp
@@ -40,7 +40,12 @@ public:
     /**
      * @return The number of tasks this latch is still waiting to complete.
      */
-    auto remaining() const noexcept -> std::size_t { return m_count.load(std::memory_order::acquire); }
+    auto remaining() const noexcept -> std::size_t
+    {
+        // The count goes negative if it is counted down past zero, nothing remains in that case.
+        const auto count = m_count.load(std::memory_order::acquire);
+        return count > 0 ? static_cast<std::size_t>(count) : 0;
+    }
 
     /**
      * If the latch counter goes to zero then the task awaiting the latch is resumed.
-- 
2.43.0


From 0c4358ac2a6cb47e3de249b60686ccdb264ad993 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:57 +0000
Subject: [PATCH 03/45] fix: queue::shutdown() racing with shutdown_drain()
 must still stop the queue

---
 include/coro/queue.hpp | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 4402748..6ce0671 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -333,16 +333,15 @@ public:
      */
     auto shutdown() -> coro::task<void>
     {
-        auto expected = m_running_state.load(std::memory_order::acquire);
-        if (expected == running_state_t::stopped)
+        if (m_running_state.load(std::memory_order::acquire) == running_state_t::stopped)
         {
             co_return;
         }
 
-        // We use the lock to guarantee the m_running_state has propagated.
+        // We use the lock to guarantee the m_running_state has propagated. The state could have moved on to
+        // draining while waiting for the lock, the queue must be stopped in that case too.
         auto lk = co_await m_mutex.scoped_lock();
-        if (!m_running_state.compare_exchange_strong(
-                expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From 98fb59c6041868937e67e2bf945329062954f08c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:57 +0000
Subject: [PATCH 04/45] fix: queue::shutdown_drain() must inspect the elements
 under the lock

---
 include/coro/queue.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/coro/queue.hpp b/include/coro/queue.hpp
index 6ce0671..4869138 100644
--- a/include/coro/queue.hpp
+++ b/include/coro/queue.hpp
@@ -376,12 +376,15 @@ public:
         {
             co_return;
         }
-        lk.unlock();
 
+        // The elements can only be inspected while holding the lock.
         while (!empty() && m_running_state.load(std::memory_order::acquire) == running_state_t::draining)
         {
+            lk.unlock();
             co_await e->yield();
+            lk = co_await m_mutex.scoped_lock();
         }
+        lk.unlock();
 
         co_return co_await shutdown();
     }
-- 
2.43.0


From ba62dbedeb350053812153f7f9c270e7e1363f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:57 +0000
Subject: [PATCH 05/45] fix: ring_buffer::shutdown() racing with
 shutdown_drain() must still stop the buffer

---
 include/coro/ring_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index 0aeae52..a2ed997 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -328,7 +328,7 @@ public:
 
         auto lk = co_await m_mutex.scoped_lock();
         // Only let one caller do the wake-ups, this can go from running or draining to stopped
-        if (!m_running_state.compare_exchange_strong(expected, running_state_t::stopped, std::memory_order::acq_rel, std::memory_order::relaxed))
+        if (m_running_state.exchange(running_state_t::stopped, std::memory_order::acq_rel) == running_state_t::stopped)
         {
             co_return;
         }
-- 
2.43.0


From c69f39cf063544d675798873f3d120b5eebfb243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:08:57 +0000
Subject: [PATCH 06/45] fix: ring_buffer::shutdown_drain() must tell waiting
 producers their element was not produced

---
 include/coro/ring_buffer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/coro/ring_buffer.hpp b/include/coro/ring_buffer.hpp
index a2ed997..bb245c6 100644
--- a/include/coro/ring_buffer.hpp
+++ b/include/coro/ring_buffer.hpp
@@ -375,6 +375,7 @@ public:
         while (produce_waiters != nullptr)
         {
             auto* next = produce_waiters->m_next;
+            produce_waiters->m_result = ring_buffer_result::produce::stopped;
             produce_waiters->m_awaiting_coroutine.resume();
             produce_waiters = next;
         }
-- 
2.43.0


From f4b368dbc3e8786f3347d2d51e12c012359ed620 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:31 +0000
Subject: [PATCH 07/45] fix: shared_mutex scoped locks must be released when
 the scoped task throws

---
 include/coro/shared_mutex.hpp | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/include/coro/shared_mutex.hpp b/include/coro/shared_mutex.hpp
index f9af741..741fb9c 100644
--- a/include/coro/shared_mutex.hpp
+++ b/include/coro/shared_mutex.hpp
@@ -6,6 +6,7 @@
 
 #include <atomic>
 #include <coroutine>
+#include <exception>
 
 namespace coro
 {
@@ -125,8 +126,21 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, false};
-        co_await scoped_task;
+        std::exception_ptr exception{};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            // The lock must be released even if the scoped task fails, a catch block cannot co_await.
+            exception = std::current_exception();
+        }
         co_await unlock_shared();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
@@ -140,8 +154,21 @@ public:
     {
         co_await m_mutex.lock();
         co_await detail::shared_lock_operation<executor_type>{*this, true};
-        co_await scoped_task;
+        std::exception_ptr exception{};
+        try
+        {
+            co_await scoped_task;
+        }
+        catch (...)
+        {
+            // The lock must be released even if the scoped task fails, a catch block cannot co_await.
+            exception = std::current_exception();
+        }
         co_await unlock();
+        if (exception)
+        {
+            std::rethrow_exception(exception);
+        }
         co_return;
     }
 
-- 
2.43.0


From 7f5ed2420487fe472d2094069b4b26d29947a975 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:04:45 +0000
Subject: [PATCH 08/45] fix: to_string(poll_status::cancelled) must not report
 unknown

---
 src/poll.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/poll.cpp b/src/poll.cpp
index c53b787..ebef09e 100644
--- a/src/poll.cpp
+++ b/src/poll.cpp
@@ -29,6 +29,7 @@ static const std::string poll_status_write{"write"};
 static const std::string poll_status_timeout{"timeout"};
 static const std::string poll_status_error{"error"};
 static const std::string poll_status_closed{"closed"};
+static const std::string poll_status_cancelled{"cancelled"};
 
 auto to_string(poll_status status) -> const std::string&
 {
@@ -44,6 +45,8 @@ auto to_string(poll_status status) -> const std::string&
             return poll_status_error;
         case poll_status::closed:
             return poll_status_closed;
+        case poll_status::cancelled:
+            return poll_status_cancelled;
         default:
             return poll_unknown;
     }
-- 
2.43.0


From 7de138cc552ce65949aa05f342e7fb88b0316e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:16:06 +0000
Subject: [PATCH 09/45] fix: ip_address::from_string must not read past the end
 of its string_view

---
 include/coro/net/ip_address.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/coro/net/ip_address.hpp b/include/coro/net/ip_address.hpp
index c8b6866..c7e9cfa 100644
--- a/include/coro/net/ip_address.hpp
+++ b/include/coro/net/ip_address.hpp
@@ -62,8 +62,10 @@ public:
         ip_address addr{};
         addr.m_domain = domain;
 
-        auto success = inet_pton(static_cast<int>(addr.m_domain), address.data(), addr.m_data.data());
-        if (success != 1)
+        // inet_pton() reads up to a null terminator, a string_view isn't required to have one.
+        const std::string text{address};
+        if (text.find('\0') != std::string::npos ||
+            inet_pton(static_cast<int>(addr.m_domain), text.c_str(), addr.m_data.data()) != 1)
         {
             throw std::runtime_error{"coro::net::ip_address faild to convert from string"};
         }
-- 
2.43.0


From e4726aeaf35da599253d3e587646a34d10fce2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 10/45] fix: pipe_t must close the descriptors it replaces and
 leave moved-from pipes empty

---
 include/coro/detail/pipe.hpp | 2 +-
 src/detail/pipe.cpp          | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/include/coro/detail/pipe.hpp b/include/coro/detail/pipe.hpp
index 8da95a0..0559797 100644
--- a/include/coro/detail/pipe.hpp
+++ b/include/coro/detail/pipe.hpp
@@ -28,7 +28,7 @@ public:
     auto close() -> void;
 
 private:
-    std::array<fd_t, 2> m_fds{-1};
+    std::array<fd_t, 2> m_fds{-1, -1};
 };
 
 } // namespace coro::detail
diff --git a/src/detail/pipe.cpp b/src/detail/pipe.cpp
index 281d9ba..b05629b 100644
--- a/src/detail/pipe.cpp
+++ b/src/detail/pipe.cpp
@@ -42,13 +42,14 @@ pipe_t::pipe_t(const pipe_t& other)
 
 pipe_t::pipe_t(pipe_t&& other) noexcept
 {
-    m_fds = std::exchange(other.m_fds, {-1});
+    m_fds = std::exchange(other.m_fds, {-1, -1});
 }
 
 auto pipe_t::operator=(const pipe_t& other) -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
+        close();
         m_fds[0] = dup(other.m_fds[0]);
         m_fds[1] = dup(other.m_fds[1]);
     }
@@ -60,7 +61,8 @@ auto pipe_t::operator=(pipe_t&& other) noexcept -> pipe_t&
 {
     if (std::addressof(other) != this)
     {
-        m_fds = std::exchange(other.m_fds, {-1});
+        close();
+        m_fds = std::exchange(other.m_fds, {-1, -1});
     }
 
     return *this;
-- 
2.43.0


From f4e792edde0b835ed9d9d657da103e133ab0ce5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:52 +0000
Subject: [PATCH 11/45] fix: socket assignment must close the replaced
 descriptor and survive self assignment

---
 src/net/socket.cpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/net/socket.cpp b/src/net/socket.cpp
index ed593e0..e055e5e 100644
--- a/src/net/socket.cpp
+++ b/src/net/socket.cpp
@@ -19,8 +19,12 @@ auto socket::type_to_os(type_t type) -> int
 
 auto socket::operator=(const socket& other) noexcept -> socket&
 {
-    this->close();
-    this->m_fd = dup(other.m_fd);
+    if (std::addressof(other) != this)
+    {
+        this->close();
+        this->m_fd = dup(other.m_fd);
+    }
+
     return *this;
 }
 
@@ -28,6 +32,7 @@ auto socket::operator=(socket&& other) noexcept -> socket&
 {
     if (std::addressof(other) != this)
     {
+        close();
         m_fd = std::exchange(other.m_fd, -1);
     }
 
-- 
2.43.0


From 5aeeb251ef00647506eee5fe09410dace4cfa273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:07 +0000
Subject: [PATCH 12/45] fix: timer_handle must close its timerfd

---
 include/coro/detail/timer_handle.hpp |  7 +++++++
 src/detail/timer_handle.cpp          | 12 ++++++++++++
 2 files changed, 19 insertions(+)

diff --git a/include/coro/detail/timer_handle.hpp b/include/coro/detail/timer_handle.hpp
index 4d97d0f..9b7a06d 100644
--- a/include/coro/detail/timer_handle.hpp
+++ b/include/coro/detail/timer_handle.hpp
@@ -17,6 +17,13 @@ class timer_handle
 public:
     timer_handle(const void* timer_handle_ptr, io_notifier& notifier);
 
+    timer_handle(const timer_handle&)                    = delete;
+    timer_handle(timer_handle&&)                         = delete;
+    auto operator=(const timer_handle&) -> timer_handle& = delete;
+    auto operator=(timer_handle&&) -> timer_handle&      = delete;
+
+    ~timer_handle();
+
     coro::fd_t get_fd() const { return m_fd; }
 
     const void* get_inner() const { return m_timer_handle_ptr; }
diff --git a/src/detail/timer_handle.cpp b/src/detail/timer_handle.cpp
index 81c2cc0..6fbd546 100644
--- a/src/detail/timer_handle.cpp
+++ b/src/detail/timer_handle.cpp
@@ -16,6 +16,9 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     (void)notifier;
 }
 
+// On kqueue the timer is only an identifier, there is no descriptor to close.
+timer_handle::~timer_handle() = default;
+
 #elif defined(__linux__)
 
 timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
@@ -25,6 +28,15 @@ timer_handle::timer_handle(const void* timer_handle_ptr, io_notifier& notifier)
     notifier.watch(m_fd, poll_op::read, const_cast<void*>(m_timer_handle_ptr), true);
 }
 
+timer_handle::~timer_handle()
+{
+    if (m_fd != -1)
+    {
+        ::close(m_fd);
+        m_fd = -1;
+    }
+}
+
 #endif
 
 } // namespace coro::detail
-- 
2.43.0


From 530b14c6f0bf3c25c0940d5f0e2f59b840c44341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 13/45] fix: io_notifier_epoll must not read a poll_info behind
 internal events

---
 src/detail/io_notifier_epoll.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 4723aa5..356fb74 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -153,7 +153,8 @@ auto io_notifier_epoll::next_events(
         else
         {
             ready_events.emplace_back(pi, io_notifier_epoll::event_to_poll_status(ready_set[i]));
-            if (pi->m_cancel_trigger.has_value() && !keep_registered)
+            // Events that stay registered belong to internal objects, those are not poll_infos.
+            if (!keep_registered && pi->m_cancel_trigger.has_value())
             {
                 unwatch(pi->m_cancel_trigger.value().native_handle(), poll_op::read);
             }
-- 
2.43.0


From b784fb83441ecbdf9f728d8ed2a3a0ee69f15e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 14/45] fix: unwatching a poll must also unregister its cancel
 trigger

---
 src/detail/io_notifier_epoll.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 356fb74..1d3d211 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -118,6 +118,12 @@ auto io_notifier_epoll::unwatch(fd_t fd, poll_op) -> bool
 
 auto io_notifier_epoll::unwatch(poll_info& pi) -> bool
 {
+    // The cancel trigger was registered together with the poll, left behind it would be reported for a poll that is gone.
+    if (pi.m_cancel_trigger.has_value())
+    {
+        unwatch(pi.m_cancel_trigger.value().native_handle(), poll_op::read);
+    }
+
     return unwatch(pi.m_fd, pi.m_op);
 }
 
-- 
2.43.0


From 13920442a635c56834cfef46d55aa7907e15cb58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:53 +0000
Subject: [PATCH 15/45] fix: a poll whose registration fails must report an
 error instead of waiting forever

---
 src/detail/io_notifier_epoll.cpp | 5 ++++-
 src/scheduler.cpp                | 7 +++++++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/detail/io_notifier_epoll.cpp b/src/detail/io_notifier_epoll.cpp
index 1d3d211..66fdefe 100644
--- a/src/detail/io_notifier_epoll.cpp
+++ b/src/detail/io_notifier_epoll.cpp
@@ -101,7 +101,10 @@ auto io_notifier_epoll::watch(fd_t fd, poll_op op, void* data, bool keep, bool i
 
 auto io_notifier_epoll::watch(poll_info& pi) -> bool
 {
-    watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false);
+    if (!watch(pi.m_fd, pi.m_op, static_cast<void*>(&pi), false, false))
+    {
+        return false;
+    }
 
     if (pi.m_cancel_trigger.has_value())
     {
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 07b6f8e..c39067b 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -149,6 +149,13 @@ auto scheduler::poll(
     if (!m_io_notifier.watch(pi))
     {
         std::cerr << "Failed to add " << fd << " to watch list\n";
+
+        // Without a timeout nothing would ever resume this coroutine.
+        if (!timeout_requested)
+        {
+            m_size.fetch_sub(1, std::memory_order::release);
+            co_return poll_status::error;
+        }
     }
 
     // The event loop will 'clean-up' whichever event didn't win since the coroutine is scheduled
-- 
2.43.0


From 7c6ecc7158dc93eaa45d9a16995fa055a0f6fdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:29 +0000
Subject: [PATCH 16/45] fix: a self deleting task must destroy the user's
 coroutine before it reports completion

---
 src/detail/task_self_deleting.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/detail/task_self_deleting.cpp b/src/detail/task_self_deleting.cpp
index 412f3e6..fe4759e 100644
--- a/src/detail/task_self_deleting.cpp
+++ b/src/detail/task_self_deleting.cpp
@@ -77,7 +77,10 @@ auto task_self_deleting::operator=(task_self_deleting&& other) noexcept -> task_
 
 auto make_task_self_deleting(coro::task<void> user_task) -> task_self_deleting
 {
-    co_await user_task;
+    // The user's coroutine and everything it owns must be gone before the final suspend reports this
+    // task as completed, a parameter would outlive that.
+    auto task = std::move(user_task);
+    co_await task;
     co_return;
 }
 
-- 
2.43.0


From d3c93e4930c5a467f5d63798f0f8487574430499 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:29:29 +0000
Subject: [PATCH 17/45] fix: task_group must not let a completing task set the
 event of a task started meanwhile, nor leak a refused task

---
 include/coro/task_group.hpp | 31 +++++++++++++++++++++++++++----
 1 file changed, 27 insertions(+), 4 deletions(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index 14a9ae1..cad95ac 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -81,7 +81,8 @@ public:
      */
     ~task_group()
     {
-        while (!empty())
+        // The last task to complete is only done with the event once it is set.
+        while (!empty() || !m_on_empty_event.is_set())
         {
             // Sleep a bit so the cpu doesn't totally churn.
             std::this_thread::sleep_for(std::chrono::milliseconds{10});
@@ -96,15 +97,15 @@ public:
      */
     [[nodiscard]] auto start(coro::task<void>&& task) -> bool
     {
-        // Make sure the event isn't triggered, or can trigger again.
-        m_on_empty_event.reset();
-        m_size.fetch_add(1, std::memory_order::release);
         auto wrapper_task = detail::make_task_self_deleting(std::move(task));
         wrapper_task.promise().user_final_suspend([this]() -> void { count_down(); });
+        count_up();
 
         // Kick it.
         if (!m_executor->resume(wrapper_task.handle()))
         {
+            // It'll never run, so it'll never delete itself.
+            wrapper_task.handle().destroy();
             count_down();
             return false;
         }
@@ -136,6 +137,28 @@ private:
     /// Event to trigger if m_size goes to zero.
     coro::event m_on_empty_event{true};
 
+    auto count_up() -> void
+    {
+        if (m_size.fetch_add(1, std::memory_order::acq_rel) == 0)
+        {
+            // The group was empty, make sure the event can trigger again. The task that emptied the group
+            // might still be about to set it, resetting it any earlier than that has no effect.
+            while (!m_on_empty_event.is_set())
+            {
+                std::this_thread::yield();
+            }
+            m_on_empty_event.reset();
+        }
+        else
+        {
+            // Another start() might still be about to reset the event, do not return before it did.
+            while (m_on_empty_event.is_set())
+            {
+                std::this_thread::yield();
+            }
+        }
+    }
+
     auto count_down() -> void
     {
         if (m_size.fetch_sub(1, std::memory_order::acq_rel) == 1)
-- 
2.43.0


From 7905c24e4646cc36b16d201b37faf7a3c537684e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:34:34 +0000
Subject: [PATCH 18/45] fix: a start joining a task_group while it is re-armed
 could return before the event was reset

---
 include/coro/task_group.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/include/coro/task_group.hpp b/include/coro/task_group.hpp
index cad95ac..34965cc 100644
--- a/include/coro/task_group.hpp
+++ b/include/coro/task_group.hpp
@@ -8,6 +8,7 @@
 
 #include <atomic>
 #include <memory>
+#include <mutex>
 #include <thread>
 
 namespace coro
@@ -136,9 +137,13 @@ private:
     std::atomic<uint64_t> m_size{};
     /// Event to trigger if m_size goes to zero.
     coro::event m_on_empty_event{true};
+    /// Serializes count_up(), never held while a task is resumed.
+    std::mutex m_start_mutex{};
 
     auto count_up() -> void
     {
+        // Only one start() at a time may re-arm the event, and no start() may return before the event is re-armed.
+        std::scoped_lock lk{m_start_mutex};
         if (m_size.fetch_add(1, std::memory_order::acq_rel) == 0)
         {
             // The group was empty, make sure the event can trigger again. The task that emptied the group
@@ -149,14 +154,6 @@ private:
             }
             m_on_empty_event.reset();
         }
-        else
-        {
-            // Another start() might still be about to reset the event, do not return before it did.
-            while (m_on_empty_event.is_set())
-            {
-                std::this_thread::yield();
-            }
-        }
     }
 
     auto count_down() -> void
-- 
2.43.0


From afe8ac9eb75e9c21c1efd46bb6e6d870359ea962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:16 +0000
Subject: [PATCH 19/45] fix: task_self_deleting::resume() read the coroutine
 frame after it might have been deleted

---
 include/coro/detail/task_self_deleting.hpp | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/include/coro/detail/task_self_deleting.hpp b/include/coro/detail/task_self_deleting.hpp
index 06f8ea2..1bb49c2 100644
--- a/include/coro/detail/task_self_deleting.hpp
+++ b/include/coro/detail/task_self_deleting.hpp
@@ -69,15 +69,11 @@ public:
         return std::coroutine_handle<promise_self_deleting>::from_promise(*m_promise);
     }
 
-    auto resume() -> bool
-    {
-        const auto h = handle();
-        if (!h.done())
-        {
-            h.resume();
-        }
-        return !h.done();
-    }
+    /**
+     * Resumes the task, it might be running elsewhere or already be deleted when this returns so the
+     * task cannot be used again by the caller.
+     */
+    auto resume() -> void { handle().resume(); }
 
 private:
     promise_self_deleting* m_promise{nullptr};
-- 
2.43.0


From 2b0ecec77f003326063de5e10e06775f90c8ff33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:10 +0000
Subject: [PATCH 20/45] fix: thread_pool::spawn_detached leaked the task and
 its count if the pool is shut down

---
 src/thread_pool.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 5310c84..59fe856 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -67,7 +67,14 @@ auto thread_pool::spawn_detached(coro::task<void>&& task) noexcept -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // It'll never run, so it'll never delete itself.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
 }
 
 auto thread_pool::spawn_joinable(coro::task<void>&& task) noexcept -> coro::task<void>
-- 
2.43.0


From d7e0e8ef429f0db94109244be4d45fade979c981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:39 +0000
Subject: [PATCH 21/45] fix: thread_pool accepted work that raced with
 shutdown() and never executed it, resume(range) ignored shutdown and done
 handles

---
 include/coro/thread_pool.hpp | 44 ++++++++++++++-------------
 src/thread_pool.cpp          | 59 +++++++++++++++++++-----------------
 2 files changed, 55 insertions(+), 48 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 4853654..8bbbc48 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -54,19 +54,22 @@ public:
         auto await_ready() noexcept -> bool { return false; }
 
         /**
-         * Suspending always returns to the caller (using void return of await_suspend()) and
-         * stores the coroutine internally for the executing thread to resume from.
+         * Stores the coroutine internally for the executing thread to resume from.
+         * @return False if the thread pool was shut down meanwhile, the coroutine is not suspended then.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void;
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool;
 
         /**
-         * no-op as this is the function called first by the thread pool's executing thread.
+         * This is the function called first by the thread pool's executing thread.
+         * @throw std::runtime_error If the thread pool was shut down before the coroutine was scheduled.
          */
-        auto await_resume() noexcept -> void {}
+        auto await_resume() -> void;
 
     private:
         /// @brief The thread pool that this schedule operation will execute on.
         thread_pool& m_thread_pool;
+        /// @brief Set if the thread pool refused to schedule the coroutine.
+        bool m_refused{false};
     };
 
     struct options
@@ -166,43 +169,41 @@ public:
     /**
      * Schedules any coroutine handle that is ready to be resumed.
      * @param handle The coroutine handle to schedule.
-     * @return True if the coroutine is resumed, false if it is a nullptr or the coroutine is already done.
+     * @return True if the coroutine is resumed, false if it is a nullptr, the coroutine is already done or the
+     *         thread pool is shut down.
      */
     auto resume(std::coroutine_handle<> handle) noexcept -> bool;
 
     /**
      * Schedules the set of coroutine handles that are ready to be resumed.
      * @param handles The coroutine handles to schedule.
-     * @return std::size_t The number of tasks resumed, if any are null they are discarded.
+     * @return std::size_t The number of tasks resumed, if any are null or already done they are discarded. This is
+     *         zero if the thread pool is shut down.
      */
     template<coro::concepts::sized_range_of<std::coroutine_handle<>> range_type>
     auto resume(const range_type& handles) noexcept -> std::size_t
     {
-        m_size.fetch_add(std::size(handles), std::memory_order::release);
-
-        std::size_t null_handles{0};
+        std::size_t total{0};
 
         {
             std::scoped_lock lk{m_wait_mutex};
+            if (m_shutdown_requested.load(std::memory_order::acquire))
+            {
+                return 0;
+            }
+
             for (const auto& handle : handles)
             {
-                if (handle != nullptr) [[likely]]
+                if (handle != nullptr && !handle.done()) [[likely]]
                 {
                     m_queue.emplace_back(handle);
-                }
-                else
-                {
-                    ++null_handles;
+                    ++total;
                 }
             }
-        }
 
-        if (null_handles > 0)
-        {
-            m_size.fetch_sub(null_handles, std::memory_order::release);
+            m_size.fetch_add(total, std::memory_order::release);
         }
 
-        std::size_t total = std::size(handles) - null_handles;
         if (total >= m_threads.size())
         {
             m_wait_cv.notify_all();
@@ -278,8 +279,9 @@ private:
     auto executor(std::size_t idx) -> void;
     /**
      * @param handle Schedules the given coroutine to be executed upon the first available thread.
+     * @return False if the coroutine cannot be executed anymore.
      */
-    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> void;
+    auto schedule_impl(std::coroutine_handle<> handle) noexcept -> bool;
 
     /// The number of tasks in the queue + currently executing.
     std::atomic<std::size_t> m_size{0};
diff --git a/src/thread_pool.cpp b/src/thread_pool.cpp
index 59fe856..1ba1667 100644
--- a/src/thread_pool.cpp
+++ b/src/thread_pool.cpp
@@ -19,9 +19,24 @@ thread_pool::schedule_operation::schedule_operation(thread_pool& tp) noexcept :
 {
 }
 
-auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+auto thread_pool::schedule_operation::await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
 {
-    m_thread_pool.schedule_impl(awaiting_coroutine);
+    // If it is accepted the coroutine might already run elsewhere, this operation cannot be used anymore.
+    if (m_thread_pool.schedule_impl(awaiting_coroutine))
+    {
+        return true;
+    }
+
+    m_refused = true;
+    return false;
+}
+
+auto thread_pool::schedule_operation::await_resume() -> void
+{
+    if (m_refused)
+    {
+        throw std::runtime_error("coro::thread_pool is shutting down, unable to schedule new tasks.");
+    }
 }
 
 thread_pool::thread_pool(options&& opts, private_constructor) : m_opts(opts)
@@ -50,14 +65,12 @@ thread_pool::~thread_pool()
 
 auto thread_pool::schedule() -> schedule_operation
 {
-    m_size.fetch_add(1, std::memory_order::release);
     if (!m_shutdown_requested.load(std::memory_order::acquire))
     {
         return schedule_operation{*this};
     }
     else
     {
-        m_size.fetch_sub(1, std::memory_order::release);
         throw std::runtime_error("coro::thread_pool is shutting down, unable to schedule new tasks.");
     }
 }
@@ -85,20 +98,7 @@ auto thread_pool::spawn_joinable(coro::task<void>&& task) noexcept -> coro::task
 
 auto thread_pool::resume(std::coroutine_handle<> handle) noexcept -> bool
 {
-    if (handle == nullptr || handle.done())
-    {
-        return false;
-    }
-
-    m_size.fetch_add(1, std::memory_order::release);
-    if (m_shutdown_requested.load(std::memory_order::acquire))
-    {
-        m_size.fetch_sub(1, std::memory_order::release);
-        return false;
-    }
-
-    schedule_impl(handle);
-    return true;
+    return schedule_impl(handle);
 }
 
 auto thread_pool::shutdown() noexcept -> void
@@ -150,12 +150,10 @@ auto thread_pool::executor(std::size_t idx) -> void
         m_size.fetch_sub(1, std::memory_order::release);
     }
 
-    // Process until there are no ready tasks left.
-    while (m_size.load(std::memory_order::acquire) > 0)
+    // Process until there are no ready tasks left, nothing is accepted anymore.
+    while (true)
     {
         std::unique_lock<std::mutex> lk{m_wait_mutex};
-        // m_size will only drop to zero once all executing coroutines are finished
-        // but the queue could be empty for threads that finished early.
         if (m_queue.empty())
         {
             break;
@@ -176,18 +174,25 @@ auto thread_pool::executor(std::size_t idx) -> void
     }
 }
 
-auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> void
+auto thread_pool::schedule_impl(std::coroutine_handle<> handle) noexcept -> bool
 {
     if (handle == nullptr || handle.done())
     {
-        return;
+        return false;
     }
 
+    // The executor threads only exit after they saw the shutdown and then, holding this lock, an empty
+    // queue. Checking for the shutdown while holding the lock makes sure what is accepted is executed.
+    std::scoped_lock lk{m_wait_mutex};
+    if (m_shutdown_requested.load(std::memory_order::acquire))
     {
-        std::scoped_lock lk{m_wait_mutex};
-        m_queue.emplace_back(handle);
-        m_wait_cv.notify_one();
+        return false;
     }
+
+    m_size.fetch_add(1, std::memory_order::release);
+    m_queue.emplace_back(handle);
+    m_wait_cv.notify_one();
+    return true;
 }
 
 } // namespace coro
-- 
2.43.0


From 550f32f894896c09738ce11b5bf63112831bbf81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:39 +0000
Subject: [PATCH 22/45] fix: thread_pool::queue_size() read the queue without
 holding its lock

---
 include/coro/thread_pool.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/coro/thread_pool.hpp b/include/coro/thread_pool.hpp
index 8bbbc48..569a525 100644
--- a/include/coro/thread_pool.hpp
+++ b/include/coro/thread_pool.hpp
@@ -251,7 +251,7 @@ public:
      */
     auto queue_size() const noexcept -> std::size_t
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
+        std::scoped_lock lk{m_wait_mutex};
         return m_queue.size();
     }
 
@@ -266,7 +266,7 @@ private:
     /// The background executor threads.
     std::vector<std::thread> m_threads;
     /// Mutex for executor threads to sleep on the condition variable.
-    std::mutex m_wait_mutex;
+    mutable std::mutex m_wait_mutex;
     /// Condition variable for each executor thread to wait on when no tasks are available.
     std::condition_variable_any m_wait_cv;
     /// FIFO queue of tasks waiting to be executed.
-- 
2.43.0


From 2e362003e66b7ce9ef49b5881898ddeaa27e462c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:17 +0000
Subject: [PATCH 23/45] fix: default executors could never be obtained again
 once creating one threw

---
 src/default_executor.cpp | 34 ++++++++++++++++++++++++++++++++++
 1 file changed, 34 insertions(+)

diff --git a/src/default_executor.cpp b/src/default_executor.cpp
index acb1ca5..34b0b5d 100644
--- a/src/default_executor.cpp
+++ b/src/default_executor.cpp
@@ -16,6 +16,24 @@ static std::atomic<coro::scheduler*>    s_default_io_executor_ptr{nullptr};
 static std::unique_ptr<coro::scheduler> s_default_io_executor;
 #endif
 
+namespace
+{
+/// Lets another caller try again if creating the executor throws.
+struct creation_guard
+{
+    std::atomic<bool>& init;
+    bool               created{false};
+
+    ~creation_guard()
+    {
+        if (!created)
+        {
+            init.store(false, std::memory_order::release);
+        }
+    }
+};
+} // namespace
+
 void coro::default_executor::set_executor_options(thread_pool::options thread_pool_options)
 {
     s_default_executor_options = std::move(thread_pool_options);
@@ -26,13 +44,21 @@ std::unique_ptr<coro::thread_pool>& coro::default_executor::executor()
     // If we're the first one here create the default executor.
     if (s_default_executor_init.exchange(true) == false)
     {
+        creation_guard guard{s_default_executor_init};
         s_default_executor = coro::thread_pool::make_unique(s_default_executor_options);
         s_default_executor_ptr.store(s_default_executor.get(), std::memory_order::release);
+        guard.created = true;
     }
 
     while (s_default_executor_ptr.load(std::memory_order::acquire) == nullptr)
     {
         std::this_thread::sleep_for(s_initialization_check_interval);
+
+        // The caller that was creating it failed.
+        if (!s_default_executor_init.load(std::memory_order::acquire))
+        {
+            return executor();
+        }
     }
 
     return s_default_executor;
@@ -49,13 +75,21 @@ std::unique_ptr<coro::scheduler>& coro::default_executor::io_executor()
     // If we're the first one here create the default executor.
     if (s_default_io_executor_init.exchange(true) == false)
     {
+        creation_guard guard{s_default_io_executor_init};
         s_default_io_executor = coro::scheduler::make_unique(s_default_io_executor_options);
         s_default_io_executor_ptr.store(s_default_io_executor.get(), std::memory_order::release);
+        guard.created = true;
     }
 
     while (s_default_io_executor_ptr.load(std::memory_order::acquire) == nullptr)
     {
         std::this_thread::sleep_for(s_initialization_check_interval);
+
+        // The caller that was creating it failed.
+        if (!s_default_io_executor_init.load(std::memory_order::acquire))
+        {
+            return io_executor();
+        }
     }
 
     return s_default_io_executor;
-- 
2.43.0


From 96951faa70d764541ca226cf9e70e31722868df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 24/45] fix: tcp::client::read_some() and read_exact() returned
 a span past the end of buffers with elements larger than a byte

---
 include/coro/net/tcp/client.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/coro/net/tcp/client.hpp b/include/coro/net/tcp/client.hpp
index 642a66c..79d33b6 100644
--- a/include/coro/net/tcp/client.hpp
+++ b/include/coro/net/tcp/client.hpp
@@ -75,6 +75,8 @@ public:
     auto read_some(buffer_type& buffer, const std::chrono::milliseconds timeout = std::chrono::milliseconds{0})
         -> coro::task<std::pair<io_status, std::span<element_type>>>
     {
+        static_assert(sizeof(element_type) == 1);
+
         if (buffer.empty())
         {
             co_return {io_status{io_status::kind::ok}, {}};
@@ -113,6 +115,8 @@ public:
     auto read_exact(buffer_type& buffer, const std::chrono::milliseconds timeout = std::chrono::milliseconds{0})
         -> coro::task<std::pair<io_status, std::span<element_type>>>
     {
+        static_assert(sizeof(element_type) == 1);
+
         if (buffer.empty())
         {
             co_return {io_status{io_status::kind::ok}, {}};
-- 
2.43.0


From ab2bbd354cbb33aef6971aa86c7c183d10f67864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:31:59 +0000
Subject: [PATCH 25/45] fix: tcp::client raised SIGPIPE instead of reporting
 that the connection is closed

---
 include/coro/net/tcp/client.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/coro/net/tcp/client.hpp b/include/coro/net/tcp/client.hpp
index 79d33b6..3d308bf 100644
--- a/include/coro/net/tcp/client.hpp
+++ b/include/coro/net/tcp/client.hpp
@@ -402,7 +402,13 @@ private:
         typename element_type = typename concepts::const_buffer_traits<buffer_type>::element_type>
     auto send(const buffer_type& buffer) -> std::pair<io_status, std::span<element_type>>
     {
-        auto bytes_sent = ::send(m_socket.native_handle(), buffer.data(), buffer.size(), 0);
+#ifdef MSG_NOSIGNAL
+        // Sending on a closed connection is reported by the status, it must not raise SIGPIPE.
+        constexpr int flags = MSG_NOSIGNAL;
+#else
+        constexpr int flags = 0;
+#endif
+        auto bytes_sent = ::send(m_socket.native_handle(), buffer.data(), buffer.size(), flags);
         if (bytes_sent >= 0)
         {
             // Some or all of the bytes were written.
-- 
2.43.0


From 44ebc1a3776e0638e5bcf5624a24bb10a34ba7a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 26/45] fix: tls::client::recv() and send() polled for ever
 once the tls library wanted the other direction

---
 include/coro/net/tls/client.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 8bca125..e7b1031 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -108,9 +108,9 @@ public:
             switch (pstatus)
             {
                 case poll_status::read:
-                    break;
                 case poll_status::write:
-                    continue;
+                    // The socket is ready for what the tls library asked for, try again.
+                    break;
                 case poll_status::timeout:
                     co_return {recv_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
@@ -204,9 +204,9 @@ public:
             switch (pstatus)
             {
                 case poll_status::write:
-                    break;
                 case poll_status::read:
-                    continue;
+                    // The socket is ready for what the tls library asked for, try again.
+                    break;
                 case poll_status::timeout:
                     co_return {send_status::timeout, std::span<element_type>{}};
                 case poll_status::error:
-- 
2.43.0


From 7c9a611b292cf16d587903a44a4809a5811c8d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 27/45] fix: tls::client::send() reported nothing left to send
 when it failed and nothing was sent

---
 include/coro/net/tls/client.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index e7b1031..f5fe619 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -192,7 +192,7 @@ public:
                     t -= duration;
                     if (t <= std::chrono::microseconds{0})
                     {
-                        co_return {send_status::timeout, std::span<element_type>{}};
+                        co_return {send_status::timeout, std::span<element_type>{buffer.data(), buffer.size()}};
                     }
                 }
 
@@ -208,13 +208,13 @@ public:
                     // The socket is ready for what the tls library asked for, try again.
                     break;
                 case poll_status::timeout:
-                    co_return {send_status::timeout, std::span<element_type>{}};
+                    co_return {send_status::timeout, std::span<element_type>{buffer.data(), buffer.size()}};
                 case poll_status::error:
-                    co_return {send_status::error, std::span<element_type>{}};
+                    co_return {send_status::error, std::span<element_type>{buffer.data(), buffer.size()}};
                 case poll_status::closed:
-                    co_return {send_status::closed, std::span<element_type>{}};
+                    co_return {send_status::closed, std::span<element_type>{buffer.data(), buffer.size()}};
                 case poll_status::cancelled:
-                    co_return {send_status::cancelled, std::span<element_type>{}};
+                    co_return {send_status::cancelled, std::span<element_type>{buffer.data(), buffer.size()}};
             }
 
             size_t bytes_sent{0};
@@ -240,7 +240,7 @@ public:
                 }
                 else
                 {
-                    co_return {static_cast<send_status>(err), std::span<element_type>{}};
+                    co_return {static_cast<send_status>(err), std::span<element_type>{buffer.data(), buffer.size()}};
                 }
             }
             else
-- 
2.43.0


From 5e17102e3cf0e71fb69a616ee73135464a5ac73e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 28/45] fix: tls::client::recv() and send() took byte counts
 for element counts

---
 include/coro/net/tls/client.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index f5fe619..215df07 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -72,6 +72,8 @@ public:
     auto recv(buffer_type& buffer, std::optional<std::chrono::milliseconds> timeout = std::nullopt)
         -> coro::task<std::pair<recv_status, std::span<element_type>>>
     {
+        static_assert(sizeof(element_type) == 1);
+
         if (buffer.empty())
         {
             co_return {recv_status::buffer_is_empty, std::span<element_type>{}};
@@ -167,6 +169,8 @@ public:
     auto send(const buffer_type& buffer, std::optional<std::chrono::milliseconds> timeout = std::nullopt)
         -> coro::task<std::pair<send_status, std::span<element_type>>>
     {
+        static_assert(sizeof(element_type) == 1);
+
         // Make sure there is data to send.
         if (buffer.empty())
         {
-- 
2.43.0


From 4be9ddb2d472bef3a1883b81ba8e55b916a2f7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 29/45] fix: tls::client::recv() waited for the socket although
 received data was already buffered by the tls library

---
 include/coro/net/tls/client.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/coro/net/tls/client.hpp b/include/coro/net/tls/client.hpp
index 215df07..e4ff45a 100644
--- a/include/coro/net/tls/client.hpp
+++ b/include/coro/net/tls/client.hpp
@@ -106,7 +106,13 @@ public:
                 start = std::chrono::steady_clock::now();
             }
 
-            auto pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            // Data that the tls library has already taken from the socket does not make the socket readable.
+            auto pstatus = poll_status::read;
+            if (op != poll_op::read || tls == nullptr || SSL_pending(tls) == 0)
+            {
+                pstatus = co_await poll(op, timeout.value_or(std::chrono::milliseconds{0}));
+            }
+
             switch (pstatus)
             {
                 case poll_status::read:
-- 
2.43.0


From 76c1e600a27c26de2ced977053761ed6e2d684b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:36:50 +0000
Subject: [PATCH 30/45] fix: tls::client::connect() failed a handshake in
 progress because of an error of another connection

---
 src/net/tls/client.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/net/tls/client.cpp b/src/net/tls/client.cpp
index 90c6cb6..4ad1c84 100644
--- a/src/net/tls/client.cpp
+++ b/src/net/tls/client.cpp
@@ -162,9 +162,15 @@ auto client::handshake(std::chrono::milliseconds timeout) -> coro::task<connecti
     }
 
     int r{0};
-    ERR_clear_error();
-    while ((r = SSL_connect(tls)) != 1)
+    while (true)
     {
+        // Other connections may have left errors on this thread while this coroutine was suspended.
+        ERR_clear_error();
+        if ((r = SSL_connect(tls)) == 1)
+        {
+            break;
+        }
+
         poll_op op{poll_op::read_write};
         int     err = SSL_get_error(tls, r);
         if (err == SSL_ERROR_WANT_WRITE)
-- 
2.43.0


From 539d4182852702f46156ed1a5670cf6a1192b123 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:07 +0000
Subject: [PATCH 31/45] fix: the handle of a polling coroutine was passed to
 the event loop without synchronisation

poll_info::m_awaiting_coroutine was a plain object, written before a release
fence without an atomic store and read in a loop without an atomic load: a
data race between the polling thread and the event loop.
---
 include/coro/detail/poll_info.hpp |  6 +++---
 src/scheduler.cpp                 | 13 ++++++-------
 2 files changed, 9 insertions(+), 10 deletions(-)

diff --git a/include/coro/detail/poll_info.hpp b/include/coro/detail/poll_info.hpp
index 7992ff9..11f9aa7 100644
--- a/include/coro/detail/poll_info.hpp
+++ b/include/coro/detail/poll_info.hpp
@@ -53,8 +53,8 @@ struct poll_info
         auto await_ready() const noexcept -> bool { return false; }
         auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
         {
-            m_pi.m_awaiting_coroutine = awaiting_coroutine;
-            std::atomic_thread_fence(std::memory_order::release);
+            // From here on the event loop owns this poll, it can be resumed (and destroyed) immediately.
+            m_pi.m_awaiting_coroutine.store(awaiting_coroutine, std::memory_order::release);
         }
         auto await_resume() noexcept -> coro::poll_status { return m_pi.m_poll_status; }
 
@@ -73,7 +73,7 @@ struct poll_info
     /// the timeout within epoll.
     std::optional<timed_events::iterator> m_timer_pos{std::nullopt};
     /// The awaiting coroutine for this poll info to resume upon event or timeout.
-    std::coroutine_handle<> m_awaiting_coroutine;
+    std::atomic<std::coroutine_handle<>> m_awaiting_coroutine{nullptr};
     /// The status of the poll operation.
     coro::poll_status m_poll_status{coro::poll_status::error};
     /// Did the timeout and event trigger at the same time on the same epoll_wait call?
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index c39067b..a410586 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -393,7 +393,6 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 {
     if (!pi->m_processed)
     {
-        std::atomic_thread_fence(std::memory_order::acquire);
         // Its possible the event and the timeout occurred in the same epoll, make sure only one
         // is ever processed, the other is discarded.
         pi->m_processed = true;
@@ -412,12 +411,12 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 
         pi->m_poll_status = status;
 
-        while (pi->m_awaiting_coroutine == nullptr)
+        std::coroutine_handle<> awaiting_coroutine{nullptr};
+        while ((awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire)) == nullptr)
         {
-            std::atomic_thread_fence(std::memory_order::acquire);
         }
 
-        m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
+        m_handles_to_resume.emplace_back(awaiting_coroutine);
     }
 }
 
@@ -459,12 +458,12 @@ auto scheduler::process_timeout_execute() -> void
                 m_io_notifier.unwatch(*pi);
             }
 
-            while (pi->m_awaiting_coroutine == nullptr)
+            std::coroutine_handle<> awaiting_coroutine{nullptr};
+            while ((awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire)) == nullptr)
             {
-                std::atomic_thread_fence(std::memory_order::acquire);
             }
 
-            m_handles_to_resume.emplace_back(pi->m_awaiting_coroutine);
+            m_handles_to_resume.emplace_back(awaiting_coroutine);
             pi->m_poll_status = coro::poll_status::timeout;
         }
     }
-- 
2.43.0


From de466bb406f1e509e83eebf81b4abb1e7545c35e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:07 +0000
Subject: [PATCH 32/45] fix: the event loop removed the registrations of a poll
 that poll() was still making

The timeout of a poll is registered before its event and its event before the
cancel trigger. The event loop removed the other registrations as soon as one of
them fired, although the polling thread might register them only afterwards: the
descriptor (or the cancel trigger) then stayed registered for a poll that was
over, and a later event was reported for a destroyed poll_info.
---
 src/scheduler.cpp | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index a410586..d4267e0 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -397,6 +397,13 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
         // is ever processed, the other is discarded.
         pi->m_processed = true;
 
+        // Wait for the coroutine to be suspended before anything is unregistered: until then poll()
+        // might still be registering this poll (or its cancel trigger), which would then stay behind.
+        std::coroutine_handle<> awaiting_coroutine{nullptr};
+        while ((awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire)) == nullptr)
+        {
+        }
+
         // Given a valid fd always remove it from epoll so the next poll can blindly EPOLL_CTL_ADD.
         if (pi->m_fd != -1)
         {
@@ -411,11 +418,6 @@ auto scheduler::process_event_execute(detail::poll_info* pi, poll_status status)
 
         pi->m_poll_status = status;
 
-        std::coroutine_handle<> awaiting_coroutine{nullptr};
-        while ((awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire)) == nullptr)
-        {
-        }
-
         m_handles_to_resume.emplace_back(awaiting_coroutine);
     }
 }
@@ -452,15 +454,18 @@ auto scheduler::process_timeout_execute() -> void
             // is ever processed, the other is discarded.
             pi->m_processed = true;
 
-            // Since this timed out, remove its corresponding event if it has one.
-            if (pi->m_fd != -1)
+            // The timeout is registered first, wait for the coroutine to be suspended before its event
+            // is removed: until then poll() might still be about to register the event, which would then
+            // stay behind and be reported for a poll that is gone.
+            std::coroutine_handle<> awaiting_coroutine{nullptr};
+            while ((awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire)) == nullptr)
             {
-                m_io_notifier.unwatch(*pi);
             }
 
-            std::coroutine_handle<> awaiting_coroutine{nullptr};
-            while ((awaiting_coroutine = pi->m_awaiting_coroutine.load(std::memory_order::acquire)) == nullptr)
+            // Since this timed out, remove its corresponding event if it has one.
+            if (pi->m_fd != -1)
             {
+                m_io_notifier.unwatch(*pi);
             }
 
             m_handles_to_resume.emplace_back(awaiting_coroutine);
-- 
2.43.0


From a3c0650638302c1b3d964984618309b15c36384b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:07 +0000
Subject: [PATCH 33/45] fix: the event loop re-armed the timer without holding
 the lock of the timed events

update_timeout() reads the smallest deadline and arms the timer with it. Without
the lock it raced with add_timer_token()/remove_timer_token() of other threads, and
an earlier deadline that was added in between was overwritten by a later one.
---
 src/scheduler.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index d4267e0..dbaab31 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -475,6 +475,7 @@ auto scheduler::process_timeout_execute() -> void
 
     // Update the time to the next smallest time point, re-take the current now time
     // since updating and resuming tasks could shift the time.
+    std::scoped_lock lk{m_timed_events_mutex};
     update_timeout(clock::now());
 }
 
-- 
2.43.0


From 41d7f8d17f87246f90a0bdcaa95a02c6a852c74c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:07 +0000
Subject: [PATCH 34/45] fix: scheduler::yield_until() and schedule_at() resumed
 up to a millisecond early

---
 src/scheduler.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index dbaab31..5f18efe 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -114,10 +114,8 @@ auto scheduler::yield_until(time_point time) -> coro::task<void>
     {
         m_size.fetch_add(1, std::memory_order::release);
 
-        auto amount = std::chrono::duration_cast<std::chrono::milliseconds>(time - now);
-
         detail::poll_info pi{};
-        add_timer_token(now + amount, pi);
+        add_timer_token(time, pi);
         co_await pi;
     }
     co_return;
-- 
2.43.0


From 387f4fd2511dee9f70858020c52dc389d6a63b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:07 +0000
Subject: [PATCH 35/45] fix: scheduler::schedule(task, timeout) timed out
 early, or never, for timeouts that are no multiple of a millisecond

The timeout was truncated: 1.9ms timed out after 1ms and anything below a
millisecond meant no timeout at all.
---
 include/coro/scheduler.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 25e16f7..f604695 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -245,8 +245,8 @@ public:
     {
         using namespace std::chrono_literals;
 
-        // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
+        // If negative or 0 timeout, just schedule the task as normal. Round up, never time out early.
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
@@ -297,8 +297,8 @@ public:
     {
         using namespace std::chrono_literals;
 
-        // If negative or 0 timeout, just schedule the task as normal.
-        auto timeout_ms = std::max(std::chrono::duration_cast<std::chrono::milliseconds>(timeout), 0ms);
+        // If negative or 0 timeout, just schedule the task as normal. Round up, never time out early.
+        auto timeout_ms = std::max(std::chrono::ceil<std::chrono::milliseconds>(timeout), 0ms);
         if (timeout_ms == 0ms)
         {
             if constexpr (std::is_void_v<return_type>)
-- 
2.43.0


From 45f7d156e329f9b50a819d35354fa1ce99f666ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:35 +0000
Subject: [PATCH 36/45] fix: the timeout of a poll that could not be registered
 removed another poll's registration

A descriptor that is already polled cannot be registered again. If the second
poll has a timeout it waits for it, and the event loop then removed the
descriptor from the notifier: the registration of the first poll, which was
never resumed.
---
 src/scheduler.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 5f18efe..dceae4a 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -148,6 +148,10 @@ auto scheduler::poll(
     {
         std::cerr << "Failed to add " << fd << " to watch list\n";
 
+        // Only the timeout is left, the event loop must not remove a registration that is not this poll's,
+        // e.g. of another poll for the same descriptor.
+        pi.m_fd = -1;
+
         // Without a timeout nothing would ever resume this coroutine.
         if (!timeout_requested)
         {
-- 
2.43.0


From c2281ae7ad86b20c17cc690c2c5b3d8d60e31a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:28:35 +0000
Subject: [PATCH 37/45] fix: very long timeouts of scheduler::poll() and
 yield_for() expired immediately

clock::now() + timeout overflowed, e.g. for milliseconds::max(), and the deadline
was in the past.
---
 src/scheduler.cpp | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index dceae4a..33ec6b8 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -23,6 +23,19 @@ static auto
     co_return;
 }
 
+/// @return The time point that is the given amount of time from now, a deadline too far away to be represented is the
+///         last time point and not one in the past.
+template<typename duration_type>
+static auto deadline_after(duration_type amount) -> time_point
+{
+    const auto now = clock::now();
+    if (amount > std::chrono::duration_cast<duration_type>(time_point::max() - now))
+    {
+        return time_point::max();
+    }
+    return now + amount;
+}
+
 } // namespace detail
 
 scheduler::scheduler(options&& opts, private_constructor)
@@ -141,7 +154,7 @@ auto scheduler::poll(
 
     if (timeout_requested)
     {
-        pi.m_timer_pos = add_timer_token(clock::now() + timeout, pi);
+        pi.m_timer_pos = add_timer_token(detail::deadline_after(timeout), pi);
     }
 
     if (!m_io_notifier.watch(pi))
@@ -236,7 +249,7 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
         // the timeout to occur before resuming.
 
         detail::poll_info pi{};
-        add_timer_token(clock::now() + amount, pi);
+        add_timer_token(detail::deadline_after(amount), pi);
         co_await pi;
     }
     co_return;
-- 
2.43.0


From ed344e984e90586f5ef3a03d5dd8832944096d82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:19 +0000
Subject: [PATCH 38/45] fix: scheduler::schedule_operation is not used after it
 is handed to the event loop

The event loop can resume the coroutine, which destroys the operation, as soon as it is in the list.
---
 include/coro/scheduler.hpp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index f604695..4c8c7da 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -148,17 +148,20 @@ public:
         {
             if (m_scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
-                m_scheduler.m_size.fetch_add(1, std::memory_order::release);
+                // Once it is in the list the coroutine might be resumed and this operation be gone.
+                auto& scheduler = m_scheduler;
+
+                scheduler.m_size.fetch_add(1, std::memory_order::release);
                 m_awaiting_coroutine = awaiting_coroutine;
-                detail::awaiter_list_push(m_scheduler.m_scheduled_ops, this);
+                detail::awaiter_list_push(scheduler.m_scheduled_ops, this);
 
                 // Trigger the event to wake-up the scheduler if this event isn't currently triggered.
                 bool expected{false};
-                if (m_scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
+                if (scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
                         expected, true, std::memory_order::release, std::memory_order::relaxed))
                 {
                     constexpr int control = 1;
-                    ssize_t       written = m_scheduler.m_schedule_pipe.write(&control, sizeof(control));
+                    ssize_t       written = scheduler.m_schedule_pipe.write(&control, sizeof(control));
                     if (written != sizeof(control))
                     {
                         std::cerr
-- 
2.43.0


From 493fc37a7171a97520c01a8a5fa19d22bc1ea25d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:19 +0000
Subject: [PATCH 39/45] fix: a scheduled coroutine is not missed when the event
 loop resets its trigger meanwhile

A failed relaxed compare exchange does not order the push before it with the event loop that resets the
trigger and then looks at the list, the coroutine could stay in the list without a wakeup.
---
 include/coro/scheduler.hpp | 5 ++---
 src/scheduler.cpp          | 2 +-
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 4c8c7da..7402e4c 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -156,9 +156,8 @@ public:
                 detail::awaiter_list_push(scheduler.m_scheduled_ops, this);
 
                 // Trigger the event to wake-up the scheduler if this event isn't currently triggered.
-                bool expected{false};
-                if (scheduler.m_schedule_pipe_triggered.compare_exchange_strong(
-                        expected, true, std::memory_order::release, std::memory_order::relaxed))
+                // This always writes, the event loop resetting it afterwards will see the operation in the list.
+                if (!scheduler.m_schedule_pipe_triggered.exchange(true, std::memory_order::acq_rel))
                 {
                     constexpr int control = 1;
                     ssize_t       written = scheduler.m_schedule_pipe.write(&control, sizeof(control));
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 33ec6b8..bc806e9 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -380,7 +380,7 @@ auto scheduler::process_scheduled_execute_inline() -> void
     }
 
     // Note to all producers that the pipe is cleared and any new additions need to trigger the pipe.
-    m_schedule_pipe_triggered.exchange(false, std::memory_order::release);
+    m_schedule_pipe_triggered.exchange(false, std::memory_order::acq_rel);
 
     // Now it is safe to acquire all scheduled ops.
     auto* ops = detail::awaiter_list_pop_all(m_scheduled_ops);
-- 
2.43.0


From ae07c0bed5fd5bb607cd63a4d41cda6b608e2ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:19 +0000
Subject: [PATCH 40/45] fix: scheduler::spawn_detached() frees a refused task
 and does not count it

The leaked count kept the scheduler from ever being empty, its shutdown never completed.
---
 src/scheduler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index bc806e9..f70e015 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -100,7 +100,14 @@ auto scheduler::spawn_detached(coro::task<void>&& task) -> bool
     m_size.fetch_add(1, std::memory_order::release);
     auto wrapper_task = detail::make_task_self_deleting(std::move(task));
     wrapper_task.promise().user_final_suspend([this]() -> void { m_size.fetch_sub(1, std::memory_order::release); });
-    return resume(wrapper_task.handle());
+    if (!resume(wrapper_task.handle()))
+    {
+        // It'll never run, so it'll never delete itself.
+        wrapper_task.handle().destroy();
+        m_size.fetch_sub(1, std::memory_order::release);
+        return false;
+    }
+    return true;
 }
 
 auto scheduler::spawn_joinable(coro::task<void>&& task) -> coro::task<void>
-- 
2.43.0


From 1807e1af4c2016daee33b19e59458b44b2fdc0c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:19 +0000
Subject: [PATCH 41/45] fix: scheduler::size() does not miss a task that starts
 to wait for an event

The order of evaluation was unspecified: reading the event count before the pool's, both can be zero while a
task moves from the pool to waiting for an event and the event loop ends without it.
---
 include/coro/scheduler.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 7402e4c..10beb64 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -440,7 +440,9 @@ public:
         }
         else
         {
-            return m_size.load(std::memory_order::acquire) + m_thread_pool->size();
+            // The thread pool first, a task running on it is counted as waiting for an event before it suspends.
+            const auto pool_size = m_thread_pool->size();
+            return pool_size + m_size.load(std::memory_order::acquire);
         }
     }
 
-- 
2.43.0


From 171c97e1239697ae1aa32f3b2d870cc55da1c6b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:53 +0000
Subject: [PATCH 42/45] fix: a coroutine scheduled while the scheduler's event
 loop ends is resumed or refused

resume() and co_await schedule() could hand a coroutine to an event loop that had just seen that there are no
tasks left, or to a thread pool that is shut down: it was reported as accepted and never resumed.
---
 include/coro/scheduler.hpp | 47 ++++++++++++++++++++++++++++++--------
 src/scheduler.cpp          | 22 ++++++++++++++++--
 2 files changed, 57 insertions(+), 12 deletions(-)

diff --git a/include/coro/scheduler.hpp b/include/coro/scheduler.hpp
index 10beb64..758ec65 100644
--- a/include/coro/scheduler.hpp
+++ b/include/coro/scheduler.hpp
@@ -19,6 +19,7 @@
 #include <map>
 #include <memory>
 #include <optional>
+#include <stdexcept>
 #include <stop_token>
 #include <thread>
 #include <type_traits>
@@ -141,17 +142,24 @@ public:
         auto await_ready() noexcept -> bool { return false; }
 
         /**
-         * Suspending always returns to the caller (using void return of await_suspend()) and
-         * stores the coroutine internally for the executing thread to resume from.
+         * Stores the coroutine internally for the executing thread to resume from.
+         * @return False if the scheduler is shut down and nothing would resume the coroutine, it is not suspended then.
          */
-        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> void
+        auto await_suspend(std::coroutine_handle<> awaiting_coroutine) noexcept -> bool
         {
             if (m_scheduler.m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
             {
                 // Once it is in the list the coroutine might be resumed and this operation be gone.
                 auto& scheduler = m_scheduler;
 
-                scheduler.m_size.fetch_add(1, std::memory_order::release);
+                if (scheduler.m_size.fetch_add(1, std::memory_order::acq_rel) & m_finished)
+                {
+                    // The event loop is gone.
+                    scheduler.m_size.fetch_sub(1, std::memory_order::release);
+                    m_refused = true;
+                    return false;
+                }
+
                 m_awaiting_coroutine = awaiting_coroutine;
                 detail::awaiter_list_push(scheduler.m_scheduled_ops, this);
 
@@ -168,21 +176,36 @@ public:
                             << written << "\n";
                     }
                 }
+                return true;
             }
-            else
+
+            // If it is accepted the coroutine might already run elsewhere, this operation cannot be used anymore.
+            if (m_scheduler.m_thread_pool->resume(awaiting_coroutine))
             {
-                m_scheduler.m_thread_pool->resume(awaiting_coroutine);
+                return true;
             }
+
+            m_refused = true;
+            return false;
         }
 
         /**
-         * no-op as this is the function called first by the thread pool's executing thread.
+         * This is the function called first by the thread pool's executing thread.
+         * @throw std::runtime_error If the scheduler was shut down before the coroutine was scheduled.
          */
-        auto await_resume() noexcept -> void {}
+        auto await_resume() -> void
+        {
+            if (m_refused)
+            {
+                throw std::runtime_error("coro::scheduler is shut down, unable to schedule new tasks.");
+            }
+        }
 
         std::coroutine_handle<> m_awaiting_coroutine;
         schedule_operation*     m_next{nullptr};
         bool                    m_allocated{false};
+        /// @brief Set if the scheduler refused to schedule the coroutine.
+        bool m_refused{false};
 
     private:
         /// The thread pool that this operation will execute on.
@@ -436,13 +459,13 @@ public:
     {
         if (m_opts.execution_strategy == execution_strategy_t::process_tasks_inline)
         {
-            return m_size.load(std::memory_order::acquire);
+            return m_size.load(std::memory_order::acquire) & ~m_finished;
         }
         else
         {
             // The thread pool first, a task running on it is counted as waiting for an event before it suspends.
             const auto pool_size = m_thread_pool->size();
-            return pool_size + m_size.load(std::memory_order::acquire);
+            return pool_size + (m_size.load(std::memory_order::acquire) & ~m_finished);
         }
     }
 
@@ -478,6 +501,8 @@ private:
     /// @brief Scheduled operations waiting to be resumed.
     std::atomic<schedule_operation*> m_scheduled_ops{nullptr};
 
+    /// Set in m_size once the event loop ends, from then on nothing can be scheduled on it anymore.
+    static constexpr std::size_t m_finished{~(~std::size_t{0} >> 1)};
     /// The number of tasks executing or awaiting events in this io scheduler.
     std::atomic<std::size_t> m_size{0};
 
@@ -500,6 +525,8 @@ private:
     auto              process_events_manual(std::chrono::milliseconds timeout) -> void;
     auto              process_events_dedicated_thread() -> void;
     auto              process_events_execute(std::chrono::milliseconds timeout) -> void;
+    /// @return True if there are no tasks left and no more are accepted from now on.
+    auto try_finish() noexcept -> bool;
     static auto       event_to_poll_status(uint32_t events) -> poll_status;
 
     auto process_scheduled_execute_inline() -> void;
diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index f70e015..06674fe 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -203,7 +203,11 @@ auto scheduler::resume(std::coroutine_handle<> handle) -> bool
     {
         auto* schedule_op        = new schedule_operation{*this};
         schedule_op->m_allocated = true;
-        schedule_op->await_suspend(handle);
+        if (!schedule_op->await_suspend(handle))
+        {
+            delete schedule_op;
+            return false;
+        }
         return true;
     }
     else
@@ -281,7 +285,7 @@ auto scheduler::process_events_dedicated_thread() -> void
 
     m_io_processing.exchange(true, std::memory_order::release);
     // Execute tasks until stopped or there are no more tasks to complete.
-    while (!m_shutdown_requested.load(std::memory_order::acquire) || size() > 0)
+    while (!m_shutdown_requested.load(std::memory_order::acquire) || !try_finish())
     {
         process_events_execute(m_default_timeout);
     }
@@ -293,6 +297,20 @@ auto scheduler::process_events_dedicated_thread() -> void
     }
 }
 
+auto scheduler::try_finish() noexcept -> bool
+{
+    // The thread pool first, a task running on it is counted as waiting for an event before it suspends.
+    if (m_thread_pool != nullptr && !m_thread_pool->empty())
+    {
+        return false;
+    }
+
+    // Either a task was counted before and the event loop has to process it, or it will be refused.
+    std::size_t expected{0};
+    return m_size.compare_exchange_strong(
+        expected, m_finished, std::memory_order::acq_rel, std::memory_order::acquire);
+}
+
 auto scheduler::process_events_execute(std::chrono::milliseconds timeout) -> void
 {
     // Clear the recent events without decreasing the allocated capacity to reduce allocations
-- 
2.43.0


From 63881b9c2fb10b268fbddde18e4926a23b09128e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:53 +0000
Subject: [PATCH 43/45] fix: tasks whose event is processed after the thread
 pool is shut down are not lost

With a manually driven scheduler the thread pool is shut down while tasks still wait for events.
---
 src/scheduler.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 06674fe..e5451a1 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -363,7 +363,14 @@ auto scheduler::process_events_execute(std::chrono::milliseconds timeout) -> voi
         }
         else
         {
-            m_thread_pool->resume(m_handles_to_resume);
+            if (m_thread_pool->resume(m_handles_to_resume) == 0)
+            {
+                // The thread pool is already shut down, these tasks must not be lost.
+                for (auto& handle : m_handles_to_resume)
+                {
+                    handle.resume();
+                }
+            }
             m_size.fetch_sub(m_handles_to_resume.size(), std::memory_order::release);
         }
 
-- 
2.43.0


From 6d9f5a8988247c67c1a80369e21c5312c803d2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:57:53 +0000
Subject: [PATCH 44/45] fix: threads taking turns in
 scheduler::process_events() see each other's state

The thread that takes over has to acquire what the previous one released.
---
 src/scheduler.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index e5451a1..09d01f6 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -269,7 +269,7 @@ auto scheduler::yield_for_internal(std::chrono::nanoseconds amount) -> coro::tas
 auto scheduler::process_events_manual(std::chrono::milliseconds timeout) -> void
 {
     bool expected{false};
-    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::release, std::memory_order::relaxed))
+    if (m_io_processing.compare_exchange_strong(expected, true, std::memory_order::acquire, std::memory_order::relaxed))
     {
         process_events_execute(timeout);
         m_io_processing.exchange(false, std::memory_order::release);
-- 
2.43.0


From 4954992b7071bca578d0ffd680346f1e9528f2f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:00:09 +0000
Subject: [PATCH 45/45] fix: scheduler::process_events() cannot run beside a
 dedicated event loop that is about to start

Both would process the same events and resume the same coroutines.
---
 src/scheduler.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scheduler.cpp b/src/scheduler.cpp
index 09d01f6..85960d6 100644
--- a/src/scheduler.cpp
+++ b/src/scheduler.cpp
@@ -69,6 +69,8 @@ auto scheduler::make_unique(options opts) -> std::unique_ptr<scheduler>
     // so it has a full object to work with.
     if (s->m_opts.thread_strategy == thread_strategy_t::spawn)
     {
+        // From here on the events are processed by that thread only.
+        s->m_io_processing.store(true, std::memory_order::release);
         s->m_io_thread = std::thread([s = s.get()]() { s->process_events_dedicated_thread(); });
     }
     // else manual mode, the user must call process_events.
-- 
2.43.0

