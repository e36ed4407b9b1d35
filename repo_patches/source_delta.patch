From a39539c98e1dbdb77756c21210c8eb98c655260d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 01/21] fix: scope guards run each task once when a task adds a
 task

---
 include/pluto/scope.hpp | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index 82b6ad2..9129195 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -9,6 +9,7 @@
 #define PLUTO_UTILS_SCOPE_HPP
 
 #include <stack>
+#include <utility>
 #include <exception>
 #include <functional>
 
@@ -30,9 +31,10 @@ namespace pluto
 
         ~on_scope_exit()
         {
-            for (; !m_tasks.empty(); m_tasks.pop())
+            while (!m_tasks.empty())
             {
-                const auto& task{ m_tasks.top() };
+                const auto task{ std::move(m_tasks.top()) };
+                m_tasks.pop();
 
                 if (task)
                 {
@@ -79,9 +81,10 @@ namespace pluto
             if (!std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
@@ -129,9 +132,10 @@ namespace pluto
             if (std::uncaught_exception())
 #endif
             {
-                for (; !m_tasks.empty(); m_tasks.pop())
+                while (!m_tasks.empty())
                 {
-                    const auto& task{ m_tasks.top() };
+                    const auto task{ std::move(m_tasks.top()) };
+                    m_tasks.pop();
 
                     if (task)
                     {
-- 
2.43.0


From b917ae93e43e880a690eba8bd3cabcfbfef43756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 02/21] fix: scope success and fail guards judge only
 exceptions leaving their own scope

---
 include/pluto/scope.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/pluto/scope.hpp b/include/pluto/scope.hpp
index 9129195..2a1d26c 100644
--- a/include/pluto/scope.hpp
+++ b/include/pluto/scope.hpp
@@ -65,6 +65,10 @@ namespace pluto
     {
         std::stack<std::function<void()>> m_tasks{};
 
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_uncaughtExceptions{ std::uncaught_exceptions() };
+#endif
+
     public:
         inline on_scope_success() = default;
 
@@ -76,7 +80,7 @@ namespace pluto
         ~on_scope_success()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() == 0)
+            if (std::uncaught_exceptions() <= m_uncaughtExceptions)
 #else
             if (!std::uncaught_exception())
 #endif
@@ -116,6 +120,10 @@ namespace pluto
     {
         std::stack<std::function<void()>> m_tasks{};
 
+#if PLUTO_UTILS_HAS_CXX_17
+        const int m_uncaughtExceptions{ std::uncaught_exceptions() };
+#endif
+
     public:
         inline on_scope_fail() = default;
 
@@ -127,7 +135,7 @@ namespace pluto
         ~on_scope_fail()
         {
 #if PLUTO_UTILS_HAS_CXX_17
-            if (std::uncaught_exceptions() != 0)
+            if (m_uncaughtExceptions < std::uncaught_exceptions())
 #else
             if (std::uncaught_exception())
 #endif
-- 
2.43.0


From 5a9ab52b225c7866ebfbd7f2738f0c7ab49d1630 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 03/21] fix: include the standard headers platform.hpp uses

---
 include/pluto/platform.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/pluto/platform.hpp b/include/pluto/platform.hpp
index 202dda3..e44aab8 100644
--- a/include/pluto/platform.hpp
+++ b/include/pluto/platform.hpp
@@ -8,6 +8,10 @@
 #ifndef PLUTO_UTILS_PLATFORM_HPP
 #define PLUTO_UTILS_PLATFORM_HPP
 
+#include <ctime>
+#include <cstddef>
+#include <cstdint>
+
 #ifdef _WIN32
 #include <Windows.h>
 #elif defined(__APPLE__)
-- 
2.43.0


From 71ae0007da93a8a4b9981c44fda73ffb8d31c1e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 04/21] fix: compile container.hpp in C++14

---
 include/pluto/container.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/pluto/container.hpp b/include/pluto/container.hpp
index 6bb714e..401e902 100644
--- a/include/pluto/container.hpp
+++ b/include/pluto/container.hpp
@@ -195,7 +195,7 @@ namespace pluto
         long long           start,
         long long           stop)
     {
-        const auto size{ static_cast<long long>(std::size(container)) };
+        const auto size{ static_cast<long long>(container.size()) };
 
         if (start < 0)          { start += size; if (start < 0) { start = 0; } }
         if (stop < 0)           { stop += size; }
@@ -222,7 +222,11 @@ namespace pluto
     template<class Container>
     PLUTO_UTILS_NODISCARD_CONSTEXPR auto len(const Container& container)
     {
+#if PLUTO_UTILS_HAS_CXX_17
         return std::size(container);
+#else
+        return container.size();
+#endif
     }
 
     template<class Container, class Predicate = pluto::is_true>
-- 
2.43.0


From 17f393924087846d2956ef900058ac15e5c4ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:52 +0000
Subject: [PATCH 05/21] fix: reverse searches accept pointer iterators

---
 include/pluto/iterator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index aa311c0..5fda7f0 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -122,7 +122,7 @@ namespace pluto
 
         auto rit{ pluto::find(rbegin, rend, elem) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
 #if PLUTO_UTILS_HAS_CXX_17
@@ -158,7 +158,7 @@ namespace pluto
 
         auto rit{ pluto::find_if(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Predicate>
@@ -181,7 +181,7 @@ namespace pluto
 
         auto rit{ pluto::find_if_not(rbegin, rend, predicate) };
 
-        return ((rit == rend) ? end : --(rit.base()));
+        return ((rit == rend) ? end : std::prev(rit.base()));
     }
 
     template<class Iterator, class Elem>
-- 
2.43.0


From 725d5d2f0e1003b0f68208c188b4e1bf81093a4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:25 +0000
Subject: [PATCH 06/21] fix: starts_with and ends_with pass (left, right) to
 the predicate in C++20

---
 include/pluto/iterator.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/iterator.hpp b/include/pluto/iterator.hpp
index 5fda7f0..853ab41 100644
--- a/include/pluto/iterator.hpp
+++ b/include/pluto/iterator.hpp
@@ -47,7 +47,8 @@ namespace pluto
 #if PLUTO_UTILS_HAS_CXX_20
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
-            return (((endR - beginR) <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, beginL, predicate));
+            const auto sizeR{ endR - beginR };
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginL, (beginL + sizeR), beginR, predicate));
         }
 #endif
 
@@ -75,7 +76,7 @@ namespace pluto
         if constexpr (std::random_access_iterator<IteratorLeft> && std::random_access_iterator<IteratorRight>)
         {
             const auto sizeR{ endR - beginR };
-            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size(beginR, endR, (endL - sizeR), predicate));
+            return ((sizeR <= (endL - beginL)) && pluto::equals_same_size((endL - sizeR), endL, beginR, predicate));
         }
 #endif
 
-- 
2.43.0


From c5c9fe428eddb0db2cd711638804cbacf0a34c85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:13 +0000
Subject: [PATCH 07/21] fix: slice of containers whose elements convert from
 iterators

---
 include/pluto/container.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/container.hpp b/include/pluto/container.hpp
index 401e902..60ba096 100644
--- a/include/pluto/container.hpp
+++ b/include/pluto/container.hpp
@@ -208,7 +208,7 @@ namespace pluto
         auto stopIt{ startIt };
         std::advance(stopIt, (stop - start));
 
-        return { startIt, stopIt };
+        return Container(startIt, stopIt);
     }
 
     template<class Container>
-- 
2.43.0


From 78117bf1481929f3a29c2594077ab91a64b8d1d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:07:32 +0000
Subject: [PATCH 08/21] fix: copies of lru_cache refer to their own list

---
 include/pluto/lru_cache.hpp | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index 0ed430c..e3e1efd 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -33,6 +33,26 @@ namespace pluto
         inline explicit lru_cache(const std::size_t capacity) :
             m_capacity{ capacity } {}
 
+        lru_cache(const lru_cache& other) :
+            m_capacity{ other.m_capacity },
+            m_list{ other.m_list }
+        {
+            // Items must refer to the list of this cache and not to the list of the other cache
+            for (auto itList{ m_list.begin() }; itList != m_list.end(); ++itList)
+            {
+                m_map.emplace(*itList, std::make_pair(other.m_map.find(*itList)->second.first, itList));
+            }
+        }
+
+        inline lru_cache(lru_cache&&) = default;
+
+        inline lru_cache& operator=(const lru_cache& other)
+        {
+            return *this = lru_cache{ other };
+        }
+
+        inline lru_cache& operator=(lru_cache&&) = default;
+
         PLUTO_UTILS_NODISCARD inline std::size_t size() const
         {
             return m_map.size();
-- 
2.43.0


From dc0e2c29434273ea522fc349a11972482bd11f00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:28 +0000
Subject: [PATCH 09/21] fix: keep the locale of a case-insensitive comparator
 alive as long as its facet is used

---
 include/pluto/compare.hpp | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/include/pluto/compare.hpp b/include/pluto/compare.hpp
index d2dc899..16f1a83 100644
--- a/include/pluto/compare.hpp
+++ b/include/pluto/compare.hpp
@@ -47,10 +47,12 @@ namespace pluto
     template<class Elem>
     struct is_iequal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -61,10 +63,12 @@ namespace pluto
     template<class Elem>
     struct is_not_iequal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_not_iequal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -75,10 +79,12 @@ namespace pluto
     template<class Elem>
     struct is_iless
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -89,10 +95,12 @@ namespace pluto
     template<class Elem>
     struct is_igreater
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -103,10 +111,12 @@ namespace pluto
     template<class Elem>
     struct is_iless_equal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_iless_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
@@ -117,10 +127,12 @@ namespace pluto
     template<class Elem>
     struct is_igreater_equal
     {
+        const std::locale       locale; // Keeps the facet alive
         const std::ctype<Elem>& facet;
 
         inline explicit is_igreater_equal(const std::locale& locale = pluto::default_locale()) :
-            facet{ pluto::use_facet<Elem>(locale) } {}
+            locale  { locale },
+            facet   { pluto::use_facet<Elem>(this->locale) } {}
 
         PLUTO_UTILS_NODISCARD inline bool operator()(const Elem& left, const Elem& right) const
         {
-- 
2.43.0


From 36731078a94a858ab04a30354338836b3761d7a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 10/21] fix: start the thread pool's scheduler with the mutex
 locked

run_at unlocked before assigning m_scheduler, so a scheduler that ran out of
tasks straight away could detach an empty thread object, and two concurrent
calls could both assign one. Either ended in std::terminate.
---
 include/pluto/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index e0a2ac1..d7073f9 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -303,7 +303,7 @@ namespace pluto
 
             if (!m_scheduler.joinable())
             {
-                lock.unlock();
+                // Keep the mutex locked so the scheduler can't detach before it's assigned
                 m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
             }
             else if (time == m_scheduledTasks.begin()->first)
-- 
2.43.0


From 2964c65df45b9ffc14a45d794354584ccdb809df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:12 +0000
Subject: [PATCH 11/21] fix: queue due tasks in time order when one is
 scheduled during the wait

The scheduler queued the task it had started to wait for, even if a task with
an earlier time was scheduled before the wait returned.
---
 include/pluto/thread_pool.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index d7073f9..ef25feb 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -365,9 +365,11 @@ namespace pluto
 
             while (!m_scheduledTasks.empty() && !m_isStopping)
             {
-                const auto begin{ m_scheduledTasks.begin() };
-                if (m_schedulerCondition.wait_until(lock, begin->first) == std::cv_status::timeout)
+                const auto time{ m_scheduledTasks.begin()->first };
+                if (m_schedulerCondition.wait_until(lock, time) == std::cv_status::timeout)
                 {
+                    // An earlier task may have been scheduled while waiting
+                    const auto begin{ m_scheduledTasks.begin() };
                     m_waitingTasks.emplace(begin->second.priority, begin->second.task);
                     m_scheduledTasks.erase(begin);
 
-- 
2.43.0


From ff06fd1b43c789fce2fed5c4c04505bb206498ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 12/21] fix: complete waiting tasks on destruction while
 workers are being reduced

Workers don't leave m_workers once the pool is stopping, so when it was destroyed
before it had shrunk to its target every worker exited and complete_tasks dropped
the waiting tasks.
---
 include/pluto/thread_pool.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index ef25feb..3689032 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -388,8 +388,9 @@ namespace pluto
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            while (m_workers.size() <= m_targetWorkersSize &&
-                (!m_isStopping || (m_onStop == action::complete_tasks && !m_waitingTasks.empty())))
+            while (m_isStopping ?
+                (m_onStop == action::complete_tasks && !m_waitingTasks.empty()) :
+                (m_workers.size() <= m_targetWorkersSize))
             {
                 if (m_waitingTasks.empty())
                 {
-- 
2.43.0


From 21da2dca3128dc1de9e8551dc94f7ecffe5720c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:13 +0000
Subject: [PATCH 13/21] fix: notify completion when the last active worker
 exits

Completion was only notified by a worker about to wait, so a thread in
wait_until_all_tasks_complete never woke up if the target was set to zero while
the last task was running.
---
 include/pluto/thread_pool.hpp | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 3689032..d71fbbb 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -394,11 +394,6 @@ namespace pluto
             {
                 if (m_waitingTasks.empty())
                 {
-                    if (m_activeWorkersSize == 0)
-                    {
-                        m_tasksCompleteCondition.notify_all();
-                    }
-
                     m_workersCondition.wait(lock);
                 }
                 else
@@ -419,6 +414,12 @@ namespace pluto
 
                     lock.lock();
                     --m_activeWorkersSize;
+
+                    // This worker may exit without waiting, so it can't be left until then
+                    if (m_waitingTasks.empty() && m_activeWorkersSize == 0)
+                    {
+                        m_tasksCompleteCondition.notify_all();
+                    }
                 }
             }
 
-- 
2.43.0


From 2b0051f66c0ee326bf4e7e40c7fd30f413f597cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 14/21] fix: logger destructor could hang when stopping just
 before the logging thread waits

---
 include/pluto/logger.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 94100e4..b16d7aa 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -380,7 +380,12 @@ namespace pluto
 
         ~logger()
         {
-            m_isLogging.store(false);
+            {
+                // Lock so the logging thread can't miss this between its check and its wait
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_isLogging.store(false);
+            }
+
             m_loggingCondition.notify_all();
 
             if (m_loggingThread.joinable())
-- 
2.43.0


From 5fcab1d4cc295526c58c74d1ea40ff741af8c525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:14 +0000
Subject: [PATCH 15/21] fix: logs which reach a lowered buffer flush size could
 be left unwritten

---
 include/pluto/logger.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index b16d7aa..8bf8d78 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -559,7 +559,12 @@ namespace pluto
 
         inline logger& buffer_flush_size(const std::size_t bufferFlushSize)
         {
-            m_bufferFlushSize.store(bufferFlushSize);
+            {
+                // Lock so the logging thread can't miss this between its check and its wait
+                const std::unique_lock<std::mutex> lock{ m_loggingMutex };
+                m_bufferFlushSize.store(bufferFlushSize);
+            }
+
             m_loggingCondition.notify_one(); // wake the logging thread
             return *this;
         }
-- 
2.43.0


From 97dcd91e15156e759b88b9ca2bbcda4ba0085cf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:58 +0000
Subject: [PATCH 16/21] fix: writef logged the scheme instead of an empty
 message

---
 include/pluto/logger.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/logger.hpp b/include/pluto/logger.hpp
index 8bf8d78..13c3718 100644
--- a/include/pluto/logger.hpp
+++ b/include/pluto/logger.hpp
@@ -648,7 +648,7 @@ namespace pluto
                 {
                     // Create message from scheme and args
                     auto messageLength{ std::vsnprintf(nullptr, 0, scheme, args) };
-                    if (0 < messageLength)
+                    if (0 <= messageLength)
                     {
                         message.resize(messageLength + 1);
                         if (std::vsnprintf(&message[0], message.size(), scheme, argsCopy) == messageLength)
-- 
2.43.0


From fd3fca2993c236579f24694d0bc5bb8c04ffce5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:10:06 +0000
Subject: [PATCH 17/21] fix: str_to and wstr_to return an indeterminate value
 for a text that is empty or blank

Extraction leaves the value alone when the stream is at its end before a
character is found, so the uninitialised local was returned.
---
 include/pluto/string.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/pluto/string.hpp b/include/pluto/string.hpp
index 39bc912..9d06f2c 100644
--- a/include/pluto/string.hpp
+++ b/include/pluto/string.hpp
@@ -295,7 +295,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value str_to(const std::string& string)
     {
-        Value value;
+        Value value{};
         std::istringstream{ string } >> value;
         return value;
     }
@@ -309,7 +309,7 @@ namespace pluto
     template<class Value>
     PLUTO_UTILS_NODISCARD inline Value wstr_to(const std::wstring& wstring)
     {
-        Value value;
+        Value value{};
         std::wistringstream{ wstring } >> value;
         return value;
     }
-- 
2.43.0


From 8c9ef21940c229b52a007e6c5cf716b6bbffb22e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:18:06 +0000
Subject: [PATCH 18/21] fix: keep lru_cache consistent when copying a key or
 value throws

---
 include/pluto/lru_cache.hpp | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/include/pluto/lru_cache.hpp b/include/pluto/lru_cache.hpp
index e3e1efd..0ece29f 100644
--- a/include/pluto/lru_cache.hpp
+++ b/include/pluto/lru_cache.hpp
@@ -149,7 +149,17 @@ namespace pluto
                     }
 
                     m_list.push_front(key);
-                    m_map.emplace(key, std::make_pair(value, m_list.begin()));
+
+                    try
+                    {
+                        m_map.emplace(key, std::make_pair(value, m_list.begin()));
+                    }
+                    catch (...)
+                    {
+                        // Don't leave a key in the list without an item in the map
+                        m_list.pop_front();
+                        throw;
+                    }
                 }
 
                 result = true;
@@ -170,10 +180,8 @@ namespace pluto
             auto itList{ itMap->second.second };
             if (itList != m_list.begin())
             {
-                m_list.erase(itList);
-                m_list.push_front(itMap->first);
-
-                itMap->second.second = m_list.begin();
+                // Moves the element itself, so iterators stay valid and nothing can throw
+                m_list.splice(m_list.begin(), m_list, itList);
             }
         }
 
-- 
2.43.0


From c7ad1c4d6783ad23baf062a00e60d7b5bb763cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:25 +0000
Subject: [PATCH 19/21] fix: thread_pool terminated the program when one of its
 first workers could not be started

---
 include/pluto/thread_pool.hpp | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index d71fbbb..82cb473 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -115,12 +115,28 @@ namespace pluto
             m_targetWorkersSize { targetWorkersSize },
             m_activeWorkersSize { 0 }
         {
-            const std::unique_lock<std::mutex> lock{ m_mutex };
+            std::unique_lock<std::mutex> lock{ m_mutex };
 
-            while (m_workers.size() < m_targetWorkersSize)
+            try
+            {
+                while (m_workers.size() < m_targetWorkersSize)
+                {
+                    std::thread worker{ &thread_pool::start_working, this };
+                    m_workers.emplace(worker.get_id(), std::move(worker));
+                }
+            }
+            catch (...)
             {
-                std::thread worker{ &thread_pool::start_working, this };
-                m_workers.emplace(worker.get_id(), std::move(worker));
+                // The destructor won't be called, so stop the workers that did start
+                m_isStopping = true;
+                lock.unlock();
+
+                for (auto& workerPair : m_workers)
+                {
+                    workerPair.second.join();
+                }
+
+                throw;
             }
         }
 
-- 
2.43.0


From 13b9f1df4bc0f9244c087d4b0e805fc591b19579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:25 +0000
Subject: [PATCH 20/21] fix: run_at kept and ran a task it had reported a
 failure for

---
 include/pluto/thread_pool.hpp | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 82cb473..7e21232 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -315,12 +315,21 @@ namespace pluto
         {
             std::unique_lock<std::mutex> lock{ m_mutex };
 
-            m_scheduledTasks.emplace(time, task_info{ priority, task });
+            const auto it{ m_scheduledTasks.emplace(time, task_info{ priority, task }) };
 
             if (!m_scheduler.joinable())
             {
-                // Keep the mutex locked so the scheduler can't detach before it's assigned
-                m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
+                try
+                {
+                    // Keep the mutex locked so the scheduler can't detach before it's assigned
+                    m_scheduler = std::thread{ &thread_pool::start_scheduling, this };
+                }
+                catch (...)
+                {
+                    // The caller is told of the failure, so the task can't stay scheduled
+                    m_scheduledTasks.erase(it);
+                    throw;
+                }
             }
             else if (time == m_scheduledTasks.begin()->first)
             {
-- 
2.43.0


From 1547faf1876b4d34fcc105a60f396bb0a4d1e440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:58:25 +0000
Subject: [PATCH 21/21] fix: the scheduler copied tasks, so a task whose copy
 throws terminated the program

---
 include/pluto/thread_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/pluto/thread_pool.hpp b/include/pluto/thread_pool.hpp
index 7e21232..9f7476c 100644
--- a/include/pluto/thread_pool.hpp
+++ b/include/pluto/thread_pool.hpp
@@ -395,7 +395,7 @@ namespace pluto
                 {
                     // An earlier task may have been scheduled while waiting
                     const auto begin{ m_scheduledTasks.begin() };
-                    m_waitingTasks.emplace(begin->second.priority, begin->second.task);
+                    m_waitingTasks.emplace(begin->second.priority, std::move(begin->second.task));
                     m_scheduledTasks.erase(begin);
 
                     // New task from schedule, wake one of the workers
-- 
2.43.0

