From d01295240630d0e730f60471298f3771cece6a8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:04 +0000
Subject: [PATCH 01/54] fix: signal the coordinator with its mutex held so that
 no completion is lost

A worker decremented the pending count and signalled without the mutex that
the coordinator holds while it tests the count and goes to sleep. The signal
could fall between the test and the wait, after which the coordinator slept
for ever.
---
 libman/fcm_coordinator.cpp         |  1 +
 libman/gmeans_coordinator.cpp      |  1 +
 libman/gmm_coordinator.cpp         |  1 +
 libman/hclust_coordinator.cpp      |  1 +
 libman/kmeans_coordinator.cpp      |  1 +
 libman/kmeans_task_coordinator.cpp |  1 +
 libman/medoid_coordinator.cpp      |  1 +
 libman/skmeans_coordinator.cpp     |  1 +
 libman/task_thread.cpp             | 14 ++------------
 libman/thread.cpp                  | 24 ++++++++++++++++++------
 libman/thread.hpp                  | 10 +++++++++-
 libman/xmeans_coordinator.cpp      |  1 +
 12 files changed, 38 insertions(+), 19 deletions(-)

diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index f70859c..d27c5c3 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -65,6 +65,7 @@ void fcm_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, k, fuzzindex, um, centers, fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 1cfc747..276c5dc 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -67,6 +67,7 @@ void gmeans_coordinator::build_thread_state() {
                     _dist_t, cltr_active_vec, partition_dist, nearest_cdist,
                     compute_pdist));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<gmeans>(threads[thd_id])
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index d4662e4..7b44962 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -71,6 +71,7 @@ void gmm_coordinator::build_thread_state() {
         threads.push_back(gmm::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second, ncol, fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<gmm>(threads[thd_id])->set_alg_metadata(
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index f84921d..04e5fae 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -74,6 +74,7 @@ void hclust_coordinator::build_thread_state() {
                     ncol, k, hcltrs, &cluster_assignments[0], fn, _dist_t,
                     cltr_active_vec));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<hclust>(threads[thd_id])
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index 6598064..a5bb5de 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -58,6 +58,7 @@ void kmeans_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 4fdac38..71d8b97 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -72,6 +72,7 @@ void kmeans_task_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<task_thread>(threads[thd_id])
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 710dca7..f8411f8 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -81,6 +81,7 @@ void medoid_coordinator::build_thread_state() {
                     ncol, cltrs, &cluster_assignments[0],
                     fn, sample_rate));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<medoid>(threads[thd_id])->set_coordinator(this);
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 55e869f..302428b 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -58,6 +58,7 @@ void skmeans_coordinator::build_thread_state() {
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0], fn, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
     }
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index 410455e..cf0ff8e 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -99,26 +99,16 @@ void task_thread::lock_sleep() {
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
-    (*parent_pending_threads)--;
     set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    notify_parent();
     rc = pthread_mutex_unlock(&mutex);
     if (rc) perror("pthread_mutex_unlock");
 }
 
 // Assumes caller has lock already ... or else ...
 void task_thread::sleep() {
-    (*parent_pending_threads)--;
     set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        int rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    notify_parent();
 }
 
 void task_thread::wait() {
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 9e2d844..9eaaf18 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -31,18 +31,30 @@
 
 namespace knor {
 
+// The parent tests the count & then waits with its mutex held, so without the
+//  mutex the signal can fall between the two & the parent never wakes up.
+void thread::notify_parent() {
+    if (parent_mutex) {
+        int rc = pthread_mutex_lock(parent_mutex);
+        if (rc) perror("pthread_mutex_lock");
+    }
+
+    if (--(*parent_pending_threads) == 0) {
+        int rc = pthread_cond_signal(parent_cond); // Wake up parent thread
+        if (rc) perror("pthread_cond_signal");
+    }
+
+    if (parent_mutex)
+        pthread_mutex_unlock(parent_mutex);
+}
+
 void thread::sleep() {
     int rc;
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
 
-    (*parent_pending_threads)--;
     set_thread_state(WAIT);
-
-    if (*parent_pending_threads == 0) {
-        rc = pthread_cond_signal(parent_cond); // Wake up parent thread
-        if (rc) perror("pthread_cond_signal");
-    }
+    notify_parent();
     pthread_mutex_unlock(&mutex);
 }
 
diff --git a/libman/thread.hpp b/libman/thread.hpp
index c4e5892..d569e9c 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -101,6 +101,7 @@ protected:
     pthread_mutexattr_t mutex_attr;
 
     pthread_cond_t* parent_cond;
+    pthread_mutex_t* parent_mutex; // Guards the parent's wait on parent_cond
     std::atomic<unsigned>* parent_pending_threads;
 
     metaunion meta;
@@ -121,7 +122,7 @@ protected:
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
         start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
-        preallocd_data(false) {
+        parent_mutex(NULL), preallocd_data(false) {
 
         this->cluster_assignments = cluster_assignments;
         pthread_mutexattr_init(&mutex_attr);
@@ -146,6 +147,9 @@ protected:
         this->state = state;
     }
 
+    // Tell the parent that this thread has completed its work
+    void notify_parent();
+
 public:
     typedef std::shared_ptr<thread> ptr;
 
@@ -233,6 +237,10 @@ public:
         parent_cond = cond;
     }
 
+    void set_parent_mutex(pthread_mutex_t* mutex) {
+        parent_mutex = mutex;
+    }
+
     void set_parent_pending_threads(std::atomic<unsigned>* ppt) {
         parent_pending_threads = ppt;
     }
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 19367fc..e08fcaf 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -63,6 +63,7 @@ void xmeans_coordinator::build_thread_state() {
                     _dist_t, cltr_active_vec, partition_dist, nearest_cdist,
                     compute_pdist));
         threads[thd_id]->set_parent_cond(&cond);
+        threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
         threads[thd_id]->start(WAIT); // Thread puts itself to sleep
         std::static_pointer_cast<xmeans>(threads[thd_id])
-- 
2.43.0


From 5a84bf9beb9d9221c724bd55ff26016bf97868b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 02/54] fix: join the workers before destroying what they use

The coordinator released the workers' memory and destroyed the condition
variable and mutex they signal before telling them to exit, and a worker's
own lock and condition variable were destroyed before it was joined.
---
 libman/coordinator.cpp | 8 ++++++--
 libman/thread.cpp      | 7 +++++--
 2 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/libman/coordinator.cpp b/libman/coordinator.cpp
index d7cfab5..f63db1c 100644
--- a/libman/coordinator.cpp
+++ b/libman/coordinator.cpp
@@ -160,14 +160,18 @@ void coordinator::run_init() {
 }
 
 coordinator::~coordinator() {
+    // Workers use our & their own locks until they've been joined
+    destroy_threads();
+
     thread_iter it = threads.begin();
-    for (; it != threads.end(); ++it)
+    for (; it != threads.end(); ++it) {
+        (*it)->join();
         (*it)->destroy_numa_mem();
+    }
 
     pthread_cond_destroy(&cond);
     pthread_mutex_destroy(&mutex);
     pthread_mutexattr_destroy(&mutex_attr);
-    destroy_threads();
 }
 
 } // End namespace knor
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 9eaaf18..625c949 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -97,6 +97,9 @@ void thread::destroy_numa_mem() {
 }
 
 void thread::join() {
+    if (thd_id == INVALID_THD_ID) // Never started or already joined
+        return;
+
     void* join_status;
     int rc = pthread_join(hw_thd, &join_status);
     if (rc)
@@ -166,6 +169,8 @@ const unsigned thread::get_global_data_id(
 }
 
 thread::~thread() {
+    join();
+
     pthread_cond_destroy(&cond);
     pthread_mutex_destroy(&mutex);
     pthread_mutexattr_destroy(&mutex_attr);
@@ -177,7 +182,5 @@ thread::~thread() {
     printf("Thread %u being destroyed\n", thd_id);
 #endif
 #endif
-    if (thd_id != INVALID_THD_ID)
-        join();
 }
 } // End namespace knor
-- 
2.43.0


From 518fecb4e062829752d7a4c886b36cf1ca723223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 03/54] fix: only release node-local memory that was allocated

A job destroyed before its data was loaded handed an uninitialised pointer
to numa_free.
---
 libman/thread.cpp | 3 ++-
 libman/thread.hpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libman/thread.cpp b/libman/thread.cpp
index 625c949..3f0be25 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -87,12 +87,13 @@ void thread::wake(thread_state_t state) {
 
 
 void thread::destroy_numa_mem() {
-    if (!preallocd_data) {
+    if (!preallocd_data && local_data) {
 #ifdef USE_NUMA
     numa_free(local_data, get_data_size());
 #else
     delete [] local_data;
 #endif
+        local_data = NULL;
     }
 }
 
diff --git a/libman/thread.hpp b/libman/thread.hpp
index d569e9c..63bfaa8 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -121,7 +121,8 @@ protected:
             const std::string fn="",
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
         node_id(node_id), thd_id(thd_id), ncol(ncol),
-        start_rid(start_rid), local_clusters(nullptr), dist_metric(dist_metric),
+        start_rid(start_rid), local_data(NULL), data_size(0),
+        local_clusters(nullptr), dist_metric(dist_metric),
         parent_mutex(NULL), preallocd_data(false) {
 
         this->cluster_assignments = cluster_assignments;
-- 
2.43.0


From 670963b766753d4bffe07ffe4b005666342856f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:36 +0000
Subject: [PATCH 04/54] fix: do not join a worker thread that could not be
 started

When pthread_create fails the exception unwinds through the destructors,
which joined an uninitialised handle.
---
 libman/fcm.cpp                | 4 +++-
 libman/gmeans.cpp             | 4 +++-
 libman/gmm.cpp                | 4 +++-
 libman/hclust.cpp             | 4 +++-
 libman/kmeans_task_thread.cpp | 4 +++-
 libman/kmeans_thread.cpp      | 4 +++-
 libman/medoid.cpp             | 4 +++-
 libman/xmeans.cpp             | 4 +++-
 8 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index f8acfb4..626efc6 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -108,9 +108,11 @@ void fcm::run() {
 void fcm::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<fcm>, this);
-    if (rc)
+    if (rc) {
+        thd_id = INVALID_THD_ID; // There's nothing to join
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    }
 }
 
 fcm::~fcm() {
diff --git a/libman/gmeans.cpp b/libman/gmeans.cpp
index 628bdd7..5338b79 100644
--- a/libman/gmeans.cpp
+++ b/libman/gmeans.cpp
@@ -32,9 +32,11 @@ namespace knor {
 void gmeans::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<gmeans>, this);
-    if (rc)
+    if (rc) {
+        thd_id = INVALID_THD_ID; // There's nothing to join
         throw base::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    }
 }
 
 void gmeans::H_split_step() {
diff --git a/libman/gmm.cpp b/libman/gmm.cpp
index d0755a0..9bdc6e0 100644
--- a/libman/gmm.cpp
+++ b/libman/gmm.cpp
@@ -128,8 +128,10 @@ void gmm::run() {
 void gmm::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<gmm>, this);
-    if (rc)
+    if (rc) {
+        thd_id = INVALID_THD_ID; // There's nothing to join
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    }
 }
 } // End namespace knor
diff --git a/libman/hclust.cpp b/libman/hclust.cpp
index a3a9550..38587bd 100644
--- a/libman/hclust.cpp
+++ b/libman/hclust.cpp
@@ -73,9 +73,11 @@ void hclust::run() {
 void hclust::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<hclust>, this);
-    if (rc)
+    if (rc) {
+        thd_id = INVALID_THD_ID; // There's nothing to join
         throw base::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    }
 }
 
 void hclust::H_EM_step() {
diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index 4c055b2..734e400 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -138,9 +138,11 @@ void kmeans_task_thread::start(const thread_state_t state=WAIT) {
     //printf("Thread %d started ...\n", thd_id);
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<kmeans_task_thread>, this);
-    if (rc)
+    if (rc) {
+        thd_id = INVALID_THD_ID; // There's nothing to join
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    }
 }
 
 void kmeans_task_thread::mb_finalize_centroids(const double* eta) {
diff --git a/libman/kmeans_thread.cpp b/libman/kmeans_thread.cpp
index 0786f74..33915c2 100644
--- a/libman/kmeans_thread.cpp
+++ b/libman/kmeans_thread.cpp
@@ -67,9 +67,11 @@ void kmeans_thread::run() {
 void kmeans_thread::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<kmeans_thread>, this);
-    if (rc)
+    if (rc) {
+        thd_id = INVALID_THD_ID; // There's nothing to join
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    }
 }
 
 void kmeans_thread::EM_step() {
diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index 7d6e34f..3d1b05a 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -72,9 +72,11 @@ void medoid::run() {
 void medoid::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<medoid>, this);
-    if (rc)
+    if (rc) {
+        thd_id = INVALID_THD_ID; // There's nothing to join
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    }
 }
 
 void medoid::EM_step() {
diff --git a/libman/xmeans.cpp b/libman/xmeans.cpp
index 3dd7240..9362a5e 100644
--- a/libman/xmeans.cpp
+++ b/libman/xmeans.cpp
@@ -51,9 +51,11 @@ namespace knor {
 void xmeans::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<xmeans>, this);
-    if (rc)
+    if (rc) {
+        thd_id = INVALID_THD_ID; // There's nothing to join
         throw base::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
+    }
 }
 
 void xmeans::partition_mean() {
-- 
2.43.0


From 17a543d65540fd9c98eb2e6d420e0ed43e03a67b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:05 +0000
Subject: [PATCH 05/54] fix: make a worker's state atomic

A worker tests its state without its lock while the coordinator sets it
under the lock, a data race.
---
 libman/thread.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/thread.hpp b/libman/thread.hpp
index 63bfaa8..017ac5b 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -108,7 +108,7 @@ protected:
     //unsigned num_changed;
 
     FILE* f; // Data file on disk
-    knor::thread_state_t state;
+    std::atomic<knor::thread_state_t> state;
     double* dist_v;
     double cuml_dist;
     bool preallocd_data; // Is our data pre-allocated?
-- 
2.43.0


From 7fdf072455d230fe234d61dbcaf890e7ab586f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:43 +0000
Subject: [PATCH 06/54] hook: task size is adjustable in simulation builds
 (KNOR_SIM)

---
 libman/task_queue.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/libman/task_queue.hpp b/libman/task_queue.hpp
index e471c68..561a0b4 100644
--- a/libman/task_queue.hpp
+++ b/libman/task_queue.hpp
@@ -26,7 +26,12 @@
 
 namespace kbase = knor::base;
 
+#ifdef KNOR_SIM // Simulation: let small data sets be split into many tasks
+extern unsigned knor_sim_min_task_rows;
+#define MIN_TASK_ROWS knor_sim_min_task_rows
+#else
 #define MIN_TASK_ROWS 8192
+#endif
 //#define MIN_TASK_ROWS 2 // TODO: Change
 namespace knor {
 template <typename T>
-- 
2.43.0


From c099a60420ffda4c5abe638449e452aa33e339e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 07/54] fix: keep the first pass's movement of the centroids
 for the pruning bounds

---
 libman/kmeans_task_coordinator.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 71d8b97..dd706df 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -134,6 +134,7 @@ void kmeans_task_coordinator::update_clusters(const bool prune_init) {
 #ifndef BIND
         printf("Clearing because of init ..\n");
 #endif
+        cltrs->set_prev_means(); // The bounds depend on how far they move
         cltrs->clear();
     } else {
         cltrs->set_prev_means();
-- 
2.43.0


From d690db94f62c4c297619f230171d7ca747e876fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:52 +0000
Subject: [PATCH 08/54] fix: keep the first pass's movement of the centroids
 (OpenMP pruned engine)

---
 libauto/min-tri-kmeans.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index ca7abe1..e496cb7 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -320,6 +320,7 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
 #endif
 
     if (prune_init) {
+        cls->set_prev_means(); // The bounds depend on how far they move
         cls->clear();
     } else {
         cls->set_prev_means();
-- 
2.43.0


From 891bf19fcc93ed99f81c945312087edb6d626e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:30 +0000
Subject: [PATCH 09/54] fix: report the iterations that were run, not one more,
 when the limit is reached

---
 libman/fcm_coordinator.cpp         | 3 +++
 libman/kmeans_coordinator.cpp      | 3 +++
 libman/kmeans_task_coordinator.cpp | 3 +++
 libman/medoid_coordinator.cpp      | 3 +++
 libman/skmeans_coordinator.cpp     | 3 +++
 5 files changed, 15 insertions(+)

diff --git a/libman/fcm_coordinator.cpp b/libman/fcm_coordinator.cpp
index d27c5c3..276a2d9 100644
--- a/libman/fcm_coordinator.cpp
+++ b/libman/fcm_coordinator.cpp
@@ -195,6 +195,9 @@ base::cluster_t fcm_coordinator::run(double* allocd_data,
         delete (diff);
         iter++;
     }
+    if (!converged && max_iters > 0)
+        iter = max_iters; // Report only the iterations we ran
+
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index a5bb5de..d53f68b 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -209,6 +209,9 @@ kbase::cluster_t kmeans_coordinator::run(
         }
         iter++;
     }
+    if (!converged && max_iters > 0)
+        iter = max_iters; // Report only the iterations we ran
+
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index dd706df..a65d4f8 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -499,6 +499,9 @@ kbase::cluster_t kmeans_task_coordinator::run(
     if (iter == 0 && _init_t == kbase::init_t::PLUSPLUS)
         tally_assignment_counts();
 
+    if (!converged && max_iters > 0)
+        iter = max_iters; // Report only the iterations we ran
+
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index f8411f8..9e3572b 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -265,6 +265,9 @@ kbase::cluster_t medoid_coordinator::run(
         }
         iter++;
     }
+    if (!converged && max_iters > 0)
+        iter = max_iters; // Report only the iterations we ran
+
 #ifdef PROFILER
     ProfilerStop();
 #endif
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 302428b..5588faa 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -247,6 +247,9 @@ kbase::cluster_t skmeans_coordinator::run(
         }
         iter++;
     }
+    if (!converged && max_iters > 0)
+        iter = max_iters; // Report only the iterations we ran
+
 #ifdef PROFILER
     ProfilerStop();
 #endif
-- 
2.43.0


From 76cb8b583118efda6b43a32e6bb7c564cca4f71e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:41 +0000
Subject: [PATCH 10/54] fix: publish a worker's new state after what it will
 read

---
 libman/kmeans_task_thread.cpp | 3 ++-
 libman/thread.cpp             | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index 734e400..6cb2a56 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -105,7 +105,6 @@ void kmeans_task_thread::wake(thread_state_t state) {
     int rc;
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
-    set_thread_state(state);
 
     if (state == thread_state_t::EM ||
             state == thread_state_t::KMSPP_INIT ||
@@ -128,6 +127,8 @@ void kmeans_task_thread::wake(thread_state_t state) {
         //printf("wake: Thd: %u, Task ==> ", get_thd_id()); curr_task.print();
     }
 
+    // NOTE: Last, because the worker may see it without taking the mutex
+    set_thread_state(state);
     rc = pthread_mutex_unlock(&mutex);
     if (rc) perror("pthread_mutex_unlock");
 
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 3f0be25..13a29e2 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -76,9 +76,10 @@ void thread::wake(thread_state_t state) {
     int rc;
     rc = pthread_mutex_lock(&mutex);
     if (rc) perror("pthread_mutex_lock");
-    set_thread_state(state);
     if (state == thread_state_t::KMSPP_INIT)
         cuml_dist = 0;
+    // NOTE: Last, because the worker may see it without taking the mutex
+    set_thread_state(state);
     rc = pthread_mutex_unlock(&mutex);
     if (rc) perror("pthread_mutex_unlock");
 
-- 
2.43.0


From dbfff39b8f207a2413971b398fbfb798e4338844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:42 +0000
Subject: [PATCH 11/54] fix: spherical k-means finds the maximum of a feature
 with no positive value

---
 libman/skmeans.cpp             | 2 +-
 libman/skmeans_coordinator.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index b87ed79..e782891 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -34,7 +34,7 @@ namespace knor {
                 cluster_assignments, fn, dist_metric) {
 
             min_feature_val.assign(ncol, std::numeric_limits<double>::max());
-            max_feature_val.assign(ncol, std::numeric_limits<double>::min());
+            max_feature_val.assign(ncol, std::numeric_limits<double>::lowest());
         }
 
     // Min & Max of all features
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 5588faa..8ca2e2f 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -65,7 +65,7 @@ void skmeans_coordinator::build_thread_state() {
 }
 
 void skmeans_coordinator::bounds_reduction() {
-    g_feature_max.assign(ncol, std::numeric_limits<double>::min());
+    g_feature_max.assign(ncol, std::numeric_limits<double>::lowest());
     g_feature_min.assign(ncol, std::numeric_limits<double>::max());
 
     for (auto const& th : threads) {
-- 
2.43.0


From 71809d2772f580f86a2a0e2445a2fba3f57361ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:33 +0000
Subject: [PATCH 12/54] fix: cosine distance of the zero vector and
 normalisation of a constant feature

---
 libkcommon/util.hpp | 3 +++
 libman/skmeans.cpp  | 7 ++++---
 2 files changed, 7 insertions(+), 3 deletions(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index e979b2b..c90ad99 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -124,6 +124,9 @@ const double cos_dist(const T* lhs, const T* rhs,
         ldenom += a*a;
         rdenom += b*b;
     }
+
+    if (ldenom == 0 || rdenom == 0)
+        return 1; // The zero vector has no direction
     return  1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom))));
 }
 
diff --git a/libman/skmeans.cpp b/libman/skmeans.cpp
index e782891..40cdd22 100644
--- a/libman/skmeans.cpp
+++ b/libman/skmeans.cpp
@@ -54,9 +54,10 @@ namespace knor {
        // NOTE: Only use AFTER feature_bounds_reduction AND coordinator reduce
         for (unsigned row = 0; row < nprocrows; row++) {
             for (unsigned col = 0; col < ncol; col++) {
-                local_data[row*ncol+col] =
-                    (local_data[row*ncol+col] - min_feature_val[col])/
-                    (max_feature_val[col] - min_feature_val[col]);
+                double range = max_feature_val[col] - min_feature_val[col];
+                local_data[row*ncol+col] -= min_feature_val[col];
+                if (range > 0) // A constant feature has none
+                    local_data[row*ncol+col] /= range;
             }
         }
     }
-- 
2.43.0


From 910599b043161182ee20c4b6128ca67bc53c7329 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:52 +0000
Subject: [PATCH 13/54] fix: cosine distance is never negative

---
 libkcommon/util.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libkcommon/util.hpp b/libkcommon/util.hpp
index c90ad99..6d26fa9 100644
--- a/libkcommon/util.hpp
+++ b/libkcommon/util.hpp
@@ -24,6 +24,7 @@
 #include <math.h>
 #include <sys/time.h>
 
+#include <algorithm>
 #include <vector>
 #include <iostream>
 #include <random>
@@ -127,7 +128,8 @@ const double cos_dist(const T* lhs, const T* rhs,
 
     if (ldenom == 0 || rdenom == 0)
         return 1; // The zero vector has no direction
-    return  1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom))));
+    // Rounding must not make the distance negative
+    return std::max<T>(0, 1 - (numr / ((std::sqrt(ldenom)*std::sqrt(rdenom)))));
 }
 
 #if 0
-- 
2.43.0


From c097870b80ba577442ed620964f50651640db08d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:28 +0000
Subject: [PATCH 14/54] fix: OpenMP engines run the requested number of
 iterations

---
 libauto/kmeans.cpp         | 5 ++++-
 libauto/min-tri-kmeans.cpp | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 576d270..77b7ab6 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -397,7 +397,7 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter++;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         if (iter == 1)
             std::fill(cluster_assignments,
                     (cluster_assignments)+NUM_ROWS,
@@ -432,6 +432,9 @@ kbase::cluster_t compute_kmeans(const double* matrix, double* clusters_ptr,
         iter++;
     }
 
+    if (!converged && MAX_ITERS > 0)
+        iter = MAX_ITERS; // Report only the iterations we ran
+
     gettimeofday(&end, NULL);
 #ifndef BIND
     printf("\n\nAlgorithmic time taken = %.5f sec\n",
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index e496cb7..4fa55fc 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -512,7 +512,7 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
     if (MAX_ITERS > 0)
         iter = 2;
 
-    while (iter < MAX_ITERS) {
+    while (iter <= MAX_ITERS && MAX_ITERS > 0) {
         // Hold cluster assignment counter
 #ifndef BIND
         printf("E-step Iteration %lu "
@@ -558,6 +558,9 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
         iter++;
     }
 
+    if (!converged && MAX_ITERS > 0)
+        iter = MAX_ITERS; // Report only the iterations we ran
+
     gettimeofday(&end, NULL);
 #ifndef BIND
     printf("\n\nAlgorithmic time taken = %.5f sec\n",
-- 
2.43.0


From 5350d521d0391da88b0ff5202681a0ffe3f70c1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:30 +0000
Subject: [PATCH 15/54] fix: k-medoids uses the requested distance

---
 libman/medoid.cpp             | 6 ++++--
 libman/medoid.hpp             | 8 +++++---
 libman/medoid_coordinator.cpp | 2 +-
 3 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index 3d1b05a..c2120a8 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -32,8 +32,10 @@ medoid::medoid(const int node_id, const unsigned thd_id,
         const unsigned start_rid,
         const unsigned nprocrows, const unsigned ncol,
         kbase::clusters::ptr g_clusters, unsigned* cluster_assignments,
-        const std::string fn, const double sample_rate):
-            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn),
+        const std::string fn, const double sample_rate,
+        kbase::dist_t dist_metric):
+            thread(node_id, thd_id, ncol, cluster_assignments, start_rid, fn,
+                    dist_metric),
             g_clusters(g_clusters), nprocrows(nprocrows),
             sample_rate(sample_rate) {
 
diff --git a/libman/medoid.hpp b/libman/medoid.hpp
index f1a66b5..cce1ae7 100644
--- a/libman/medoid.hpp
+++ b/libman/medoid.hpp
@@ -54,7 +54,8 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments,
-                const std::string fn, const double sample_rate);
+                const std::string fn, const double sample_rate,
+                kbase::dist_t dist_metric);
     public:
         static thread::ptr create(
                 const int node_id, const unsigned thd_id,
@@ -62,11 +63,12 @@ class medoid : public thread {
                 const unsigned ncol,
                 std::shared_ptr<kbase::clusters> g_clusters,
                 unsigned* cluster_assignments, const std::string fn,
-                const double sample_rate) {
+                const double sample_rate,
+                kbase::dist_t dist_metric=kbase::dist_t::EUCL) {
             return thread::ptr(
                     new medoid(node_id, thd_id, start_rid,
                         nprocrows, ncol, g_clusters,
-                        cluster_assignments, fn, sample_rate));
+                        cluster_assignments, fn, sample_rate, dist_metric));
         }
 
         void start(const thread_state_t state) override;
diff --git a/libman/medoid_coordinator.cpp b/libman/medoid_coordinator.cpp
index 9e3572b..e32281f 100644
--- a/libman/medoid_coordinator.cpp
+++ b/libman/medoid_coordinator.cpp
@@ -79,7 +79,7 @@ void medoid_coordinator::build_thread_state() {
         threads.push_back(medoid::create((thd_id % nnodes),
                     thd_id, tup.first, tup.second,
                     ncol, cltrs, &cluster_assignments[0],
-                    fn, sample_rate));
+                    fn, sample_rate, _dist_t));
         threads[thd_id]->set_parent_cond(&cond);
         threads[thd_id]->set_parent_mutex(&mutex);
         threads[thd_id]->set_parent_pending_threads(&pending_threads);
-- 
2.43.0


From dac77d037a1c4ca970bb6a39fb147f9f3d17c54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 16/54] fix: leave clusters without members out of a
 hierarchical result

---
 libman/hclust_coordinator.cpp | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 04e5fae..6d71d75 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -419,6 +419,14 @@ void hclust_coordinator::complete_final_centroids() {
             std::vector<double>(c->get_mean_rawptr(1),
                     c->get_mean_rawptr(1) + ncol);
     }
+
+    // A cluster that ended up with no members is not part of the result
+    for (auto it = final_centroids.begin(); it != final_centroids.end();) {
+        if (cluster_assignment_counts[it->first] == 0)
+            it = final_centroids.erase(it);
+        else
+            ++it;
+    }
 }
 
 /**
-- 
2.43.0


From 60d515eb85c4767f221120ff7cc0381faa8e150e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 17/54] fix: g-means handles a cluster whose projection is
 constant

---
 libkcommon/linalg.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index e817b00..b118c92 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -206,7 +206,10 @@ namespace knor { namespace base {
             }
             stddev = std::sqrt(stddev / static_cast<double>(sz));
 
-            assert(stddev);
+            if (stddev == 0) { // Constant: every value is the mean
+                std::fill(v, v+sz, 0);
+                return;
+            }
             // Subtract the mean, then divide by the stddev
             for (size_t i = 0; i < sz; i++) {
                 v[i] = ((v[i] - mean) / stddev);
-- 
2.43.0


From 35a7e63cd4c817e031088be3288011c394e7e29c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:32 +0000
Subject: [PATCH 18/54] fix: grow the flag array when the first flag past its
 end is set

---
 libkcommon/thd_safe_bool_vector.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/thd_safe_bool_vector.cpp b/libkcommon/thd_safe_bool_vector.cpp
index bcce2b7..5d11d9e 100644
--- a/libkcommon/thd_safe_bool_vector.cpp
+++ b/libkcommon/thd_safe_bool_vector.cpp
@@ -52,7 +52,7 @@ void thd_safe_bool_vector::set(const size_t idx, const bool val) {
 }
 
 void thd_safe_bool_vector::check_set(const size_t idx, const bool val) {
-    if (idx > size())
+    if (idx >= size())
         resize(idx+1);
 
     if (val) {
-- 
2.43.0


From a0c793ea9dad9792ddaf4f613a049e29a02a2440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:41 +0000
Subject: [PATCH 19/54] fix: hierarchical engines return no more clusters than
 requested

---
 libman/gmeans_coordinator.cpp | 5 ++---
 libman/hclust_coordinator.cpp | 9 +++++----
 libman/hclust_coordinator.hpp | 5 ++++-
 libman/xmeans_coordinator.cpp | 1 +
 4 files changed, 12 insertions(+), 8 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index 276c5dc..df9d0df 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -50,8 +50,7 @@ void gmeans_coordinator::deactivate(const unsigned id) {
 
 void gmeans_coordinator::activate(const unsigned id) {
     cltr_active_vec->check_set(id, true);
-    if (id > 0)
-        curr_nclust++;
+    curr_nclust++;
 }
 
 void gmeans_coordinator::build_thread_state() {
@@ -152,7 +151,7 @@ void gmeans_coordinator::partition_decision() {
             // We can reuse these children ids
             ider->reclaim_id(lid);
             ider->reclaim_id(rid);
-            curr_nclust -= 2;
+            curr_nclust--; // The parent replaces the two
 
             final_centroids[pid] = std::vector<double>(
                     cltrs->get_mean_rawptr(pid),
diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index 6d71d75..c1ae9b5 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -46,6 +46,7 @@ hclust_coordinator::hclust_coordinator(const std::string fn, const size_t nrow,
 
         cltr_active_vec = base::thd_safe_bool_vector::create(max_nodes, false);
         activate(0);
+        curr_nclust = 0; // The root is not a cluster of the result
 
         if (centers) {
             // There must be at least one
@@ -221,7 +222,7 @@ void hclust_coordinator::inner_init(std::vector<unsigned>& remove_cache) {
         }
 
         if (cluster_assignment_counts[oneid] < min_clust_size
-                || at_cluster_cap()) {
+                || at_cluster_cap(l0_complete ? 0 : 1)) {
             deactivate(oneid);
             final_centroids[oneid] = std::vector<double>(
                     hcltrs[id]->get_mean_rawptr(1),
@@ -280,6 +281,7 @@ void hclust_coordinator::spawn(const unsigned& zeroid,
         hcltrs[zeroid]->set_mean(get_thd_data(cp.l1), 1);
         activate(zero_child_ids.first);
         activate(zero_child_ids.second);
+        curr_nclust--; // The two replace their parent
     }
 
     if (cp.r_splittable()) {
@@ -290,6 +292,7 @@ void hclust_coordinator::spawn(const unsigned& zeroid,
         hcltrs[oneid]->set_mean(get_thd_data(cp.r1), 1);
         activate(one_child_ids.first);
         activate(one_child_ids.second);
+        curr_nclust--;
     }
 }
 
@@ -302,7 +305,6 @@ void hclust_coordinator::init_splits() {
         hcltrs.erase(id); // Delete
         deactivate(id);
         ider->reclaim_id(id);
-        curr_nclust--;
     }
 
     // Update partition ID
@@ -324,8 +326,7 @@ void hclust_coordinator::deactivate(const unsigned id) {
 
 void hclust_coordinator::activate(const unsigned id) {
     cltr_active_vec->set(id, true);
-    if (id > 0)
-        curr_nclust++;
+    curr_nclust++;
 }
 
 const bool hclust_coordinator::is_active(const unsigned id) const {
diff --git a/libman/hclust_coordinator.hpp b/libman/hclust_coordinator.hpp
index 2af46fe..73295d0 100644
--- a/libman/hclust_coordinator.hpp
+++ b/libman/hclust_coordinator.hpp
@@ -143,7 +143,10 @@ class hclust_coordinator : public coordinator {
         virtual const bool steady_state() const;
         virtual void accumulate_cluster_counts();
         virtual void complete_final_centroids();
-        virtual bool at_cluster_cap() { return curr_nclust > k*2; }
+        // \param pending splits decided on, but not yet made
+        virtual bool at_cluster_cap(const size_t pending=0) {
+            return curr_nclust + pending >= k*2;
+        }
         void verify_consistency();
 };
 }
diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index e08fcaf..f8f14c6 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -227,6 +227,7 @@ void xmeans_coordinator::partition_decision() {
             {
                 ider->reclaim_id(score.lid);
                 ider->reclaim_id(score.rid);
+                curr_nclust--; // The parent replaces the two
                 final_centroids[score.pid] = std::vector<double>(
                         cltrs->get_mean_rawptr(score.pid),
                         cltrs->get_mean_rawptr(score.pid) + ncol);
-- 
2.43.0


From cff70723e30b953914f4a99e2d49a8aa2c302df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 20/54] fix: never split a cluster of one row

---
 libman/hclust_coordinator.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libman/hclust_coordinator.cpp b/libman/hclust_coordinator.cpp
index c1ae9b5..d477c23 100644
--- a/libman/hclust_coordinator.cpp
+++ b/libman/hclust_coordinator.cpp
@@ -37,7 +37,8 @@ hclust_coordinator::hclust_coordinator(const std::string fn, const size_t nrow,
         const unsigned min_clust_size) :
     coordinator(fn, nrow, ncol, (base::get_hclust_floor(k)/2), max_iters,
             nnodes, nthreads, centers, it, tolerance, dt),
-    min_clust_size(min_clust_size), curr_nclust(0) {
+    min_clust_size(std::max(min_clust_size, 2U)), // 1 member can't be split
+    curr_nclust(0) {
 
         ui_distribution = std::uniform_int_distribution<unsigned>(0, nrow-1);
 
-- 
2.43.0


From 2bb556b1c1c0cce93b82c5939411e0f9dbe8332f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 21/54] fix: x-means inserts no empty member list from parallel
 loops

---
 libman/xmeans_coordinator.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index f8f14c6..19eb8e5 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -168,6 +168,10 @@ void xmeans_coordinator::compute_bic_scores(
     // TODO: Slow
     // Creates structures to hold cluster membership
     accumulate(cluster_assignments, memb_cltrs);
+    for (auto const& score : bic_scores) { // No insertions when in parallel
+        memb_cltrs[score.lid];
+        memb_cltrs[score.rid];
+    }
 
     // Computes the bic scores for each parent, child combo
 #ifdef _OPENMP
-- 
2.43.0


From 10473075e5716ce3f740c0d9250f5eda9cae3fd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:11 +0000
Subject: [PATCH 22/54] fix: x-means reuses ids in an order that no schedule
 affects

---
 libman/xmeans_coordinator.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 19eb8e5..524a588 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -229,8 +229,6 @@ void xmeans_coordinator::partition_decision() {
 #pragma omp critical
 #endif
             {
-                ider->reclaim_id(score.lid);
-                ider->reclaim_id(score.rid);
                 curr_nclust--; // The parent replaces the two
                 final_centroids[score.pid] = std::vector<double>(
                         cltrs->get_mean_rawptr(score.pid),
@@ -248,6 +246,9 @@ void xmeans_coordinator::partition_decision() {
 
     for (size_t i = 0; i < remove_cache->size(); i++) {
         if (remove_cache->get(i)) {
+            // In order, because the order of the ids affects later splits
+            ider->reclaim_id(bic_scores[i].lid);
+            ider->reclaim_id(bic_scores[i].rid);
             hcltrs.erase(bic_scores[i].pid);
         }
     }
-- 
2.43.0


From 9155d6c180e4086540a566eef3181ff887290a47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:22 +0000
Subject: [PATCH 23/54] fix: x-means and g-means partition means hold no
 earlier partition's rows

---
 libman/xmeans_coordinator.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libman/xmeans_coordinator.cpp b/libman/xmeans_coordinator.cpp
index 524a588..967c48a 100644
--- a/libman/xmeans_coordinator.cpp
+++ b/libman/xmeans_coordinator.cpp
@@ -74,7 +74,7 @@ void xmeans_coordinator::build_thread_state() {
 }
 
 void xmeans_coordinator::combine_partition_means() {
-    cltrs->unfinalize_all();
+    cltrs->clear(); // An id may have been that of another partition before
 
     for (auto const& th : threads) {
         auto thd_lcltrs = th->get_local_clusters();
-- 
2.43.0


From 4e2fd51deef9bcb1788131473a0bb20e8fe38fd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:25 +0000
Subject: [PATCH 24/54] fix: a worker that was constructed but not started is
 not joined

---
 libman/fcm.cpp                | 5 ++---
 libman/gmeans.cpp             | 5 ++---
 libman/gmm.cpp                | 5 ++---
 libman/hclust.cpp             | 5 ++---
 libman/kmeans_task_thread.cpp | 5 ++---
 libman/kmeans_thread.cpp      | 5 ++---
 libman/medoid.cpp             | 5 ++---
 libman/thread.cpp             | 3 ++-
 libman/thread.hpp             | 3 ++-
 libman/xmeans.cpp             | 5 ++---
 10 files changed, 20 insertions(+), 26 deletions(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index 626efc6..19c6e5b 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -108,11 +108,10 @@ void fcm::run() {
 void fcm::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<fcm>, this);
-    if (rc) {
-        thd_id = INVALID_THD_ID; // There's nothing to join
+    if (rc)
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
-    }
+    joinable = true;
 }
 
 fcm::~fcm() {
diff --git a/libman/gmeans.cpp b/libman/gmeans.cpp
index 5338b79..5a9a75c 100644
--- a/libman/gmeans.cpp
+++ b/libman/gmeans.cpp
@@ -32,11 +32,10 @@ namespace knor {
 void gmeans::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<gmeans>, this);
-    if (rc) {
-        thd_id = INVALID_THD_ID; // There's nothing to join
+    if (rc)
         throw base::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
-    }
+    joinable = true;
 }
 
 void gmeans::H_split_step() {
diff --git a/libman/gmm.cpp b/libman/gmm.cpp
index 9bdc6e0..10a7a8f 100644
--- a/libman/gmm.cpp
+++ b/libman/gmm.cpp
@@ -128,10 +128,9 @@ void gmm::run() {
 void gmm::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<gmm>, this);
-    if (rc) {
-        thd_id = INVALID_THD_ID; // There's nothing to join
+    if (rc)
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
-    }
+    joinable = true;
 }
 } // End namespace knor
diff --git a/libman/hclust.cpp b/libman/hclust.cpp
index 38587bd..feb5b2d 100644
--- a/libman/hclust.cpp
+++ b/libman/hclust.cpp
@@ -73,11 +73,10 @@ void hclust::run() {
 void hclust::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<hclust>, this);
-    if (rc) {
-        thd_id = INVALID_THD_ID; // There's nothing to join
+    if (rc)
         throw base::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
-    }
+    joinable = true;
 }
 
 void hclust::H_EM_step() {
diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index 6cb2a56..a551848 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -139,11 +139,10 @@ void kmeans_task_thread::start(const thread_state_t state=WAIT) {
     //printf("Thread %d started ...\n", thd_id);
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<kmeans_task_thread>, this);
-    if (rc) {
-        thd_id = INVALID_THD_ID; // There's nothing to join
+    if (rc)
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
-    }
+    joinable = true;
 }
 
 void kmeans_task_thread::mb_finalize_centroids(const double* eta) {
diff --git a/libman/kmeans_thread.cpp b/libman/kmeans_thread.cpp
index 33915c2..27c413e 100644
--- a/libman/kmeans_thread.cpp
+++ b/libman/kmeans_thread.cpp
@@ -67,11 +67,10 @@ void kmeans_thread::run() {
 void kmeans_thread::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<kmeans_thread>, this);
-    if (rc) {
-        thd_id = INVALID_THD_ID; // There's nothing to join
+    if (rc)
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
-    }
+    joinable = true;
 }
 
 void kmeans_thread::EM_step() {
diff --git a/libman/medoid.cpp b/libman/medoid.cpp
index c2120a8..97339c5 100644
--- a/libman/medoid.cpp
+++ b/libman/medoid.cpp
@@ -74,11 +74,10 @@ void medoid::run() {
 void medoid::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<medoid>, this);
-    if (rc) {
-        thd_id = INVALID_THD_ID; // There's nothing to join
+    if (rc)
         throw kbase::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
-    }
+    joinable = true;
 }
 
 void medoid::EM_step() {
diff --git a/libman/thread.cpp b/libman/thread.cpp
index 13a29e2..340bb97 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -99,7 +99,7 @@ void thread::destroy_numa_mem() {
 }
 
 void thread::join() {
-    if (thd_id == INVALID_THD_ID) // Never started or already joined
+    if (!joinable) // Never started or already joined
         return;
 
     void* join_status;
@@ -107,6 +107,7 @@ void thread::join() {
     if (rc)
         throw base::thread_exception("pthread_join()", rc);
 
+    joinable = false;
     thd_id = INVALID_THD_ID;
 }
 
diff --git a/libman/thread.hpp b/libman/thread.hpp
index 017ac5b..8a842ef 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -86,6 +86,7 @@ void* callback(void* arg) {
 class thread {
 protected:
     pthread_t hw_thd;
+    bool joinable; // Is hw_thd started & not yet joined?
     const unsigned node_id; // Which NUMA node are you on?
     int thd_id;
     const size_t ncol; // How many columns in the data
@@ -120,7 +121,7 @@ protected:
             unsigned* cluster_assignments, const unsigned start_rid,
             const std::string fn="",
             kbase::dist_t dist_metric=kbase::dist_t::EUCL) :
-        node_id(node_id), thd_id(thd_id), ncol(ncol),
+        joinable(false), node_id(node_id), thd_id(thd_id), ncol(ncol),
         start_rid(start_rid), local_data(NULL), data_size(0),
         local_clusters(nullptr), dist_metric(dist_metric),
         parent_mutex(NULL), preallocd_data(false) {
diff --git a/libman/xmeans.cpp b/libman/xmeans.cpp
index 9362a5e..4e9d0b8 100644
--- a/libman/xmeans.cpp
+++ b/libman/xmeans.cpp
@@ -51,11 +51,10 @@ namespace knor {
 void xmeans::start(const thread_state_t state=WAIT) {
     this->state = state;
     int rc = pthread_create(&hw_thd, NULL, callback<xmeans>, this);
-    if (rc) {
-        thd_id = INVALID_THD_ID; // There's nothing to join
+    if (rc)
         throw base::thread_exception(
                 "Thread creation (pthread_create) failed!", rc);
-    }
+    joinable = true;
 }
 
 void xmeans::partition_mean() {
-- 
2.43.0


From b14d8b855955b2923b1f3d8c5c52c19d3df2136d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:45 +0000
Subject: [PATCH 25/54] fix: check the node-local allocation and the seek when
 loading data

---
 libman/thread.cpp | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/libman/thread.cpp b/libman/thread.cpp
index 340bb97..09c20a7 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -17,6 +17,7 @@
  * limitations under the License.
  */
 
+#include <cerrno>
 #ifdef USE_NUMA
 #include <numa.h>
 #endif
@@ -134,13 +135,14 @@ void thread::numa_alloc_mem() {
 #else
     local_data = new double [blob_size/sizeof(double)];
 #endif
-    fseek(f, start_rid*ncol*sizeof(double), SEEK_SET); // start position
-#ifdef NDEBUG
-    size_t nread = fread(local_data, blob_size, 1, f);
-    nread = nread + 1 - 1; // Silence compiler warning
-#else
-    assert(fread(local_data, blob_size, 1, f) == 1);
-#endif
+    if (!local_data)
+        throw base::thread_exception("Node-local allocation failed!", ENOMEM);
+
+    // start position
+    if (fseek(f, start_rid*ncol*sizeof(double), SEEK_SET))
+        throw base::io_exception("fseek() failed!", errno);
+    if (fread(local_data, blob_size, 1, f) != 1)
+        throw base::io_exception("Data file has too few rows!");
     close_file_handle();
 }
 
-- 
2.43.0


From 311b484726327330f0075f8b435cc0ad50bf6c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:53 +0000
Subject: [PATCH 26/54] fix: check that the number of processes and the rank
 could be determined

A failing MPI_Comm_size or MPI_Comm_rank left both members uninitialised and
the coordinator partitioned the data with them (division by zero, or rows of
another process).
---
 libdist/dist_coordinator.cpp      | 6 ++++--
 libdist/dist_task_coordinator.cpp | 6 ++++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index 810399b..7561c44 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -58,8 +58,10 @@ const size_t dist_coordinator::init(int argc, char* argv[],
     if (MPI_Init(&argc, &argv) != MPI_SUCCESS)
         throw std::runtime_error("MPI_Init error\n");
 
-    MPI_Comm_size(MPI_COMM_WORLD, &nprocs); // Set the num_procs
-    MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
+    if (MPI_Comm_size(MPI_COMM_WORLD, &nprocs) != MPI_SUCCESS) // Set num_procs
+        throw std::runtime_error("MPI_Comm_size error\n");
+    if (MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank) != MPI_SUCCESS)
+        throw std::runtime_error("MPI_Comm_rank error\n");
 
     if (mpi_rank == (nprocs - 1)) // The last proc always has more
         return (g_nrow / nprocs) + (g_nrow % nprocs);
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index 8876560..cd320b8 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -58,8 +58,10 @@ const size_t dist_task_coordinator::init(int argc, char* argv[],
     if (MPI_Init(&argc, &argv) != MPI_SUCCESS)
         throw std::runtime_error("MPI_Init error\n");
 
-    MPI_Comm_size(MPI_COMM_WORLD, &nprocs); // Set the num_procs
-    MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank);
+    if (MPI_Comm_size(MPI_COMM_WORLD, &nprocs) != MPI_SUCCESS) // Set num_procs
+        throw std::runtime_error("MPI_Comm_size error\n");
+    if (MPI_Comm_rank(MPI_COMM_WORLD, &mpi_rank) != MPI_SUCCESS)
+        throw std::runtime_error("MPI_Comm_rank error\n");
 
     if (mpi_rank == (nprocs - 1)) // The last proc always has more
         return (g_nrow / nprocs) + (g_nrow % nprocs);
-- 
2.43.0


From 1759b820a3e4a1bad42572df915075f1b6dbb0fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:25 +0000
Subject: [PATCH 27/54] fix: report a failure to write the output file

cluster_t::write ignored a failing open, write or close and the programs
reported success with a missing or truncated result.
---
 libkcommon/types.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/libkcommon/types.cpp b/libkcommon/types.cpp
index ad2e52e..4abe70f 100644
--- a/libkcommon/types.cpp
+++ b/libkcommon/types.cpp
@@ -121,7 +121,8 @@ const void cluster_t::write(const std::string dirname) const {
     printf("Opening '%s' \n", fn.c_str());
 #endif
     std::ofstream f(fn, std::ios::out);
-    //assert_msg(f.is_open(), "Error opening file for writing!");
+    if (!f.is_open())
+        throw io_exception("Error opening '" + fn + "' for writing!");
     f << "k: " << k << std::endl;
     f << "niter: " << iters << std::endl;
     f << "nsamples: " << nrow << std::endl;
@@ -166,6 +167,8 @@ const void cluster_t::write(const std::string dirname) const {
 
     f << "]\n";
     f.close();
+    if (!f) // A write or the close failed, so the file is incomplete
+        throw io_exception("Error writing '" + fn + "'!");
 }
 
 bool cluster_t::operator==(const cluster_t& other) {
-- 
2.43.0


From 8a808c6014ac9715a6a6713f1856fc98afebe359 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:53 +0000
Subject: [PATCH 28/54] fix: release the tasks of the pruned engine's workers

Every wake up of a worker abandoned the task of the previous step and the
last one was never released.
---
 libman/kmeans_task_thread.cpp | 1 +
 libman/task_thread.cpp        | 4 +++-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/libman/kmeans_task_thread.cpp b/libman/kmeans_task_thread.cpp
index a551848..e5ff695 100644
--- a/libman/kmeans_task_thread.cpp
+++ b/libman/kmeans_task_thread.cpp
@@ -111,6 +111,7 @@ void kmeans_task_thread::wake(thread_state_t state) {
             state == thread_state_t::MB_EM) {
         // Threads only sleep if they AND all other threads have no tasks
         tasks->reset(); // NOTE: Only place this is reset
+        delete curr_task; // The last one of the previous step
         curr_task = tasks->get_task();
         assert(curr_task->get_nrow() <= tasks->get_nrow());
 
diff --git a/libman/task_thread.cpp b/libman/task_thread.cpp
index cf0ff8e..1b79d02 100644
--- a/libman/task_thread.cpp
+++ b/libman/task_thread.cpp
@@ -36,7 +36,8 @@ task_thread::task_thread(const int node_id, const unsigned thd_id,
         const std::string fn, kbase::dist_t dist_metric):
             thread(node_id, thd_id, ncol,
             cluster_assignments, start_rid, fn, dist_metric),
-        g_clusters(g_clusters), prune_init(true), _is_numa(false) {
+        g_clusters(g_clusters), curr_task(NULL),
+        prune_init(true), _is_numa(false) {
 
                 ur_distribution =
                     std::uniform_real_distribution<double>(0.0, 1.0);
@@ -130,6 +131,7 @@ const unsigned task_thread::get_global_data_id(const unsigned row_id) const {
 }
 
 task_thread::~task_thread() {
+  delete curr_task;
   delete tasks;
 }
 } } // End namespace knor, prune
-- 
2.43.0


From cbd0be7167acff12f445b278e1a67f260dc8bd70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:41:51 +0000
Subject: [PATCH 29/54] fix: read the given centroids even when probing for
 their file fails the second time

---
 exec/fcm.cpp      | 2 +-
 exec/gmeans.cpp   | 2 +-
 exec/gmm.cpp      | 2 +-
 exec/hmeans.cpp   | 2 +-
 exec/knord.cpp    | 2 +-
 exec/knori.cpp    | 2 +-
 exec/mb_knori.cpp | 2 +-
 exec/skmeans.cpp  | 2 +-
 exec/xmeans.cpp   | 2 +-
 9 files changed, 9 insertions(+), 9 deletions(-)

diff --git a/exec/fcm.cpp b/exec/fcm.cpp
index f2c3f6d..69feb53 100644
--- a/exec/fcm.cpp
+++ b/exec/fcm.cpp
@@ -116,7 +116,7 @@ int main(int argc, char* argv[]) {
 
     std::vector<double> centers;
 
-    if (kbase::is_file_exist(centersfn.c_str())) {
+    if (!centersfn.empty()) {
         centers.resize(k*ncol);
         kbase::bin_io<double> br2(centersfn, k, ncol);
         br2.read(&centers[0]);
diff --git a/exec/gmeans.cpp b/exec/gmeans.cpp
index fae6731..a47c727 100644
--- a/exec/gmeans.cpp
+++ b/exec/gmeans.cpp
@@ -119,7 +119,7 @@ int main(int argc, char* argv[]) {
 
     std::vector<double> centers;
 
-    if (kbase::is_file_exist(centersfn.c_str())) {
+    if (!centersfn.empty()) {
         centers.resize(2*ncol);
         kbase::bin_io<double> br(centersfn, 2, ncol);
         br.read(&centers[0]);
diff --git a/exec/gmm.cpp b/exec/gmm.cpp
index c715de6..4e143cf 100644
--- a/exec/gmm.cpp
+++ b/exec/gmm.cpp
@@ -120,7 +120,7 @@ int main(int argc, char* argv[]) {
         double* p_centers = NULL;
         kbase::gmm_t ret;
 
-        if (kbase::is_file_exist(centersfn.c_str())) {
+        if (!centersfn.empty()) {
             p_centers = new double [k*ncol];
             kbase::bin_io<double> br2(centersfn, k, ncol);
             br2.read(p_centers);
diff --git a/exec/hmeans.cpp b/exec/hmeans.cpp
index e743eed..aac2289 100644
--- a/exec/hmeans.cpp
+++ b/exec/hmeans.cpp
@@ -116,7 +116,7 @@ int main(int argc, char* argv[]) {
 
     std::vector<double> centers;
 
-    if (kbase::is_file_exist(centersfn.c_str())) {
+    if (!centersfn.empty()) {
         centers.resize(2*ncol);
         kbase::bin_io<double> br(centersfn, 2, ncol);
         br.read(&centers[0]);
diff --git a/exec/knord.cpp b/exec/knord.cpp
index 127becc..7eb5b7a 100644
--- a/exec/knord.cpp
+++ b/exec/knord.cpp
@@ -117,7 +117,7 @@ int main(int argc, char* argv[]) {
 
     double* p_centers = NULL;
 
-    if (kbase::is_file_exist(centersfn.c_str())) {
+    if (!centersfn.empty()) {
         p_centers = new double [k*ncol];
         kbase::bin_io<double> br2(centersfn, k, ncol);
         br2.read(p_centers);
diff --git a/exec/knori.cpp b/exec/knori.cpp
index 4cc4510..b30def8 100644
--- a/exec/knori.cpp
+++ b/exec/knori.cpp
@@ -136,7 +136,7 @@ int main(int argc, char* argv[])
     double* p_centers = NULL;
     kbase::cluster_t ret;
 
-    if (kbase::is_file_exist(centersfn.c_str())) {
+    if (!centersfn.empty()) {
         p_centers = new double [k*ncol];
         kbase::bin_io<double> br2(centersfn, k, ncol);
         br2.read(p_centers);
diff --git a/exec/mb_knori.cpp b/exec/mb_knori.cpp
index 2809b07..a20eec6 100644
--- a/exec/mb_knori.cpp
+++ b/exec/mb_knori.cpp
@@ -123,7 +123,7 @@ int main(int argc, char* argv[]) {
 
         double* p_centers = NULL;
 
-        if (kbase::is_file_exist(centersfn.c_str())) {
+        if (!centersfn.empty()) {
             p_centers = new double [k*ncol];
             kbase::bin_io<double> br2(centersfn, k, ncol);
             br2.read(p_centers);
diff --git a/exec/skmeans.cpp b/exec/skmeans.cpp
index 3c80fd6..25ac6b6 100644
--- a/exec/skmeans.cpp
+++ b/exec/skmeans.cpp
@@ -114,7 +114,7 @@ int main(int argc, char* argv[]) {
     std::vector<double> centers;
     kbase::cluster_t ret;
 
-    if (kbase::is_file_exist(centersfn.c_str())) {
+    if (!centersfn.empty()) {
         centers.resize(k*ncol);
         kbase::bin_io<double> br2(centersfn, k, ncol);
         br2.read(&centers[0]);
diff --git a/exec/xmeans.cpp b/exec/xmeans.cpp
index 3daad19..813ff38 100644
--- a/exec/xmeans.cpp
+++ b/exec/xmeans.cpp
@@ -116,7 +116,7 @@ int main(int argc, char* argv[]) {
 
     std::vector<double> centers;
 
-    if (kbase::is_file_exist(centersfn.c_str())) {
+    if (!centersfn.empty()) {
         centers.resize(2*ncol);
         kbase::bin_io<double> br(centersfn, 2, ncol);
         br.read(&centers[0]);
-- 
2.43.0


From cb60939154b17f12e1325a6da548e132f7a5063f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:17 +0000
Subject: [PATCH 30/54] fix: release node-local copies of redistributed rows,
 never the caller's memory

---
 libman/thread.cpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libman/thread.cpp b/libman/thread.cpp
index 09c20a7..95b25b4 100644
--- a/libman/thread.cpp
+++ b/libman/thread.cpp
@@ -147,6 +147,9 @@ void thread::numa_alloc_mem() {
 }
 
 void thread::set_local_data_ptr(double* data, bool offset) {
+    destroy_numa_mem(); // Whatever we held before
+    // NOTE: Without an offset the data are our own node-local copy
+    preallocd_data = offset;
     if (offset)
         local_data = &(data[start_rid*ncol]); // Grab your offset
     else
-- 
2.43.0


From 00b2c49a1ec4067b13aeefaf382c5904f53259e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:15:35 +0000
Subject: [PATCH 31/54] fix: integer options made of characters that are no
 digits of their base, or too large for their type, were accepted as some
 other number

---
 libkcommon/cxxopts/cxxopts.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/libkcommon/cxxopts/cxxopts.hpp b/libkcommon/cxxopts/cxxopts.hpp
index 00b82a9..e9a1363 100644
--- a/libkcommon/cxxopts/cxxopts.hpp
+++ b/libkcommon/cxxopts/cxxopts.hpp
@@ -508,8 +508,12 @@ namespace cxxopts
         {
           digit = *iter - 'A' + 10;
         }
+        else
+        {
+          throw argument_incorrect_type(text);
+        }
 
-        if (umax - digit < result * base)
+        if (digit >= base || (umax - digit) / base < result)
         {
           throw argument_incorrect_type(text);
         }
-- 
2.43.0


From 8f7cc1ced35e793c84933ce11447f419954cc41e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 32/54] fix: text_reader wrote past the caller's vector when a
 line or file holds more numbers than it has room for

---
 libkcommon/io.hpp | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/libkcommon/io.hpp b/libkcommon/io.hpp
index 8d1b3d8..e5f957d 100644
--- a/libkcommon/io.hpp
+++ b/libkcommon/io.hpp
@@ -173,6 +173,20 @@ public:
 
 template <typename T>
 class text_reader : public reader<T> {
+private:
+    // Append the numbers of one line to `data` from position `pos`
+    void parse(const std::string& line, std::vector<T>& data, size_t& pos) {
+        T number;
+        std::stringstream ss(line);
+
+        while (ss >> number) {
+            if (pos == data.size())
+                throw io_exception("more values in '" + this->get_fn() +
+                        "' than the caller has room for");
+            data[pos++] = number;
+        }
+    }
+
 public:
     text_reader(const std::string fn) : reader<T>(fn) {
         this->open();
@@ -184,12 +198,7 @@ public:
         std::string line;
         size_t pos = 0;
         while (std::getline(this->f, line)) {
-            T number;
-            std::stringstream ss(line);
-
-            while (ss >> number)
-                data[pos++] = number;
-
+            parse(line, data, pos);
             this->nrow++;
         }
     }
@@ -204,12 +213,7 @@ public:
         std::string line;
         size_t pos = 0;
         if (std::getline(this->f, line)) {
-            T number;
-            std::stringstream ss(line);
-
-            while (ss >> number)
-                data[pos++] = number;
-
+            parse(line, data, pos);
             this->nrow++;
             return true;
         }
-- 
2.43.0


From 5b2cab90cf0a80461b7aaaace905080ee508e6ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 33/54] fix: text_reader dropped the rest of a line after
 something that is not a number

---
 libkcommon/io.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libkcommon/io.hpp b/libkcommon/io.hpp
index e5f957d..0f948b3 100644
--- a/libkcommon/io.hpp
+++ b/libkcommon/io.hpp
@@ -185,6 +185,9 @@ private:
                         "' than the caller has room for");
             data[pos++] = number;
         }
+
+        if (!ss.eof())
+            throw io_exception("not a number in '" + this->get_fn() + "'");
     }
 
 public:
-- 
2.43.0


From 023187b5c899dc9773b280ea071da2f076f18dd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 34/54] fix: a disk error met by text_reader or bin_rm_reader
 was taken for the end of the file

---
 libkcommon/io.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/libkcommon/io.hpp b/libkcommon/io.hpp
index 0f948b3..496cfe2 100644
--- a/libkcommon/io.hpp
+++ b/libkcommon/io.hpp
@@ -142,6 +142,12 @@ public:
     virtual bool readline(std::vector<T>& data) = 0;
     virtual void open() = 0;
 
+    // A failing disk is not the end of the file
+    void check_error() const {
+        if (f.bad())
+            throw io_exception("error reading '" + fn + "'");
+    }
+
     const std::string get_fn() const {
         return this->fn;
     }
@@ -204,6 +210,7 @@ public:
             parse(line, data, pos);
             this->nrow++;
         }
+        this->check_error();
     }
 
     void open() override {
@@ -220,6 +227,7 @@ public:
             this->nrow++;
             return true;
         }
+        this->check_error();
         return false;
     }
 };
@@ -248,6 +256,7 @@ public:
                 this->nrow++;
                 return true;
             }
+            this->check_error();
         } else {
 #ifndef BIND
             std::cout << "ncol: " << this->ncol << "\n";
-- 
2.43.0


From ab7844b4fd4c1a98035e96e72d006c3d4eb3bc36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 35/54] fix: bin_rm_reader::read returned as if complete when
 the file is too short or cannot be read

---
 libkcommon/io.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/libkcommon/io.hpp b/libkcommon/io.hpp
index 496cfe2..db5cc8d 100644
--- a/libkcommon/io.hpp
+++ b/libkcommon/io.hpp
@@ -245,8 +245,11 @@ public:
 
     void read(std::vector<T>& data) override {
         assert(data.size() > 0);
-        this->f.read(reinterpret_cast<char*>(data.data()),
-                data.size()*sizeof(T));
+        if (!this->f.read(reinterpret_cast<char*>(data.data()),
+                data.size()*sizeof(T)))
+            throw io_exception("cannot read " +
+                    std::to_string(data.size()) + " values from '" +
+                    this->get_fn() + "'");
     }
 
     bool readline(std::vector<T>& data) override {
-- 
2.43.0


From 030c5e3b870cec00161a8f850bd9e623d462efe9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 36/54] fix: bin_io::write did not report values lost when the
 buffered data is written out

---
 libkcommon/io.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/libkcommon/io.hpp b/libkcommon/io.hpp
index db5cc8d..42377ed 100644
--- a/libkcommon/io.hpp
+++ b/libkcommon/io.hpp
@@ -364,6 +364,9 @@ class bin_io {
 #else
             assert(fwrite(data, sizeof(T)*numel, 1, f) == 1);
 #endif
+            // The destructor cannot report what fails to reach the file
+            if (fflush(f))
+                throw io_exception("cannot write to the file");
         }
 
         void write(const std::vector<T>& data, const size_t numel) {
-- 
2.43.0


From 403d3407cde73f32dbd2723d887d7cb961aa3133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:09 +0000
Subject: [PATCH 37/54] fix: store_cluster did not report data lost when the
 file is closed

---
 libkcommon/io.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/io.cpp b/libkcommon/io.cpp
index 43c5750..aa5a995 100644
--- a/libkcommon/io.cpp
+++ b/libkcommon/io.cpp
@@ -53,6 +53,7 @@ void store_cluster(const unsigned id, const double* data,
         }
     }
     assert(count == numel);
-    fclose(f);
+    if (fclose(f))
+        throw io_exception("cannot write '" + fn + "'");
 }
 } } // End namespace knor, base
\ No newline at end of file
-- 
2.43.0


From f2a567c081f531800e53968a770d6c18cbbdbf73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 38/54] fix: without asserts (RELEASE) bin_io took missing,
 short and failing files for complete ones

---
 libkcommon/io.hpp | 47 ++++++++++++++---------------------------------
 1 file changed, 14 insertions(+), 33 deletions(-)

diff --git a/libkcommon/io.hpp b/libkcommon/io.hpp
index 42377ed..092cd52 100644
--- a/libkcommon/io.hpp
+++ b/libkcommon/io.hpp
@@ -283,6 +283,13 @@ class bin_io {
         FILE* f;
         size_t nrow, ncol;
 
+        // NOTE: Must not vanish with the asserts of a release build
+        static void check(const bool ok) {
+            assert(ok);
+            if (!ok)
+                throw io_exception("binary file operation failed!");
+        }
+
         void cat(const T* arr) {
 #ifndef BIND
             std::cout << "[ ";
@@ -296,7 +303,7 @@ class bin_io {
     public:
         bin_io(const std::string fn, const std::string mode) {
             f = fopen(fn.c_str(), mode.c_str());
-            assert(NULL != f);
+            check(NULL != f);
         }
 
         bin_io(const std::string fn, const size_t nrow,
@@ -310,11 +317,7 @@ class bin_io {
         void read_cat() {
             T arr [ncol];
             for (size_t i = 0; i < nrow; i++) {
-#ifdef NDEBUG
-                fread(&arr[0], sizeof(T)*ncol, 1, f);
-#else
-                assert(fread(&arr[0], sizeof(T)*ncol, 1, f) == 1);
-#endif
+                check(fread(&arr[0], sizeof(T)*ncol, 1, f) == 1);
                 cat(arr);
             }
         }
@@ -322,48 +325,26 @@ class bin_io {
         std::vector<T> readline() {
             std::vector<T> v;
             v.resize(ncol);
-#ifdef NDEBUG
-            fread(&v[0], sizeof(T)*ncol, 1, f);
-#else
-            assert(fread(&v[0], sizeof(T)*ncol, 1, f) == 1);
-#endif
+            check(fread(&v[0], sizeof(T)*ncol, 1, f) == 1);
             return v;
         }
 
         void readline(T* v) {
-#ifdef NDEBUG
-            fread(&v[0], sizeof(T)*ncol, 1, f);
-#else
-            assert(fread(&v[0], sizeof(T)*ncol, 1, f) == 1);
-#endif
+            check(fread(&v[0], sizeof(T)*ncol, 1, f) == 1);
         }
 
         // Read all the data!
         void read(std::vector<T>* v) {
-#ifdef NDEBUG
-            size_t nbytes = fread(&((*v)[0]), sizeof(T)*ncol*nrow, 1, f);
-            if (nbytes != 1)
-                throw io_exception("nbytes of input incorrect!");
-#else
-            assert(fread(&((*v)[0]), sizeof(T)*ncol*nrow, 1, f) == 1);
-#endif
+            check(fread(&((*v)[0]), sizeof(T)*ncol*nrow, 1, f) == 1);
         }
 
         // Read all the data!
         void read(T* v) {
-#ifdef NDEBUG
-            fread(&v[0], sizeof(T)*ncol*nrow, 1, f);
-#else
-            assert(fread(&v[0], sizeof(T)*ncol*nrow, 1, f) == 1);
-#endif
+            check(fread(&v[0], sizeof(T)*ncol*nrow, 1, f) == 1);
         }
 
         void write(const T* data, const size_t numel) {
-#ifdef NDEBUG
-            fwrite(data, sizeof(T)*numel, 1, f);
-#else
-            assert(fwrite(data, sizeof(T)*numel, 1, f) == 1);
-#endif
+            check(fwrite(data, sizeof(T)*numel, 1, f) == 1);
             // The destructor cannot report what fails to reach the file
             if (fflush(f))
                 throw io_exception("cannot write to the file");
-- 
2.43.0


From 66fbf1f6c52239a8e2995017c826e0a5319a6e0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 39/54] fix: without asserts (RELEASE) store_cluster did not
 report a file it could not open or write

---
 libkcommon/io.cpp | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/libkcommon/io.cpp b/libkcommon/io.cpp
index aa5a995..5cc76e7 100644
--- a/libkcommon/io.cpp
+++ b/libkcommon/io.cpp
@@ -32,7 +32,8 @@ void store_cluster(const unsigned id, const double* data,
     std::string fn = dir+"cluster_"+std::to_string(id)+
         "_r"+std::to_string(numel)+"_c"+std::to_string(ncol)+".bin";
     f = fopen(fn.c_str(), "wb");
-    assert(f);
+    if (!f)
+        throw io_exception("cannot open '" + fn + "'");
 #ifndef BIND
     std::cout << "[Warning]: Writing cluster file '" <<
         fn << "'\n";
@@ -42,13 +43,10 @@ void store_cluster(const unsigned id, const double* data,
     for(unsigned i = 0; i < nrow; i++) {
         if (count == numel) { break; }
         if (cluster_assignments[i] == id) {
-#ifdef NDEBUG
-            fwrite(&data[i*ncol],
-                        (ncol*sizeof(double)), 1, f);
-#else
-           assert(fwrite(&data[i*ncol],
-                        (ncol*sizeof(double)), 1, f));
-#endif
+            if (fwrite(&data[i*ncol], (ncol*sizeof(double)), 1, f) != 1) {
+                fclose(f);
+                throw io_exception("cannot write '" + fn + "'");
+            }
             count++;
         }
     }
-- 
2.43.0


From e96b73b321e02613b43a1a754185e10b96a3a7f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 40/54] fix: without asserts (RELEASE) text_reader and
 bin_rm_reader took a missing file for an empty one

---
 libkcommon/io.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/libkcommon/io.hpp b/libkcommon/io.hpp
index 092cd52..541c648 100644
--- a/libkcommon/io.hpp
+++ b/libkcommon/io.hpp
@@ -215,7 +215,8 @@ public:
 
     void open() override {
         this->f.open(this->get_fn(), std::ios::in);
-        assert(this->f.good());
+        if (!this->f.good())
+            throw io_exception("cannot open '" + this->get_fn() + "'");
     }
 
     bool readline(std::vector<T>& data) override {
@@ -272,7 +273,8 @@ public:
 
     void open() override {
         this->f.open(this->get_fn(), std::ios::in | std::ios::binary);
-        assert(this->f.good());
+        if (!this->f.good())
+            throw io_exception("cannot open '" + this->get_fn() + "'");
     }
 };
 
-- 
2.43.0


From d2d0084a06f5a8a273bc7dc32bb6e71cf25434b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 41/54] fix: without asserts (RELEASE) a data file that cannot
 be opened crashed the worker threads

---
 libman/thread.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libman/thread.hpp b/libman/thread.hpp
index 8a842ef..97d8fb5 100644
--- a/libman/thread.hpp
+++ b/libman/thread.hpp
@@ -134,7 +134,8 @@ protected:
 
         if (!fn.empty()) {
             this->f = fopen(fn.c_str(), "rb");
-            assert(this->f);
+            if (!this->f)
+                throw base::io_exception("cannot open '" + fn + "'");
         }
         else {
             this->f = NULL;
-- 
2.43.0


From a7300dbff1258e6198e6a0bf42f9e29a5c0b1fa9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:15 +0000
Subject: [PATCH 42/54] fix: without asserts (RELEASE) assert_msg let invalid
 input through

---
 libkcommon/util.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libkcommon/util.cpp b/libkcommon/util.cpp
index d0d26ed..bd40771 100644
--- a/libkcommon/util.cpp
+++ b/libkcommon/util.cpp
@@ -29,6 +29,7 @@
 #include <fstream>
 #include <thread>
 #include <cassert>
+#include <cstdlib>
 
 #include "util.hpp"
 #include "exception.hpp"
@@ -148,6 +149,7 @@ void assert_msg(bool expr, const std::string msg) {
         std::cerr << msg << std::endl;
 #endif
         assert(0);
+        abort(); // Also when the asserts are compiled out
     }
 }
 } } // End namespace knor::base
-- 
2.43.0


From 238b8d30d79d1294e0fbe66781ead289015b8e6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:44:05 +0000
Subject: [PATCH 43/54] fix: k-means++ drew rows without regard to their
 distance

The drawn threshold was still divided by RAND_MAX - 1, a leftover of
rand(): with a draw from [0, 1) it was practically zero and the first
row off the centres was always taken.
---
 libauto/kmeans.cpp                 | 2 +-
 libauto/min-tri-kmeans.cpp         | 2 +-
 libdist/dist_coordinator.cpp       | 2 +-
 libdist/dist_task_coordinator.cpp  | 2 +-
 libman/gmm_coordinator.cpp         | 2 +-
 libman/kmeans_coordinator.cpp      | 2 +-
 libman/kmeans_task_coordinator.cpp | 2 +-
 libman/skmeans_coordinator.cpp     | 2 +-
 8 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/libauto/kmeans.cpp b/libauto/kmeans.cpp
index 77b7ab6..f5d8639 100644
--- a/libauto/kmeans.cpp
+++ b/libauto/kmeans.cpp
@@ -159,7 +159,7 @@ static void kmeanspp_init(const double* matrix, kbase::clusters::ptr clusters,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 4fa55fc..8dac2d8 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -178,7 +178,7 @@ static void kmeanspp_init(const double* matrix,
             cum_dist += dist_v[row];
         }
 
-        cum_dist = (cum_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cum_dist = cum_dist * ur_distribution(generator);
         if (++clust_idx >= K)  // No more centers needed
             break;
 
diff --git a/libdist/dist_coordinator.cpp b/libdist/dist_coordinator.cpp
index 7561c44..8624744 100644
--- a/libdist/dist_coordinator.cpp
+++ b/libdist/dist_coordinator.cpp
@@ -177,7 +177,7 @@ void dist_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index cd320b8..f47b94f 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -160,7 +160,7 @@ void dist_task_coordinator::kmeanspp_init() {
         kmpi::mpi::reduce_double(&local_cuml_dist, &cuml_dist);
 
         // All procs do this ...
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/gmm_coordinator.cpp b/libman/gmm_coordinator.cpp
index 7b44962..b556bf3 100644
--- a/libman/gmm_coordinator.cpp
+++ b/libman/gmm_coordinator.cpp
@@ -129,7 +129,7 @@ void gmm_coordinator::kmeanspp_init() {
 // Sum the per thread cumulative dists
         double cuml_dist = reduction_on_cuml_sum();
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more  needed
             break;
 
diff --git a/libman/kmeans_coordinator.cpp b/libman/kmeans_coordinator.cpp
index d53f68b..020acd8 100644
--- a/libman/kmeans_coordinator.cpp
+++ b/libman/kmeans_coordinator.cpp
@@ -117,7 +117,7 @@ void kmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index a65d4f8..388e857 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -211,7 +211,7 @@ void kmeans_task_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
diff --git a/libman/skmeans_coordinator.cpp b/libman/skmeans_coordinator.cpp
index 8ca2e2f..f6e1f70 100644
--- a/libman/skmeans_coordinator.cpp
+++ b/libman/skmeans_coordinator.cpp
@@ -152,7 +152,7 @@ void skmeans_coordinator::kmeanspp_init() {
         wait4complete();
         double cuml_dist = reduction_on_cuml_sum(); // Sum the per thread cumulative dists
 
-        cuml_dist = (cuml_dist * ur_distribution(generator)) / (RAND_MAX - 1.0);
+        cuml_dist = cuml_dist * ur_distribution(generator);
         if (++clust_idx >= k)  // No more centers needed
             break;
 
-- 
2.43.0


From d5a8c5091a5060cbfbc570b956ecf2f1ed4dd92b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:47 +0000
Subject: [PATCH 44/54] fix: pruning used Euclidean bounds whatever the metric

With the cosine, taxicab or squared Euclidean metric the triangle-inequality
engines compared distances of that metric with Euclidean bounds and kept
rows in the wrong cluster.  Taxicab bounds are now taxicab distances; the
other two, which know no triangle inequality, are not pruned.
---
 libauto/min-tri-kmeans.cpp         | 10 +++++-----
 libdist/dist_task_coordinator.cpp  |  8 +++++---
 libkcommon/dist_matrix.cpp         | 11 ++++++++---
 libkcommon/dist_matrix.hpp         |  3 ++-
 libman/kmeans_task_coordinator.cpp |  8 +++++---
 5 files changed, 25 insertions(+), 15 deletions(-)

diff --git a/libauto/min-tri-kmeans.cpp b/libauto/min-tri-kmeans.cpp
index 8dac2d8..a64d37d 100644
--- a/libauto/min-tri-kmeans.cpp
+++ b/libauto/min-tri-kmeans.cpp
@@ -339,10 +339,10 @@ static void EM_step(const double* matrix, kbase::prune_clusters::ptr cls,
     auto chk_nmemb = 0;
     for (unsigned clust_idx = 0; clust_idx < K; clust_idx++) {
         cls->finalize(clust_idx);
-        cls->set_prev_dist(kbase::eucl_dist(
+        cls->set_prev_dist(kbase::dist_comp_raw<double>(
                     &(cls->get_means()[clust_idx*NUM_COLS]),
                     &(cls->get_prev_means()[clust_idx*NUM_COLS]),
-                    NUM_COLS), clust_idx);
+                    NUM_COLS, g_dist_type), clust_idx);
 #if VERBOSE
 #ifndef BIND
         printf("Dist to prev mean for c: %u is %.5f\n", clust_idx,
@@ -462,14 +462,14 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
         g_init_type = kbase::init_t::PLUSPLUS;
     } else if (init == "none") {
         g_init_type = kbase::init_t::NONE;
-        dm->compute_dist(clusters, NUM_COLS);
+        dm->compute_dist(clusters, NUM_COLS, g_dist_type);
     } else {
         throw kbase::parameter_exception("param `init` must be one of: "
             "'random', 'forgy', 'kmeanspp'", init);
     }
 
 #if VERBOSE
-    dm->compute_dist(clusters, NUM_COLS);
+    dm->compute_dist(clusters, NUM_COLS, g_dist_type);
 #ifndef BIND
     printf("Cluster distance matrix after init ...";
     dm->print();
@@ -524,7 +524,7 @@ kbase::cluster_t compute_min_kmeans(const double* matrix, double* clusters_ptr,
         printf("Main: Computing cluster distance matrix ...";
 #endif
 #endif
-        dm->compute_dist(clusters, NUM_COLS);
+        dm->compute_dist(clusters, NUM_COLS, g_dist_type);
 #if VERBOSE
 #ifndef BIND
         printf("Before: Cluster distance matrix ...";
diff --git a/libdist/dist_task_coordinator.cpp b/libdist/dist_task_coordinator.cpp
index f47b94f..e416d64 100644
--- a/libdist/dist_task_coordinator.cpp
+++ b/libdist/dist_task_coordinator.cpp
@@ -310,7 +310,7 @@ void dist_task_coordinator::run(kbase::cluster_t& ret,
             printf("Running iteration %lu ...\n", iters);
 #endif
 
-        get_dm()->compute_dist(cltrs_ptr, ncol);
+        get_dm()->compute_dist(cltrs_ptr, ncol, _dist_t);
 #if VERBOSE
         if (mpi_rank == 0) {
 #ifndef BIND
@@ -372,8 +372,10 @@ void dist_task_coordinator::run(kbase::cluster_t& ret,
         for (unsigned c = 0; c < k; c++) {
             cltrs_ptr->finalize(c);
             cltrs_ptr->set_prev_dist(
-                    kbase::eucl_dist(&(cltrs_ptr->get_means()[c*ncol]),
-                        &(cltrs_ptr->get_prev_means()[c*ncol]), ncol), c);
+                    kbase::dist_comp_raw<double>(
+                        &(cltrs_ptr->get_means()[c*ncol]),
+                        &(cltrs_ptr->get_prev_means()[c*ncol]), ncol,
+                        _dist_t), c);
 #if VERBOSE
 #ifndef BIND
             printf("Dist to prev mean for c: %u is %.6f\n", c,
diff --git a/libkcommon/dist_matrix.cpp b/libkcommon/dist_matrix.cpp
index 6d3ab48..13811e4 100644
--- a/libkcommon/dist_matrix.cpp
+++ b/libkcommon/dist_matrix.cpp
@@ -85,9 +85,13 @@ void dist_matrix::print() {
 }
 
 void dist_matrix::compute_dist(knor::base::prune_clusters::ptr cls,
-        const unsigned ncol) {
+        const unsigned ncol, const knor::base::dist_t metric) {
     if (cls->get_nclust() <= 1) return;
 
+    // Without the triangle inequality the only valid bound is zero
+    const bool bounded = metric == knor::base::dist_t::EUCL ||
+        metric == knor::base::dist_t::TAXI;
+
     assert(get_num_rows() == cls->get_nclust()-1);
     cls->reset_s_val_v();
 #ifdef _OPENMP
@@ -95,8 +99,9 @@ void dist_matrix::compute_dist(knor::base::prune_clusters::ptr cls,
 #endif
     for (unsigned i = 0; i < cls->get_nclust(); i++) {
         for (unsigned j = i+1; j < cls->get_nclust(); j++) {
-            double dist = knor::base::eucl_dist(&(cls->get_means()[i*ncol]),
-                    &(cls->get_means()[j*ncol]), ncol) / 2.0;
+            double dist = !bounded ? 0 :
+                knor::base::dist_comp_raw<double>(&(cls->get_means()[i*ncol]),
+                    &(cls->get_means()[j*ncol]), ncol, metric) / 2.0;
             set(i,j, dist);
 
             // Set s(x) for each cluster
diff --git a/libkcommon/dist_matrix.hpp b/libkcommon/dist_matrix.hpp
index 5939317..67f14fb 100644
--- a/libkcommon/dist_matrix.hpp
+++ b/libkcommon/dist_matrix.hpp
@@ -67,7 +67,8 @@ public:
 
     void print();
     void compute_dist(std::shared_ptr<base::prune_clusters> cl,
-            const unsigned ncol);
+            const unsigned ncol,
+            const base::dist_t metric=base::dist_t::EUCL);
     void compute_pairwise_dist(double* data,
             const size_t ncol, const knor::base::dist_t metric);
 };
diff --git a/libman/kmeans_task_coordinator.cpp b/libman/kmeans_task_coordinator.cpp
index 388e857..de2fc43 100644
--- a/libman/kmeans_task_coordinator.cpp
+++ b/libman/kmeans_task_coordinator.cpp
@@ -151,8 +151,10 @@ void kmeans_task_coordinator::update_clusters(const bool prune_init) {
     for (unsigned clust_idx = 0; clust_idx < k; clust_idx++) {
         cltrs->finalize(clust_idx);
         cltrs->set_prev_dist(
-                kbase::eucl_dist(&(cltrs->get_means()[clust_idx*ncol]),
-                &(cltrs->get_prev_means()[clust_idx*ncol]), ncol), clust_idx);
+                kbase::dist_comp_raw<double>(
+                    &(cltrs->get_means()[clust_idx*ncol]),
+                    &(cltrs->get_prev_means()[clust_idx*ncol]), ncol,
+                    _dist_t), clust_idx);
 #if VERBOSE
 #ifndef BIND
         printf("Dist to prev mean for c: %u is %.6f\n",
@@ -473,7 +475,7 @@ kbase::cluster_t kmeans_task_coordinator::run(
         printf("Main: Computing cluster distance matrix ...\n");
 #endif
 #endif
-        dm->compute_dist(cltrs, ncol);
+        dm->compute_dist(cltrs, ncol, _dist_t);
 
         wake4run(EM);
         wait4complete();
-- 
2.43.0


From 47d99cb08c89a4949f7619e6b6537b4aff2869c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:47 +0000
Subject: [PATCH 45/54] fix: the mean of an emptied cluster was a rounding
 residue

The pruned engines subtract the rows that leave; what is left when all of
them left has a direction, which the cosine metric takes for a centroid.
---
 libkcommon/clusters.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/libkcommon/clusters.cpp b/libkcommon/clusters.cpp
index 5514135..c6f8242 100644
--- a/libkcommon/clusters.cpp
+++ b/libkcommon/clusters.cpp
@@ -61,6 +61,8 @@ void clusters::finalize(const unsigned idx) {
         for (unsigned i = 0; i < ncol; i++) {
             means[(idx*ncol)+i] /= double(num_members_v[idx]);
         }
+    } else if (num_members_v[idx] == 0) { // Not the residue of those who left
+        std::fill(means.begin()+(idx*ncol), means.begin()+((idx+1)*ncol), 0);
     }
     complete_v[idx] = true;
 }
-- 
2.43.0


From 1e00d1964115eb5188fcfdd1afe13cab5b6a6c95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:54 +0000
Subject: [PATCH 46/54] fix: knord ignored the centroid file when -t came after
 -C

---
 exec/knord.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/exec/knord.cpp b/exec/knord.cpp
index 7eb5b7a..ba08fd9 100644
--- a/exec/knord.cpp
+++ b/exec/knord.cpp
@@ -88,7 +88,6 @@ int main(int argc, char* argv[]) {
 				centersfn = std::string(optarg);
                 kbase::assert_msg(kbase::is_file_exist(centersfn.c_str()),
                         "Centers file name doesn't exit!");
-                init = "none"; // Ignore whatever you pass in
 				num_opts++;
 				break;
 			case 'P':
@@ -109,6 +108,9 @@ int main(int argc, char* argv[]) {
 		}
 	}
 
+    if (!centersfn.empty())
+        init = "none"; // Ignore whatever you pass in, in any order
+
     kbase::assert_msg(!(init=="none" && centersfn.empty()),
             "Centers file name doesn't exit!");
 
-- 
2.43.0


From 56daed1f22f01671d0892501d9ade3bb497fdee5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:11 +0000
Subject: [PATCH 47/54] fix: bin_rm_reader delivered no rows after seeking back
 from the end of the file

---
 libkcommon/io.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libkcommon/io.hpp b/libkcommon/io.hpp
index 541c648..bf67fd3 100644
--- a/libkcommon/io.hpp
+++ b/libkcommon/io.hpp
@@ -241,7 +241,9 @@ public:
     }
 
     void seek(const size_t nbytes) {
-        this->f.seekg(nbytes);
+        this->f.clear(); // The end of the file may have been met before
+        if (!this->f.seekg(nbytes))
+            throw io_exception("cannot seek in '" + this->get_fn() + "'");
     }
 
     void read(std::vector<T>& data) override {
-- 
2.43.0


From ccbf47b2ad41281be32aaf743ced9a8d952fc810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 48/54] fix: threads of the pairwise distance table each
 compute their own rows

---
 libkcommon/dist_matrix.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/libkcommon/dist_matrix.cpp b/libkcommon/dist_matrix.cpp
index 13811e4..91d8163 100644
--- a/libkcommon/dist_matrix.cpp
+++ b/libkcommon/dist_matrix.cpp
@@ -128,8 +128,14 @@ void dist_matrix::compute_dist(knor::base::prune_clusters::ptr cls,
 // TODO: Find soln to this for Mac
 void dist_matrix::compute_pairwise_dist(double* data,
         const size_t ncol, const knor::base::dist_t metric) {
+    // An exception must not leave a parallel region
+    if (metric != knor::base::dist_t::EUCL &&
+            metric != knor::base::dist_t::COS &&
+            metric != knor::base::dist_t::TAXI)
+        throw knor::base::parameter_exception("Unknown distance metric");
+
 #ifdef _OPENMP
-#pragma omp parallel
+#pragma omp parallel for
 #endif
     for (size_t i = 0; i < rows; i++) {
         for (size_t j = i+1; j < rows+1; j++) {
-- 
2.43.0


From 82f5144b6fe29a77733fbb388faca3d17541853c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 49/54] fix: spherical_projection normalises each row by its
 own norm

---
 libkcommon/util.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/libkcommon/util.cpp b/libkcommon/util.cpp
index bd40771..13926bd 100644
--- a/libkcommon/util.cpp
+++ b/libkcommon/util.cpp
@@ -61,9 +61,10 @@ void spherical_projection(double* data, const size_t nrow,
     for (unsigned row = 0; row < nrow; row++) {
         double norm2 = 0;
         for (unsigned col = 0; col < ncol; col++)
-            norm2 += (data[row]*data[row]);
+            norm2 += (data[row*ncol+col]*data[row*ncol+col]);
+        if (norm2 == 0) continue; // The zero vector has no direction
         for (unsigned col = 0; col < ncol; col++)
-            data[col] = data[col]/std::sqrt(norm2);
+            data[row*ncol+col] = data[row*ncol+col]/std::sqrt(norm2);
     }
 }
 
-- 
2.43.0


From 9dc6542eb055a231a9f86d2c0fb7fbadbe72964f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:21 +0000
Subject: [PATCH 50/54] fix: dense_matrix::argmax finds the largest of values
 that are not positive

---
 libkcommon/dense_matrix.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/libkcommon/dense_matrix.hpp b/libkcommon/dense_matrix.hpp
index 7629f76..e905ac8 100644
--- a/libkcommon/dense_matrix.hpp
+++ b/libkcommon/dense_matrix.hpp
@@ -356,7 +356,7 @@ public:
         // axis = 1: row wise
         if (axis == 0) {
             idx.assign(nrow, 0);
-            vals.assign(nrow, std::numeric_limits<double>::min());
+            vals.assign(nrow, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
@@ -370,7 +370,7 @@ public:
         // axis = 0: col wise
         } else if (axis == 1) {
             idx.assign(ncol, 0);
-            vals.assign(ncol, std::numeric_limits<double>::min());
+            vals.assign(ncol, std::numeric_limits<T>::lowest());
 
             for (size_t row = 0; row < nrow; row++) {
                 for (size_t col = 0; col < ncol; col++) {
-- 
2.43.0


From 90e6492a79782c36b73eede168bf5e496990645e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:22 +0000
Subject: [PATCH 51/54] fix: linalg::scale does not truncate the sum to an
 integer

---
 libkcommon/linalg.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index b118c92..704a0b6 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -195,7 +195,7 @@ namespace knor { namespace base {
           */
         static void scale(double* v, const size_t sz) {
             // Compute mean
-            double sum = std::accumulate(v, v+sz, 0);
+            double sum = std::accumulate(v, v+sz, 0.0);
             double mean = sum / static_cast<double>(sz);
 
             // Compute std dev
-- 
2.43.0


From 6b1e268b07453fa6f8baa174cc57c33b6ee79cd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:34:22 +0000
Subject: [PATCH 52/54] fix: g-means compares a cluster's statistic with the
 critical value for its size

---
 libman/gmeans_coordinator.cpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/libman/gmeans_coordinator.cpp b/libman/gmeans_coordinator.cpp
index df9d0df..db322ec 100644
--- a/libman/gmeans_coordinator.cpp
+++ b/libman/gmeans_coordinator.cpp
@@ -109,7 +109,6 @@ void gmeans_coordinator::partition_decision() {
     // Each Anderson Darling (AD) vector represents the vector for which
     //  each cluster gets its AD statistic.
     std::unordered_map<unsigned, std::vector<double>> ad_vecs;
-    std::vector<double> critical_values;
 
     // Populate the AD vectors
     assemble_ad_vecs(ad_vecs);
@@ -118,10 +117,6 @@ void gmeans_coordinator::partition_decision() {
         base::linalg::scale(&(kv.second)[0], kv.second.size());
     }
 
-    // Compute Critical values
-    base::AndersonDarling::compute_critical_values(
-            ad_vecs.size(), critical_values);
-
     // Compute AD statistics
     compute_ad_stats(ad_vecs);
 
@@ -137,6 +132,11 @@ void gmeans_coordinator::partition_decision() {
         unsigned pid = keys[i];
         auto score = ad_vecs[pid].back();
 
+        // Critical values depend on the number of rows tested
+        std::vector<double> critical_values;
+        base::AndersonDarling::compute_critical_values(
+                ad_vecs[pid].size()-1, critical_values);
+
         if (score <= critical_values[strictness]) {
             unsigned lid = hcltrs[pid]->get_zeroid();
             unsigned rid = hcltrs[pid]->get_oneid();
-- 
2.43.0


From 3a2d8618a70abd5658f8b5b89350456565917ef8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:11:49 +0000
Subject: [PATCH 53/54] fix: adjoint (and so inverse) of a matrix ignored the
 sign of the cofactors

---
 libkcommon/linalg.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/libkcommon/linalg.hpp b/libkcommon/linalg.hpp
index 704a0b6..22691f4 100644
--- a/libkcommon/linalg.hpp
+++ b/libkcommon/linalg.hpp
@@ -102,7 +102,6 @@ namespace knor { namespace base {
 
             // temp is used to store cofactors of A[][]
             std::vector<double> temp(N*N);
-            double sign = 1;
 
             for (size_t i=0; i<N; i++) {
                 for (size_t j=0; j<N; j++) {
@@ -111,6 +110,8 @@ namespace knor { namespace base {
 
                     // sign of adj[j][i] positive if sum of row
                     // and column indexes is even.
+                    double sign = (i + j) % 2 ? -1 : 1;
+
                     // Interchanging rows and columns to get the
                     // transpose of the cofactor matrix
                     adj[j*N+i] = (sign)*(determinant(&temp[0], N-1, N));
-- 
2.43.0


From 7b76e48f6765c2470252afde7ddb950591f64cbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:12:24 +0000
Subject: [PATCH 54/54] fix: fuzzy c-means gave a row at a center the least
 membership in it

---
 libman/fcm.cpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/libman/fcm.cpp b/libman/fcm.cpp
index 19c6e5b..d2712f9 100644
--- a/libman/fcm.cpp
+++ b/libman/fcm.cpp
@@ -50,7 +50,9 @@ void fcm::Estep() {
                 um->set(cid, true_rid,
                         std::pow((1.0 / dist), (1.0 / (fuzzindex-1))));
             } else {
-                um->set(cid, true_rid, 2.2E-16);
+                // A row at a center belongs to that center
+                um->set(cid, true_rid,
+                        std::pow((1.0 / 2.2E-16), (1.0 / (fuzzindex-1))));
             }
         }
     }
-- 
2.43.0

