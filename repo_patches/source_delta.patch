From 72edcec400018af504865e77a557232783926a19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:07 +0000
Subject: [PATCH 01/42] fix: MertHull(int) left is_sorted without a value

---
 src/lib/mert-geometry.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/mert-geometry.cc b/src/lib/mert-geometry.cc
index 0be1d19..48a24ed 100644
--- a/src/lib/mert-geometry.cc
+++ b/src/lib/mert-geometry.cc
@@ -10,7 +10,7 @@
 using namespace std;
 using namespace travatar;
 
-MertHull::MertHull(int i) {
+MertHull::MertHull(int i) : is_sorted(true) {
   if (i == 0) {
     // do nothing - <>
   } else if (i == 1) {
-- 
2.43.0


From 43b3186154f81dac1d35d17aa624be8d76a97918 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:17 +0000
Subject: [PATCH 02/42] fix: TravatarRunner's constructor left its scalar
 settings without values

---
 src/include/travatar/travatar-runner.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/travatar/travatar-runner.h b/src/include/travatar/travatar-runner.h
index 8024e30..a2a850f 100644
--- a/src/include/travatar/travatar-runner.h
+++ b/src/include/travatar/travatar-runner.h
@@ -54,7 +54,7 @@ private:
 class TravatarRunner {
 public:
 
-    TravatarRunner() { }
+    TravatarRunner() : nbest_count_(1), nbest_uniq_(false), nbest_tree_(false), threads_(1), do_tuning_(false) { }
     ~TravatarRunner() { }
     
     // Run the model
-- 
2.43.0


From 104d0e1cea3fe7dcf5560090d696d937f8bcbce5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:17 +0000
Subject: [PATCH 03/42] fix: TuneGreedyMert's constructor left the thread count
 without a value

---
 src/lib/tune-greedy-mert.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 9f2d1d4..727532a 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -43,7 +43,7 @@ void GreedyMertTask::Run() {
 
 // Constructor
 TuneGreedyMert::TuneGreedyMert() : Tune(),
-                       early_terminate_(false) { }
+                       threads_(1), early_terminate_(false) { }
 
 void TuneGreedyMert::UpdateBest(const SparseMap &gradient, const LineSearchResult &result) {
     boost::mutex::scoped_lock lock(result_mutex_);
-- 
2.43.0


From 3d4ee290c9d649ead32f7bfa3114126a222da163 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 04/42] fix: ThreadPool's workers read stopped_ and
 delete_tasks_ without the lock that guards them

---
 src/include/travatar/thread-pool.h | 5 ++++-
 src/lib/thread-pool.cc             | 7 +++++--
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/include/travatar/thread-pool.h b/src/include/travatar/thread-pool.h
index a2ecc5c..9b3074f 100644
--- a/src/include/travatar/thread-pool.h
+++ b/src/include/travatar/thread-pool.h
@@ -30,7 +30,10 @@ public:
     void Wait();
 
     // Set whether to delete tasks after they finish executing
-    void SetDeleteTasks(bool delete_tasks) { delete_tasks_ = delete_tasks; }
+    void SetDeleteTasks(bool delete_tasks) {
+        boost::mutex::scoped_lock lock(mutex_);
+        delete_tasks_ = delete_tasks;
+    }
 
 protected:
     // The function executed by each thread, which will wait for a task, then
diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index a5674a7..a2d0b30 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -14,7 +14,8 @@ ThreadPool::ThreadPool(int num_threads, int queue_limit) :
 }
 
 void ThreadPool::Run() {
-    while(!stopped_) {
+    bool stopped = false, delete_task = false;
+    while(!stopped) {
         Task* task = NULL;
         {
             boost::mutex::scoped_lock lock(mutex_);
@@ -24,10 +25,12 @@ void ThreadPool::Run() {
                 task = tasks_.front();
                 tasks_.pop();
             }
+            stopped = stopped_;
+            delete_task = delete_tasks_;
         }
         if(task) {
             task->Run();
-            if(delete_tasks_)
+            if(delete_task)
                 delete task;
         }
         thread_available_.notify_all();
-- 
2.43.0


From f36a56fd3613a4d42181d1d16bcac38599a26b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 05/42] fix: ThreadPool::Wait could miss its wake-up, and
 returned while tasks were still running

---
 src/include/travatar/thread-pool.h |  1 +
 src/lib/thread-pool.cc             | 11 ++++++-----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/include/travatar/thread-pool.h b/src/include/travatar/thread-pool.h
index 9b3074f..57e27db 100644
--- a/src/include/travatar/thread-pool.h
+++ b/src/include/travatar/thread-pool.h
@@ -49,6 +49,7 @@ protected:
     bool stopping_;
     bool delete_tasks_;
     int queue_limit_;
+    int running_; // number of tasks being executed right now
 
 };
 
diff --git a/src/lib/thread-pool.cc b/src/lib/thread-pool.cc
index a2d0b30..5786b6f 100644
--- a/src/lib/thread-pool.cc
+++ b/src/lib/thread-pool.cc
@@ -8,7 +8,7 @@ using namespace boost;
 
 ThreadPool::ThreadPool(int num_threads, int queue_limit) :
         stopped_(false), stopping_(false), delete_tasks_(true),
-        queue_limit_(queue_limit) {
+        queue_limit_(queue_limit), running_(0) {
     for(int i = 0; i < num_threads; i++)
         threads_.create_thread(bind(&ThreadPool::Run, this));
 }
@@ -24,6 +24,7 @@ void ThreadPool::Run() {
             if(!stopped_ && !tasks_.empty()) {
                 task = tasks_.front();
                 tasks_.pop();
+                ++running_;
             }
             stopped = stopped_;
             delete_task = delete_tasks_;
@@ -32,6 +33,8 @@ void ThreadPool::Run() {
             task->Run();
             if(delete_task)
                 delete task;
+            boost::mutex::scoped_lock lock(mutex_);
+            --running_;
         }
         thread_available_.notify_all();
     }
@@ -48,11 +51,9 @@ void ThreadPool::Submit(Task* task) {
 }
 
 void ThreadPool::Wait() {
-    while(!tasks_.empty()) {
-        boost::mutex::scoped_lock lock(mutex_);
+    boost::mutex::scoped_lock lock(mutex_);
+    while(!tasks_.empty() || running_ > 0)
         thread_available_.wait(lock);
-    }
-    sleep(1);
 }
 
 void ThreadPool::Stop(bool process_remaining) {
-- 
2.43.0


From a11ce1c7c3780187ac5487ae848cfb0594e83e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 06/42] fix: OutputCollector::Flush used the shared streams
 without the lock

---
 src/lib/output-collector.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/lib/output-collector.cc b/src/lib/output-collector.cc
index b694417..8bacd02 100644
--- a/src/lib/output-collector.cc
+++ b/src/lib/output-collector.cc
@@ -26,6 +26,7 @@ void OutputCollector::Write(int id, const string & out, const string & err) {
 }
 
 void OutputCollector::Flush() {
+    boost::mutex::scoped_lock lock(mutex_);
     out_stream_->flush();
     err_stream_->flush();
 }
-- 
2.43.0


From c73944f504ff071b372561e09f9db324241fe089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:40 +0000
Subject: [PATCH 07/42] fix: TuneGreedyMert read the best result without the
 lock the workers write it under

---
 src/lib/tune-greedy-mert.cc | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index 727532a..c7e7e82 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -60,8 +60,11 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
     curr_weights_ = weights;
 
     // Initialize
-    best_result_ = LineSearchResult();
-    best_gradient_ = SparseMap();
+    {
+        boost::mutex::scoped_lock lock(result_mutex_);
+        best_result_ = LineSearchResult();
+        best_gradient_ = SparseMap();
+    }
     PRINT_DEBUG("Calculating potential gains..." << endl, 2);
     SparseMap potential;
     BOOST_FOREACH(const boost::shared_ptr<TuningExample> & examp, examps_) {
@@ -86,8 +89,9 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
 
     // Dispatch jobs until the best value exceeds the expected value
     BOOST_REVERSE_FOREACH(const DIPair & val, vals) {
-        if((val.first < best_result_.gain) || 
-           (early_terminate_ && best_result_.gain >= gain_threshold_))
+        Real best_gain = GetBestGain();
+        if((val.first < best_gain) || 
+           (early_terminate_ && best_gain >= gain_threshold_))
             break;
         GreedyMertTask* task = new GreedyMertTask(task_id++, *this, val.second, val.first, out_collect.get());
         // If the threads are not correct
@@ -100,6 +104,7 @@ LineSearchResult TuneGreedyMert::TuneOnce(SparseMap & weights) {
         thread_pool->Stop(true);
 
     // Update with the best value
+    boost::mutex::scoped_lock lock(result_mutex_);
     if(best_result_.gain > gain_threshold_) {
         PRINT_DEBUG("Updating: " << Dict::PrintSparseMap(best_gradient_) << " * " << best_result_.pos << endl, 2);
         weights += best_gradient_ * best_result_.pos;
@@ -118,4 +123,7 @@ Real TuneGreedyMert::RunTuning(SparseMap & weights) {
     return result.after->ConvertToScore();
 }
 
-Real TuneGreedyMert::GetBestGain() { return best_result_.gain; }
+Real TuneGreedyMert::GetBestGain() {
+    boost::mutex::scoped_lock lock(result_mutex_);
+    return best_result_.gain;
+}
-- 
2.43.0


From b7934cd602a0dd3145c0c84a2b30bff6b12a5b53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:23 +0000
Subject: [PATCH 08/42] fix: a GreedyMertTask that stopped early held back the
 output of every later task

---
 src/lib/tune-greedy-mert.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/lib/tune-greedy-mert.cc b/src/lib/tune-greedy-mert.cc
index c7e7e82..0c127bd 100644
--- a/src/lib/tune-greedy-mert.cc
+++ b/src/lib/tune-greedy-mert.cc
@@ -22,8 +22,12 @@ void GreedyMertTask::Run() {
     // Check to make sure that our potential is still higher than the current best
     Real best = tgm_->GetBestGain();
     if((potential_ <= best) ||
-       (tgm_->GetEarlyTerminate() && best >= tgm_->GetGainThreshold()))
+       (tgm_->GetEarlyTerminate() && best >= tgm_->GetGainThreshold())) {
+        // The output of later tasks is held back until this one has an entry
+        if(collector_)
+            collector_->Skip(id_);
         return;
+    }
     // Mak the gradient and find the ranges
     SparseMap gradient;
     gradient[feature_] = 1;
-- 
2.43.0


From 9229e95cb6373ad0d2f3003f31dfc9607614dcc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 09/42] fix: Tune::FindGradientRange looked up the default
 range with an inserting operator, from several threads

---
 src/lib/tune.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/tune.cc b/src/lib/tune.cc
index bfcf921..31f0f02 100644
--- a/src/lib/tune.cc
+++ b/src/lib/tune.cc
@@ -13,7 +13,7 @@ Tune::Tune() : gain_threshold_(0.000001), scale_id_(Dict::WID("__SCALE__")) {
 // Find the gradient's range
 pair<Real,Real> Tune::FindGradientRange(const SparseMap & weights, WordId feat) {
     RangeMap::const_iterator it = ranges_.find(feat);
-    pair<Real,Real> range = (it == ranges_.end() ? ranges_[-1] : it->second);
+    pair<Real,Real> range = (it == ranges_.end() ? ranges_.find(-1)->second : it->second);
     SparseMap gradient; gradient[feat] = 1;
     return FindGradientRange(weights, gradient, range);
 }
-- 
2.43.0


From 8f069dd97968b0fe638e5d335f0e0afb118f350e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 10/42] fix: Binarizer::GetBarredSymbol filled a map shared by
 the translation threads without a lock

---
 src/include/travatar/binarizer.h | 5 ++++-
 src/lib/binarizer.cc             | 3 ++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/include/travatar/binarizer.h b/src/include/travatar/binarizer.h
index 30edb48..56998e1 100644
--- a/src/include/travatar/binarizer.h
+++ b/src/include/travatar/binarizer.h
@@ -3,6 +3,7 @@
 
 #include <travatar/graph-transformer.h>
 #include <travatar/sentence.h>
+#include <boost/thread/mutex.hpp>
 #include <map>
 #include <string>
 
@@ -12,7 +13,9 @@ namespace travatar {
 class Binarizer : public GraphTransformer {
 
 protected:
-    std::map<int,int> barred_map_;
+    // The barred symbols found so far, shared by all the threads that use the binarizer
+    mutable std::map<int,int> barred_map_;
+    mutable boost::mutex barred_mutex_;
 
 public:
 
diff --git a/src/lib/binarizer.cc b/src/lib/binarizer.cc
index 5e8b38c..9eb6c20 100644
--- a/src/lib/binarizer.cc
+++ b/src/lib/binarizer.cc
@@ -25,9 +25,10 @@ Binarizer * Binarizer::CreateBinarizerFromString(const std::string & bin) {
 }
 
 WordId Binarizer::GetBarredSymbol(WordId sym) const {
+    boost::mutex::scoped_lock lock(barred_mutex_);
     map<int,int>::const_iterator it = barred_map_.find(sym);
     if(it != barred_map_.end()) return it->second;
     WordId ret = Dict::WID(Dict::WSym(sym)+"'");
-    const_cast<map<int,int>& >(barred_map_).insert(make_pair(sym, ret));
+    barred_map_.insert(make_pair(sym, ret));
     return ret;
 }
-- 
2.43.0


From aa38fabcc3e3999249c64f0c3538d72b2f85ec8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:43 +0000
Subject: [PATCH 11/42] fix: TuneLbfgs::RunTuning set the multiplier of the
 gradient shared by all the tuning threads

---
 src/lib/tune-lbfgs.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/lib/tune-lbfgs.cc b/src/lib/tune-lbfgs.cc
index c3df3fa..b9f7833 100644
--- a/src/lib/tune-lbfgs.cc
+++ b/src/lib/tune-lbfgs.cc
@@ -23,6 +23,8 @@ TuneLbfgs::~TuneLbfgs() {
 }
 
 void TuneLbfgs::Init(const SparseMap & init_weights) {
+    // L-BFGS minimizes, so the gradient is negated (set here, as RunTuning may run in several threads)
+    gradient_->SetMult(-1);
     gradient_->Init(init_weights, examps_);
 }
 
@@ -45,9 +47,6 @@ Real TuneLbfgs::RunTuning(SparseMap & kv) {
     // The final score
     Real last_score = 0.0;
 
-    // Initialize the gradient
-    gradient_->SetMult(-1);
-
     // Initialize the weights appropriately
     vector<Real> weights;
     if(!use_init_)
-- 
2.43.0


From c7571a77ed0757aa3517b6f3e533697a159612a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:24 +0000
Subject: [PATCH 12/42] fix: the tuning threads re-scored the forests they
 share without a lock

---
 src/include/travatar/tuning-example-forest.h | 9 ++++++---
 src/lib/tuning-example-forest.cc             | 5 +++++
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/include/travatar/tuning-example-forest.h b/src/include/travatar/tuning-example-forest.h
index c394cdb..aa270ba 100644
--- a/src/include/travatar/tuning-example-forest.h
+++ b/src/include/travatar/tuning-example-forest.h
@@ -5,6 +5,7 @@
 #include <travatar/tuning-example.h>
 #include <travatar/sentence.h>
 #include <boost/shared_ptr.hpp>
+#include <boost/thread/mutex.hpp>
 #include <set>
 #include <cfloat>
 
@@ -32,9 +33,6 @@ public:
 
     virtual ~TuningExampleForest() { }
 
-    // Find the featutres that are active in this forest
-    void FindActiveFeatures();
-
     // Calculate the oracle of this sentence
     void CalculateOracle();
 
@@ -65,6 +63,9 @@ public:
 
 protected:
     
+    // Find the featutres that are active in this forest (mutex_ must be held)
+    void FindActiveFeatures();
+
     std::vector<ExamplePair> last_nbest_;
 
     // Recursively calculate the MERT hull
@@ -86,6 +87,8 @@ protected:
     int id_;
     // Multiplier
     Real mult_;
+    // The calculations re-score the forest, and several tuning threads share it
+    mutable boost::mutex mutex_;
 
 };
 
diff --git a/src/lib/tuning-example-forest.cc b/src/lib/tuning-example-forest.cc
index 8c4628c..70558b3 100644
--- a/src/lib/tuning-example-forest.cc
+++ b/src/lib/tuning-example-forest.cc
@@ -34,6 +34,7 @@ const ExamplePair &
 // This function combines multiple forests into a single one via a shared
 // root node. This allows forests from multiple runs to be searched together
 void TuningExampleForest::AddHypothesis(const boost::shared_ptr<HyperGraph> & hg) {
+    boost::mutex::scoped_lock lock(mutex_);
     // Make the root node if necessary
     if(forest_.get() == NULL) {
         forest_.reset(new HyperGraph());
@@ -57,6 +58,7 @@ void TuningExampleForest::FindActiveFeatures() {
 }
 
 void TuningExampleForest::CalculateOracle() {
+    boost::mutex::scoped_lock lock(mutex_);
     try {
         CfgDataVector oracle_sent = measure_->CalculateOracle(*forest_, refs_);
         PRINT_DEBUG("Oracle sentence:" << endl << Dict::PrintWords(oracle_sent) << endl, 1);
@@ -72,6 +74,7 @@ void TuningExampleForest::CalculateOracle() {
 
 // Add weights
 void TuningExampleForest::CountWeights(set<WordId> & weights) {
+    boost::mutex::scoped_lock lock(mutex_);
     BOOST_FOREACH(const HyperEdge * edge, forest_->GetEdges())
         BOOST_FOREACH(const SparsePair & feat, edge->GetFeatures().GetImpl())
             weights.insert(feat.first);
@@ -79,6 +82,7 @@ void TuningExampleForest::CountWeights(set<WordId> & weights) {
 
 // Calculate the potential gain for a single example given the current weights
 SparseMap TuningExampleForest::CalculatePotentialGain(const SparseMap & weights) {
+    boost::mutex::scoped_lock lock(mutex_);
     // Find the best according to the weights
     forest_->ResetViterbiScores();
     Weights wval(weights);
@@ -120,6 +124,7 @@ inline Real PosZero(Real dub) { return (dub == -0.0 ? 0.0 : dub); }
 ConvexHull TuningExampleForest::CalculateConvexHull(
                         const SparseMap & weights,
                         const SparseMap & gradient) const {
+    boost::mutex::scoped_lock lock(mutex_);
     ConvexHull ret;
     // Find if any features in the gradient are not active
     bool active = (active_.size() == 0);
-- 
2.43.0


From 26bcc00344d4d295ad2c996f129a1f099eac6ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 13/42] fix: -forest_nbest_trim had no effect, a local variable
 hid the runner's trimmer

---
 src/lib/travatar-runner.cc | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index a5f49e5..dbe3a7b 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -361,7 +361,6 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
     }
 
     // Get the class to trim the forest if necessary
-    scoped_ptr<Trimmer> trimmer_;
     if(config.GetInt("forest_nbest_trim") != 0)
         trimmer_.reset(new TrimmerNbest(config.GetInt("forest_nbest_trim")));
 
-- 
2.43.0


From e113aa46cdbc6ce137a80951231faed29602ae22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:14:36 +0000
Subject: [PATCH 14/42] fix: LookupTableCFGLM::AddRuleFSM did its trie lookup
 inside an assertion

---
 src/lib/lookup-table-cfglm.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/lib/lookup-table-cfglm.cc b/src/lib/lookup-table-cfglm.cc
index ac9cedb..5099c3a 100644
--- a/src/lib/lookup-table-cfglm.cc
+++ b/src/lib/lookup-table-cfglm.cc
@@ -107,7 +107,8 @@ void LookupTableCFGLM::AddRuleFSM(RuleFSM* fsm) {
         for(size_t i = 0; i < val.first.size(); i++) inv_heads[i] = -1 - val.first[i];
         std::string str((char*)&inv_heads[0], inv_heads.size()*sizeof(WordId));
         marisa::Agent ag; ag.set_query(str.c_str(), str.length());
-        assert(fsm->GetTrie().lookup(ag));
+        if(!fsm->GetTrie().lookup(ag))
+            THROW_ERROR("Unary rule is missing from the rule table's trie");
         BOOST_FOREACH(TranslationRuleHiero * rule, fsm->GetRules()[ag.key().id()]) {
             //cerr << "Adding rule: " << *rule << " at " << val.first << endl;
             unary_ids_[val.first].push_back(unary_rules_.size());
-- 
2.43.0


From 0b1904b9059fb9ee9d102bddc0770209f277104e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 15/42] fix: mt-segmenter-runner did not notice an input file
 that could not be opened

---
 src/lib/mt-segmenter-runner.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/mt-segmenter-runner.cc b/src/lib/mt-segmenter-runner.cc
index 473b5c2..d8f7542 100644
--- a/src/lib/mt-segmenter-runner.cc
+++ b/src/lib/mt-segmenter-runner.cc
@@ -113,6 +113,8 @@ void MTSegmenterRunner::Run(const ConfigMTSegmenterRunner & config) {
     // Load the file to be split
     const string & filename = config.GetMainArg(0);
     ifstream sysin(filename.c_str());
+    if(!sysin)
+        THROW_ERROR("Could not open system output: " << filename);
     Sentence sys_corpus;
     while(getline(sysin, line))
         BOOST_FOREACH(WordId wid, Dict::ParseWords(line))
-- 
2.43.0


From 60cd94c7d7c9fa00016cee39a59b622184a8613f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 16/42] fix: travatar-runner did not notice an input file that
 could not be opened

---
 src/lib/travatar-runner.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index dbe3a7b..20a41db 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -231,8 +231,12 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
         vector<string> ref_files = config.GetStringArray("tune_ref_files");
         if(ref_files.size() == 0)
             THROW_ERROR("When tuning, must specify at least one reference in tune_ref_files");
-        BOOST_FOREACH(const string & file, ref_files)
-            tune_ins.push_back(boost::shared_ptr<istream>(new ifstream(file.c_str())));
+        BOOST_FOREACH(const string & file, ref_files) {
+            boost::shared_ptr<istream> ref_in(new ifstream(file.c_str()));
+            if(!*ref_in)
+                THROW_ERROR("Could not open tune_ref_files file: " << file);
+            tune_ins.push_back(ref_in);
+        }
         // Set the weight ranges
         if(config.GetString("tune_weight_ranges") != "") {
             vector<string> ranges = Tokenize(config.GetString("tune_weight_ranges"), ' '), range_vals;
-- 
2.43.0


From 8fd193b03a67b52af381452038cae479e7ddda43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:12 +0000
Subject: [PATCH 17/42] fix: tree-converter-runner did not notice an input file
 that could not be opened

---
 src/lib/tree-converter-runner.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/tree-converter-runner.cc b/src/lib/tree-converter-runner.cc
index 4f9079c..f6f1f72 100644
--- a/src/lib/tree-converter-runner.cc
+++ b/src/lib/tree-converter-runner.cc
@@ -90,7 +90,7 @@ void TreeConverterRunner::Run(const ConfigTreeConverterRunner & config) {
     istream * src_in;
     if(argv.size() == 1 && argv[0] != "-") {
         src_in = new ifstream(argv[0].c_str());
-        if(!src_in) THROW_ERROR("Could not find src file: " << argv[0]);
+        if(!*src_in) THROW_ERROR("Could not find src file: " << argv[0]);
     } else {
         src_in = &cin;
     }
-- 
2.43.0


From 06451a9a017328cb4793142b444c1168ca9a8a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:19 +0000
Subject: [PATCH 18/42] fix: the help of -tm_storage offered a name that is
 refused and left out one that works

---
 src/include/travatar/config-travatar-runner.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/include/travatar/config-travatar-runner.h b/src/include/travatar/config-travatar-runner.h
index cb45fb1..e1362e8 100644
--- a/src/include/travatar/config-travatar-runner.h
+++ b/src/include/travatar/config-travatar-runner.h
@@ -50,7 +50,7 @@ public:
         AddConfigEntry("search", "inc", "The type of search (Cube Pruning (cp)/Incremental (inc))");
         AddConfigEntry("threads", "1", "The number of threads to use in translation");
         AddConfigEntry("tm_file", "", "Translation model file location");
-        AddConfigEntry("tm_storage", "marisa", "Method of storing the rule table (marisa/hash/hiero/fsm)");
+        AddConfigEntry("tm_storage", "marisa", "Method of storing the rule table (marisa/hash/fsm/cfg)");
         AddConfigEntry("trace_out", "", "trace output file location");
         AddConfigEntry("trg_factors", "1", "The number of types of output to produce");
         AddConfigEntry("unk_symbol", "X", "Unknown word symbol in the rule-table (fsm)");
-- 
2.43.0


From 8f794f81be72fbcda5c3f908c7be4ec197c8c8a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:50 +0000
Subject: [PATCH 19/42] fix: trees cut off by the end of the input were taken
 for the end of the input

---
 src/lib/tree-io.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index a8c72e6..e7eadc6 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -99,6 +99,7 @@ HyperGraph * PennTreeIO::ReadTree(istream & in) {
         }
     }
     delete hg;
+    if(stack.size()) THROW_ERROR("Unmatched open parenthesis at the end of the input");
     return NULL;
 }
 
@@ -164,6 +165,7 @@ HyperGraph * RuleTreeIO::ReadTree(istream & in) {
         }
     }
     delete hg;
+    if(stack.size()) THROW_ERROR("Unmatched open parenthesis at the end of the input");
     return NULL;
 }
 
-- 
2.43.0


From f87fefbf9a53eca620c11fee4ebc065f1aef717f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:50 +0000
Subject: [PATCH 20/42] fix: an Egret line without a head or a score was given
 those of another line, or none

---
 src/lib/tree-io.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/lib/tree-io.cc b/src/lib/tree-io.cc
index e7eadc6..4ad361c 100644
--- a/src/lib/tree-io.cc
+++ b/src/lib/tree-io.cc
@@ -324,7 +324,7 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
     BOOST_REVERSE_FOREACH(const std::string & line, lines) {
         istringstream iss(line);
         // Get the head
-        iss >> buff;
+        if(!(iss >> buff)) THROW_ERROR("Empty Egret node string: " << line);
         HyperNode * head = MakeEgretNode(buff, node_map, ret);
         HyperEdge * edge = new HyperEdge(head); ret->AddEdge(edge); head->AddEdge(edge);
         // The next string should always be "=>"
@@ -340,7 +340,7 @@ HyperGraph * EgretTreeIO::ReadTree(istream & in) {
         }
         if(buff != "|||") THROW_ERROR("||| not found in Egret node string: " << line);
         // Finally, read the score and add it to a parse
-        iss >> score;
+        if(!(iss >> score)) THROW_ERROR("Bad score in Egret node string: " << line);
         edge->SetScore(score);
         if(!normalize_) edge->GetFeatures().Add(parse_id, score);
     }
-- 
2.43.0


From 01b40e33fddd74d69111eccc012a4e4a39cc16ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:39 +0000
Subject: [PATCH 21/42] fix: interpolated statistics inherited PlusEqualsTimes
 and ReadStats that work on values they do not keep

---
 src/include/travatar/eval-measure-adv-interp.h |  2 ++
 src/include/travatar/eval-measure-interp.h     |  2 ++
 src/lib/eval-measure-adv-interp.cc             | 17 +++++++++++++++++
 src/lib/eval-measure-interp.cc                 | 17 +++++++++++++++++
 4 files changed, 38 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index 6b764bd..aeb89a7 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -28,11 +28,13 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
     EvalStatsPtr Clone() const;
 
+    virtual void ReadStats(const std::string & str);
     virtual std::string WriteStats();
 
 protected:
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index 86139e2..0bd13a2 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -29,11 +29,13 @@ public:
     // Check if the value is zero
     virtual bool IsZero();
     virtual EvalStats & PlusEquals(const EvalStats & rhs);
+    virtual EvalStats & PlusEqualsTimes(const EvalStats & rhs, Real p);
     virtual EvalStats & TimesEquals(EvalStatsDataType mult);
     virtual bool Equals(const EvalStats & rhs) const;
 
     EvalStatsPtr Clone() const;
 
+    virtual void ReadStats(const std::string & str);
     virtual std::string WriteStats();
 
 protected:
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 272bc0d..059aa08 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsAdvInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsAdvInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
@@ -131,3 +139,12 @@ std::string EvalStatsAdvInterp::WriteStats() {
     }
     return oss.str();
 }
+
+void EvalStatsAdvInterp::ReadStats(const std::string & str) {
+    std::vector<std::string> cols;
+    boost::algorithm::split(cols, str, boost::is_any_of("\t"));
+    if(cols.size() != stats_.size())
+        THROW_ERROR("Number of columns in input ("<<cols.size()<<") != number of evaluation measures (" << stats_.size() << ")");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->ReadStats(cols[i]);
+}
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index 5087c82..8b938b1 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -46,6 +46,14 @@ EvalStats & EvalStatsInterp::PlusEquals(const EvalStats & rhs) {
         stats_[i]->PlusEquals(*rhsi.stats_[i]);
     return *this;
 }
+EvalStats & EvalStatsInterp::PlusEqualsTimes(const EvalStats & rhs, Real p) {
+    const EvalStatsInterp & rhsi = (const EvalStatsInterp &)rhs;
+    if(stats_.size() != rhsi.stats_.size())
+        THROW_ERROR("Interpreted eval measure sizes don't match");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->PlusEqualsTimes(*rhsi.stats_[i], p);
+    return *this;
+}
 EvalStats & EvalStatsInterp::TimesEquals(EvalStatsDataType mult) {
     for(int i = 0; i < (int)stats_.size(); i++)
         stats_[i]->TimesEquals(mult);
@@ -127,3 +135,12 @@ std::string EvalStatsInterp::WriteStats() {
     }
     return oss.str();
 }
+
+void EvalStatsInterp::ReadStats(const std::string & str) {
+    std::vector<std::string> cols;
+    boost::algorithm::split(cols, str, boost::is_any_of("\t"));
+    if(cols.size() != stats_.size())
+        THROW_ERROR("Number of columns in input ("<<cols.size()<<") != number of evaluation measures (" << stats_.size() << ")");
+    for(int i = 0; i < (int)stats_.size(); i++)
+        stats_[i]->ReadStats(cols[i]);
+}
-- 
2.43.0


From 7fcae4b75129c8450c700cbb979357aecca7301c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:47 +0000
Subject: [PATCH 22/42] fix: interpolated measures did not prepare or clean up
 the measures they are made of

---
 src/include/travatar/eval-measure-adv-interp.h |  4 ++++
 src/include/travatar/eval-measure-interp.h     |  4 ++++
 src/lib/eval-measure-adv-interp.cc             | 12 ++++++++++++
 src/lib/eval-measure-interp.cc                 | 12 ++++++++++++
 4 files changed, 32 insertions(+)

diff --git a/src/include/travatar/eval-measure-adv-interp.h b/src/include/travatar/eval-measure-adv-interp.h
index aeb89a7..63523b9 100644
--- a/src/include/travatar/eval-measure-adv-interp.h
+++ b/src/include/travatar/eval-measure-adv-interp.h
@@ -54,6 +54,10 @@ public:
     EvalMeasureAdvInterp(const std::string & str);
     virtual ~EvalMeasureAdvInterp() { }
 
+    // Prepare and clean up all the measures
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+    virtual void ClearCache();
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
diff --git a/src/include/travatar/eval-measure-interp.h b/src/include/travatar/eval-measure-interp.h
index 0bd13a2..fdf8525 100644
--- a/src/include/travatar/eval-measure-interp.h
+++ b/src/include/travatar/eval-measure-interp.h
@@ -54,6 +54,10 @@ public:
     EvalMeasureInterp(const std::string & str);
     virtual ~EvalMeasureInterp() { }
 
+    // Prepare and clean up all the measures
+    virtual void InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs);
+    virtual void ClearCache();
+
     // Calculate the stats for a single sentence
     virtual boost::shared_ptr<EvalStats> CalculateStats(
                 const Sentence & ref,
diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index 059aa08..fa861c7 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -76,6 +76,18 @@ EvalStatsPtr EvalStatsAdvInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsAdvInterp(newstats, vars_, query_));
 }
 
+void EvalMeasureAdvInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->InitializeWithReferences(refs);
+}
+
+void EvalMeasureAdvInterp::ClearCache() {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->ClearCache();
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureAdvInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
diff --git a/src/lib/eval-measure-interp.cc b/src/lib/eval-measure-interp.cc
index 8b938b1..3d708d0 100644
--- a/src/lib/eval-measure-interp.cc
+++ b/src/lib/eval-measure-interp.cc
@@ -76,6 +76,18 @@ EvalStatsPtr EvalStatsInterp::Clone() const {
     return EvalStatsPtr(new EvalStatsInterp(newstats, coeffs_));
 }
 
+void EvalMeasureInterp::InitializeWithReferences(const std::vector< std::vector<Sentence> > & refs) {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->InitializeWithReferences(refs);
+}
+
+void EvalMeasureInterp::ClearCache() {
+    typedef boost::shared_ptr<EvalMeasure> EvalMeasPtr;
+    BOOST_FOREACH(const EvalMeasPtr & meas, measures_)
+        meas->ClearCache();
+}
+
 // Measure the score of the sys output according to the ref
 EvalStatsPtr EvalMeasureInterp::CalculateStats(const Sentence & ref, const Sentence & sys) const {
     // Calculate all the stats independently and add them
-- 
2.43.0


From fcb9a57b2dd1617f0a8d5d2461a7b34644293a85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:39 +0000
Subject: [PATCH 23/42] fix: HyperGraph::Append keeps the rule fragments of
 appended rule edges

---
 src/lib/hyper-graph.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index ba937f5..6e130e0 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -586,8 +586,12 @@ int HyperGraph::Append(const HyperGraph & rhs) {
     // Append the nodes
     BOOST_FOREACH(const HyperNode * node, rhs.GetNodes())
         nodes_.push_back(new HyperNode(*node));
-    BOOST_FOREACH(const HyperEdge * edge, rhs.GetEdges())
-        edges_.push_back(new HyperEdge(*edge));
+    BOOST_FOREACH(const HyperEdge * edge, rhs.GetEdges()) {
+        if(rhs.edge_type_ == RULE_EDGE)
+            edges_.push_back(new RuleEdge(*static_cast<const RuleEdge*>(edge)));
+        else
+            edges_.push_back(new HyperEdge(*edge));
+    }
     // Re-adjust the links
     for(int i = node_start; i < (int)nodes_.size(); i++) {
         nodes_[i]->SetId(i);
-- 
2.43.0


From b79c690f15541be1eba345581525bc1cab3261f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:18:14 +0000
Subject: [PATCH 24/42] fix: equality of edges and of combined statistics is
 symmetric and compares the whole values

---
 src/lib/eval-measure-adv-interp.cc |  4 ++--
 src/lib/hyper-graph.cc             | 14 ++++++--------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/src/lib/eval-measure-adv-interp.cc b/src/lib/eval-measure-adv-interp.cc
index fa861c7..63d61d3 100644
--- a/src/lib/eval-measure-adv-interp.cc
+++ b/src/lib/eval-measure-adv-interp.cc
@@ -61,9 +61,9 @@ EvalStats & EvalStatsAdvInterp::TimesEquals(EvalStatsDataType mult) {
 }
 bool EvalStatsAdvInterp::Equals(const EvalStats & rhs) const {
     const EvalStatsAdvInterp & rhsi = (const EvalStatsAdvInterp &)rhs;
-    if(stats_.size() != rhsi.stats_.size()) return false;
+    if(stats_.size() != rhsi.stats_.size() || query_ != rhsi.query_) return false;
     for(int i = 0; i < (int)stats_.size(); i++) {
-        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i] || query_[i] != rhsi.query_[i])
+        if(!stats_[i]->Equals(*rhsi.stats_[i]) || vars_[i] != rhsi.vars_[i])
             return false;
     }
     return true;
diff --git a/src/lib/hyper-graph.cc b/src/lib/hyper-graph.cc
index 6e130e0..dd17273 100644
--- a/src/lib/hyper-graph.cc
+++ b/src/lib/hyper-graph.cc
@@ -58,10 +58,9 @@ bool HyperEdge::operator==(const HyperEdge & rhs) const {
         return false;
     if(src_str_ != rhs.src_str_)
         return false;
-    for(int i = 0; i < (int)trg_data_.size(); i++)
-        if(trg_data_ != rhs.trg_data_)
-            return false;
-    if(abs(score_ - rhs.score_) > abs(score_*1e-4))
+    if(trg_data_ != rhs.trg_data_)
+        return false;
+    if(abs(score_ - rhs.score_) > max(abs(score_), abs(rhs.score_))*1e-4)
         return false;
     return true;
 }
@@ -87,10 +86,9 @@ bool RuleEdge::operator==(const RuleEdge & rhs) const {
         return false;
     if(src_str_ != rhs.src_str_)
         return false;
-    for(int i = 0; i < (int)trg_data_.size(); i++)
-        if(trg_data_ != rhs.trg_data_)
-            return false;
-    if(abs(score_ - rhs.score_) > abs(score_*1e-4))
+    if(trg_data_ != rhs.trg_data_)
+        return false;
+    if(abs(score_ - rhs.score_) > max(abs(score_), abs(rhs.score_))*1e-4)
         return false;
     return true;
 }
-- 
2.43.0


From 59260bcb6340c2f837c92bfb30b1633145e50523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 25/42] fix: sort composed edges by size only, not by memory
 address

---
 src/lib/rule-composer.cc | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/lib/rule-composer.cc b/src/lib/rule-composer.cc
index 28f8350..a0846e3 100644
--- a/src/lib/rule-composer.cc
+++ b/src/lib/rule-composer.cc
@@ -2,11 +2,17 @@
 #include <travatar/global-debug.h>
 #include <travatar/rule-composer.h>
 #include <travatar/hyper-graph.h>
+#include <algorithm>
 
 using namespace std;
 using namespace boost;
 using namespace travatar;
 
+// Compare edges by their size only
+static bool SizeLess(const RuleComposer::SizedEdge & lhs, const RuleComposer::SizedEdge & rhs) {
+    return lhs.first < rhs.first;
+}
+
 // Build composed edges
 void RuleComposer::BuildComposedEdges(int id,
                         const vector<vector<RuleEdge*> > & min_edges,
@@ -48,8 +54,8 @@ void RuleComposer::BuildComposedEdges(int id,
         }
         
     }
-    // Finally, sort the edges by size
-    sort(composed_edges[id].begin(), composed_edges[id].end());
+    // Finally, sort the edges by size (edges of the same size stay in order)
+    stable_sort(composed_edges[id].begin(), composed_edges[id].end(), SizeLess);
 }
 
 // Binarize the graph to the right
-- 
2.43.0


From de1b838e626a3170a3857d8f3e92db674f3b3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 26/42] fix: do not order n-best lines by memory address

---
 src/lib/tuning-example-nbest.cc | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/lib/tuning-example-nbest.cc b/src/lib/tuning-example-nbest.cc
index 44b53ea..480d1f4 100644
--- a/src/lib/tuning-example-nbest.cc
+++ b/src/lib/tuning-example-nbest.cc
@@ -44,6 +44,11 @@ SparseMap TuningExampleNbest::CalculatePotentialGain(const SparseMap & weights)
     return ret;
 }
 
+// Compare lines by their slope and value only
+static bool LineLess(const ScoredSpan & lhs, const ScoredSpan & rhs) {
+    return lhs.first < rhs.first;
+}
+
 inline Real FindIntersection(Real s1, Real v1, Real s2, Real v2) {
     return (s1==s2 ? REAL_MAX : (v1-v2)/(s2-s1));
 }
@@ -62,7 +67,7 @@ ConvexHull TuningExampleNbest::CalculateConvexHull(
         lines.push_back(make_pair(make_pair(slope, val), examp.second));
     }
     // Sort in order of ascending slope
-    sort(lines.begin(), lines.end());
+    stable_sort(lines.begin(), lines.end(), LineLess);
     // Start at position zero
     // While we are not finished
     ConvexHull hull;
-- 
2.43.0


From 1c4c4ab5b10d2e003dad89aa8361985fba9eac70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 27/42] fix: seed the random numbers before any tuning task
 starts

---
 src/lib/batch-tune-runner.cc | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index aa59a2b..994b40a 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -207,6 +207,12 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
     // If there is any shared initialization to be done, do it here
     tune->Init(weights);
 
+    // Set the random seed before any tuning starts
+    if(config.GetInt("rand_seed") == 0)
+        srand(time(NULL));
+    else
+        srand(config.GetInt("rand_seed"));
+
     // Build the thread pool
     ThreadPool pool(threads, threads*5);
     pool.SetDeleteTasks(false);
@@ -220,11 +226,6 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
     tasks[1] = boost::shared_ptr<BatchTuneRunnerTask>(new BatchTuneRunnerTask(1, "Zero", *tune, SparseMap()));
     pool.Submit(tasks[1].get());
     
-    // Randomize if necessary
-    if(config.GetInt("rand_seed") == 0)
-        srand(time(NULL));
-    else
-        srand(config.GetInt("rand_seed"));
     for(int i = 2; i < runs; i++) {
         // Randomize the weights
         SparseMap rand_weights = weights;
-- 
2.43.0


From e5ad736f5e1cd8d6adb906b2a2cc934126891468 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:48 +0000
Subject: [PATCH 28/42] fix: seed the PRO sampler from the seeded generator,
 not from the clock

---
 src/lib/weights-online-pro.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/weights-online-pro.cc b/src/lib/weights-online-pro.cc
index 0a21c3b..a35e2ce 100644
--- a/src/lib/weights-online-pro.cc
+++ b/src/lib/weights-online-pro.cc
@@ -21,7 +21,7 @@ using namespace travatar;
 void WeightsOnlinePro::AdjustNbest(
         const std::vector<std::pair<Real,Real> > & scores,
         const std::vector<SparseVector*> & features) {
-    boost::mt19937 gen(time(0));
+    boost::mt19937 gen(rand());
     // Sampling algorithm 1
     vector<pair<Real,pair<int,int> > > samples;
     for(int i = 0; i < num_samples_; i++) {
-- 
2.43.0


From dedd324f260d50bb6ce5b89fd1eb8b8789bba496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:02:45 +0000
Subject: [PATCH 29/42] fix: incremental search put children in the wrong order
 for rules that rotate three or more nonterminals

---
 src/lib/lm-composer-incremental.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/lib/lm-composer-incremental.cc b/src/lib/lm-composer-incremental.cc
index 1082c19..ec396c1 100644
--- a/src/lib/lm-composer-incremental.cc
+++ b/src/lib/lm-composer-incremental.cc
@@ -58,12 +58,15 @@ NBestComplete Forest::Complete(std::vector<PartialEdge> &partial) {
             wids = Sentence(1,-1);
             node_id = vector<WordId>(1);
         }
+        int nt_pos = 0;
         BOOST_FOREACH(WordId wid, wids) {
             if(wid < 0) {
                 int tid = -1-wid;
-                const PartialVertex & part = add.NT()[tid];
+                // The search keeps the children in *target* order
+                const PartialVertex & part = add.NT()[nt_pos++];
                 HyperNode* child = (HyperNode*)part.End();
-                tails.push_back(child);
+                if((int)tails.size() <= tid) tails.resize(tid+1, NULL);
+                tails[tid] = child;
                 edge_score -= child->GetViterbiScore();
                 // Keep track of the node ID
                 node_id[tid] = child->GetId();
-- 
2.43.0


From 63cf090539e9f7d13686ab299923297122f2a9dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:31 +0000
Subject: [PATCH 30/42] fix: the bounds of weight ranges were cut down to whole
 numbers

-weight_ranges and -tune_weight_ranges give real bounds, but they were read with atoi.
---
 src/lib/batch-tune-runner.cc | 4 ++--
 src/lib/travatar-runner.cc   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/lib/batch-tune-runner.cc b/src/lib/batch-tune-runner.cc
index 994b40a..771c8d7 100644
--- a/src/lib/batch-tune-runner.cc
+++ b/src/lib/batch-tune-runner.cc
@@ -154,8 +154,8 @@ void BatchTuneRunner::DoTuning(const ConfigBatchTune & config) {
             if(range_vals.size() != 2 && range_vals.size() != 3)
                 THROW_ERROR("Weight ranges must be in the format MIN|MAX[|NAME]");
             WordId id = (range_vals.size() == 3 ? Dict::WID(range_vals[2]) : -1);
-            Real min_score = (range_vals[0] == "" ? -REAL_MAX : atoi(range_vals[0].c_str()));
-            Real max_score = (range_vals[1] == "" ? REAL_MAX  : atoi(range_vals[1].c_str()));
+            Real min_score = (range_vals[0] == "" ? -REAL_MAX : atof(range_vals[0].c_str()));
+            Real max_score = (range_vals[1] == "" ? REAL_MAX  : atof(range_vals[1].c_str()));
             tune->SetRange(id, min_score, max_score);
         }
     }
diff --git a/src/lib/travatar-runner.cc b/src/lib/travatar-runner.cc
index 20a41db..fefefc1 100644
--- a/src/lib/travatar-runner.cc
+++ b/src/lib/travatar-runner.cc
@@ -245,8 +245,8 @@ void TravatarRunner::Run(const ConfigTravatarRunner & config) {
                 if(range_vals.size() != 2 && range_vals.size() != 3)
                     THROW_ERROR("Weight ranges must be in the format MIN|MAX[|NAME]");
                 WordId id = (range_vals.size() == 3 ? Dict::WID(range_vals[2]) : -1);
-                Real min_score = (range_vals[0] == "" ? -REAL_MAX : atoi(range_vals[0].c_str()));
-                Real max_score = (range_vals[1] == "" ? REAL_MAX  : atoi(range_vals[1].c_str()));
+                Real min_score = (range_vals[0] == "" ? -REAL_MAX : atof(range_vals[0].c_str()));
+                Real max_score = (range_vals[1] == "" ? REAL_MAX  : atof(range_vals[1].c_str()));
                 weights_->SetRange(id, min_score, max_score);
             }
         }
-- 
2.43.0


From 245b611f08d6ea1077630ff9b538f48a6309cbbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:12 +0000
Subject: [PATCH 31/42] fix: train-caser ignored its -debug option

---
 src/lib/train-caser-runner.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/lib/train-caser-runner.cc b/src/lib/train-caser-runner.cc
index 2184112..3cc6ef2 100644
--- a/src/lib/train-caser-runner.cc
+++ b/src/lib/train-caser-runner.cc
@@ -3,6 +3,7 @@
 #include <travatar/sentence.h>
 #include <travatar/dict.h>
 #include <travatar/caser.h>
+#include <travatar/global-debug.h>
 
 #include <boost/unordered_map.hpp>
 #include <boost/foreach.hpp>
@@ -13,6 +14,7 @@ using namespace std;
 using namespace travatar;
 
 void TrainCaserRunner::Run(const ConfigTrainCaserRunner & config) {
+    GlobalVars::debug = config.GetInt("debug");
     string line;
     typedef boost::unordered_map<WordId, boost::unordered_map<WordId, int> > DoubleMap;
     typedef pair<WordId, int> WordCount;
-- 
2.43.0


From 96fcec8f18f494ff93be833aa338a80f8dd0b4d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:23 +0000
Subject: [PATCH 32/42] fix: option values that only began with a number were
 accepted, and zeros such as 0.00 refused

---
 src/lib/config-base.cc | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index 29e833f..a25c65b 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -3,6 +3,7 @@
 #include <boost/algorithm/string.hpp>
 #include <boost/lexical_cast.hpp>
 #include <fstream>
+#include <cstdlib>
 
 using namespace std;
 using namespace travatar;
@@ -119,15 +120,17 @@ std::vector<int> ConfigBase::GetIntArray(const std::string & name) const {
 }
 int ConfigBase::GetInt(const std::string & name) const {
     std::string str = GetString(name);
-    int ret = atoi(str.c_str());
-    if(ret == 0 && str != "0" && str != "00" && str != "000" && str != "0000")
+    char * end;
+    int ret = strtol(str.c_str(), &end, 10);
+    if(end == str.c_str() || *end != 0)
         DIE_HELP("Value '"<<str<<"' for argument "<<name<<" was not an integer");
     return ret;
 }
 Real ConfigBase::GetReal(const std::string & name) const {
     std::string str = GetString(name);
-    Real ret = atof(str.c_str());
-    if(ret == 0 && str != "0" && str != "0.0")
+    char * end;
+    Real ret = strtod(str.c_str(), &end);
+    if(end == str.c_str() || *end != 0)
         DIE_HELP("Value '"<<str<<"' for argument "<<name<<" was not float");
     return ret;
 }
-- 
2.43.0


From 9e995c5d809eb7e3dbb7fc39058c696f221e2dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:36 +0000
Subject: [PATCH 33/42] fix: a negative number given for an option was taken
 for the next option

---
 src/lib/config-base.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/config-base.cc b/src/lib/config-base.cc
index a25c65b..14b350e 100644
--- a/src/lib/config-base.cc
+++ b/src/lib/config-base.cc
@@ -4,6 +4,7 @@
 #include <boost/lexical_cast.hpp>
 #include <fstream>
 #include <cstdlib>
+#include <cctype>
 
 using namespace std;
 using namespace travatar;
@@ -70,7 +71,8 @@ std::vector<std::string> ConfigBase::LoadConfig(int argc, char** argv, bool prin
             ConfigMap::iterator cit = optArgs_.find(name);
             if(cit == optArgs_.end())
                 DIE_HELP("Illegal argument "<<name);
-            if(i == argc-1 || argv[i+1][0] == '-')
+            // a number below zero is a value, not the next option
+            if(i == argc-1 || (argv[i+1][0] == '-' && !isdigit(argv[i+1][1]) && argv[i+1][1] != '.'))
                 cit->second.first = "true";
             else
                 cit->second.first = argv[++i];
-- 
2.43.0


From 29248a0b63a0f993fb596c633ed979b56d93cb44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 34/42] fix: a match that no rule carries, or a line without a
 tree, is not dereferenced

---
 src/lib/forest-extractor-runner.cc |  4 ++++
 src/lib/lookup-table.cc            | 15 +++++++++++----
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/src/lib/forest-extractor-runner.cc b/src/lib/forest-extractor-runner.cc
index fe4f552..a2ee595 100644
--- a/src/lib/forest-extractor-runner.cc
+++ b/src/lib/forest-extractor-runner.cc
@@ -92,6 +92,8 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
         } catch (std::runtime_error & e) {
             THROW_ERROR("Error reading tree on line " << sent+1 << endl << src_line << endl << e.what());
         }
+        if(src_graph.get() == NULL)
+            THROW_ERROR("No source tree on line " << sent+1 << endl << src_line);
         // { /* DEBUG */ JSONTreeIO io; io.WriteTree(*src_graph, cerr); cerr << endl; }
         // Binarizer if necessary
         if(binarizer.get() != NULL)
@@ -103,6 +105,8 @@ void ForestExtractorRunner::Run(const ConfigForestExtractorRunner & config) {
         if(trg_io.get() != NULL) {
             istringstream trg_iss(trg_line);
             boost::shared_ptr<HyperGraph> trg_graph(trg_io->ReadTree(trg_iss));
+            if(trg_graph.get() == NULL)
+                THROW_ERROR("No target tree on line " << sent+1 << endl << trg_line);
             trg_sent = trg_graph->GetWords();
             trg_labs = trg_graph->GetLabeledSpans();    
         } else {
diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 4342e38..04396a3 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -80,16 +80,20 @@ HyperGraph * LookupTable::TransformGraphSrc(const HyperGraph & parse) const {
     // For each node
     BOOST_FOREACH(HyperNode * next_node, ret->GetNodes()) {
         // If there is at least one matching node
-        int my_size = lookups[next_node->GetId()].size();
-        if(my_size > 0) {
+        int my_size = 0;
+        if(lookups[next_node->GetId()].size() > 0) {
             // For each matched portion of the source tree
             BOOST_FOREACH(const boost::shared_ptr<LookupState> & state, lookups[next_node->GetId()]) {
+                // A finished match is not necessarily the whole source side of a rule
+                const vector<TranslationRule*> * rules = FindRules(*state);
+                if(rules == NULL) continue;
+                my_size++;
                 // For each tail in the 
                 vector<HyperNode*> next_tails;
                 BOOST_FOREACH(const HyperNode * tail, state->GetNonterms())
                     next_tails.push_back(ret->GetNode(node_map[tail->GetId()]));
                 // For each rule
-                BOOST_FOREACH(const TranslationRule * rule, *FindRules(*state)) {
+                BOOST_FOREACH(const TranslationRule * rule, *rules) {
                     HyperEdge * next_edge = new HyperEdge(next_node);
                     next_edge->SetTails(next_tails);
                     next_edge->SetRule(rule, state->GetFeatures());
@@ -167,7 +171,10 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
         TargetMap indexed_head;
         BOOST_FOREACH (const boost::shared_ptr<LookupState> & state, spanned_state.first) {
             std::vector<const HyperNode*> non_terms = state->GetNonterms();
-            BOOST_FOREACH (const TranslationRule * rule, *FindRules(*state)) {
+            // A finished match is not necessarily the whole source side of a rule
+            const vector<TranslationRule*> * rules = FindRules(*state);
+            if(rules == NULL) continue;
+            BOOST_FOREACH (const TranslationRule * rule, *rules) {
                 CfgDataVector trg_data = rule->GetTrgData();
                 // head of this rule
                 vector<WordId> heads(trg_data.size(),0);
-- 
2.43.0


From 907d2cf8000b8bab207c26f2755642361b4452a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:33 +0000
Subject: [PATCH 35/42] fix: a head shared with an earlier rule is not deleted
 when a rule cannot be applied

---
 src/lib/lookup-table.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index 04396a3..eb5a865 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -230,8 +230,10 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
                     indexed_head.insert(make_pair(heads, head_node));
                 } else {
                     // this rule can't be applied, delete the component immediately
+                    // (a head that an earlier rule made is still in use)
                     delete next_edge;
-                    delete head_node;
+                    if (indexed_head.find(heads) == indexed_head.end())
+                        delete head_node;
                 }
             } // for rule
         } // for state
-- 
2.43.0


From 59b19dde16207eacdcd7bdfdf44d5bce3531b86a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:14 +0000
Subject: [PATCH 36/42] fix: a word beside other children, or a child that
 comes first, is not looked up among the output nodes

---
 src/lib/lookup-table.cc | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/src/lib/lookup-table.cc b/src/lib/lookup-table.cc
index eb5a865..6c79dd3 100644
--- a/src/lib/lookup-table.cc
+++ b/src/lib/lookup-table.cc
@@ -278,17 +278,20 @@ HyperGraph * LookupTable::TransformGraphSrcTrg(const HyperGraph & parse) const {
                     HyperEdge * parse_edge = new HyperEdge(parse_node);
                     ostringstream oss;
                     if (save_src_str_) oss << Dict::WSym(input_node->GetSym()) << " ("; 
-                    vector<WordId> trg(edge->GetTails().size());
-                    for (size_t i=0; i < trg.size(); ++i) {
-                        if(save_src_str_) oss << " x" << i << ':' << Dict::WSym(edge->GetTail(i)->GetSym()); 
-                        trg[i] = -1 - i;
+                    // Words have no node of their own in the output
+                    BOOST_FOREACH(HyperNode* tail, edge->GetTails()) {
+                        if (tail->IsTerminal()) continue;
+                        GeneralMap::const_iterator child = general_map.find(tail->GetId());
+                        if (child == general_map.end())
+                            THROW_ERROR("Node " << tail->GetId() << " must come after its parent " << input_node->GetId());
+                        if (save_src_str_) oss << " x" << parse_edge->GetTails().size() << ':' << Dict::WSym(tail->GetSym());
+                        parse_edge->AddTail(child->second);
                     }
+                    vector<WordId> trg(parse_edge->GetTails().size());
+                    for (size_t i=0; i < trg.size(); ++i)
+                        trg[i] = -1 - i;
                     parse_edge->SetRule(GetUnknownRule(), edge->GetFeatures());
                     parse_edge->SetTrgData(CfgDataVector(GlobalVars::trg_factors,trg));
-                    BOOST_FOREACH(HyperNode* tail, edge->GetTails()) {
-                        HyperNode* child = general_map.find(tail->GetId())->second;
-                        parse_edge->AddTail(child);
-                    }
                     if (save_src_str_) {
                         oss << " )";
                         parse_edge->SetSrcStr(oss.str());
-- 
2.43.0


From b3e943b71230ae37351d9e23575c340e43eade77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:25 +0000
Subject: [PATCH 37/42] fix: values of a feature given twice are added up

---
 src/lib/sparse-map.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 8c97133..594394a 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -124,7 +124,7 @@ SparseVector::SparseVector(const std::vector<SparsePair> & vec) : impl_(vec) {
     SparseVectorImpl::iterator itl = impl_.begin(), itr = impl_.begin()+1;
     while(itr != impl_.end()) {
         if(itl->first == itr->first) {
-            itl->second += itr->first;
+            itl->second += itr->second;
         } else {
             itl++;
             *itl = *itr;
-- 
2.43.0


From fc48d7d7e59fbfc6fdf5eab1eeab54ab0bb86a8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 38/42] fix: features only in the subtracted vector are
 subtracted, not added

---
 src/lib/sparse-map.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/lib/sparse-map.cc b/src/lib/sparse-map.cc
index 594394a..e4ab631 100644
--- a/src/lib/sparse-map.cc
+++ b/src/lib/sparse-map.cc
@@ -214,7 +214,8 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
     SparseVector::SparseVectorImpl & impl = lhs.GetImpl();
     while(itr != rhs.end()) {
         if(itl == lhs.end()) {
-            impl.insert(itl, itr, rhs.end());
+            for( ; itr != rhs.end(); itr++)
+                impl.push_back(make_pair(itr->first, -itr->second));
             break;
         } else if(itl->first == itr->first) {
             itl->second -= itr->second;
@@ -222,7 +223,7 @@ SparseVector & operator-=(SparseVector & lhs, const SparseVector & rhs) {
         } else if(itl->first < itr->first) {
             itl++;
         } else {
-            itl = impl.insert(itl, *itr);
+            itl = impl.insert(itl, make_pair(itr->first, -itr->second));
             itr++;
         }
     }
-- 
2.43.0


From c6afd8b952b392cba184b1cc01fde100eadc4563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:08 +0000
Subject: [PATCH 39/42] fix: weights of a perceptron can be read without
 changing them

Online tuning reads the weights through a constant reference, which
raised an error for every update rule it offers.
---
 src/include/travatar/weights.h        |  4 ++--
 src/lib/weights-average-perceptron.cc | 16 +++++++++++++---
 src/lib/weights-perceptron.cc         | 16 +++++++++++++---
 3 files changed, 28 insertions(+), 8 deletions(-)

diff --git a/src/include/travatar/weights.h b/src/include/travatar/weights.h
index de19054..744ac3a 100644
--- a/src/include/travatar/weights.h
+++ b/src/include/travatar/weights.h
@@ -78,9 +78,9 @@ public:
     void SetRange(int id, Real min, Real max) {
         ranges_[id] = std::pair<Real,Real>(min,max);
     }
-    std::pair<Real,Real> GetRange(int id) {
+    std::pair<Real,Real> GetRange(int id) const {
         RangeMap::const_iterator it = ranges_.find(id);
-        return (it == ranges_.end() ? ranges_[-1] : it->second);
+        return (it == ranges_.end() ? ranges_.find(-1)->second : it->second);
     }
 
 protected:
diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index 6308526..003ed0d 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -52,10 +52,20 @@ void WeightsAveragePerceptron::Update(
     PRINT_DEBUG(current_ << std::endl, 2);
 }
 
-// Not currently implemented. Will need to add the weights as volataile and locks.
+// Get the current value of a weight without bringing the stored one up to date
 Real WeightsAveragePerceptron::GetCurrent(const SparseMap::key_type & key) const {
-    THROW_ERROR("Constant access to perceptron weights is not currently supported");
-    return 0.0;
+    SparseMap::const_iterator it = current_.find(key);
+    // Non-existant weights are zero
+    if(it == current_.end())
+        return 0.0;
+    // Find the difference between the last update
+    SparseIntMap::const_iterator last = last_update_.find(key);
+    int diff = curr_iter_ - (last != last_update_.end() ? last->second : 0);
+    if(diff == 0)
+        return it->second;
+    Real reg = diff*l1_coeff_;
+    Real val = (it->second > 0 ? max(it->second-reg,(Real)0.0) : min(it->second+reg,(Real)0.0));
+    return InRange(val, GetRange(key));
 }
 // Get the current values of the weights at this point in learning
 Real WeightsAveragePerceptron::GetCurrent(const SparseMap::key_type & key) {
diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 7758465..278a26f 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -33,10 +33,20 @@ void WeightsPerceptron::Update(
     PRINT_DEBUG(current_ << std::endl, 2);
 }
 
-// Not currently implemented. Will need to add the weights as volataile and locks.
+// Get the current value of a weight without bringing the stored one up to date
 Real WeightsPerceptron::GetCurrent(const SparseMap::key_type & key) const {
-    THROW_ERROR("Constant access to perceptron weights is not currently supported");
-    return 0.0;
+    SparseMap::const_iterator it = current_.find(key);
+    // Non-existant weights are zero
+    if(it == current_.end())
+        return 0.0;
+    // Find the difference between the last update
+    SparseIntMap::const_iterator last = last_update_.find(key);
+    int diff = curr_iter_ - (last != last_update_.end() ? last->second : 0);
+    if(diff == 0)
+        return it->second;
+    Real reg = diff*l1_coeff_;
+    Real val = (it->second > 0 ? max(it->second-reg,(Real)0.0) : min(it->second+reg,(Real)0.0));
+    return InRange(val, GetRange(key));
 }
 // Get the current values of the weights at this point in learning
 Real WeightsPerceptron::GetCurrent(const SparseMap::key_type & key) {
-- 
2.43.0


From b7c744a9d8e1c98dd49aa021311327d193ee6dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 40/42] fix: the weights of online PRO are those of the update
 rule it uses

The values read or set one by one were those of a map of its own.
---
 src/include/travatar/weights-online-pro.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/include/travatar/weights-online-pro.h b/src/include/travatar/weights-online-pro.h
index aaaea13..97c5ec5 100644
--- a/src/include/travatar/weights-online-pro.h
+++ b/src/include/travatar/weights-online-pro.h
@@ -24,8 +24,13 @@ public:
             const std::vector<std::pair<Real,Real> > & scores,
             const std::vector<SparseVector*> & features);
 
+    virtual Real GetCurrent(const SparseMap::key_type & key) const {
+        return static_cast<const Weights &>(*weights_).GetCurrent(key);
+    }
+    virtual Real GetCurrent(const SparseMap::key_type & key) { return weights_->GetCurrent(key); }
     virtual const SparseMap & GetCurrent() const { return weights_->GetCurrent(); }
     virtual const SparseMap & GetFinal() { return weights_->GetFinal(); }
+    virtual void SetCurrent(const SparseMap::key_type & key, Real val) { weights_->SetCurrent(key, val); }
     virtual void SetCurrent(const SparseMap & weights) { weights_->SetCurrent(weights); }
 
 protected:
-- 
2.43.0


From eced54d125602f4c27598a116697beb7686bd824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:41 +0000
Subject: [PATCH 41/42] fix: zero weights were removed from the map being gone
 through

---
 src/lib/weights-perceptron.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/lib/weights-perceptron.cc b/src/lib/weights-perceptron.cc
index 278a26f..8b56467 100644
--- a/src/lib/weights-perceptron.cc
+++ b/src/lib/weights-perceptron.cc
@@ -10,8 +10,10 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 
 // Get the final values of the weights
 const SparseMap & WeightsPerceptron::GetFinal() {
-    BOOST_FOREACH(SparseMap::value_type val, current_)
-        val.second = GetCurrent(val.first);
+    // GetCurrent removes the weights that have become zero, so go through a copy
+    SparseMap prev = current_;
+    BOOST_FOREACH(const SparseMap::value_type & val, prev)
+        GetCurrent(val.first);
     return current_;
 }
 
-- 
2.43.0


From ca301ad77977b18ded564977cc1b57f37f8d9eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:46 +0000
Subject: [PATCH 42/42] fix: averaged zero weights were removed from the map
 being gone through

---
 src/lib/weights-average-perceptron.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/lib/weights-average-perceptron.cc b/src/lib/weights-average-perceptron.cc
index 003ed0d..f059716 100644
--- a/src/lib/weights-average-perceptron.cc
+++ b/src/lib/weights-average-perceptron.cc
@@ -12,7 +12,9 @@ inline Real InRange(Real val, pair<Real,Real> range) {
 // Get the final values of the weights
 const SparseMap & WeightsAveragePerceptron::GetFinal() {
     if(curr_iter_) {
-        BOOST_FOREACH(SparseMap::value_type final_val, current_) {
+        // GetCurrent removes the weights that have become zero, so go through a copy
+        SparseMap prev = current_;
+        BOOST_FOREACH(const SparseMap::value_type & final_val, prev) {
             // Save the old value and get the new value in the range
             int prev_iter = last_update_[final_val.first];
             Real avg_val = final_[final_val.first];
-- 
2.43.0

