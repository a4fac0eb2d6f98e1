From b6bd231788651f77dff5209eb2d8c06877457afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:44:34 +0000
Subject: [PATCH 01/39] fix: Cache forwards registered evaluations to the
 function it decorates

---
 lib/hnco/functions/controllers/controller.hh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/hnco/functions/controllers/controller.hh b/lib/hnco/functions/controllers/controller.hh
index 5ba23c3..a15a613 100644
--- a/lib/hnco/functions/controllers/controller.hh
+++ b/lib/hnco/functions/controllers/controller.hh
@@ -406,6 +406,9 @@ public:
   /// Evaluate a bit vector
   double evaluate(const bit_vector_t&);
 
+  /// Update after a safe evaluation
+  void update(const bit_vector_t& bv, double value) { _function->update(bv, value); }
+
   ///@}
 
   /// Get lookup ratio
-- 
2.43.0


From eb46dad1d32e0755cc70c9da6a98a32bf3eb758b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:45:11 +0000
Subject: [PATCH 02/39] fix: StopOnTarget and ProgressTracker record the bit
 vector evaluated incrementally, not its origin

---
 lib/hnco/functions/controllers/controller.cc | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/controllers/controller.cc b/lib/hnco/functions/controllers/controller.cc
index 5b34e0a..c349689 100644
--- a/lib/hnco/functions/controllers/controller.cc
+++ b/lib/hnco/functions/controllers/controller.cc
@@ -45,6 +45,7 @@ StopOnTarget::evaluate_incrementally(const bit_vector_t& bv, double value, const
   double result = _function->evaluate_incrementally(bv, value, flipped_bits);
   if (result >= _target) {
     _trigger.first = bv;
+    bv_flip(_trigger.first, flipped_bits);
     _trigger.second = result;
     throw TargetReached();
   }
@@ -128,7 +129,13 @@ double
 ProgressTracker::evaluate_incrementally(const bit_vector_t& bv, double value, const hnco::sparse_bit_vector_t& flipped_bits)
 {
   double result = CallCounter::evaluate_incrementally(bv, value, flipped_bits);
-  update_last_improvement(bv, result);
+  if (_record_bit_vector) {
+    bit_vector_t flipped(bv);
+    bv_flip(flipped, flipped_bits);
+    update_last_improvement(flipped, result);
+  } else {
+    update_last_improvement(bv, result);
+  }
   return result;
 }
 
-- 
2.43.0


From d5ac3ba885d15d47144558e00fb31a5f7fda2f3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:16 +0000
Subject: [PATCH 03/39] fix: NpsPbil computes the mean of the worst individuals
 from the worst ones

---
 lib/hnco/algorithms/probability-vector/nps-pbil.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/nps-pbil.cc b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
index c6a752b..d648752 100644
--- a/lib/hnco/algorithms/probability-vector/nps-pbil.cc
+++ b/lib/hnco/algorithms/probability-vector/nps-pbil.cc
@@ -58,7 +58,7 @@ NpsPbil::iterate()
 
   pv_init(_mean_worst);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_mean_worst, _population.get_best_bv(i));
+    pv_add(_mean_worst, _population.get_worst_bv(i));
   pv_average(_mean_worst, _selection_size);
 
   pv_update(_pv, _mean_best, _mean_worst, _learning_rate);
-- 
2.43.0


From af7d387bc1f574d1141f6af819a9acad55053523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:16 +0000
Subject: [PATCH 04/39] fix: RamUmda2 learns its probability vector from the
 selected individuals

---
 lib/hnco/algorithms/probability-vector/ram-umda.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index b634e26..2811c7c 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -144,7 +144,7 @@ RamUmda2::iterate()
   // Compute probability vector in the solution space
   pv_init(_pv);
   for (int i = 0; i < _selection_size; i++)
-    pv_add(_pv, _population_x.bvs[i]);
+    pv_add(_pv, _population_x.get_best_bv(i));
   pv_average(_pv, _selection_size);
   pv_bound(_pv, _lower_bound, _upper_bound);
 
-- 
2.43.0


From 514fda6d7c8eb0f197f4adae1bfe33cd0a5c4cd2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:16 +0000
Subject: [PATCH 05/39] fix: do not evaluate candidates again inside an
 assertion in CompactGa

---
 lib/hnco/algorithms/probability-vector/compact-ga.cc | 2 --
 1 file changed, 2 deletions(-)

diff --git a/lib/hnco/algorithms/probability-vector/compact-ga.cc b/lib/hnco/algorithms/probability-vector/compact-ga.cc
index d6bb120..fb70d12 100644
--- a/lib/hnco/algorithms/probability-vector/compact-ga.cc
+++ b/lib/hnco/algorithms/probability-vector/compact-ga.cc
@@ -55,8 +55,6 @@ CompactGa::iterate()
   } else
     update_solution(_candidates[0], v0);
 
-  assert(_function->evaluate(_candidates[best]) >= _function->evaluate(_candidates[worst]));
-
   // Update probability vector
   for (size_t i = 0; i < _pv.size(); i++)
     if (_candidates[best][i] != _candidates[worst][i]) {
-- 
2.43.0


From f4113dcf02e83b7c116e7413fe4dd7af3c94e047 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:16 +0000
Subject: [PATCH 06/39] fix: OnePlusLambdaCommaLambdaGa stays in range when all
 offsprings have the same value

---
 .../one-plus-lambda-comma-lambda-ga.cc                        | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
index 8504b8f..b163367 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/one-plus-lambda-comma-lambda-ga.cc
@@ -51,7 +51,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
 
   double value = _offsprings.get_best_value(0);
   int n = 0;
-  while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+  while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
     n++;
   assert(n > 0);
   std::uniform_int_distribution<int> choose_parent(0, n - 1);
@@ -67,7 +67,7 @@ OnePlusLambdaCommaLambdaGa::iterate()
   value = _offsprings.get_best_value(0);
   if (value >= _solution.second) {
     n = 0;
-    while (_offsprings.get_best_value(n) == value && n < _offsprings.get_size())
+    while (n < _offsprings.get_size() && _offsprings.get_best_value(n) == value)
       n++;
     assert(n > 0);
     choose_parent = std::uniform_int_distribution<int>(0, n - 1);
-- 
2.43.0


From 4a0a4869642054e5b4d1fb39843e14d280933643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:16 +0000
Subject: [PATCH 07/39] fix: RandomWalk starts incremental evaluation from the
 value of its starting point

---
 lib/hnco/algorithms/local-search/random-walk.hh | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/hnco/algorithms/local-search/random-walk.hh b/lib/hnco/algorithms/local-search/random-walk.hh
index a802912..f1bc216 100644
--- a/lib/hnco/algorithms/local-search/random-walk.hh
+++ b/lib/hnco/algorithms/local-search/random-walk.hh
@@ -59,6 +59,12 @@ protected:
    */
   ///@{
 
+  /// Initialize
+  void init() override {
+    LocalSearchAlgorithm<neighborhood::Neighborhood>::init();
+    _value = _solution.second;
+  }
+
   /// Single iteration
   void iterate() override;
 
-- 
2.43.0


From b2c7fb0df56d5e7ad0d2520ca6332c0748f94ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:16 +0000
Subject: [PATCH 08/39] fix: TournamentSelection returns the winner of the last
 round before shuffling

---
 lib/hnco/multiobjective/algorithms/random-selection.hh | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/hnco/multiobjective/algorithms/random-selection.hh b/lib/hnco/multiobjective/algorithms/random-selection.hh
index bfb31d2..aa00398 100644
--- a/lib/hnco/multiobjective/algorithms/random-selection.hh
+++ b/lib/hnco/multiobjective/algorithms/random-selection.hh
@@ -95,12 +95,12 @@ public:
   const bit_vector_t& select() {
     assert(is_in_range(_stop, 2, _bvs.size() + 1));
 
-    int winner = _start;
+    int winner = _permutation[_start];
     T best_value = _values[_permutation[_start]];
     for (int challenger = _start + 1; challenger < _stop; challenger++) {
       T value = _values[_permutation[challenger]];
       if (_compare(value, best_value)) {
-        winner = challenger;
+        winner = _permutation[challenger];
         best_value = value;
       }
     }
@@ -110,7 +110,7 @@ public:
     if (_stop > int(_bvs.size()))
       init();
 
-    return _bvs[_permutation[winner]];
+    return _bvs[winner];
   }
 
   /** @name Setters
-- 
2.43.0


From 1c0734c4d118cdaaf4139bd7f6a16e4bb4119e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:16 +0000
Subject: [PATCH 09/39] fix: TriangularMomentGibbsSampler::update_sync stays
 inside the triangular matrix

---
 lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
index 0c81e00..72fed03 100644
--- a/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
+++ b/lib/hnco/algorithms/walsh-moment/gibbs-sampler.cc
@@ -73,10 +73,11 @@ TriangularMomentGibbsSampler::update_sync()
     for (size_t j = 0; j < _state.size(); j++) {
       if (j == i)
         continue;
+      double parameter = j < i ? row[j] : _model_parameters.second_moment[j][i];
       if (_state[j])
-        delta -= row[j];
+        delta -= parameter;
       else
-        delta += row[j];
+        delta += parameter;
     }
     delta *= -2;
 
-- 
2.43.0


From 2fd9c2af0371be28db22a88b6fc31540319e6d38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:16 +0000
Subject: [PATCH 10/39] fix: infinite norms of moments take absolute values

---
 lib/hnco/algorithms/walsh-moment/walsh-moment.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
index dba6f21..6f2d9ae 100644
--- a/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
+++ b/lib/hnco/algorithms/walsh-moment/walsh-moment.cc
@@ -208,10 +208,10 @@ TriangularMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
@@ -424,10 +424,10 @@ FullMoment::norm_infinite() const
 {
   double result = 0;
   for (size_t i = 0; i < first_moment.size(); i++) {
-    result = std::max(result, first_moment[i]);
+    result = std::max(result, std::fabs(first_moment[i]));
     const std::vector<double>& row = second_moment[i];
     for (size_t j = 0; j < i; j++)
-      result = std::max(result, row[j]);
+      result = std::max(result, std::fabs(row[j]));
   }
   return result;
 }
-- 
2.43.0


From f6b6fb929d05f95a9d97c701a0f2e7676ea1217a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:53 +0000
Subject: [PATCH 11/39] fix: OppositeFunction provides incremental evaluation
 only if its function does

---
 lib/hnco/functions/modifiers/modifier.hh | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/modifiers/modifier.hh b/lib/hnco/functions/modifiers/modifier.hh
index 5ae20fe..c3fa693 100644
--- a/lib/hnco/functions/modifiers/modifier.hh
+++ b/lib/hnco/functions/modifiers/modifier.hh
@@ -63,9 +63,9 @@ public:
   int get_bv_size() const override { return _function->get_bv_size(); }
   /**
    * Check whether the function provides incremental evaluation.
-   * @return true
+   * @return true if the decorated function does
    */
-  bool provides_incremental_evaluation() const override { return true; }
+  bool provides_incremental_evaluation() const override { return _function->provides_incremental_evaluation(); }
   ///@}
 
   /**
-- 
2.43.0


From b22279aaf10daf479d7e20d3fed0146001086c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:53 +0000
Subject: [PATCH 12/39] fix: StandardBitMutation honours the no mutation flag
 whatever the sampling method

---
 lib/hnco/neighborhoods/neighborhood.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/neighborhoods/neighborhood.cc b/lib/hnco/neighborhoods/neighborhood.cc
index 05620e2..195e62b 100644
--- a/lib/hnco/neighborhoods/neighborhood.cc
+++ b/lib/hnco/neighborhoods/neighborhood.cc
@@ -86,7 +86,7 @@ void
 StandardBitMutation::bernoulli_process()
 {
   _flipped_bits.clear();
-  bool again = true;
+  bool again = !_allow_no_mutation;
   do {
     for (size_t i = 0; i < _candidate.size(); i++)
       if (_bernoulli_dist(Generator::engine)) {
-- 
2.43.0


From 765fa97b2d036fb99095dfb4ab3b165a556409cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:53 +0000
Subject: [PATCH 13/39] fix: transvection sampling does not keep what the
 sequence contained

---
 lib/hnco/maps/transvection.cc | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/hnco/maps/transvection.cc b/lib/hnco/maps/transvection.cc
index 5ec0d9a..4258825 100644
--- a/lib/hnco/maps/transvection.cc
+++ b/lib/hnco/maps/transvection.cc
@@ -184,6 +184,7 @@ void hnco::map::ts_random_commuting(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -246,6 +247,7 @@ void hnco::map::ts_random_unique_source(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -279,6 +281,7 @@ void hnco::map::ts_random_unique_destination(transvection_sequence_t& ts, int n,
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -312,6 +315,7 @@ void hnco::map::ts_random_disjoint(transvection_sequence_t& ts, int n, int t)
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
@@ -342,6 +346,7 @@ void hnco::map::ts_random_non_commuting(transvection_sequence_t& ts, int n, int
 {
   assert(n > 1);
 
+  ts.clear();
   if (t <= 0)
     return;
 
-- 
2.43.0


From 067cad340f8be979df6b2313365b3bba1772ed8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:53 +0000
Subject: [PATCH 14/39] fix: bm_solve_upper_triangular detects singular
 matrices

---
 lib/hnco/bit-matrix.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/bit-matrix.cc b/lib/hnco/bit-matrix.cc
index 2f5155f..169f6bc 100644
--- a/lib/hnco/bit-matrix.cc
+++ b/lib/hnco/bit-matrix.cc
@@ -302,6 +302,8 @@ bool hnco::bm_solve_upper_triangular(bit_matrix_t& A, bit_vector_t& b)
 
   for (int k = 0; k < nrows; k++) {
     int i = nrows - 1 - k;
+    if (!A[i][i])
+      return false;
     for (int j = 0; j < i; j++)
       if (A[j][i]) {
         bm_add_rows(A, j, i);
-- 
2.43.0


From 15cf0ada10eb960d864dd030104d20311f236a26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:53 +0000
Subject: [PATCH 15/39] fix: random Sudoku instances set the number of
 variables and the given digits

---
 lib/hnco/functions/collection/sudoku.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/hnco/functions/collection/sudoku.cc b/lib/hnco/functions/collection/sudoku.cc
index e6ca2fb..d647073 100644
--- a/lib/hnco/functions/collection/sudoku.cc
+++ b/lib/hnco/functions/collection/sudoku.cc
@@ -115,10 +115,13 @@ Sudoku::random(int c)
   // Digits to erase
   bit_vector_t erase(81);
   bv_random(erase, c);
+  _num_variables = c;
   for (int i = 0; i < 9; i++) {
     for (int j = 0; j < 9; j++) {
       if (erase[i + 9 * j])
         _problem_instance[i][j] = '.';
+      else
+        _candidate[i][j] = _problem_instance[i][j] - '0';
     }
   }
 }
-- 
2.43.0


From 335aad76124031a9b88aa6de22cce84852481ef1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:53 +0000
Subject: [PATCH 16/39] fix: NkLandscape can be generated again with another
 number of neighbors

---
 lib/hnco/functions/collection/nk-landscape.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/nk-landscape.cc b/lib/hnco/functions/collection/nk-landscape.cc
index b94b633..487e8ae 100644
--- a/lib/hnco/functions/collection/nk-landscape.cc
+++ b/lib/hnco/functions/collection/nk-landscape.cc
@@ -36,8 +36,8 @@ NkLandscape::random_structure(int n, int k)
   assert(n > 0);
   assert(k > 0);
 
-  _neighbors.resize(n, std::vector<int>(k + 1));
-  _partial_functions.resize(n, std::vector<double>(1 << (k + 1)));
+  _neighbors.assign(n, std::vector<int>(k + 1));
+  _partial_functions.assign(n, std::vector<double>(1 << (k + 1)));
 
   size_t length = _partial_functions.size();
 
-- 
2.43.0


From 594c1ed08e626357a8448b7bdceaf9e3447c2344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:53 +0000
Subject: [PATCH 17/39] fix: Qubo reads coefficients in double precision

---
 lib/hnco/functions/collection/qubo.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/qubo.cc b/lib/hnco/functions/collection/qubo.cc
index 42bd5e4..e2accce 100644
--- a/lib/hnco/functions/collection/qubo.cc
+++ b/lib/hnco/functions/collection/qubo.cc
@@ -103,7 +103,7 @@ Qubo::load(std::istream& stream)
 
       std::istringstream iss(line);
       int i, j;
-      float value;
+      double value;
 
       iss >> i;
       if (iss.fail() || i < 0 || !(i < dimension))
-- 
2.43.0


From 5cded18dd658a71d035819a35f9bbb62dbcd4d9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:53 +0000
Subject: [PATCH 18/39] fix: a random solution refused by the function leaves
 the current one untouched

---
 lib/hnco/algorithms/algorithm.cc | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/algorithm.cc b/lib/hnco/algorithms/algorithm.cc
index d5c8b3f..d3f453a 100644
--- a/lib/hnco/algorithms/algorithm.cc
+++ b/lib/hnco/algorithms/algorithm.cc
@@ -30,8 +30,9 @@ Algorithm::random_solution()
 {
   assert(_function);
 
-  bv_random(_solution.first);
-  _solution.second = _function->evaluate(_solution.first);
+  bit_vector_t bv(_solution.first.size());
+  bv_random(bv);
+  set_solution(bv);
 }
 
 void
-- 
2.43.0


From 0927e2eeb373cd8560613958c0e3e362e399e770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:54:53 +0000
Subject: [PATCH 19/39] fix: Restart reports the best solution of an
 interrupted run

---
 lib/hnco/algorithms/decorators/restart.cc | 28 ++++++++++++++++++-----
 lib/hnco/algorithms/decorators/restart.hh | 18 +++++++++------
 2 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/lib/hnco/algorithms/decorators/restart.cc b/lib/hnco/algorithms/decorators/restart.cc
index 17a98ca..525f072 100644
--- a/lib/hnco/algorithms/decorators/restart.cc
+++ b/lib/hnco/algorithms/decorators/restart.cc
@@ -26,27 +26,43 @@ using namespace hnco::exception;
 
 
 void
-Restart::iterate(bool first_iteration)
+Restart::iterate()
 {
   _algorithm->maximize(_functions);
   _algorithm->finalize();
-  if (first_iteration)
-    _solution = _algorithm->get_solution();
-  else
+  collect_solution();
+}
+
+void
+Restart::collect_solution()
+{
+  if (_has_solution)
     update_solution(_algorithm->get_solution());
+  else {
+    _solution = _algorithm->get_solution();
+    _has_solution = true;
+  }
+}
+
+void
+Restart::finalize()
+{
+  _algorithm->finalize();
+  collect_solution();
 }
 
 void
 Restart::maximize(const std::vector<function::Function *>& functions)
 {
   set_functions(functions);
+  _has_solution = false;
   if (_num_iterations > 0) {
     for (int i = 0; i < _num_iterations; i++) {
-      iterate(i == 0);
+      iterate();
     }
   } else {
     for (int i = 0;; i++) {
-      iterate(i == 0);
+      iterate();
     }
   }
 }
diff --git a/lib/hnco/algorithms/decorators/restart.hh b/lib/hnco/algorithms/decorators/restart.hh
index 842a0d6..3294647 100644
--- a/lib/hnco/algorithms/decorators/restart.hh
+++ b/lib/hnco/algorithms/decorators/restart.hh
@@ -40,13 +40,14 @@ class Restart: public Decorator {
   /// Number of iterations
   int _num_iterations = 0;
 
-  /**
-   * Iterate.
-   *
-   * @param first_iteration Boolean which is true if this is the first
-   * iteration.
-   */
-  void iterate(bool first_iteration);
+  /// Is there a solution from a previous iteration?
+  bool _has_solution = false;
+
+  /// Iterate
+  void iterate();
+
+  /// Collect the solution of the algorithm
+  void collect_solution();
 
 public:
 
@@ -63,6 +64,9 @@ public:
   /// Maximize
   void maximize(const std::vector<function::Function *>& functions) override;
 
+  /// Finalize
+  void finalize() override;
+
   ///@}
 
   /**
-- 
2.43.0


From f2c2b66fa5a2e2823695b7415107a0ef951244a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:19 +0000
Subject: [PATCH 20/39] fix: Nsga2 uses its crossover probability

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index d9e0358..65c7d52 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -40,6 +40,8 @@ Nsga2::init()
   _mutation.set_mutation_rate(_mutation_rate);
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
+  _do_crossover = std::bernoulli_distribution(_crossover_probability);
+
   _parents.random();
   _parents.evaluate(_function);
 
-- 
2.43.0


From 407224f85261fd5da32b76d839060b5ada211e4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:55:19 +0000
Subject: [PATCH 21/39] fix: Nsga2 can be run again after its solutions have
 been collected

---
 lib/hnco/multiobjective/algorithms/nsga2.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/hnco/multiobjective/algorithms/nsga2.cc b/lib/hnco/multiobjective/algorithms/nsga2.cc
index 65c7d52..ad960ec 100644
--- a/lib/hnco/multiobjective/algorithms/nsga2.cc
+++ b/lib/hnco/multiobjective/algorithms/nsga2.cc
@@ -152,6 +152,7 @@ Nsga2::finalize()
   Nsga2ParetoFrontComputation computation(_parents);
   computation.compute(fronts);
 
+  _solutions = _parents;
   int index = 0;
   for (int i = 0; i < _parents.get_size(); i++) {
     if (fronts[i] == 0) {
-- 
2.43.0


From 60342d732d84a8b12fc40e2c029c1123ba9e3f73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:58:08 +0000
Subject: [PATCH 22/39] fix: the prior noise neighborhood has the size of the
 composed function

---
 lib/hnco/app/decorated-function-factory.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/app/decorated-function-factory.cc b/lib/hnco/app/decorated-function-factory.cc
index 296e75e..f1d515f 100644
--- a/lib/hnco/app/decorated-function-factory.cc
+++ b/lib/hnco/app/decorated-function-factory.cc
@@ -230,7 +230,7 @@ DecoratedFunctionFactory::make_function_modifier()
 
   // Prior noise
   if (_options.with_prior_noise()) {
-    Neighborhood *nh = make_prior_noise_neighborhood(_options, bv_size);
+    Neighborhood *nh = make_prior_noise_neighborhood(_options, function->get_bv_size());
     function = new PriorNoise(function, nh);
   }
 
-- 
2.43.0


From 8390e4e383ed718608517f5e376bd9ffb2c5a3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:58:08 +0000
Subject: [PATCH 23/39] fix: the description of the solution does not apply the
 map twice

---
 lib/hnco/app/application.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index e6c5f92..33bc96e 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -256,13 +256,13 @@ CommandLineApplication::manage_solution(const bit_vector_t& bv)
 
   // Print description
   if (_options.with_print_description()) {
-    _fn->describe(concrete_solution, std::cout);
+    _fn->describe(bv, std::cout);
   }
 
   // Save description
   if (_options.with_save_description()) {
     std::ofstream stream(_options.get_description_path());
-    _fn->describe(concrete_solution, stream);
+    _fn->describe(bv, stream);
   }
 }
 
-- 
2.43.0


From 34b6d4b6ea929f86787529fc6982dcc79a0591c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 20:58:08 +0000
Subject: [PATCH 24/39] fix: evaluating a loaded solution does not trigger the
 stopping criteria

---
 lib/hnco/app/application.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index 33bc96e..320946c 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -92,7 +92,7 @@ CommandLineApplication::load_solution()
     if (int(x.size()) != _fn->get_bv_size())
       throw std::runtime_error("CommandLineApplication::load_solution: Solution size and function bv_size must be equal");
     if (_options.with_print_results())
-      std::cout << _fn->evaluate(x) << std::endl;
+      std::cout << _fn->evaluate_safely(x) << std::endl;
     if (_options.with_print_description())
       _fn->describe(x, std::cout);
     exit(0);
-- 
2.43.0


From 53b14eb44e29eecb27222d5a0b0ec19f7e1446f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 25/39] fix: AbstractMaxSat::load refuses files without p line
 and blank clauses

---
 lib/hnco/functions/collection/max-sat.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/max-sat.cc b/lib/hnco/functions/collection/max-sat.cc
index 7db546a..4dabb75 100644
--- a/lib/hnco/functions/collection/max-sat.cc
+++ b/lib/hnco/functions/collection/max-sat.cc
@@ -115,7 +115,7 @@ AbstractMaxSat::load_(std::istream& stream)
         throw std::runtime_error("AbstractMaxSat::load: No p line");
 
       std::istringstream iss(line);
-      int n;
+      int n = -1;
       std::vector<int> clause;
 
       while (has_next_variable(iss)) {
@@ -142,6 +142,9 @@ AbstractMaxSat::load_(std::istream& stream)
     }
   }
 
+  if (!spec)
+    throw std::runtime_error("AbstractMaxSat::load: No p line");
+
   if (int(_expression.size()) != num_clauses)
     throw std::runtime_error("AbstractMaxSat::load: Incoherent number of clauses");
 
-- 
2.43.0


From 12643ea4812ff5fd7a89a453cfe14039f21f932d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 26/39] fix: Qubo::load refuses files without p line

---
 lib/hnco/functions/collection/qubo.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/hnco/functions/collection/qubo.cc b/lib/hnco/functions/collection/qubo.cc
index e2accce..fbb4de9 100644
--- a/lib/hnco/functions/collection/qubo.cc
+++ b/lib/hnco/functions/collection/qubo.cc
@@ -129,6 +129,9 @@ Qubo::load(std::istream& stream)
     }
   }
 
+  if (!spec)
+    throw std::runtime_error("Qubo::load: No p line");
+
   if (count_other_elements != num_other_elements)
     throw std::runtime_error("Qubo::load: Not enough off diagonal elements");
   if (count_diagonal_elements != num_diagonal_elements)
-- 
2.43.0


From 9f2cd79f72bdc0f90bc6a1c5cd50dde977680562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:15:09 +0000
Subject: [PATCH 27/39] fix: Factorization::load refuses files which do not
 contain exactly one natural number

---
 lib/hnco/functions/collection/factorization.hh | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/functions/collection/factorization.hh b/lib/hnco/functions/collection/factorization.hh
index 82773d0..96fb10e 100644
--- a/lib/hnco/functions/collection/factorization.hh
+++ b/lib/hnco/functions/collection/factorization.hh
@@ -4,6 +4,7 @@
 #include <gmp.h>
 #include <gmpxx.h>
 
+#include <algorithm>            // std::all_of
 #include <string>
 #include <vector>
 #include <fstream>
@@ -103,8 +104,10 @@ public:
     std::ifstream stream(path);
     if (!stream.good())
       throw std::runtime_error("Factorization::load: Cannot open " + path);
-    std::string number;
+    std::string number, extra;
     stream >> number;
+    if (number.empty() || !std::all_of(number.begin(), number.end(), [](char c){ return '0' <= c && c <= '9'; }) || stream >> extra)
+      throw std::runtime_error("Factorization::load: Exactly one natural number is needed in " + path);
     set_number(number);
   }
 
-- 
2.43.0


From 8f5db319de1051abc385169e512d40e9151c85ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:16:22 +0000
Subject: [PATCH 28/39] fix: Tsp::load refuses files with missing, unreadable
 or out of range cities

---
 lib/hnco/functions/collection/tsp.cc | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/functions/collection/tsp.cc b/lib/hnco/functions/collection/tsp.cc
index a76c45e..df52377 100644
--- a/lib/hnco/functions/collection/tsp.cc
+++ b/lib/hnco/functions/collection/tsp.cc
@@ -18,6 +18,7 @@
 
 */
 
+#include <algorithm>            // std::find
 #include <iostream>
 #include <fstream>
 #include <sstream>
@@ -37,6 +38,9 @@ Tsp::load(std::string path) {
 void
 Tsp::load_(std::istream& stream)
 {
+  bool has_coordinates = false;
+  _num_cities = 0;
+
   std::string line;
   std::string key, value;
 
@@ -74,27 +78,41 @@ Tsp::load_(std::istream& stream)
         throw std::runtime_error("Tsp::load_: Unknown edge weight type: " + value);
     } else if (key == "NODE_COORD_SECTION") {
       load_coordinates(stream);
+      has_coordinates = true;
       compute_distances();
       break;
     }
   }
+
+  if (!has_coordinates)
+    throw std::runtime_error("Tsp::load_: Missing NODE_COORD_SECTION");
 }
 
 void
 Tsp::load_coordinates(std::istream& stream)
 {
-  assert(_num_cities > 0);
+  if (_num_cities <= 0)
+    throw std::runtime_error("Tsp::load_coordinates: Bad or missing DIMENSION");
   _xs.resize(_num_cities);
   _ys.resize(_num_cities);
+  std::vector<bool> seen(_num_cities, false);
+
   while (!stream.eof()) {
     int index;
     stream >> index;
     if (stream.fail())
       break;
-    assert((index >= 1) && (index <= _num_cities));
+    if (index < 1 || index > _num_cities)
+      throw std::runtime_error("Tsp::load_coordinates: City index out of range");
     stream >> _xs[index - 1];
     stream >> _ys[index - 1];
+    if (stream.fail())
+      throw std::runtime_error("Tsp::load_coordinates: Bad coordinates");
+    seen[index - 1] = true;
   }
+
+  if (std::find(seen.begin(), seen.end(), false) != seen.end())
+    throw std::runtime_error("Tsp::load_coordinates: Missing city");
 }
 
 void
-- 
2.43.0


From d146aea4913ebe25c39a62e982d3d3049ed3d4e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:47:50 +0000
Subject: [PATCH 29/39] fix: DyadicIntegerRepresentation computes its exact
 size without overflow or rounding

---
 lib/hnco/representations/integer.hh | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/representations/integer.hh b/lib/hnco/representations/integer.hh
index 3fa243a..91e232b 100644
--- a/lib/hnco/representations/integer.hh
+++ b/lib/hnco/representations/integer.hh
@@ -89,7 +89,11 @@ class DyadicIntegerRepresentation {
     assert(lower_bound < upper_bound);
     assert(difference_is_safe(lower_bound, upper_bound));
 
-    _exact_size = std::ceil(std::log(upper_bound - lower_bound + 1) / std::log(2));
+    // Number of bits of the difference, which avoids the overflow of
+    // upper_bound - lower_bound + 1 and rounding errors
+    _exact_size = 0;
+    for (std::size_t difference = upper_bound - lower_bound; difference > 0; difference >>= 1)
+      _exact_size++;
     assert(_exact_size > 0);
     assert(_exact_size < int(sizeof(T) * 8));
   }
-- 
2.43.0


From 56fcbe8f039551fd7f90d9ef31eb615e572d24a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:58 +0000
Subject: [PATCH 30/39] fix: LTGA, P3 and HBOA report the exact value of the
 best evaluated solution

---
 lib/hnco/algorithms/fast-efficient-p3/hboa.cc |  4 ++--
 .../fast-efficient-p3/hnco-evaluator.hh       | 23 ++++++++++++++++++-
 lib/hnco/algorithms/fast-efficient-p3/ltga.cc |  4 ++--
 lib/hnco/algorithms/fast-efficient-p3/p3.cc   |  4 ++--
 4 files changed, 28 insertions(+), 7 deletions(-)

diff --git a/lib/hnco/algorithms/fast-efficient-p3/hboa.cc b/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
index 022a8da..0c3af91 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/hboa.cc
@@ -71,6 +71,6 @@ Hboa::maximize(const std::vector<function::Function *>& functions)
 void
 Hboa::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  if (_implementation->evaluator->has_best_solution())
+    _solution = _implementation->evaluator->get_best_solution();
 }
diff --git a/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh b/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
index e1e7b86..6066fa5 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
+++ b/lib/hnco/algorithms/fast-efficient-p3/hnco-evaluator.hh
@@ -24,6 +24,7 @@
 #include <cassert>
 
 #include "hnco/functions/function.hh"
+#include "hnco/algorithms/solution.hh" // hnco::algorithm::solution_t
 
 #include "fast-efficient-p3/Evaluation.h"
 
@@ -41,6 +42,12 @@ class HncoEvaluator: public Evaluator {
   /// Argument of HNCO function
   hnco::bit_vector_t _bv;
 
+  /// Best solution found so far
+  solution_t _best_solution;
+
+  /// Flag for best solution
+  bool _has_best_solution = false;
+
 public:
 
   /// Constructor
@@ -57,9 +64,23 @@ public:
     assert(x.size() == _bv.size());
 
     bv_from_vector_bool(_bv, x);
-    return _function->evaluate(_bv);
+    double value = _function->evaluate(_bv);
+    if (!_has_best_solution || value > _best_solution.second) {
+      _best_solution = solution_t(_bv, value);
+      _has_best_solution = true;
+    }
+    return value;
   }
 
+  /// Has a best solution
+  bool has_best_solution() const { return _has_best_solution; }
+
+  /**
+   * Get best solution.
+   * Its value is not rounded to float precision.
+   */
+  const solution_t& get_best_solution() const { return _best_solution; }
+
 };
 
 } // end of namespace fast_efficient_p3
diff --git a/lib/hnco/algorithms/fast-efficient-p3/ltga.cc b/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
index c606691..090c7d8 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/ltga.cc
@@ -78,6 +78,6 @@ Ltga::maximize(const std::vector<function::Function *>& functions)
 void
 Ltga::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  if (_implementation->evaluator->has_best_solution())
+    _solution = _implementation->evaluator->get_best_solution();
 }
diff --git a/lib/hnco/algorithms/fast-efficient-p3/p3.cc b/lib/hnco/algorithms/fast-efficient-p3/p3.cc
index 24f76b4..07bf67b 100644
--- a/lib/hnco/algorithms/fast-efficient-p3/p3.cc
+++ b/lib/hnco/algorithms/fast-efficient-p3/p3.cc
@@ -80,6 +80,6 @@ ParameterLessPopulationPyramid::maximize(const std::vector<function::Function *>
 void
 ParameterLessPopulationPyramid::finalize()
 {
-  bv_from_vector_bool(_solution.first, _implementation->middle_layer->best_solution);
-  _solution.second = _implementation->middle_layer->best_fitness;
+  if (_implementation->evaluator->has_best_solution())
+    _solution = _implementation->evaluator->get_best_solution();
 }
-- 
2.43.0


From 778ea7f3f1fb73d945c6f6ffe15393b41e148571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:57:58 +0000
Subject: [PATCH 31/39] fix: Gomea seeds its generator from the global one

---
 lib/hnco/algorithms/gomea/gomea.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/gomea/gomea.cc b/lib/hnco/algorithms/gomea/gomea.cc
index cae85b8..ff061b9 100644
--- a/lib/hnco/algorithms/gomea/gomea.cc
+++ b/lib/hnco/algorithms/gomea/gomea.cc
@@ -21,6 +21,8 @@
 #include "gomea/src/discrete/Config.hpp"
 #include "gomea/src/discrete/gomeaIMS.hpp"
 
+#include "hnco/random.hh"
+
 #include "gomea.hh"
 
 using namespace hnco::function::controller;
@@ -52,8 +54,9 @@ Gomea::maximize(const std::vector<function::Function *>& functions)
   // _config.maximumNumberOfEvaluations = max_number_of_evaluations;
   // _config.maximumNumberOfGenerations = max_number_of_generations;
   // _config.maximumNumberOfSeconds     = max_number_of_seconds;
-  // _config.randomSeed                 = random_seed;
-  // _config.fix_seed                   = true;
+  // GOMEA has its own generator: seed it from ours.
+  _config.randomSeed                 = random::Generator::engine();
+  _config.fix_seed                   = true;
 
   ::gomea::discrete::gomeaIMS gomea(&_config);
   gomea.run();
-- 
2.43.0


From 457f7c654b2e04e8c089976827d0a9db4075de77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:58:48 +0000
Subject: [PATCH 32/39] fix: MuPlusLambdaEa and GeneticAlgorithm have a
 solution when interrupted while evaluating the initial population

---
 .../evolutionary-algorithms/genetic-algorithm.cc      | 11 ++++++++++-
 .../evolutionary-algorithms/mu-plus-lambda-ea.cc      | 11 ++++++++++-
 2 files changed, 20 insertions(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc b/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc
index 18b2cfe..b7ee827 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/genetic-algorithm.cc
@@ -39,7 +39,16 @@ GeneticAlgorithm::init()
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
   _parents.random();
-  _parents.evaluate(_function);
+
+  // The solution is kept up-to-date in case the evaluation of the
+  // parents is interrupted.
+  set_solution(_parents.bvs[0]);
+  _parents.values[0] = _solution.second;
+  for (int i = 1; i < _parents.get_size(); i++) {
+    _parents.values[i] = _function->evaluate(_parents.bvs[i]);
+    update_solution(_parents.bvs[i], _parents.values[i]);
+  }
+
   _parents.sort();
 
   set_solution(_parents.get_best_bv(),
diff --git a/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc b/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc
index 0c783e8..6097d57 100644
--- a/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc
+++ b/lib/hnco/algorithms/evolutionary-algorithms/mu-plus-lambda-ea.cc
@@ -35,7 +35,16 @@ MuPlusLambdaEa::init()
   _mutation.set_allow_no_mutation(_allow_no_mutation);
 
   _parents.random();
-  _parents.evaluate(_function);
+
+  // The solution is kept up-to-date in case the evaluation of the
+  // parents is interrupted.
+  set_solution(_parents.bvs[0]);
+  _parents.values[0] = _solution.second;
+  for (int i = 1; i < _parents.get_size(); i++) {
+    _parents.values[i] = _function->evaluate(_parents.bvs[i]);
+    update_solution(_parents.bvs[i], _parents.values[i]);
+  }
+
   _parents.sort();
 
   set_solution(_parents.get_best_bv(),
-- 
2.43.0


From 87519090878d8f573bd49272026bc5c0f357c40f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:00:36 +0000
Subject: [PATCH 33/39] fix: RamUmda starts each run with the given
 transvection sequence length

---
 .../algorithms/probability-vector/ram-umda.cc | 24 ++++++++++---------
 .../algorithms/probability-vector/ram-umda.hh |  2 ++
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.cc b/lib/hnco/algorithms/probability-vector/ram-umda.cc
index 2811c7c..0b4c61d 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.cc
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.cc
@@ -36,6 +36,7 @@ RamUmda::init()
 {
   set_something_to_log();
   random_solution();
+  _current_ts_length = _ts_length;
   _population_x.random();
 }
 
@@ -52,7 +53,7 @@ RamUmda::iterate()
 
   // Maps
   compute_ts_length();
-  _map.random(get_bv_size(), _ts_length, TsAffineMap::SamplingMode::unconstrained);
+  _map.random(get_bv_size(), _current_ts_length, TsAffineMap::SamplingMode::unconstrained);
   _inverse_map = _map;
   _inverse_map.invert();
 
@@ -84,33 +85,33 @@ RamUmda::compute_ts_length()
 
   case TsLengthMode::increasing:
     if ((_iteration + 1) % _ts_length_increment_period == 0)
-      _ts_length++;
-    _ts_length = std::min(_ts_length, _ts_length_upper_bound);
+      _current_ts_length++;
+    _current_ts_length = std::min(_current_ts_length, _ts_length_upper_bound);
     break;
 
   case TsLengthMode::decreasing:
     if ((_iteration + 1) % _ts_length_increment_period == 0)
-      _ts_length--;
-    _ts_length = std::max(_ts_length, _ts_length_lower_bound);
+      _current_ts_length--;
+    _current_ts_length = std::max(_current_ts_length, _ts_length_lower_bound);
     break;
 
   case TsLengthMode::uniform: {
     std::uniform_int_distribution dist(_ts_length_lower_bound, _ts_length_upper_bound);
-    _ts_length = dist(Generator::engine);
+    _current_ts_length = dist(Generator::engine);
     break;
   }
 
   case TsLengthMode::geometric: {
     std::geometric_distribution dist(_ts_length_distribution_parameter);
-    _ts_length = dist(Generator::engine);
-    _ts_length = std::min(_ts_length, _ts_length_upper_bound);
+    _current_ts_length = dist(Generator::engine);
+    _current_ts_length = std::min(_current_ts_length, _ts_length_upper_bound);
     break;
   }
 
   case TsLengthMode::reverse_geometric: {
     std::geometric_distribution dist(_ts_length_distribution_parameter);
-    _ts_length = _ts_length_upper_bound - dist(Generator::engine);
-    _ts_length = std::max(_ts_length, _ts_length_lower_bound);
+    _current_ts_length = _ts_length_upper_bound - dist(Generator::engine);
+    _current_ts_length = std::max(_current_ts_length, _ts_length_lower_bound);
     break;
   }
 
@@ -127,6 +128,7 @@ RamUmda2::init()
 {
   set_something_to_log();
   random_solution();
+  _current_ts_length = _ts_length;
   _population_x.random();
 }
 
@@ -150,7 +152,7 @@ RamUmda2::iterate()
 
   // Maps
   compute_ts_length();
-  _map.random(get_bv_size(), _ts_length, TsAffineMap::SamplingMode::unconstrained);
+  _map.random(get_bv_size(), _current_ts_length, TsAffineMap::SamplingMode::unconstrained);
   _inverse_map = _map;
   _inverse_map.invert();
 
diff --git a/lib/hnco/algorithms/probability-vector/ram-umda.hh b/lib/hnco/algorithms/probability-vector/ram-umda.hh
index a250ec2..90421c4 100644
--- a/lib/hnco/algorithms/probability-vector/ram-umda.hh
+++ b/lib/hnco/algorithms/probability-vector/ram-umda.hh
@@ -96,6 +96,8 @@ protected:
   bit_vector_t _b;
   /// Temporary bit vector
   bit_vector_t _c;
+  /// Current transvection sequence length
+  int _current_ts_length;
   /**
    * @name Parameters
    */
-- 
2.43.0


From fcf358ae432835f8426cecb52dde2ddbeac27042 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:59 +0000
Subject: [PATCH 34/39] fix: LTGA and P3 can be run on a larger function after
 a smaller one

The table of distances is shared by all populations. It only got new
rows when a longer population was created: its first rows kept their
length and were overrun.
---
 lib/fast-efficient-p3/Population.cpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/lib/fast-efficient-p3/Population.cpp b/lib/fast-efficient-p3/Population.cpp
index 1356bbb..14d21ba 100644
--- a/lib/fast-efficient-p3/Population.cpp
+++ b/lib/fast-efficient-p3/Population.cpp
@@ -24,7 +24,13 @@ Population::Population(Configuration& config, size_t _level) {
   }
 
   // Set up the storage tables needed for model building
-  distances.resize(clusters.size(), vector<float>(clusters.size(), -1));
+  // (distances is shared by populations which may have different lengths)
+  if (distances.size() < clusters.size()) {
+    distances.resize(clusters.size());
+    for (auto& row : distances) {
+      row.resize(clusters.size(), -1);
+    }
+  }
   occurrences.resize(length, vector<array<int, 4>>());
   for (size_t i = 1; i < length; i++) {
     occurrences[i].resize(i);
-- 
2.43.0


From 78aeb9c947f953f88b964689ff1137d7f1df6188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:23:55 +0000
Subject: [PATCH 35/39] fix: GOMEA terminates the construction of the linkage
 tree of two variables

The construction ends when a merge leaves one (or two) sets, which never
happens when there are not more than that to begin with.
---
 lib/gomea/src/common/linkage_model.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/gomea/src/common/linkage_model.cpp b/lib/gomea/src/common/linkage_model.cpp
index 25de386..d7abe90 100644
--- a/lib/gomea/src/common/linkage_model.cpp
+++ b/lib/gomea/src/common/linkage_model.cpp
@@ -533,7 +533,7 @@ void linkage_model_t::learnLinkageTreeFOS( vec_t<vec_t<double>> similarity_matri
     vec_t<size_t> NN_chain;
     NN_chain.resize(numberOfVariables+2);
     size_t NN_chain_length = 0;
-    bool done = false;
+    bool done = mpm.size() <= (include_full_fos_element ? 1 : 2);
     while (!done)
 	{
 		if (NN_chain_length == 0)
-- 
2.43.0


From fd142dcd0e0f1902dc6b9b64dff07cf2343fd9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:40 +0000
Subject: [PATCH 36/39] fix: the Walsh transform is not stopped by budget or
 target

With --fn-walsh-transform, the function was evaluated through its
controllers: the transform of a function of 14 variables or more exhausted
the default budget, and --stop-on-maximum or --target stopped it.
---
 lib/hnco/app/application.cc | 4 +++-
 lib/hnco/app/application.hh | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index 320946c..e99ac29 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -76,6 +76,7 @@ CommandLineApplication::make_functions()
     Generator::reset();
     _fns[i] = _decorated_function_factory.make_function_modifier();
   }
+  _uncontrolled_fn = _fns[0];
   _fns[0] = _decorated_function_factory.make_function_controller(_fns[0]);
   _fn = _fns[0];
 }
@@ -136,7 +137,8 @@ CommandLineApplication::print_information()
     if (_fn->get_bv_size() > 15)
       std::cerr << "Warning: Walsh transform computation might take a long time or fail due to large bv_size" << std::endl;
     std::vector<function::WalshTerm> terms;
-    compute_fast_walsh_transform(_fn, terms);
+    // Controllers (budget, target) must not interfere with the transform
+    compute_fast_walsh_transform(_uncontrolled_fn, terms);
     for (auto& t : terms)
       t.coefficient = std::abs(t.coefficient);
     std::sort(terms.begin(),
diff --git a/lib/hnco/app/application.hh b/lib/hnco/app/application.hh
index 36b73bb..a2a559a 100644
--- a/lib/hnco/app/application.hh
+++ b/lib/hnco/app/application.hh
@@ -48,6 +48,9 @@ class CommandLineApplication {
   /// Main function
   function::Function *_fn = nullptr;
 
+  /// Main function without its controllers
+  function::Function *_uncontrolled_fn = nullptr;
+
   /// Algorithm
   hnco::algorithm::Algorithm *_algorithm = nullptr;
 
-- 
2.43.0


From e99be534cb34307eeffb6329f04da9269940f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:40 +0000
Subject: [PATCH 37/39] fix: the Walsh transform of a constant function can be
 printed

The only term of a constant function is the constant one, and the zero
function has no term at all: a term past the end was read.
---
 lib/hnco/app/application.cc | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/hnco/app/application.cc b/lib/hnco/app/application.cc
index e99ac29..4900b46 100644
--- a/lib/hnco/app/application.cc
+++ b/lib/hnco/app/application.cc
@@ -145,12 +145,12 @@ CommandLineApplication::print_information()
               terms.end(),
               [](const function::WalshTerm& a,
                  const function::WalshTerm& b){ return a.coefficient > b.coefficient; });
-    assert(terms.size() > 0);
-    double norm;
-    if (bv_hamming_weight(terms[0].feature) == 0)
-      norm = terms[1].coefficient;
-    else
-      norm = terms[0].coefficient;
+    // The largest amplitude, not counting the constant term
+    auto largest = std::find_if(terms.begin(),
+                                terms.end(),
+                                [](const function::WalshTerm& t){ return bv_hamming_weight(t.feature) > 0; });
+    // Constant functions have no other term
+    double norm = (largest == terms.end()) ? 1 : largest->coefficient;
     for (auto t : terms) {
       int weight = bv_hamming_weight(t.feature);
       double amplitude = t.coefficient / norm;
-- 
2.43.0


From 9337148877ac7fa029a424fd2fe5caf86f78ca5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:05:40 +0000
Subject: [PATCH 38/39] fix: HBOA breaks ties between splits at random, not by
 address

Splits of the same quality were ordered by the address of their node, so
that two runs with the same seed could differ.
---
 lib/fast-efficient-p3/HBOA.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/lib/fast-efficient-p3/HBOA.cpp b/lib/fast-efficient-p3/HBOA.cpp
index 299a921..bfce5ca 100644
--- a/lib/fast-efficient-p3/HBOA.cpp
+++ b/lib/fast-efficient-p3/HBOA.cpp
@@ -369,7 +369,11 @@ void Bayesian_Forest::build_forest(Random & rand) {
   // while there are still worthwhile splits
   while (options.size()) {
     // get the best split
-    auto best = *min_element(options.begin(), options.end());
+    // (options are shuffled: ties are broken randomly, not by address)
+    auto best = *min_element(options.begin(), options.end(),
+                             [](const tuple<double, Bayesian_Tree*, size_t>& a,
+                                const tuple<double, Bayesian_Tree*, size_t>& b)
+                             { return get<0>(a) < get<0>(b); });
     Bayesian_Tree& splitting = *get<1>(best);
     size_t new_index = get<2>(best);
     // update dependency information to prevent cycles
-- 
2.43.0


From bd81745b8dcffd3e35c8eb7c13ee3453b3c62adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:44 +0000
Subject: [PATCH 39/39] fix: Human: end the run at the end of input instead of
 asking for ever

---
 lib/hnco/algorithms/human.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/hnco/algorithms/human.cc b/lib/hnco/algorithms/human.cc
index 3e5815a..949b659 100644
--- a/lib/hnco/algorithms/human.cc
+++ b/lib/hnco/algorithms/human.cc
@@ -37,8 +37,7 @@ Human::parse_bit_vector()
   do {
     std::string str;
     std::cout << "bv? ";
-    std::cin >> str;
-    if (str == "quit")
+    if (!(std::cin >> str) || str == "quit")
       throw LastEvaluation();
     _candidate = bv_from_string(str);
     if (int(_candidate.size()) < get_bv_size())
-- 
2.43.0

