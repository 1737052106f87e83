From d4c7e72ed30174450048de51c56abd2de8c64c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:56:48 +0000
Subject: [PATCH 01/53] fix: refuse to order a graph whose cycle is not
 reachable from a root

DependencyGraph::order() and groupedOrder() start from the nodes without
incoming edge. A cycle (or nodes only reachable from one) next to a node
without incoming edge was silently left out of the order, so that the
corresponding updates of a CallGraph were never executed. Throw as for
the other cycles.
---
 src/graph/DependencyGraph.cpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/graph/DependencyGraph.cpp b/src/graph/DependencyGraph.cpp
index 898c3f5..cb3b91b 100644
--- a/src/graph/DependencyGraph.cpp
+++ b/src/graph/DependencyGraph.cpp
@@ -316,6 +316,12 @@ std::pair<std::vector<size_t>, DependencyGraph::DisjointSet> DependencyGraph::or
         "[DependencyGraph::Order] Try to order a non-empty graph with no root. It contains at least one cycle.");
   }
 
+  // A node that can't be reached from any root belongs to a cycle or depends on one
+  if(ret.first.size() != n)
+  {
+    throw std::logic_error("[DependencyGraph::Order] The graph contains a cycle that is not reachable from a root.");
+  }
+
   return ret;
 }
 
-- 
2.43.0


From 9a5ae11f099b5c2fb7649d5ebcdc04fd5ca2053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 02/53] fix: count the rows of the minimum norm objective when
 building the solver data

---
 src/solver/LeastSquareSolver.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/solver/LeastSquareSolver.cpp b/src/solver/LeastSquareSolver.cpp
index 433a135..44cb3fa 100644
--- a/src/solver/LeastSquareSolver.cpp
+++ b/src/solver/LeastSquareSolver.cpp
@@ -134,6 +134,7 @@ void LeastSquareSolver::setMinimumNorm()
     throw std::runtime_error("[LeastSquareSolver]: attempting to add an objective without calling startBuild first");
   }
   setMinimumNorm_();
+  objSize_ = nObj_; // the objective is complete
 }
 
 bool LeastSquareSolver::solve()
-- 
2.43.0


From 095584c22b4511175b7cdeb30bd6c1d70316a994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:18:55 +0000
Subject: [PATCH 03/53] fix: let schemes with scalarization accept priorities
 beyond their last level

---
 include/tvm/scheme/internal/SchemeAbilities.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/tvm/scheme/internal/SchemeAbilities.h b/include/tvm/scheme/internal/SchemeAbilities.h
index b0383ea..11ce6f1 100644
--- a/include/tvm/scheme/internal/SchemeAbilities.h
+++ b/include/tvm/scheme/internal/SchemeAbilities.h
@@ -115,6 +115,8 @@ inline void SchemeAbilities::check(const ConstraintPtr & c, const RequirementsPt
                   << ") cannot be handled as a strict hierarchy level by the resolution scheme. "
                   << "Using scalarization to revert to weighted approach.";
       }
+      // Through scalarization, the level is actually handled as part of the last one.
+      p = numberOfLevels_ - 1;
     }
     else
     {
-- 
2.43.0


From 8b4f16ba44858c6a622d1d7b4294ecf195721029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:44 +0000
Subject: [PATCH 04/53] fix: allocate the cost of the minimum norm problem when
 using Cholesky decompositions

---
 src/solver/QLDLeastSquareSolver.cpp      | 3 ++-
 src/solver/QuadprogLeastSquareSolver.cpp | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/solver/QLDLeastSquareSolver.cpp b/src/solver/QLDLeastSquareSolver.cpp
index 48ce27a..ff83aef 100644
--- a/src/solver/QLDLeastSquareSolver.cpp
+++ b/src/solver/QLDLeastSquareSolver.cpp
@@ -104,7 +104,8 @@ void QLDLeastSquareSolver::addObjective_(LinearConstraintPtr cstr, SolvingRequir
 void QLDLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  int n = variables().totalSize();
+  Q_.setIdentity(n, n); // Q_ is not allocated yet when working with Cholesky decompositions
   c_.setZero();
 }
 
diff --git a/src/solver/QuadprogLeastSquareSolver.cpp b/src/solver/QuadprogLeastSquareSolver.cpp
index b4b5d68..ea379d3 100644
--- a/src/solver/QuadprogLeastSquareSolver.cpp
+++ b/src/solver/QuadprogLeastSquareSolver.cpp
@@ -136,7 +136,8 @@ void QuadprogLeastSquareSolver::addObjective_(LinearConstraintPtr cstr,
 void QuadprogLeastSquareSolver::setMinimumNorm_()
 {
   autoMinNorm_ = true;
-  Q_.setIdentity();
+  int n = variables().totalSize();
+  Q_.setIdentity(n, n); // Q_ is not allocated yet when working with Cholesky decompositions
   c_.setZero();
 }
 
-- 
2.43.0


From a2f3bde2296594d7b83c9d1c984dcc32df1d3400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:27 +0000
Subject: [PATCH 05/53] fix: apply a change of scalar weight to tasks that also
 have an anisotropic weight

---
 src/scheme/Assignment.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 70b6b5d..2123c95 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -96,7 +96,7 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
     data_->scalarWeight_ = std::sqrt(requirements_->weight().value()) * scalarizationWeight_;
     data_->minusScalarWeight_ = -data_->scalarWeight_;
   }
-  if(vector)
+  if(vector || (scalar && !useDefaultAnisotropicWeight_)) // the anisotropic weight includes the scalar one
   {
     if(!requirements_->anisotropicWeight().isDefault()
        && requirements_->anisotropicWeight().value().size() != target_.size())
-- 
2.43.0


From 9d0bf53e7ed5d1057d807749f9ba49437e8f8ba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:46:27 +0000
Subject: [PATCH 06/53] fix: remove a substitution given through a copy of it

---
 src/hint/Substitutions.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index d1f6a76..540c4b2 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -45,7 +45,10 @@ void Substitutions::add(const Substitution & s)
 
 void Substitutions::remove(const Substitution & s)
 {
-  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) { return &e == &s; });
+  // The class stores copies, hence the comparison by content.
+  auto it = std::find_if(substitutions_.begin(), substitutions_.end(), [&](const auto & e) {
+    return e.constraints() == s.constraints() && e.variables() == s.variables();
+  });
   if(it == substitutions_.end())
     return;
 
-- 
2.43.0


From 47ca4c7f20f2ceada3fcd74834059b49b21e80d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:49:07 +0000
Subject: [PATCH 07/53] fix: rebuild the solver data when the automatic minimum
 norm objective has to appear, change or disappear

---
 include/tvm/scheme/WeightedLeastSquares.h |  3 +++
 src/scheme/WeightedLeastSquares.cpp       | 19 +++++++++++++++++++
 2 files changed, 22 insertions(+)

diff --git a/include/tvm/scheme/WeightedLeastSquares.h b/include/tvm/scheme/WeightedLeastSquares.h
index ab44c3e..dab9d1e 100644
--- a/include/tvm/scheme/WeightedLeastSquares.h
+++ b/include/tvm/scheme/WeightedLeastSquares.h
@@ -41,6 +41,9 @@ private:
 
     int maxp = 0;
 
+    /** Whether a minimum norm objective was added because the problem has no objective*/
+    bool autoMinNorm = false;
+
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
   };
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 990a7a6..9367c58 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -18,6 +18,17 @@ namespace scheme
 using namespace internal;
 using VET = requirements::ViolationEvaluationType;
 
+/** Check if the problem has an objective, i.e. a task with non-zero priority that is not used for a substitution.*/
+static bool hasObjective(const LinearizedControlProblem & problem)
+{
+  for(const auto & c : problem.constraintMap())
+  {
+    if(c.second.requirements->priorityLevel().value() > 0 && !problem.substitutions().uses(c.second.constraint))
+      return true;
+  }
+  return false;
+}
+
 const internal::SchemeAbilities WeightedLeastSquares::abilities_ = {2,
                                                                     {{0, {true, {VET::L2}}}, {1, {false, {VET::L2}}}},
                                                                     true};
@@ -90,6 +101,13 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
       }
     }
 
+    // The minimum norm objective depends on all the variables, and on the absence of other objectives.
+    if(memory->autoMinNorm || (options_.autoDamping().value() && !hasObjective(problem)))
+    {
+      resetComputationData(problem, memory);
+      return;
+    }
+
     memory->variables(); // update variable vector if needed
     memory->solver->process(se);
   }
@@ -199,6 +217,7 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
 
   if(autoMinNorm)
     solver.setMinimumNorm();
+  memory->autoMinNorm = autoMinNorm;
 
   // assignments for bounds
   for(const auto & b : bounds)
-- 
2.43.0


From 387391b20d2da024717676663a3aea880d19339c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:50:21 +0000
Subject: [PATCH 08/53] fix: keep the substitution functions in use when the
 problem is finalized again

---
 include/tvm/hint/internal/Substitutions.h | 3 +++
 src/hint/Substitutions.cpp                | 7 +++++++
 2 files changed, 10 insertions(+)

diff --git a/include/tvm/hint/internal/Substitutions.h b/include/tvm/hint/internal/Substitutions.h
index d5d96a5..8a852d4 100644
--- a/include/tvm/hint/internal/Substitutions.h
+++ b/include/tvm/hint/internal/Substitutions.h
@@ -80,6 +80,9 @@ private:
    */
   tvm::graph::internal::DependencyGraph dependencies_;
 
+  /** True when the data below correspond to the substitutions.*/
+  bool finalized_ = true;
+
   /** Group of dependent substitutions*/
   std::vector<SubstitutionUnit> units_;
 
diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index 540c4b2..83cccbb 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -29,6 +29,7 @@ void Substitutions::add(const Substitution & s)
   auto i = dependencies_.addNode();
   assert(i == substitutions_.size());
   substitutions_.push_back(s);
+  finalized_ = false;
 
   for(size_t j = 0; j < substitutions_.size(); ++j)
   {
@@ -54,6 +55,7 @@ void Substitutions::remove(const Substitution & s)
 
   dependencies_.removeNode(it - substitutions_.begin());
   substitutions_.erase(it);
+  finalized_ = false;
 }
 
 const std::vector<Substitution> & Substitutions::substitutions() const { return substitutions_; }
@@ -73,6 +75,10 @@ bool Substitutions::uses(LinearConstraintPtr c) const
 
 void Substitutions::finalize()
 {
+  // The functions created here may be in use (e.g. in assignments), so that we must not replace them needlessly.
+  if(finalized_)
+    return;
+
   // Detect interdependent substitutions (this corresponds to strongly connected
   // components of the dependency graph).
   tvm::graph::internal::DependencyGraph g;
@@ -126,6 +132,7 @@ void Substitutions::finalize()
       }
     }
   }
+  finalized_ = true;
 }
 
 void Substitutions::updateSubstitutions()
-- 
2.43.0


From 401cffe502f11d3a7fc3a49f7c1ce4f402087bb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:12 +0000
Subject: [PATCH 09/53] fix: name sub-variables of sub-variables after their
 place in the super-variable

---
 src/Variable.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index c0e1965..8914b96 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -242,7 +242,7 @@ VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space
   // Create a subvariable of the supervariable base primitive
   if(autoName)
   {
-    int start = base->spaceShift().rSize() + shift.rSize();
+    int start = shift_.rSize() + shift.rSize();
     std::stringstream ss;
     ss << base->name() << "[" << start << ":" << start + space.rSize() - 1 << "]";
     sub = std::make_shared<Variable>(make_shared_token{}, base, space, ss.str(), shift_ * shift);
-- 
2.43.0


From 70cfa603db05feeab404c18bc63aec9b6929ec04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:44 +0000
Subject: [PATCH 10/53] fix: keep the values of a derivative when creating the
 derivative of a subvariable

---
 src/Variable.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index 8914b96..4b4f821 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -223,7 +223,8 @@ Variable::Variable(Variable * var, bool autoName)
     ss << "[" << shift_.tSize() << ":" << shift_.tSize() + size() - 1 << "]";
   }
   name_ = ss.str();
-  value_.setZero();
+  if(isSuperVariable()) // a subvariable shares the existing values of its supervariable
+    value_.setZero();
 }
 
 VariablePtr Variable::subvariable(Space space, std::string_view baseName, Space shift, bool autoName) const
-- 
2.43.0


From 1f3e1ef292be4719d41753cbcf86eb5793bbcdd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:48:44 +0000
Subject: [PATCH 11/53] fix: keep a subvariable alive as long as a handle
 obtained from itself or its derivatives

---
 include/tvm/Variable.h |  8 +++++---
 src/Variable.cpp       | 14 ++------------
 2 files changed, 7 insertions(+), 15 deletions(-)

diff --git a/include/tvm/Variable.h b/include/tvm/Variable.h
index 74e0c41..f370f7d 100644
--- a/include/tvm/Variable.h
+++ b/include/tvm/Variable.h
@@ -203,9 +203,11 @@ public:
 
   /** Overload of enable_shared_from_this::shared_from_this, for technical purpose.
    *
-   * \internal This is necessary because all derivative and subvariables are
-   * sharing the same ref counter as the primitive supervariable, while the
-   * default shared_from_this use the variable own (and unused) ref counter.
+   * \internal This is necessary because all derivatives are sharing the same
+   * ref counter as their base primitive, while the default shared_from_this
+   * use the variable own (and unused) ref counter.
+   * The base primitive of a subvariable has its own ref counter (distinct from
+   * the one of its supervariable, that it keeps alive).
    */
   [[nodiscard]] VariablePtr shared_from_this();
 
diff --git a/src/Variable.cpp b/src/Variable.cpp
index 4b4f821..4ec1999 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -267,19 +267,9 @@ Variable::Variable(make_shared_token, VariablePtr var, const Space & space, std:
 VariablePtr Variable::shared_from_this()
 {
   if(isBasePrimitive())
-  {
-    if(isSubvariable())
-      return {superVariable_->shared_from_this(), this};
-    else
-      return std::enable_shared_from_this<Variable>::shared_from_this();
-  }
+    return std::enable_shared_from_this<Variable>::shared_from_this();
   else
-  {
-    if(isSubvariable())
-      return {superVariable_->basePrimitive()->shared_from_this(), this};
-    else
-      return {basePrimitive()->shared_from_this(), this};
-  }
+    return {basePrimitive(), this};
 }
 
 } // namespace tvm
-- 
2.43.0


From 35b918ca75bd196428695d5a3c7db2724c403fa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:34 +0000
Subject: [PATCH 12/53] fix: self-assignment of a VariableVector cleared it

---
 src/VariableVector.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/VariableVector.cpp b/src/VariableVector.cpp
index 4081250..12d4324 100644
--- a/src/VariableVector.cpp
+++ b/src/VariableVector.cpp
@@ -14,8 +14,11 @@ VariableVector::VariableVector(const VariableVector & other) : VariableVector(ot
 
 VariableVector & VariableVector::operator=(const VariableVector & other)
 {
-  clear();
-  add(other.variables());
+  if(this != &other)
+  {
+    clear();
+    add(other.variables());
+  }
   return *this;
 }
 
-- 
2.43.0


From 97a621d5bdef67e3da6b247027b3383bbfbf2713 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:05:34 +0000
Subject: [PATCH 13/53] fix: an empty variable was not found in the vectors
 containing it

---
 src/Variable.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/Variable.cpp b/src/Variable.cpp
index 4ec1999..cc4dec5 100644
--- a/src/Variable.cpp
+++ b/src/Variable.cpp
@@ -178,7 +178,11 @@ Range Variable::tSubvariableRange() const
 }
 
 bool Variable::contains(const Variable & v) const
-{ return superVariable() == v.superVariable() && subvariableRange().contains(v.subvariableRange()); }
+{
+  // A variable contains itself, even when it is empty.
+  return superVariable() == v.superVariable()
+         && (subvariableRange() == v.subvariableRange() || subvariableRange().contains(v.subvariableRange()));
+}
 
 bool Variable::intersects(const Variable & v) const
 { return superVariable() == v.superVariable() && subvariableRange().intersects(v.subvariableRange()); }
-- 
2.43.0


From 693e22dc95f9b0f9d468b793a7f6586c4397f4a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:11:52 +0000
Subject: [PATCH 14/53] fix: split variables were not updated when only their
 counts changed

---
 src/internal/VariableCountingVector.cpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index 29c09a4..2e34a1b 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -18,7 +18,8 @@ bool VariableCountingVector::add(VariablePtr v)
   bool change = counterPair.first.add(start, dim);
   if(change)
     ++counterPair.second;
-  upToDate_ = upToDate_ && !change;
+  // A change of count alone can change the way the variables are split.
+  upToDate_ = upToDate_ && !change && !split_;
   return change;
 }
 
@@ -48,7 +49,8 @@ bool VariableCountingVector::remove(const Variable & v)
       counterPair.second += 10;
     }
   }
-  upToDate_ = upToDate_ && !change;
+  // A change of count alone can change the way the variables are split.
+  upToDate_ = upToDate_ && !change && !split_;
   return change;
 }
 
-- 
2.43.0


From 53bad729409091efab8ed072648ef8a3b3381ae0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:12 +0000
Subject: [PATCH 15/53] fix: use after free of the variables completely removed
 from a VariableCountingVector

---
 src/internal/VariableCountingVector.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/internal/VariableCountingVector.cpp b/src/internal/VariableCountingVector.cpp
index 2e34a1b..89b2169 100644
--- a/src/internal/VariableCountingVector.cpp
+++ b/src/internal/VariableCountingVector.cpp
@@ -40,7 +40,8 @@ bool VariableCountingVector::remove(const Variable & v)
   {
     if(counterPair.first.empty())
     {
-      counterPair.second = 0;
+      // s might be destroyed from now on, we can't keep it as a key
+      count_.erase(s.get());
     }
     else
     {
-- 
2.43.0


From 5a56a9ee1bcc7ac55ea4eeae939fcf83e32bf569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:12:12 +0000
Subject: [PATCH 16/53] fix: iterating over an empty VariableVectorPartition
 accessed a non-existing variable

---
 include/tvm/internal/VariableVectorPartition.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tvm/internal/VariableVectorPartition.h b/include/tvm/internal/VariableVectorPartition.h
index 1515fd4..7574e44 100644
--- a/include/tvm/internal/VariableVectorPartition.h
+++ b/include/tvm/internal/VariableVectorPartition.h
@@ -129,7 +129,12 @@ public:
     const VariableVector & partition_;
   };
 
-  iterator begin() { return {var_, partition_, 0}; }
+  iterator begin()
+  {
+    if(var_.begin() == var_.end())
+      return end();
+    return {var_, partition_, 0};
+  }
   iterator end() { return {var_, partition_, partition_.numberOfVariables()}; }
 
 private:
-- 
2.43.0


From aefc5a19c5c796726743e1149074f7f94fb16f93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:03 +0000
Subject: [PATCH 17/53] fix: valid operations on matrix properties threw (0*M,
 I+0, sum of positive definite matrices, ...)

---
 src/internal/MatrixProperties.cpp | 29 +++++++++++++++++++++--------
 1 file changed, 21 insertions(+), 8 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 6ebc6e1..54a6f78 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -142,6 +142,19 @@ Positiveness deducePositiveness(Shape shape, Positiveness positiveness, bool inv
   return max(promote(p, invertible), promote(positiveness, invertible));
 }
 
+/** Build the properties of the result of an operation. Each of the characteristics of the result is deduced separately
+ * so that some deduced from the others can be missing (e.g. the result is 0 but is not flagged as constant). Unlike for
+ * user-given data, this is not an error.
+ */
+tvm::internal::MatrixProperties buildResult(Shape shape,
+                                            Positiveness positiveness,
+                                            Constness constant,
+                                            Invertibility invertible)
+{
+  return {shape, positiveness, Constness(constant || deduceConstance(shape)),
+          Invertibility(invertible || deduceInvertibility(shape, positiveness))};
+}
+
 } // namespace
 
 namespace tvm
@@ -356,27 +369,27 @@ Shape operator*(const Shape & s1, const Shape & s2)
 }
 
 MatrixProperties operator-(const MatrixProperties & p)
-{ return {-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()}; }
+{ return buildResult(-p.shape(), -p.positiveness(), -p.constness(), -p.invertibility()); }
 
 MatrixProperties operator*(double d, const MatrixProperties & p)
-{ return {d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()}; }
+{ return buildResult(d * p.shape(), d * p.positiveness(), d * p.constness(), d * p.invertibility()); }
 
 MatrixProperties operator+(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(), p1.constness() + p2.constness(),
-          p1.invertibility() + p2.invertibility()};
+  return buildResult(p1.shape() + p2.shape(), p1.positiveness() + p2.positiveness(),
+                     p1.constness() + p2.constness(), p1.invertibility() + p2.invertibility());
 }
 
 MatrixProperties operator-(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(), p1.constness() - p2.constness(),
-          p1.invertibility() - p2.invertibility()};
+  return buildResult(p1.shape() - p2.shape(), p1.positiveness() - p2.positiveness(),
+                     p1.constness() - p2.constness(), p1.invertibility() - p2.invertibility());
 }
 
 MatrixProperties operator*(const MatrixProperties & p1, const MatrixProperties & p2)
 {
-  return {p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(), p1.constness() * p2.constness(),
-          p1.invertibility() * p2.invertibility()};
+  return buildResult(p1.shape() * p2.shape(), p1.positiveness() * p2.positiveness(),
+                     p1.constness() * p2.constness(), p1.invertibility() * p2.invertibility());
 }
 
 } // namespace internal
-- 
2.43.0


From 31df18d9a919ffed3c38ec8ce003899c583a693c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:24 +0000
Subject: [PATCH 18/53] fix: properties of d*I claimed the identity (or minus
 identity) for any d

---
 src/internal/MatrixProperties.cpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/internal/MatrixProperties.cpp b/src/internal/MatrixProperties.cpp
index 54a6f78..6cf5038 100644
--- a/src/internal/MatrixProperties.cpp
+++ b/src/internal/MatrixProperties.cpp
@@ -279,12 +279,16 @@ Shape operator-(const Shape & s)
 
 Shape operator*(double d, const Shape & s)
 {
-  if(d < 0)
-    return -s;
-  else if(d > 0)
+  if(d == 0)
+    return Shape::ZERO;
+  else if(d == 1)
     return s;
+  else if(d == -1)
+    return -s;
+  else if(s == Shape::IDENTITY || s == Shape::MINUS_IDENTITY)
+    return Shape::MULTIPLE_OF_IDENTITY;
   else
-    return Shape::ZERO;
+    return s;
 }
 
 Shape operator+(const Shape & s1, const Shape & s2)
-- 
2.43.0


From 879d7ca3eb74e5cdbc9a050064b67c4abade0a30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:07 +0000
Subject: [PATCH 19/53] fix: matrix version of the critically damped PD used kv
 = 2 kp and its setter ignored kp

---
 src/task_dynamics/ProportionalDerivative.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 08b62f1..30da898 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -51,7 +51,8 @@ ProportionalDerivative::ProportionalDerivative(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseMax(0).cwiseSqrt().asDiagonal()
+                 * dec.matrixU().transpose());
 }
 
 std::unique_ptr<abstract::TaskDynamicsImpl> ProportionalDerivative::impl_(FunctionPtr f,
@@ -152,7 +153,9 @@ void ProportionalDerivative::Impl::gains(const Eigen::MatrixXd & kp)
   Eigen::RealSchur<Eigen::MatrixXd> dec(kp);
   assert(dec.matrixT().isDiagonal(1e-8) && "kp is not symmetric.");
   assert((dec.matrixT().diagonal().array() >= 0).all() && "kp is indefinite.");
-  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().asDiagonal() * dec.matrixU().transpose());
+  kp_ = kp;
+  kv_.emplace<2>(2 * dec.matrixU() * dec.matrixT().diagonal().cwiseMax(0).cwiseSqrt().asDiagonal()
+                 * dec.matrixU().transpose());
 }
 
 void ProportionalDerivative::Impl::checkGainSize(double) const
-- 
2.43.0


From e191d1c8a262bc667fdfa222cdbd426667a7c562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:07 +0000
Subject: [PATCH 20/53] fix: P and PD accepted gains of the wrong size at
 construction

---
 src/task_dynamics/Proportional.cpp           |  5 +++--
 src/task_dynamics/ProportionalDerivative.cpp | 13 ++-----------
 2 files changed, 5 insertions(+), 13 deletions(-)

diff --git a/src/task_dynamics/Proportional.cpp b/src/task_dynamics/Proportional.cpp
index 374d89b..14762f4 100644
--- a/src/task_dynamics/Proportional.cpp
+++ b/src/task_dynamics/Proportional.cpp
@@ -29,8 +29,9 @@ Proportional::Impl::Impl(FunctionPtr f, constraint::Type t, const Eigen::VectorX
 : TaskDynamicsImpl(Order::One, f, t, rhs), kp_(kp)
 {
   if((kp.index() == 1 && mpark::get<Eigen::VectorXd>(kp).size() != f->size())   // Diagonal gain
-     || (kp.index() == 2 && mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
-         && mpark::get<Eigen::MatrixXd>(kp).rows() != f->size()))
+     || (kp.index() == 2
+         && (mpark::get<Eigen::MatrixXd>(kp).cols() != f->size() // Matrix gain
+             || mpark::get<Eigen::MatrixXd>(kp).rows() != f->size())))
   {
     throw std::runtime_error("[task_dynamics::Proportional::Impl] Gain and function have incompatible sizes.");
   }
diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 30da898..9a698b8 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -69,17 +69,8 @@ ProportionalDerivative::Impl::Impl(FunctionPtr f,
                                    const Gain & kv)
 : TaskDynamicsImpl(Order::Two, f, t, rhs), kp_(kp), kv_(kv)
 {
-  assert((kp.index() == 0                                                             // Scalar gain
-          || (kp.index() == 1 && mpark::get<Eigen::VectorXd>(kp).size() == f->size()) // Diagonal gain
-          || (kp.index() == 2 && mpark::get<Eigen::MatrixXd>(kp).cols() == f->size()  // Matrix gain
-              && mpark::get<Eigen::MatrixXd>(kp).rows() == f->size()))
-         && "Gain kp and function have incompatible sizes");
-
-  assert((kv.index() == 0                                                             // Scalar gain
-          || (kv.index() == 1 && mpark::get<Eigen::VectorXd>(kv).size() == f->size()) // Diagonal gain
-          || (kv.index() == 2 && mpark::get<Eigen::MatrixXd>(kv).cols() == f->size()  // Matrix gain
-              && mpark::get<Eigen::MatrixXd>(kv).rows() == f->size()))
-         && "Gain kv and function have incompatible sizes");
+  mpark::visit([this](const auto & k) { this->checkGainSize(k); }, kp_);
+  mpark::visit([this](const auto & k) { this->checkGainSize(k); }, kv_);
 }
 
 void ProportionalDerivative::Impl::updateValue()
-- 
2.43.0


From cd66571edb9e89c0de7c9cb9b69d6a6e5679d8ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:07 +0000
Subject: [PATCH 21/53] fix: a reference of the wrong size was accepted by
 task_dynamics::Reference

---
 src/task_dynamics/Reference.cpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task_dynamics/Reference.cpp b/src/task_dynamics/Reference.cpp
index 49f888e..628f3ec 100644
--- a/src/task_dynamics/Reference.cpp
+++ b/src/task_dynamics/Reference.cpp
@@ -37,6 +37,11 @@ void Reference::Impl::setReference(const FunctionPtr & ref)
   {
     throw std::runtime_error("[task_dynamics::Reference::Impl] You cannot pass a nullptr as reference function.");
   }
+  if(ref->size() != function().size())
+  {
+    throw std::runtime_error(
+        "[task_dynamics::Reference::Impl] The reference does not have the same size as the function.");
+  }
 
   ref_ = ref;
   addInput(ref, internal::FirstOrderProvider::Output::Value);
-- 
2.43.0


From 85fdbfc97c60e34b3806f91b3d7cb0982ab6de9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:29:37 +0000
Subject: [PATCH 22/53] fix: velocity damper with automatic damping gave NaN
 when entering exactly at the safety distance

---
 src/task_dynamics/VelocityDamper.cpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/task_dynamics/VelocityDamper.cpp b/src/task_dynamics/VelocityDamper.cpp
index 685d46b..c8f7221 100644
--- a/src/task_dynamics/VelocityDamper.cpp
+++ b/src/task_dynamics/VelocityDamper.cpp
@@ -237,8 +237,16 @@ void VelocityDamper::Impl::updateValue_(double s)
     {
       if(d_[i] <= di_[i] && !active_[static_cast<size_t>(i)])
       {
-        active_[static_cast<size_t>(i)] = true;
-        axsi_[i] = a_[i] * (s * dv[i] * (ds_[i] - di_[i]) / (d_[i] - ds_[i]) + xsiOff_[i]);
+        if(d_[i] == ds_[i])
+        {
+          // xsi is undefined here. The limit is zero whatever its value: we wait for the next update to compute it.
+          axsi_[i] = 0;
+        }
+        else
+        {
+          active_[static_cast<size_t>(i)] = true;
+          axsi_[i] = a_[i] * (s * dv[i] * (ds_[i] - di_[i]) / (d_[i] - ds_[i]) + xsiOff_[i]);
+        }
       }
       else if(d_[i] > di_[i] && active_[static_cast<size_t>(i)])
       {
-- 
2.43.0


From 7bc416f1ab0edd79792f6877f406047ff4871a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:08:37 +0000
Subject: [PATCH 23/53] fix: matrices given for the same variable of a
 BasicLinearConstraint overwrote each other

---
 src/constraint/BasicLinearConstraint.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/src/constraint/BasicLinearConstraint.cpp b/src/constraint/BasicLinearConstraint.cpp
index 241c4f1..50f6a93 100644
--- a/src/constraint/BasicLinearConstraint.cpp
+++ b/src/constraint/BasicLinearConstraint.cpp
@@ -206,9 +206,19 @@ void BasicLinearConstraint::add(const Eigen::MatrixXd & A, VariablePtr x)
     throw std::runtime_error("Matrix A doesn't have coherent row size.");
   if(A.cols() != x->size())
     throw std::runtime_error("Matrix A doesn't have its column size coherent with its corresponding variable.");
-  addVariable(x, true);
-  jacobian_.at(x.get()) = A;
-  jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  if(variables().contains(*x))
+  {
+    // x is repeated (or part of a previous variable): its matrix adds to what is already there
+    auto J = jacobian_.at(x.get(), tvm::utils::internal::with_sub{});
+    J += A;
+    J.properties({tvm::internal::MatrixProperties::Constness(true)});
+  }
+  else
+  {
+    addVariable(x, true);
+    jacobian_.at(x.get()) = A;
+    jacobian_.at(x.get()).properties({tvm::internal::MatrixProperties::Constness(true)});
+  }
 }
 
 } // namespace constraint
-- 
2.43.0


From f09208c0ac00fc46a89d56e1fcd9c28692aac8bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 24/53] fix: an assignment kept a dangling pointer to the
 remaining part of a partly substituted variable

---
 include/tvm/scheme/internal/Assignment.h       |  4 ++--
 include/tvm/scheme/internal/MatrixAssignment.h |  2 +-
 src/scheme/Assignment.cpp                      | 16 ++++++++--------
 3 files changed, 11 insertions(+), 11 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.h b/include/tvm/scheme/internal/Assignment.h
index 6560ae2..8735922 100644
--- a/include/tvm/scheme/internal/Assignment.h
+++ b/include/tvm/scheme/internal/Assignment.h
@@ -130,7 +130,7 @@ private:
    * to variable \p x to the block of matrix described by \p M and \p range.
    * \p flip indicates a sign change if \p true.
    */
-  void addMatrixAssignment(Variable & x, MatrixFunction M, const Range & range, bool flip);
+  void addMatrixAssignment(const VariablePtr & x, MatrixFunction M, const Range & range, bool flip);
 
   /** Creates the assignments due to substituting the variable \p x by the
    * linear expression given by \p sub. The target is given by \p M.
@@ -194,7 +194,7 @@ private:
    * and \p range. The variable \p x is simply stored in the corresponding
    * \p MatrixAssignment.
    */
-  void addZeroAssignment(Variable & x, MatrixFunction M, const Range & range);
+  void addZeroAssignment(const VariablePtr & x, MatrixFunction M, const Range & range);
 
   /** Calls addAssignments(const VariableVector& variables, MatrixFunction M,
    * RHSFunction f1, VectorFunction v1, RHSFunction f2, VectorFunction v2,
diff --git a/include/tvm/scheme/internal/MatrixAssignment.h b/include/tvm/scheme/internal/MatrixAssignment.h
index 1ac89d1..75247cb 100644
--- a/include/tvm/scheme/internal/MatrixAssignment.h
+++ b/include/tvm/scheme/internal/MatrixAssignment.h
@@ -25,7 +25,7 @@ public:
   using MatrixFunction = MatrixRef (AssignmentTarget::*)(int, int) const;
 
   CompiledAssignmentWrapper<Eigen::MatrixXd> assignment;
-  Variable * x;
+  VariablePtr x; // shared, because it can be a part of a variable that no one else is keeping alive
   Range colRange;
   MatrixFunction getTargetMatrix;
 
diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 2123c95..db32eb5 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -411,13 +411,13 @@ void Assignment::processRequirements()
   }
 }
 
-void Assignment::addMatrixAssignment(Variable & x, MatrixFunction M, const Range & range, bool flip)
+void Assignment::addMatrixAssignment(const VariablePtr & x, MatrixFunction M, const Range & range, bool flip)
 {
-  MatrixConstRef from = source_->jacobian(x);
+  MatrixConstRef from = source_->jacobian(*x);
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = createAssignment<Eigen::MatrixXd, AssignType::COPY>(from, to, flip);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x, range, M});
 }
 
 void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variables,
@@ -459,7 +459,7 @@ void Assignment::addMatrixSubstitutionAssignments(const VariableVector & variabl
     // - use CUSTOM multiplications
     // - in particular use the nullspace custom multiplication for variable z
     // when appropriate.
-    matrixSubstitutionAssignments_.push_back({w, xi.get(), range, M});
+    matrixSubstitutionAssignments_.push_back({w, xi, range, M});
   }
 }
 
@@ -508,12 +508,12 @@ void Assignment::addVectorSubstitutionAssignments(const function::BasicLinearFun
   }
 }
 
-void Assignment::addZeroAssignment(Variable & x, MatrixFunction M, const Range & range)
+void Assignment::addZeroAssignment(const VariablePtr & x, MatrixFunction M, const Range & range)
 {
   const MatrixRef & to = (target_.*M)(range.start, range.dim);
   auto w = CompiledAssignmentWrapper<Eigen::MatrixXd>::make<COPY, NONE, IDENTITY, ZERO>(to);
 
-  matrixAssignments_.push_back({w, &x, range, M});
+  matrixAssignments_.push_back({w, x, range, M});
 }
 
 void Assignment::addAssignments(const VariableVector & variables,
@@ -570,7 +570,7 @@ void Assignment::addAssignments(const VariableVector & variables,
     if(!xc.contains(*x))
     {
       Range cols = x->getMappingIn(variables);
-      addZeroAssignment(*x, M, cols);
+      addZeroAssignment(x, M, cols);
     }
   }
 
@@ -593,7 +593,7 @@ void Assignment::addAssignments(const VariableVector & variables,
     else // usual case
     {
       Range cols = x->getMappingIn(variables);
-      addMatrixAssignment(*x, M, cols, flip);
+      addMatrixAssignment(x, M, cols, flip);
     }
   }
 }
-- 
2.43.0


From 000813b15a1d5540a0b9e1d92bec6d3b8158ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:08 +0000
Subject: [PATCH 25/53] fix: canBeUsedAsBound read properties through a
 dangling reference, and those of the wrong variable for a substitution

---
 src/scheme/helpers.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scheme/helpers.cpp b/src/scheme/helpers.cpp
index 922e813..4e9ab96 100644
--- a/src/scheme/helpers.cpp
+++ b/src/scheme/helpers.cpp
@@ -130,7 +130,7 @@ bool canBeUsedAsBound(const ConstraintPtr & c,
         assert(false);
     }
 
-    const auto & p = c->jacobian(*c->variables()[0]).properties();
+    const auto p = c->jacobian(*c->variables()[0]).properties();
     auto it = std::find(x.begin(), x.end(), c->variables()[0]);
     if(it == x.end())
     {
@@ -142,7 +142,7 @@ bool canBeUsedAsBound(const ConstraintPtr & c,
     else
     {
       const auto & sub = xsub[static_cast<size_t>(it - x.begin())];
-      auto ps = sub->jacobian(*x[0]).properties();
+      auto ps = sub->jacobian(*sub->variables()[0]).properties();
       if(case1)
         return (p * ps).isPositiveDefinite();
       else
-- 
2.43.0


From 98515ebf68c380072188c934577fd31ba671a076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 26/53] fix: single-sided bound assignments wrote in unset
 vectors, ignored minus identity and read an uninitialised convention

---
 src/scheme/Assignment.cpp       | 18 +++++-------------
 src/scheme/AssignmentTarget.cpp |  2 +-
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index db32eb5..46faebe 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -602,12 +602,7 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
 {
   auto J = source_->jacobian(*variable);
   bool gt = target_.constraintType() == Type::GREATER_THAN;
-  VectorFunction v;
-
-  if(gt)
-    v = &AssignmentTarget::l;
-  else
-    v = &AssignmentTarget::u;
+  VectorFunction v = &AssignmentTarget::b;
 
   if(substitutedVariables_.contains(*variable))
   {
@@ -626,13 +621,10 @@ void Assignment::addBound(const VariablePtr & variable, RHSFunction f, bool firs
     else if(J.properties().isMinusIdentity())
     {
       assert(target_.constraintType() != source_->type());
-      if(J.properties().isIdentity())
-      {
-        if(first)
-          addVectorAssignment(f, v, true);
-        else
-          gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
-      }
+      if(first)
+        addVectorAssignment(f, v, true);
+      else
+        gt ? addVectorAssignment<MAX>(f, v, true) : addVectorAssignment<MIN>(f, v, true);
     }
     else
     {
diff --git a/src/scheme/AssignmentTarget.cpp b/src/scheme/AssignmentTarget.cpp
index f2b8e9b..17a18e7 100644
--- a/src/scheme/AssignmentTarget.cpp
+++ b/src/scheme/AssignmentTarget.cpp
@@ -39,7 +39,7 @@ AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef l, VectorRef u)
 {}
 
 AssignmentTarget::AssignmentTarget(RangePtr range, VectorRef lu, constraint::Type ct)
-: targetType_(TargetType::Linear), cstrType_(ct), range_(range), b_(lu)
+: targetType_(TargetType::Linear), cstrType_(ct), constraintRhs_(constraint::RHS::AS_GIVEN), range_(range), b_(lu)
 {
   if(!(ct == constraint::Type::GREATER_THAN || ct == constraint::Type::LOWER_THAN))
   {
-- 
2.43.0


From 3ce1abba6ca36cfb457ec3a75a1c1d2f881d7aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 27/53] fix: retargeting a bound with a diagonal matrix called
 a null pointer

---
 src/scheme/Assignment.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 46faebe..9667ab1 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -73,7 +73,10 @@ void Assignment::onUpdatedTarget()
   for(auto & a : matrixSubstitutionAssignments_)
     a.updateTarget(target_);
   for(auto & a : vectorAssignments_)
-    a.assignment.to((target_.*a.getTargetVector)());
+  {
+    if(a.getTargetVector) // otherwise the assignment is to an intermediate vector
+      a.assignment.to((target_.*a.getTargetVector)());
+  }
   for(auto & a : vectorSubstitutionAssignments_)
     a.assignment.to((target_.*a.getTargetVector)());
 }
-- 
2.43.0


From 8f34e8568a1a44eb47867f3c3547c9eae7d39056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:33:09 +0000
Subject: [PATCH 28/53] fix: updating weights failed when the anisotropic
 weight was set back to default or the target had two rows per row of the
 source

---
 src/scheme/Assignment.cpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 9667ab1..7938e10 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -102,14 +102,17 @@ void Assignment::onUpdateWeights(bool scalar, bool vector)
   if(vector || (scalar && !useDefaultAnisotropicWeight_)) // the anisotropic weight includes the scalar one
   {
     if(!requirements_->anisotropicWeight().isDefault()
-       && requirements_->anisotropicWeight().value().size() != target_.size())
+       && requirements_->anisotropicWeight().value().size() != source_->size())
       throw std::runtime_error("[Assignment::onUpdateWeights] Anisotropic weight has not the correct size.");
 
     if(useDefaultAnisotropicWeight_ && !requirements_->anisotropicWeight().isDefault()
        && !requirements_->anisotropicWeight().value().isConstant(1))
       throw std::runtime_error("[Assignment::onUpdateWeights] Can't update a default weight.");
 
-    data_->anisotropicWeight_ = requirements_->anisotropicWeight().value().cwiseSqrt();
+    if(requirements_->anisotropicWeight().isDefault())
+      data_->anisotropicWeight_.setOnes(); // back to the default weight, for which there is no value.
+    else
+      data_->anisotropicWeight_ = requirements_->anisotropicWeight().value().cwiseSqrt();
     data_->anisotropicWeight_ *= data_->scalarWeight_;
     data_->minusAnisotropicWeight_ = -data_->anisotropicWeight_;
   }
-- 
2.43.0


From f94229a102d07a11c9fd6ce26307be0ec52f2690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:12 +0000
Subject: [PATCH 29/53] fix: a missing bound was assigned with the wrong sign
 to a double-sided target with opposite convention

---
 include/tvm/scheme/internal/Assignment.hpp | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/include/tvm/scheme/internal/Assignment.hpp b/include/tvm/scheme/internal/Assignment.hpp
index d231417..c9a918b 100644
--- a/include/tvm/scheme/internal/Assignment.hpp
+++ b/include/tvm/scheme/internal/Assignment.hpp
@@ -242,16 +242,24 @@ inline void Assignment::addVectorAssignment(const From & f,
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, bool flip, bool, bool useTRHS)
 {
+  // The right-hand side convention of the source does not apply to a constant, but that of the target does.
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createAssignment<Eigen::VectorXd, A>(d, to, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
 }
 
 template<AssignType A, typename To>
-inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool)
+inline void Assignment::addVectorAssignment(double d, To v, const MatrixConstRef & D, bool flip, bool, bool useTRHS)
 {
+  // The right-hand side convention of the source does not apply to a constant, but that of the target does.
+  if(target_.constraintRhs() == constraint::RHS::OPPOSITE && useTRHS)
+    flip = !flip;
+
   const VectorRef & to = retrieveTarget(target_, v);
   auto w = createMultiplicationAssignment<Eigen::VectorXd, A>(d, to, D, flip);
   vectorAssignments_.emplace_back(w, false, nullptr, nullifyIfVecRef(v));
-- 
2.43.0


From 5368bd7ac303dfa7a64c48e697498d0a76c6baaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 30/53] fix: callbacks may register, unregister or destroy
 registrations while they are run

---
 include/tvm/internal/CallbackManager.h | 34 ++++++++++++++------------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/include/tvm/internal/CallbackManager.h b/include/tvm/internal/CallbackManager.h
index 7905652..52732e0 100644
--- a/include/tvm/internal/CallbackManager.h
+++ b/include/tvm/internal/CallbackManager.h
@@ -6,6 +6,7 @@
 
 #include <algorithm>
 #include <functional>
+#include <memory>
 #include <vector>
 
 namespace tvm::internal
@@ -40,38 +41,41 @@ public:
   void run();
 
 private:
-  std::vector<TCPair> callbacks_;
+  // Each pair has its own allocation: its address is stable and it can be kept alive while its callback is running,
+  // whatever the callback does to the registrations.
+  std::vector<std::shared_ptr<TCPair>> callbacks_;
 };
 
 inline PairElementTokenHandle CallbackManager::registerCallback(std::function<void()> c)
 {
-  callbacks_.emplace_back(PairElementToken(), c);
-  return PairElementTokenHandle(callbacks_.back().first);
+  callbacks_.push_back(std::make_shared<TCPair>(PairElementToken(), std::move(c)));
+  return PairElementTokenHandle(callbacks_.back()->first);
 }
 
 inline void CallbackManager::unregisterCallback(const PairElementToken & t)
 {
-  auto it =
-      std::find_if(callbacks_.begin(), callbacks_.end(), [&](const TCPair & p) { return p.first.isPairedWith(t); });
+  auto it = std::find_if(callbacks_.begin(), callbacks_.end(),
+                         [&](const std::shared_ptr<TCPair> & p) { return p->first.isPairedWith(t); });
   if(it != callbacks_.end())
+  {
+    (*it)->first = PairElementToken(); // unpair now: the callback might be kept alive by run()
     callbacks_.erase(it);
+  }
   else
     throw std::runtime_error("Element to unregister not found.");
 }
 
 inline void CallbackManager::run()
 {
-  for(size_t i = 0; i < callbacks_.size();)
+  callbacks_.erase(std::remove_if(callbacks_.begin(), callbacks_.end(),
+                                  [](const std::shared_ptr<TCPair> & p) { return !p->first.isPaired(); }),
+                   callbacks_.end());
+  // The callbacks can register and unregister callbacks, or destroy tokens: we work on a copy of the registrations.
+  const auto callbacks = callbacks_;
+  for(const auto & c : callbacks)
   {
-    if(callbacks_[i].first.isPaired())
-    {
-      std::invoke(callbacks_[i].second);
-      ++i;
-    }
-    else
-    {
-      callbacks_.erase(callbacks_.begin() + i);
-    }
+    if(c->first.isPaired())
+      std::invoke(c->second);
   }
 }
 
-- 
2.43.0


From b64c04d46269bd8ff33150543e1aa088ffaad85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 31/53] fix: an event source skips the listeners that have been
 destroyed

---
 src/event/Source.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/event/Source.cpp b/src/event/Source.cpp
index d4a8734..0a200a0 100644
--- a/src/event/Source.cpp
+++ b/src/event/Source.cpp
@@ -14,9 +14,13 @@ void Source::regist(std::shared_ptr<Listener> user, Type evt) { registrations_[e
 
 void Source::notify(Type evt)
 {
-  const auto & list = registrations_[evt];
+  // We work on a copy, as a listener can register another one while processing the event.
+  const auto list = registrations_[evt];
   for(const auto & u : list)
-    u.lock()->receive(evt, *this);
+  {
+    if(auto l = u.lock())
+      l->receive(evt, *this);
+  }
 }
 
 } // namespace event
-- 
2.43.0


From 3d98b7c40f5b78a774d20402ef1d5c1dd58089c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 32/53] fix: inputs given after the first one to
 addInputDependency were neither checked nor recorded

---
 include/tvm/graph/abstract/Node.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/tvm/graph/abstract/Node.hpp b/include/tvm/graph/abstract/Node.hpp
index 9c5a1a6..e73ebed 100644
--- a/include/tvm/graph/abstract/Node.hpp
+++ b/include/tvm/graph/abstract/Node.hpp
@@ -144,8 +144,8 @@ void Node<T>::addInputDependency(EnumU u, std::shared_ptr<S> source, EnumO i, Ar
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, source.get(), i, args...);
 }
@@ -161,8 +161,8 @@ void Node<T>::addInputDependency(EnumU u, S & source, EnumO i, Args... args)
 {
   // Make sure the call makes sense
   checkAddInputDependency<U, EnumU, S>(u);
-  // Make sure we have this input
-  addInput(source, i);
+  // Make sure we have these inputs
+  addInput(source, i, args...);
   // Add the dependency
   addInputDependency<U>(u, &source, i, args...);
 }
-- 
2.43.0


From 87ee76056d108538ae3c11e49ce9bbe3463dafce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 33/53] fix: report cycles of direct dependencies instead of
 recursing endlessly

---
 include/tvm/graph/CallGraph.h | 6 ++++++
 src/graph/CallGraph.cpp       | 7 +++++++
 2 files changed, 13 insertions(+)

diff --git a/include/tvm/graph/CallGraph.h b/include/tvm/graph/CallGraph.h
index de82ebd..55f3b8a 100644
--- a/include/tvm/graph/CallGraph.h
+++ b/include/tvm/graph/CallGraph.h
@@ -7,6 +7,9 @@
 #include <tvm/graph/internal/AbstractNode.h>
 #include <tvm/graph/internal/DependencyGraph.h>
 
+#include <map>
+#include <set>
+
 namespace tvm
 {
 
@@ -103,6 +106,9 @@ protected:
   /** Used to avoid duplicate entries in the graph */
   std::map<std::intptr_t, std::map<int, std::vector<int>>> visited_;
 
+  /** Outputs with a direct dependency that are being added, used to detect cycles. */
+  std::set<std::pair<std::intptr_t, int>> pending_;
+
   /** Store the call plan */
   Plan plan_;
 };
diff --git a/src/graph/CallGraph.cpp b/src/graph/CallGraph.cpp
index c8dfdb2..3d0139e 100644
--- a/src/graph/CallGraph.cpp
+++ b/src/graph/CallGraph.cpp
@@ -34,6 +34,7 @@ void CallGraph::clear()
   calls_.clear();
   dependencyGraph_.clear();
   visited_.clear();
+  pending_.clear();
   plan_.clear();
 }
 
@@ -57,8 +58,14 @@ std::vector<int> CallGraph::addOutput(abstract::Outputs * source, int output)
     }
     else if(node->directDependencies_.count(output))
     {
+      if(!pending_.insert({ptr, output}).second)
+      {
+        pending_.clear();
+        throw std::logic_error("Direct dependencies form a cycle.");
+      }
       const auto & p = node->directDependencies_[output];
       callId = addOutput(p.first, p.second);
+      pending_.erase({ptr, output});
     }
   }
   if(!visited_.count(ptr))
-- 
2.43.0


From bd0860f78fe5bd7ab3a19aa844bfecf0687009d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 34/53] fix: requirements refuse invalid values and tell their
 listeners whatever the setter

---
 include/tvm/requirements/AnisotropicWeight.h  |  8 ++++++--
 include/tvm/requirements/PriorityLevel.h      |  8 ++++++--
 .../tvm/requirements/ViolationEvaluation.h    |  3 +++
 include/tvm/requirements/Weight.h             |  8 ++++++--
 .../abstract/SingleSolvingRequirement.h       | 19 ++++++++++++-------
 5 files changed, 33 insertions(+), 13 deletions(-)

diff --git a/include/tvm/requirements/AnisotropicWeight.h b/include/tvm/requirements/AnisotropicWeight.h
index 0665865..8bdc8b0 100644
--- a/include/tvm/requirements/AnisotropicWeight.h
+++ b/include/tvm/requirements/AnisotropicWeight.h
@@ -44,12 +44,16 @@ public:
   /** Constructor for a given vector of weights \p w*/
   AnisotropicWeightBase(const Eigen::VectorXd & w)
   : abstract::SingleSolvingRequirement<Eigen::VectorXd, Lightweight>(w, false)
+  { checkValue(w); }
+
+  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(AnisotropicWeightBase, Eigen::VectorXd, Lightweight)
+
+private:
+  static void checkValue(const Eigen::VectorXd & w)
   {
     if((w.array() < 0).any())
       throw std::runtime_error("weights must be non-negative.");
   }
-
-  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(AnisotropicWeightBase, Eigen::VectorXd, Lightweight)
 };
 
 using AnisotropicWeight = AnisotropicWeightBase<true>;
diff --git a/include/tvm/requirements/PriorityLevel.h b/include/tvm/requirements/PriorityLevel.h
index 77abe17..2917438 100644
--- a/include/tvm/requirements/PriorityLevel.h
+++ b/include/tvm/requirements/PriorityLevel.h
@@ -22,12 +22,16 @@ public:
 
   /** Priority level p>=0*/
   PriorityLevelBase(int p) : abstract::SingleSolvingRequirement<int, Lightweight>(p, false)
+  { checkValue(p); }
+
+  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(PriorityLevelBase, int, Lightweight)
+
+private:
+  static void checkValue(int p)
   {
     if(p < 0)
       throw std::runtime_error("Priority level must be non-negative.");
   }
-
-  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(PriorityLevelBase, int, Lightweight)
 };
 
 using PriorityLevel = PriorityLevelBase<true>;
diff --git a/include/tvm/requirements/ViolationEvaluation.h b/include/tvm/requirements/ViolationEvaluation.h
index 341c38c..d5fb2a9 100644
--- a/include/tvm/requirements/ViolationEvaluation.h
+++ b/include/tvm/requirements/ViolationEvaluation.h
@@ -49,6 +49,9 @@ public:
   {}
 
   TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(ViolationEvaluationBase, ViolationEvaluationType, Lightweight)
+
+private:
+  static void checkValue(ViolationEvaluationType) {}
 };
 
 using ViolationEvaluation = ViolationEvaluationBase<true>;
diff --git a/include/tvm/requirements/Weight.h b/include/tvm/requirements/Weight.h
index b8b33d2..a3d798e 100644
--- a/include/tvm/requirements/Weight.h
+++ b/include/tvm/requirements/Weight.h
@@ -27,12 +27,16 @@ public:
   WeightBase() : abstract::SingleSolvingRequirement<double, Lightweight>(1.0, true) {}
 
   WeightBase(double alpha) : abstract::SingleSolvingRequirement<double, Lightweight>(alpha, false)
+  { checkValue(alpha); }
+
+  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(WeightBase, double, Lightweight)
+
+private:
+  static void checkValue(double alpha)
   {
     if(alpha < 0)
       throw std::runtime_error("weight must be non negative.");
   }
-
-  TVM_DEFINE_LW_NON_LW_CONVERSION_OPERATORS(WeightBase, double, Lightweight)
 };
 
 using Weight = WeightBase<true>;
diff --git a/include/tvm/requirements/abstract/SingleSolvingRequirement.h b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
index 63ce1c2..a9900f6 100644
--- a/include/tvm/requirements/abstract/SingleSolvingRequirement.h
+++ b/include/tvm/requirements/abstract/SingleSolvingRequirement.h
@@ -55,12 +55,10 @@ protected:
   {
     value_ = other.value();
     default_ = other.isDefault();
-    return *this;
-  }
-
-  SingleSolvingRequirement & operator=(const T & val)
-  {
-    value(val);
+    if constexpr(!Lightweight)
+    {
+      Base::run();
+    }
     return *this;
   }
 
@@ -83,8 +81,15 @@ protected:
     abstract::SingleSolvingRequirement<T, L>::operator=(other);                               \
     return *this;                                                                             \
   }                                                                                           \
+  using abstract::SingleSolvingRequirement<T, L>::value;                                      \
+  /** Change the current value. Throw, leaving it unchanged, if the new value is not valid.*/ \
+  void value(const T & val)                                                                   \
+  {                                                                                           \
+    checkValue(val);                                                                          \
+    abstract::SingleSolvingRequirement<T, L>::value(val);                                     \
+  }                                                                                           \
   className & operator=(const T & val)                                                        \
   {                                                                                           \
-    abstract::SingleSolvingRequirement<T, L>::operator=(val);                                 \
+    value(val);                                                                               \
     return *this;                                                                             \
   }
-- 
2.43.0


From 0162721c2f6f7883eee138a5349b5b6290d8c50f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:02 +0000
Subject: [PATCH 35/53] fix: changing the priority of a task takes effect at
 the next resolution

---
 include/tvm/scheme/internal/ProblemComputationData.h | 6 ++++--
 include/tvm/scheme/internal/ProblemDefinitionEvent.h | 1 +
 src/ControlProblem.cpp                               | 3 +++
 src/scheme/HierarchicalLeastSquares.cpp              | 3 ++-
 src/scheme/WeightedLeastSquares.cpp                  | 3 ++-
 5 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/tvm/scheme/internal/ProblemComputationData.h b/include/tvm/scheme/internal/ProblemComputationData.h
index 1e589af..58619e2 100644
--- a/include/tvm/scheme/internal/ProblemComputationData.h
+++ b/include/tvm/scheme/internal/ProblemComputationData.h
@@ -122,12 +122,14 @@ inline void ProblemComputationData::addEvent(const ProblemDefinitionEvent & e)
 
   // If this event is a task removal, it is useless to process other events that
   // would be in the event queue for the same task. We remove those events from
-  // the queue.
+  // the queue. We keep the changes of priority, as the data were built with the
+  // former priority.
   if(e.type() == ProblemDefinitionEvent::Type::TaskRemoval)
   {
     for(auto it = events_.c.begin(); it != events_.c.end();)
     {
-      if(it->emitter() == e.emitter() && it->type() != ProblemDefinitionEvent::Type::TaskRemoval)
+      if(it->emitter() == e.emitter() && it->type() != ProblemDefinitionEvent::Type::TaskRemoval
+         && it->type() != ProblemDefinitionEvent::Type::PriorityChange)
       {
         // In case the addition of the same task is in the event queue: since
         // we are removing it, it is not necessary to add the removal event.
diff --git a/include/tvm/scheme/internal/ProblemDefinitionEvent.h b/include/tvm/scheme/internal/ProblemDefinitionEvent.h
index 3ec725a..f5ef217 100644
--- a/include/tvm/scheme/internal/ProblemDefinitionEvent.h
+++ b/include/tvm/scheme/internal/ProblemDefinitionEvent.h
@@ -22,6 +22,7 @@ public:
   {
     WeightChange,
     AnisotropicWeightChange,
+    PriorityChange,
     TaskAddition,
     TaskRemoval,
     SubstitutionAddition,
diff --git a/src/ControlProblem.cpp b/src/ControlProblem.cpp
index e263e3f..4511cdb 100644
--- a/src/ControlProblem.cpp
+++ b/src/ControlProblem.cpp
@@ -82,6 +82,9 @@ void ControlProblem::addCallBackToTask(TaskWithRequirementsPtr tr)
   auto l2 = [this, t]() { this->notify({EventType::AnisotropicWeightChange, *t}); };
   tokens.emplace_back(tr->requirements.anisotropicWeight().registerCallback(l2));
 
+  auto l3 = [this, t]() { this->notify({EventType::PriorityChange, *t}); };
+  tokens.emplace_back(tr->requirements.priorityLevel().registerCallback(l3));
+
   callbackTokens_[t] = std::move(tokens);
 }
 
diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index e6c9db7..1d7bb9f 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -53,7 +53,8 @@ void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlPro
   // If some events require to rebuild the data, we skip all other events.
   for(const auto & e : memory->events())
   {
-    if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
+    if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval
+       || e.type() == EventType::PriorityChange)
     {
       resetComputationData(problem, memory);
       return;
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 9367c58..7270b8c 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -61,7 +61,8 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
     // If some events require to rebuild the data, we skip all other events.
     for(const auto & e : memory->events())
     {
-      if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval)
+      if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval
+         || e.type() == EventType::PriorityChange)
       {
         resetComputationData(problem, memory);
         return;
-- 
2.43.0


From 8368253023e129e4fb56d40e5c5ed1852916a74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:20 +0000
Subject: [PATCH 36/53] fix: a refused removal of inputs leaves them unchanged

---
 include/tvm/graph/internal/Inputs.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/tvm/graph/internal/Inputs.hpp b/include/tvm/graph/internal/Inputs.hpp
index 1a487e1..fdf9bb7 100644
--- a/include/tvm/graph/internal/Inputs.hpp
+++ b/include/tvm/graph/internal/Inputs.hpp
@@ -108,11 +108,16 @@ inline void Inputs::removeInput(T * source, Args... args)
   else
   {
     std::set<int> v{static_cast<int>(args)...};
+    // Check first, so that nothing is removed in case of error
     for(auto i : v)
     {
-      if(it->second.erase(i) == 0)
+      if(it->second.count(i) == 0)
         throw std::runtime_error("You attempted to remove an input that was not there.");
     }
+    for(auto i : v)
+    {
+      it->second.erase(i);
+    }
     if(it->second.size() == 0)
     {
       removeInput(it, source);
-- 
2.43.0


From 9c07b986967aca2ba1f25bc47e0d3d77ddb3703a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:25 +0000
Subject: [PATCH 37/53] fix: checkJacobian compares all the columns

---
 src/utils/checkFunction.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 74119c3..79144d3 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -131,6 +131,7 @@ bool checkJacobian(const UpdatelessFunction & uf, const CheckOptions & opt, cons
                     << ") of the total jacobian) is not equivalent to the result of the ffd." << std::endl;
         }
       }
+      ++i;
     }
   }
 
-- 
2.43.0


From 66dcb59826a3ce374e6139950b35fd1de08a0043 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:25 +0000
Subject: [PATCH 38/53] fix: checkNormalAcceleration accepts functions with a
 null normal acceleration

---
 src/utils/checkFunction.cpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/utils/checkFunction.cpp b/src/utils/checkFunction.cpp
index 79144d3..0085f7c 100644
--- a/src/utils/checkFunction.cpp
+++ b/src/utils/checkFunction.cpp
@@ -361,16 +361,22 @@ bool checkNormalAcceleration(const UpdatelessFunction & uf,
   uf.jacobian(*x[0], val0);
 
   // Compute (d2f/dt2-J*dx2/dt2)
+  VectorXd Jacc = VectorXd::Zero(a.size());
   int s = 0;
   for(const auto & xi : x)
   {
     int ni = xi->size();
-    a -= f->jacobian(*xi) * acc.segment(s, ni);
+    Jacc += f->jacobian(*xi) * acc.segment(s, ni);
     s += ni;
   }
+  a -= Jacc;
 
   const VectorXd & na = uf.normalAcceleration(val0, vel0);
-  if(na.isApprox(a, opt.prec))
+  // a is the difference of two quantities, each known up to some error (rounding errors of the
+  // finite differences in particular). The comparison is relative to the magnitude of these
+  // quantities, and not only of the result, that can be null (e.g. for linear functions).
+  const double scale = std::max({std::min(na.norm(), a.norm()), Jacc.norm(), v0.norm()});
+  if((na - a).norm() <= opt.prec * scale)
   {
     return true;
   }
-- 
2.43.0


From 66677aaca1292b852d6c3cc4b2ba8050d498bcf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:25 +0000
Subject: [PATCH 39/53] fix: the log forgets removed inputs, cleared graphs and
 destroyed nodes

---
 include/tvm/graph/CallGraph.h         |  7 +++++
 include/tvm/graph/abstract/Outputs.h  |  3 +-
 include/tvm/graph/internal/Inputs.h   |  2 +-
 include/tvm/graph/internal/Inputs.hpp |  2 ++
 include/tvm/graph/internal/Logger.h   | 41 +++++++++++++++++++++++++++
 src/graph/CallGraph.cpp               |  4 +++
 src/graph/Inputs.cpp                  |  2 ++
 src/graph/Logger.cpp                  | 23 ++++++++++++++-
 8 files changed, 81 insertions(+), 3 deletions(-)

diff --git a/include/tvm/graph/CallGraph.h b/include/tvm/graph/CallGraph.h
index 55f3b8a..52c07f9 100644
--- a/include/tvm/graph/CallGraph.h
+++ b/include/tvm/graph/CallGraph.h
@@ -25,6 +25,13 @@ namespace graph
 class TVM_DLLAPI CallGraph
 {
 public:
+  CallGraph() = default;
+  CallGraph(const CallGraph &) = default;
+  CallGraph(CallGraph &&) = default;
+  CallGraph & operator=(const CallGraph &) = default;
+  CallGraph & operator=(CallGraph &&) = default;
+  ~CallGraph();
+
   /** Add a given Inputs object to the graph */
   void add(std::shared_ptr<internal::Inputs> inputs);
 
diff --git a/include/tvm/graph/abstract/Outputs.h b/include/tvm/graph/abstract/Outputs.h
index 89b4456..243c51f 100644
--- a/include/tvm/graph/abstract/Outputs.h
+++ b/include/tvm/graph/abstract/Outputs.h
@@ -4,6 +4,7 @@
 
 #include <tvm/api.h>
 
+#include <tvm/graph/internal/Logger.h>
 #include <tvm/internal/enums.h>
 
 #include <type_traits>
@@ -32,7 +33,7 @@ class TVM_DLLAPI Outputs
 public:
   friend class tvm::graph::CallGraph;
 
-  virtual ~Outputs() = default;
+  virtual ~Outputs() { graph::internal::Logger::logger().removeObject(this); }
 
   /** Base Output enumeration. Empty */
   enum class Output_
diff --git a/include/tvm/graph/internal/Inputs.h b/include/tvm/graph/internal/Inputs.h
index 67747de..a96fd06 100644
--- a/include/tvm/graph/internal/Inputs.h
+++ b/include/tvm/graph/internal/Inputs.h
@@ -26,7 +26,7 @@ class TVM_DLLAPI Inputs
 public:
   friend class tvm::graph::CallGraph;
 
-  virtual ~Inputs() = default;
+  virtual ~Inputs();
 
   /** Type used to store the inputs */
   using inputs_t = std::unordered_map<abstract::Outputs *, std::set<int>>;
diff --git a/include/tvm/graph/internal/Inputs.hpp b/include/tvm/graph/internal/Inputs.hpp
index fdf9bb7..50197b3 100644
--- a/include/tvm/graph/internal/Inputs.hpp
+++ b/include/tvm/graph/internal/Inputs.hpp
@@ -91,6 +91,7 @@ inline void Inputs::removeInput(T * source)
   }
   else
   {
+    Logger::logger().removeInput(this, source);
     removeInput(it, source);
   }
 }
@@ -118,6 +119,7 @@ inline void Inputs::removeInput(T * source, Args... args)
     {
       it->second.erase(i);
     }
+    (Logger::logger().removeInput(this, source, args), ...);
     if(it->second.size() == 0)
     {
       removeInput(it, source);
diff --git a/include/tvm/graph/internal/Logger.h b/include/tvm/graph/internal/Logger.h
index 5bbb1ac..bd7d745 100644
--- a/include/tvm/graph/internal/Logger.h
+++ b/include/tvm/graph/internal/Logger.h
@@ -55,6 +55,22 @@ public:
 
   void addGraphOutput(CallGraph * g, Inputs * node);
 
+  /** Forget the input \p i from \p source in \p node. */
+  template<typename S, typename EnumO>
+  void removeInput(Inputs * node, S * source, EnumO i);
+
+  /** Forget all the inputs from \p source in \p node. */
+  template<typename S>
+  void removeInput(Inputs * node, S * source);
+
+  /** Forget the outputs of graph \p g. */
+  void removeGraph(CallGraph * g);
+
+  /** Forget everything about the object at address \p node, that is being destroyed: nothing shall be read at this
+   * address anymore, and another object might be created there.
+   */
+  void removeObject(const void * node);
+
   /** Register the type associated to a pointer. */
   template<typename U>
   void registerType(U * node);
@@ -155,6 +171,31 @@ inline void Logger::addDirectDependency(U * node, EnumO o, S * source, EnumI i)
   registerType(source);
 }
 
+template<typename S, typename EnumO>
+inline void Logger::removeInput(Inputs * node, S * source, EnumO i)
+{
+  const Log::EnumValue id(i);
+  const auto owner = reinterpret_cast<std::uintptr_t>(node);
+  const auto src = reinterpret_cast<std::uintptr_t>(source);
+  auto & in = log_.inputs_;
+  in.erase(std::remove_if(in.begin(), in.end(),
+                          [&](const Log::Input & l) {
+                            return l.owner.value == owner && l.source.value == src && l.id == id;
+                          }),
+           in.end());
+}
+
+template<typename S>
+inline void Logger::removeInput(Inputs * node, S * source)
+{
+  const auto owner = reinterpret_cast<std::uintptr_t>(node);
+  const auto src = reinterpret_cast<std::uintptr_t>(source);
+  auto & in = log_.inputs_;
+  in.erase(std::remove_if(in.begin(), in.end(),
+                          [&](const Log::Input & l) { return l.owner.value == owner && l.source.value == src; }),
+           in.end());
+}
+
 template<typename U>
 inline void Logger::registerType(U * node)
 {
diff --git a/src/graph/CallGraph.cpp b/src/graph/CallGraph.cpp
index 3d0139e..b51bf59 100644
--- a/src/graph/CallGraph.cpp
+++ b/src/graph/CallGraph.cpp
@@ -11,6 +11,8 @@ namespace tvm
 namespace graph
 {
 
+CallGraph::~CallGraph() { internal::Logger::logger().removeGraph(this); }
+
 void CallGraph::add(std::shared_ptr<internal::Inputs> inputs)
 {
   inputs_.push_back(inputs);
@@ -30,6 +32,8 @@ void CallGraph::update() { plan_.build(*this); }
 
 void CallGraph::clear()
 {
+  internal::Logger::logger().removeGraph(this);
+  inputs_.clear();
   callId_.clear();
   calls_.clear();
   dependencyGraph_.clear();
diff --git a/src/graph/Inputs.cpp b/src/graph/Inputs.cpp
index eca992e..cb2256e 100644
--- a/src/graph/Inputs.cpp
+++ b/src/graph/Inputs.cpp
@@ -13,6 +13,8 @@ namespace internal
 
 Inputs::Iterator::Iterator(inputs_t::iterator it, inputs_t::iterator end) : Inputs::inputs_t::iterator(it), end_(end) {}
 
+Inputs::~Inputs() { Logger::logger().removeObject(this); }
+
 Inputs::Iterator::operator bool() { return *this != end_; }
 
 void Inputs::removeInput(Iterator it, abstract::Outputs * source)
diff --git a/src/graph/Logger.cpp b/src/graph/Logger.cpp
index 475d2ab..f76bd48 100644
--- a/src/graph/Logger.cpp
+++ b/src/graph/Logger.cpp
@@ -15,7 +15,8 @@ namespace internal
 
 Logger & Logger::logger()
 {
-  static std::unique_ptr<Logger> logger_{new Logger()};
+  // Never destroyed, because the destruction of nodes (possibly static ones) is logged.
+  static Logger * logger_ = new Logger();
   return *logger_;
 }
 
@@ -31,6 +32,26 @@ void Logger::addGraphOutput(CallGraph * g, Inputs * node)
   log_.graphOutputs_[g].push_back(node);
 }
 
+void Logger::removeGraph(CallGraph * g) { log_.graphOutputs_.erase(g); }
+
+void Logger::removeObject(const void * node)
+{
+  const auto value = reinterpret_cast<std::uintptr_t>(node);
+  if(log_.types_.erase(value) == 0)
+    return; // nothing was logged
+
+  auto removeFrom = [value](auto & v) {
+    v.erase(std::remove_if(v.begin(), v.end(), [value](const auto & l) { return l.owner.value == value; }), v.end());
+  };
+  removeFrom(log_.updates_);
+  removeFrom(log_.inputs_);
+  removeFrom(log_.outputs_);
+  removeFrom(log_.inputDependencies_);
+  removeFrom(log_.outputDependencies_);
+  removeFrom(log_.internalDependencies_);
+  removeFrom(log_.directDependencies_);
+}
+
 } // namespace internal
 
 } // namespace graph
-- 
2.43.0


From 3aa4d47547ae9b7bdf062800ad9e96298345d6d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:59:08 +0000
Subject: [PATCH 40/53] fix: bounds alone form the first level of a
 hierarchical problem

---
 src/scheme/HierarchicalLeastSquares.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 1d7bb9f..1f78272 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -148,8 +148,8 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
     }
   }
   // we need to add the additional constraints due to the substitutions.
-  // They are added at level 0.
-  if(subs.additionalConstraints().size() > 0 && nEq.size() == 0)
+  // They are added at level 0. Bounds belong to this level as well.
+  if((subs.additionalConstraints().size() > 0 || bounds.size() > 0) && nEq.size() == 0)
   {
     nEq.push_back(0);
     nIneq.push_back(0);
-- 
2.43.0


From 018668d496203014ae7060b72e2713bfe8d10286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:26 +0000
Subject: [PATCH 41/53] fix: a hierarchical problem edited between solves is
 rebuilt

---
 src/scheme/HierarchicalLeastSquares.cpp | 51 ++-----------------------
 1 file changed, 3 insertions(+), 48 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 1f78272..1e02e04 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -40,54 +40,9 @@ bool HierarchicalLeastSquares::solve_(const LinearizedControlProblem & problem,
 void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlProblem & problem,
                                                       internal::ProblemComputationData * data) const
 {
-  using EventType = ProblemDefinitionEvent::Type;
-  solver::internal::SolverEvents se;
-
-  if(!data->hasEvents())
-  {
-    return;
-  }
-
-  Memory * memory = static_cast<Memory *>(data);
-
-  // If some events require to rebuild the data, we skip all other events.
-  for(const auto & e : memory->events())
-  {
-    if(e.type() == EventType::SubstitutionAddition || e.type() == EventType::SubstitutionRemoval
-       || e.type() == EventType::PriorityChange)
-    {
-      resetComputationData(problem, memory);
-      return;
-    }
-  }
-  while(memory->hasEvents())
-  {
-    auto e = memory->popEvent();
-    switch(e.type())
-    {
-      case EventType::WeightChange: {
-        const auto & c = problem.constraintWithRequirements(e.typedEmitter<EventType::WeightChange>());
-        se.addScalarWeightEvent(c.constraint.get());
-      }
-      break;
-      case EventType::AnisotropicWeightChange: {
-        const auto & c = problem.constraintWithRequirements(e.typedEmitter<EventType::AnisotropicWeightChange>());
-        se.addVectorWeightEvent(c.constraint.get());
-      }
-      break;
-      case EventType::TaskAddition:
-        addTask(problem, memory, e.typedEmitter<EventType::TaskAddition>(), se);
-        break;
-      case EventType::TaskRemoval:
-        removeTask(problem, memory, e.typedEmitter<EventType::TaskRemoval>(), se);
-        break;
-      default:
-        throw std::runtime_error("[HierarchicalLeastSquares::updateComputationData_] Unimplemented event handling.");
-    }
-  }
-
-  memory->variables(); // update variable vector if needed
-  memory->solver->process(se);
+  // The solvers do not handle the changes incrementally yet: any event requires to rebuild the data.
+  if(data->hasEvents())
+    resetComputationData(problem, static_cast<Memory *>(data));
 }
 
 std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::createComputationData_(
-- 
2.43.0


From 87a673d5b33033d1b274162db0c5f0bb0e4df3c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:47 +0000
Subject: [PATCH 42/53] fix: printing a minimum-norm problem does not access an
 absent Cholesky factor

---
 src/solver/QLDLeastSquareSolver.cpp      | 2 +-
 src/solver/QuadprogLeastSquareSolver.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/solver/QLDLeastSquareSolver.cpp b/src/solver/QLDLeastSquareSolver.cpp
index ff83aef..911a6b7 100644
--- a/src/solver/QLDLeastSquareSolver.cpp
+++ b/src/solver/QLDLeastSquareSolver.cpp
@@ -191,7 +191,7 @@ void QLDLeastSquareSolver::applyImpactLogic(ImpactFromChanges & impact)
 
 void QLDLeastSquareSolver::printProblemData_() const
 {
-  if(cholesky_)
+  if(cholesky_ && !autoMinNorm_)
   {
     int n = variables().totalSize();
     std::cout << "R =\n"
diff --git a/src/solver/QuadprogLeastSquareSolver.cpp b/src/solver/QuadprogLeastSquareSolver.cpp
index ea379d3..7d6bd9d 100644
--- a/src/solver/QuadprogLeastSquareSolver.cpp
+++ b/src/solver/QuadprogLeastSquareSolver.cpp
@@ -254,7 +254,7 @@ void QuadprogLeastSquareSolver::applyImpactLogic(ImpactFromChanges & impact)
 
 void QuadprogLeastSquareSolver::printProblemData_() const
 {
-  if(cholesky_)
+  if(cholesky_ && !autoMinNorm_)
   {
     int n = variables().totalSize();
     std::cout << "R =\n"
-- 
2.43.0


From c986da08e790b93eb33d58b6a8a33b7bf701ebad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:40 +0000
Subject: [PATCH 43/53] fix: several parts of a variable can be substituted

---
 src/hint/Substitutions.cpp | 39 ++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index 83cccbb..a2db0de 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -166,35 +166,38 @@ const std::vector<VariablePtr> & Substitutions::otherVariables() const { return
 
 VariableVector Substitutions::substitute(const VariablePtr & x) const
 {
-  auto it =
-      std::find_if(variables_.begin(), variables_.end(), [&x](const VariablePtr & v) { return v->intersects(*x); });
-  if(it == variables_.end()) // no substitution of var
-  {
-    VariableVector v({x});
-    return v;
-  }
-  else // substitution of var
+  tvm::internal::VariableCountingVector vcv;
+  vcv.add(x);
+  std::vector<size_t> parts;
+  for(size_t i = 0; i < variables_.size(); ++i)
   {
-    const auto & f = varSubstitutions_[static_cast<size_t>(it - variables_.begin())];
-    if(*x == **it) // substitution by a full variable
+    const auto & v = variables_[i];
+    if(!v->intersects(*x))
+      continue;
+    if(*x == *v) // substitution by a full variable
     {
-      return f->variables();
+      return varSubstitutions_[i]->variables();
     }
-    else if(x->contains(**it)) // part of x should be substituted
+    else if(x->contains(*v)) // part of x should be substituted
     {
-      tvm::internal::VariableCountingVector vcv;
-      vcv.add(x);
-      vcv.remove(*it);
-      vcv.add(f->variables());
-      return vcv.variables();
+      vcv.remove(*v);
+      parts.push_back(i);
     }
     else
     {
       throw std::runtime_error("[Substitutions::substitute] Variable " + x->name()
-                               + " intersect but is not contained by a variable being substituted (" + (*it)->name()
+                               + " intersect but is not contained by a variable being substituted (" + v->name()
                                + "). Variables in the subsitution do not a fine enough level of granularity.");
     }
   }
+  if(parts.empty()) // no substitution of var
+  {
+    VariableVector v({x});
+    return v;
+  }
+  for(auto i : parts)
+    vcv.add(varSubstitutions_[i]->variables());
+  return vcv.variables();
 }
 
 Substitution const * Substitutions::getSubstitutionFor(const constraint::abstract::LinearConstraint & cstr)
-- 
2.43.0


From 812bdb4b91bde836050e44515c17037c2d220688 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:40 +0000
Subject: [PATCH 44/53] fix: substitutions with constraints depending on a part
 of the variables

---
 src/hint/SubstitutionCalculatorImpl.cpp | 28 ++++++++++++++++++-------
 src/hint/SubstitutionUnit.cpp           |  2 +-
 2 files changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/hint/SubstitutionCalculatorImpl.cpp b/src/hint/SubstitutionCalculatorImpl.cpp
index d21121b..d8419ea 100644
--- a/src/hint/SubstitutionCalculatorImpl.cpp
+++ b/src/hint/SubstitutionCalculatorImpl.cpp
@@ -142,7 +142,7 @@ SubstitutionCalculatorImpl::SubstitutionCalculatorImpl(const std::vector<LinearC
     n_ += v->size();
   }
 
-  assert(m_ <= n_);
+  assert(r_ <= n_);
   assert(r_ <= m_);
 
   if(!isSimple())
@@ -157,10 +157,24 @@ SubstitutionCalculatorImpl::SubstitutionCalculatorImpl(const std::vector<LinearC
       int mi = c->size();
       for(auto v : variables_.variables())
       {
-        if(c->variables().contains(*v))
+        auto start = v->getMappingIn(variables_).start;
+        for(const auto & cv : c->variables())
         {
-          auto cols = v->getMappingIn(variables_);
-          fillData_.push_back({v, c, A_.block(m, cols.start, mi, cols.dim)});
+          if(cv->contains(*v))
+          {
+            fillData_.push_back({v, c, A_.block(m, start, mi, v->size())});
+          }
+          else if(v->contains(*cv)) // the constraint depends only on a part of v
+          {
+            auto cols = cv->subvariableRange();
+            auto shift = cols.start - v->subvariableRange().start;
+            fillData_.push_back({cv, c, A_.block(m, start + shift, mi, cols.dim)});
+          }
+          else if(v->intersects(*cv))
+          {
+            throw std::runtime_error("[SubstitutionCalculatorImpl] Variables " + v->name() + " and " + cv->name()
+                                     + " intersect without one containing the other. This case is not handled.");
+          }
         }
       }
       m += mi;
@@ -171,11 +185,11 @@ SubstitutionCalculatorImpl::SubstitutionCalculatorImpl(const std::vector<LinearC
   constant_ = true;
   for(const auto & c : constraints_)
   {
-    for(const auto & v : variables_.variables())
+    for(const auto & cv : c->variables())
     {
-      if(c->variables().contains(*v))
+      if(variables_.intersects(*cv))
       {
-        constant_ &= c->jacobian(*v).properties().isConstant();
+        constant_ &= c->jacobian(*cv).properties().isConstant();
       }
     }
   }
diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index ed52975..8b79fea 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -57,7 +57,7 @@ Substitution group(const std::vector<Substitution> & substitutionPool, const std
       {
         for(const auto & c : s.constraints())
         {
-          if(c->variables().contains(*xi))
+          if(c->variables().intersects(*xi))
             mi += c->size();
         }
         // it can help to increase the rank
-- 
2.43.0


From 100f38b559a040abbff9f1538d1c2c5fdf068397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:40 +0000
Subject: [PATCH 45/53] fix: constraints left by the substitutions are always
 given to the solver

---
 src/scheme/HierarchicalLeastSquares.cpp | 7 +++++--
 src/scheme/WeightedLeastSquares.cpp     | 7 +++++--
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index 1e02e04..c6ca964 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -25,9 +25,11 @@ const internal::SchemeAbilities HierarchicalLeastSquares::abilities_ = {NoLimit,
 bool HierarchicalLeastSquares::solve_(const LinearizedControlProblem & problem,
                                       internal::ProblemComputationData * data) const
 {
-  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size()))
+  Memory * memory = static_cast<Memory *>(data);
+  // If all the tasks are used for substitutions, there might still be additional constraints on the other variables.
+  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size())
+     || memory->variables().totalSize() > 0)
   {
-    Memory * memory = static_cast<Memory *>(data);
     return memory->solver->solve();
   }
   else
@@ -111,6 +113,7 @@ void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & p
   }
   for(const auto & c : subs.additionalConstraints())
   {
+    memory->addVariable(c->variables());
     nEq[0] += c->size();
     constr.push_back(
         {c, std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(0)), false});
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 7270b8c..83e602f 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -36,9 +36,11 @@ const internal::SchemeAbilities WeightedLeastSquares::abilities_ = {2,
 bool WeightedLeastSquares::solve_(const LinearizedControlProblem & problem,
                                   internal::ProblemComputationData * data) const
 {
-  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size()))
+  Memory * memory = static_cast<Memory *>(data);
+  // If all the tasks are used for substitutions, there might still be additional constraints on the other variables.
+  if(problem.size() > static_cast<int>(problem.substitutions().substitutions().size())
+     || memory->variables().totalSize() > 0)
   {
-    Memory * memory = static_cast<Memory *>(data);
     return memory->solver->solve();
   }
   else
@@ -180,6 +182,7 @@ void WeightedLeastSquares::processProblem(const LinearizedControlProblem & probl
   // They are added at level 0
   for(const auto & c : subs.additionalConstraints())
   {
+    memory->addVariable(c->variables());
     nEq += c->size();
     constr.push_back(
         {c, std::make_shared<requirements::SolvingRequirementsWithCallbacks>(requirements::PriorityLevel(0)), false});
-- 
2.43.0


From c1876a5d178538911fe0d2bb9e18400563d40e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:59:40 +0000
Subject: [PATCH 46/53] fix: assignments accept substitutions with intersecting
 variables

---
 src/scheme/Assignment.cpp | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 7938e10..0ca2a32 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -9,6 +9,8 @@
 #include <tvm/internal/VariableVectorPartition.h>
 #include <tvm/scheme/internal/helpers.h>
 
+#include <algorithm>
+
 namespace tvm::scheme::internal
 {
 using constraint::RHS;
@@ -562,13 +564,18 @@ void Assignment::addAssignments(const VariableVector & variables,
 
   // For all variables that are substituted into but are not part of the source variables,
   // we set the corresponding matrix block to zero.
-  VariableVector substitutedInto;
+  // Different substitutions can use intersecting variables, hence the use of a std::vector.
+  std::vector<VariablePtr> substitutedInto;
   for(const auto & x : xcp)
   {
     int i = xs.indexOf(*x);
     if(i >= 0) // x needs to be substituted
     {
-      substitutedInto.add(variableSubstitutions_[static_cast<int>(i)]->variables());
+      for(const auto & v : variableSubstitutions_[static_cast<int>(i)]->variables())
+      {
+        if(std::find(substitutedInto.begin(), substitutedInto.end(), v) == substitutedInto.end())
+          substitutedInto.push_back(v);
+      }
     }
   }
   for(const auto & x : substitutedInto)
-- 
2.43.0


From 3e1fd08569d5f9a817f0e13ceb1fb99c5d25644c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 47/53] fix: additional variables of previous substitutions are
 forgotten

---
 src/hint/Substitutions.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index a2db0de..77f6f0a 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -99,6 +99,7 @@ void Substitutions::finalize()
   // Retrieve all the variables, functions and constraints
   variables_.clear();
   varSubstitutions_.clear();
+  additionalVariables_.clear();
   additionalConstraints_.clear();
   otherVariables_.clear();
   for(const auto & u : units_)
-- 
2.43.0


From d3049e0b91a7507229f9a661482b333984cc643e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 48/53] fix: a refused addition or removal of a task leaves the
 problem unchanged

---
 src/LinearizedControlProblem.cpp | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/LinearizedControlProblem.cpp b/src/LinearizedControlProblem.cpp
index 36907a5..3a6d9fd 100644
--- a/src/LinearizedControlProblem.cpp
+++ b/src/LinearizedControlProblem.cpp
@@ -25,8 +25,6 @@ TaskWithRequirementsPtr LinearizedControlProblem::add(const Task & task, const r
 
 void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 {
-  ControlProblem::add(tr);
-
   // FIXME A lot of work can be done here based on the properties of the task's jacobian.
   // In particular, we could detect bounds, pairs of tasks forming a double-sided constraints...
   LinearConstraintWithRequirements lcr;
@@ -35,6 +33,9 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
   // lcr.requirements points to and doesn't outlive tr->requirements.
   lcr.requirements = std::shared_ptr<requirements::SolvingRequirementsWithCallbacks>(tr, &tr->requirements);
   lcr.bound = scheme::internal::isBound(lcr.constraint);
+
+  // The creation of the constraint may throw, so that the problem is only modified after it.
+  ControlProblem::add(tr);
   constraints_[tr.get()] = lcr;
 
   using CstrOutput = internal::FirstOrderProvider::Output;
@@ -59,13 +60,15 @@ void LinearizedControlProblem::add(TaskWithRequirementsPtr tr)
 
 void LinearizedControlProblem::remove(const TaskWithRequirements & tr)
 {
-  ControlProblem::remove(tr);
   auto it = constraints_.find(&tr);
   if(it == constraints_.end())
   {
+    ControlProblem::remove(tr);
     return;
   }
+  // This may throw, hence it is done before any other modification of the problem.
   removeSubstitutionFor(*it->second.constraint);
+  ControlProblem::remove(tr);
   updater_.removeInput(it->second.constraint.get());
   constraints_.erase(it);
 }
-- 
2.43.0


From ddbe654043cf3dbf0e6d8e75e37c3b0a0e6b4a01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 49/53] fix: anisotropic weights of a wrong size are refused
 when a problem is built

---
 src/scheme/Assignment.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/scheme/Assignment.cpp b/src/scheme/Assignment.cpp
index 0ca2a32..ac0d88a 100644
--- a/src/scheme/Assignment.cpp
+++ b/src/scheme/Assignment.cpp
@@ -403,6 +403,8 @@ void Assignment::processRequirements()
         else
         {
           useDefaultAnisotropicWeight_ = false;
+          if(requirements_->anisotropicWeight().value().size() != source_->size())
+            throw std::runtime_error("[Assignment] Anisotropic weight has not the correct size.");
           data_->anisotropicWeight_ = requirements_->anisotropicWeight().value().cwiseSqrt();
           data_->anisotropicWeight_ *= data_->scalarWeight_;
           data_->minusAnisotropicWeight_ = -data_->anisotropicWeight_;
-- 
2.43.0


From d3e50f3851ceb89dad444376de76ebc61c726935 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:27:56 +0000
Subject: [PATCH 50/53] fix: the data of a problem are rebuilt after an
 interrupted update

---
 include/tvm/scheme/HierarchicalLeastSquares.h |  1 +
 include/tvm/scheme/WeightedLeastSquares.h     |  1 +
 src/scheme/HierarchicalLeastSquares.cpp       |  7 +++++--
 src/scheme/WeightedLeastSquares.cpp           | 14 ++++++++++++--
 4 files changed, 19 insertions(+), 4 deletions(-)

diff --git a/include/tvm/scheme/HierarchicalLeastSquares.h b/include/tvm/scheme/HierarchicalLeastSquares.h
index dace5ea..f29ea65 100644
--- a/include/tvm/scheme/HierarchicalLeastSquares.h
+++ b/include/tvm/scheme/HierarchicalLeastSquares.h
@@ -32,6 +32,7 @@ private:
     void reset(std::unique_ptr<solver::abstract::HierarchicalLeastSquareSolver> solver);
 
     std::unique_ptr<solver::abstract::HierarchicalLeastSquareSolver> solver;
+    bool valid = true; // false if the last update of the data was interrupted by an exception
 
   protected:
     void setVariablesToSolution_(tvm::internal::VariableCountingVector & x) override;
diff --git a/include/tvm/scheme/WeightedLeastSquares.h b/include/tvm/scheme/WeightedLeastSquares.h
index dab9d1e..76d4d4a 100644
--- a/include/tvm/scheme/WeightedLeastSquares.h
+++ b/include/tvm/scheme/WeightedLeastSquares.h
@@ -38,6 +38,7 @@ private:
     void reset(std::unique_ptr<solver::abstract::LeastSquareSolver> solver);
 
     std::unique_ptr<solver::abstract::LeastSquareSolver> solver;
+    bool valid = true; // false if the last update of the data was interrupted by an exception
 
     int maxp = 0;
 
diff --git a/src/scheme/HierarchicalLeastSquares.cpp b/src/scheme/HierarchicalLeastSquares.cpp
index c6ca964..d2dc1a0 100644
--- a/src/scheme/HierarchicalLeastSquares.cpp
+++ b/src/scheme/HierarchicalLeastSquares.cpp
@@ -42,9 +42,10 @@ bool HierarchicalLeastSquares::solve_(const LinearizedControlProblem & problem,
 void HierarchicalLeastSquares::updateComputationData_(const LinearizedControlProblem & problem,
                                                       internal::ProblemComputationData * data) const
 {
+  Memory * memory = static_cast<Memory *>(data);
   // The solvers do not handle the changes incrementally yet: any event requires to rebuild the data.
-  if(data->hasEvents())
-    resetComputationData(problem, static_cast<Memory *>(data));
+  if(data->hasEvents() || !memory->valid)
+    resetComputationData(problem, memory);
 }
 
 std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::createComputationData_(
@@ -58,8 +59,10 @@ std::unique_ptr<HierarchicalLeastSquares::Memory> HierarchicalLeastSquares::crea
 
 void HierarchicalLeastSquares::resetComputationData(const LinearizedControlProblem & problem, Memory * memory) const
 {
+  memory->valid = false;
   memory->reset(solverFactory_->createSolver());
   processProblem(problem, memory);
+  memory->valid = true;
 }
 
 void HierarchicalLeastSquares::processProblem(const LinearizedControlProblem & problem, Memory * memory) const
diff --git a/src/scheme/WeightedLeastSquares.cpp b/src/scheme/WeightedLeastSquares.cpp
index 83e602f..2424e26 100644
--- a/src/scheme/WeightedLeastSquares.cpp
+++ b/src/scheme/WeightedLeastSquares.cpp
@@ -55,11 +55,17 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
 {
   using EventType = ProblemDefinitionEvent::Type;
   solver::internal::SolverEvents se;
+  Memory * memory = static_cast<Memory *>(data);
 
-  if(data->hasEvents())
+  // If the previous update failed, some events were processed but had no effect on the solver.
+  if(!memory->valid)
   {
-    Memory * memory = static_cast<Memory *>(data);
+    resetComputationData(problem, memory);
+    return;
+  }
 
+  if(data->hasEvents())
+  {
     // If some events require to rebuild the data, we skip all other events.
     for(const auto & e : memory->events())
     {
@@ -70,6 +76,7 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
         return;
       }
     }
+    memory->valid = false; // until all the events are processed
     while(memory->hasEvents())
     {
       auto e = memory->popEvent();
@@ -113,6 +120,7 @@ void WeightedLeastSquares::updateComputationData_(const LinearizedControlProblem
 
     memory->variables(); // update variable vector if needed
     memory->solver->process(se);
+    memory->valid = true;
   }
 }
 
@@ -127,8 +135,10 @@ std::unique_ptr<WeightedLeastSquares::Memory> WeightedLeastSquares::createComput
 
 void WeightedLeastSquares::resetComputationData(const LinearizedControlProblem & problem, Memory * memory) const
 {
+  memory->valid = false;
   memory->reset(solverFactory_->createSolver());
   processProblem(problem, memory);
+  memory->valid = true;
 }
 
 void WeightedLeastSquares::processProblem(const LinearizedControlProblem & problem, Memory * memory) const
-- 
2.43.0


From 6cb7d49a8f1d5059f9e0a3fdcf9341b96dffea62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:01 +0000
Subject: [PATCH 51/53] fix: which vectors of the substitutions are zero was
 looked up by the wrong indices

The flags of the vectors u of the substitutions were read with the indices of
the variables, and there were as many flags for the vectors c as variables
instead of constraints. A non-zero vector could be declared zero.
---
 include/tvm/hint/internal/SubstitutionUnit.h | 2 +-
 src/hint/SubstitutionUnit.cpp                | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/tvm/hint/internal/SubstitutionUnit.h b/include/tvm/hint/internal/SubstitutionUnit.h
index f8be8d0..3dc5415 100644
--- a/include/tvm/hint/internal/SubstitutionUnit.h
+++ b/include/tvm/hint/internal/SubstitutionUnit.h
@@ -146,7 +146,7 @@ private:
    * in \p constraints_.
    */
   Eigen::VectorXd c_;
-  /** cIsZero_[i] is true if the value of u corresponding to x_[i] is zero.*/
+  /** cIsZero_[i] is true if the value of c corresponding to constraints_[i] is zero.*/
   std::vector<bool> cIsZero_;
   /** All the matrices M_{i,j} assembled, where \p i corresponds to the i-th
    * variables in \p x_ and \p j corresponds to the j-th variable in \p y_.
diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index 8b79fea..71429a2 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -180,7 +180,7 @@ void SubstitutionUnit::update()
 
         // c_i -= A{il}*u_l
         c_.segment(m + mk, mki).noalias() -= A * u_.segment(rx.start, rx.dim);
-        cIsZero_[i] = cIsZero_[i] && uIsZero_[l];
+        cIsZero_[i] = cIsZero_[i] && uIsZero_[x2sub_[l]];
       }
       cZero = cZero && cIsZero_[i];
       mk += mki;
@@ -318,7 +318,6 @@ void SubstitutionUnit::scanSubstitutions()
       ni += v->size();
       XYdependencies_.push_back({});
       XZdependencies_.push_back({});
-      cIsZero_.push_back(false);
     }
     int mi = 0;
     for(const auto & c : s.constraints())
@@ -327,6 +326,7 @@ void SubstitutionUnit::scanSubstitutions()
       constraints_.push_back(c);
       constraintsY_.push_back({});
       CXdependencies_.push_back({});
+      cIsZero_.push_back(false);
       mi += c->size();
       for(const auto & v : tvm::internal::VariableVectorPartition(c->variables(), partition))
       {
-- 
2.43.0


From aac7c25cfd5878328a7a86bc436ab0cacd98489a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:53 +0000
Subject: [PATCH 52/53] fix: solving leaves the allocation mode of the user
 unchanged

---
 include/tvm/scheme/abstract/ResolutionScheme.h |  6 ++----
 include/tvm/utils/memoryChecks.h               | 12 ++++++++++++
 src/hint/SubstitutionUnit.cpp                  |  3 +--
 src/hint/Substitutions.cpp                     |  4 ++++
 4 files changed, 19 insertions(+), 6 deletions(-)

diff --git a/include/tvm/scheme/abstract/ResolutionScheme.h b/include/tvm/scheme/abstract/ResolutionScheme.h
index ea8f446..8302ea1 100644
--- a/include/tvm/scheme/abstract/ResolutionScheme.h
+++ b/include/tvm/scheme/abstract/ResolutionScheme.h
@@ -85,9 +85,8 @@ template<typename Problem>
 inline std::unique_ptr<internal::ProblemComputationData> ResolutionScheme<Derived>::createComputationData(
     const Problem & problem) const
 {
-  tvm::utils::override_is_malloc_allowed(true);
+  tvm::utils::ScopedMallocOverride allowMalloc(true);
   return derived().createComputationData_(problem);
-  tvm::utils::restore_is_malloc_allowed();
 }
 
 template<typename Derived>
@@ -95,9 +94,8 @@ template<typename Problem>
 void ResolutionScheme<Derived>::updateComputationData(const Problem & problem,
                                                       internal::ProblemComputationData * data) const
 {
-  tvm::utils::override_is_malloc_allowed(true);
+  tvm::utils::ScopedMallocOverride allowMalloc(true);
   derived().updateComputationData_(problem, data);
-  tvm::utils::restore_is_malloc_allowed();
 }
 
 template<typename Derived>
diff --git a/include/tvm/utils/memoryChecks.h b/include/tvm/utils/memoryChecks.h
index c09a117..ab2a42c 100644
--- a/include/tvm/utils/memoryChecks.h
+++ b/include/tvm/utils/memoryChecks.h
@@ -82,6 +82,18 @@ inline void restore_is_malloc_allowed()
 }
 #endif
 
+/** Override whether dynamic allocation of memory in Eigen objects is allowed or not for the lifetime of this object,
+ * including when its scope is left by an exception.
+ */
+class ScopedMallocOverride
+{
+public:
+  explicit ScopedMallocOverride(bool allow) { override_is_malloc_allowed(allow); }
+  ~ScopedMallocOverride() { restore_is_malloc_allowed(); }
+  ScopedMallocOverride(const ScopedMallocOverride &) = delete;
+  ScopedMallocOverride & operator=(const ScopedMallocOverride &) = delete;
+};
+
 #define TVM_TEMPORARY_ALLOW_EIGEN_MALLOC(x)     \
   tvm::utils::override_is_malloc_allowed(true); \
   x;                                            \
diff --git a/src/hint/SubstitutionUnit.cpp b/src/hint/SubstitutionUnit.cpp
index 71429a2..84a23e2 100644
--- a/src/hint/SubstitutionUnit.cpp
+++ b/src/hint/SubstitutionUnit.cpp
@@ -84,10 +84,9 @@ SubstitutionUnit::SubstitutionUnit(const std::vector<Substitution> & substitutio
   extractSubstitutions(substitutionPool, groups, order);
   scanSubstitutions();
   computeDependencies();
-  tvm::utils::override_is_malloc_allowed(true);
+  tvm::utils::ScopedMallocOverride allowMalloc(true);
   initializeMatrices();
   createFunctions();
-  tvm::utils::restore_is_malloc_allowed();
 }
 
 void SubstitutionUnit::update()
diff --git a/src/hint/Substitutions.cpp b/src/hint/Substitutions.cpp
index 77f6f0a..c1eabe7 100644
--- a/src/hint/Substitutions.cpp
+++ b/src/hint/Substitutions.cpp
@@ -3,6 +3,7 @@
 #include <tvm/Variable.h>
 #include <tvm/constraint/abstract/LinearConstraint.h>
 #include <tvm/hint/internal/Substitutions.h>
+#include <tvm/utils/memoryChecks.h>
 
 #include <algorithm>
 
@@ -79,6 +80,9 @@ void Substitutions::finalize()
   if(finalized_)
     return;
 
+  // Everything built here is kept until the substitutions change.
+  tvm::utils::ScopedMallocOverride allowMalloc(true);
+
   // Detect interdependent substitutions (this corresponds to strongly connected
   // components of the dependency graph).
   tvm::graph::internal::DependencyGraph g;
-- 
2.43.0


From faf5cbc1fc2e6d94fe2d88962b473c03d99ad554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:28:53 +0000
Subject: [PATCH 53/53] fix: no Eigen allocation when updating linear
 functions, matrix gains and substitutions

---
 include/tvm/hint/internal/GenericCalculator.h   |  1 +
 include/tvm/task_dynamics/Proportional.h        |  1 +
 .../tvm/task_dynamics/ProportionalDerivative.h  |  1 +
 src/function/LinearFunction.cpp                 |  4 ++--
 src/hint/GenericCalculator.cpp                  | 17 ++++++++++++++---
 src/task_dynamics/Proportional.cpp              |  5 +++--
 src/task_dynamics/ProportionalDerivative.cpp    |  5 +++--
 7 files changed, 25 insertions(+), 9 deletions(-)

diff --git a/include/tvm/hint/internal/GenericCalculator.h b/include/tvm/hint/internal/GenericCalculator.h
index 1f09ac6..d5a2af6 100644
--- a/include/tvm/hint/internal/GenericCalculator.h
+++ b/include/tvm/hint/internal/GenericCalculator.h
@@ -47,6 +47,7 @@ public:
     Eigen::ColPivHouseholderQR<Eigen::MatrixXd> qr_;
     Eigen::MatrixXd invR1R2_;                     // inv(R1)*R2
     mutable utils::internal::BufferedMatrix tmp_; // temporary for the premultiplication by Asharp and S^T
+    mutable Eigen::VectorXd work_;                // workspace to apply Q^T
   };
 
 protected:
diff --git a/include/tvm/task_dynamics/Proportional.h b/include/tvm/task_dynamics/Proportional.h
index d825b7a..cff444a 100644
--- a/include/tvm/task_dynamics/Proportional.h
+++ b/include/tvm/task_dynamics/Proportional.h
@@ -65,6 +65,7 @@ public:
 
   private:
     Gain kp_;
+    Eigen::VectorXd error_; // Temporary for the matrix gain
   };
 
   /** Proportional dynamics with scalar gain. */
diff --git a/include/tvm/task_dynamics/ProportionalDerivative.h b/include/tvm/task_dynamics/ProportionalDerivative.h
index 0f67698..5247c09 100644
--- a/include/tvm/task_dynamics/ProportionalDerivative.h
+++ b/include/tvm/task_dynamics/ProportionalDerivative.h
@@ -135,6 +135,7 @@ public:
 
     Gain kp_; // Stiffness gain
     Gain kv_; // Damping gain
+    Eigen::VectorXd error_; // Temporary for the matrix gain
   };
 
   /** General constructor.
diff --git a/src/function/LinearFunction.cpp b/src/function/LinearFunction.cpp
index c302b89..99a53d7 100644
--- a/src/function/LinearFunction.cpp
+++ b/src/function/LinearFunction.cpp
@@ -39,14 +39,14 @@ void LinearFunction::updateValue_()
 {
   value_ = b_;
   for(auto v : variables())
-    value_ += jacobian(*v) * v->value();
+    value_.noalias() += jacobian(*v) * v->value();
 }
 
 void LinearFunction::updateVelocity_()
 {
   velocity_.setZero();
   for(auto v : variables())
-    velocity_ += jacobian(*v) * dot(v)->value();
+    velocity_.noalias() += jacobian(*v) * dot(v)->value();
 }
 
 void LinearFunction::setDerivativesToZero()
diff --git a/src/hint/GenericCalculator.cpp b/src/hint/GenericCalculator.cpp
index 23f4794..ca7095e 100644
--- a/src/hint/GenericCalculator.cpp
+++ b/src/hint/GenericCalculator.cpp
@@ -3,6 +3,7 @@
 #include <tvm/Variable.h>
 #include <tvm/constraint/abstract/LinearConstraint.h>
 #include <tvm/hint/internal/GenericCalculator.h>
+#include <tvm/utils/memoryChecks.h>
 
 #include <sstream>
 
@@ -25,7 +26,7 @@ std::unique_ptr<abstract::SubstitutionCalculatorImpl> GenericCalculator::impl_(
 GenericCalculator::Impl::Impl(const std::vector<LinearConstraintPtr> & cstr,
                               const std::vector<VariablePtr> & x,
                               int rank)
-: SubstitutionCalculatorImpl(cstr, x, rank), qr_(m(), n()), invR1R2_(r(), n() - r()), tmp_(m(), 2 * n())
+: SubstitutionCalculatorImpl(cstr, x, rank), qr_(m(), n()), invR1R2_(r(), n() - r()), tmp_(m(), 2 * n()), work_(2 * n())
 {}
 
 void GenericCalculator::Impl::update_()
@@ -92,11 +93,21 @@ void GenericCalculator::Impl::premultiplyByASharpAndSTranspose_(MatrixRef outA,
   //                                |  0   0 | | P2^T |
   // we compute | P1 R1^-1   0 | | Q1^T | M
   //            |    0       I | | Q2^T |
-  tmp_.resize(m(), in.cols());
+  // The buffers only grow
+  TVM_TEMPORARY_ALLOW_EIGEN_MALLOC(tmp_.resize(m(), in.cols()));
   auto T = tmp_.get();
+  if(work_.size() < in.cols())
+  {
+    TVM_TEMPORARY_ALLOW_EIGEN_MALLOC(work_.resize(in.cols()));
+  }
 
   // T = Q^T M
-  T = qr_.matrixQ().setLength(qr_.nonzeroPivots()).transpose() * in;
+  T = in;
+  for(DenseIndex k = 0; k < qr_.nonzeroPivots(); ++k)
+  {
+    T.bottomRows(m() - k).applyHouseholderOnTheLeft(qr_.matrixQR().col(k).tail(m() - k - 1), qr_.hCoeffs().coeff(k),
+                                                    work_.data());
+  }
 
   // T(1:r,:) = R1^-1 T(1:r,:)
   const auto & R1 = qr_.matrixR().topLeftCorner(r(), r()).template triangularView<Eigen::Upper>();
diff --git a/src/task_dynamics/Proportional.cpp b/src/task_dynamics/Proportional.cpp
index 14762f4..eeed7ef 100644
--- a/src/task_dynamics/Proportional.cpp
+++ b/src/task_dynamics/Proportional.cpp
@@ -26,7 +26,7 @@ std::unique_ptr<abstract::TaskDynamicsImpl> Proportional::impl_(FunctionPtr f,
 Order Proportional::order_() const { return Order::One; }
 
 Proportional::Impl::Impl(FunctionPtr f, constraint::Type t, const Eigen::VectorXd & rhs, const Gain & kp)
-: TaskDynamicsImpl(Order::One, f, t, rhs), kp_(kp)
+: TaskDynamicsImpl(Order::One, f, t, rhs), kp_(kp), error_(f->size())
 {
   if((kp.index() == 1 && mpark::get<Eigen::VectorXd>(kp).size() != f->size())   // Diagonal gain
      || (kp.index() == 2
@@ -50,7 +50,8 @@ void Proportional::Impl::updateValue()
       value_.noalias() = -(mpark::get<Eigen::VectorXd>(kp_).asDiagonal() * (function().value() - rhs()));
       break;
     case 2:
-      value_.noalias() = -mpark::get<Eigen::MatrixXd>(kp_) * (function().value() - rhs());
+      error_ = function().value() - rhs();
+      value_.noalias() = -mpark::get<Eigen::MatrixXd>(kp_) * error_;
       break;
     default:
       assert(false);
diff --git a/src/task_dynamics/ProportionalDerivative.cpp b/src/task_dynamics/ProportionalDerivative.cpp
index 9a698b8..2471e8d 100644
--- a/src/task_dynamics/ProportionalDerivative.cpp
+++ b/src/task_dynamics/ProportionalDerivative.cpp
@@ -67,7 +67,7 @@ ProportionalDerivative::Impl::Impl(FunctionPtr f,
                                    const Eigen::VectorXd & rhs,
                                    const Gain & kp,
                                    const Gain & kv)
-: TaskDynamicsImpl(Order::Two, f, t, rhs), kp_(kp), kv_(kv)
+: TaskDynamicsImpl(Order::Two, f, t, rhs), kp_(kp), kv_(kv), error_(f->size())
 {
   mpark::visit([this](const auto & k) { this->checkGainSize(k); }, kp_);
   mpark::visit([this](const auto & k) { this->checkGainSize(k); }, kv_);
@@ -98,7 +98,8 @@ void ProportionalDerivative::Impl::updateValue()
       value_.noalias() -= mpark::get<Eigen::VectorXd>(kp_).asDiagonal() * (function().value() - rhs());
       break;
     case 2:
-      value_.noalias() -= mpark::get<Eigen::MatrixXd>(kp_) * (function().value() - rhs());
+      error_ = function().value() - rhs();
+      value_.noalias() -= mpark::get<Eigen::MatrixXd>(kp_) * error_;
       break;
     default:
       assert(false);
-- 
2.43.0

