From 6e47bd5698f9e56cdbb9f1f11a4a9e1172024e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:13 +0000
Subject: [PATCH 01/71] fix: continuing a solver that was interrupted at its
 fixpoint pops from an empty work list

---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 9f10b10..0388c86 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -1756,7 +1756,12 @@ private:
   }
 
   bool doNext() {
-    assert(!WorkList.empty());
+    if (WorkList.empty()) {
+      // Nothing left to do, e.g. when continuing after an interruption that was
+      // requested right when the fixpoint had been reached
+      return false;
+    }
+
     auto [Edge, EF] = std::move(WorkList.back());
     WorkList.pop_back();
 
-- 
2.43.0


From 5f35594769c0602c2c525a2f0cac4944c37842ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:23 +0000
Subject: [PATCH 02/71] fix: interruptible solving makes no progress when the
 check interval is shorter than one step

---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
index 65ae8a8..8699101 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolverAPIMixin.h
@@ -15,6 +15,7 @@
 #include "llvm/Support/ErrorHandling.h"
 #include "llvm/Support/raw_ostream.h"
 
+#include <algorithm>
 #include <atomic>
 #include <chrono>
 #include <cstddef>
@@ -460,7 +461,8 @@ private:
 
     // Some initial number of propagations to get an idea, how long a
     // propagation takes. This may be adjusted in the future
-    size_t NumIterations = Interval.count() * 500;
+    // Always make progress between two checks, even for very short intervals
+    size_t NumIterations = std::max<size_t>(Interval.count() * 500, 1);
 
     auto Start = std::chrono::steady_clock::now();
 
@@ -479,7 +481,8 @@ private:
       auto IterationsPerMilli = double(NumIterations) / DeltaTime.count();
       auto NewNumIterations =
           size_t(IterationsPerMilli * double(Interval.count()));
-      NumIterations = (NumIterations + 2 * NewNumIterations) / 3;
+      NumIterations =
+          std::max<size_t>((NumIterations + 2 * NewNumIterations) / 3, 1);
     }
     auto End = std::chrono::steady_clock::now();
     return !IsCancellationRequested(End);
-- 
2.43.0


From 80575f633c3b428609ef62eb5ac47d901ec6e1a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:20 +0000
Subject: [PATCH 03/71] fix: value propagation enters callees that are replaced
 by a special summary

---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index 0388c86..e642eb5 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -609,6 +609,10 @@ protected:
     PAMM_GET_INSTANCE;
     d_t Fact = NAndD.second;
     for (const f_t Callee : ICF->getCalleesOfCallAt(Stmt)) {
+      if (CachedFlowEdgeFunctions.getSummaryFlowFunction(Stmt, Callee)) {
+        // The special summary replaces the call flow, see processCall()
+        continue;
+      }
       FlowFunctionPtrType CallFlowFunction =
           CachedFlowEdgeFunctions.getCallFlowFunction(Stmt, Callee);
       INC_COUNTER("FF Queries", 1, Full);
-- 
2.43.0


From 82cfe1239b1a8a4c75652bb2e6739b6384c72d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:20 +0000
Subject: [PATCH 04/71] fix: facts returned past the seeds are not reported at
 call sites and in their callees

---
 include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
index e642eb5..aba3c56 100644
--- a/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
+++ b/include/phasar/DataFlow/IfdsIde/Solver/IDESolver.h
@@ -795,7 +795,7 @@ protected:
     std::map<n_t, std::map<d_t, l_t>> AllSeeds = Seeds.getSeeds();
     for (n_t UnbalancedRetSite : UnbalancedRetSites) {
       if (AllSeeds.find(UnbalancedRetSite) == AllSeeds.end()) {
-        AllSeeds[UnbalancedRetSite][ZeroValue] = IDEProblem.topElement();
+        AllSeeds[UnbalancedRetSite][ZeroValue] = IDEProblem.bottomElement();
       }
     }
     // do processing
-- 
2.43.0


From e213bbb2bc078eb619635a7b2cd84c1fe23eee38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 05/71] fix: StableVector::shrink_to_fit left dangling pointers
 in an empty vector

Shrinking an empty StableVector that had grown to more than one block frees
all blocks, but Start, Pos and End kept pointing into the first one, such that
the next emplace_back() wrote to freed memory.
---
 include/phasar/Utils/StableVector.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/Utils/StableVector.h b/include/phasar/Utils/StableVector.h
index 12c1885..5b5b977 100644
--- a/include/phasar/Utils/StableVector.h
+++ b/include/phasar/Utils/StableVector.h
@@ -445,6 +445,7 @@ public:
       __asan_unpoison_memory_region(Blocks[0], InitialCapacity * sizeof(T));
       std::allocator_traits<allocator_type>::deallocate(Alloc, Blocks[0],
                                                         InitialCapacity);
+      Start = Pos = End = nullptr;
     }
 
     auto Cap = size_t(1) << (BlockIdx + InitialLogCapacity);
-- 
2.43.0


From 01ffa0e9ec29ec1a38750b2f6a75c4c15c06ded6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 06/71] fix: hash_value of empty BitVectorSets depended on
 their capacity

Two empty sets compare equal, but a set that had never been filled hashed
differently from one whose elements have been erased.
---
 include/phasar/Utils/BitVectorSet.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index 308245c..e9dc9f7 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -304,7 +304,7 @@ public:
 
   // NOLINTNEXTLINE(readability-identifier-naming) -- needed for ADL
   friend llvm::hash_code hash_value(const BitVectorSet &BV) noexcept {
-    if (BV.Bits.empty()) {
+    if (BV.empty()) {
       return {};
     }
     auto Words = BV.Bits.getData();
-- 
2.43.0


From 3c01d2bcac166c9ec5ae1c2bcfedcfb199f9569b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 07/71] fix: BitVectorSet iteration ran past the end when
 another set grew

The end iterator was the position of the element with index Bits.size(), which
only is the end of the shared position map as long as no set of the same type
learns that element. Inserting a new element into another set while iterating
changed the end under the feet of the loop.
---
 include/phasar/Utils/BitVectorSet.h | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index e9dc9f7..eda3c6f 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -105,7 +105,7 @@ private:
         int NextIdx = Bits.find_next(PosPtr->first);
 
         if (NextIdx <= static_cast<int>(PosPtr->first)) {
-          PosPtr = Position.right.find(Bits.size());
+          PosPtr = Position.right.end();
           break;
         }
 
@@ -336,7 +336,7 @@ public:
   [[nodiscard]] iterator begin() {
     int Index = Bits.find_first();
     if (Index == -1) {
-      Index = Bits.size();
+      return end();
     }
     iterator BeginIter(Position.right.find(Index));
     BeginIter.setBits(Bits);
@@ -344,7 +344,7 @@ public:
   }
 
   [[nodiscard]] iterator end() {
-    iterator EndIter(Position.right.find(Bits.size()));
+    iterator EndIter(Position.right.end());
     EndIter.setBits(Bits);
     return EndIter;
   }
@@ -352,7 +352,7 @@ public:
   [[nodiscard]] const_iterator begin() const {
     int Index = Bits.find_first();
     if (Index == -1) {
-      Index = Bits.size();
+      return end();
     }
     const_iterator BeginIter(Position.right.find(Index));
     BeginIter.setBits(Bits);
@@ -360,7 +360,7 @@ public:
   }
 
   [[nodiscard]] const_iterator end() const {
-    const_iterator EndIter(Position.right.find(Bits.size()));
+    const_iterator EndIter(Position.right.end());
     EndIter.setBits(Bits);
     return EndIter;
   }
-- 
2.43.0


From 74bda6a246782ff23754e4c8af2cbfef8f4ca3be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 08/71] fix: BitVectorSet iterator arithmetic walked over
 elements not in the set

operator+, operator+= and operator- moved through the position map shared by
all sets of the same type instead of through the elements of the set.
---
 include/phasar/Utils/BitVectorSet.h | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/phasar/Utils/BitVectorSet.h b/include/phasar/Utils/BitVectorSet.h
index eda3c6f..4e2efab 100644
--- a/include/phasar/Utils/BitVectorSet.h
+++ b/include/phasar/Utils/BitVectorSet.h
@@ -95,7 +95,7 @@ private:
 
     BitVectorSetIterator<D> &operator+=(const difference_type &Movement) {
       for (difference_type I = 0; I < Movement; I++) {
-        PosPtr++;
+        ++*this;
       }
       return *this;
     }
@@ -125,17 +125,17 @@ private:
     }
 
     BitVectorSetIterator<D> operator+(const difference_type &Movement) {
-      auto OldPtr = PosPtr;
-      for (difference_type I = 0; I < Movement; I++) {
-        PosPtr++;
-      }
       auto Temp(*this);
-      PosPtr = OldPtr;
+      Temp += Movement;
       return Temp;
     }
 
     difference_type operator-(const BitVectorSetIterator<D> &OtherIterator) {
-      return std::distance(OtherIterator.getPtr(), this->getPtr());
+      difference_type Distance = 0;
+      for (auto It = OtherIterator; It != *this; ++It) {
+        ++Distance;
+      }
+      return Distance;
     }
 
     // T& operator*(){return pos_ptr->second;}
-- 
2.43.0


From b9c86c98ba142d6bca221d77e666a52c552c46fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 09/71] fix: Table::column could not be instantiated
 (operator[] on a const map)

---
 include/phasar/Utils/Table.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phasar/Utils/Table.h b/include/phasar/Utils/Table.h
index 24ac50a..d70be2f 100644
--- a/include/phasar/Utils/Table.h
+++ b/include/phasar/Utils/Table.h
@@ -124,8 +124,8 @@ public:
     // Returns a view of all mappings that have the given column key.
     std::unordered_map<R, V> Column;
     for (const auto &Row : Tab) {
-      if (Row.second.count(ColumnKey)) {
-        Column[Row.first] = Row.second[ColumnKey];
+      if (auto It = Row.second.find(ColumnKey); It != Row.second.end()) {
+        Column[Row.first] = It->second;
       }
     }
     return Column;
-- 
2.43.0


From 81f0ddb67a150647006a363559bd0656af8f028b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:57 +0000
Subject: [PATCH 10/71] fix: CallStringCTX::operator< could not be instantiated
 (no member cs)

---
 include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
index 2e835c6..098c4ff 100644
--- a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
+++ b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
@@ -65,7 +65,7 @@ public:
 
   friend bool operator<(const CallStringCTX<N, K> &Lhs,
                         const CallStringCTX<N, K> &Rhs) {
-    return Lhs.cs < Rhs.cs;
+    return Lhs.CallString < Rhs.CallString;
   }
 
   llvm::raw_ostream &print(llvm::raw_ostream &OS) const {
-- 
2.43.0


From 47112c6525bf1c4678169b50a68c9aad289732fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:58 +0000
Subject: [PATCH 11/71] fix: CallStringCTX with K = 0 grew without bound
 (KLimit - 1 underflow)

---
 include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
index 098c4ff..1fe2858 100644
--- a/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
+++ b/include/phasar/DataFlow/Mono/Contexts/CallStringCTX.h
@@ -30,10 +30,10 @@ public:
   }
 
   void push_back(N Stmt) { // NOLINT
-    if (CallString.size() > KLimit - 1) {
+    CallString.push_back(Stmt);
+    if (CallString.size() > KLimit) {
       CallString.pop_front();
     }
-    CallString.push_back(Stmt);
   }
 
   N pop_back() { // NOLINT
-- 
2.43.0


From f2886abf28e5284dfc45ba130e0617cd93da894a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:24:15 +0000
Subject: [PATCH 12/71] fix: make the join of CSTDFILEIOState idempotent

---
 .../TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h      | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
index c7cad79..a61b734 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.h
@@ -37,7 +37,7 @@ template <> struct JoinLatticeTraits<CSTDFILEIOState> {
   }
   static constexpr CSTDFILEIOState join(CSTDFILEIOState L,
                                         CSTDFILEIOState R) noexcept {
-    if (L == top() || R == bottom()) {
+    if (L == top() || R == bottom() || L == R) {
       return R;
     }
     if (L == bottom() || R == top()) {
-- 
2.43.0


From 7b34e84990d1b858589488a9dd8dc88c563d4896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:42 +0000
Subject: [PATCH 13/71] fix: IIA combine: joining identity with all-top yields
 identity in either order

---
 .../DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h     | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
index b4410d1..2bcabb5 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/Problems/IDEInstInteractionAnalysis.h
@@ -1064,7 +1064,8 @@ public:
   EdgeFunction<l_t> combine(const EdgeFunction<l_t> &FirstFunction,
                             const EdgeFunction<l_t> &OtherFunction) override {
     /// XXX: Here, we underapproximate joins with EdgeIdentity
-    if (llvm::isa<EdgeIdentity<l_t>>(FirstFunction)) {
+    if (llvm::isa<EdgeIdentity<l_t>>(FirstFunction) &&
+        !llvm::isa<AllTop<l_t>>(OtherFunction)) {
       return OtherFunction;
     }
     if (llvm::isa<EdgeIdentity<l_t>>(OtherFunction) &&
-- 
2.43.0


From 0c40b2a5af71f6eae5d9eb260cba750f642e75a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:03 +0000
Subject: [PATCH 14/71] fix: mapFactsToCaller passed the zero value to the
 caller despite PropagateZeroToCaller = false

---
 .../phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h    | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
index e994671..95d9c83 100644
--- a/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
+++ b/include/phasar/PhasarLLVM/DataFlow/IfdsIde/LLVMFlowFunctions.h
@@ -283,7 +283,9 @@ FlowFunctionPtrType<D, Container> mapFactsToCaller(
       if (ExitInstAndPropZero.getInt() &&
           LLVMZeroValue::isLLVMZeroValue(Source)) {
         Res.insert(Source);
-      } else if (CSAndPropGlob.getInt() && llvm::isa<llvm::Constant>(Source)) {
+      } else if (CSAndPropGlob.getInt() &&
+                 !LLVMZeroValue::isLLVMZeroValue(Source) &&
+                 llvm::isa<llvm::Constant>(Source)) {
         // Pass global variables as is, if desired
         // Globals could also be actual arguments, then the formal argument
         // needs to be generated below. Need llvm::Constant here to cover also
-- 
2.43.0


From 7f7671d84fce487a5d6e6df5aac02b9bf903dc68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 15/71] fix: predecessors of a backward return dereferenced the
 missing parent block

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 5e042a4..39ea483 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -40,9 +40,7 @@ auto LLVMBasedBackwardCFG::getFunctionOfImpl(n_t Inst) const noexcept -> f_t {
 auto LLVMBasedBackwardCFG::getPredsOfImpl(n_t Inst) const
     -> llvm::SmallVector<n_t, 2> {
   if (BackwardRetToFunction.count(Inst)) {
-    return this
-        ->detail::LLVMBasedCFGImpl<LLVMBasedBackwardCFG>::getStartPointsOf(
-            this->base_t::getFunctionOfImpl(Inst));
+    return this->base_t::getStartPointsOfImpl(getFunctionOfImpl(Inst));
   }
   return this->base_t::getSuccsOfImpl(Inst);
 }
-- 
2.43.0


From 65e25d2e8140ed8ad7cdb3bdb86f407a71f01c18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 16/71] fix: isBranchTarget and isFallThroughSuccessor compared
 with ignored debug instructions

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 3eaf0f4..558390b 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -24,6 +24,16 @@
 
 namespace psr {
 
+/// The first instruction in BB that is part of the CFG
+static const llvm::Instruction *
+getFirstInst(const llvm::BasicBlock *BB, bool IgnoreDbgInstructions) noexcept {
+  const auto *First = &BB->front();
+  if (IgnoreDbgInstructions && llvm::isa<llvm::DbgInfoIntrinsic>(First)) {
+    First = First->getNextNonDebugInstruction(false);
+  }
+  return First;
+}
+
 template <typename Derived>
 auto detail::LLVMBasedCFGImpl<Derived>::getFunctionOfImpl(
     n_t Inst) const noexcept -> f_t {
@@ -204,9 +214,9 @@ bool detail::LLVMBasedCFGImpl<Derived>::isFallThroughSuccessorImpl(
   // assert(false && "FallThrough not valid in LLVM IR");
   if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Inst)) {
     if (B->isConditional()) {
-      return &B->getSuccessor(1)->front() == Succ;
+      return getFirstInst(B->getSuccessor(1), IgnoreDbgInstructions) == Succ;
     }
-    return &B->getSuccessor(0)->front() == Succ;
+    return getFirstInst(B->getSuccessor(0), IgnoreDbgInstructions) == Succ;
   }
   return false;
 }
@@ -216,7 +226,7 @@ bool detail::LLVMBasedCFGImpl<Derived>::isBranchTargetImpl(
     n_t Inst, n_t Succ) const noexcept {
   if (Inst->isTerminator()) {
     for (const auto *BB : llvm::successors(Inst->getParent())) {
-      if (&BB->front() == Succ) {
+      if (getFirstInst(BB, IgnoreDbgInstructions) == Succ) {
         return true;
       }
     }
-- 
2.43.0


From df13eaaf95092181858e1e0cd5548f9a8b2229fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 17/71] fix: isStartPoint did not respect IgnoreDbgInstructions

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 558390b..b34d54f 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -176,12 +176,8 @@ auto detail::LLVMBasedCFGImpl<Derived>::getExitPointsOfImpl(f_t Fun) const
 template <typename Derived>
 bool detail::LLVMBasedCFGImpl<Derived>::isStartPointImpl(
     n_t Inst) const noexcept {
-  auto FirstInst = &Inst->getFunction()->front().front();
-  if (Inst == FirstInst) {
-    return true;
-  }
-  return llvm::isa<llvm::DbgInfoIntrinsic>(FirstInst) &&
-         Inst == FirstInst->getNextNonDebugInstruction(false);
+  return Inst ==
+         getFirstInst(&Inst->getFunction()->front(), IgnoreDbgInstructions);
 }
 
 template <typename Derived>
-- 
2.43.0


From 08716649d6085fd5f5dfafa6eea8c34159a1426d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 18/71] fix: backward isBranchTarget did not support switch and
 invoke

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 39ea483..8f471fd 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -116,14 +116,10 @@ bool LLVMBasedBackwardCFG ::isFallThroughSuccessorImpl(
 }
 bool LLVMBasedBackwardCFG ::isBranchTargetImpl(n_t Inst,
                                                n_t Succ) const noexcept {
-  if (const auto *B = llvm::dyn_cast<llvm::BranchInst>(Succ)) {
-    for (const auto *BB : B->successors()) {
-      if (Inst == &(BB->front())) {
-        return true;
-      }
-    }
+  if (BackwardRetToFunction.count(Inst) || BackwardRetToFunction.count(Succ)) {
+    return false;
   }
-  return false;
+  return this->base_t::isBranchTargetImpl(Succ, Inst);
 }
 
 } // namespace psr
-- 
2.43.0


From e4c7698cb1c85d6ba2326aca68bdfb278ce1bd96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 19/71] fix: getAllControlFlowEdges of the backward CFG
 returned forward edges and ignored debug instructions

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index 8f471fd..f7d367c 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -12,6 +12,7 @@
 #include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
 
 #include "llvm/IR/Instructions.h"
+#include "llvm/IR/IntrinsicInst.h"
 
 namespace psr {
 
@@ -69,19 +70,14 @@ auto LLVMBasedBackwardCFG ::getAllControlFlowEdgesImpl(f_t Fun) const
   for (const auto &I : llvm::instructions(Fun)) {
     if (IgnoreDbgInstructions) {
       // Check for call to intrinsic debug function
-      if (const auto *DbgCallInst = llvm::dyn_cast<llvm::CallInst>(&I)) {
-        if (DbgCallInst->getCalledFunction() &&
-            DbgCallInst->getCalledFunction()->isIntrinsic() &&
-            (DbgCallInst->getCalledFunction()->getName() ==
-             "llvm.dbg.declare")) {
-          continue;
-        }
+      if (llvm::isa<llvm::DbgInfoIntrinsic>(&I)) {
+        continue;
       }
     }
 
     auto Successors = getSuccsOf(&I);
     for (const auto *Successor : Successors) {
-      Edges.emplace_back(Successor, &I);
+      Edges.emplace_back(&I, Successor);
     }
   }
 
-- 
2.43.0


From 3298b44930b0595f5e07dc76035a9cad94b5db9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 20/71] fix: getSuccsOf skipped the initialization of static
 locals for inverted guard checks

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 27 +++++++++++++++++----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index b34d54f..6e7df9b 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -34,6 +34,26 @@ getFirstInst(const llvm::BasicBlock *BB, bool IgnoreDbgInstructions) noexcept {
   return First;
 }
 
+/// The successor of the lazy-initialization Branch, where the static variable
+/// gets initialized
+static const llvm::BasicBlock *
+getLazyInitializationSuccessor(const llvm::BranchInst *Branch) {
+  const auto *Cmp = llvm::cast<llvm::ICmpInst>(Branch->getCondition());
+  bool IsAcquire = llvm::isa<llvm::CallBase>(Cmp->getOperand(0)) ||
+                   llvm::isa<llvm::CallBase>(Cmp->getOperand(1));
+  // A guard variable is zero, if the variable is not yet initialized;
+  // __cxa_guard_acquire returns zero, if it already is.
+  bool ComparesWithZero = true;
+  for (const auto *Op : Cmp->operand_values()) {
+    if (const auto *Const = llvm::dyn_cast<llvm::ConstantInt>(Op)) {
+      ComparesWithZero = Const->isZero();
+    }
+  }
+  bool InitIfEqual = ComparesWithZero != IsAcquire;
+  bool IsEq = Cmp->getPredicate() == llvm::ICmpInst::ICMP_EQ;
+  return Branch->getSuccessor(InitIfEqual == IsEq ? 0 : 1);
+}
+
 template <typename Derived>
 auto detail::LLVMBasedCFGImpl<Derived>::getFunctionOfImpl(
     n_t Inst) const noexcept -> f_t {
@@ -89,11 +109,8 @@ auto detail::LLVMBasedCFGImpl<Derived>::getSuccsOfImpl(n_t I) const
       Branch && isStaticVariableLazyInitializationBranch(Branch)) {
     // Skip the "already initialized" case, such that the analysis is always
     // aware of the initialized value.
-    const auto *NextInst = &Branch->getSuccessor(0)->front();
-    if (IgnoreDbgInstructions && llvm::isa<llvm::DbgInfoIntrinsic>(NextInst)) {
-      NextInst = NextInst->getNextNonDebugInstruction(false);
-    }
-    return {NextInst};
+    return {getFirstInst(getLazyInitializationSuccessor(Branch),
+                         IgnoreDbgInstructions)};
   }
 
   llvm::SmallVector<n_t, 2> Successors;
-- 
2.43.0


From 2e548d232885d8c316bf27399beed14a8cc0dd63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 21/71] fix: getPredsOf listed the lazy-initialization branch
 that getSuccsOf skips

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 22 ++++++++++-----------
 1 file changed, 11 insertions(+), 11 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 6e7df9b..8a5f2b0 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -78,17 +78,17 @@ auto detail::LLVMBasedCFGImpl<Derived>::getPredsOfImpl(n_t I) const
   // lead to our instruction in question!
 
   llvm::SmallVector<n_t, 2> Preds;
-  std::transform(llvm::pred_begin(I->getParent()),
-                 llvm::pred_end(I->getParent()), std::back_inserter(Preds),
-                 [](const llvm::BasicBlock *BB) {
-                   assert(BB && "BB under analysis was not well formed.");
-                   const llvm::Instruction *Pred = BB->getTerminator();
-                   if (llvm::isa<llvm::DbgInfoIntrinsic>(Pred)) {
-                     Pred = Pred->getPrevNonDebugInstruction(
-                         false /*Only debug instructions*/);
-                   }
-                   return Pred;
-                 });
+  for (const auto *BB : llvm::predecessors(I->getParent())) {
+    assert(BB && "BB under analysis was not well formed.");
+    const llvm::Instruction *Pred = BB->getTerminator();
+    if (const auto *Branch = llvm::dyn_cast<llvm::BranchInst>(Pred);
+        Branch && isStaticVariableLazyInitializationBranch(Branch) &&
+        getLazyInitializationSuccessor(Branch) != I->getParent()) {
+      // The "already initialized" case is skipped in getSuccsOf(), too
+      continue;
+    }
+    Preds.push_back(Pred);
+  }
 
   return Preds;
 }
-- 
2.43.0


From 274ddc9fd6276aef98da01448404a6f61db7965e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:18 +0000
Subject: [PATCH 22/71] fix: getSpecialMemberFunctionType hung on names that
 start with a code

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 8a5f2b0..95eeac6 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -269,14 +269,13 @@ detail::LLVMBasedCFGImpl<Derived>::getSpecialMemberFunctionTypeImpl(
   std::size_t Blacklist = 0;
   const auto *It = std::begin(Codes);
   while (It != std::end(Codes)) {
-    if (std::size_t Index = FunctionName.find(It->first, Blacklist)) {
-      if (Index != llvm::StringRef::npos) {
-        Found.emplace_back(Index, It->second);
-        Blacklist = Index + 1;
-      } else {
-        ++It;
-        Blacklist = 0;
-      }
+    std::size_t Index = FunctionName.find(It->first, Blacklist);
+    if (Index != llvm::StringRef::npos) {
+      Found.emplace_back(Index, It->second);
+      Blacklist = Index + 1;
+    } else {
+      ++It;
+      Blacklist = 0;
     }
   }
   if (Found.empty()) {
-- 
2.43.0


From 7f5d60dbc788e2bfdb15a9d0593b879f230965ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:44:56 +0000
Subject: [PATCH 23/71] fix: the backward return was reported as a start point

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
index f7d367c..a045e38 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardCFG.cpp
@@ -102,7 +102,8 @@ bool LLVMBasedBackwardCFG ::isExitInstImpl(n_t Inst) const noexcept {
 }
 
 bool LLVMBasedBackwardCFG ::isStartPointImpl(n_t Inst) const noexcept {
-  return this->base_t::isExitInstImpl(Inst);
+  return this->base_t::isExitInstImpl(Inst) &&
+         !BackwardRetToFunction.count(Inst);
 }
 
 bool LLVMBasedBackwardCFG ::isFallThroughSuccessorImpl(
-- 
2.43.0


From 9421c4ba49bbecbf106173ba6e787e13720c1500 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:46:47 +0000
Subject: [PATCH 24/71] fix: getSpecialMemberFunctionType took class names in
 namespaces for constructors

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
index 95eeac6..fcdd15e 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCFG.cpp
@@ -297,7 +297,8 @@ detail::LLVMBasedCFGImpl<Derived>::getSpecialMemberFunctionTypeImpl(
           NoName = false;
           break;
         }
-        C = C + *C;
+        // Skip the number and the name it belongs to
+        C += I - 1 + stoul(ST);
       }
     }
     if (NoName) {
-- 
2.43.0


From 7f20268e988f90e816b832cda0d53ced470b9577 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:54 +0000
Subject: [PATCH 25/71] fix: backward ICFG's allNonCallStartNodes left out the
 wrong start points

---
 .../ControlFlow/LLVMBasedBackwardICFG.cpp         | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
index f029a39..0fc6af9 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.cpp
@@ -10,6 +10,9 @@
 #include "phasar/PhasarLLVM/ControlFlow/LLVMBasedBackwardICFG.h"
 
 #include "phasar/PhasarLLVM/ControlFlow/LLVMBasedICFG.h"
+#include "phasar/PhasarLLVM/DB/LLVMProjectIRDB.h"
+
+#include "llvm/IR/InstrTypes.h"
 
 namespace psr {
 LLVMBasedBackwardICFG::LLVMBasedBackwardICFG(LLVMBasedICFG *ForwardICFG)
@@ -37,7 +40,17 @@ bool LLVMBasedBackwardICFG::isVirtualFunctionCallImpl(n_t Inst) const {
 
 auto LLVMBasedBackwardICFG::allNonCallStartNodesImpl() const
     -> std::vector<n_t> {
-  return ForwardICFG->allNonCallStartNodes();
+  // The start points of the backward ICFG are the exit points of the forward
+  // one, so we cannot just take the forward ICFG's nodes here.
+  std::vector<n_t> NonCallStartNodes;
+  NonCallStartNodes.reserve(2 * ForwardICFG->getIRDB()->getNumFunctions());
+  for (const auto *Inst : ForwardICFG->getIRDB()->getAllInstructions()) {
+    if (!llvm::isa<llvm::CallBase>(Inst) && !isStartPoint(Inst)) {
+      NonCallStartNodes.push_back(Inst);
+    }
+  }
+
+  return NonCallStartNodes;
 }
 
 auto LLVMBasedBackwardICFG::getCalleesOfCallAtImpl(n_t Inst) const noexcept
-- 
2.43.0


From 9c185e48986f8b6c35f90e84d561ba5a38f4b3a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:10:54 +0000
Subject: [PATCH 26/71] fix: fromMetaDataId cut function names at their first
 dot

---
 lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
index d4632d4..0583eaa 100644
--- a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
+++ b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
@@ -280,7 +280,8 @@ const llvm::Value *psr::fromMetaDataId(const LLVMProjectIRDB &IRDB,
     return std::nullopt;
   };
 
-  if (auto Dot = Id.find('.'); Dot != llvm::StringRef::npos) {
+  // The function name may contain dots, too
+  if (auto Dot = Id.rfind('.'); Dot != llvm::StringRef::npos) {
     auto FName = Id.slice(0, Dot);
 
     auto ArgNr = ParseInt(Id.drop_front(Dot + 1));
-- 
2.43.0


From 45af67bddafc03aee283443130c9c6ba2102a6b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:11:08 +0000
Subject: [PATCH 27/71] fix: StringIDLess treated all non-numeric ids as
 equivalent

---
 lib/Utils/Utilities.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/Utils/Utilities.cpp b/lib/Utils/Utilities.cpp
index 28e8d37..d48f6f5 100644
--- a/lib/Utils/Utilities.cpp
+++ b/lib/Utils/Utilities.cpp
@@ -102,7 +102,7 @@ bool StringIDLess::operator()(const std::string &Lhs,
   char *Endptr2;
   long LhsVal = strtol(Lhs.c_str(), &Endptr1, 10);
   long RhsVal = strtol(Rhs.c_str(), &Endptr2, 10);
-  if (Lhs.c_str() == Endptr1 && Lhs.c_str() == Endptr2) {
+  if (Lhs.c_str() == Endptr1 && Rhs.c_str() == Endptr2) {
     return Lhs < Rhs;
   }
   if (Lhs.c_str() == Endptr1 && Rhs.c_str() != Endptr2) {
-- 
2.43.0


From 36be5df2f8dc68401fdfb37b22a1645cc10609d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:15:06 +0000
Subject: [PATCH 28/71] fix: getGlobalVariableDefinition did not find internal
 globals

---
 lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
index 0583eaa..f1eba4b 100644
--- a/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
+++ b/lib/PhasarLLVM/DB/LLVMProjectIRDB.cpp
@@ -202,7 +202,8 @@ LLVMProjectIRDB::getFunctionDefinitionImpl(llvm::StringRef FunctionName) const {
 [[nodiscard]] const llvm::GlobalVariable *
 LLVMProjectIRDB::getGlobalVariableDefinitionImpl(
     llvm::StringRef GlobalVariableName) const {
-  auto *G = Mod->getGlobalVariable(GlobalVariableName);
+  auto *G =
+      Mod->getGlobalVariable(GlobalVariableName, /*AllowInternal*/ true);
   if (G && !G->isDeclaration()) {
     return G;
   }
-- 
2.43.0


From 90c3e5676553f06b4e9fcee93bd738148ff993b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:47 +0000
Subject: [PATCH 29/71] fix: CHA, RTA and DTA required a type hierarchy despite
 building it on the fly

---
 lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
index e55edef..8dec296 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
@@ -197,13 +197,10 @@ std::unique_ptr<Resolver> Resolver::create(CallGraphAnalysisType Ty,
   case CallGraphAnalysisType::NORESOLVE:
     return std::make_unique<NOResolver>(IRDB, VTP);
   case CallGraphAnalysisType::CHA:
-    assert(TH != nullptr);
     return std::make_unique<CHAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::RTA:
-    assert(TH != nullptr);
     return std::make_unique<RTAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::DTA:
-    assert(TH != nullptr);
     return std::make_unique<DTAResolver>(IRDB, VTP, TH);
   case CallGraphAnalysisType::VTA:
     llvm::report_fatal_error(
-- 
2.43.0


From f0259ca0cbd33128a941e7533d0da32165384a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:15 +0000
Subject: [PATCH 30/71] fix: an empty call graph was stored as null and could
 not be loaded

---
 lib/ControlFlow/CallGraphData.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/ControlFlow/CallGraphData.cpp b/lib/ControlFlow/CallGraphData.cpp
index 5b4e254..58f019e 100644
--- a/lib/ControlFlow/CallGraphData.cpp
+++ b/lib/ControlFlow/CallGraphData.cpp
@@ -33,7 +33,7 @@ static CallGraphData getDataFromJson(const nlohmann::json &Json) {
 }
 
 void CallGraphData::printAsJson(llvm::raw_ostream &OS) {
-  nlohmann::json JSON;
+  nlohmann::json JSON = nlohmann::json::object();
 
   for (const auto &[Fun, Callers] : FToFunctionVertexTy) {
     auto &JCallers = JSON[Fun];
-- 
2.43.0


From f3aa88c0b773e7bb1d117244331376e430fe389a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:29:25 +0000
Subject: [PATCH 31/71] fix: isPhasarGenerated did not recognize the caller of
 the registered dtors

---
 lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index e6a5324..8e575d6 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -356,8 +356,8 @@ bool GlobalCtorsDtorsModel::isPhasarGenerated(
   if (F.hasName()) {
     llvm::StringRef FunctionName = F.getName();
     return llvm::StringSwitch<bool>(FunctionName)
-        .Cases(ModelName, DtorModelName, DtorsCallerName, UserEntrySelectorName,
-               true)
+        .Cases(ModelName, DtorModelName, UserEntrySelectorName, true)
+        .StartsWith(DtorsCallerName, true) // Suffixed with the module's name
         .Default(false);
   }
 
-- 
2.43.0


From 67422694eaf1a0216482fbeaa4343cb34e8ff4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:15 +0000
Subject: [PATCH 32/71] fix: global dtors ran before the registered ones and in
 declaration order

---
 .../ControlFlow/GlobalCtorsDtorsModel.cpp     | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index 8e575d6..2aee576 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -20,9 +20,9 @@
 #include <functional>
 
 namespace psr {
-template <typename MapTy>
+template <typename MapTy, typename InsertFn>
 static void insertGlobalCtorsDtorsImpl(MapTy &Into, const llvm::Module &M,
-                                       llvm::StringRef Fun) {
+                                       llvm::StringRef Fun, InsertFn Insert) {
   const auto *Gtors = M.getGlobalVariable(Fun);
   if (Gtors == nullptr) {
     return;
@@ -39,7 +39,7 @@ static void insertGlobalCtorsDtorsImpl(MapTy &Into, const llvm::Module &M,
               llvm::dyn_cast<llvm::ConstantInt>(FunDesc->getOperand(0));
           if (Fun && Prio) {
             auto PrioInt = size_t(Prio->getLimitedValue(SIZE_MAX));
-            Into.emplace(PrioInt, Fun);
+            Insert(Into, PrioInt, Fun);
           }
         }
       }
@@ -50,14 +50,22 @@ static void insertGlobalCtorsDtorsImpl(MapTy &Into, const llvm::Module &M,
 static std::multimap<size_t, llvm::Function *>
 collectGlobalCtors(const llvm::Module &Mod) {
   std::multimap<size_t, llvm::Function *> Ret;
-  insertGlobalCtorsDtorsImpl(Ret, Mod, "llvm.global_ctors");
+  insertGlobalCtorsDtorsImpl(
+      Ret, Mod, "llvm.global_ctors",
+      [](auto &Into, size_t Prio, auto *Fun) { Into.emplace(Prio, Fun); });
   return Ret;
 }
 
 static std::multimap<size_t, llvm::Function *, std::greater<>>
 collectGlobalDtors(const llvm::Module &Mod) {
   std::multimap<size_t, llvm::Function *, std::greater<>> Ret;
-  insertGlobalCtorsDtorsImpl(Ret, Mod, "llvm.global_dtors");
+  // The dtors run in the exact reverse order of the ctors, i.e., those that are
+  // declared last come first within the same priority
+  insertGlobalCtorsDtorsImpl(Ret, Mod, "llvm.global_dtors",
+                             [](auto &Into, size_t Prio, auto *Fun) {
+                               Into.emplace_hint(Into.lower_bound(Prio), Prio,
+                                                 Fun);
+                             });
   return Ret;
 }
 
@@ -181,8 +189,9 @@ static llvm::Function *createDtorCallerForModule(
                                   << " Registered Dtors");
 
   auto *RegisteredDtorCaller = createDtorCallerForModule(Mod, RegisteredDtors);
-  // auto It =
-  GlobalDtors.emplace(0, RegisteredDtorCaller);
+  // The runtime calls all registered dtors before the static dtors, independent
+  // of their priority
+  GlobalDtors.emplace_hint(GlobalDtors.begin(), SIZE_MAX, RegisteredDtorCaller);
   // GlobalDtorFn.try_emplace(RegisteredDtorCaller, it);
   // GlobalRegisteredDtorsCaller.try_emplace(Mod, RegisteredDtorCaller);
   return RegisteredDtorCaller;
-- 
2.43.0


From 8f3accc6ffd2189e301eab0b01cd4b1c6acc72dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:30:53 +0000
Subject: [PATCH 33/71] fix: registered dtors were called in use-list order

---
 .../ControlFlow/GlobalCtorsDtorsModel.cpp     | 64 ++++++++++++++-----
 1 file changed, 48 insertions(+), 16 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
index 2aee576..2476591 100644
--- a/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
+++ b/lib/PhasarLLVM/ControlFlow/GlobalCtorsDtorsModel.cpp
@@ -15,7 +15,9 @@
 #include "phasar/Utils/Logger.h"
 
 #include "llvm/ADT/ArrayRef.h"
+#include "llvm/ADT/SmallPtrSet.h"
 #include "llvm/IR/IRBuilder.h"
+#include "llvm/IR/InstIterator.h"
 
 #include <functional>
 
@@ -61,16 +63,21 @@ collectGlobalDtors(const llvm::Module &Mod) {
   std::multimap<size_t, llvm::Function *, std::greater<>> Ret;
   // The dtors run in the exact reverse order of the ctors, i.e., those that are
   // declared last come first within the same priority
-  insertGlobalCtorsDtorsImpl(Ret, Mod, "llvm.global_dtors",
-                             [](auto &Into, size_t Prio, auto *Fun) {
-                               Into.emplace_hint(Into.lower_bound(Prio), Prio,
-                                                 Fun);
-                             });
+  insertGlobalCtorsDtorsImpl(
+      Ret, Mod, "llvm.global_dtors", [](auto &Into, size_t Prio, auto *Fun) {
+        Into.emplace_hint(Into.lower_bound(Prio), Prio, Fun);
+      });
   return Ret;
 }
 
+static bool isGlobalVarInit(const llvm::Function *F) {
+  return F->getName().contains("__cxx_global_var_init");
+}
+
 static llvm::SmallVector<std::pair<llvm::FunctionCallee, llvm::Value *>, 4>
-collectRegisteredDtorsForModule(const llvm::Module &Mod) {
+collectRegisteredDtorsForModule(
+    const llvm::Module &Mod,
+    const std::multimap<size_t, llvm::Function *> &GlobalCtors) {
   // NOLINTNEXTLINE
   llvm::SmallVector<std::pair<llvm::FunctionCallee, llvm::Value *>, 4>
       RegisteredDtors, RegisteredLocalStaticDtors;
@@ -90,25 +97,48 @@ collectRegisteredDtorsForModule(const llvm::Module &Mod) {
     return CE->getOperand(0);
   };
 
-  for (auto *User : CxaAtExitFn->users()) {
-    auto *Call = llvm::dyn_cast<llvm::CallBase>(User);
-    if (!Call) {
-      continue;
-    }
-
+  auto handleRegistration = [&](const llvm::CallBase *Call) { // NOLINT
     auto *DtorOp = llvm::dyn_cast_or_null<llvm::Function>(
         getConstantBitcastArgument(Call->getArgOperand(0)));
     auto *DtorArgOp = getConstantBitcastArgument(Call->getArgOperand(1));
 
     if (!DtorOp || !DtorArgOp) {
-      continue;
+      return;
     }
 
-    if (Call->getFunction()->getName().contains("__cxx_global_var_init")) {
+    if (isGlobalVarInit(Call->getFunction())) {
       RegisteredDtors.emplace_back(DtorOp, DtorArgOp);
     } else {
       RegisteredLocalStaticDtors.emplace_back(DtorOp, DtorArgOp);
     }
+  };
+
+  // Collect the registrations in the order they are executed at program start,
+  // i.e., in the order of the global ctors that call the initializers. Do not
+  // rely on the order of the use-list of __cxa_atexit.
+  llvm::SmallPtrSet<const llvm::Function *, 8> Visited;
+  auto visit = [&](const llvm::Function *F, auto &&Visit) -> void { // NOLINT
+    if (!Visited.insert(F).second) {
+      return;
+    }
+    for (const auto &I : llvm::instructions(F)) {
+      const auto *Call = llvm::dyn_cast<llvm::CallBase>(&I);
+      if (!Call || !Call->getCalledFunction()) {
+        continue;
+      }
+      if (Call->getCalledFunction() == CxaAtExitFn) {
+        handleRegistration(Call);
+      } else if (isGlobalVarInit(Call->getCalledFunction())) {
+        Visit(Call->getCalledFunction(), Visit);
+      }
+    }
+  };
+
+  for (auto [unused, Ctor] : GlobalCtors) {
+    visit(Ctor, visit);
+  }
+  for (const auto &F : Mod) {
+    visit(&F, visit);
   }
 
   // Destructors of local static variables are registered last, no matter where
@@ -173,12 +203,13 @@ static llvm::Function *createDtorCallerForModule(
 }
 
 [[nodiscard]] static llvm::Function *collectRegisteredDtors(
+    const std::multimap<size_t, llvm::Function *> &GlobalCtors,
     std::multimap<size_t, llvm::Function *, std::greater<>> &GlobalDtors,
     llvm::Module &Mod) {
   PHASAR_LOG_LEVEL_CAT(DEBUG, "LLVMBasedICFG",
                        "Collect Registered Dtors for Module " << Mod.getName());
 
-  auto RegisteredDtors = collectRegisteredDtorsForModule(Mod);
+  auto RegisteredDtors = collectRegisteredDtorsForModule(Mod, GlobalCtors);
 
   if (RegisteredDtors.empty()) {
     return nullptr;
@@ -233,7 +264,8 @@ llvm::Function *GlobalCtorsDtorsModel::buildModel(
   auto &M = *IRDB.getModule();
   auto GlobalCtors = collectGlobalCtors(M);
   auto GlobalDtors = collectGlobalDtors(M);
-  auto *RegisteredDtorCaller = collectRegisteredDtors(GlobalDtors, M);
+  auto *RegisteredDtorCaller =
+      collectRegisteredDtors(GlobalCtors, GlobalDtors, M);
   if (RegisteredDtorCaller) {
     IRDB.insertFunction(RegisteredDtorCaller);
   }
-- 
2.43.0


From f72acd633ba19eff50f66ad0f713333bdccb9028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:36 +0000
Subject: [PATCH 34/71] fix: linear constant analysis computes at 64 bit signed
 whatever the operands' width and operation

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 50 ++++++++++++++++---
 1 file changed, 42 insertions(+), 8 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 1836e07..a06552d 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -95,9 +95,12 @@ static_assert(is_llvm_hashable_v<GenConstant>);
  * @param op operator
  * @param lop left operand
  * @param rop right operand
+ * @param BitWidth the width of the operands and the result; results that do not
+ * fit are not computed
  * @return Result of binary operation
  */
-static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
+static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal,
+                               unsigned BitWidth) {
   auto *LopPtr = std::get_if<int64_t>(&LVal);
   auto *RopPtr = std::get_if<int64_t>(&RVal);
 
@@ -108,6 +111,21 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
   auto Lop = *LopPtr;
   auto Rop = *RopPtr;
 
+  if (BitWidth > 64) {
+    return Bottom{};
+  }
+
+  auto Fit = [BitWidth](int64_t Val) -> l_t {
+    if (!llvm::isIntN(BitWidth, Val)) {
+      return Bottom{};
+    }
+    return Val;
+  };
+  // The operands as seen by the unsigned operations
+  const auto Mask = llvm::maskTrailingOnes<uint64_t>(BitWidth);
+  const auto ULop = uint64_t(Lop) & Mask;
+  const auto URop = uint64_t(Rop) & Mask;
+
   // default initialize with BOTTOM (all information)
   int64_t Res;
   switch (Op) {
@@ -115,21 +133,26 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (llvm::AddOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return Fit(Res);
 
   case llvm::Instruction::Sub:
     if (llvm::SubOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return Fit(Res);
 
   case llvm::Instruction::Mul:
     if (llvm::MulOverflow(Lop, Rop, Res)) {
       return Bottom{};
     }
-    return Res;
+    return Fit(Res);
 
   case llvm::Instruction::UDiv:
+    if (URop == 0) { // Division by zero is UB, so we return Bot
+      return Bottom{};
+    }
+    return llvm::SignExtend64(ULop / URop, BitWidth);
+
   case llvm::Instruction::SDiv:
     if (Lop == std::numeric_limits<int64_t>::min() &&
         Rop == -1) { // Would produce and overflow, as the complement of min is
@@ -139,13 +162,21 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal) {
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
-    return Lop / Rop;
+    return Fit(Lop / Rop);
 
   case llvm::Instruction::URem:
+    if (URop == 0) { // Division by zero is UB, so we return Bot
+      return Bottom{};
+    }
+    return llvm::SignExtend64(ULop % URop, BitWidth);
+
   case llvm::Instruction::SRem:
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
+    if (Rop == -1) { // The quotient may not be representable
+      return Bottom{};
+    }
     return Lop % Rop;
 
   case llvm::Instruction::And:
@@ -210,18 +241,21 @@ struct BinOp {
         llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue());
+      return executeBinOperation(Op, Lic->getSExtValue(), Ric->getSExtValue(),
+                                 Lic->getBitWidth());
     }
     if (Source == Bottom{}) {
       return Source;
     }
     if (Lop == CurrNode && llvm::isa<llvm::ConstantInt>(Rop)) {
       const auto *Ric = llvm::cast<llvm::ConstantInt>(Rop);
-      return executeBinOperation(Op, Source, Ric->getSExtValue());
+      return executeBinOperation(Op, Source, Ric->getSExtValue(),
+                                 Ric->getBitWidth());
     }
     if (Rop == CurrNode && llvm::isa<llvm::ConstantInt>(Lop)) {
       const auto *Lic = llvm::cast<llvm::ConstantInt>(Lop);
-      return executeBinOperation(Op, Lic->getSExtValue(), Source);
+      return executeBinOperation(Op, Lic->getSExtValue(), Source,
+                                 Lic->getBitWidth());
     }
 
     llvm::report_fatal_error(
-- 
2.43.0


From 7a3436e570ea239dc8bf136d1cd985e524c9df8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:36 +0000
Subject: [PATCH 35/71] fix: linear constant analysis takes the overflow flag
 of an arithmetic intrinsic for its result

---
 .../DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index a06552d..e00859e 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -385,7 +385,8 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
     /// no error occured during the operation
     if (const auto *BinIntrinsic =
             llvm::dyn_cast<llvm::BinaryOpIntrinsic>(Agg)) {
-      if (Extract->getType()->isIntegerTy()) {
+      if (Extract->getType()->isIntegerTy() && Extract->getNumIndices() == 1 &&
+          Extract->getIndices().front() == 0) {
         return generateFlow(Curr, Agg);
       }
     }
-- 
2.43.0


From 1ced60da4faa50dd556fdbdc8aed29e9d53773b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:52 +0000
Subject: [PATCH 36/71] fix: linear constant analysis evaluates unsigned
 saturating intrinsics as signed ones

---
 .../Problems/IDELinearConstantAnalysis.cpp        | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index e00859e..e66575c 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -607,13 +607,16 @@ IDELinearConstantAnalysis::getSummaryEdgeFunction(n_t Curr, d_t CurrNode,
     auto *Rop = BinIntrinsic->getRHS();
     unsigned OP = BinIntrinsic->getBinaryOp();
 
-    // For non linear constant computation we propagate bottom
-    if ((CurrNode == Lop && !llvm::isa<llvm::ConstantInt>(Rop)) ||
-        (CurrNode == Rop && !llvm::isa<llvm::ConstantInt>(Lop))) {
-      return AllBottom<l_t>{};
-    }
-
     if (Curr == SuccNode && CurrNode != SuccNode) {
+      // For non linear constant computation we propagate bottom. The unsigned
+      // saturating operations also saturate where the signed ones do not.
+      const auto *Saturating = llvm::dyn_cast<llvm::SaturatingInst>(Curr);
+      if ((CurrNode == Lop && !llvm::isa<llvm::ConstantInt>(Rop)) ||
+          (CurrNode == Rop && !llvm::isa<llvm::ConstantInt>(Lop)) ||
+          (Saturating && !Saturating->isSigned())) {
+        return AllBottom<l_t>{};
+      }
+
       return lca::BinOp{OP, Lop, Rop, CurrNode};
     }
   }
-- 
2.43.0


From dc5ea1ee0ed3d751c19b2871ffb91dba9f8d3af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:52 +0000
Subject: [PATCH 37/71] fix: linear constant analysis ignores writes of
 external functions through pointer arguments

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index e66575c..d3df3fc 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -592,8 +592,24 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getReturnEdgeFunction(
 }
 
 EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getCallToRetEdgeFunction(
-    n_t /*CallSite*/, d_t /*CallNode*/, n_t /*RetSite*/, d_t /*RetSiteNode*/,
-    llvm::ArrayRef<f_t> /*Callees*/) {
+    n_t CallSite, d_t CallNode, n_t /*RetSite*/, d_t RetSiteNode,
+    llvm::ArrayRef<f_t> Callees) {
+  // A function whose body is not available may write through its pointer
+  // parameters
+  if (CallNode == RetSiteNode && !isZeroValue(CallNode) &&
+      CallNode->getType()->isPointerTy() &&
+      (Callees.empty() || llvm::any_of(Callees, [](f_t Fun) {
+         return Fun->isDeclaration();
+       }))) {
+    const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
+    for (const auto &Arg : CS->args()) {
+      if (Arg->getType()->isPointerTy() &&
+          (Arg.get() == CallNode || Arg->stripPointerCasts() == CallNode) &&
+          !CS->onlyReadsMemory(CS->getArgOperandNo(&Arg))) {
+        return AllBottom<l_t>{};
+      }
+    }
+  }
   return EdgeIdentity<l_t>{};
 }
 
-- 
2.43.0


From 7b8c058aa803e8d434d58b95b621452678cfc3eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:46:52 +0000
Subject: [PATCH 38/71] fix: linear constant analysis reports the value of the
 first element for the others

---
 .../IfdsIde/Problems/IDELinearConstantAnalysis.cpp        | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index d3df3fc..5291872 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -538,6 +538,14 @@ IDELinearConstantAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
     }
   }
 
+  // The value behind a pointer is not the one of the other elements
+  if (const auto *GEP = llvm::dyn_cast<llvm::GetElementPtrInst>(Curr)) {
+    if (GEP == SuccNode && CurrNode != SuccNode &&
+        !GEP->hasAllZeroIndices()) {
+      return AllBottom<l_t>{};
+    }
+  }
+
   // Check for binary operations add, sub, mul, udiv/sdiv and urem/srem
   if (Curr == SuccNode && CurrNode != SuccNode &&
       llvm::isa<llvm::BinaryOperator>(Curr)) {
-- 
2.43.0


From 51e36bbaa39982c8e791b5ccd59bee6605d9c1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:55:54 +0000
Subject: [PATCH 39/71] fix: linear constant analysis reports constants for
 variables that hold unknown values on other paths

---
 .../Problems/IDELinearConstantAnalysis.cpp    | 96 ++++++++++++++-----
 1 file changed, 71 insertions(+), 25 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index 5291872..bc8b2aa 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -308,6 +308,33 @@ auto hash_value(const BinOp &EF) noexcept {
 
 static_assert(is_llvm_hashable_v<BinOp>);
 
+/// Whether there are data-flow facts that describe values of the given type
+static bool hasTrackableType(const llvm::Value *V) {
+  return V->getType()->isIntegerTy() || V->getType()->isPointerTy();
+}
+
+/// Whether V is a constant that is neither an integer literal nor a global
+/// integer variable, such that no data-flow fact describes its value
+static bool isUnknownConstant(const llvm::Value *V) {
+  if (!llvm::isa<llvm::Constant>(V) || llvm::isa<llvm::ConstantInt>(V)) {
+    return false;
+  }
+  const auto *Glob = llvm::dyn_cast<llvm::GlobalVariable>(V);
+  return !Glob || !Glob->getValueType()->isIntegerTy();
+}
+
+static bool isLiteralOperation(const llvm::Value *Lop, const llvm::Value *Rop) {
+  return llvm::isa<llvm::ConstantInt>(Lop) && llvm::isa<llvm::ConstantInt>(Rop);
+}
+
+/// Whether the call may reach a function, whose body is not available
+static bool mayCallDeclaration(llvm::ArrayRef<const llvm::Function *> Callees) {
+  return Callees.empty() ||
+         llvm::any_of(Callees, [](const llvm::Function *Fun) {
+           return Fun->isDeclaration();
+         });
+}
+
 } // namespace lca
 
 IDELinearConstantAnalysis::IDELinearConstantAnalysis(
@@ -328,10 +355,7 @@ IDELinearConstantAnalysis::~IDELinearConstantAnalysis() {
 IDELinearConstantAnalysis::FlowFunctionPtrType
 IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
   if (const auto *Alloca = llvm::dyn_cast<llvm::AllocaInst>(Curr)) {
-    auto *AT = Alloca->getAllocatedType();
-    if (AT->isIntegerTy() || isIntegerLikeType(AT)) {
-      return generateFromZero(Alloca);
-    }
+    return generateFromZero(Alloca);
   }
 
   // Check store instructions. Store instructions override previous value
@@ -339,7 +363,8 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
   if (const auto *Store = llvm::dyn_cast<llvm::StoreInst>(Curr)) {
     d_t ValueOp = Store->getValueOperand();
     // Case I: Storing a constant integer.
-    if (llvm::isa<llvm::ConstantInt>(ValueOp)) {
+    if (ValueOp->getType()->isIntegerTy() &&
+        llvm::isa<llvm::Constant>(ValueOp)) {
       return strongUpdateStore(Store, LLVMZeroValue::isLLVMZeroValue);
     }
 
@@ -350,15 +375,17 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
   }
 
   if (const auto *GEP = llvm::dyn_cast<llvm::GetElementPtrInst>(Curr)) {
-    if (GEP->getResultElementType()->isIntegerTy()) {
-      const auto *Op = GEP->getPointerOperand();
+    const auto *Op = GEP->getPointerOperand();
+    if (GEP->getResultElementType()->isIntegerTy() &&
+        !lca::isUnknownConstant(Op)) {
       return generateFlow(GEP, Op);
     }
   }
   // check load instructions
   if (const auto *Load = llvm::dyn_cast<llvm::LoadInst>(Curr)) {
     // only consider i32 load
-    if (Load->getType()->isIntegerTy()) {
+    if (Load->getType()->isIntegerTy() &&
+        !lca::isUnknownConstant(Load->getPointerOperand())) {
       return generateFlowIf(Load, [Load](d_t Source) {
         return Source == Load->getPointerOperand();
       });
@@ -372,8 +399,8 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
       /// Intentionally include nonlinear operations here for being able to
       /// explicitly set them to BOTTOM in the edge function
       return (Lop == Source) || (Rop == Source) ||
-             (isZeroValue(Source) && llvm::isa<llvm::ConstantInt>(Lop) &&
-              llvm::isa<llvm::ConstantInt>(Rop));
+             (isZeroValue(Source) && llvm::isa<llvm::Constant>(Lop) &&
+              llvm::isa<llvm::Constant>(Rop));
     });
   }
 
@@ -392,6 +419,13 @@ IDELinearConstantAnalysis::getNormalFlowFunction(n_t Curr, n_t /*Succ*/) {
     }
   }
 
+  // We do not know anything about the results of all other instructions. This
+  // must be stated explicitly, since the absence of a fact would not take part
+  // in the join with the constants from other paths.
+  if (lca::hasTrackableType(Curr)) {
+    return generateFromZero(Curr);
+  }
+
   return identityFlow();
 }
 
@@ -402,7 +436,9 @@ IDELinearConstantAnalysis::getCallFlowFunction(n_t CallSite, f_t DestFun) {
     if (!DestFun->isDeclaration()) {
       return mapFactsToCallee(CS, DestFun, [](d_t Arg, d_t Source) {
         return Arg == Source || (LLVMZeroValue::isLLVMZeroValue(Source) &&
-                                 llvm::isa<llvm::ConstantInt>(Arg));
+                                 lca::hasTrackableType(Arg) &&
+                                 (llvm::isa<llvm::ConstantInt>(Arg) ||
+                                  lca::isUnknownConstant(Arg)));
       });
     }
   }
@@ -420,14 +456,16 @@ IDELinearConstantAnalysis::getRetFlowFunction(n_t CallSite, f_t /*CalleeFun*/,
       },
       [](d_t RetVal, d_t Source) {
         return RetVal == Source || (LLVMZeroValue::isLLVMZeroValue(Source) &&
-                                    llvm::isa<llvm::ConstantInt>(RetVal));
+                                    lca::hasTrackableType(RetVal) &&
+                                    (llvm::isa<llvm::ConstantInt>(RetVal) ||
+                                     lca::isUnknownConstant(RetVal)));
       });
 }
 
 IDELinearConstantAnalysis::FlowFunctionPtrType
 IDELinearConstantAnalysis::getCallToRetFlowFunction(
     n_t CallSite, n_t /*RetSite*/, llvm::ArrayRef<f_t> Callees) {
-  if (llvm::all_of(Callees, [](f_t Fun) { return Fun->isDeclaration(); })) {
+  if (lca::mayCallDeclaration(Callees)) {
     return identityFlow();
   }
 
@@ -448,11 +486,14 @@ IDELinearConstantAnalysis::initialSeeds() {
 
     for (const auto &G : IRDB->getModule()->globals()) {
       if (const auto *GV = llvm::dyn_cast<llvm::GlobalVariable>(&G)) {
-        if (GV->hasInitializer()) {
-          if (const auto *ConstInt =
-                  llvm::dyn_cast<llvm::ConstantInt>(GV->getInitializer())) {
-            Seeds.addSeed(SP, GV, ConstInt->getSExtValue());
-          }
+        const auto *ConstInt =
+            GV->hasInitializer()
+                ? llvm::dyn_cast<llvm::ConstantInt>(GV->getInitializer())
+                : nullptr;
+        if (ConstInt) {
+          Seeds.addSeed(SP, GV, ConstInt->getSExtValue());
+        } else if (GV->getValueType()->isIntegerTy()) {
+          Seeds.addSeed(SP, GV, bottomElement());
         }
       }
     }
@@ -473,8 +514,8 @@ IDELinearConstantAnalysis::getSummaryFlowFunction(n_t Curr, f_t /*CalleeFun*/) {
       /// Intentionally include nonlinear operations here for being able to
       /// explicitly set them to BOTTOM in the edge function
       return (Lop == Source) || (Rop == Source) ||
-             (isZeroValue(Source) && llvm::isa<llvm::ConstantInt>(Lop) &&
-              llvm::isa<llvm::ConstantInt>(Rop));
+             (isZeroValue(Source) && llvm::isa<llvm::Constant>(Lop) &&
+              llvm::isa<llvm::Constant>(Rop));
     });
   }
   return nullptr;
@@ -500,7 +541,9 @@ IDELinearConstantAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
   }
 
   // ALL_BOTTOM for zero value
-  if ((llvm::isa<llvm::AllocaInst>(Curr) && isZeroValue(CurrNode))) {
+  if (isZeroValue(CurrNode) && Curr == SuccNode &&
+      !(llvm::isa<llvm::BinaryOperator>(Curr) &&
+        lca::isLiteralOperation(Curr->getOperand(0), Curr->getOperand(1)))) {
     PHASAR_LOG_LEVEL(DEBUG, "Case: Zero value.");
     PHASAR_LOG_LEVEL(DEBUG, ' ');
     return AllBottom<l_t>{};
@@ -520,6 +563,9 @@ IDELinearConstantAnalysis::getNormalEdgeFunction(n_t Curr, d_t CurrNode,
         auto IntConst = CI->getSExtValue();
         return lca::GenConstant{IntConst};
       }
+      if (isZeroValue(CurrNode)) {
+        return AllBottom<l_t>{};
+      }
       // Case II: Storing an integer typed value.
       if (CurrNode != SuccNode && ValueOperand->getType()->isIntegerTy()) {
         PHASAR_LOG_LEVEL(DEBUG, "Case: Storing an integer typed value.");
@@ -579,6 +625,7 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getCallEdgeFunction(
         auto IntConst = CI->getSExtValue();
         return lca::GenConstant{IntConst};
       }
+      return AllBottom<l_t>{};
     }
   }
   return EdgeIdentity<l_t>{};
@@ -595,6 +642,7 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getReturnEdgeFunction(
       auto IntConst = CI->getSExtValue();
       return lca::GenConstant{IntConst};
     }
+    return AllBottom<l_t>{};
   }
   return EdgeIdentity<l_t>{};
 }
@@ -605,10 +653,7 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getCallToRetEdgeFunction(
   // A function whose body is not available may write through its pointer
   // parameters
   if (CallNode == RetSiteNode && !isZeroValue(CallNode) &&
-      CallNode->getType()->isPointerTy() &&
-      (Callees.empty() || llvm::any_of(Callees, [](f_t Fun) {
-         return Fun->isDeclaration();
-       }))) {
+      CallNode->getType()->isPointerTy() && lca::mayCallDeclaration(Callees)) {
     const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
     for (const auto &Arg : CS->args()) {
       if (Arg->getType()->isPointerTy() &&
@@ -637,6 +682,7 @@ IDELinearConstantAnalysis::getSummaryEdgeFunction(n_t Curr, d_t CurrNode,
       const auto *Saturating = llvm::dyn_cast<llvm::SaturatingInst>(Curr);
       if ((CurrNode == Lop && !llvm::isa<llvm::ConstantInt>(Rop)) ||
           (CurrNode == Rop && !llvm::isa<llvm::ConstantInt>(Lop)) ||
+          (isZeroValue(CurrNode) && !lca::isLiteralOperation(Lop, Rop)) ||
           (Saturating && !Saturating->isSigned())) {
         return AllBottom<l_t>{};
       }
-- 
2.43.0


From 53f3326f0a5362f2efbe2170c51c974e4fae2f80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:56:11 +0000
Subject: [PATCH 40/71] fix: linear constant analysis takes the registration of
 a dtor for a write to the object

---
 .../IfdsIde/Problems/IDELinearConstantAnalysis.cpp    | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index bc8b2aa..bbcafd9 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -327,6 +327,14 @@ static bool isLiteralOperation(const llvm::Value *Lop, const llvm::Value *Rop) {
   return llvm::isa<llvm::ConstantInt>(Lop) && llvm::isa<llvm::ConstantInt>(Rop);
 }
 
+/// Whether the call only registers a dtor for an object
+static bool isDtorRegistration(llvm::ArrayRef<const llvm::Function *> Callees) {
+  return !Callees.empty() &&
+         llvm::all_of(Callees, [](const llvm::Function *Fun) {
+           return Fun->isDeclaration() && Fun->getName() == "__cxa_atexit";
+         });
+}
+
 /// Whether the call may reach a function, whose body is not available
 static bool mayCallDeclaration(llvm::ArrayRef<const llvm::Function *> Callees) {
   return Callees.empty() ||
@@ -653,7 +661,8 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getCallToRetEdgeFunction(
   // A function whose body is not available may write through its pointer
   // parameters
   if (CallNode == RetSiteNode && !isZeroValue(CallNode) &&
-      CallNode->getType()->isPointerTy() && lca::mayCallDeclaration(Callees)) {
+      CallNode->getType()->isPointerTy() &&
+      lca::mayCallDeclaration(Callees) && !lca::isDtorRegistration(Callees)) {
     const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
     for (const auto &Arg : CS->args()) {
       if (Arg->getType()->isPointerTy() &&
-- 
2.43.0


From ada5df52680f1f941a58c7adb80c0e55088b0073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:37:32 +0000
Subject: [PATCH 41/71] fix: linear constant analysis keeps the value of the
 first element across calls that get its address

---
 .../IfdsIde/Problems/IDELinearConstantAnalysis.cpp     | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index bbcafd9..ec82603 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -659,14 +659,18 @@ EdgeFunction<lca::l_t> IDELinearConstantAnalysis::getCallToRetEdgeFunction(
     n_t CallSite, d_t CallNode, n_t /*RetSite*/, d_t RetSiteNode,
     llvm::ArrayRef<f_t> Callees) {
   // A function whose body is not available may write through its pointer
-  // parameters
+  // parameters. The effect of the other functions is mapped back to the
+  // arguments by the return flow, but not to the pointers the arguments are
+  // derived from.
   if (CallNode == RetSiteNode && !isZeroValue(CallNode) &&
       CallNode->getType()->isPointerTy() &&
-      lca::mayCallDeclaration(Callees) && !lca::isDtorRegistration(Callees)) {
+      !lca::isDtorRegistration(Callees)) {
+    const bool CallsDeclaration = lca::mayCallDeclaration(Callees);
     const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
     for (const auto &Arg : CS->args()) {
       if (Arg->getType()->isPointerTy() &&
-          (Arg.get() == CallNode || Arg->stripPointerCasts() == CallNode) &&
+          ((CallsDeclaration && Arg.get() == CallNode) ||
+           (Arg.get() != CallNode && Arg->stripPointerCasts() == CallNode)) &&
           !CS->onlyReadsMemory(CS->getArgOperandNo(&Arg))) {
         return AllBottom<l_t>{};
       }
-- 
2.43.0


From 7a2662911278e38870f34944f9d9e595159bf5e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:06 +0000
Subject: [PATCH 42/71] fix: linear constant analysis does not know that
 remainders by -1 are zero

---
 .../DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp    | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
index ec82603..1fa7afa 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDELinearConstantAnalysis.cpp
@@ -174,7 +174,8 @@ static l_t executeBinOperation(unsigned Op, l_t LVal, l_t RVal,
     if (Rop == 0) { // Division by zero is UB, so we return Bot
       return Bottom{};
     }
-    if (Rop == -1) { // The quotient may not be representable
+    if (Rop == -1 && Lop == llvm::minIntN(BitWidth)) {
+      // The quotient is not representable
       return Bottom{};
     }
     return Lop % Rop;
-- 
2.43.0


From 8dc28788d3b5453a14d0344ff772c7e1dc7bca27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:09 +0000
Subject: [PATCH 43/71] fix: memory left uninitialized by indirectly called
 functions is not reported

---
 .../Problems/IFDSUninitializedVariables.cpp   | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index 68e360b..5696f06 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -300,7 +300,7 @@ IFDSUninitializedVariables::getCallFlowFunction(
 IFDSUninitializedVariables::FlowFunctionPtrType
 IFDSUninitializedVariables::getRetFlowFunction(
     IFDSUninitializedVariables::n_t CallSite,
-    IFDSUninitializedVariables::f_t /*CalleeFun*/,
+    IFDSUninitializedVariables::f_t CalleeFun,
     IFDSUninitializedVariables::n_t ExitStmt,
     IFDSUninitializedVariables::n_t /*RetSite*/) {
   if (llvm::isa<llvm::CallInst>(CallSite) ||
@@ -308,9 +308,11 @@ IFDSUninitializedVariables::getRetFlowFunction(
     const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
     struct UVFF : FlowFunction<IFDSUninitializedVariables::d_t> {
       const llvm::CallBase *Call;
+      const llvm::Function *Callee;
       const llvm::Instruction *Exit;
-      UVFF(const llvm::CallBase *C, const llvm::Instruction *E)
-          : Call(C), Exit(E) {}
+      UVFF(const llvm::CallBase *C, const llvm::Function *F,
+           const llvm::Instruction *E)
+          : Call(C), Callee(F), Exit(E) {}
       std::set<IFDSUninitializedVariables::d_t>
       computeTargets(IFDSUninitializedVariables::d_t Source) override {
         // check if we return an uninitialized value
@@ -321,22 +323,20 @@ IFDSUninitializedVariables::getRetFlowFunction(
         //----------------------------------------------------------------------
         // Handle pointer/reference parameters
         //----------------------------------------------------------------------
-        if (Call->getCalledFunction()) {
-          unsigned I = 0;
-          for (const auto &Arg : Call->getCalledFunction()->args()) {
-            // auto arg = getNthFunctionArgument(call.getCalledFunction(), i);
-            if (&Arg == Source && Arg.getType()->isPointerTy()) {
-              Ret.insert(Call->getArgOperand(I));
-            }
-            I++;
+        unsigned I = 0;
+        for (const auto &Arg : Callee->args()) {
+          // auto arg = getNthFunctionArgument(call.getCalledFunction(), i);
+          if (&Arg == Source && Arg.getType()->isPointerTy()) {
+            Ret.insert(Call->getArgOperand(I));
           }
+          I++;
         }
 
         // kill all other facts
         return Ret;
       }
     };
-    return std::make_shared<UVFF>(CS, ExitStmt);
+    return std::make_shared<UVFF>(CS, CalleeFun, ExitStmt);
   }
   // kill everything else
   return killAllFlows();
-- 
2.43.0


From 288f9da0298b78c0f92c52c3624505ce56c2181d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:09 +0000
Subject: [PATCH 44/71] fix: undef literals passed to or returned from
 functions are not reported

---
 .../Problems/IFDSUninitializedVariables.cpp       | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index 5696f06..56a2d26 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -288,8 +288,14 @@ IFDSUninitializedVariables::getCallFlowFunction(
         }
         return res;*/
 
-        // propagate zero
-        return {Source};
+        // propagate zero and generate the parameters that get an undef literal
+        std::set<const llvm::Value *> Res = {Source};
+        for (unsigned Idx = 0; Idx < Formals.size(); ++Idx) {
+          if (llvm::isa<llvm::UndefValue>(Actuals[Idx])) {
+            Res.insert(Formals[Idx]);
+          }
+        }
+        return Res;
       }
     };
     return std::make_shared<UVFF>(DestFun, CS, getZeroValue());
@@ -317,7 +323,10 @@ IFDSUninitializedVariables::getRetFlowFunction(
       computeTargets(IFDSUninitializedVariables::d_t Source) override {
         // check if we return an uninitialized value
         std::set<IFDSUninitializedVariables::d_t> Ret;
-        if (Exit->getNumOperands() > 0 && Exit->getOperand(0) == Source) {
+        if (Exit->getNumOperands() > 0 &&
+            (Exit->getOperand(0) == Source ||
+             (LLVMZeroValue::isLLVMZeroValue(Source) &&
+              llvm::isa<llvm::UndefValue>(Exit->getOperand(0))))) {
           Ret.insert(Call);
         }
         //----------------------------------------------------------------------
-- 
2.43.0


From 0dfca7aac6dcccdd24c125c3db07da3a77b0c844 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:51:09 +0000
Subject: [PATCH 45/71] fix: undefined values of globals are lost across calls

---
 .../IfdsIde/Problems/IFDSUninitializedVariables.cpp         | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
index 56a2d26..65a52f1 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSUninitializedVariables.cpp
@@ -257,6 +257,9 @@ IFDSUninitializedVariables::getCallFlowFunction(
               Res.insert(Formals[Idx]);
             }
           }
+          if (llvm::isa<llvm::GlobalVariable>(Source)) {
+            Res.insert(Source);
+          }
           return Res;
         }
 
@@ -323,6 +326,9 @@ IFDSUninitializedVariables::getRetFlowFunction(
       computeTargets(IFDSUninitializedVariables::d_t Source) override {
         // check if we return an uninitialized value
         std::set<IFDSUninitializedVariables::d_t> Ret;
+        if (llvm::isa<llvm::GlobalVariable>(Source)) {
+          Ret.insert(Source);
+        }
         if (Exit->getNumOperands() > 0 &&
             (Exit->getOperand(0) == Source ||
              (LLVMZeroValue::isLLVMZeroValue(Source) &&
-- 
2.43.0


From 74cbc4d26dc28c21f87bc76c99ea646b43258988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:22 +0000
Subject: [PATCH 46/71] fix: buildLLVMBasedCallGraph does not pass the alias
 information to the resolver

---
 lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
index 74e8a97..55a2f59 100644
--- a/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
+++ b/lib/PhasarLLVM/ControlFlow/LLVMBasedCallGraphBuilder.cpp
@@ -283,7 +283,7 @@ auto psr::buildLLVMBasedCallGraph(
     PT = PTOwn.asRef();
   }
 
-  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH);
+  auto Res = Resolver::create(CGType, &IRDB, &VTP, &TH, PT);
   return buildLLVMBasedCallGraph(IRDB, *Res, EntryPoints, S);
 }
 
-- 
2.43.0


From 168d98eca610a4aeeed73e7f93fd77c656ab4df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:00:45 +0000
Subject: [PATCH 47/71] fix: calls through function pointers in structs are
 resolved as virtual calls, which finds no callees

---
 .../ControlFlow/Resolver/Resolver.cpp         | 21 ++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
index 8dec296..0f9eb9b 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/Resolver.cpp
@@ -108,6 +108,25 @@ bool psr::isConsistentCall(const llvm::CallBase *CallSite,
   return true;
 }
 
+/// Whether the called function is taken from a table that is loaded from the
+/// receiver object. Otherwise, it is a C-style call through a function pointer
+/// that happens to get a pointer to a struct as first argument.
+static bool loadsVFTFromReceiver(const llvm::CallBase *CallSite) {
+  const auto *Load =
+      llvm::dyn_cast<llvm::LoadInst>(CallSite->getCalledOperand());
+  const auto *GEP = Load ? llvm::dyn_cast<llvm::GetElementPtrInst>(
+                               Load->getPointerOperand())
+                         : nullptr;
+  if (!GEP || GEP->getNumIndices() != 1) {
+    return false;
+  }
+  const auto *VFT = llvm::dyn_cast<llvm::LoadInst>(GEP->getPointerOperand());
+  const auto *Receiver =
+      CallSite->getArgOperand(unsigned(CallSite->hasStructRetAttr()));
+  return VFT && VFT->getPointerOperand()->stripPointerCasts() ==
+                    Receiver->stripPointerCasts();
+}
+
 bool psr::isVirtualCall(const llvm::Instruction *Inst,
                         const LLVMVFTableProvider &VTP) {
   assert(Inst != nullptr);
@@ -124,7 +143,7 @@ bool psr::isVirtualCall(const llvm::Instruction *Inst,
   if (!VTP.hasVFTable(RecType)) {
     return false;
   }
-  return getVFTIndex(CallSite) >= 0;
+  return getVFTIndex(CallSite) >= 0 && loadsVFTFromReceiver(CallSite);
 }
 
 namespace psr {
-- 
2.43.0


From 46e5b893c7f3d446c9d3b593107a0b83f163b56a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:03:33 +0000
Subject: [PATCH 48/71] fix: overriders with covariant return types are not
 considered as callees

---
 lib/PhasarLLVM/Utils/LLVMShorthands.cpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
index 99f8095..70c59c8 100644
--- a/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
+++ b/lib/PhasarLLVM/Utils/LLVMShorthands.cpp
@@ -111,8 +111,12 @@ bool psr::matchesSignature(const llvm::Function *F,
   if (F == nullptr || FType == nullptr) {
     return false;
   }
-  if (F->arg_size() == FType->getNumParams() &&
-      F->getReturnType() == FType->getReturnType()) {
+  // Overriders may have covariant return types
+  bool ReturnTypeMatch =
+      ExactMatch ? F->getReturnType() == FType->getReturnType()
+                 : isTypeMatchForFunctionArgument(F->getReturnType(),
+                                                  FType->getReturnType());
+  if (F->arg_size() == FType->getNumParams() && ReturnTypeMatch) {
     unsigned Idx = 0;
     for (const auto &Arg : F->args()) {
       bool TypeMissMatch =
-- 
2.43.0


From 0f487b54091816722173f86ac41c0b358cbc3b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:08:57 +0000
Subject: [PATCH 49/71] fix: RTA misses instantiated types: globals, array
 elements, members, and arrays on the heap

---
 .../ControlFlow/Resolver/RTAResolver.cpp      | 125 ++++++++++++++----
 1 file changed, 97 insertions(+), 28 deletions(-)

diff --git a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
index 27ec5c5..9d97e21 100644
--- a/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
+++ b/lib/PhasarLLVM/ControlFlow/Resolver/RTAResolver.cpp
@@ -22,7 +22,10 @@
 #include "phasar/Utils/Logger.h"
 #include "phasar/Utils/Utilities.h"
 
+#include "llvm/ADT/SmallPtrSet.h"
+#include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/StringSet.h"
+#include "llvm/Demangle/Demangle.h"
 #include "llvm/IR/Constants.h"
 #include "llvm/IR/DerivedTypes.h"
 #include "llvm/IR/Function.h"
@@ -94,6 +97,68 @@ auto RTAResolver::resolveVirtualCall(const llvm::CallBase *CallSite)
 
 std::string RTAResolver::str() const { return "RTA"; }
 
+/// Whether ElemTy is the type of a base-class subobject of StructTy
+static bool isDirectBase(const LLVMTypeHierarchy &TH,
+                         const llvm::StructType *ElemTy,
+                         const llvm::StructType *StructTy) {
+  return TH.isSubType(ElemTy, StructTy) &&
+         llvm::none_of(TH.getSubTypes(ElemTy), [&](const auto *SubTy) {
+           return SubTy != ElemTy && SubTy != StructTy &&
+                  TH.isSubType(SubTy, StructTy);
+         });
+}
+
+static void
+insertAllocatedTypes(const llvm::Type *Ty, const LLVMTypeHierarchy &TH,
+                     llvm::DenseSet<const llvm::StructType *> &AllocatedTypes);
+
+static void
+insertMemberTypes(const llvm::StructType *StructTy, const LLVMTypeHierarchy &TH,
+                  llvm::DenseSet<const llvm::StructType *> &AllocatedTypes) {
+  llvm::SmallPtrSet<const llvm::Type *, 4> Bases;
+  for (const auto *ElemTy : StructTy->elements()) {
+    const auto *ElemStructTy = llvm::dyn_cast<llvm::StructType>(ElemTy);
+    if (ElemStructTy && isDirectBase(TH, ElemStructTy, StructTy) &&
+        Bases.insert(ElemTy).second) {
+      insertMemberTypes(ElemStructTy, TH, AllocatedTypes);
+    } else {
+      insertAllocatedTypes(ElemTy, TH, AllocatedTypes);
+    }
+  }
+}
+
+/// Inserts the types of all objects that get created with an object of type Ty:
+/// array elements and members have their own dynamic type, base-class subobjects
+/// do not
+static void
+insertAllocatedTypes(const llvm::Type *Ty, const LLVMTypeHierarchy &TH,
+                     llvm::DenseSet<const llvm::StructType *> &AllocatedTypes) {
+  while (Ty->isArrayTy()) {
+    Ty = Ty->getArrayElementType();
+  }
+  const auto *StructTy = llvm::dyn_cast<llvm::StructType>(Ty);
+  if (StructTy && AllocatedTypes.insert(StructTy).second) {
+    insertMemberTypes(StructTy, TH, AllocatedTypes);
+  }
+}
+
+/// Globals that are initialized with constants may have an unnamed type.
+/// Identify the objects within them by the vtables they point to
+static void collectConstantInitializedTypes(const llvm::Constant *Init,
+                                            llvm::StringSet<> &TypeNames) {
+  if (const auto *Glob = llvm::dyn_cast<llvm::GlobalVariable>(Init)) {
+    if (LLVMTypeHierarchy::isVTable(Glob->getName())) {
+      TypeNames.insert(LLVMTypeHierarchy::removeVTablePrefix(
+          llvm::demangle(Glob->getName().str())));
+    }
+  } else if (llvm::isa<llvm::ConstantAggregate, llvm::ConstantExpr>(Init)) {
+    for (const auto &Op : Init->operands()) {
+      collectConstantInitializedTypes(llvm::cast<llvm::Constant>(Op),
+                                      TypeNames);
+    }
+  }
+}
+
 /// More or less copied from GeneralStatisticsAnalysis
 void RTAResolver::resolveAllocatedStructTypes() {
   if (!AllocatedStructTypes.empty()) {
@@ -102,13 +167,27 @@ void RTAResolver::resolveAllocatedStructTypes() {
 
   llvm::DenseSet<const llvm::StructType *> AllocatedStructTypes;
 
+  llvm::StringSet<> ConstantInitializedTypes;
+  for (const auto &Glob : IRDB->getModule()->globals()) {
+    insertAllocatedTypes(Glob.getValueType(), *TH, AllocatedStructTypes);
+    if (Glob.hasInitializer() && !Glob.getName().startswith("_ZT")) {
+      collectConstantInitializedTypes(Glob.getInitializer(),
+                                      ConstantInitializedTypes);
+    }
+  }
+
+  for (const auto *Ty : TH->getAllTypes()) {
+    if (ConstantInitializedTypes.contains(
+            LLVMTypeHierarchy::removeStructOrClassPrefix(*Ty))) {
+      AllocatedStructTypes.insert(Ty);
+    }
+  }
+
   for (const auto *Fun : IRDB->getAllFunctions()) {
     for (const auto &Inst : llvm::instructions(Fun)) {
       if (const auto *Alloca = llvm::dyn_cast<llvm::AllocaInst>(&Inst)) {
-        if (const auto *StructTy =
-                llvm::dyn_cast<llvm::StructType>(Alloca->getAllocatedType())) {
-          AllocatedStructTypes.insert(StructTy);
-        }
+        insertAllocatedTypes(Alloca->getAllocatedType(), *TH,
+                             AllocatedStructTypes);
       } else if (const auto *CallSite = llvm::dyn_cast<llvm::CallBase>(&Inst);
                  CallSite && CallSite->getCalledFunction()) {
         // check if an instance of a user-defined type is allocated on the
@@ -117,30 +196,20 @@ void RTAResolver::resolveAllocatedStructTypes() {
         if (!isHeapAllocatingFunction(CallSite->getCalledFunction())) {
           continue;
         }
-        /// TODO: Does this iteration over the users make sense?
-        /// After LLVM 15 we will probably not be able to access the
-        /// PointerElementType anyway...
-        for (const auto *User : Inst.users()) {
-          const auto *Cast = llvm::dyn_cast<llvm::BitCastInst>(User);
-          if (!Cast || Cast->getDestTy()->isOpaquePointerTy() ||
-              !Cast->getDestTy()
-                   ->getNonOpaquePointerElementType()
-                   ->isStructTy()) {
-            continue;
-          }
-          // finally check for ctor call
-          for (const auto *User : Cast->users()) {
-            if (const auto *CTor = llvm::dyn_cast<llvm::CallBase>(User)) {
-              // potential call to the structures ctor
-              if (CTor->getCalledFunction() &&
-                  getNthFunctionArgument(CTor->getCalledFunction(), 0)
-                          ->getType() == Cast->getDestTy() &&
-                  !Cast->getDestTy()->isOpaquePointerTy()) {
-                if (const auto *StructTy = llvm::dyn_cast<llvm::StructType>(
-                        Cast->getDestTy()->getNonOpaquePointerElementType())) {
-                  AllocatedStructTypes.insert(StructTy);
-                }
-              }
+        // The pointer gets casted to the allocated type; for arrays, there may
+        // be some bookkeeping information in front of the first object
+        llvm::SmallVector<const llvm::Value *, 4> WorkList = {&Inst};
+        while (!WorkList.empty()) {
+          for (const auto *User : WorkList.pop_back_val()->users()) {
+            if (llvm::isa<llvm::GetElementPtrInst>(User)) {
+              WorkList.push_back(User);
+            } else if (const auto *Cast =
+                           llvm::dyn_cast<llvm::BitCastInst>(User);
+                       Cast && Cast->getDestTy()->isPointerTy() &&
+                       !Cast->getDestTy()->isOpaquePointerTy()) {
+              insertAllocatedTypes(
+                  Cast->getDestTy()->getNonOpaquePointerElementType(), *TH,
+                  AllocatedStructTypes);
             }
           }
         }
-- 
2.43.0


From 89f4cbc760eafa43d88835492116611417211539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:17:52 +0000
Subject: [PATCH 50/71] fix: DIBasedTypeHierarchy aborts on unnamed types

---
 lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index be0f02c..af935cc 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -198,9 +198,10 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
         }
         if (TypeToVertex.try_emplace(Composite, VertexTypes.size()).second) {
           VertexTypes.push_back(Composite);
-          NameToType.try_emplace(getCompositeTypeName(Composite), Composite);
-
-          assert(!getCompositeTypeName(Composite).empty());
+          // Types may be unnamed, e.g., typedef struct { ... } Foo; in C
+          if (auto Name = getCompositeTypeName(Composite); !Name.empty()) {
+            NameToType.try_emplace(Name, Composite);
+          }
         }
       }
     }
-- 
2.43.0


From 8826378a92c805a52a3b0ead78337331235c9594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:44 +0000
Subject: [PATCH 51/71] fix: printing virtual tables dereferences null entries

---
 lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp | 2 +-
 lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp       | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
index 23dbdcc..7c905aa 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMTypeHierarchy.cpp
@@ -373,7 +373,7 @@ void LLVMTypeHierarchy::print(llvm::raw_ostream &OS) const {
   for (const auto &[Ty, VFT] : TypeVFTMap) {
     OS << "Virtual function table for: " << Ty->getName() << '\n';
     for (const auto *F : VFT) {
-      OS << "\t-" << F->getName() << '\n';
+      OS << "\t-" << (F ? F->getName() : LLVMVFTable::NullFunName) << '\n';
     }
   }
 }
diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
index 2b6b443..1bf1404 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
@@ -41,7 +41,7 @@ int LLVMVFTable::getIndex(const llvm::Function *F) const {
 
 void LLVMVFTable::print(llvm::raw_ostream &OS) const {
   for (const auto *F : VFT) {
-    OS << F->getName();
+    OS << (F ? F->getName() : NullFunName);
     if (F != VFT.back()) {
       OS << '\n';
     }
-- 
2.43.0


From 0a1198de1bee75c17a9869d3b6c04103069d6d77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:21:44 +0000
Subject: [PATCH 52/71] fix: virtual tables of classes with virtual bases start
 at the wrong entry

---
 lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
index 1bf1404..bd1a530 100644
--- a/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/LLVMVFTable.cpp
@@ -73,14 +73,26 @@ void LLVMVFTable::printAsJson(llvm::raw_ostream &OS) const {
   Data.printAsJson(OS);
 }
 
+/// The virtual functions follow the RTTI entry. There may be an arbitrary number
+/// of vcall and vbase offsets in front of it
+static const llvm::Use *
+getFirstVirtualFunction(const llvm::ConstantArray &VTable) {
+  const auto *RTTI = llvm::find_if(VTable.operands(), [](const auto &Op) {
+    return llvm::isa<llvm::GlobalVariable>(Op->stripPointerCasts());
+  });
+  if (RTTI != VTable.operands().end()) {
+    return std::next(RTTI);
+  }
+  // Compiled without RTTI: offset 0 is the offset to top, offset 1 is null
+  return std::next(VTable.operands().begin(), 2);
+}
+
 std::vector<const llvm::Function *>
 LLVMVFTable::getVFVectorFromIRVTable(const llvm::ConstantStruct &VT) {
   std::vector<const llvm::Function *> VFS;
   for (const auto &Op : VT.operands()) {
     if (const auto *CA = llvm::dyn_cast<llvm::ConstantArray>(Op)) {
-      // Start iterating at offset 2, because offset 0 is vbase offset, offset 1
-      // is RTTI
-      for (const auto *It = std::next(CA->operands().begin(), 2);
+      for (const auto *It = getFirstVirtualFunction(*CA);
            It != CA->operands().end(); ++It) {
         const auto &COp = *It;
         if (const auto *CE = llvm::dyn_cast<llvm::ConstantExpr>(COp)) {
-- 
2.43.0


From 5d7a3c93dcefe104b9945174d850b5ee769508af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:11 +0000
Subject: [PATCH 53/71] fix: empty slots of virtual tables are duplicated when
 loading a DIBasedTypeHierarchy

---
 lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index af935cc..cd3565e 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -287,6 +287,7 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
     for (const auto &FuncName : Curr) {
       if (FuncName == LLVMVFTable::NullFunName) {
         CurrVTable.push_back(nullptr);
+        continue;
       }
       CurrVTable.push_back(IRDB->getFunction(FuncName));
     }
-- 
2.43.0


From 6a35c07f7bb42aa910226a3aa63fe9fbdaf8173b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:24:35 +0000
Subject: [PATCH 54/71] fix: types with equal names or without a name get mixed
 up when a DIBasedTypeHierarchy is stored and loaded

---
 .../TypeHierarchy/DIBasedTypeHierarchy.cpp    | 97 ++++++++++---------
 1 file changed, 52 insertions(+), 45 deletions(-)

diff --git a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
index cd3565e..82819f4 100644
--- a/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
+++ b/lib/PhasarLLVM/TypeHierarchy/DIBasedTypeHierarchy.cpp
@@ -18,7 +18,9 @@
 #include "llvm/ADT/STLExtras.h"
 #include "llvm/ADT/SmallBitVector.h"
 #include "llvm/ADT/SmallVector.h"
+#include "llvm/ADT/StringMap.h"
 #include "llvm/ADT/StringRef.h"
+#include "llvm/ADT/Twine.h"
 #include "llvm/BinaryFormat/Dwarf.h"
 #include "llvm/Demangle/Demangle.h"
 #include "llvm/IR/DebugInfo.h"
@@ -170,6 +172,16 @@ static llvm::StringRef getCompositeTypeName(const llvm::DICompositeType *Ty) {
   return Ident.empty() ? Ty->getName() : Ident;
 }
 
+static bool isStructOrClassType(const llvm::DICompositeType *Ty) {
+  // NOLINTNEXTLINE(cppcoreguidelines-avoid-c-arrays,modernize-avoid-c-arrays)
+  static constexpr llvm::dwarf::Tag DwarfTags[] = {
+      llvm::dwarf::DW_TAG_class_type,
+      llvm::dwarf::DW_TAG_structure_type,
+      llvm::dwarf::DW_TAG_union_type,
+  };
+  return llvm::is_contained(DwarfTags, Ty->getTag());
+}
+
 DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
   // -- Find all types
   {
@@ -184,16 +196,9 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
 
     // -- Filter all struct- or class types
 
-    // NOLINTNEXTLINE(cppcoreguidelines-avoid-c-arrays,modernize-avoid-c-arrays)
-    static constexpr llvm::dwarf::Tag DwarfTags[] = {
-        llvm::dwarf::DW_TAG_class_type,
-        llvm::dwarf::DW_TAG_structure_type,
-        llvm::dwarf::DW_TAG_union_type,
-    };
-
     for (const auto *Ty : DIF.types()) {
       if (const auto *Composite = llvm::dyn_cast<llvm::DICompositeType>(Ty)) {
-        if (!llvm::is_contained(DwarfTags, Composite->getTag())) {
+        if (!isStructOrClassType(Composite)) {
           continue;
         }
         if (TypeToVertex.try_emplace(Composite, VertexTypes.size()).second) {
@@ -220,40 +225,19 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(const LLVMProjectIRDB &IRDB) {
   buildTypeHierarchy(TG, VertexTypes, TransitiveDerivedIndex, Hierarchy);
 }
 
-static const llvm::DICompositeType *
-stringToDICompositeType(const llvm::DebugInfoFinder &DIF,
-                        llvm::StringRef DITypeName) {
-  const llvm::DICompositeType *ByName = nullptr;
-  bool HasUniqueByName = false;
-  for (const auto *Type : DIF.types()) {
-    if (const auto *DICT = llvm::dyn_cast<llvm::DICompositeType>(Type)) {
-      auto Ident = DICT->getIdentifier();
-      if (Ident == DITypeName) {
-        return DICT;
-      }
-      if (DICT->getName() == DITypeName) {
-        HasUniqueByName = ByName == nullptr;
-        ByName = DICT;
-      }
-    }
+/// Names for storing types. In contrast to the type names, they are unique:
+/// types may be unnamed, or have the same name in different scopes
+class UniqueTypeNames {
+public:
+  std::string add(const llvm::DICompositeType *Ty) {
+    auto Name = getCompositeTypeName(Ty);
+    auto Count = Counts[Name]++;
+    return Count ? (Name + "#" + llvm::Twine(Count)).str() : Name.str();
   }
-  if (HasUniqueByName) {
-    return ByName;
-  }
-
-  llvm::report_fatal_error("DIType doesn't exist: " + DITypeName);
-}
 
-static const llvm::DIType *stringToDIType(const llvm::DebugInfoFinder &DIF,
-                                          llvm::StringRef DITypeName) {
-  for (const auto *Type : DIF.types()) {
-    if (Type->getName() == DITypeName) {
-      return Type;
-    }
-  }
-
-  llvm::report_fatal_error("DIType doesn't exist " + DITypeName);
-}
+private:
+  llvm::StringMap<size_t> Counts;
+};
 
 DIBasedTypeHierarchy::DIBasedTypeHierarchy(
     const LLVMProjectIRDB *IRDB, const DIBasedTypeHierarchyData &SerializedData)
@@ -263,21 +247,40 @@ DIBasedTypeHierarchy::DIBasedTypeHierarchy(
   const auto *Module = IRDB->getModule();
   DIF.processModule(*Module);
 
+  llvm::StringMap<const llvm::DICompositeType *> AllTypes;
+  UniqueTypeNames Names;
+  for (const auto *Ty : DIF.types()) {
+    if (const auto *Composite = llvm::dyn_cast<llvm::DICompositeType>(Ty);
+        Composite && isStructOrClassType(Composite)) {
+      AllTypes.try_emplace(Names.add(Composite), Composite);
+    }
+  }
+
+  auto GetType = [&](llvm::StringRef Name) {
+    const auto *Ty = AllTypes.lookup(Name);
+    if (!Ty) {
+      llvm::report_fatal_error("DIType doesn't exist: " + Name);
+    }
+    return Ty;
+  };
+
   VertexTypes.reserve(SerializedData.VertexTypes.size());
   TypeToVertex.reserve(SerializedData.VertexTypes.size());
   size_t Idx = 0;
   for (const auto &Curr : SerializedData.VertexTypes) {
-    const auto *Ty = stringToDICompositeType(DIF, Curr);
+    const auto *Ty = GetType(Curr);
     VertexTypes.push_back(Ty);
     TypeToVertex.try_emplace(Ty, Idx);
-    NameToType.try_emplace(Curr, Ty);
+    if (auto Name = getCompositeTypeName(Ty); !Name.empty()) {
+      NameToType.try_emplace(Name, Ty);
+    }
 
     ++Idx;
   }
 
   Hierarchy.reserve(SerializedData.Hierarchy.size());
   for (const auto &Curr : SerializedData.Hierarchy) {
-    Hierarchy.push_back(stringToDIType(DIF, Curr));
+    Hierarchy.push_back(GetType(Curr));
   }
 
   for (const auto &Curr : SerializedData.VTables) {
@@ -352,17 +355,21 @@ DIBasedTypeHierarchy::getAsJson() const {
 DIBasedTypeHierarchyData DIBasedTypeHierarchy::getTypeHierarchyData() const {
   DIBasedTypeHierarchyData Data;
 
+  llvm::DenseMap<ClassType, std::string> TypeNames;
+  UniqueTypeNames Names;
+
   Data.VertexTypes.reserve(VertexTypes.size());
 
   for (const auto &Curr : VertexTypes) {
-    Data.VertexTypes.push_back(getTypeName(Curr).str());
+    Data.VertexTypes.push_back(Names.add(Curr));
+    TypeNames.try_emplace(Curr, Data.VertexTypes.back());
   }
 
   Data.TransitiveDerivedIndex = TransitiveDerivedIndex;
 
   Data.Hierarchy.reserve(Hierarchy.size());
   for (const auto &Curr : Hierarchy) {
-    Data.Hierarchy.push_back(Curr->getName().str());
+    Data.Hierarchy.push_back(TypeNames.lookup(Curr));
   }
 
   for (const auto &Curr : VTables) {
-- 
2.43.0


From 2b7bb5e54c0bc234c3dccde20a391d3921cdf942 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:10 +0000
Subject: [PATCH 55/71] fix: alias sets miss aliases because mayAlias is not
 transitive

addPointer compared a pointer only with one representative per alias set, so
a pointer that aliases another element of the set, but not its
representative, was not merged.
---
 .../phasar/PhasarLLVM/Pointer/LLVMAliasSet.h  |  4 +-
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp       | 82 ++++---------------
 2 files changed, 18 insertions(+), 68 deletions(-)

diff --git a/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h b/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h
index 55c150d..bf14eee 100644
--- a/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h
+++ b/include/phasar/PhasarLLVM/Pointer/LLVMAliasSet.h
@@ -21,6 +21,7 @@
 
 #include "llvm/ADT/DenseMap.h"
 #include "llvm/ADT/DenseSet.h"
+#include "llvm/ADT/SetVector.h"
 
 #include "nlohmann/json.hpp"
 
@@ -149,7 +150,8 @@ private:
 
   /// Utility function used by computeFunctionsAliasSet(...)
   void addPointer(llvm::AAResults &AA, const llvm::DataLayout &DL,
-                  const llvm::Value *V, std::vector<const llvm::Value *> &Reps);
+                  const llvm::Value *V,
+                  llvm::SetVector<const llvm::Value *> &Pointers);
 
   [[nodiscard]] static BoxedPtr<AliasSetTy> getEmptyAliasSet();
 
diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index 40b95fe..b93bc21 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -20,6 +20,7 @@
 
 #include "llvm/ADT/ArrayRef.h"
 #include "llvm/ADT/DenseSet.h"
+#include "llvm/ADT/SetVector.h"
 #include "llvm/ADT/SmallPtrSet.h"
 #include "llvm/ADT/SmallVector.h"
 #include "llvm/Analysis/AliasAnalysis.h"
@@ -343,70 +344,20 @@ static bool mayAlias(llvm::AAResults &AA, const llvm::DataLayout &DL,
 
 void LLVMAliasSet::addPointer(llvm::AAResults &AA, const llvm::DataLayout &DL,
                               const llvm::Value *V,
-                              std::vector<const llvm::Value *> &Reps) {
-  llvm::SmallVector<unsigned> ToMerge;
-
-  for (unsigned It = 0, End = Reps.size(); It < End; ++It) {
-    if (mayAlias(AA, DL, V, Reps[It])) {
-      ToMerge.push_back(It);
-    }
+                              llvm::SetVector<const llvm::Value *> &Pointers) {
+  if (!Pointers.insert(V)) {
+    return;
   }
 
-  // If we find several alias sets that may alias V, we must merge them.
-  // However, we cannot simply remove all respective representants (except for
-  // one), because for interprocedural flows, LLVM assumes all possible
-  // aliases and i8* is treated as void* making every pointer-type a matching
-  // type.
-  // This destroys the transitivity of the mayAlias relation partially. We can
-  // still remove a representant, if we have another rep of the same type
-  // within the same alias set.
-
-  if (ToMerge.empty()) {
-    Reps.push_back(V);
-    addSingletonAliasSet(V);
-  } else if (ToMerge.size() == 1) {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    assert(PTS && "Only added to Reps together with a "
-                  "\"addSingletonAliasSet\" call");
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
-
-    if (V->getType() != Reps[ToMerge[0]]->getType()) {
-      Reps.push_back(V);
-    }
-
-  } else {
-    auto PTS = AliasSets[Reps[ToMerge[0]]];
-    llvm::SmallPtrSet<const llvm::Type *, 6> OccurringTypes{
-        Reps[ToMerge[0]]->getType()};
-    llvm::SmallVector<unsigned> ToRemove;
-
-    for (auto Idx : llvm::makeArrayRef(ToMerge).slice(1)) {
-      mergeAliasSets(PTS, AliasSets[Reps[Idx]]);
-      if (auto [Unused, Inserted] = OccurringTypes.insert(Reps[Idx]->getType());
-          !Inserted) {
-        ToRemove.push_back(Idx);
-      }
-    }
-
-    if (auto VPTS = AliasSets.find(V); VPTS != AliasSets.end()) {
-      mergeAliasSets(PTS, VPTS->second);
-    } else {
-      AliasSets[V] = PTS;
-      PTS->insert(V);
-    }
-
-    Reps.erase(remove_by_index(Reps, ToRemove.begin(), ToRemove.end()),
-               Reps.end());
+  addSingletonAliasSet(V);
 
-    if (auto [Unused, Inserted] = OccurringTypes.insert(V->getType());
-        Inserted) {
-      Reps.push_back(V);
+  // The mayAlias relation is not transitive: a pointer that may alias V does
+  // not need to alias the other pointers in V's alias set. So, we cannot use
+  // representants of the alias sets here, but we don't need to compare pointers
+  // that already are in the same set.
+  for (const auto *Ptr : Pointers.getArrayRef().drop_back()) {
+    if (!AliasSets[V]->count(Ptr) && mayAlias(AA, DL, V, Ptr)) {
+      mergeAliasSets(V, Ptr);
     }
   }
 }
@@ -460,11 +411,11 @@ void LLVMAliasSet::computeFunctionsAliasSet(llvm::Function *F) {
   const llvm::DataLayout &DL = F->getParent()->getDataLayout();
 
   auto addPointer = [this, &AA, &DL](const llvm::Value *V, // NOLINT
-                                     std::vector<const llvm::Value *> &Reps) {
-    return this->addPointer(AA, DL, V, Reps);
+                                     auto &Pointers) {
+    return this->addPointer(AA, DL, V, Pointers);
   };
 
-  std::vector<const llvm::Value *> Pointers;
+  llvm::SetVector<const llvm::Value *> Pointers;
   llvm::DenseSet<const llvm::Value *> UsedGlobals;
 
   for (auto &Inst : llvm::instructions(F)) {
@@ -539,9 +490,6 @@ void LLVMAliasSet::computeFunctionsAliasSet(llvm::Function *F) {
     }
   }
 
-  auto NumGlobals = UsedGlobals.size();
-
-  Pointers.reserve(Pointers.size() + NumGlobals);
   for (const auto *Glob : UsedGlobals) {
     addPointer(Glob, Pointers);
   }
-- 
2.43.0


From 13c9fcd3702b83eb1d2aa36c33255393e98eab28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:48 +0000
Subject: [PATCH 56/71] fix: LLVMAliasSet::mergeWith loses aliases

Only the first known pointer of a set of the other object got the other's
aliases; the sets of the remaining known pointers were not merged, and
completely unknown sets were copied once per element.
---
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp | 34 ++++++++++---------------
 1 file changed, 13 insertions(+), 21 deletions(-)

diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index b93bc21..ae6f274 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -599,33 +599,25 @@ bool LLVMAliasSet::isInReachableAllocationSites(
 }
 
 void LLVMAliasSet::mergeWith(const LLVMAliasSet &OtherPTI) {
+  if (&OtherPTI == this) {
+    return;
+  }
 
   // merge analyzed functions
   AnalyzedFunctions.insert(OtherPTI.AnalyzedFunctions.begin(),
                            OtherPTI.AnalyzedFunctions.end());
-  // merge points-to sets
+  // merge points-to sets; aliasing pointers of other have to be in the same set
+  // afterwards, together with everything they already aliased with in this
+  llvm::DenseSet<const AliasSetTy *> SeenSets;
   for (const auto &[KeyPtr, Set] : OtherPTI.AliasSets) {
-    bool FoundElemPtr = false;
-    for (const auto *ElemPtr : *Set) {
-      // check if a pointer of other is already present in this
-
-      if (auto Search = AliasSets.find(ElemPtr); Search != AliasSets.end()) {
-        // if so, copy its elements
-        FoundElemPtr = true;
-        Search->second->insert(Set->begin(), Set->end());
-        // and reindex its elements
-        for (const auto *ElemPtr : *Set) {
-          AliasSets.insert({ElemPtr, Search->second});
-        }
-        break;
-      }
+    if (!SeenSets.insert(Set.get()).second) {
+      continue;
     }
-    // if none of the pointers of a set of other is known in this, we need to
-    // perform a copy
-    if (!FoundElemPtr) {
-      auto PTS = Owner.acquire();
-      *PTS = *Set;
-      AliasSets.try_emplace(KeyPtr, PTS);
+
+    addSingletonAliasSet(KeyPtr);
+    for (const auto *ElemPtr : *Set) {
+      addSingletonAliasSet(ElemPtr);
+      mergeAliasSets(KeyPtr, ElemPtr);
     }
   }
 }
-- 
2.43.0


From f214e5d6ad7a76ec2e8b921ac69015e5d9398b5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:40 +0000
Subject: [PATCH 57/71] fix: getAsJson of an empty call graph cannot be loaded

---
 include/phasar/ControlFlow/CallGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/ControlFlow/CallGraph.h b/include/phasar/ControlFlow/CallGraph.h
index d73a1b5..36bd9be 100644
--- a/include/phasar/ControlFlow/CallGraph.h
+++ b/include/phasar/ControlFlow/CallGraph.h
@@ -113,7 +113,7 @@ public:
       "Please use printAsJson() instead")]] nlohmann::json
   getAsJson(FunctionIdGetter GetFunctionId,
             InstIdGetter GetInstructionId) const {
-    nlohmann::json J;
+    nlohmann::json J = nlohmann::json::object();
 
     for (const auto &[Fun, Callers] : CallersOf) {
       auto &JCallers = J[std::invoke(GetFunctionId, Fun)];
-- 
2.43.0


From 5b9de69d050241cd7c3210595798cc29832529ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:59:40 +0000
Subject: [PATCH 58/71] fix: functions and constant expressions are missing in
 loaded alias sets

They do not have a metadata id, so they were dropped when storing a
LLVMAliasSet. Also, functions that were not analyzed before storing it were
analyzed with another alias analysis after loading it.
---
 .../PhasarLLVM/Pointer/LLVMAliasSetData.h     |   4 +
 lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp       | 165 +++++++++++++++++-
 lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp   |  14 ++
 3 files changed, 180 insertions(+), 3 deletions(-)

diff --git a/include/phasar/PhasarLLVM/Pointer/LLVMAliasSetData.h b/include/phasar/PhasarLLVM/Pointer/LLVMAliasSetData.h
index bf924e3..2fc13a9 100644
--- a/include/phasar/PhasarLLVM/Pointer/LLVMAliasSetData.h
+++ b/include/phasar/PhasarLLVM/Pointer/LLVMAliasSetData.h
@@ -13,11 +13,15 @@
 #include "llvm/Support/raw_ostream.h"
 
 #include <string>
+#include <vector>
 
 namespace psr {
 struct LLVMAliasSetData {
   std::vector<std::vector<std::string>> AliasSets;
+  /// Functions and constant expressions do not have a metadata-id
+  std::vector<std::vector<std::string>> ConstantAliasSets;
   std::vector<std::string> AnalyzedFunctions;
+  std::string AliasAnalysisType;
 
   LLVMAliasSetData() noexcept = default;
   void printAsJson(llvm::raw_ostream &OS);
diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
index ae6f274..59b1859 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSet.cpp
@@ -96,9 +96,126 @@ LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB, bool UseLazyEvaluation,
           << std::chrono::steady_clock::now().time_since_epoch().count());
 }
 
+/// Functions and constant expressions do not have a metadata-id, but they may be
+/// part of an alias set as well. So, store functions by name and constant
+/// expressions by their position within the operands of a user.
+static std::string
+getSerializationId(const llvm::Value *V, const llvm::Module *Mod,
+                   llvm::SmallPtrSetImpl<const llvm::Value *> &Visited) {
+  if (const auto *F = llvm::dyn_cast<llvm::Function>(V)) {
+    return F->getName().str() + "()";
+  }
+
+  if (!llvm::isa<llvm::Constant>(V) || llvm::isa<llvm::GlobalValue>(V)) {
+    const auto *I = llvm::dyn_cast<llvm::Instruction>(V);
+    if (I && (!I->getParent() || I->getModule() != Mod)) {
+      return "-1";
+    }
+    return getMetaDataID(V);
+  }
+
+  if (!llvm::isa<llvm::ConstantExpr>(V) &&
+      !llvm::isa<llvm::ConstantAggregate>(V)) {
+    return "-1";
+  }
+
+  for (const auto &Use : V->uses()) {
+    const auto *User = Use.getUser();
+    if (llvm::isa<llvm::Function>(User) || !Visited.insert(User).second) {
+      continue;
+    }
+    const auto *GV = llvm::dyn_cast<llvm::GlobalValue>(User);
+    if (GV && GV->getParent() != Mod) {
+      continue;
+    }
+    auto UserId = getSerializationId(User, Mod, Visited);
+    if (UserId != "-1") {
+      return UserId + '#' + std::to_string(Use.getOperandNo());
+    }
+  }
+  return "-1";
+}
+
+/// The Ids of all functions and constant expressions in PTS, together with one
+/// of the other pointers (if any). Empty, if there is nothing to store.
+static std::vector<std::string>
+getConstantAliasSet(const LLVMAliasSet::AliasSetTy &PTS,
+                    const llvm::Module *Mod) {
+  std::vector<std::string> Ret;
+  const llvm::Value *Other = nullptr;
+  for (const auto *V : PTS) {
+    if (!llvm::isa<llvm::Function>(V) && !llvm::isa<llvm::ConstantExpr>(V)) {
+      if (!Other && getMetaDataID(V) != "-1") {
+        Other = V;
+      }
+      continue;
+    }
+    llvm::SmallPtrSet<const llvm::Value *, 8> Visited;
+    if (auto Id = getSerializationId(V, Mod, Visited); Id != "-1") {
+      Ret.push_back(std::move(Id));
+    }
+  }
+  if (Other && !Ret.empty()) {
+    Ret.push_back(getMetaDataID(Other));
+  }
+  if (Ret.size() < 2) {
+    Ret.clear();
+  }
+  return Ret;
+}
+
+static const llvm::Module *getModule(const LLVMAliasSet::AliasSetMap &Map) {
+  for (const auto &[Ptr, Set] : Map) {
+    if (const auto *GO = llvm::dyn_cast<llvm::GlobalObject>(Ptr)) {
+      return GO->getParent();
+    }
+  }
+  return nullptr;
+}
+
+static const llvm::Value *fromSerializationId(const LLVMProjectIRDB &IRDB,
+                                              llvm::StringRef Id) {
+  if (Id.consume_back("()")) {
+    return IRDB.getModule()->getFunction(Id);
+  }
+
+  auto [Base, Path] = Id.split('#');
+  if (Base.empty() || Base.find_first_not_of("0123456789") != Base.npos) {
+    return fromMetaDataId(IRDB, Id);
+  }
+
+  const auto *V = fromMetaDataId(IRDB, Base);
+  while (!Path.empty()) {
+    auto [OpStr, Rest] = Path.split('#');
+    unsigned OpNo = 0;
+    const auto *User = llvm::dyn_cast_or_null<llvm::User>(V);
+    if (!User || OpStr.getAsInteger(10, OpNo) ||
+        OpNo >= User->getNumOperands()) {
+      return nullptr;
+    }
+    V = User->getOperand(OpNo);
+    Path = Rest;
+  }
+  return V;
+}
+
+/// The functions that were not analyzed yet have to be analyzed in the same way
+/// as the others
+static AliasAnalysisType
+getSerializedAnalysisType(const nlohmann::json &SerializedPTS) {
+  if (auto It = SerializedPTS.find("AliasAnalysisType");
+      It != SerializedPTS.end() && It->is_string()) {
+    auto Ty = toAliasAnalysisType(It->get<std::string>());
+    if (Ty != AliasAnalysisType::Invalid) {
+      return Ty;
+    }
+  }
+  return AliasAnalysisType::CFLAnders;
+}
+
 LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB,
                            const nlohmann::json &SerializedPTS)
-    : PTA(*IRDB, true) {
+    : PTA(*IRDB, true, getSerializedAnalysisType(SerializedPTS)) {
   assert(IRDB != nullptr);
   // Assume, we already have validated the json schema
 
@@ -130,6 +247,29 @@ LLVMAliasSet::LLVMAliasSet(LLVMProjectIRDB *IRDB,
     }
   }
 
+  /// Deserialize the constants within the AliasSets
+
+  if (auto It = SerializedPTS.find("ConstantAliasSets");
+      It != SerializedPTS.end()) {
+    for (const auto &PtsJson : *It) {
+      const llvm::Value *Prev = nullptr;
+      for (const auto &Alias : PtsJson) {
+        const auto AliasStr = Alias.get<std::string>();
+        const auto *Ptr = fromSerializationId(*IRDB, AliasStr);
+        if (!Ptr) {
+          PHASAR_LOG_LEVEL(WARNING, "Invalid Value-Id: " << AliasStr);
+          continue;
+        }
+
+        addSingletonAliasSet(Ptr);
+        if (Prev) {
+          mergeAliasSets(Prev, Ptr);
+        }
+        Prev = Ptr;
+      }
+    }
+  }
+
   /// Deserialize the AnalyzedFunctions - an array of function-names (to be
   /// interpreted as set)
 
@@ -640,7 +780,7 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
   nlohmann::json J;
 
   /// Serialize the AliasSets
-  auto &Sets = J["AliasSets"];
+  auto &Sets = J["AliasSets"] = nlohmann::json::array();
 
   for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
     auto PtsJson = nlohmann::json::array();
@@ -655,11 +795,21 @@ nlohmann::json LLVMAliasSet::getAsJson() const {
     }
   }
 
+  auto &ConstSets = J["ConstantAliasSets"] = nlohmann::json::array();
+  for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
+    if (auto Ids = getConstantAliasSet(*PTS, getModule(AliasSets));
+        !Ids.empty()) {
+      ConstSets.push_back(std::move(Ids));
+    }
+  }
+
   /// Serialize the AnalyzedFunctions
-  auto &Fns = J["AnalyzedFunctions"];
+  auto &Fns = J["AnalyzedFunctions"] = nlohmann::json::array();
   for (const auto *F : AnalyzedFunctions) {
     Fns.push_back(F->getName());
   }
+
+  J["AliasAnalysisType"] = toString(getAliasAnalysisType());
   return J;
 }
 
@@ -681,11 +831,20 @@ LLVMAliasSetData LLVMAliasSet::getLLVMAliasSetData() const {
     }
   }
 
+  for (const AliasSetTy *PTS : Owner.getAllAliasSets()) {
+    if (auto Ids = getConstantAliasSet(*PTS, getModule(AliasSets));
+        !Ids.empty()) {
+      Data.ConstantAliasSets.push_back(std::move(Ids));
+    }
+  }
+
   /// Serialize the AnalyzedFunctions
   for (const auto *F : AnalyzedFunctions) {
     Data.AnalyzedFunctions.push_back(F->getName().str());
   }
 
+  Data.AliasAnalysisType = toString(getAliasAnalysisType());
+
   return Data;
 }
 
diff --git a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
index 4f807c5..531fca5 100644
--- a/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
+++ b/lib/PhasarLLVM/Pointer/LLVMAliasSetData.cpp
@@ -25,11 +25,19 @@ static LLVMAliasSetData getDataFromJson(const nlohmann::json &Json) {
     Data.AnalyzedFunctions.push_back(Value.get<std::string>());
   }
 
+  if (auto It = Json.find("ConstantAliasSets"); It != Json.end()) {
+    It->get_to(Data.ConstantAliasSets);
+  }
+
+  Data.AliasAnalysisType = Json.value("AliasAnalysisType", "");
+
   return Data;
 }
 
 void LLVMAliasSetData::printAsJson(llvm::raw_ostream &OS) {
   nlohmann::json JSON;
+  JSON["AliasSets"] = nlohmann::json::array();
+  JSON["AnalyzedFunctions"] = nlohmann::json::array();
 
   for (const auto &Curr : AliasSets) {
     JSON["AliasSets"].push_back(Curr);
@@ -39,6 +47,12 @@ void LLVMAliasSetData::printAsJson(llvm::raw_ostream &OS) {
     JSON["AnalyzedFunctions"].push_back(Curr);
   }
 
+  JSON["ConstantAliasSets"] = ConstantAliasSets;
+
+  if (!AliasAnalysisType.empty()) {
+    JSON["AliasAnalysisType"] = AliasAnalysisType;
+  }
+
   OS << JSON << '\n';
 }
 
-- 
2.43.0


From a220dcccfb512e07f128138380fb7ba5c6100023 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:05 +0000
Subject: [PATCH 59/71] fix: typestates are lost when a callee passes its
 parameter on

Returning from a call, only the actual argument and the memory locations it is
loaded from are regenerated, although the call-to-return flow kills all aliases,
including the formal parameter of the caller it stems from. Its state was never
mapped back to the caller's caller.
---
 .../DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp    | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
index 4580fda..1985be0 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IDETypeStateAnalysis.cpp
@@ -156,6 +156,14 @@ auto IDETypeStateAnalysisBase::getRetFlowFunction(n_t CallSite, f_t CalleeFun,
     for (auto [Formal, Actual] : llvm::zip(CalleeFun->args(), CS->args())) {
       if (Source == &Formal) {
         Res.insert(Actual); // corresponding actual
+        // The call-to-return flow kills all aliases of the actual, including
+        // formal parameters of the caller, which carry the state further up
+        for (const auto *Alias : getWMAliasSet(Actual.get())) {
+          if (const auto *Arg = llvm::dyn_cast<llvm::Argument>(Alias);
+              Arg && Arg->getParent() == CS->getFunction()) {
+            Res.insert(Arg);
+          }
+        }
       }
     }
 
-- 
2.43.0


From 194ef1fec50097bde9698e9ea158fc0f6fdb5bcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:16:05 +0000
Subject: [PATCH 60/71] fix: calls to fwscanf, vfscanf, vfwscanf do not change
 typestates

The glibc headers redirect these functions to __isoc99_* symbols, of which only
__isoc99_fscanf was known.
---
 .../TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp  | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp
index 018ac4d..4968421 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/TypeStateDescriptions/CSTDFILEIOTypeStateDescription.cpp
@@ -67,7 +67,9 @@ const llvm::StringMap<std::set<int>> &getStdFileIOFuncs() noexcept {
       {"_IO_putc", {1}}, {"fprintf", {0}},   {"fwprintf", {0}},
       {"vfprintf", {0}}, {"vfwprintf", {0}}, {"__isoc99_fscanf", {0}},
       {"fscanf", {0}},   {"fwscanf", {0}},   {"vfscanf", {0}},
-      {"vfwscanf", {0}}, {"fflush", {0}},    {"fseek", {0}},
+      {"vfwscanf", {0}}, {"__isoc99_fwscanf", {0}},
+      {"__isoc99_vfscanf", {0}}, {"__isoc99_vfwscanf", {0}},
+      {"fflush", {0}},    {"fseek", {0}},
       {"ftell", {0}},    {"rewind", {0}},    {"fgetpos", {0}},
       {"fsetpos", {0}},  {"fileno", {0}}};
   return StdFileIOFuncs;
-- 
2.43.0


From 2103b20fd7af51d08761597c20ef19d3356fb013 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:24:43 +0000
Subject: [PATCH 61/71] fix: taints are lost at phis and selects

---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp        | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 5a52509..f596be8 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -310,6 +310,21 @@ auto IFDSTaintAnalysis::getNormalFlowFunction(n_t Curr,
     return transferFlow(Cast, Cast->getOperand(0));
   }
 
+  // The value of a phi or select is one of its operands. Do not kill Curr,
+  // since another phi in the same block may still refer to its old value
+  if (const auto *Phi = llvm::dyn_cast<llvm::PHINode>(Curr)) {
+    return generateFlowIf(Phi, [Phi](d_t Source) {
+      return llvm::is_contained(Phi->incoming_values(), Source);
+    });
+  }
+
+  if (const auto *Select = llvm::dyn_cast<llvm::SelectInst>(Curr)) {
+    return generateFlowIf(Select, [Select](d_t Source) {
+      return Source == Select->getTrueValue() ||
+             Source == Select->getFalseValue();
+    });
+  }
+
   // Otherwise we do not care and leave everything as it is
   return identityFlow();
 }
-- 
2.43.0


From 4555cedff6e83c3b56a066a241cda3dc19d54ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:35:33 +0000
Subject: [PATCH 62/71] fix: taints of memory that is only loaded later are
 lost

populateWithMayAliases skips a load that comes later in the block of the
context before it adds the pointer operand of the load, so that tainting
the memory through one pointer does not taint the location the pointer is
loaded from.
---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp        | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index f596be8..b3dacdc 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -156,6 +156,15 @@ void IFDSTaintAnalysis::populateWithMayAliases(
   for (const auto *Fact : Facts) {
     auto Aliases = PT.getAliasSet(Fact);
     for (const auto *Alias : *Aliases) {
+      if (const auto *Load = llvm::dyn_cast<llvm::LoadInst>(Alias)) {
+        // Handle at least one level of indirection, also if the load comes
+        // later...
+        const auto *PointerOp = Load->getPointerOperand()->stripPointerCasts();
+        if (!canSkipAtContext(PointerOp, Context)) {
+          Tmp.insert(PointerOp);
+        }
+      }
+
       if (canSkipAtContext(Alias, Context)) {
         continue;
       }
@@ -164,12 +173,6 @@ void IFDSTaintAnalysis::populateWithMayAliases(
         continue;
       }
 
-      if (const auto *Load = llvm::dyn_cast<llvm::LoadInst>(Alias)) {
-        // Handle at least one level of indirection...
-        const auto *PointerOp = Load->getPointerOperand()->stripPointerCasts();
-        Tmp.insert(PointerOp);
-      }
-
       Tmp.insert(Alias);
     }
   }
-- 
2.43.0


From 12b27556492ce9e51de4bc861f50ae742d84b7a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:37:55 +0000
Subject: [PATCH 63/71] fix: taints of parameters are lost in the caller after
 their last use

A fact is killed at the only use of a value, but formal parameters are
mapped back to the actual parameters when the function returns.
---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp         | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index b3dacdc..09c18a9 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -186,9 +186,15 @@ void IFDSTaintAnalysis::populateWithMustAliases(
   /// may-aliases
 }
 
+/// Whether From may still be needed after its (first) use. Formal parameters
+/// are mapped back to the caller when the function returns.
+static bool hasFurtherUses(d_t From) {
+  return From->hasNUsesOrMore(2) || llvm::isa<llvm::Argument>(From);
+}
+
 static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
                                                                   d_t From) {
-  if (From->hasNUsesOrMore(2)) {
+  if (hasFurtherUses(From)) {
     return FlowFunctionTemplates<d_t, container_type>::transferFlow(To, From);
   }
   return FlowFunctionTemplates<d_t, container_type>::lambdaFlow(
@@ -205,8 +211,8 @@ static IFDSTaintAnalysis::FlowFunctionPtrType transferAndKillFlow(d_t To,
 
 static IFDSTaintAnalysis::FlowFunctionPtrType
 transferAndKillTwoFlows(d_t To, d_t From1, d_t From2) {
-  bool KillFrom1 = !From1->hasNUsesOrMore(2);
-  bool KillFrom2 = !From2->hasNUsesOrMore(2);
+  bool KillFrom1 = !hasFurtherUses(From1);
+  bool KillFrom2 = !hasFurtherUses(From2);
 
   if (KillFrom1) {
     if (KillFrom2) {
@@ -273,7 +279,7 @@ auto IFDSTaintAnalysis::getNormalFlowFunction(n_t Curr,
     container_type Gen;
     Gen.insert(Store->getPointerOperand());
     populateWithMayAliases(Gen, Store);
-    if (Store->getValueOperand()->hasNUsesOrMore(2)) {
+    if (hasFurtherUses(Store->getValueOperand())) {
       Gen.insert(Store->getValueOperand());
     }
 
-- 
2.43.0


From 7152118cec8198a0e4daf85b80ad9edac0946b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:53:20 +0000
Subject: [PATCH 64/71] fix: sanitizers that are only declared have no effect

The call-to-return flow function passes the arguments of calls to
declarations on, so that a sanitized value bypasses the sanitizer. A
sanitizer that is a source at the same time did not kill anything.
---
 .../IfdsIde/Problems/IFDSTaintAnalysis.cpp    | 32 +++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 09c18a9..9cf9e34 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -383,9 +383,32 @@ auto IFDSTaintAnalysis::getCallToRetFlowFunction(n_t CallSite,
   bool HasDeclOnly = llvm::any_of(
       Callees, [](const auto *DestFun) { return DestFun->isDeclaration(); });
 
-  return mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
+  auto Alongside = mapFactsAlongsideCallSite(CS, [HasDeclOnly](d_t Arg) {
     return HasDeclOnly || !Arg->getType()->isPointerTy();
   });
+
+  // Values that every callee sanitizes must not bypass the call
+  container_type Sanitized;
+  for (const auto *DestFun : Callees) {
+    container_type Kill;
+    collectSanitizedFacts(Kill, *Config, CS, DestFun);
+    if (DestFun == Callees.front()) {
+      Sanitized = std::move(Kill);
+    } else {
+      intersectWith(Sanitized, Kill);
+    }
+  }
+  if (Sanitized.empty()) {
+    return Alongside;
+  }
+  return lambdaFlow([Alongside{std::move(Alongside)},
+                     Sanitized{std::move(Sanitized)}](
+                        d_t Source) -> container_type {
+    if (Sanitized.count(Source)) {
+      return {};
+    }
+    return Alongside->computeTargets(Source);
+  });
 }
 
 auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
@@ -486,7 +509,8 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
   // Gen nonempty
 
   Gen.insert(LLVMZeroValue::getInstance());
-  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)}, this,
+  return lambdaFlow([Gen{std::move(Gen)}, Leak{std::move(Leak)},
+                     Kill{std::move(Kill)}, this,
                      CallSite](d_t Source) -> container_type {
     if (LLVMZeroValue::isLLVMZeroValue(Source)) {
       return Gen;
@@ -499,6 +523,10 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       }
     }
 
+    if (Kill.count(Source)) {
+      return {};
+    }
+
     return {Source};
   });
 }
-- 
2.43.0


From 6bc59096b562a04dcb22e43109f9c374dcdc8565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:24 +0000
Subject: [PATCH 65/71] fix: copies by library functions do not taint aliases
 of the destination

---
 .../DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp       | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
index 9cf9e34..c1e2993 100644
--- a/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
+++ b/lib/PhasarLLVM/DataFlow/IfdsIde/Problems/IFDSTaintAnalysis.cpp
@@ -455,9 +455,9 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
       // Note: The LLVMfdff is constant during the lifetime of the analysis, so
       // it is fine to capture a reference here:
       const auto &DestFunFacts = Llvmfdff.getFactsForFunction(DestFun);
-      return lambdaFlow([CallSite, DestFun,
+      return lambdaFlow([this, CallSite, DestFun,
                          &DestFunFacts](d_t Source) -> container_type {
-        std::set<d_t> Facts;
+        container_type Facts;
         const auto *CS = llvm::cast<llvm::CallBase>(CallSite);
         for (const auto &[Arg, DestParam] :
              llvm::zip(CS->args(), DestFun->args())) {
@@ -475,6 +475,10 @@ auto IFDSTaintAnalysis::getSummaryFlowFunction([[maybe_unused]] n_t CallSite,
             }
           }
         }
+        if (!Facts.empty()) {
+          // The memory a parameter points to may have several names
+          populateWithMayAliases(Facts, CallSite);
+        }
         Facts.insert(Source);
         return Facts;
       });
-- 
2.43.0


From 7381d3ce461b7e2c80b685c3861fde193642b707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:19 +0000
Subject: [PATCH 66/71] fix: do not use the source fact of exploded-supergraph
 edges after moving it

---
 include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index df9d1ec..80b45a4 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -193,7 +193,7 @@ public:
   template <typename Container>
   void saveEdges(n_t Curr, d_t CurrNode, n_t Succ, const Container &SuccNodes,
                  ESGEdgeKind Kind) {
-    auto PredId = getNodeIdOrNull(Curr, std::move(CurrNode));
+    auto PredId = getNodeIdOrNull(Curr, CurrNode);
 
     /// The Identity CTR-flow on the zero-value has no meaning at all regarding
     /// path sensitivity, so skip it
-- 
2.43.0


From e4e026f0d2ecc8d8a43fd1ed99b6aa47be10ff23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:19 +0000
Subject: [PATCH 67/71] fix: keep all calls of one basic block to the same
 callee in the exploded supergraph

---
 .../DataFlow/PathSensitivity/ExplodedSuperGraph.h     | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index 80b45a4..3d93b89 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -356,11 +356,12 @@ private:
     }
 
     // This node has more than one predecessor; add a neighbor then
-    if (SuccVtx.predecessor().id() != PredId.value_or(Node::NoPredId) &&
-        llvm::none_of(SuccVtx.neighbors(),
-                      [Pred = PredId.value_or(Node::NoPredId)](NodeRef Nd) {
-                        return Nd.predecessor().id() == Pred;
-                      })) {
+    // NOLINTNEXTLINE(readability-identifier-naming)
+    auto isSameEdge = [Pred = PredId.value_or(Node::NoPredId),
+                       &Curr](NodeRef Nd) {
+      return Nd.predecessor().id() == Pred && Nd.source() == Curr;
+    };
+    if (!isSameEdge(SuccVtx) && llvm::none_of(SuccVtx.neighbors(), isSameEdge)) {
 
       auto NewNode = makeNode();
       NodeAdjOwner[SuccVtxNode].Neighbors.push_back(NewNode);
-- 
2.43.0


From 5f56adb20da9515d8455fdd8b5be26de2452c381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:19 +0000
Subject: [PATCH 68/71] fix: do not merge exploded-supergraph nodes over a
 statement of another basic block

---
 include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index 3d93b89..c7a6b86 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -326,6 +326,7 @@ private:
 
     if (PredId && NodeDataOwner[*PredId].Value == SuccNode &&
         NodeDataOwner[*PredId].Source->getParent() == Succ->getParent() &&
+        Curr->getParent() == Succ->getParent() &&
         SuccNode != ZeroValue) {
 
       // Identity edge, we don't need a new node; just assign the Pred here
-- 
2.43.0


From ee830c9429e2af2308f400a1e874ced99d11809d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:19 +0000
Subject: [PATCH 69/71] fix: do not let the paths to one fact hide the paths to
 the next one

---
 .../PathSensitivity/PathSensitivityManagerMixin.h     | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h b/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
index 6a986d9..c25ea56 100644
--- a/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
+++ b/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
@@ -22,6 +22,7 @@
 #include "phasar/Utils/Printer.h"
 
 #include "llvm/ADT/ArrayRef.h"
+#include "llvm/ADT/DenseMap.h"
 #include "llvm/ADT/STLExtras.h"
 #include "llvm/ADT/SetVector.h"
 #include "llvm/ADT/SmallPtrSet.h"
@@ -113,6 +114,16 @@ public:
       if (Rt != GraphTraits<GraphType>::Invalid) {
         graph_traits_t::addRoot(Dag, Rt);
       }
+
+      // Some nodes may only be invalid, because all of their continuations have
+      // already been on the path to the current fact. This does not need to
+      // hold for the next facts
+      for (auto It = Ctx.Cache.begin(), End = Ctx.Cache.end(); It != End;) {
+        auto Curr = It++;
+        if (Curr->second == graph_traits_t::Invalid) {
+          Ctx.Cache.erase(Curr);
+        }
+      }
     }
 
 #ifndef NDEBUG
-- 
2.43.0


From 19eb12598010f52e993e111737228447e1ae89b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:19 +0000
Subject: [PATCH 70/71] fix: give seeds their own nodes in the exploded
 supergraph

An edge into a seed used to overwrite its node, such that paths got lost or
never ended.
---
 .../PathSensitivity/ExplodedSuperGraph.h      | 64 ++++++++++---------
 .../PathSensitivityManagerMixin.h             |  6 ++
 2 files changed, 39 insertions(+), 31 deletions(-)

diff --git a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
index c7a6b86..72fd9a5 100644
--- a/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
+++ b/include/phasar/DataFlow/PathSensitivity/ExplodedSuperGraph.h
@@ -33,7 +33,6 @@
 #include <cstddef>
 #include <cstdio>
 #include <numeric>
-#include <optional>
 #include <set>
 #include <string>
 #include <type_traits>
@@ -56,6 +55,7 @@ public:
 
   struct Node {
     static constexpr size_t NoPredId = ~size_t(0);
+    static constexpr size_t SeedPredId = NoPredId - 1;
   };
 
   struct NodeData {
@@ -90,7 +90,13 @@ public:
     [[nodiscard]] NodeRef predecessor() const noexcept {
       assert(*this);
       auto PredId = Owner->NodeAdjOwner[NodeId].PredecessorIdx;
-      return PredId == Node::NoPredId ? NodeRef() : NodeRef(PredId, Owner);
+      return PredId >= Node::SeedPredId ? NodeRef() : NodeRef(PredId, Owner);
+    }
+
+    /// Whether this node stands for a seed, i.e., a path may start here
+    [[nodiscard]] bool isSeed() const noexcept {
+      assert(*this);
+      return Owner->NodeAdjOwner[NodeId].PredecessorIdx == Node::SeedPredId;
     }
 
     [[nodiscard]] bool hasNeighbors() const noexcept {
@@ -193,7 +199,7 @@ public:
   template <typename Container>
   void saveEdges(n_t Curr, d_t CurrNode, n_t Succ, const Container &SuccNodes,
                  ESGEdgeKind Kind) {
-    auto PredId = getNodeIdOrNull(Curr, CurrNode);
+    auto PredId = getOrCreateNodeId(Curr, CurrNode);
 
     /// The Identity CTR-flow on the zero-value has no meaning at all regarding
     /// path sensitivity, so skip it
@@ -273,18 +279,23 @@ private:
     }
   };
 
-  [[nodiscard]] std::optional<size_t> getNodeIdOrNull(n_t Inst,
-                                                      d_t Fact) const {
-    auto It = FlowFactVertexMap.find(
-        std::make_pair(std::move(Inst), std::move(Fact)));
-    if (It != FlowFactVertexMap.end()) {
-      return It->second;
+  /// Gets the node (Inst, Fact). If there is none, (Inst, Fact) is a seed: Paths
+  /// may start there, even if it turns out later that it has predecessors as
+  /// well
+  [[nodiscard]] size_t getOrCreateNodeId(n_t Inst, d_t Fact) {
+    auto [It, Inserted] = FlowFactVertexMap.try_emplace(
+        std::make_pair(Inst, Fact), NodeDataOwner.size());
+    if (Inserted) {
+      auto &NodData = NodeDataOwner.emplace_back();
+      NodData.Value = std::move(Fact);
+      NodData.Source = Inst;
+      NodeAdjOwner.emplace_back().PredecessorIdx = Node::SeedPredId;
     }
-    return std::nullopt;
+    return It->second;
   }
 
-  void saveEdge(std::optional<size_t> PredId, n_t Curr, d_t CurrNode, n_t Succ,
-                d_t SuccNode, bool MaySkipEdge) {
+  void saveEdge(size_t PredId, n_t Curr, d_t CurrNode, n_t Succ, d_t SuccNode,
+                bool MaySkipEdge) {
     auto [SuccVtxIt, Inserted] = FlowFactVertexMap.try_emplace(
         std::make_pair(Succ, SuccNode), Node::NoPredId);
 
@@ -293,7 +304,7 @@ private:
     auto &SuccVtxNode = SuccVtxIt->second;
 
     // NOLINTNEXTLINE(readability-identifier-naming)
-    auto makeNode = [this, PredId, Curr, &CurrNode, &SuccNode]() mutable {
+    auto makeNode = [this, PredId, Curr, &SuccNode]() mutable {
       assert(NodeAdjOwner.size() == NodeDataOwner.size());
       auto Ret = NodeDataOwner.size();
 
@@ -301,13 +312,7 @@ private:
       auto &NodAdj = NodeAdjOwner.emplace_back();
       NodData.Value = SuccNode;
 
-      if (!PredId) {
-        // For the seeds: Just that the FlowFactVertexMap is filled at that
-        // position...
-        FlowFactVertexMap[std::make_pair(Curr, CurrNode)] = Ret;
-      }
-
-      NodAdj.PredecessorIdx = PredId.value_or(Node::NoPredId);
+      NodAdj.PredecessorIdx = PredId;
       NodData.Source = Curr;
 
       return Ret;
@@ -316,7 +321,6 @@ private:
     if (MaySkipEdge && SuccNode == CurrNode) {
       // This CTR edge carries no information, so skip it.
       // We still want to create the destination node for the ret-FF later
-      assert(PredId);
       if (Inserted) {
         SuccVtxNode = makeNode();
         NodeAdjOwner.back().PredecessorIdx = Node::NoPredId;
@@ -324,19 +328,19 @@ private:
       return;
     }
 
-    if (PredId && NodeDataOwner[*PredId].Value == SuccNode &&
-        NodeDataOwner[*PredId].Source->getParent() == Succ->getParent() &&
+    if (NodeDataOwner[PredId].Value == SuccNode &&
+        NodeDataOwner[PredId].Source->getParent() == Succ->getParent() &&
         Curr->getParent() == Succ->getParent() &&
         SuccNode != ZeroValue) {
 
       // Identity edge, we don't need a new node; just assign the Pred here
       if (Inserted) {
-        SuccVtxNode = *PredId;
+        SuccVtxNode = PredId;
         return;
       }
 
       // This edge has already been here?!
-      if (*PredId == SuccVtxNode) {
+      if (PredId == SuccVtxNode) {
         return;
       }
     }
@@ -349,18 +353,16 @@ private:
     // Node has already been created, but MaySkipEdge above prevented us from
     // connecting with the pred. Now, we have a non-skippable edge to connect to
     NodeRef SuccVtx(SuccVtxNode, this);
-    if (!SuccVtx.predecessor()) {
-      NodeAdjOwner[SuccVtxNode].PredecessorIdx =
-          PredId.value_or(Node::NoPredId);
+    if (!SuccVtx.predecessor() && !SuccVtx.isSeed()) {
+      NodeAdjOwner[SuccVtxNode].PredecessorIdx = PredId;
       NodeDataOwner[SuccVtxNode].Source = Curr;
       return;
     }
 
     // This node has more than one predecessor; add a neighbor then
     // NOLINTNEXTLINE(readability-identifier-naming)
-    auto isSameEdge = [Pred = PredId.value_or(Node::NoPredId),
-                       &Curr](NodeRef Nd) {
-      return Nd.predecessor().id() == Pred && Nd.source() == Curr;
+    auto isSameEdge = [PredId, &Curr](NodeRef Nd) {
+      return Nd.predecessor().id() == PredId && Nd.source() == Curr;
     };
     if (!isSameEdge(SuccVtx) && llvm::none_of(SuccVtx.neighbors(), isSameEdge)) {
 
diff --git a/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h b/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
index c25ea56..45674bb 100644
--- a/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
+++ b/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
@@ -239,6 +239,12 @@ private:
 
       Vtx = Vtx.predecessor();
 
+      if (Vtx && Vtx.isSeed() && !Vtx.hasNeighbors() &&
+          Vtx.source() == Prev.source()) {
+        // The seed's statement is already part of the path
+        Vtx = nullptr;
+      }
+
       if (PFilter.HasReachedEnd(Prev, Vtx)) {
         IsEnd = true;
       } else if (PFilter.IsErrorneousTransition(Prev, Vtx)) {
-- 
2.43.0


From 876c6c2b497e003d6af8be19c67f084d6f156e5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:19 +0000
Subject: [PATCH 71/71] fix: terminate the path reconstruction in recursions
 that never end

---
 .../DataFlow/PathSensitivity/PathSensitivityManagerMixin.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h b/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
index 45674bb..0abe020 100644
--- a/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
+++ b/include/phasar/DataFlow/PathSensitivity/PathSensitivityManagerMixin.h
@@ -23,6 +23,7 @@
 
 #include "llvm/ADT/ArrayRef.h"
 #include "llvm/ADT/DenseMap.h"
+#include "llvm/ADT/DenseSet.h"
 #include "llvm/ADT/STLExtras.h"
 #include "llvm/ADT/SetVector.h"
 #include "llvm/ADT/SmallPtrSet.h"
@@ -232,8 +233,14 @@ private:
     NodeRef Prev;
     bool IsEnd = false;
     bool IsError = false;
+    llvm::SmallDenseSet<size_t> Visited;
 
     do {
+      if (!Visited.insert(Vtx.id()).second) {
+        // Going round in circles, e.g. in a recursion that never ends. There is
+        // no path from a seed
+        return false;
+      }
       Prev = Vtx;
       graph_traits_t::node(RetDag, Ret).push_back(Vtx.source());
 
-- 
2.43.0

