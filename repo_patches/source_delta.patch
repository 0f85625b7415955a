From 6caaea11ea8c1e7276ab610777bab46f5d655e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:03 +0000
Subject: [PATCH 01/74] fix: accept array variables as operands of the array
 query operators

The first pass of the parser does not know the type of an ArrayVariable, so
ALL_KNOWN, ANY_KNOWN, ArraySize and ArrayMaxSize refused every one.
---
 src/xml-parser/Operations.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index 3c2d189..3700a23 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -748,7 +748,7 @@ namespace PLEXIL
 
     virtual bool checkArgTypes(std::vector<ValueType> const &typeVec) const
     {
-      return isArrayType(typeVec.at(0));
+      return isArrayType(typeVec.at(0)) || typeVec.at(0) == UNKNOWN_TYPE;
     }
 
     virtual ValueType getValueType(std::vector<ValueType> const & /* typeVec */,
-- 
2.43.0


From 51dae138f0d15fc69d9dd3ff70f78fcaf411899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:29 +0000
Subject: [PATCH 02/74] fix: accept an array variable as the initial value of
 an array variable

The first pass cannot know its type; the second one now compares it.
---
 src/xml-parser/ArrayVariableFactory.cc |  5 +++--
 src/xml-parser/parseNode.cc            | 11 +++++++++++
 2 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/src/xml-parser/ArrayVariableFactory.cc b/src/xml-parser/ArrayVariableFactory.cc
index 14edd5c..1a1b355 100644
--- a/src/xml-parser/ArrayVariableFactory.cc
+++ b/src/xml-parser/ArrayVariableFactory.cc
@@ -125,8 +125,9 @@ namespace PLEXIL
           ValueType v = checkExpression(nodeId, temp);
         if (testTag(ARRAY_VAL_TAG, temp) || testTag(ARRAYVAR_TAG, temp)) {
           // ArrayValue, ArrayVariable cases
-          checkParserExceptionWithLocation(v == arrayType(eltType),
-                                           // || v == UNKNOWN_TYPE, // FIXME - for variables
+          // Type of an ArrayVariable is not known yet, see parseVariableInitializer()
+          checkParserExceptionWithLocation(v == arrayType(eltType)
+                                           || (v == UNKNOWN_TYPE && testTag(ARRAYVAR_TAG, temp)),
                                            temp,
                                            "Node \"" << nodeId
                                            << "\": " << valueTypeName(eltType)
diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 77c23dc..9e8b280 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -1009,6 +1009,17 @@ namespace PLEXIL
     if (isArrayType(varType)) {
       int sizeSpec = decl.child(MAX_SIZE_TAG).text().as_int(-1);
       if (isArrayType(init->valueType())) {
+        if (initType != varType) {
+          if (garbage)
+            delete init;
+          reportParserExceptionWithLocation(decl,
+                                            "Node " << node->getNodeId()
+                                            << ": " << valueTypeName(varType)
+                                            << " variable " << varName
+                                            << " has initial value of incompatible type "
+                                            << valueTypeName(initType));
+        }
+
         // Is array, is it constant?
         if (init->isConstant()) {
           // Check whether initial value is larger than declared size
-- 
2.43.0


From c6a624dfd70a8674783708c73a94b045475f97fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 03/74] fix: XOR of three or more operands is unknown iff some
 operand is unknown

---
 src/expr/BooleanOperators.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index d7d2f73..5c1ef78 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -223,7 +223,7 @@ namespace PLEXIL
     for (size_t i = 0; i < n; ++i) {
       bool temp2;
       // Return unknown if any arg is unknown
-      if (args[i]->getValue(temp2))
+      if (!args[i]->getValue(temp2))
         return false;
       temp1 = (temp1 != temp2);
     }
-- 
2.43.0


From 6c779a91dd501e9f4e3a740c0bca2bc6541a86ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 04/74] fix: OR of three or more operands is unknown if none is
 true and some operand is unknown

---
 src/expr/BooleanOperators.cc | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/expr/BooleanOperators.cc b/src/expr/BooleanOperators.cc
index 5c1ef78..de81eab 100644
--- a/src/expr/BooleanOperators.cc
+++ b/src/expr/BooleanOperators.cc
@@ -100,7 +100,7 @@ namespace PLEXIL
   bool BooleanOr::operator()(Boolean &result, Function const &args) const
   {
     size_t const n = args.size();
-    bool anyKnown = false;
+    bool allKnown = true;
     for (size_t i = 0; i < n; ++i) {
       bool temp;
       if (args[i]->getValue(temp)) {
@@ -109,12 +109,13 @@ namespace PLEXIL
           result = true;
           return true;
         }
-        anyKnown = true; // but no true value yet
       }
+      else
+        allKnown = false;
     }
-    if (anyKnown)
+    if (allKnown)
       result = false; // or we would have returned above
-    return anyKnown;
+    return allKnown;
   }
 
   //
-- 
2.43.0


From c0e668e72fe4d1b7a76fcf9644aa77c78574cd7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 05/74] fix: report the restored value of a variable as unknown
 when it was unknown

---
 src/expr/ArrayVariable.cc | 2 +-
 src/expr/UserVariable.cc  | 4 ++++
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 708b10d..259f02d 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -204,7 +204,7 @@ namespace PLEXIL
 
   Value ArrayVariable::getSavedValue() const
   {
-    if (m_savedValue)
+    if (m_savedKnown && m_savedValue)
       return Value(*m_savedValue);
     return Value();
   }
diff --git a/src/expr/UserVariable.cc b/src/expr/UserVariable.cc
index 144f015..9b7498f 100644
--- a/src/expr/UserVariable.cc
+++ b/src/expr/UserVariable.cc
@@ -393,11 +393,15 @@ namespace PLEXIL
   template <typename T>
   Value UserVariable<T>::getSavedValue() const
   {
+   if (!m_savedKnown)
+     return Value();
    return Value(m_savedValue);
   }
 
   Value UserVariable<String>::getSavedValue() const
   {
+   if (!m_savedKnown)
+     return Value();
    return Value(m_savedValue);
   }
 
-- 
2.43.0


From c8559c0fcc0080d5576af564dbb74425e598087f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:31 +0000
Subject: [PATCH 06/74] fix: notify listeners when an array element is set to
 unknown

---
 src/expr/ArrayVariable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/expr/ArrayVariable.cc b/src/expr/ArrayVariable.cc
index 259f02d..9d1c299 100644
--- a/src/expr/ArrayVariable.cc
+++ b/src/expr/ArrayVariable.cc
@@ -285,8 +285,10 @@ namespace PLEXIL
 
   void ArrayVariable::setElementUnknown(size_t idx)
   {
-    if (m_known)
+    if (m_known) {
       m_value->setElementUnknown(idx);
+      publishChange();
+    }
     // else fail silently
   }
 
-- 
2.43.0


From cdcec4cc523873e91c3c9076d9ea0cc61d76abb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:26 +0000
Subject: [PATCH 07/74] fix: assign and restore the array element selected when
 the assignment started

---
 src/expr/ArrayReference.cc | 36 +++++++++++++++++++++++++-----------
 src/expr/ArrayReference.hh | 12 ++++++++++++
 2 files changed, 37 insertions(+), 11 deletions(-)

diff --git a/src/expr/ArrayReference.cc b/src/expr/ArrayReference.cc
index 89087f8..a5499e0 100644
--- a/src/expr/ArrayReference.cc
+++ b/src/expr/ArrayReference.cc
@@ -228,7 +228,9 @@ namespace PLEXIL
     : Assignable(),
       ArrayReference(ary, idx, aryIsGarbage, idxIsGarbage),
       m_mutableArray(dynamic_cast<ArrayVariable *>(ary->getBaseExpression())),
-      m_saved(false)
+      m_savedIndex(0),
+      m_saved(false),
+      m_useSavedIndex(false)
   {
   }
 
@@ -250,38 +252,50 @@ namespace PLEXIL
   void MutableArrayReference::setValue(Value const &value)
   {
     size_t idx;
-    if (!mutableSelfCheck(idx))
+    if (!targetIndex(idx))
       return;
     m_mutableArray->setElement(idx, value);
   }
 
+  // An assignment saves the current value when it evaluates its right hand
+  // side, and sets the new one at the end of the step. The index may have been
+  // assigned a new value in between.
+  bool MutableArrayReference::targetIndex(size_t &idx)
+  {
+    if (!m_useSavedIndex)
+      return mutableSelfCheck(idx);
+    m_useSavedIndex = false;
+    idx = m_savedIndex;
+    return m_saved && m_mutableArray->isKnown();
+  }
+
   void MutableArrayReference::setUnknown()
   {
     size_t idx;
-    if (!mutableSelfCheck(idx))
+    if (!targetIndex(idx))
       return;
     m_mutableArray->setElementUnknown(idx);
   }
 
   void MutableArrayReference::saveCurrentValue()
   {
-    size_t idx;
-    if (!mutableSelfCheck(idx)) {
+    m_useSavedIndex = true;
+    m_saved = false;
+    if (!mutableSelfCheck(m_savedIndex)) {
       // unknown or invalid
-      m_saved = false;
+      m_savedValue = Value();
       return;
     }
-    m_savedValue = m_mutableArray->getElementValue(idx);
+    m_savedValue = m_mutableArray->getElementValue(m_savedIndex);
     m_saved = true;
   }
 
   void MutableArrayReference::restoreSavedValue()
   {
-    size_t idx;
-    if (!mutableSelfCheck(idx) || !m_saved) 
+    if (!m_saved || !m_mutableArray->isKnown())
       return;
-    if (m_savedValue != m_mutableArray->getElementValue(idx)) {
-      m_mutableArray->setElement(idx, m_savedValue);
+    if (m_savedValue != m_mutableArray->getElementValue(m_savedIndex)) {
+      m_mutableArray->setElement(m_savedIndex, m_savedValue);
     }
     m_saved = false;
   }
diff --git a/src/expr/ArrayReference.hh b/src/expr/ArrayReference.hh
index 309893e..9c45cb3 100644
--- a/src/expr/ArrayReference.hh
+++ b/src/expr/ArrayReference.hh
@@ -244,14 +244,26 @@ namespace PLEXIL {
     //!       array's actual size.
     bool mutableSelfCheck(size_t &idx);
 
+    //! \brief Determine which element to set.
+    //! \param idx The array index.
+    //! \return true if there is an element to set; false otherwise.
+    //! \note The index in effect at saveCurrentValue() applies to the value set next.
+    bool targetIndex(size_t &idx);
+
     //! \brief Pointer to the array expression as an ArrayVariable instance.
     ArrayVariable *m_mutableArray;
 
     //! \brief Value saved by saveCurrentValue().
     Value m_savedValue;
 
+    //! \brief Index in effect when saveCurrentValue() was called.
+    size_t m_savedIndex;
+
     //! \brief True if saveCurrentValue() has been called, false otherwise.
     bool m_saved;
+
+    //! \brief True if the next value set belongs at the saved index.
+    bool m_useSavedIndex;
   };
 
 } // namespace PLEXIL
-- 
2.43.0


From 1315fe44a9304969d07d092b96d3c8828e590372 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 08/74] fix: a lookup follows its arguments while active even
 if nothing listens to it

---
 src/intfc/Lookup.cc | 44 ++++++++++++++++++++++++++++++++++----------
 1 file changed, 34 insertions(+), 10 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 31a0504..cad5036 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -152,6 +152,8 @@ namespace PLEXIL
     //! \brief Virtual destructor.
     virtual ~LookupImpl()
     {
+      if (this->isActive() && !hasListeners())
+        ignoreState();
       if (m_entry) {
         unregister();
         m_entry = nullptr;
@@ -189,11 +191,8 @@ namespace PLEXIL
     //! \note Wraps the Propagator method.
     virtual void addListener(ExpressionListener *l) override
     {
-      if (!hasListeners()) {
-        m_stateName->addListener(this);
-        if (m_paramVec)
-          m_paramVec->addListener(this);
-      }
+      if (!hasListeners())
+        listenToState();
       Propagator::addListener(l);
     }
 
@@ -203,11 +202,8 @@ namespace PLEXIL
     virtual void removeListener(ExpressionListener *l) override
     {
       Propagator::removeListener(l);
-      if (!hasListeners()) {
-        if (m_paramVec)
-          m_paramVec->removeListener(this);
-        m_stateName->removeListener(this);
-      }
+      if (!hasListeners())
+        ignoreState();
     }
 
     //
@@ -368,6 +364,10 @@ namespace PLEXIL
     virtual void handleActivate() override
     {
       debugMsg("Lookup:handleActivate", " called");
+      // Have to follow changes to the name and parameters while active,
+      // even if nobody is listening (e.g. in a pre- or postcondition)
+      if (!m_stateIsConstant && !hasListeners())
+        listenToState();
       // Activate all subexpressions
       m_stateName->activate();
       if (m_paramVec)
@@ -388,6 +388,8 @@ namespace PLEXIL
     //! \brief Perform any necessary actions to enter the inactive state.
     virtual void handleDeactivate() override
     {
+      if (!m_stateIsConstant && !hasListeners())
+        ignoreState();
       // Dectivate all subexpressions
       m_stateName->deactivate();
       if (m_paramVec)
@@ -414,6 +416,22 @@ namespace PLEXIL
         publishChange();
     }
 
+    //! \brief Be notified of changes to the name and parameters.
+    void listenToState()
+    {
+      m_stateName->addListener(this);
+      if (m_paramVec)
+        m_paramVec->addListener(this);
+    }
+
+    //! \brief Stop being notified of changes to the name and parameters.
+    void ignoreState()
+    {
+      if (m_paramVec)
+        m_paramVec->removeListener(this);
+      m_stateName->removeListener(this);
+    }
+
     //
     // Shared behavior needed by LookupOnChange
     //
@@ -774,6 +792,8 @@ namespace PLEXIL
     //! \brief Virtual destructor.
     virtual ~LookupOnChange()
     {
+      if (this->isActive() && !hasListeners())
+        m_tolerance->removeListener(this);
       if (m_toleranceIsGarbage)
         delete m_tolerance;
     }
@@ -921,6 +941,8 @@ namespace PLEXIL
     virtual void handleActivate() override
     {
       check_error_1(m_tolerance); // paranoid check
+      if (!hasListeners())
+        m_tolerance->addListener(this);
       debugMsg("LookupOnChange:handleActivate", " called");
       LookupImpl::handleActivate(); // may register lookup if state known,
       // may cause calls to handleChange(), valueChanged()
@@ -936,6 +958,8 @@ namespace PLEXIL
     virtual void handleDeactivate() override
     {
       debugMsg("LookupOnChange:handleDeactivate", " called");
+      if (!hasListeners())
+        m_tolerance->removeListener(this);
       LookupImpl::handleDeactivate();
       m_tolerance->deactivate();
       // Clear m_thresholds and m_cachedValue if they are not already.
-- 
2.43.0


From 9608e01aa7743106af4e8e9d439d7a8a7372037b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:52 +0000
Subject: [PATCH 09/74] fix: string length and array size can be used where a
 Real is wanted

---
 src/expr/OperatorImpl.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/expr/OperatorImpl.cc b/src/expr/OperatorImpl.cc
index 135f372..f9af746 100644
--- a/src/expr/OperatorImpl.cc
+++ b/src/expr/OperatorImpl.cc
@@ -182,7 +182,7 @@ namespace PLEXIL
   bool OperatorImpl<Integer>::operator()(Real &result, Expression const *arg) const
   {
     Integer temp;
-    if (!this->calc(temp, arg))
+    if (!(*this)(temp, arg))
       return false;
     result = (Real) temp;
     return true;
@@ -193,7 +193,7 @@ namespace PLEXIL
                                          Expression const *arg1) const
   {
     Integer temp;
-    if (!this->calc(temp, arg0, arg1))
+    if (!(*this)(temp, arg0, arg1))
       return false;
     result = (Real) temp;
     return true;
@@ -202,7 +202,7 @@ namespace PLEXIL
   bool OperatorImpl<Integer>::operator()(Real &result, Function const &args) const
   {
     Integer temp;
-    if (!this->calc(temp, args))
+    if (!(*this)(temp, args))
       return false;
     result = (Real) temp;
     return true;
-- 
2.43.0


From bbaa171a44bcfe64de4cfbd69c0b45b4c70a31ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 10/74] fix: compare dates and durations for equality

---
 src/expr/Comparisons.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/expr/Comparisons.cc b/src/expr/Comparisons.cc
index 356e713..3e7f8b5 100644
--- a/src/expr/Comparisons.cc
+++ b/src/expr/Comparisons.cc
@@ -128,6 +128,8 @@ namespace PLEXIL
         return compareEqual<Integer>(result, argA, argB);
       // else fall through to Real case
 
+    case DATE_TYPE:
+    case DURATION_TYPE:
     case REAL_TYPE:
       return compareEqual<Real>(result, argA, argB);
 
-- 
2.43.0


From f46a1d985212aad1f1ddf8be8a5432f0a6d0a0c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:28:41 +0000
Subject: [PATCH 11/74] fix: delete no child until all conditions which may
 refer to it are gone

---
 src/exec/ListNode.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/exec/ListNode.cc b/src/exec/ListNode.cc
index 18629d6..f3cad3f 100644
--- a/src/exec/ListNode.cc
+++ b/src/exec/ListNode.cc
@@ -361,6 +361,11 @@ namespace PLEXIL
 
     debugMsg("ListNode:cleanUpNodeBody", " for " << m_nodeId);
 
+    // Clean up all bodies before deleting any child, and only after all
+    // conditions are gone - a condition may refer to a grandchild
+    for (NodeImplPtr &child : m_children)
+      child->cleanUpNodeBody();
+
     // Delete children
     for (NodeImplPtr &child : m_children)
       delete (Node*) child.release();
@@ -373,8 +378,6 @@ namespace PLEXIL
     debugMsg("ListNode:cleanUpChildConditions", " for " << m_nodeId);
     for (NodeImplPtr &child : m_children)
       child->cleanUpConditions();
-    for (NodeImplPtr &child : m_children)
-      child->cleanUpNodeBody();
   }
 
   NodeImpl const *ListNode::findChild(char const *childName) const
-- 
2.43.0


From 88ee5c4646a995cac97ca51742ddc64898650222 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 12/74] fix: a node leaving the pending queue keeps the queue
 status of its new queue

---
 src/exec/PlexilExec.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index aefeda2..219cef8 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -493,12 +493,14 @@ namespace PLEXIL
         if (!node->getDestState()) {
           // No longer transitioning at all - remove from pending queue
           removePendingNode(node);
+          return false;
         }
         else if (node->getNextState() != EXECUTING_STATE) {
           // Now transitioning to some other state
           // Remove from pending queue and add to state change queue
           removePendingNode(node);
           addStateChangeNode(node);
+          return false;
         }
         // else still eligible to transition to EXECUTING,
         // but resources not available
-- 
2.43.0


From 26cf0b1a7ac3812c8af10536397212ac07146cd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:31:16 +0000
Subject: [PATCH 13/74] fix: do not follow a node into another queue while
 traversing the pending queue

---
 src/exec/PlexilExec.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index 219cef8..f40bba9 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -558,10 +558,12 @@ namespace PLEXIL
 
         Node *temp = priorityHead;
         do {
+          // Get successor first, as the check may move the node to another queue
+          Node *next = temp->next();
           if (resourceCheckEligible(temp)) 
             // Resource(s) were released, give it a look
             priorityNodes.push_back(temp);
-          temp = temp->next();
+          temp = next;
         } while (temp && temp->getPriority() == thisPriority);
 
         // temp is at end of queue,
-- 
2.43.0


From 3cc2a2a396eb045777deb4d941b4fc83ae76fe62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:05 +0000
Subject: [PATCH 14/74] fix: consider a pending node again whenever it has been
 notified

---
 src/exec/NodeImpl.cc   | 30 ++++++++++++++++--------------
 src/exec/PlexilExec.cc | 15 +++++++++++++--
 2 files changed, 29 insertions(+), 16 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 87d8b75..889f5ac 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -641,10 +641,13 @@ namespace PLEXIL
   bool NodeImpl::tryResourceAcquisition()
   {
     bool success = true;
+
+    // See if everything needed is available before acquiring anything:
+    // releasing what was acquired in vain would notify the other waiting nodes.
     if (m_usingMutexes) {
       for (Mutex *m : *m_usingMutexes) {
-        success = m->acquire(this);
-        if (!success) {
+        if (m->getHolder()) {
+          success = false;
           // Check for recursive acquisition on failure
           Node const *holder = dynamic_cast<Node const *>(m->getHolder());
           Node const *ancestor = this->getParent();
@@ -668,25 +671,24 @@ namespace PLEXIL
         success = var->acquire(this);
       }
       else {
-        // Acquiring other resources failed, so just queue up
+        // Other resources not available, so just queue up
         var->addWaitingNode(this);
       }
     }
-      
-    debugMsg("Node:tryResourceAcquisition",
-             ' ' << m_nodeId << ' ' << this
-             << (success ? " succeeded" : " failed"));
 
-    if (!success) {
-      // If we couldn't get all the resources, release the resources we got
-      if (m_usingMutexes) {
-        for (Mutex *m : *m_usingMutexes) {
-          if (this == dynamic_cast<Node const *>(m->getHolder()))
-            m->release(this);
+    if (m_usingMutexes) {
+      for (Mutex *m : *m_usingMutexes) {
+        if (success)
+          m->acquire(this);
+        else
           m->addWaitingNode(this); // no harm if already there
-        }
       }
     }
+
+    debugMsg("Node:tryResourceAcquisition",
+             ' ' << m_nodeId << ' ' << this
+             << (success ? " succeeded" : " failed"));
+
     return success;
   }
 
diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index f40bba9..7f9bb6d 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -240,7 +240,7 @@ namespace PLEXIL
     //! \return True if the Exec needs to be stepped, false otherwise.
     virtual bool needsStep() const override
     {
-      return !m_candidateQueue.empty();
+      return !m_candidateQueue.empty() || pendingNodeNeedsCheck();
     }
 
     //! \brief Run a single "macro step" i.e. the entire quiescence cycle.
@@ -377,7 +377,7 @@ namespace PLEXIL
              && m_assignmentsToRetract.empty()
              && m_commandsToExecute.empty()
              && m_commandsToAbort.empty()
-             && !m_candidateQueue.empty());
+             && needsStep());
       // END QUIESCENCE LOOP
 
       // Perform side effects
@@ -479,6 +479,17 @@ namespace PLEXIL
       return node->acquiresResources();
     }
 
+    //! \brief Check whether any node on the pending queue has been notified
+    //!        since it was last considered.
+    //! \return True if some node should be considered again, false otherwise.
+    bool pendingNodeNeedsCheck() const
+    {
+      for (Node *n = m_pendingQueue.front(); n; n = n->next())
+        if (n->getQueueStatus() != QUEUE_PENDING)
+          return true;
+      return false;
+    }
+
     //! \brief Check whether a node on the pending queue should attempt to acquire resources.
     //!        Remove from pending queue if no longer eligible to execute.
     //!        Add to the state change queue if should transition to some other state.
-- 
2.43.0


From 635b41f021eee8797afa9203c66c4793c3b7e874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 15/74] fix: release the mutexes of a node which goes from
 FAILING to FINISHED

---
 src/exec/NodeImpl.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 889f5ac..ba9df5c 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1378,8 +1378,8 @@ namespace PLEXIL
   // Wrapped by AssignmentNode
   void NodeImpl::transitionToFinished()
   {
-    // If transitioning from FAILING,, Release any mutexes held by this node
-    if (m_usingMutexes && m_state == WAITING_STATE) {
+    // If transitioning from FAILING, release any mutexes held by this node
+    if (m_usingMutexes && m_state == FAILING_STATE) {
       for (Mutex *m : *m_usingMutexes)
         m->release(this);
     }
-- 
2.43.0


From 2dc9a380cab8739df79a4bf0b7f22bab2ccc58d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 16/74] fix: activate the exit condition of a command node only
 once per iteration

---
 src/exec/CommandNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec/CommandNode.cc b/src/exec/CommandNode.cc
index cf52343..d225de4 100644
--- a/src/exec/CommandNode.cc
+++ b/src/exec/CommandNode.cc
@@ -202,7 +202,7 @@ namespace PLEXIL
     activateLocalVariables();
 
     activateInvariantCondition();
-    activateExitCondition();
+    // N.B. Exit condition is already active, see NodeImpl::transitionToWaiting()
     activateEndCondition();
   }
 
-- 
2.43.0


From f4b2d32009372bbc2791c24e8100b7061dd2cb8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:39 +0000
Subject: [PATCH 17/74] fix: check a node waiting for a resource again when its
 pre-condition changes

---
 src/exec/NodeImpl.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index ba9df5c..9936d71 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -356,8 +356,10 @@ namespace PLEXIL
       switch (condIdx) {
 
       case postIdx:
-      case preIdx:
-        break; // these conditions don't need listeners
+        break; // this condition doesn't need a listener
+
+        // N.B. The pre-condition does need one: it can change
+        // while the node is waiting for a mutex or variable.
 
       default:
         if (m_conditions[condIdx])
-- 
2.43.0


From 262c277b3b6e992ed02a10e0eaaf2df41c138b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:33:49 +0000
Subject: [PATCH 18/74] fix: heed an abort acknowledgement only after the abort
 has been requested

---
 src/exec/CommandNode.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/exec/CommandNode.cc b/src/exec/CommandNode.cc
index d225de4..0728176 100644
--- a/src/exec/CommandNode.cc
+++ b/src/exec/CommandNode.cc
@@ -458,6 +458,8 @@ namespace PLEXIL
   void CommandNode::transitionToFailing(PlexilExec *exec)
   {
     activateAbortCompleteCondition();
+    // Forget any acknowledgement received before the abort was requested
+    m_command->acknowledgeAbort(false);
     exec->enqueueAbortCommand(m_command.get());
   }
 
-- 
2.43.0


From 7be6810a47c860c57e43bc3ed1fe8e8588be1cb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:14 +0000
Subject: [PATCH 19/74] fix: forget the command handle when a command node is
 reset

---
 src/exec/CommandNode.cc  | 5 +++++
 src/exec/CommandNode.hh  | 3 +++
 src/exec/NodeImpl.cc     | 7 +++++++
 src/exec/NodeImpl.hh     | 3 +++
 src/intfc/CommandImpl.cc | 8 ++++++++
 src/intfc/CommandImpl.hh | 3 +++
 6 files changed, 29 insertions(+)

diff --git a/src/exec/CommandNode.cc b/src/exec/CommandNode.cc
index 0728176..46d8488 100644
--- a/src/exec/CommandNode.cc
+++ b/src/exec/CommandNode.cc
@@ -531,6 +531,11 @@ namespace PLEXIL
     exec->enqueueCommand(m_command.get());
   }
 
+  void CommandNode::specializedReset()
+  {
+    m_command->resetCommandHandle();
+  }
+
   void CommandNode::specializedDeactivateExecutable(PlexilExec *exec)
   {
     assertTrue_1(m_command);
diff --git a/src/exec/CommandNode.hh b/src/exec/CommandNode.hh
index 950ed27..e6fa793 100644
--- a/src/exec/CommandNode.hh
+++ b/src/exec/CommandNode.hh
@@ -93,6 +93,9 @@ namespace PLEXIL
     //! \brief Perform deactivations appropriate to the node type.
     virtual void specializedDeactivateExecutable(PlexilExec *exec) override;
 
+    //! \brief Perform reset actions appropriate to the node type.
+    virtual void specializedReset() override;
+
     //! \brief Determine the destination state from EXECUTING.
     //! \return True if the new destination state differs from last check; false otherwise.
     virtual bool getDestStateFromExecuting() override;
diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 9936d71..ab0f1e5 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1861,6 +1861,13 @@ namespace PLEXIL
     //reset outcome and failure type
     m_outcome = NO_OUTCOME;
     m_failureType = NO_FAILURE;
+
+    specializedReset();
+  }
+
+  // Default method
+  void NodeImpl::specializedReset()
+  {
   }
 
   // Common method
diff --git a/src/exec/NodeImpl.hh b/src/exec/NodeImpl.hh
index f1d1147..b652aca 100644
--- a/src/exec/NodeImpl.hh
+++ b/src/exec/NodeImpl.hh
@@ -694,6 +694,9 @@ namespace PLEXIL
     //! \param exec Pointer to the PlexilExec.
     virtual void specializedDeactivateExecutable(PlexilExec *exec);
 
+    //! \brief Perform any specialized reset actions required by the node type.
+    virtual void specializedReset();
+
     //
     // State transition implementation methods
     //
diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 6ca5d64..744ad2d 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -475,6 +475,14 @@ namespace PLEXIL
     m_ack.publishChange();
   }
 
+  void CommandImpl::resetCommandHandle()
+  {
+    if (m_commandHandle == NO_COMMAND_HANDLE)
+      return;
+    m_commandHandle = NO_COMMAND_HANDLE;
+    m_ack.publishChange();
+  }
+
   void CommandImpl::returnValue(Value const &val)
   {
     if (!m_active || !m_dest)
diff --git a/src/intfc/CommandImpl.hh b/src/intfc/CommandImpl.hh
index 4562b9f..97f8529 100644
--- a/src/intfc/CommandImpl.hh
+++ b/src/intfc/CommandImpl.hh
@@ -299,6 +299,9 @@ namespace PLEXIL
     //! \param handle The return value.
     void setCommandHandle(CommandHandleValue handle);
 
+    //! \brief Forget the command handle of the previous execution.
+    void resetCommandHandle();
+
     //! \brief Receive acknowledgement of a command abort from the
     //!        external interface.
     //! \param ack The acknowledgement value; true indicates
-- 
2.43.0


From 31fdda916cb5ada0c4b504bb46de079396977622 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 20/74] fix: accept a Real tolerance in an Integer valued
 change lookup

---
 src/intfc/Lookup.cc | 31 ++++++++++++++++++++++++++++---
 1 file changed, 28 insertions(+), 3 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index cad5036..f8071f5 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -35,7 +35,8 @@
 #include "StateCache.hh"
 #include "ValueType.hh"
 
-#include <cmath>  // fabs()
+#include <cmath>  // ceil(), fabs()
+#include <cstdint> // INT32_MAX
 #include <memory>
 
 namespace PLEXIL
@@ -579,6 +580,30 @@ namespace PLEXIL
 
   };
 
+  //! \brief Get the value of a tolerance expression.
+  //! \param tolerance The tolerance expression.
+  //! \param result Place to store the result.
+  //! \return true if the value is known, false if not.
+  static bool getToleranceValue(Expression const *tolerance, Real &result)
+  {
+    return tolerance->getValue(result);
+  }
+
+  //! \note The tolerance of an Integer lookup may be Real.
+  static bool getToleranceValue(Expression const *tolerance, Integer &result)
+  {
+    if (tolerance->valueType() == INTEGER_TYPE)
+      return tolerance->getValue(result);
+    Real temp;
+    if (!tolerance->getValue(temp))
+      return false;
+    temp = ceil(fabs(temp)); // an Integer changes by this much if it changes enough
+    if (temp > (Real) INT32_MAX)
+      temp = (Real) INT32_MAX;
+    result = (Integer) temp;
+    return true;
+  }
+
   //! \class ThresholdCacheImpl
   //! \brief Implementation class for Lookup threshold caching,
   //!        templated by value type of the threshold.
@@ -605,7 +630,7 @@ namespace PLEXIL
     {
       check_error_1(tolerance); // paranoid check
       NUM newTol;
-      if (tolerance->getValue(newTol)) {
+      if (getToleranceValue(tolerance, newTol)) {
         if (newTol < 0)
           newTol = -newTol;
         debugMsg("ThresholdCache:toleranceChanged",
@@ -633,7 +658,7 @@ namespace PLEXIL
       debugMsg("ThresholdCache:setThresholds", " entered");
       check_error_1(value); // paranoid check
       NUM base, tol;
-      if (tolerance->getValue(tol)) {
+      if (getToleranceValue(tolerance, tol)) {
         if (tol < 0)
           tol = -tol;
         debugMsg("ThresholdCache:setThresholds", " tolerance is " << tol);
-- 
2.43.0


From e76279c621e9fcd331339f2a683fe412ab0b58fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 21/74] fix: an Integer valued change lookup reports a value
 which was unknown before

---
 src/intfc/Lookup.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index f8071f5..d366d30 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -703,7 +703,7 @@ namespace PLEXIL
   {
     Integer currentValue;
     if (value->getValue(currentValue))
-      return (currentValue >= m_high) || (currentValue <= m_low);
+      return !m_wasKnown || (currentValue >= m_high) || (currentValue <= m_low);
     // Current value is unknown
     return m_wasKnown; 
   }
-- 
2.43.0


From 48bef5af8bac0ba535d6b92644fe855472fd9240 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 22/74] fix: a change lookup has no thresholds while its value
 is unknown

---
 src/intfc/Lookup.cc | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index d366d30..e0b59f8 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -563,18 +563,21 @@ namespace PLEXIL
     //! \brief Get the current thresholds.
     //! \param high Place to store the current high threshold.
     //! \param low Place to store the current low threshold.
+    //! \return true if there are thresholds, false if the last value was unknown.
     //! \note Default methods report an error.
     ///@{
-    virtual void getThresholds(Integer & /* high */, Integer & /* low */) const
+    virtual bool getThresholds(Integer & /* high */, Integer & /* low */) const
     {
       errorMsg("LookupOnChange:getThresholds: "
                "attempt to get Integer thresholds from non-Integer Lookup");
+      return false;
     }
 
-    virtual void getThresholds(Real & /* high */, Real & /* low */) const
+    virtual bool getThresholds(Real & /* high */, Real & /* low */) const
     {
       errorMsg("LookupOnChange:getThresholds: "
                "attempt to get Real thresholds from non-Real Lookup");
+      return false;
     }
     ///@}
 
@@ -681,10 +684,13 @@ namespace PLEXIL
       }
     }
 
-    virtual void getThresholds(NUM &high, NUM &low) const override
+    virtual bool getThresholds(NUM &high, NUM &low) const override
     {
+      if (!m_wasKnown)
+        return false;
       high = m_high;
       low = m_low;
+      return true;
     }
 
   private:
@@ -870,11 +876,7 @@ namespace PLEXIL
       }
       assertTrueMsg(valueType() == INTEGER_TYPE,
                     "getThresholds: calling Integer method on non-Integer lookup");
-      debugMsg("LookupOnChange:getThresholds",
-               ' ' << m_cachedState << ": thresholds are ["
-               << low << ", " << high << "], returning true");
-      m_thresholds->getThresholds(high, low);
-      return true;
+      return m_thresholds->getThresholds(high, low);
     }
 
     virtual bool getThresholds(Real &high, Real &low) const override
@@ -891,11 +893,7 @@ namespace PLEXIL
       }
       assertTrueMsg(valueType() == REAL_TYPE,
                     "getThresholds: calling Real method on non-Real lookup");
-      m_thresholds->getThresholds(high, low);
-      debugMsg("LookupOnChange:getThresholds",
-               ' ' << m_cachedState << ": thresholds are ["
-               << low << ", " << high << "], returning true");
-      return true;
+      return m_thresholds->getThresholds(high, low);
     }
     ///@}
 
-- 
2.43.0


From ddf812eb7101aaffe6ecf08dc152e565d5681eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 23/74] fix: tell the interface the new thresholds when the
 tolerance changes

---
 src/intfc/Lookup.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index e0b59f8..2029e25 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1058,6 +1058,7 @@ namespace PLEXIL
                      ' ' << this->m_cachedState
                      << " tolerance changed, updating thresholds");
             m_thresholds->setThresholds(m_cachedValue.get(), m_tolerance);
+            m_entry->updateThresholds(m_cachedState);
           }
 
           // Has the (possibly updated) threshold been exceeded?
-- 
2.43.0


From 3ba3b179d73699faecf1f867197a1c35a4ceeb8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 24/74] fix: notify listeners when a change lookup loses its
 tolerance

---
 src/intfc/Lookup.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index 2029e25..cdd1363 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1089,7 +1089,7 @@ namespace PLEXIL
           m_cachedValue.reset();
           // Tell the cache entry about it
           m_entry->updateThresholds(m_cachedState);
-          return valueChanged; // ??
+          return true; // from now on the value is that in the state cache
         }
       }
       else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()) {
-- 
2.43.0


From 0dc0bf02af91c4e0fb07b8072fde81b57cd9d249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:38:49 +0000
Subject: [PATCH 25/74] fix: clear the thresholds when the last lookup of a
 state goes away

---
 src/intfc/StateCacheEntry.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/intfc/StateCacheEntry.cc b/src/intfc/StateCacheEntry.cc
index b94e5ba..3431761 100644
--- a/src/intfc/StateCacheEntry.cc
+++ b/src/intfc/StateCacheEntry.cc
@@ -133,6 +133,7 @@ namespace PLEXIL
         if (m_lowThreshold || m_highThreshold) {
           m_lowThreshold.reset();
           m_highThreshold.reset();
+          g_dispatcher->clearThresholds(state);
         }
       }
       else if (m_lowThreshold || m_highThreshold) {
-- 
2.43.0


From c05c704b22b4c6e7e909d83fddb7f7ddc9fd59b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 26/74] fix: leave no node of a deleted plan in the queues of
 the exec

---
 src/exec/PlexilExec.cc | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index 7f9bb6d..7090028 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -228,6 +228,7 @@ namespace PLEXIL
         m_finishedRootNodes.pop();
         debugMsg("PlexilExec:deleteFinishedPlans",
                  " deleting node " << node->getNodeId() << ' ' << node);
+        removePlanFromQueues(node);
         m_plan.remove_if([node] (NodePtr const &n) -> bool
                          { return node == n.get(); });
       }
@@ -770,6 +771,23 @@ namespace PLEXIL
       node->releaseResourceReservations();
     }
 
+    //! \brief Remove all the nodes of a plan which is about to be deleted
+    //!        from the candidate and pending queues.
+    //! \param root Pointer to the plan's root node.
+    void removePlanFromQueues(Node const *root)
+    {
+      auto inPlan = [root] (Node const *n) -> bool
+                    {
+                      while (n->getParent())
+                        n = n->getParent();
+                      return n == root;
+                    };
+      while (Node *n = m_candidateQueue.remove_if(inPlan))
+        n->setQueueStatus(QUEUE_NONE);
+      while (Node *n = m_pendingQueue.find_if(inPlan))
+        removePendingNode(n);
+    }
+
     //! \brief Get the first node in the finished root node queue, if any.
     //! \return Pointer to the first such node, or nullptr if queue is empty.
     Node *getFinishedRootNode()
-- 
2.43.0


From a6f87d8a73c99bf3a31fb6ce02781416cf5f8363 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:50 +0000
Subject: [PATCH 27/74] fix: do not report all plans finished before any plan
 was run

---
 src/exec/PlexilExec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/exec/PlexilExec.cc b/src/exec/PlexilExec.cc
index 7090028..a735fba 100644
--- a/src/exec/PlexilExec.cc
+++ b/src/exec/PlexilExec.cc
@@ -231,8 +231,8 @@ namespace PLEXIL
         removePlanFromQueues(node);
         m_plan.remove_if([node] (NodePtr const &n) -> bool
                          { return node == n.get(); });
+        m_finishedRootNodesDeleted = true;
       }
-      m_finishedRootNodesDeleted = true;
       debugMsg("PlexilExec:deleteFinishedPlans",
                " now " << m_plan.size() << " root nodes");
     }
-- 
2.43.0


From efbb514e99774d7fd81f80342c01b4b3a09b6555 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:53 +0000
Subject: [PATCH 28/74] fix: refuse a plan which assigns to an element of a
 read-only array

---
 src/xml-parser/ArrayReferenceFactory.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/ArrayReferenceFactory.cc b/src/xml-parser/ArrayReferenceFactory.cc
index 7171123..b0b7fbe 100644
--- a/src/xml-parser/ArrayReferenceFactory.cc
+++ b/src/xml-parser/ArrayReferenceFactory.cc
@@ -186,6 +186,7 @@ namespace PLEXIL
         delete arrayExpr;
       if (indexCreated)
         delete indexExpr;
+      throw;
     }
 
     wasCreated = true;
-- 
2.43.0


From 43733bfdf902da7e00e14901cf98e35a2e4756eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:54 +0000
Subject: [PATCH 29/74] fix: accept a default initial value for an InOut array

---
 src/xml-parser/parseNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 9e8b280..eb3e819 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -1210,7 +1210,7 @@ namespace PLEXIL
       // Parse and check initial value expression
       bool initGarbage, garbage;
       Expression *initExp = parseVariableInitializer(initGarbage, node, inOutXml, isCall);
-      Expression *var = createAssignable(inOutXml, node, garbage);
+      Expression *var = createExpression(inOutXml, node, garbage);
       assertTrue_1(garbage); // better be something we can delete!
       if (!node->addLocalVariable(name, var)) {
         delete var;
-- 
2.43.0


From 649110ab998b91cc71b8701a2f8280e6d893aee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:47:20 +0000
Subject: [PATCH 30/74] fix: an element of an array can be passed as InOut
 parameter of a library node

---
 src/xml-parser/parseLibraryCall.cc | 25 +++++++++++++++++++++----
 1 file changed, 21 insertions(+), 4 deletions(-)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index 629cc5c..14f08d6 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -24,6 +24,7 @@
 * USE OF THIS SOFTWARE, EVEN IF ADVISED OF THE POSSIBILITY OF SUCH DAMAGE.
 */
 
+#include "Assignable.hh"
 #include "createExpression.hh"
 #include "Debug.hh"
 #include "LibraryCallNode.hh"
@@ -139,8 +140,19 @@ namespace PLEXIL
     node->addChild(constructPlan(l->doc->document_element(), l->symtab, node));
   }
 
+  // Is the variable named an InOut variable of the called node?
+  static bool isInOut(xml_node const calleeXml, char const *name)
+  {
+    for (xml_node decl : calleeXml.child(INTERFACE_TAG).child(INOUT_TAG).children())
+      if (!strcmp(name, decl.child_value(NAME_TAG)))
+        return true;
+    return false;
+  }
+
   // Second pass
-  static void finalizeAliases(LibraryCallNode *node, xml_node const callXml)
+  static void finalizeAliases(LibraryCallNode *node,
+                              xml_node const callXml,
+                              xml_node const calleeXml)
   {
     debugMsg("finalizeAliases", " caller " << node->getNodeId());
     // Skip over NodeId
@@ -151,7 +163,12 @@ namespace PLEXIL
              
       // Add the alias
       bool isGarbage = false;
-      Expression *exp = createExpression(nameXml.next_sibling(), node, isGarbage);
+      Expression *exp = nullptr;
+      if (isInOut(calleeXml, nameXml.child_value()))
+        // Caller must supply something which can be assigned
+        exp = createAssignable(nameXml.next_sibling(), node, isGarbage);
+      else
+        exp = createExpression(nameXml.next_sibling(), node, isGarbage);
       node->addAlias(nameXml.child_value(), exp, isGarbage);
     }
   }
@@ -162,13 +179,13 @@ namespace PLEXIL
     assertTrue_1(node);
     debugMsg("finalizeLibraryCall", " caller " << node->getNodeId());
 
-    finalizeAliases(node, callXml);
-
     Library const *l = getLibraryNode(callXml.first_child().child_value());
     assertTrue_2(l,
                  "finalizeLibraryCall: Internal error: can't find library");
     xml_node const calleeXml = l->doc->document_element().child(NODE_TAG);
 
+    finalizeAliases(node, callXml, calleeXml);
+
     // should never happen, but...
     assertTrue_2(!node->getChildren().empty(),
                  "finalizeLibraryCall: Internal error: LibraryNodeCall node missing called node");
-- 
2.43.0


From 497c8f79386a1ee65d04271a9d3cc0145d69d017 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 31/74] fix: a resource named in a command's request overrides
 its weight in the hierarchy

std::set::insert does not replace an equivalent element.
---
 src/intfc/ResourceArbiterInterface.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/intfc/ResourceArbiterInterface.cc b/src/intfc/ResourceArbiterInterface.cc
index 503812a..7a77921 100644
--- a/src/intfc/ResourceArbiterInterface.cc
+++ b/src/intfc/ResourceArbiterInterface.cc
@@ -316,7 +316,10 @@ namespace PLEXIL
         // of the flattened vector. This means that if a resource value
         // has to be overwritten it has to be explicitly scpecified in the 
         // plan
+      {
+        resourcesNeeded.erase(fres);
         resourcesNeeded.insert(fres);
+      }
     }
   }
 
-- 
2.43.0


From 41c587ada3e7ca011714aeb4163e1ec1ce2f062c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:49 +0000
Subject: [PATCH 32/74] fix: a pending node may be notified more than once

notify() did not know QUEUE_PENDING_TRY_CHECK and aborted with an
'invalid queue state' error.
---
 src/exec/NodeImpl.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index ab0f1e5..03e80ee 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -610,6 +610,9 @@ namespace PLEXIL
     case QUEUE_PENDING_CHECK:     // already a candidate, silently ignore
       return;
 
+    case QUEUE_PENDING_TRY_CHECK: // already a candidate, silently ignore
+      return;
+
     case QUEUE_TRANSITION_CHECK:  // already a candidate, silently ignore
       return;
 
-- 
2.43.0


From 441817db1bf06cb5a71934f81555baeabe1ef28c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:01 +0000
Subject: [PATCH 33/74] fix: a node does not repeat once its parent has stopped
 executing

If the condition which made the parent stop changed back, a child could
start another iteration, outlive its parent, and make the exec abort on an
inactive ancestor condition.
---
 src/exec/NodeImpl.cc | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 03e80ee..78d6cbf 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1321,6 +1321,17 @@ namespace PLEXIL
       }
     }
 
+    // The ancestor condition which made the parent stop may have changed since.
+    // A new iteration must not outlive the parent's.
+    if (m_parent && m_parent->getState() != EXECUTING_STATE) {
+      debugMsg("Node:getDestState",
+               ' ' << m_nodeId << ' ' << this << ' ' << nodeStateName(m_state)
+               << " -> FINISHED. Parent is no longer EXECUTING.");
+      m_nextState = FINISHED_STATE;
+      // outcome, failure type already set
+      return true;
+    }
+
     if ((cond = getRepeatCondition())) {
       if (!cond->getValue(temp)) {
         checkError(cond->isActive(),
-- 
2.43.0


From c734cc289d60472e6604de2339dbf02bb8f714c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:18 +0000
Subject: [PATCH 34/74] fix: give back the resources of a command the external
 system denied

---
 src/intfc/CommandImpl.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 744ad2d..602458e 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -503,7 +503,9 @@ namespace PLEXIL
     check_error_1(m_active);
     m_active = false;
 
-    if (m_commandHandle != COMMAND_DENIED && arbiter) // handle unit tests
+    // A command the arbiter refused holds nothing; one it granted may still
+    // have been denied by the external system.
+    if (arbiter) // handle unit tests
       arbiter->releaseResourcesForCommand(this);
 
     m_abortComplete.deactivate();
-- 
2.43.0


From 726af89294de39d9467efa91a51a2fcce847e1dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:12 +0000
Subject: [PATCH 35/74] fix: release the mutexes of an empty node which goes
 from EXECUTING to FINISHED

---
 src/exec/NodeImpl.cc | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/exec/NodeImpl.cc b/src/exec/NodeImpl.cc
index 78d6cbf..e21f9d2 100644
--- a/src/exec/NodeImpl.cc
+++ b/src/exec/NodeImpl.cc
@@ -1394,8 +1394,10 @@ namespace PLEXIL
   // Wrapped by AssignmentNode
   void NodeImpl::transitionToFinished()
   {
-    // If transitioning from FAILING, release any mutexes held by this node
-    if (m_usingMutexes && m_state == FAILING_STATE) {
+    // If transitioning from FAILING, or directly from EXECUTING,
+    // release any mutexes held by this node
+    if (m_usingMutexes
+        && (m_state == FAILING_STATE || m_state == EXECUTING_STATE)) {
       for (Mutex *m : *m_usingMutexes)
         m->release(this);
     }
-- 
2.43.0


From 56d7d57bcfb506ec46e15086127d50c999a96259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:31 +0000
Subject: [PATCH 36/74] fix: unknown elements of arrays are equal whatever they
 held before

---
 src/value/ArrayImpl.cc | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/value/ArrayImpl.cc b/src/value/ArrayImpl.cc
index f3bf677..5a9074d 100644
--- a/src/value/ArrayImpl.cc
+++ b/src/value/ArrayImpl.cc
@@ -304,19 +304,32 @@ namespace PLEXIL
   }
 
   // Specific equality
+
+  // The contents of an unknown element are garbage, don't compare them.
+  template <typename T>
+  static bool knownElementsEqual(std::vector<bool> const &known,
+                                 std::vector<T> const &avec,
+                                 std::vector<T> const &bvec)
+  {
+    for (size_t i = 0; i < known.size(); ++i)
+      if (known[i] && avec[i] != bvec[i])
+        return false;
+    return true;
+  }
+
   template <typename T>
   bool ArrayImpl<T>::operator==(ArrayImpl<T> const &other) const
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    return knownElementsEqual(this->getKnownVector(), m_contents, other.m_contents);
   }
 
   bool ArrayImpl<String>::operator==(ArrayImpl<String> const &other) const
   {
     if (!(this->getKnownVector() == other.getKnownVector()))
       return false;
-    return m_contents == other.m_contents;
+    return knownElementsEqual(this->getKnownVector(), m_contents, other.m_contents);
   }
 
   template <typename T>
@@ -425,7 +438,7 @@ namespace PLEXIL
     std::vector<T> const *avec, *bvec;
     arya.getContentsVector(avec);
     aryb.getContentsVector(bvec);
-    return *avec == *bvec;
+    return knownElementsEqual(arya.getKnownVector(), *avec, *bvec);
   }
 
   // Generic
-- 
2.43.0


From 583f267e8e68bede88f013d89efaffd962a6bdaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 37/74] fix: refuse a child node with the same NodeId as its
 parent

checkChildNodes compared the addresses of the names.
---
 src/xml-parser/parseNode.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index eb3e819..86c9de4 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -381,7 +381,7 @@ namespace PLEXIL
 
       // Check that parent and child don't have same name
       char const *kidId = kidXml.child_value(NODEID_TAG);
-      checkParserExceptionWithLocation(parentId != kidId,
+      checkParserExceptionWithLocation(strcmp(parentId, kidId),
                                        kidXml,
                                        "List Node " << parentId
                                        << " has a child node with the same NodeId");
-- 
2.43.0


From 562ea2a4be716e4dc982b66f72f8ffe8ad393fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 38/74] fix: check the body elements of Command and NodeList
 nodes

A NodeBody of another kind was taken for the one the node type calls for.
---
 src/xml-parser/PlexilSchema.hh     | 1 +
 src/xml-parser/commandXmlParser.cc | 1 +
 src/xml-parser/parseNode.cc        | 1 +
 3 files changed, 3 insertions(+)

diff --git a/src/xml-parser/PlexilSchema.hh b/src/xml-parser/PlexilSchema.hh
index 9cf7705..144066b 100644
--- a/src/xml-parser/PlexilSchema.hh
+++ b/src/xml-parser/PlexilSchema.hh
@@ -35,6 +35,7 @@ namespace PLEXIL
   constexpr char const COL_NO_ATTR[] = "ColNo";
 
   constexpr char const GLOBAL_DECLARATIONS_TAG[] = "GlobalDeclarations";
+  constexpr char const COMMAND_TAG[] = "Command";
   constexpr char const COMMAND_DECLARATION_TAG[] = "CommandDeclaration";
   constexpr char const RETURN_TAG[] = "Return";
   constexpr char const PARAMETER_TAG[] = "Parameter";
diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index bd51465..bf8c909 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -194,6 +194,7 @@ namespace PLEXIL
   // First pass: XML checks
   void checkCommandBody(char const *nodeId, pugi::xml_node const cmdXml)
   {
+    checkTag(COMMAND_TAG, cmdXml);
     checkHasChildElement(cmdXml);
     xml_node temp = cmdXml.first_child();
 
diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 86c9de4..29ba80a 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -373,6 +373,7 @@ namespace PLEXIL
 
   static void checkChildNodes(char const *parentId, xml_node const kidsXml)
   {
+    checkTag(NODELIST_TAG, kidsXml);
     std::vector<char const *> nodeIds;
     xml_node kidXml = kidsXml.first_child();
     while (kidXml) { // empty list node is legal
-- 
2.43.0


From 5148c394b75feed67fbf124f3fef5bb6ef981837 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 39/74] fix: check the expressions of library node aliases

Errors in them were only met when the expression was constructed, where some fail an assertion.
---
 src/xml-parser/parseLibraryCall.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index 14f08d6..ebfed91 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -85,6 +85,7 @@ namespace PLEXIL
                                      "Alias for \"" << name
                                      << "\" has malformed value expression in LibraryNodeCall node " 
                                      << callerId);
+    checkExpression(callerId.c_str(), temp); // for effect
   }
 
   void checkLibraryCall(char const *callerId, xml_node const callXml)
-- 
2.43.0


From 71fe9345c788aae23966ac933bebc836d55b18cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 40/74] fix: refuse library nodes which call themselves

Their expansion never ended.
---
 src/xml-parser/parseLibraryCall.cc | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/xml-parser/parseLibraryCall.cc b/src/xml-parser/parseLibraryCall.cc
index ebfed91..45d0ae3 100644
--- a/src/xml-parser/parseLibraryCall.cc
+++ b/src/xml-parser/parseLibraryCall.cc
@@ -136,6 +136,19 @@ namespace PLEXIL
                                      << callXml.first_child().child_value()
                                      << " not found while expanding LibraryNodeCall node "
                                      << node->getNodeId());
+    // Check for a library node which calls itself, directly or otherwise
+    char const *calleeId = l->doc->document_element().child(NODE_TAG).child_value(NODEID_TAG);
+    for (NodeImpl *n = node; n; n = n->getParentNode()) {
+      NodeImpl const *caller = n->getParentNode();
+      checkParserExceptionWithLocation(!caller
+                                       || caller->getType() != NodeType_LibraryNodeCall
+                                       || n->getNodeId() != calleeId,
+                                       callXml,
+                                       "Library node " << calleeId
+                                       << " calls itself in LibraryNodeCall node "
+                                       << node->getNodeId());
+    }
+
     // Construct call
     // Template was checked before it was added to library
     node->addChild(constructPlan(l->doc->document_element(), l->symtab, node));
-- 
2.43.0


From 9021419d2f8e9ee06a88b1aca79013adba07a897 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 41/74] fix: check the argument count of a Command without
 Arguments

A declared command which has parameters was accepted without any.
---
 src/xml-parser/commandXmlParser.cc | 28 ++++++++++++++--------------
 1 file changed, 14 insertions(+), 14 deletions(-)

diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index bf8c909..c6b69c8 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -384,21 +384,21 @@ namespace PLEXIL
 
     // Optional arguments
     temp = temp.next_sibling();
+    size_t n = 0;
+    xml_node arg;
+    for (arg = temp.first_child(); arg; arg = arg.next_sibling())
+      ++n;
+    if (cmdSym) {
+      // Check argument count against command declaration
+      checkParserExceptionWithLocation(n == cmdSym->parameterCount()
+                                       || (cmdSym->anyParameters() && n > cmdSym->parameterCount()),
+                                       cmdXml,
+                                       "Command " << cmdSym->name() << " expects "
+                                       << (cmdSym->anyParameters() ? "at least " : "")
+                                       << cmdSym->parameterCount() << " arguments, but was supplied "
+                                       << n);
+    }
     if (temp) {
-      size_t n = 0;
-      xml_node arg;
-      for (arg = temp.first_child(); arg; arg = arg.next_sibling())
-        ++n;
-      if (cmdSym) {
-        // Check argument count against command declaration
-        checkParserExceptionWithLocation(n == cmdSym->parameterCount()
-                                         || (cmdSym->anyParameters() && n > cmdSym->parameterCount()),
-                                         temp,
-                                         "Command " << cmdSym->name() << " expects "
-                                         << (cmdSym->anyParameters() ? "at least " : "")
-                                         << cmdSym->parameterCount() << " arguments, but was supplied "
-                                         << n);
-      }
       if (n) {
         ExprVec *argVec = makeExprVec(n);
         cmd->setArgumentVector(argVec);
-- 
2.43.0


From bf33fe792fff560085d69bef5211eec2acac268f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 42/74] fix: detect duplicate ResourceUpperBound and
 ResourceReleaseAtTermination

The record of having seen one did not outlast the element.
---
 src/xml-parser/commandXmlParser.cc | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/xml-parser/commandXmlParser.cc b/src/xml-parser/commandXmlParser.cc
index c6b69c8..9c486f3 100644
--- a/src/xml-parser/commandXmlParser.cc
+++ b/src/xml-parser/commandXmlParser.cc
@@ -47,7 +47,7 @@ namespace PLEXIL
   static void checkResource(char const *nodeId, xml_node const resourceElt)
   {
     checkTag(RESOURCE_TAG, resourceElt);
-    xml_node nameXml, prioXml;
+    xml_node nameXml, prioXml, upperBoundXml, releaseAtTermXml;
 
     // check the fields
     for (xml_node rtemp = resourceElt.first_child();
@@ -56,7 +56,6 @@ namespace PLEXIL
       ValueType tempType = UNKNOWN_TYPE;
       char const* tag = rtemp.name();
       size_t taglen = strlen(tag);
-      xml_node upperBoundXml, releaseAtTermXml;
       switch (taglen) {
       case 12: // ResourceName
         checkParserExceptionWithLocation(!strcmp(RESOURCE_NAME_TAG, tag),
-- 
2.43.0


From c5813c2d422d627eaf53a80a1304aa93515562bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 43/74] fix: check operand types when they are all known

References to arrays are of unknown type in the first pass, so that any
operator took them.  On errors the wrong operand was deleted, and the
message read past the end of the types of a single operand.
---
 src/xml-parser/OperationFactory.cc | 27 ++++++++++++++++++---------
 1 file changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/xml-parser/OperationFactory.cc b/src/xml-parser/OperationFactory.cc
index 681a6c5..223f40a 100644
--- a/src/xml-parser/OperationFactory.cc
+++ b/src/xml-parser/OperationFactory.cc
@@ -99,18 +99,27 @@ namespace PLEXIL
       }
       catch (ParserException & /* e */) {
         for (size_t j = 0; j < i; j++)
-          if (argCreated[i])
-            delete args[i];
+          if (argCreated[j])
+            delete args[j];
         throw;
       }
 
-      Operator const *oper = m_operation->getOperator(argTypes, desiredType);
-      checkParserExceptionWithLocation(oper,
-                                       expr,
-                                       "OperationFactory::allocate: no operator found for "
-                                       << m_operation->getName()
-                                       << "\n Arg types " << valueTypeName(argTypes[0])
-                                       << ", " << valueTypeName(argTypes[1]));
+      // Check again, as check() may not have known all of the types
+      Operator const *oper = nullptr;
+      if (m_operation->checkArgTypes(argTypes))
+        oper = m_operation->getOperator(argTypes, desiredType);
+      if (!oper) {
+        for (size_t j = 0; j < n; j++)
+          if (argCreated[j])
+            delete args[j];
+        std::string typeNames;
+        for (ValueType t : argTypes)
+          typeNames += ' ' + valueTypeName(t);
+        reportParserExceptionWithLocation(expr,
+                                          "OperationFactory::allocate: no operator found for "
+                                          << m_operation->getName()
+                                          << "\n Arg types" << typeNames);
+      }
       Function *result = m_operation->constructFunction(oper, n);
 
       for (size_t j = 0 ; j < n; ++j) {
-- 
2.43.0


From 10e94a91be6c242fa95db327c6f6ee87023c0f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:29 +0000
Subject: [PATCH 44/74] fix: compare a string with an expression of unknown
 type on either side

It was accepted with the string second, and refused with it first.
---
 src/xml-parser/Operations.cc | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/xml-parser/Operations.cc b/src/xml-parser/Operations.cc
index 3700a23..c128eae 100644
--- a/src/xml-parser/Operations.cc
+++ b/src/xml-parser/Operations.cc
@@ -662,6 +662,12 @@ namespace PLEXIL
       else
         return UNKNOWN_TYPE; // illegal
 
+    case STRING_TYPE:
+      if (typeB == UNKNOWN_TYPE)
+        return STRING_TYPE;
+      else
+        return UNKNOWN_TYPE; // illegal
+
     default:
       return UNKNOWN_TYPE;
     }
-- 
2.43.0


From eded2a06aafeafe59daf989cfe63f843c5cbf376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 45/74] fix: delete the plan when finalizing it fails

---
 src/xml-parser/parsePlan.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/xml-parser/parsePlan.cc b/src/xml-parser/parsePlan.cc
index 1d267ea..fb4b63f 100644
--- a/src/xml-parser/parsePlan.cc
+++ b/src/xml-parser/parsePlan.cc
@@ -141,6 +141,7 @@ namespace PLEXIL
     catch (...) {
       popSymbolTable();
       delete symtab;
+      delete result;
       throw;
     }
 
-- 
2.43.0


From 4a0b7195f601e2e6a24fe34248eed12139aae19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 46/74] fix: refuse extraneous elements in DeclareMutex

---
 src/xml-parser/parseGlobalDeclarations.cc | 5 +++++
 src/xml-parser/parseNode.cc               | 2 ++
 2 files changed, 7 insertions(+)

diff --git a/src/xml-parser/parseGlobalDeclarations.cc b/src/xml-parser/parseGlobalDeclarations.cc
index c48797f..7dbcd18 100644
--- a/src/xml-parser/parseGlobalDeclarations.cc
+++ b/src/xml-parser/parseGlobalDeclarations.cc
@@ -266,6 +266,11 @@ namespace PLEXIL
     checkParserExceptionWithLocation(name && *name,
                                      elt,
                                      declXml.name() << " " << NAME_TAG << " is empty");
+    elt = elt.next_sibling();
+    checkParserExceptionWithLocation(!elt,
+                                     elt,
+                                     "Unexpected element " << elt.name()
+                                     << " in " << declXml.name() << " " << name);
   }
 
   void checkGlobalDeclarations(xml_node const &declsXml)
diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 29ba80a..bbfd1e3 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -166,6 +166,8 @@ namespace PLEXIL
                                      decl,
                                      "Malformed or empty " << decl.name()
                                      << " in node " << nodeId);
+    for (xml_node elt : decl.children())
+      checkTag(NAME_TAG, elt);
   }
 
   static void checkVariableDeclarations(char const *nodeId, xml_node const decls)
-- 
2.43.0


From 5536b1bcc3829afcdc6e45b9e93da68c686e0ccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 47/74] fix: report initial values of the wrong type as errors
 in the plan

---
 src/xml-parser/parseNode.cc | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index bbfd1e3..7e78ab8 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -1056,23 +1056,25 @@ namespace PLEXIL
         if (garbage)
           delete init;
 
-        // Should have been caught in ArrayVariableFactory::check()
-        errorMsg("parseVariableInitializer: internal error: \n Node "
-                 << node->getNodeId() << ", array variable \"" << varName 
-                 << "\": Invalid " << INITIALVAL_TAG
-                 << " for array variable");
+        // ArrayVariableFactory::check() only catches this in literals
+        reportParserExceptionWithLocation(decl,
+                                          "Node " << node->getNodeId()
+                                          << ", array variable \"" << varName
+                                          << "\": Invalid " << INITIALVAL_TAG
+                                          << " for array variable");
       }
     }
     else if (!areTypesCompatible(varType, initType)) {
       if (garbage)
         delete init;
 
-      // Should have been caught in UserVariableFactory::check()
-      errorMsg("parseVariableInitializer: internal error: \n Node "
-               << node->getNodeId() << ", variable \"" << varName 
-               << "\": Initialization type mismatch.\n"
-               << " Variable type is " << valueTypeName(varType)
-               << ", initializer is " << valueTypeName(initType));
+      // UserVariableFactory::check() only catches this in literals
+      reportParserExceptionWithLocation(decl,
+                                        "Node " << node->getNodeId()
+                                        << ", variable \"" << varName
+                                        << "\": Initialization type mismatch.\n"
+                                        << " Variable type is " << valueTypeName(varType)
+                                        << ", initializer is " << valueTypeName(initType));
     }
 
     return init;
-- 
2.43.0


From 18a13d4723edeaafab3a6534f7e4a4d9ea2fbec3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 48/74] fix: ignore the tolerance of a lookup whose value is
 not a number

---
 src/intfc/Lookup.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/intfc/Lookup.cc b/src/intfc/Lookup.cc
index cdd1363..5df3b90 100644
--- a/src/intfc/Lookup.cc
+++ b/src/intfc/Lookup.cc
@@ -1092,7 +1092,9 @@ namespace PLEXIL
           return true; // from now on the value is that in the state cache
         }
       }
-      else if (this->m_entry && this->m_entry->isKnown() && m_tolerance->isKnown()) {
+      else if (this->m_entry && this->m_entry->isKnown()
+               && isNumericType(this->m_entry->valueType())
+               && m_tolerance->isKnown()) {
         // State, lookup value, and tolerance are all known,
         // but no thresholds have been set yet.
         // Cache current value and establish them.
-- 
2.43.0


From 4c3eea2001ef52b3c7ab8a85176950691aebcb1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:02 +0000
Subject: [PATCH 49/74] fix: report a command whose name is unknown as a plan
 error

---
 src/intfc/CommandImpl.cc | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/src/intfc/CommandImpl.cc b/src/intfc/CommandImpl.cc
index 602458e..f765c2b 100644
--- a/src/intfc/CommandImpl.cc
+++ b/src/intfc/CommandImpl.cc
@@ -364,14 +364,10 @@ namespace PLEXIL
   void CommandImpl::fixCommandName()
   {
     std::string const *name = nullptr;
-    if (m_nameExpr->getValuePointer(name)) {
-      m_command.setName(*name);
-      m_commandNameFixed = true;
-    }
-    else {
-      // Name is unknown - report plan error
-      // TODO
-    }
+    checkPlanError(m_nameExpr->getValuePointer(name),
+                   "Command name expression has unknown or invalid value");
+    m_command.setName(*name);
+    m_commandNameFixed = true;
   }
 
   // Note that m_command.setParameterCount() was called in
-- 
2.43.0


From e71c7149483a53276b9d3e6586b061bbc0e933ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 50/74] fix: compare values declared to be of type Array

---
 src/expr/Comparisons.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/expr/Comparisons.cc b/src/expr/Comparisons.cc
index 3e7f8b5..056763a 100644
--- a/src/expr/Comparisons.cc
+++ b/src/expr/Comparisons.cc
@@ -136,6 +136,7 @@ namespace PLEXIL
     case STRING_TYPE:
       return compareEqual<String>(result, argA, argB);
 
+    case ARRAY_TYPE:
     case BOOLEAN_ARRAY_TYPE:
     case INTEGER_ARRAY_TYPE:
     case REAL_ARRAY_TYPE:
-- 
2.43.0


From 1bd020fdcfa8d55787cb0956a9e3765a940bf375 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:35 +0000
Subject: [PATCH 51/74] fix: report a scalar initial value of an array as an
 error in the plan

---
 src/xml-parser/parseNode.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/xml-parser/parseNode.cc b/src/xml-parser/parseNode.cc
index 7e78ab8..fc90da8 100644
--- a/src/xml-parser/parseNode.cc
+++ b/src/xml-parser/parseNode.cc
@@ -1044,13 +1044,13 @@ namespace PLEXIL
       }
       else if (areTypesCompatible(arrayElementType(varType),
                                   init->valueType())) {
-        // Initializer is scalar literal
-        checkParserExceptionWithLocation(sizeSpec >= 0,
-                                         decl,
-                                         "Node " << node->getNodeId()
-                                         << ", array variable \"" << varName 
-                                         << "\": Scalar initial value requires "
-                                         << MAX_SIZE_TAG);
+        // Initializer is scalar literal, which ArrayVariable does not implement
+        if (garbage)
+          delete init;
+        reportParserExceptionWithLocation(decl,
+                                          "Node " << node->getNodeId()
+                                          << ", array variable \"" << varName
+                                          << "\": Scalar initial value is not supported");
       }
       else {
         if (garbage)
-- 
2.43.0


From e1056f42613c9706533c5404f4439b8bd327675f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:01 +0000
Subject: [PATCH 52/74] fix: refuse variable declarations in place of
 expressions

---
 src/xml-parser/ArrayVariableFactory.cc | 10 ++++++++++
 src/xml-parser/UserVariableFactory.cc  | 10 ++++++++++
 2 files changed, 20 insertions(+)

diff --git a/src/xml-parser/ArrayVariableFactory.cc b/src/xml-parser/ArrayVariableFactory.cc
index 1a1b355..cf36eb2 100644
--- a/src/xml-parser/ArrayVariableFactory.cc
+++ b/src/xml-parser/ArrayVariableFactory.cc
@@ -50,6 +50,16 @@ namespace PLEXIL
                                         pugi::xml_node const expr,
                                         ValueType desiredType)
   {
+    // Not to be used as an expression
+    xml_node const parent = expr.parent();
+    checkParserExceptionWithLocation(testTag(VAR_DECLS_TAG, parent)
+                                     || testTag(IN_TAG, parent)
+                                     || testTag(INOUT_TAG, parent),
+                                     expr,
+                                     "Node \"" << nodeId
+                                     << "\": " << expr.name()
+                                     << " is not an expression");
+
     // We know the declaration has a name and a valid type.
     // Check for a legal array type.
     xml_node temp = expr.first_child().next_sibling();
diff --git a/src/xml-parser/UserVariableFactory.cc b/src/xml-parser/UserVariableFactory.cc
index 4a43b92..8113559 100644
--- a/src/xml-parser/UserVariableFactory.cc
+++ b/src/xml-parser/UserVariableFactory.cc
@@ -51,6 +51,16 @@ namespace PLEXIL
 
     ValueType check(char const *nodeId, pugi::xml_node const expr, ValueType desiredType) const
     {
+      // Not to be used as an expression
+      xml_node const parent = expr.parent();
+      checkParserExceptionWithLocation(testTag(VAR_DECLS_TAG, parent)
+                                       || testTag(IN_TAG, parent)
+                                       || testTag(INOUT_TAG, parent),
+                                       expr,
+                                       "Node \"" << nodeId
+                                       << "\": " << expr.name()
+                                       << " is not an expression");
+
       // We know the declaration has a name and a valid type;
       // see checkVariableDeclaration() in parseNode.cc
       xml_node temp = expr.first_child().next_sibling(); // must be Type element
-- 
2.43.0


From eef263cab5317ae63fda02c9893848e4a13feb41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:17:43 +0000
Subject: [PATCH 53/74] fix: accept all of the command handle values in plans

---
 src/xml-parser/ConstantFactory.cc | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/xml-parser/ConstantFactory.cc b/src/xml-parser/ConstantFactory.cc
index 1124371..922a5d1 100644
--- a/src/xml-parser/ConstantFactory.cc
+++ b/src/xml-parser/ConstantFactory.cc
@@ -395,6 +395,9 @@ namespace PLEXIL
     case COMMAND_FAILED:
     case COMMAND_DENIED:
     case COMMAND_SUCCESS:
+    case COMMAND_ABORTED:
+    case COMMAND_ABORT_FAILED:
+    case COMMAND_INTERFACE_ERROR:
       return COMMAND_HANDLE_TYPE; // is OK
 
     default:
@@ -430,6 +433,15 @@ namespace PLEXIL
     case COMMAND_SUCCESS:
       return COMMAND_SUCCESS_CONSTANT();
 
+    case COMMAND_ABORTED:
+      return COMMAND_ABORTED_CONSTANT();
+
+    case COMMAND_ABORT_FAILED:
+      return COMMAND_ABORT_FAILED_CONSTANT();
+
+    case COMMAND_INTERFACE_ERROR:
+      return COMMAND_INTERFACE_ERROR_CONSTANT();
+
     default:
       reportParserExceptionWithLocation(expr,
                                         "createExpression: Invalid CommandHandleValue");
-- 
2.43.0


From cd0ee27bf61d9a657fd43af8ba76a60b16a029a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:06 +0000
Subject: [PATCH 54/74] fix: notifyAndWaitForCompletion() waits until the exec
 is quiescent, and does not spin or hang

A queue mark was announced when it was taken from the queue, before the
exec had responded to the inputs ahead of it.  Once any caller had been
released, the binary protocol on the mark semaphore left it posted forever,
so later callers polled m_lastMark and could return in the middle of the
exec's cycle, or spin while the exec was suspended.  Marks enqueued out of
order could make m_lastMark go backwards and strand a waiter; the mark
counter itself was incremented without synchronization.
---
 src/app-framework/ExecApplication.cc  | 68 +++++++++++++++++----------
 src/app-framework/InterfaceManager.hh |  3 +-
 2 files changed, 46 insertions(+), 25 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index d35c18c..d9c1874 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -55,6 +55,7 @@
 #include <unistd.h> // sleep()
 #endif
 
+#include <condition_variable>
 #include <exception>
 #include <mutex>
 #include <thread>
@@ -211,16 +212,22 @@ namespace PLEXIL
     // Semaphore for notifying the Exec of external events
     ThreadSemaphore m_sem;
 
-    // Semaphore for notifyAndWaitForCompletion()
-    ThreadSemaphore m_markSem;
-
     // Semaphore for notifying external threads that the application is shut down
     ThreadSemaphore m_shutdownSem;
 
     // Semaphore for waiting on all plans to finish
     ThreadSemaphore m_allFinishedSem;
 
-    //! Last mark seen
+    //! Guards the variables below which other threads wait on.
+    std::mutex m_waitMutex;
+
+    //! For notifyAndWaitForCompletion()
+    std::condition_variable m_waitCond;
+
+    //! Last mark taken from the queue; guarded by m_execMutex.
+    unsigned int m_markReceived;
+
+    //! Last mark for which the exec has reached quiescence; guarded by m_waitMutex.
     unsigned int m_lastMark;
 #endif 
 
@@ -263,9 +270,11 @@ namespace PLEXIL
         m_workerThread(),
         m_execMutex(),
         m_sem(),
-        m_markSem(),
         m_shutdownSem(),
         m_allFinishedSem(),
+        m_waitMutex(),
+        m_waitCond(),
+        m_markReceived(0),
         m_lastMark(0),
 #endif
         m_configuration(makeAdapterConfiguration()),
@@ -443,9 +452,6 @@ namespace PLEXIL
     {
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
-#ifdef PLEXIL_WITH_THREADS
-      unsigned int oldMark = m_lastMark;
-#endif
       bool needsStep = false;
       bool allFinished = false;
       {
@@ -460,16 +466,16 @@ namespace PLEXIL
         m_exec->deleteFinishedPlans();
         allFinished = m_exec->allPlansFinished();
         needsStep = m_exec->needsStep();
+#ifdef PLEXIL_WITH_THREADS
+        if (!needsStep)
+          publishMark();
+#endif
       }
 #ifdef PLEXIL_WITH_THREADS
       if (m_planLoaded && allFinished) {
         debugMsg("ExecApplication:step", " All plans finished ");
         m_allFinishedSem.post();
       }
-      if (m_lastMark > oldMark) {
-        debugMsg("ExecApplication:step", " queue mark(s) processed");
-        m_markSem.post();
-      }
 #endif
       return needsStep;
     }
@@ -481,9 +487,6 @@ namespace PLEXIL
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
 
-#ifdef PLEXIL_WITH_THREADS
-      unsigned int oldMark = m_lastMark;
-#endif
       bool allFinished = false;
       {
 #ifdef PLEXIL_WITH_THREADS
@@ -503,16 +506,15 @@ namespace PLEXIL
         m_exec->deleteFinishedPlans();
         allFinished = m_exec->allPlansFinished();
         debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
+#ifdef PLEXIL_WITH_THREADS
+        publishMark();
+#endif
       }
 #ifdef PLEXIL_WITH_THREADS
       if (m_planLoaded && allFinished) {
         debugMsg("ExecApplication:runExec", " All plans finished ");
         m_allFinishedSem.post();
       }
-      if (m_lastMark > oldMark) {
-        debugMsg("ExecApplication:runExec", " queue mark(s) processed");
-        m_markSem.post();
-      }
 #endif
     }
 
@@ -688,10 +690,11 @@ namespace PLEXIL
       unsigned int sequence = m_manager->markQueue();
       notifyExec();
       debugMsg("ExecApplication:notifyAndWait", " waiting for mark #" << sequence);
-      do {
-        m_markSem.wait();
-        m_markSem.post(); // in case it's not our mark and we got there first
-      } while (m_lastMark < sequence);
+      {
+        std::unique_lock<std::mutex> guard(m_waitMutex);
+        m_waitCond.wait(guard,
+                        [this, sequence]() -> bool {return m_lastMark >= sequence;});
+      }
       debugMsg("ExecApplication:notifyAndWait", " proceeding");
 #else // !defined(PLEXIL_WITH_THREADS)
       warn("notifyAndWaitForCompletion: Threads not enabled");
@@ -816,11 +819,14 @@ namespace PLEXIL
     }
 
     //! Notify the application that a queue mark was processed.
+    //! @note Called with m_execMutex held.
+    //! @note Marks may have been enqueued out of order.
     virtual void markProcessed(unsigned int sequence) override
     {
 #ifdef PLEXIL_WITH_THREADS
       debugMsg("ExecApplication:markProcessed", " sequence #" << sequence);
-      m_lastMark = sequence;
+      if (sequence > m_markReceived)
+        m_markReceived = sequence;
 #endif
     }
 
@@ -831,6 +837,20 @@ namespace PLEXIL
     //
 
 #ifdef PLEXIL_WITH_THREADS
+    //! Release the threads waiting for the marks received so far.
+    //! @note Called with m_execMutex held, when the exec is quiescent.
+    void publishMark()
+    {
+      {
+        ThreadMutexGuard guard(m_waitMutex);
+        if (m_lastMark == m_markReceived)
+          return;
+        m_lastMark = m_markReceived;
+      }
+      debugMsg("ExecApplication:publishMark", " queue mark(s) processed");
+      m_waitCond.notify_all();
+    }
+
     /**
      * @brief Spawns the worker thread which runs the exec's top level loop.
      * @return true if successful, false otherwise.
diff --git a/src/app-framework/InterfaceManager.hh b/src/app-framework/InterfaceManager.hh
index 69877f9..197f77d 100644
--- a/src/app-framework/InterfaceManager.hh
+++ b/src/app-framework/InterfaceManager.hh
@@ -28,6 +28,7 @@
 
 #include "AdapterExecInterface.hh"
 
+#include <atomic>
 #include <memory>
 
 // Forward reference
@@ -211,7 +212,7 @@ namespace PLEXIL
     std::unique_ptr<InputQueue> m_inputQueue;
 
     //! Index of last queue mark enqueued.
-    unsigned int m_markCount;
+    std::atomic<unsigned int> m_markCount;
   };
 
 }
-- 
2.43.0


From 2c2272eb8e566552924b250a69dbf6174e7e12b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:13:53 +0000
Subject: [PATCH 55/74] fix: waitForPlanFinished() returns only when the plans
 added have finished

It could return before a plan had even started: the worker thread found that
no plan was active just as addPlan() set m_planLoaded, and posted the
semaphore.  And as the semaphore was posted in every cycle after the last
plan had finished, a wait for a plan added later returned at once.
---
 src/app-framework/ExecApplication.cc | 79 ++++++++++++++++++----------
 1 file changed, 50 insertions(+), 29 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index d9c1874..777291d 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -215,13 +215,10 @@ namespace PLEXIL
     // Semaphore for notifying external threads that the application is shut down
     ThreadSemaphore m_shutdownSem;
 
-    // Semaphore for waiting on all plans to finish
-    ThreadSemaphore m_allFinishedSem;
-
     //! Guards the variables below which other threads wait on.
     std::mutex m_waitMutex;
 
-    //! For notifyAndWaitForCompletion()
+    //! For notifyAndWaitForCompletion() and waitForPlanFinished()
     std::condition_variable m_waitCond;
 
     //! Last mark taken from the queue; guarded by m_execMutex.
@@ -229,6 +226,13 @@ namespace PLEXIL
 
     //! Last mark for which the exec has reached quiescence; guarded by m_waitMutex.
     unsigned int m_lastMark;
+
+    //! Number of plans added by addPlan(); guarded by m_waitMutex.
+    unsigned int m_plansAdded;
+
+    //! Value of m_plansAdded when the exec last found that all plans had finished;
+    //! guarded by m_waitMutex.
+    unsigned int m_plansFinished;
 #endif 
 
     //! Interfacing database and dispatcher
@@ -252,9 +256,6 @@ namespace PLEXIL
     // True if interfaces have been started, false otherwise.
     bool m_interfacesStarted;
 
-    //! True if at least one plan has been loaded.
-    bool m_planLoaded;
-
     // Flag for halting the Exec thread
     bool m_stop;
 
@@ -271,11 +272,12 @@ namespace PLEXIL
         m_execMutex(),
         m_sem(),
         m_shutdownSem(),
-        m_allFinishedSem(),
         m_waitMutex(),
         m_waitCond(),
         m_markReceived(0),
         m_lastMark(0),
+        m_plansAdded(0),
+        m_plansFinished(0),
 #endif
         m_configuration(makeAdapterConfiguration()),
         m_manager(new InterfaceManager(this, m_configuration.get())),
@@ -284,7 +286,6 @@ namespace PLEXIL
         m_runExecInBkgndOnly(true),
         m_initialized(false),
         m_interfacesStarted(false),
-        m_planLoaded(false),
         m_stop(false),
         m_suspended(false)
     {
@@ -453,10 +454,11 @@ namespace PLEXIL
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
       bool needsStep = false;
-      bool allFinished = false;
       {
 #ifdef PLEXIL_WITH_THREADS
         ThreadMutexGuard guard(m_execMutex);
+        // Plans added from here on may not be in the queue yet
+        unsigned int const plansAdded = countPlansAdded();
 #endif
         debugMsg("ExecApplication:step", " Processing queue");
         m_manager->processQueue();
@@ -464,19 +466,14 @@ namespace PLEXIL
         m_exec->step(StateCache::queryTime());
         // Take care of any plans which have finished
         m_exec->deleteFinishedPlans();
-        allFinished = m_exec->allPlansFinished();
         needsStep = m_exec->needsStep();
 #ifdef PLEXIL_WITH_THREADS
         if (!needsStep)
           publishMark();
+        if (m_exec->allPlansFinished())
+          publishPlansFinished(plansAdded);
 #endif
       }
-#ifdef PLEXIL_WITH_THREADS
-      if (m_planLoaded && allFinished) {
-        debugMsg("ExecApplication:step", " All plans finished ");
-        m_allFinishedSem.post();
-      }
-#endif
       return needsStep;
     }
 
@@ -487,10 +484,11 @@ namespace PLEXIL
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
 
-      bool allFinished = false;
       {
 #ifdef PLEXIL_WITH_THREADS
         ThreadMutexGuard guard(m_execMutex);
+        // Plans added from here on may not be in the queue yet
+        unsigned int const plansAdded = countPlansAdded();
 #endif
         debugMsg("ExecApplication:runExec", " Processing queue");
         m_manager->processQueue();
@@ -504,18 +502,13 @@ namespace PLEXIL
 
         // Clean up
         m_exec->deleteFinishedPlans();
-        allFinished = m_exec->allPlansFinished();
         debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
 #ifdef PLEXIL_WITH_THREADS
         publishMark();
+        if (m_exec->allPlansFinished())
+          publishPlansFinished(plansAdded);
 #endif
       }
-#ifdef PLEXIL_WITH_THREADS
-      if (m_planLoaded && allFinished) {
-        debugMsg("ExecApplication:runExec", " All plans finished ");
-        m_allFinishedSem.post();
-      }
-#endif
     }
 
     //
@@ -708,9 +701,12 @@ namespace PLEXIL
     {
 #ifdef PLEXIL_WITH_THREADS
       debugMsg("ExecApplication:waitForPlanFinished", " waiting");
-      int waitStatus = m_allFinishedSem.wait();
-      checkError(!waitStatus,
-                 "waitForPlanFinished: semaphore wait returned error " << waitStatus);
+      {
+        std::unique_lock<std::mutex> guard(m_waitMutex);
+        m_waitCond.wait(guard,
+                        [this]() -> bool
+                        {return m_plansAdded && m_plansFinished == m_plansAdded;});
+      }
       debugMsg("ExecApplication:waitForPlanFinished", " proceeding");
 #else // !defined(PLEXIL_WITH_THREADS)
       warn("waitForPlanFinished: Threads not enabled");
@@ -809,7 +805,10 @@ namespace PLEXIL
       try {
         m_manager->handleAddPlan(planXml->document_element());
         debugMsg("ExecApplication:addPlan", " successful");
-        m_planLoaded = true;
+#ifdef PLEXIL_WITH_THREADS
+        ThreadMutexGuard guard(m_waitMutex);
+        ++m_plansAdded;
+#endif
         return true;
       }
       catch (const ParserException& e) {
@@ -851,6 +850,28 @@ namespace PLEXIL
       m_waitCond.notify_all();
     }
 
+    //! How many plans has addPlan() put on the queue?
+    unsigned int countPlansAdded()
+    {
+      ThreadMutexGuard guard(m_waitMutex);
+      return m_plansAdded;
+    }
+
+    //! Release the threads waiting for the plans to finish.
+    //! @param plansAdded The number of plans known to have been taken from the queue.
+    //! @note Called with m_execMutex held.
+    void publishPlansFinished(unsigned int plansAdded)
+    {
+      {
+        ThreadMutexGuard guard(m_waitMutex);
+        if (m_plansFinished == plansAdded)
+          return;
+        m_plansFinished = plansAdded;
+      }
+      debugMsg("ExecApplication:publishPlansFinished", " All plans finished ");
+      m_waitCond.notify_all();
+    }
+
     /**
      * @brief Spawns the worker thread which runs the exec's top level loop.
      * @return true if successful, false otherwise.
-- 
2.43.0


From bcc6810fca0afb4bc060063687b523b09ebcff45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:18 +0000
Subject: [PATCH 56/74] fix: the worker thread's first cycle runs until the
 exec is quiescent

It took a single step, so inputs which arrived meanwhile were processed
while a plan loaded first was still in transition.
---
 src/app-framework/ExecApplication.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index 777291d..defae15 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -898,7 +898,7 @@ namespace PLEXIL
       try {
         // must step exec once to initialize time and
         // give any preloaded plans a chance to start
-        step();
+        runExec();
         debugMsg("ExecApplication:worker", " Initial step complete");
 
         while (waitForExternalEvent()) {
-- 
2.43.0


From 2186cbf69341c431d9c6ba00d1aa8f44902a8112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:28:31 +0000
Subject: [PATCH 57/74] fix: an application running opportunistically does not
 deadlock, nor run while suspended or stopped

notifyExec() took m_execMutex with try_lock() and then called runExec(),
which locks the same mutex again; and it ran the exec even though the
application was suspended, or had been stopped.
---
 src/app-framework/ExecApplication.cc | 74 +++++++++++++++++-----------
 1 file changed, 45 insertions(+), 29 deletions(-)

diff --git a/src/app-framework/ExecApplication.cc b/src/app-framework/ExecApplication.cc
index defae15..240b3aa 100644
--- a/src/app-framework/ExecApplication.cc
+++ b/src/app-framework/ExecApplication.cc
@@ -484,31 +484,10 @@ namespace PLEXIL
       assertTrue_2(m_interfacesStarted,
                    "ExecApplication: Fatal error: step() called before startInterfaces()");
 
-      {
 #ifdef PLEXIL_WITH_THREADS
-        ThreadMutexGuard guard(m_execMutex);
-        // Plans added from here on may not be in the queue yet
-        unsigned int const plansAdded = countPlansAdded();
-#endif
-        debugMsg("ExecApplication:runExec", " Processing queue");
-        m_manager->processQueue();
-        do {
-          do {
-            debugMsg("ExecApplication:runExec", " Stepping exec");
-            m_exec->step(StateCache::queryTime());
-          } while (m_exec->needsStep());
-          debugMsg("ExecApplication:runExec", " Processing queue");
-        } while (m_manager->processQueue());
-
-        // Clean up
-        m_exec->deleteFinishedPlans();
-        debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
-#ifdef PLEXIL_WITH_THREADS
-        publishMark();
-        if (m_exec->allPlansFinished())
-          publishPlansFinished(plansAdded);
+      ThreadMutexGuard guard(m_execMutex);
 #endif
-      }
+      runExecUnguarded();
     }
 
     //
@@ -618,11 +597,18 @@ namespace PLEXIL
       }
 #endif // PLEXIL_WITH_THREADS
 
+      {
+#ifdef PLEXIL_WITH_THREADS
+        // Other threads may still be running the exec
+        ThreadMutexGuard guard(m_execMutex);
+#endif
+        m_interfacesStarted = false;
+      }
+
       // Stop interfaces
       m_configuration->stop();
       m_listener->stop();
 
-      m_interfacesStarted = false;
       m_initialized = false;
 
 #ifdef PLEXIL_WITH_THREADS
@@ -654,11 +640,13 @@ namespace PLEXIL
 #ifdef PLEXIL_WITH_THREADS
       // FIXME: Don't run if called from thread holding mutex - undefined behavior
       // How to fix? Call command handlers from outside the mutex hold.
-      if (!m_runExecInBkgndOnly && m_execMutex.try_lock()) {
-        // Exec is idle, so run it
-        debugMsg("ExecApplication:notify", " exec was idle, stepping it");
-        this->runExec();
-        m_execMutex.unlock();
+      if (!m_runExecInBkgndOnly && !m_suspended && !m_stop && m_execMutex.try_lock()) {
+        std::lock_guard<std::mutex> guard(m_execMutex, std::adopt_lock);
+        if (m_interfacesStarted) {
+          // Exec is idle, so run it
+          debugMsg("ExecApplication:notify", " exec was idle, stepping it");
+          runExecUnguarded();
+        }
       }
       else {
         // Some thread currently owns the exec. Could be this thread.
@@ -835,6 +823,34 @@ namespace PLEXIL
     // Implementation methods
     //
 
+    //! Run the exec until the queue is empty and the plan state is quiescent.
+    //! @note If threads are enabled, called with m_execMutex held.
+    void runExecUnguarded()
+    {
+#ifdef PLEXIL_WITH_THREADS
+      // Plans added from here on may not be in the queue yet
+      unsigned int const plansAdded = countPlansAdded();
+#endif
+      debugMsg("ExecApplication:runExec", " Processing queue");
+      m_manager->processQueue();
+      do {
+        do {
+          debugMsg("ExecApplication:runExec", " Stepping exec");
+          m_exec->step(StateCache::queryTime());
+        } while (m_exec->needsStep());
+        debugMsg("ExecApplication:runExec", " Processing queue");
+      } while (m_manager->processQueue());
+
+      // Clean up
+      m_exec->deleteFinishedPlans();
+      debugMsg("ExecApplication:runExec", " Queue empty and exec quiescent");
+#ifdef PLEXIL_WITH_THREADS
+      publishMark();
+      if (m_exec->allPlansFinished())
+        publishPlansFinished(plansAdded);
+#endif
+    }
+
 #ifdef PLEXIL_WITH_THREADS
     //! Release the threads waiting for the marks received so far.
     //! @note Called with m_execMutex held, when the exec is quiescent.
-- 
2.43.0


From af5b5fc486b67cad28cc72f5aa82195440f01e19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:08 +0000
Subject: [PATCH 58/74] fix: strip whitespace before a comma in comma-separated
 configuration lists

---
 src/app-framework/InterfaceSchema.cc | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/app-framework/InterfaceSchema.cc b/src/app-framework/InterfaceSchema.cc
index 49a049c..d068d30 100644
--- a/src/app-framework/InterfaceSchema.cc
+++ b/src/app-framework/InterfaceSchema.cc
@@ -59,6 +59,8 @@ namespace PLEXIL
 	  (comma == nullptr) ? 
 	  strcspn(next, whitespace) /* strip trailing whitespace */ :
 	  comma - next;
+	while (len > 0 && strchr(whitespace, next[len - 1]))
+	  --len; // strip whitespace before the comma
 
 	// construct result string
 	result->push_back(std::string(next, len));
-- 
2.43.0


From ad8784830195f2de547ba596c0d3702e4dde79c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:40:08 +0000
Subject: [PATCH 59/74] fix: GeneralExprVec::removeListener removed nothing and
 added the listener again

---
 src/intfc/ExprVec.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/intfc/ExprVec.cc b/src/intfc/ExprVec.cc
index a75241d..e43af0c 100644
--- a/src/intfc/ExprVec.cc
+++ b/src/intfc/ExprVec.cc
@@ -261,7 +261,7 @@ namespace PLEXIL
     virtual void removeListener(ExpressionListener *l) override
     {
       for (size_t i = 0; i < m_size; ++i)
-        exprs[i]->addListener(l);
+        exprs[i]->removeListener(l);
     }
 
     //! \brief Call a function on all subexpressions of this object.
-- 
2.43.0


From 43af9a57bbce9cf8baae3d967e612b3c0be31dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:09 +0000
Subject: [PATCH 60/74] fix: integer literals in other bases do not make the
 plan transformations fail

---
 compilers/plexil/antlr/PlexilTreeTransforms.g | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/compilers/plexil/antlr/PlexilTreeTransforms.g b/compilers/plexil/antlr/PlexilTreeTransforms.g
index da0f4c2..f77cd7b 100644
--- a/compilers/plexil/antlr/PlexilTreeTransforms.g
+++ b/compilers/plexil/antlr/PlexilTreeTransforms.g
@@ -172,12 +172,12 @@ booleanIdentityElision:
     ;
     
 integerIdentityElision:
-        ^(PLUS i=INT arg=. {Integer.valueOf($i.text) == 0}?) -> $arg
-    |   ^(PLUS arg=. i=INT {Integer.valueOf($i.text) == 0}?) -> $arg
-    |   ^(MINUS arg=. i=INT {Integer.valueOf($i.text) == 0}?) -> $arg
-    |   ^(ASTERISK i=INT arg=. {Integer.valueOf($i.text) == 1}?) -> $arg
-    |   ^(ASTERISK arg=. i=INT {Integer.valueOf($i.text) == 1}?) -> $arg
-    |   ^(SLASH arg=. i=INT {Integer.valueOf($i.text) == 1}?) -> $arg
+        ^(PLUS i=INT arg=. {LiteralNode.parseIntegerValue($i.text) == 0}?) -> $arg
+    |   ^(PLUS arg=. i=INT {LiteralNode.parseIntegerValue($i.text) == 0}?) -> $arg
+    |   ^(MINUS arg=. i=INT {LiteralNode.parseIntegerValue($i.text) == 0}?) -> $arg
+    |   ^(ASTERISK i=INT arg=. {LiteralNode.parseIntegerValue($i.text) == 1}?) -> $arg
+    |   ^(ASTERISK arg=. i=INT {LiteralNode.parseIntegerValue($i.text) == 1}?) -> $arg
+    |   ^(SLASH arg=. i=INT {LiteralNode.parseIntegerValue($i.text) == 1}?) -> $arg
     ;
 
 realIdentityElision:
-- 
2.43.0


From 32ac3921186d4a9b11429bbad56622a2f4302128 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:09 +0000
Subject: [PATCH 61/74] fix: the value of a command whose name is an expression
 can be assigned

---
 compilers/plexil/java/plexil/CommandNode.java | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compilers/plexil/java/plexil/CommandNode.java b/compilers/plexil/java/plexil/CommandNode.java
index 10f5735..19fefd7 100644
--- a/compilers/plexil/java/plexil/CommandNode.java
+++ b/compilers/plexil/java/plexil/CommandNode.java
@@ -231,6 +231,8 @@ public class CommandNode
             }
         }
         else {
+            // We can't make any assumptions about return type
+            m_dataType = PlexilDataType.ANY_TYPE;
             // Set source locators to expression
             this.getToken().setLine(getChild(0).getLine());
             this.getToken().setCharPositionInLine(getChild(0).getCharPositionInLine());
-- 
2.43.0


From dc403a091dd5c1e73dae769291784c8c714cd2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:09 +0000
Subject: [PATCH 62/74] fix: a lookup tolerance can be an expression

---
 compilers/plexil/java/plexil/LookupNode.java | 1 +
 1 file changed, 1 insertion(+)

diff --git a/compilers/plexil/java/plexil/LookupNode.java b/compilers/plexil/java/plexil/LookupNode.java
index e6b4624..06380a2 100644
--- a/compilers/plexil/java/plexil/LookupNode.java
+++ b/compilers/plexil/java/plexil/LookupNode.java
@@ -171,6 +171,7 @@ public class LookupNode extends ExpressionNode
 
             // Type check tolerance if supplied and if state name is known
             if (m_tolerance != null) {
+                m_tolerance.check(context, state); // establishes its type
                 if (m_dataType == PlexilDataType.ANY_TYPE) {
                     // Lookup state name is computed or undeclared -
                     // check that expression is numeric
-- 
2.43.0


From cab572decedd9260a689e3cb3ebba330303e4bf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:04:43 +0000
Subject: [PATCH 63/74] fix: the default value of a scalar library node
 parameter is not dropped

---
 compilers/plexil/java/plexil/InterfaceDeclNode.java        | 3 ++-
 compilers/plexil/java/plexil/InterfaceVariableName.java    | 5 +++--
 compilers/plexil/java/plexil/LibraryInterfaceSpecNode.java | 3 ++-
 compilers/plexil/java/plexil/NodeContext.java              | 5 +++--
 4 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/compilers/plexil/java/plexil/InterfaceDeclNode.java b/compilers/plexil/java/plexil/InterfaceDeclNode.java
index 75f1808..7743cf9 100644
--- a/compilers/plexil/java/plexil/InterfaceDeclNode.java
+++ b/compilers/plexil/java/plexil/InterfaceDeclNode.java
@@ -157,7 +157,8 @@ public class InterfaceDeclNode extends PlexilTreeNode
                     newvar = context.addInterfaceVariable(declNode, 
                                                           nameNode, 
                                                           isInOut,
-                                                          varType);
+                                                          varType,
+                                                          declNode.getInitialValueNode());
                 }
                 m_variables.add(newvar);
                 declNode.setVariableName(newvar);
diff --git a/compilers/plexil/java/plexil/InterfaceVariableName.java b/compilers/plexil/java/plexil/InterfaceVariableName.java
index 01eb48f..a3a4b73 100644
--- a/compilers/plexil/java/plexil/InterfaceVariableName.java
+++ b/compilers/plexil/java/plexil/InterfaceVariableName.java
@@ -50,9 +50,10 @@ public class InterfaceVariableName extends VariableName
     public InterfaceVariableName(PlexilTreeNode declaration,
                                  String myName, 
                                  boolean is_inOut,
-                                 PlexilDataType varType)
+                                 PlexilDataType varType,
+                                 ExpressionNode initVal)
     {
-        super(declaration, myName, varType);
+        super(declaration, myName, varType, initVal);
         parentVariable = null;
         isInOut = is_inOut;
     }
diff --git a/compilers/plexil/java/plexil/LibraryInterfaceSpecNode.java b/compilers/plexil/java/plexil/LibraryInterfaceSpecNode.java
index 5ac9bb3..decb95f 100644
--- a/compilers/plexil/java/plexil/LibraryInterfaceSpecNode.java
+++ b/compilers/plexil/java/plexil/LibraryInterfaceSpecNode.java
@@ -126,7 +126,8 @@ public class LibraryInterfaceSpecNode extends PlexilTreeNode
                         new InterfaceVariableName(parm,
                                                   nam,
                                                   parmType == PlexilLexer.IN_OUT_KYWD,
-                                                  PlexilDataType.findByName(typeName));
+                                                  PlexilDataType.findByName(typeName),
+                                                  null);
                 }
                 break;
 
diff --git a/compilers/plexil/java/plexil/NodeContext.java b/compilers/plexil/java/plexil/NodeContext.java
index ba13459..4d3f8bb 100644
--- a/compilers/plexil/java/plexil/NodeContext.java
+++ b/compilers/plexil/java/plexil/NodeContext.java
@@ -220,10 +220,11 @@ public class NodeContext
     public InterfaceVariableName addInterfaceVariable(PlexilTreeNode declaration,
                                                       PlexilTreeNode nameNode,
                                                       boolean isInOut,
-                                                      PlexilDataType typ)
+                                                      PlexilDataType typ,
+                                                      ExpressionNode initVal)
     {
         InterfaceVariableName var = 
-            new InterfaceVariableName(declaration, nameNode.getText(), isInOut, typ);
+            new InterfaceVariableName(declaration, nameNode.getText(), isInOut, typ, initVal);
         m_variables.add(var);
         return var;
     }
-- 
2.43.0


From 7e6456682083aed3261da7b3a30bb000ba47b1d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:46 +0000
Subject: [PATCH 64/74] fix: dropping 0.0 + or 1.0 * does not turn a Real into
 an Integer

---
 compilers/plexil/antlr/PlexilTreeTransforms.g | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/compilers/plexil/antlr/PlexilTreeTransforms.g b/compilers/plexil/antlr/PlexilTreeTransforms.g
index f77cd7b..b96b49d 100644
--- a/compilers/plexil/antlr/PlexilTreeTransforms.g
+++ b/compilers/plexil/antlr/PlexilTreeTransforms.g
@@ -76,6 +76,13 @@ import plexil.*;
                                       Severity.ERROR);
 	}
 
+    // Is this an expression of type Real?
+    private static boolean isReal(Object tree)
+    {
+        return tree instanceof Expression
+            && ((Expression) tree).getDataType() == PlexilDataType.REAL_TYPE;
+    }
+
     // Debugging aid.
 //    public void reportTransformation(Object oldTree, Object newTree)
 //    {
@@ -180,13 +187,14 @@ integerIdentityElision:
     |   ^(SLASH arg=. i=INT {LiteralNode.parseIntegerValue($i.text) == 1}?) -> $arg
     ;
 
+// The result of these operations is Real, even if the other operand is an Integer.
 realIdentityElision:
-        ^(PLUS i=DOUBLE arg=. {Double.valueOf($i.text) == 0.0}?) -> $arg
-    |   ^(PLUS arg=. i=DOUBLE {Double.valueOf($i.text) == 0.0}?) -> $arg
-    |   ^(MINUS arg=. i=DOUBLE {Double.valueOf($i.text) == 0.0}?) -> $arg
-    |   ^(ASTERISK i=DOUBLE arg=. {Double.valueOf($i.text) == 1.0}?) -> $arg
-    |   ^(ASTERISK arg=. i=DOUBLE {Double.valueOf($i.text) == 1.0}?) -> $arg
-    |   ^(SLASH arg=. i=DOUBLE {Double.valueOf($i.text) == 1.0}?) -> $arg
+        ^(PLUS i=DOUBLE arg=. {Double.valueOf($i.text) == 0.0 && isReal($arg)}?) -> $arg
+    |   ^(PLUS arg=. i=DOUBLE {Double.valueOf($i.text) == 0.0 && isReal($arg)}?) -> $arg
+    |   ^(MINUS arg=. i=DOUBLE {Double.valueOf($i.text) == 0.0 && isReal($arg)}?) -> $arg
+    |   ^(ASTERISK i=DOUBLE arg=. {Double.valueOf($i.text) == 1.0 && isReal($arg)}?) -> $arg
+    |   ^(ASTERISK arg=. i=DOUBLE {Double.valueOf($i.text) == 1.0 && isReal($arg)}?) -> $arg
+    |   ^(SLASH arg=. i=DOUBLE {Double.valueOf($i.text) == 1.0 && isReal($arg)}?) -> $arg
     ;
 
 booleanEqualityNegation:
-- 
2.43.0


From e26c087c083feec139c81ee96a678263babb9770 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:13:46 +0000
Subject: [PATCH 65/74] fix: arithmetic on a Real and an Integer is Real,
 whichever comes last

---
 compilers/plexil/java/plexil/ArithmeticOperatorNode.java | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compilers/plexil/java/plexil/ArithmeticOperatorNode.java b/compilers/plexil/java/plexil/ArithmeticOperatorNode.java
index 1f0f0cd..1f9b85c 100644
--- a/compilers/plexil/java/plexil/ArithmeticOperatorNode.java
+++ b/compilers/plexil/java/plexil/ArithmeticOperatorNode.java
@@ -238,7 +238,7 @@ public class ArithmeticOperatorNode extends ExpressionNode
             if (ltype == PlexilDataType.INTEGER_TYPE && rtype == ltype)
                 return ltype;
             else if (ltype.isNumeric() && rtype.isNumeric())
-                return rtype;
+                return PlexilDataType.REAL_TYPE;
 
             // They can be certain combinations of duration and date...
             else if (ltype == PlexilDataType.DATE_TYPE &&
@@ -308,7 +308,7 @@ public class ArithmeticOperatorNode extends ExpressionNode
         // They can be numbers...
 
         if (ltype == PlexilDataType.INTEGER_TYPE && rtype == ltype) return ltype;
-        else if (ltype.isNumeric() && rtype.isNumeric()) return rtype;
+        else if (ltype.isNumeric() && rtype.isNumeric()) return PlexilDataType.REAL_TYPE;
 
         // They can be certain combinations of duration and number...
 
@@ -336,7 +336,7 @@ public class ArithmeticOperatorNode extends ExpressionNode
         // They can be numbers...
 
         if (ltype == PlexilDataType.INTEGER_TYPE && rtype == ltype) return ltype;
-        else if (ltype.isNumeric() && rtype.isNumeric()) return rtype;
+        else if (ltype.isNumeric() && rtype.isNumeric()) return PlexilDataType.REAL_TYPE;
 
         // They can be certain combinations of duration and date...
 
-- 
2.43.0


From a9ae23822ac593931b31db6736f7b9c3136d4f1b Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:58:32 +0000
Subject: [PATCH 66/74] fix: an if whose branch has a SkipCondition can be
 translated

except binds more tightly than |, so that the SkipCondition was copied as well.
---
 schema/epx-translator/if-then-else.xsl | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/schema/epx-translator/if-then-else.xsl b/schema/epx-translator/if-then-else.xsl
index 9d16242..26e6a16 100644
--- a/schema/epx-translator/if-then-else.xsl
+++ b/schema/epx-translator/if-then-else.xsl
@@ -92,7 +92,7 @@
         <xsl:call-template name="if-then-skip-condition">
           <xsl:with-param name="condition" select="$condition" />
         </xsl:call-template>
-        <xsl:sequence select="* except StartCondition|SkipCondition" />
+        <xsl:sequence select="* except (StartCondition|SkipCondition)" />
       </Node>
     </xsl:for-each>
   </xsl:template>
@@ -169,7 +169,7 @@
         <xsl:call-template name="if-else-skip-condition">
           <xsl:with-param name="condition" select="$condition" />
         </xsl:call-template>
-        <xsl:sequence select="* except StartCondition|SkipCondition" />
+        <xsl:sequence select="* except (StartCondition|SkipCondition)" />
       </Node>
     </xsl:for-each>
   </xsl:template>
-- 
2.43.0


From 232471910aa836d78c056c1f9cdf55b79114b508 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:58:32 +0000
Subject: [PATCH 67/74] fix: a Try with a PostCondition or EndCondition can be
 translated

The condition was copied twice, and its element put inside the new expression
in place of the expression in it.
---
 schema/epx-translator/try.xsl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/epx-translator/try.xsl b/schema/epx-translator/try.xsl
index 303da64..2404786 100644
--- a/schema/epx-translator/try.xsl
+++ b/schema/epx-translator/try.xsl
@@ -52,7 +52,7 @@
       <xsl:call-template name="ensure-unique-node-id" />
       <xsl:call-template name="handle-common-clauses" />
       <xsl:apply-templates select="VariableDeclarations|UsingMutex" />
-      <xsl:sequence select="$conds/(* except EndCondition|PostCondition)" />
+      <xsl:sequence select="$conds/(* except (EndCondition|PostCondition))" />
 
       <xsl:call-template name="try-end-condition">
         <xsl:with-param name="original-condition" select="$conds/EndCondition"/>
@@ -81,7 +81,7 @@
       <xsl:otherwise>
         <EndCondition>
           <OR>
-            <xsl:sequence select="$original-condition" />
+            <xsl:sequence select="$original-condition/*" />
             <xsl:for-each select="$children/*">
               <xsl:variable name="kid-ref">
                 <NodeRef dir="child">
@@ -131,7 +131,7 @@
         <xsl:choose>
           <xsl:when test="$original-condition and $post-test">
             <AND>
-              <xsl:sequence select="$original-condition" />
+              <xsl:sequence select="$original-condition/*" />
               <xsl:sequence select="$post-test" />
             </AND>
           </xsl:when>
-- 
2.43.0


From d1e60f0e06110e0b6d00bec6722a45e644edc0f4 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 04:58:32 +0000
Subject: [PATCH 68/74] fix: several branches of an if may have start or skip
 conditions

Their wrapper nodes all had the same name.
---
 schema/epx-translator/if-then-else.xsl | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/schema/epx-translator/if-then-else.xsl b/schema/epx-translator/if-then-else.xsl
index 26e6a16..1e56b98 100644
--- a/schema/epx-translator/if-then-else.xsl
+++ b/schema/epx-translator/if-then-else.xsl
@@ -277,7 +277,12 @@
       <xsl:when test="$expanded-clause/Node/(StartCondition|SkipCondition)">
         <!-- must create wrapper node -->
         <Node NodeType="NodeList" epx="{name(.)}">
-          <NodeId generated="1"><xsl:value-of select="tr:prefix(name(.))" /></NodeId>
+          <NodeId generated="1">
+            <xsl:value-of select="tr:prefix(name(.))" />
+            <xsl:if test="parent::ElseIf">
+              <xsl:value-of select="concat('-', count(../preceding-sibling::ElseIf) + 1)" />
+            </xsl:if>
+          </NodeId>
           <StartCondition>
             <xsl:sequence select="$start-condition" />
           </StartCondition>
-- 
2.43.0


From 26e7796664b91e98ced6698a6b50cecac5012c06 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:00:28 +0000
Subject: [PATCH 69/74] fix: an if tests its condition once when its branch is
 a loop

---
 schema/epx-translator/if-then-else.xsl | 100 +++++++++++++++++++------
 1 file changed, 76 insertions(+), 24 deletions(-)

diff --git a/schema/epx-translator/if-then-else.xsl b/schema/epx-translator/if-then-else.xsl
index 1e56b98..242e9ab 100644
--- a/schema/epx-translator/if-then-else.xsl
+++ b/schema/epx-translator/if-then-else.xsl
@@ -82,18 +82,44 @@
       <xsl:apply-templates select="Then/*" />
     </xsl:variable>
     <xsl:for-each select="$expanded-then/*">
-      <Node NodeType="{@NodeType}" epx="Then">
-        <xsl:call-template name="copy-source-locator-attributes">
-          <xsl:with-param name="context" select="." />
-        </xsl:call-template>
-        <xsl:call-template name="if-then-start-condition">
-          <xsl:with-param name="condition" select="$condition" />
-        </xsl:call-template>
-        <xsl:call-template name="if-then-skip-condition">
-          <xsl:with-param name="condition" select="$condition" />
-        </xsl:call-template>
-        <xsl:sequence select="* except (StartCondition|SkipCondition)" />
-      </Node>
+      <xsl:choose>
+        <!-- Must wrap any expansion which contains a RepeatCondition:
+             the test is to be made once, not at every repetition -->
+        <xsl:when test="RepeatCondition">
+          <Node NodeType="NodeList" epx="Then">
+            <NodeId generated="1">
+              <xsl:value-of select="tr:prefix('Then')" />
+            </NodeId>
+            <xsl:call-template name="if-then-start-condition">
+              <xsl:with-param name="condition" select="$condition" />
+            </xsl:call-template>
+            <xsl:call-template name="if-then-skip-condition">
+              <xsl:with-param name="condition" select="$condition" />
+            </xsl:call-template>
+            <NodeBody>
+              <NodeList>
+                <Node NodeType="{@NodeType}">
+                  <xsl:sequence select="(@* except @NodeType), (* except (StartCondition|SkipCondition))" />
+                </Node>
+              </NodeList>
+            </NodeBody>
+          </Node>
+        </xsl:when>
+        <xsl:otherwise>
+          <Node NodeType="{@NodeType}" epx="Then">
+            <xsl:call-template name="copy-source-locator-attributes">
+              <xsl:with-param name="context" select="." />
+            </xsl:call-template>
+            <xsl:call-template name="if-then-start-condition">
+              <xsl:with-param name="condition" select="$condition" />
+            </xsl:call-template>
+            <xsl:call-template name="if-then-skip-condition">
+              <xsl:with-param name="condition" select="$condition" />
+            </xsl:call-template>
+            <xsl:sequence select="* except (StartCondition|SkipCondition)" />
+          </Node>
+        </xsl:otherwise>
+      </xsl:choose>
     </xsl:for-each>
   </xsl:template>
 
@@ -159,18 +185,44 @@
       <xsl:apply-templates select="Else/*" />
     </xsl:variable>
     <xsl:for-each select="$expanded-else/*">
-      <Node NodeType="{@NodeType}" epx="Else">
-        <xsl:call-template name="copy-source-locator-attributes">
-          <xsl:with-param name="context" select="." />
-        </xsl:call-template>
-        <xsl:call-template name="if-else-start-condition">
-          <xsl:with-param name="condition" select="$condition" />
-        </xsl:call-template>
-        <xsl:call-template name="if-else-skip-condition">
-          <xsl:with-param name="condition" select="$condition" />
-        </xsl:call-template>
-        <xsl:sequence select="* except (StartCondition|SkipCondition)" />
-      </Node>
+      <xsl:choose>
+        <!-- Must wrap any expansion which contains a RepeatCondition:
+             the test is to be made once, not at every repetition -->
+        <xsl:when test="RepeatCondition">
+          <Node NodeType="NodeList" epx="Else">
+            <NodeId generated="1">
+              <xsl:value-of select="tr:prefix('Else')" />
+            </NodeId>
+            <xsl:call-template name="if-else-start-condition">
+              <xsl:with-param name="condition" select="$condition" />
+            </xsl:call-template>
+            <xsl:call-template name="if-else-skip-condition">
+              <xsl:with-param name="condition" select="$condition" />
+            </xsl:call-template>
+            <NodeBody>
+              <NodeList>
+                <Node NodeType="{@NodeType}">
+                  <xsl:sequence select="(@* except @NodeType), (* except (StartCondition|SkipCondition))" />
+                </Node>
+              </NodeList>
+            </NodeBody>
+          </Node>
+        </xsl:when>
+        <xsl:otherwise>
+          <Node NodeType="{@NodeType}" epx="Else">
+            <xsl:call-template name="copy-source-locator-attributes">
+              <xsl:with-param name="context" select="." />
+            </xsl:call-template>
+            <xsl:call-template name="if-else-start-condition">
+              <xsl:with-param name="condition" select="$condition" />
+            </xsl:call-template>
+            <xsl:call-template name="if-else-skip-condition">
+              <xsl:with-param name="condition" select="$condition" />
+            </xsl:call-template>
+            <xsl:sequence select="* except (StartCondition|SkipCondition)" />
+          </Node>
+        </xsl:otherwise>
+      </xsl:choose>
     </xsl:for-each>
   </xsl:template>
 
-- 
2.43.0


From 2b9da3b45de86ff319f5932b23180ea870f0da38 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:00:28 +0000
Subject: [PATCH 70/74] fix: a do loop whose body is a loop can be translated

---
 schema/epx-translator/do.xsl | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/schema/epx-translator/do.xsl b/schema/epx-translator/do.xsl
index c7f1564..1079b88 100644
--- a/schema/epx-translator/do.xsl
+++ b/schema/epx-translator/do.xsl
@@ -126,13 +126,24 @@
   <xsl:template name="do-body-wrapper">
     <xsl:param name="node-id" />
     <xsl:param name="expanded-action" />
-    <Node epx="Do" NodeType="ListNode">
-      <NodeId> <xsl:value-of select="$node-id" /> </NodeId>
+    <Node epx="Do" NodeType="NodeList">
+      <NodeId>
+        <xsl:choose>
+          <xsl:when test="$node-id">
+            <xsl:value-of select="$node-id" />
+          </xsl:when>
+          <xsl:otherwise>
+            <xsl:value-of select="tr:prefix('DoBody')" />
+          </xsl:otherwise>
+        </xsl:choose>
+      </NodeId>
       <RepeatCondition>
         <xsl:apply-templates select="Condition/*" />
       </RepeatCondition>
       <NodeBody>
-        <xsl:sequence select="$expanded-action" />
+        <NodeList>
+          <xsl:sequence select="$expanded-action" />
+        </NodeList>
       </NodeBody>
     </Node>
   </xsl:template>
-- 
2.43.0


From 3d426902d34b51cff522ef48508a04ef60052cfb Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:00:28 +0000
Subject: [PATCH 71/74] fix: a synchronous command may assign an array element
 or have an invariant

---
 schema/epx-translator/synchronous-command.xsl | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/schema/epx-translator/synchronous-command.xsl b/schema/epx-translator/synchronous-command.xsl
index ce2f33f..b84cec6 100644
--- a/schema/epx-translator/synchronous-command.xsl
+++ b/schema/epx-translator/synchronous-command.xsl
@@ -186,7 +186,7 @@
       </xsl:call-template>
     </xsl:variable>
     <xsl:variable name="tempVarType"
-                  select="$arrayDecl/Type/text()" />
+                  select="$arrayDecl/DeclareArray/Type/text()" />
     <xsl:variable name="tempVarRef">
       <xsl:element name="{concat($tempVarType, 'Variable')}">
         <xsl:value-of select="$tempVarName" />
@@ -202,7 +202,7 @@
       <xsl:with-param name="tempVarDecl">
         <DeclareVariable>
           <Name><xsl:value-of select="$tempVarName" /></Name>
-          <xsl:copy-of select="$arrayDecl/Type" />
+          <xsl:copy-of select="$arrayDecl/DeclareArray/Type" />
         </DeclareVariable>
       </xsl:with-param>
       <xsl:with-param name="tempVarKnownTest">
@@ -253,7 +253,7 @@
         <xsl:sequence select="$tempVarDecl" />
       </VariableDeclarations>
 
-      <xsl:sequence select="$userConditions/* except InvariantCondition" />
+      <xsl:sequence select="$userConditions/(* except InvariantCondition)" />
       <xsl:call-template name="sync-cmd-wrapper-invariant">
         <xsl:with-param name="userInvariant" select="$userConditions/InvariantCondition" />
       </xsl:call-template>
-- 
2.43.0


From 4c804c8fa344611967de1dd0ec3998a6500e8fe3 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:08:10 +0000
Subject: [PATCH 72/74] fix: the conditions of a while loop are those of the
 whole loop

---
 schema/epx-translator/while.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/epx-translator/while.xsl b/schema/epx-translator/while.xsl
index db7a67c..fc3fd67 100644
--- a/schema/epx-translator/while.xsl
+++ b/schema/epx-translator/while.xsl
@@ -50,7 +50,7 @@
 
   <xsl:template name="while-body"> 
     <xsl:choose>
-      <xsl:when test="VariableDeclarations|UsingMutex|RepeatCondition|StartCondition">
+      <xsl:when test="VariableDeclarations|UsingMutex|tr:conditions(.)">
         <!-- must create outer wrapper node -->
         <NodeBody>
           <NodeList>
-- 
2.43.0


From 28ae09c50c09e60b5f79bd648de610c3b7d060b3 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:09:38 +0000
Subject: [PATCH 73/74] fix: an exit condition does not take a statement out of
 its turn in a sequence

---
 schema/epx-translator/sequences.xsl | 29 ++++++++++++++++++++++++++++-
 1 file changed, 28 insertions(+), 1 deletion(-)

diff --git a/schema/epx-translator/sequences.xsl b/schema/epx-translator/sequences.xsl
index 458f42a..4ec7fba 100644
--- a/schema/epx-translator/sequences.xsl
+++ b/schema/epx-translator/sequences.xsl
@@ -134,8 +134,9 @@
                             VariableDeclarations|UsingMutex|Assume|Desire|Expect" />
       <xsl:call-template name="ordered-start-condition" />
       <xsl:call-template name="ordered-skip-condition" />
+      <xsl:call-template name="ordered-exit-condition" />
       <xsl:sequence
-          select="EndCondition|ExitCondition|InvariantCondition|
+          select="EndCondition|InvariantCondition|
                   PostCondition|PreCondition|RepeatCondition|NodeBody"/>
     </Node>
   </xsl:template>
@@ -207,4 +208,30 @@
     </xsl:if>
   </xsl:template>
 
+  <!-- An exit condition makes a waiting node finish, so it too must wait
+       for the preceding sibling. -->
+  <xsl:template name="ordered-exit-condition">
+    <xsl:param name="context" select="." />
+    <xsl:choose>
+      <xsl:when test="$context/ExitCondition and $context/preceding-sibling::*[1]">
+        <ExitCondition>
+          <AND>
+            <Finished>
+              <NodeRef dir="sibling">
+                <xsl:call-template name="node-id">
+                  <xsl:with-param name="context"
+                                  select="$context/preceding-sibling::*[1]" />
+                </xsl:call-template>
+              </NodeRef>
+            </Finished>
+            <xsl:sequence select="$context/ExitCondition/*" />
+          </AND>
+        </ExitCondition>
+      </xsl:when>
+      <xsl:otherwise>
+        <xsl:sequence select="$context/ExitCondition" />
+      </xsl:otherwise>
+    </xsl:choose>
+  </xsl:template>
+
 </xsl:transform>
-- 
2.43.0


From 4f1da3130499616672ece9852bf22f932ce11560 Mon Sep 17 00:00:00 2001
From: verif <x@x>
Date: Fri, 20 Nov 2026 05:37:58 +0000
Subject: [PATCH 74/74] fix: a for loop may look something up in updating its
 variable

The expression after the second semicolon was copied as it stood, not
translated; a lookup in it could not be loaded.
---
 schema/epx-translator/for.xsl | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/schema/epx-translator/for.xsl b/schema/epx-translator/for.xsl
index 1f9208a..0d92011 100644
--- a/schema/epx-translator/for.xsl
+++ b/schema/epx-translator/for.xsl
@@ -106,7 +106,7 @@
                       </xsl:otherwise>
                     </xsl:choose>
                     <NumericRHS>
-                      <xsl:sequence select="LoopVariableUpdate/*" />
+                      <xsl:apply-templates select="LoopVariableUpdate/*" />
                     </NumericRHS>
                   </Assignment>
                 </NodeBody>
-- 
2.43.0

