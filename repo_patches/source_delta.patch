From ab2a5a7941891e13dc3f261aaafc59f209bea9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 01/51] fix: Bitset::set() leaves padding bits clear so that
 full sets compare equal

---
 src/nlp_common/Bitset.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/nlp_common/Bitset.h b/src/nlp_common/Bitset.h
index 4ec7133..b024153 100644
--- a/src/nlp_common/Bitset.h
+++ b/src/nlp_common/Bitset.h
@@ -226,6 +226,9 @@ Bitset<N>& Bitset<N>::set(void)
   {
     words[i]=UINT_MAX;
   }
+      // Positions beyond N do not belong to the set
+  if(N%(NUM_BITS_INT)!=0)
+    words[NUM_WORDS(N)-1]>>=(NUM_BITS_INT)-N%(NUM_BITS_INT);
  
   return *this;
 }
-- 
2.43.0


From 920274db717bc905603f48ad033928ba215f4cbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 02/51] fix: Bitset conversions from and to unsigned long stay
 inside one-word bitsets

---
 src/nlp_common/Bitset.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nlp_common/Bitset.h b/src/nlp_common/Bitset.h
index b024153..c4d3f5b 100644
--- a/src/nlp_common/Bitset.h
+++ b/src/nlp_common/Bitset.h
@@ -161,7 +161,7 @@ Bitset<N>::Bitset(unsigned long ul)
   {
     unsigned int n=NUM_BITS_INT;
     reset();
-    for(unsigned int i=0;i<NUM_INTS_PER_LONG;++i)
+    for(unsigned int i=0;i<NUM_INTS_PER_LONG && i<NUM_WORDS(N);++i)
     {
       words[i]=(unsigned int) ul;
       ul=ul>>n;
@@ -456,7 +456,7 @@ unsigned long Bitset<N>::to_ulong(void)const
     for(unsigned int i=NUM_INTS_PER_LONG;i>0;--i)
     {
       result=result<<n;
-      result+=words[i-1];
+      if(i<=NUM_WORDS(N)) result+=words[i-1];
     }  
     return result;
   }
-- 
2.43.0


From 5c62e246e579fa6a99dc41329bc085eb534b7534 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:28 +0000
Subject: [PATCH 03/51] fix: Bitset addition propagates every carry between
 words

---
 src/nlp_common/Bitset.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/nlp_common/Bitset.h b/src/nlp_common/Bitset.h
index c4d3f5b..1495181 100644
--- a/src/nlp_common/Bitset.h
+++ b/src/nlp_common/Bitset.h
@@ -295,15 +295,15 @@ Bitset<N>& Bitset<N>::operator=(const Bitset<N> &right)
 template<size_t N> 
 Bitset<N>& Bitset<N>::operator+(const Bitset<N> &right)
 { 
- unsigned int i,lastbit,n=1;   
+ unsigned int i,aux,carry=0;   
     
- n=n<<((NUM_BITS_INT)-1);   
  for(i=0;i<NUM_WORDS(N);++i)
  {
-  lastbit=words[i]&n;
-  words[i]=words[i]+right.words[i];   
-  if(lastbit==n && (words[i]&n)==0 && i<NUM_WORDS(N)-1)
-    ++words[i+1];     
+  aux=right.words[i];
+  words[i]=words[i]+carry;
+  carry=(words[i]<carry) ? 1 : 0;
+  words[i]=words[i]+aux;
+  if(words[i]<aux) carry=1;
  }     
 
  return *this;   
-- 
2.43.0


From 07ee171b10478a904fa974ed94229939fa36d3ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 04/51] fix: copying a Trie copies the keys of its nodes

---
 src/nlp_common/Trie.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/nlp_common/Trie.h b/src/nlp_common/Trie.h
index fa65d62..358c44e 100644
--- a/src/nlp_common/Trie.h
+++ b/src/nlp_common/Trie.h
@@ -153,6 +153,7 @@ Trie<KEY,DATA_TYPE>::Trie(const Trie<KEY,DATA_TYPE>& t)
   if(&t!=t.children)
   {
         // The node is initialized
+    this->key=t.key;
     this->data=t.data;
       
     if(t.children!=NULL) // node has children
@@ -187,6 +188,7 @@ Trie<KEY,DATA_TYPE>::operator=(const Trie<KEY,DATA_TYPE>& t)
     if(&t!=t.children)
     {
           // The node is initialized
+      this->key=t.key;
       this->data=t.data;
       
       if(t.children!=NULL) // node has children
-- 
2.43.0


From 94e22a5387acd22c60e9cfec8e990bf9f71c861c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:48 +0000
Subject: [PATCH 05/51] fix: copying a BidTrie copies keys and father links

---
 src/nlp_common/BidTrie.h | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/nlp_common/BidTrie.h b/src/nlp_common/BidTrie.h
index 23c3c5e..38bbe7d 100644
--- a/src/nlp_common/BidTrie.h
+++ b/src/nlp_common/BidTrie.h
@@ -140,9 +140,11 @@ BidTrie<KEY,DATA_TYPE>::BidTrie(void)
 template<class KEY,class DATA_TYPE>
 BidTrie<KEY,DATA_TYPE>::BidTrie(const BidTrie<KEY,DATA_TYPE>& tb)
 {
+  father=NULL;
   if(&tb!=tb.children)
   {
         // The node is initialized
+    this->key=tb.key;
     this->data=tb.data;
       
     if(tb.children!=NULL) // node has children
@@ -156,6 +158,7 @@ BidTrie<KEY,DATA_TYPE>::BidTrie(const BidTrie<KEY,DATA_TYPE>& tb)
     if(tb.next!=NULL) // next is not NULL
     {
       this->next=new BidTrie<KEY,DATA_TYPE>;
+      this->next->father=this->father;
       *this->next=*tb.next;
     }
     else this->next=NULL;
@@ -178,6 +181,7 @@ BidTrie<KEY,DATA_TYPE>::operator=(const BidTrie<KEY,DATA_TYPE>& tb)
     if(&tb!=tb.children)
     {
           // The node is initialized
+      this->key=tb.key;
       this->data=tb.data;
       
       if(tb.children!=NULL) // node has children
@@ -191,6 +195,7 @@ BidTrie<KEY,DATA_TYPE>::operator=(const BidTrie<KEY,DATA_TYPE>& tb)
       if(tb.next!=NULL) // next is not NULL
       {
         this->next=new BidTrie<KEY,DATA_TYPE>;
+        this->next->father=this->father;
         *this->next=*tb.next;
       }
       else this->next=NULL;
-- 
2.43.0


From e6ec019484cbf96bd1b346a22b9690ee21de0a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 06/51] fix: WordAligMatrix::getAligVec numbers source
 positions from one, as putAligVec does

---
 src/nlp_common/WordAligMatrix.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/WordAligMatrix.cc b/src/nlp_common/WordAligMatrix.cc
index 85c460e..ca1ebaf 100644
--- a/src/nlp_common/WordAligMatrix.cc
+++ b/src/nlp_common/WordAligMatrix.cc
@@ -116,7 +116,7 @@ bool WordAligMatrix::getAligVec(std::vector<PositionIndex>& aligVec)
     {
       if(matrix[i][j]!=0)
       {
-        if(aligVec[j]==0) aligVec[j]=i;
+        if(aligVec[j]==0) aligVec[j]=i+1;
         else
         {
           aligVec.clear();
-- 
2.43.0


From efe4952c456a1d06212cef9496e2dd89df074442 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 07/51] fix: assigning a WordAligMatrix to itself keeps its
 links

---
 src/nlp_common/WordAligMatrix.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nlp_common/WordAligMatrix.cc b/src/nlp_common/WordAligMatrix.cc
index ca1ebaf..09e5e5e 100644
--- a/src/nlp_common/WordAligMatrix.cc
+++ b/src/nlp_common/WordAligMatrix.cc
@@ -181,6 +181,7 @@ WordAligMatrix& WordAligMatrix::operator= (const WordAligMatrix &waMatrix)
 {
   unsigned int i,j;
 
+  if(this==&waMatrix) return *this;
   init(waMatrix.I,waMatrix.J);
   for(i=0;i<I;++i)
     for(j=0;j<J;++j)
-- 
2.43.0


From 985ac8ecbdf69c37331fc5e74f979ccc6d9de42d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:43 +0000
Subject: [PATCH 08/51] fix: WordAligMatrix subtraction removes the links of
 its operand

---
 src/nlp_common/WordAligMatrix.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nlp_common/WordAligMatrix.cc b/src/nlp_common/WordAligMatrix.cc
index 09e5e5e..285ea28 100644
--- a/src/nlp_common/WordAligMatrix.cc
+++ b/src/nlp_common/WordAligMatrix.cc
@@ -293,8 +293,8 @@ WordAligMatrix& WordAligMatrix::operator-= (const WordAligMatrix &waMatrix)
   {
     for(i=0;i<I;++i)
       for(j=0;j<J;++j)
-        if(matrix[i][j]!=0 && waMatrix.matrix[i][j]==0)	 
-		  matrix[i][j]=1;
+        if(matrix[i][j]!=0 && waMatrix.matrix[i][j]!=0)	 
+		  matrix[i][j]=0;
   }	
   return *this;
 }
-- 
2.43.0


From 4277d287b9e76b076a24b6768bca24fdb34aedb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 09/51] fix: StrProcUtils::getLastWord returns the whole of a
 string's only word

---
 src/nlp_common/StrProcUtils.cc | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/nlp_common/StrProcUtils.cc b/src/nlp_common/StrProcUtils.cc
index 58adfcb..3897751 100644
--- a/src/nlp_common/StrProcUtils.cc
+++ b/src/nlp_common/StrProcUtils.cc
@@ -151,11 +151,11 @@ namespace StrProcUtils
       std::string result;
       unsigned int i;
       
-      i=str.size()-1;
-      while(i>0 && str[i]==' ') --i;
-      while(i>0 && str[i]!=' ') 
+      i=str.size();
+      while(i>0 && str[i-1]==' ') --i;
+      while(i>0 && str[i-1]!=' ') 
       {
-        result=str[i]+result;
+        result=str[i-1]+result;
         --i;
       }
       return result;
-- 
2.43.0


From 751c8d70bf007eca292eea0893a1200c23d45860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:37 +0000
Subject: [PATCH 10/51] fix: AwkInputStream keeps the last character of a file
 without final newline

---
 src/nlp_common/AwkInputStream.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/AwkInputStream.cc b/src/nlp_common/AwkInputStream.cc
index 70d0e2f..61ac6e4 100644
--- a/src/nlp_common/AwkInputStream.cc
+++ b/src/nlp_common/AwkInputStream.cc
@@ -56,7 +56,7 @@ bool AwkInputStream::getln(void)
     read=getline(&buff,&buftlen,filePtr);
     if(read!=-1)
     {
-      buff[read-1]='\0';
+      if(buff[read-1]=='\n') buff[read-1]='\0';
       ++FNR;   
       NF=get_NF();   
       return true;   
-- 
2.43.0


From ef1d54c37302e060a4fc08bfdbf1e53af36767dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:14 +0000
Subject: [PATCH 11/51] fix: encoders loaded from file do not reuse loaded
 codes for new symbols

---
 src/incr_models/vecx_x_incr_enc.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_enc.h b/src/incr_models/vecx_x_incr_enc.h
index 8f5650e..0add176 100644
--- a/src/incr_models/vecx_x_incr_enc.h
+++ b/src/incr_models/vecx_x_incr_enc.h
@@ -294,12 +294,13 @@ bool vecx_x_incr_enc<HX,X>::load(const char *prefixFileName)
   }
   else
   {
-    while(ifile)
+    while(ifile>>hx>>x)
     {
-      ifile>>hx>>x;
           //cout<<s<< " ||| " <<t<<" ||| "<<inf<<std::endl;
       this->hx_to_x[hx]=x;
       this->x_to_hx[x]=hx;
+          // Ensure that codes generated afterwards are not in use
+      if(x_object<x) x_object=x;
     }
     return THOT_OK;
   }  
-- 
2.43.0


From 411730d1090395395244a051853fd31074ad706e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:41 +0000
Subject: [PATCH 12/51] fix: logNumbPermsOfTwoElems returns the log of one for
 a single permutation

---
 src/nlp_common/MathFuncs.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/nlp_common/MathFuncs.cc b/src/nlp_common/MathFuncs.cc
index 38fc250..13b808b 100644
--- a/src/nlp_common/MathFuncs.cc
+++ b/src/nlp_common/MathFuncs.cc
@@ -53,7 +53,7 @@ namespace MathFuncs
  
     if(l<=J)
     {
-      if(l==0) return 1;
+      if(l==0) return 0;
       else
       {
         if(J-l>l)
-- 
2.43.0


From 34f1d1925262a61bc508f85945d64045cb1c8692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:11 +0000
Subject: [PATCH 13/51] fix: prefix edit distance reports a hit only for the
 word being completed

---
 src/error_correction/EditDistForVecString.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/error_correction/EditDistForVecString.cc b/src/error_correction/EditDistForVecString.cc
index 36ea160..43c0f6d 100644
--- a/src/error_correction/EditDistForVecString.cc
+++ b/src/error_correction/EditDistForVecString.cc
@@ -411,7 +411,7 @@ Score EditDistForVecString::processMatrixCellPref(const std::vector<std::string>
     min = dm[i-1][j-1] + subst_cost;
         // Substitution cost is the edit distance between string
         // xVec[i-1] and yVec[j-1]
-    if(x[i-1]==y[j-1] || (!lastWordIsComplete && StrProcUtils::isPrefix(y[j-1],x[i-1])))
+    if(x[i-1]==y[j-1] || (j==(int)y.size() && !lastWordIsComplete && StrProcUtils::isPrefix(y[j-1],x[i-1])))
     {
       op_id=HIT_OP;
     }
-- 
2.43.0


From 1a250095c2150825adab267b18a735608807dfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 14/51] fix: word graph arcs may leave a state beyond the
 largest entered one

---
 src/error_correction/WordGraph.cc | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 2ddf88c..92a7bfe 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -94,7 +94,7 @@ void WordGraph::addArc(HypStateIndex predStateIndex,
   arcsPruned.push_back(false);
   
       // Add the new arc   
-  if(succStateIndex<wordGraphStates.size())
+  if(succStateIndex<wordGraphStates.size() && predStateIndex<wordGraphStates.size())
   {
         // Add arc to predecessor and succesor states
     wordGraphStates[predStateIndex].arcsToSuccStates.push_back(wordGraphArcId);
@@ -102,11 +102,11 @@ void WordGraph::addArc(HypStateIndex predStateIndex,
   }
   else
   {
-        // There were not any arcs to the successor state
+        // There were not any arcs to the predecessor or successor state
     WordGraphStateData wordGraphStateData;
 
         // Add the required number of empty elements to wordGraphStates
-    while(succStateIndex>=wordGraphStates.size())
+    while(succStateIndex>=wordGraphStates.size() || predStateIndex>=wordGraphStates.size())
       wordGraphStates.push_back(wordGraphStateData);
 
         // Add arc to succesor state
-- 
2.43.0


From 9c55a2b5e9e2a79e7764ab97a1468659718eee5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 15/51] fix: excluded word graph arcs are not followed whatever
 the scores behind them

---
 src/error_correction/WordGraph.cc | 14 ++------------
 1 file changed, 2 insertions(+), 12 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 92a7bfe..911e359 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -863,8 +863,8 @@ void WordGraph::calcPrevScoresWeights(HypStateIndex hypStateIndex,
 
     for(WordGraphArcId wgArcId=wgArcIdPair.first;wgArcId<=wgArcIdPair.second;++wgArcId)
     {
-          // Check if arc has not been pruned
-      if(!arcPruned(wgArcId))
+          // Check if arc has not been pruned or excluded
+      if(!arcPruned(wgArcId) && excludedArcs.find(wgArcId)==excludedArcs.end())
       {
         WordGraphArc wordGraphArc=wordGraphArcId2WordGraphArc(wgArcId);
 
@@ -883,16 +883,6 @@ void WordGraph::calcPrevScoresWeights(HypStateIndex hypStateIndex,
         
               // Update score
           Score score=arcScore+prevScores[wordGraphArc.predStateIndex];
-          if(!excludedArcs.empty())
-          {
-                // If predecessor state is the initial state, check that the
-                // first word is not contained in the set of rejected words
-            std::set<WordGraphArcId>::const_iterator wgArcIdSetIter;
-            wgArcIdSetIter=excludedArcs.find(wgArcId);
-            if(wgArcIdSetIter!=excludedArcs.end())
-              score=SMALL_SCORE;
-          }
-        
           if(score<SMALL_SCORE) score=SMALL_SCORE;
           if(score>prevScores[wordGraphArc.succStateIndex])
           {
-- 
2.43.0


From 4731dbdb56800da3555bd19c985b74b2f71f1238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 16/51] fix: word graph pruning counts the score of the initial
 state once

---
 src/error_correction/WordGraph.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 911e359..f2485cd 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1090,7 +1090,9 @@ unsigned int WordGraph::pruneArcsToPredStates(float threshold)
       HypStateIndex predStateIndex=wordGraphArcs[wordGraphArcId].predStateIndex;
       HypStateIndex succStateIndex=wordGraphArcs[wordGraphArcId].succStateIndex;
       Score arcScore=wordGraphArcs[wordGraphArcId].arcScore;
-      Score bestScoreAssociatedToArc=prevScores[predStateIndex]+arcScore+restScores[succStateIndex];
+          // The initial state score is included in both the previous
+          // and the rest scores
+      Score bestScoreAssociatedToArc=prevScores[predStateIndex]+arcScore+restScores[succStateIndex]-initialStateScore;
       // std::cerr<<predStateIndex<<" -> "<<succStateIndex<<" , "<<prevScores[predStateIndex]<<" ";
       // std::cerr<<arcScore<<" "<<restScores[succStateIndex]<<" , "<<bestScoreAssociatedToArc<<" , "<<bestHypScore<<" "<<bestHypScore+logThreshold<<std::endl;
 
-- 
2.43.0


From 1d7c05d7efcb97dadae5601844325bf5fa36bb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 17/51] fix: word graph pruning with threshold zero prunes
 nothing

---
 src/error_correction/WordGraph.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index f2485cd..a063801 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -334,9 +334,9 @@ float WordGraph::calculateDensity(unsigned int numRefSentWords)const
 //---------------------------------------
 unsigned int WordGraph::prune(float threshold)
 {
-  if(threshold==UNLIMITED_DENSITY)
+  if(threshold==UNLIMITED_DENSITY || threshold==0)
   {
-        // unlimited density, every arc is marked as not pruned
+        // no pruning, every arc is marked as not pruned
     for(unsigned int i=0;i<arcsPruned.size();++i)
       arcsPruned[i]=false;
     return 0;
-- 
2.43.0


From 8043c94e8efc6b9ae0804106ccfb17e2e9b0a2f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 18/51] fix: final word graph states unreachable from the
 initial one are not useful

---
 src/error_correction/WordGraph.cc | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index a063801..8d5b49d 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -1163,6 +1163,10 @@ void WordGraph::obtainUsefulStates(std::vector<bool>& stateIsUsefulVec,
   for(unsigned int i=0;i<wordGraphStates.size();++i)
     stateIsUsefulVec.push_back(false);
 
+      // Obtain boolean vector of states reachable from initial node
+  std::vector<bool> stateReachableFromInitVec;
+  obtainStatesReachableFromInit(stateReachableFromInitVec);
+
       // Set vector values for final states
   FinalStateSet::const_iterator fssIter;
   for(fssIter=finalStateSet.begin();fssIter!=finalStateSet.end();++fssIter)
@@ -1182,16 +1186,12 @@ void WordGraph::obtainUsefulStates(std::vector<bool>& stateIsUsefulVec,
         break;
       }
     }
-        // If at least one arc arrives to the final state, mark it as
-        // a useful one
-    if(atLeastOneArcArrivesToState)
+        // If at least one arc arrives to the final state and the state
+        // is reachable from the initial one, mark it as a useful one
+    if(atLeastOneArcArrivesToState && stateReachableFromInitVec[*fssIter])
       stateIsUsefulVec[*fssIter]=true;
   }
 
-      // Obtain boolean vector of states reachable from initial node
-  std::vector<bool> stateReachableFromInitVec;
-  obtainStatesReachableFromInit(stateReachableFromInitVec);
-  
       // Reverse iteration over the arcs (arcs are assumed to be
       // topologically ordered)
   for(WordGraphArcId wgArcId=0;wgArcId<wordGraphArcs.size();++wgArcId)
-- 
2.43.0


From 6d847c8579da4667d71016fe285845612770f72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:55:45 +0000
Subject: [PATCH 19/51] fix: topological ordering of word graph arcs keeps arc
 data and state lists in step

---
 src/error_correction/WordGraph.cc | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/error_correction/WordGraph.cc b/src/error_correction/WordGraph.cc
index 8d5b49d..efac2c0 100644
--- a/src/error_correction/WordGraph.cc
+++ b/src/error_correction/WordGraph.cc
@@ -716,8 +716,14 @@ void WordGraph::obtainWgComposedOfUsefulStates(void)
 //---------------------------------------
 void WordGraph::orderArcsTopol(void)
 {
+      // Check if there is something to order
+  if(empty())
+    return;
+
       // Define auxiliary variables
   WordGraphArcs wordGraphArcsAux;
+  std::vector<bool> arcsPrunedAux;
+  std::vector<std::vector<Score> > scrCompsVecAux;
 
   std::vector<bool> arcAdded;
   arcAdded.insert(arcAdded.begin(),wordGraphArcs.size(),false);
@@ -773,6 +779,8 @@ void WordGraph::orderArcsTopol(void)
           atLeastOneArcAdded=true;
               // Add arc
           wordGraphArcsAux.push_back(wgArc);
+          arcsPrunedAux.push_back(arcsPruned[wgArcId]);
+          scrCompsVecAux.push_back(scrCompsVec[wgArcId]);
               // Mark arc as added
           arcAdded[wgArcId]=true;
               // Close state
@@ -792,8 +800,22 @@ void WordGraph::orderArcsTopol(void)
       // Check if new arc ordering has been successfully obtained
   if(wordGraphArcsAux.size()==wordGraphArcs.size())
   {
-        // Replace wordGraphArcs with wordGraphArcsAux
+        // Replace arc information with the ordered one
     wordGraphArcs=wordGraphArcsAux;
+    arcsPruned=arcsPrunedAux;
+    scrCompsVec=scrCompsVecAux;
+
+        // Regenerate arc indices stored in the states
+    for(HypStateIndex idx=0;idx<wordGraphStates.size();++idx)
+    {
+      wordGraphStates[idx].arcsToPredStates.clear();
+      wordGraphStates[idx].arcsToSuccStates.clear();
+    }
+    for(WordGraphArcId wgArcId=0;wgArcId<wordGraphArcs.size();++wgArcId)
+    {
+      wordGraphStates[wordGraphArcs[wgArcId].predStateIndex].arcsToSuccStates.push_back(wgArcId);
+      wordGraphStates[wordGraphArcs[wgArcId].succStateIndex].arcsToPredStates.push_back(wgArcId);
+    }
   }
 
 }
-- 
2.43.0


From ea305389365173c0df5505dbfd1340eca21dd040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 20/51] fix: top and last of a multi-stack are its best and
 worst hypotheses

---
 src/stack_dec/_smtMultiStack.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/stack_dec/_smtMultiStack.h b/src/stack_dec/_smtMultiStack.h
index c23a4a9..7c79ed0 100644
--- a/src/stack_dec/_smtMultiStack.h
+++ b/src/stack_dec/_smtMultiStack.h
@@ -150,7 +150,7 @@ HYPOTHESIS _smtMultiStack<HYPOTHESIS>::top(void)
   result=pos->second.top();
   if(!breadthFirst) 
   {
-    bestScore=aux.getScore();
+    bestScore=result.getScore();
   
         // For each non-empty stack stored in the map (except the first
         // one)...
@@ -196,7 +196,7 @@ HYPOTHESIS _smtMultiStack<HYPOTHESIS>::last(void)
     pos=sortedStacksMapIter->second;
     posWorst=pos;
     result=pos->second.last();
-    worstScore=aux.getScore();
+    worstScore=result.getScore();
     
         // For each non-empty stack stored in the map (except the first
         // one)...
@@ -204,7 +204,7 @@ HYPOTHESIS _smtMultiStack<HYPOTHESIS>::last(void)
     {
       pos=sortedStacksMapIter->second;
       aux=pos->second.last(); 
-      if(aux.getScore()>worstScore)
+      if(aux.getScore()<worstScore)
       {
         result=aux;
         worstScore=aux.getScore();
-- 
2.43.0


From 7cbd2c767c3abc31dd8662748a57fd00bbe6fa8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:31 +0000
Subject: [PATCH 21/51] fix: removeLast removes the worst hypothesis of a
 multi-stack

---
 src/stack_dec/SmtMultiStackRec.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/stack_dec/SmtMultiStackRec.h b/src/stack_dec/SmtMultiStackRec.h
index 054e67c..d8fb8b8 100644
--- a/src/stack_dec/SmtMultiStackRec.h
+++ b/src/stack_dec/SmtMultiStackRec.h
@@ -261,7 +261,8 @@ void SmtMultiStackRec<HYPOTHESIS_REC>::removeLast(void)
         // one)...
     for(;sortedStacksMapIter!=this->sortedStacksMap.end();++sortedStacksMapIter) 
     {
-      if(pos->second.last().getScore()>worstScore)
+      pos=sortedStacksMapIter->second;
+      if(pos->second.last().getScore()<worstScore)
       {
         worstScore=pos->second.last().getScore();
         posWorst=pos;
-- 
2.43.0


From f0f748516dc7106098e2ad287ea7237b2accd788 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 22/51] fix: querying an unknown phrase pair does not add a
 target phrase to the table

---
 src/phrase_models/StlPhraseTable.cc | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/phrase_models/StlPhraseTable.cc b/src/phrase_models/StlPhraseTable.cc
index 512ba01..c32daf4 100644
--- a/src/phrase_models/StlPhraseTable.cc
+++ b/src/phrase_models/StlPhraseTable.cc
@@ -317,6 +317,10 @@ Count StlPhraseTable::getSrcTrgInfo(const std::vector<WordIndex>& s,
                                     const std::vector<WordIndex>& t,
                                     bool &found)
 {
+    // Querying must not add information to the table
+    getTrgInfo(t, found);
+    if (!found) return 0;
+
     SrcTrgKey srcTrgKey = getSrcTrgKey(s, t, found);
     if (!found) return 0;
 
@@ -390,6 +394,10 @@ bool StlPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
     bool found;
     srctn.clear();  // Make sure that structure does not keep old values
 
+    // Querying must not add information to the table
+    getTrgInfo(t, found);
+    if (!found || srcPhraseInfo.empty()) return false;
+
     // Prepare iterators
     SrcTrgKey srcTrgBegin = getSrcTrgKey(srcPhraseInfo.begin()->first, t, found);
     if (!found) return false;
-- 
2.43.0


From fb037e1cfdf5967e31ab350188d4421abf219696 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 23/51] fix: phrase pairs added before their source phrase are
 stored under it

---
 src/phrase_models/StlPhraseTable.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/phrase_models/StlPhraseTable.cc b/src/phrase_models/StlPhraseTable.cc
index c32daf4..6cad357 100644
--- a/src/phrase_models/StlPhraseTable.cc
+++ b/src/phrase_models/StlPhraseTable.cc
@@ -225,6 +225,9 @@ void StlPhraseTable::addSrcTrgInfo(const std::vector<WordIndex>& s,
 
         std::cerr << "Make sure that entries for s phrase and t phrase are added before adding (s, t) entry" << std::endl;
         std::cerr << "Missing parts have been added with count 0" << std::endl;
+
+        // Obtain key again now that its parts exist
+        srcTrgKey = getSrcTrgKey(s, t, found);
     }
 
     // Update entry value
-- 
2.43.0


From d89e5ea230bb167feacbf698b880a423e91ff64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 24/51] fix: iteration over a HAT-trie table without counted
 target phrases is empty

---
 src/phrase_models/HatTriePhraseTable.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/phrase_models/HatTriePhraseTable.cc b/src/phrase_models/HatTriePhraseTable.cc
index b9fca7b..e93e554 100644
--- a/src/phrase_models/HatTriePhraseTable.cc
+++ b/src/phrase_models/HatTriePhraseTable.cc
@@ -555,7 +555,8 @@ HatTriePhraseTable::const_iterator HatTriePhraseTable::begin(void) const
 {
     // Shift the iterator to the first target phrase
     PhraseTable::const_iterator iterTrgBegin = phraseTable.begin();
-    while (!isTargetPhrase(keyToVector(iterTrgBegin.key())))
+    while (iterTrgBegin != phraseTable.end() &&
+           (!isTargetPhrase(keyToVector(iterTrgBegin.key())) || iterTrgBegin.value().get_c_s() == 0))
     {
         iterTrgBegin++;
     }
-- 
2.43.0


From d028edc57afe43aec010b16e4c0a3821f8edc427 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 25/51] fix: HAT-trie table lists translations with counts
 below one

---
 src/phrase_models/HatTriePhraseTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/HatTriePhraseTable.cc b/src/phrase_models/HatTriePhraseTable.cc
index e93e554..73cc510 100644
--- a/src/phrase_models/HatTriePhraseTable.cc
+++ b/src/phrase_models/HatTriePhraseTable.cc
@@ -445,7 +445,7 @@ bool HatTriePhraseTable::getEntriesForSource(const std::vector<WordIndex>& s,
         ppi.first = cTrg(trgPhrase);  // t count
         ppi.second = iter.value();  // (s, t) count
 
-        if ((int) ppi.first.get_c_s() == 0 || (int) ppi.second.get_c_s() == 0)
+        if (fabs(ppi.first.get_c_s()) < EPSILON || fabs(ppi.second.get_c_s()) < EPSILON)
             continue;
 
         trgtn.insert(std::pair<std::vector<WordIndex>, PhrasePairInfo>(trgPhrase, ppi));
-- 
2.43.0


From 10181a12cb71b718d696b6449c4acb6165840295 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 26/51] fix: LevelDB table accumulates target counts of added
 entries as other tables do

---
 src/phrase_models/LevelDbPhraseTable.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/phrase_models/LevelDbPhraseTable.cc b/src/phrase_models/LevelDbPhraseTable.cc
index c50a7a0..526c51d 100644
--- a/src/phrase_models/LevelDbPhraseTable.cc
+++ b/src/phrase_models/LevelDbPhraseTable.cc
@@ -269,8 +269,11 @@ void LevelDbPhraseTable::addTableEntry(const std::vector<WordIndex>& s,
                                        const std::vector<WordIndex>& t,
                                        PhrasePairInfo inf)
 {
+    Count t_count = cTrg(t);
+
     addSrcInfo(s, inf.first.get_c_s());  // (USUSED_WORD, s)
-    storeData(t, (int) round(inf.second.get_c_s()));  // (t)
+    // Values for target are not summed with the old one thus they have to aggregated here
+    storeData(t, (int) round((t_count + inf.second).get_c_s()));  // (t)
     addSrcTrgInfo(s, t, (int) round(inf.second.get_c_st())); // (t, UNUSED_WORD, s)
 }
 
-- 
2.43.0


From 929c4621a6cf67b3ce02265655e731f3f71d1af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:56 +0000
Subject: [PATCH 27/51] fix: LevelDB table reports translations only when there
 are any

---
 src/phrase_models/LevelDbPhraseTable.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/phrase_models/LevelDbPhraseTable.cc b/src/phrase_models/LevelDbPhraseTable.cc
index 526c51d..8f21239 100644
--- a/src/phrase_models/LevelDbPhraseTable.cc
+++ b/src/phrase_models/LevelDbPhraseTable.cc
@@ -435,8 +435,7 @@ bool LevelDbPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
     
     srctn.clear();  // Make sure that structure does not keep old values
     
-    int i = 0;
-    for(it->Seek(start); it->Valid() && it->key().ToString() < end.ToString(); it->Next(), i++) {
+    for(it->Seek(start); it->Valid() && it->key().ToString() < end.ToString(); it->Next()) {
         std::vector<WordIndex> vec = keyToVector(it->key().ToString());
         std::vector<WordIndex> src(vec.begin() + start_vec.size(), vec.end());
 
@@ -451,7 +450,7 @@ bool LevelDbPhraseTable::getEntriesForTarget(const std::vector<WordIndex>& t,
 
     delete it;
 
-    return i > 0 && found;
+    return srctn.size() > 0 && found;
 }
 
 //-------------------------
-- 
2.43.0


From 96d9764fba684406f4a6010528502e654d82bfdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:57 +0000
Subject: [PATCH 28/51] fix: no phrase pair with an empty source phrase is
 extracted

---
 src/phrase_models/PhraseExtractionTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/PhraseExtractionTable.cc b/src/phrase_models/PhraseExtractionTable.cc
index 546861d..9e48a33 100644
--- a/src/phrase_models/PhraseExtractionTable.cc
+++ b/src/phrase_models/PhraseExtractionTable.cc
@@ -1002,7 +1002,7 @@ bool PhraseExtractionTable::validCoverageForCell(Bitset<MAX_SENTENCE_LENGTH>& c,
      if(c.test(i)==0) return false;
      else ++numAlig;
    }
-   if(numAlig>maxSrcPhraseLength) return false;
+   if(numAlig==0 || numAlig>maxSrcPhraseLength) return false;
  }
  else
  { //Obtain leftmost source (e) position covered	  
-- 
2.43.0


From d000cc6bc94ac1939d4a506eaaefe59257a902ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 29/51] fix: long alignment file names do not overflow the
 alignment container

---
 src/phrase_models/AlignmentContainer.cc | 8 ++++----
 src/phrase_models/AlignmentContainer.h  | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/phrase_models/AlignmentContainer.cc b/src/phrase_models/AlignmentContainer.cc
index bcd891b..1307cb8 100644
--- a/src/phrase_models/AlignmentContainer.cc
+++ b/src/phrase_models/AlignmentContainer.cc
@@ -33,7 +33,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 AlignmentContainer::AlignmentContainer(void)
 {
  numAlignments=0;	
- GizaAligFileName[0]=0;	
+ GizaAligFileName.clear();
 }
 
 //-------------------------
@@ -59,7 +59,7 @@ bool AlignmentContainer::extractAlignmentsFromGIZAFile(const char *_GizaAligFile
  }
  else
  {
-   sprintf(GizaAligFileName,"%s",_GizaAligFileName);
+   GizaAligFileName=_GizaAligFileName;
 	   
    while(alignmentExtractor.getNextAlignment())
    {
@@ -371,7 +371,7 @@ bool AlignmentContainer::printNoCompact(std::ostream &outS)
   char cad[128];
   unsigned int numSent=0;
 	
-  if(alignmentExtractor.open(GizaAligFileName)==THOT_ERROR)
+  if(alignmentExtractor.open(GizaAligFileName.c_str())==THOT_ERROR)
   {
     return THOT_ERROR;
   }
@@ -412,7 +412,7 @@ bool AlignmentContainer::printNoCompact(FILE *file)
   char cad[128];
   unsigned int numSent=0;
 	
-  if(alignmentExtractor.open(GizaAligFileName)==THOT_ERROR)
+  if(alignmentExtractor.open(GizaAligFileName.c_str())==THOT_ERROR)
   {
     return THOT_ERROR;
   }
diff --git a/src/phrase_models/AlignmentContainer.h b/src/phrase_models/AlignmentContainer.h
index e23dbd6..03df748 100644
--- a/src/phrase_models/AlignmentContainer.h
+++ b/src/phrase_models/AlignmentContainer.h
@@ -95,7 +95,7 @@ class AlignmentContainer
 	std::map<std::string,unsigned int> tVocab;
 	std::vector<std::string> sVocabInv;
 	std::vector<std::string> tVocabInv;
-    char GizaAligFileName[256];	
+    std::string GizaAligFileName;
 	unsigned long numAlignments;
 };
 
-- 
2.43.0


From dd5dac409d5dfb41f3e238aab074848b0153306d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:07:02 +0000
Subject: [PATCH 30/51] fix: alignments of transposed files are printed in
 non-compact form

---
 src/phrase_models/AlignmentContainer.cc | 4 ++++
 src/phrase_models/AlignmentContainer.h  | 1 +
 2 files changed, 5 insertions(+)

diff --git a/src/phrase_models/AlignmentContainer.cc b/src/phrase_models/AlignmentContainer.cc
index 1307cb8..cea4811 100644
--- a/src/phrase_models/AlignmentContainer.cc
+++ b/src/phrase_models/AlignmentContainer.cc
@@ -34,6 +34,7 @@ AlignmentContainer::AlignmentContainer(void)
 {
  numAlignments=0;	
  GizaAligFileName.clear();
+ GizaAligFileTransposed=false;
 }
 
 //-------------------------
@@ -60,6 +61,7 @@ bool AlignmentContainer::extractAlignmentsFromGIZAFile(const char *_GizaAligFile
  else
  {
    GizaAligFileName=_GizaAligFileName;
+   GizaAligFileTransposed=transpose;
 	   
    while(alignmentExtractor.getNextAlignment())
    {
@@ -379,6 +381,7 @@ bool AlignmentContainer::printNoCompact(std::ostream &outS)
   {	   
     while(alignmentExtractor.getNextAlignment())
 	{
+      if(GizaAligFileTransposed) alignmentExtractor.transposeAlig();
       t=alignmentExtractor.get_t();
       ns=alignmentExtractor.get_ns();
       t_ui=vecString2VecUnsigInt(t,tVocab,tVocabInv);	
@@ -420,6 +423,7 @@ bool AlignmentContainer::printNoCompact(FILE *file)
   {	   
     while(alignmentExtractor.getNextAlignment())
 	{
+      if(GizaAligFileTransposed) alignmentExtractor.transposeAlig();
       t=alignmentExtractor.get_t();
       ns=alignmentExtractor.get_ns();
       t_ui=vecString2VecUnsigInt(t,tVocab,tVocabInv);	
diff --git a/src/phrase_models/AlignmentContainer.h b/src/phrase_models/AlignmentContainer.h
index 03df748..1c97017 100644
--- a/src/phrase_models/AlignmentContainer.h
+++ b/src/phrase_models/AlignmentContainer.h
@@ -96,6 +96,7 @@ class AlignmentContainer
 	std::vector<std::string> sVocabInv;
 	std::vector<std::string> tVocabInv;
     std::string GizaAligFileName;
+    bool GizaAligFileTransposed;
 	unsigned long numAlignments;
 };
 
-- 
2.43.0


From e693bafd34dd582669770d439a75d8b4eac96a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 31/51] fix: segmentation lengths at the limit are not read
 beyond the table

---
 src/phrase_models/SegLenTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/SegLenTable.cc b/src/phrase_models/SegLenTable.cc
index 9fb6ba7..edc716e 100644
--- a/src/phrase_models/SegLenTable.cc
+++ b/src/phrase_models/SegLenTable.cc
@@ -40,7 +40,7 @@ SegLenTable::SegLenTable(void)
 //-------------------------
 Prob SegLenTable::pk_tlen(unsigned int tlen,unsigned int k)
 {
-  if(tlen>MAX_SENTENCE_LENGTH || k>MAX_SENTENCE_LENGTH)
+  if(tlen>=MAX_SENTENCE_LENGTH || k>=MAX_SENTENCE_LENGTH)
   {
     return 0;
   }
-- 
2.43.0


From 32d561fa477e065bd7901c00fc14cf58d9d7616a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 32/51] fix: negative lengths in segmentation length tables are
 skipped

---
 src/phrase_models/SegLenTable.cc | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/phrase_models/SegLenTable.cc b/src/phrase_models/SegLenTable.cc
index edc716e..5fc216f 100644
--- a/src/phrase_models/SegLenTable.cc
+++ b/src/phrase_models/SegLenTable.cc
@@ -123,7 +123,9 @@ bool SegLenTable::load_seglentable(const char *segmLengthTableFileName)
    {
      if(awk.NF==3)
      {
-       if(atoi(awk.dollar(1).c_str())<MAX_SENTENCE_LENGTH &&
+       if(atoi(awk.dollar(1).c_str())>=0 &&
+          atoi(awk.dollar(1).c_str())<MAX_SENTENCE_LENGTH &&
+          atoi(awk.dollar(2).c_str())>=0 &&
           atoi(awk.dollar(2).c_str())<MAX_SENTENCE_LENGTH)
        {
          segmLengthCount[atoi(awk.dollar(1).c_str())][atoi(awk.dollar(2).c_str())]=atof(awk.dollar(3).c_str());
-- 
2.43.0


From 067eef92fb70814628eba35c8d3da0e8f1322c17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:38 +0000
Subject: [PATCH 33/51] fix: large segmentation length counts are printed
 exactly

---
 src/phrase_models/SegLenTable.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/phrase_models/SegLenTable.cc b/src/phrase_models/SegLenTable.cc
index 5fc216f..4932f0a 100644
--- a/src/phrase_models/SegLenTable.cc
+++ b/src/phrase_models/SegLenTable.cc
@@ -153,7 +153,7 @@ void SegLenTable::printSegmLengthTable(std::ostream &outS)
    {
      if(segmLengthCount[i][j]>0)
      {
-       outS<< i << " " << j << " " << segmLengthCount[i][j] <<"\n";
+       outS<< i << " " << j << " " << std::setprecision(17) << segmLengthCount[i][j] <<"\n";
      }
    }
 }
-- 
2.43.0


From 1b4a1530d104a872443edfecbe6246e127c798df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 34/51] fix: target counts of n-gram tables add up the n-grams
 ending in the word

---
 src/incr_models/vecx_x_incr_cptable.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_cptable.h b/src/incr_models/vecx_x_incr_cptable.h
index febd76e..6c055fe 100644
--- a/src/incr_models/vecx_x_incr_cptable.h
+++ b/src/incr_models/vecx_x_incr_cptable.h
@@ -598,7 +598,7 @@ template<class X,class SRC_INFO,class SRCTRG_INFO>
 Count vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::cTrg(const X& t)
 {
   typename SrcTrgInfo::const_iterator titer;
-  Count c_t=SMALL_LG_NUM;
+  Count c_t=0;
   
   for(titer=srcTrgInfo.begin();titer!=srcTrgInfo.end();++titer)
   {
@@ -606,7 +606,7 @@ Count vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::cTrg(const X& t)
     {
       if(titer->first.size()>1)
       {
-        if(titer->first[0]==t)
+        if(titer->first.back()==t)
         {
           c_t=(float)c_t+(float)titer->second.get_c_st();
         }
@@ -677,7 +677,7 @@ LogCount vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::lcTrg(const X& t)
     {
       if(titer->first.size()>1)
       {
-        if(titer->first[0]==t)
+        if(titer->first.back()==t)
         {
           lc_t=MathFuncs::lns_sumlog(lc_t,titer->second.get_lc_st());
         }
-- 
2.43.0


From d1312df1be00426b63a975ff8e277558c87074fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 35/51] fix: n-grams of histories without counts have no
 log-probability

---
 src/incr_models/vecx_x_incr_cptable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/incr_models/vecx_x_incr_cptable.h b/src/incr_models/vecx_x_incr_cptable.h
index 6c055fe..b80aaa9 100644
--- a/src/incr_models/vecx_x_incr_cptable.h
+++ b/src/incr_models/vecx_x_incr_cptable.h
@@ -391,7 +391,7 @@ LgProb vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::logpTrgGivenSrc(const std::v
   }
   else
   {
-    if((float)psst.first<=SMALL_LG_NUM) return SMALL_LG_NUM;
+    if((float)psst.first==0) return SMALL_LG_NUM;
     else
     {
       return (float)psst.second.get_lc_st()-(float)psst.first.get_lc_s();
-- 
2.43.0


From 856ac69ce87f921e2c8e8f5d33ca996908accd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 36/51] fix: n-grams stored without their history are listed
 with history count zero

---
 src/incr_models/vecx_x_incr_cptable.h | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_cptable.h b/src/incr_models/vecx_x_incr_cptable.h
index b80aaa9..c614f90 100644
--- a/src/incr_models/vecx_x_incr_cptable.h
+++ b/src/incr_models/vecx_x_incr_cptable.h
@@ -453,7 +453,8 @@ bool vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::getEntriesForSource(const std:
         if(vecx==s)
         {
           pdp.first=titer->first.back();
-          pdp.second.first=*siPtr;
+          if(siPtr!=NULL) pdp.second.first=*siPtr;
+          else pdp.second.first=0;
           pdp.second.second=titer->second;
           trgtn.insert(pdp);
         }
@@ -487,7 +488,9 @@ vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::getEntriesForTarget(const X& t,type
           {
             pdp.first.push_back(titer->first[i]);
           }
-          pdp.second.first=*srcInfo.find(pdp.first);
+          SRC_INFO* siPtr=srcInfo.find(pdp.first);
+          if(siPtr!=NULL) pdp.second.first=*siPtr;
+          else pdp.second.first=0;
           pdp.second.second=titer->second;
           tnode.insert(pdp);
         }
@@ -504,17 +507,14 @@ bool vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::getNbestForSrc(const std::vect
 {
   TrgTableNode tnode;
   typename TrgTableNode::iterator tNodeIter;
-  SRC_INFO* siPtr;
   bool ret;
 
   nbt.clear();
   ret=getEntriesForSource(s,tnode);
 
-  siPtr=srcInfo.find(s);
-
   for(tNodeIter=tnode.begin();tNodeIter!=tnode.end();++tNodeIter)
   {
-    nbt.insert((float)tNodeIter->second.second.get_lc_st()-(float)siPtr->get_lc_s(),tNodeIter->first);
+    nbt.insert((float)tNodeIter->second.second.get_lc_st()-(float)tNodeIter->second.first.get_lc_s(),tNodeIter->first);
   }
   return ret;  
 }
@@ -533,10 +533,7 @@ bool vecx_x_incr_cptable<X,SRC_INFO,SRCTRG_INFO>::getNbestForTrg(const X& t,
   ret=getEntriesForTarget(t,tnode);
   for(tNodeIter=tnode.begin();tNodeIter!=tnode.end();++tNodeIter)
   {
-    SRC_INFO* siPtr;
-
-    siPtr=srcInfo.find(tNodeIter->first);
-    nbt.insert((float)tNodeIter->second.second.get_lc_st()-(float)siPtr->get_lc_s(),tNodeIter->first);
+    nbt.insert((float)tNodeIter->second.second.get_lc_st()-(float)tNodeIter->second.first.get_lc_s(),tNodeIter->first);
   }
 
   if(N>=0)
-- 
2.43.0


From 88d34cf04dbf13e5fd1caf85c69091dccec015da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 37/51] fix: LevelDB n-gram table gives unseen n-grams inverse
 probability zero

---
 src/incr_models/LevelDbNgramTable.cc | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index 2faca8a..b067755 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -451,16 +451,21 @@ Prob LevelDbNgramTable::pSrcGivenTrg(const std::vector<WordIndex>& s,
         if ((float) t_count > 0)
             return (float) st_count.get_c_st() / (float) t_count.get_c_s();
         else
-            return SMALL_LG_NUM;
+            return 0;
     }
-    else return SMALL_LG_NUM;
+    else return 0;
 }
 
 //-------------------------
 LgProb LevelDbNgramTable::logpSrcGivenTrg(const std::vector<WordIndex>& s,
                                           const WordIndex& t)
 {
-    return pSrcGivenTrg(s,t).get_lp();
+    Prob p = pSrcGivenTrg(s, t);
+
+    if ((double) p == 0.0)
+        return SMALL_LG_NUM;
+    
+    return p.get_lp();
 }
 
 //-------------------------
-- 
2.43.0


From 75e591ef357c1f577c944c3757fb269e38514760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 38/51] fix: LevelDB n-gram table lists counted histories of a
 word only

---
 src/incr_models/LevelDbNgramTable.cc | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index b067755..fe9d09a 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -490,6 +490,9 @@ bool LevelDbNgramTable::getEntriesForTarget(const WordIndex& t,
             pdp.second.first = cSrc(src);
             pdp.second.second = x.second;
 
+            if (fabs(pdp.second.second.get_c_st()) < EPSILON)  // Compare to 0
+                continue;
+
             tnode.insert(pdp);
         }
     }
-- 
2.43.0


From 80fdda1fa8dbb1f66d28a9a96b4aa437c376d502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 39/51] fix: LevelDB n-gram table can be asked for the words of
 the empty history

---
 src/incr_models/LevelDbNgramTable.cc | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index fe9d09a..029e26e 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -507,6 +507,11 @@ bool LevelDbNgramTable::getEntriesForSource(const std::vector<WordIndex>& s,
     bool found;
     std::pair<WordIndex, im_pair<Count, Count> > pdp;  // Data structure format: (t, (count(s), count(s, t)))
 
+    trgtn.clear();  // Make sure that structure does not keep old values
+
+    if (s.empty())  // Entries of the empty history are not listed
+        return false;
+
     Count s_count = cSrc(s);  // Retrieve count(s)
 
     // Define key range in which we look for target phrases
@@ -526,8 +531,6 @@ bool LevelDbNgramTable::getEntriesForSource(const std::vector<WordIndex>& s,
     // Iterate over the defined key range and populate valid results
     leveldb::Iterator* it = db->NewIterator(leveldb::ReadOptions());
     
-    trgtn.clear();  // Make sure that structure does not keep old values
-    
     for(it->Seek(start); it->Valid() && it->key().ToString() < end.ToString(); it->Next())
     {
         std::vector<WordIndex> vec = keyToVector(it->key().ToString());
-- 
2.43.0


From c5745d4db3363179fe31036857253ae414f66578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:49:53 +0000
Subject: [PATCH 40/51] fix: LevelDB n-gram table stores counts with full
 precision

---
 src/incr_models/LevelDbNgramTable.cc | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/incr_models/LevelDbNgramTable.cc b/src/incr_models/LevelDbNgramTable.cc
index 029e26e..1e6cbea 100644
--- a/src/incr_models/LevelDbNgramTable.cc
+++ b/src/incr_models/LevelDbNgramTable.cc
@@ -150,6 +150,7 @@ bool LevelDbNgramTable::retrieveData(const std::vector<WordIndex>& phrase, float
 bool LevelDbNgramTable::storeData(const std::string key, float count)
 {
     std::stringstream ss;
+    ss.precision(9);  // Enough digits to restore any float value
     ss << count;
     std::string count_str = ss.str();
 
-- 
2.43.0


From 51a84b4a8c53d73958b5c7f37152ff4ddb663efa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:44 +0000
Subject: [PATCH 41/51] fix: repeated new words of an n-gram share one code

---
 src/incr_models/vecx_x_incr_enc.h | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/incr_models/vecx_x_incr_enc.h b/src/incr_models/vecx_x_incr_enc.h
index 0add176..ded2ca9 100644
--- a/src/incr_models/vecx_x_incr_enc.h
+++ b/src/incr_models/vecx_x_incr_enc.h
@@ -225,8 +225,18 @@ std::vector<X> vecx_x_incr_enc<HX,X>::genHSrcCode(const std::vector<HX> &hs)
     iter=hx_to_x.find(hs[i]);
     if(iter==hx_to_x.end())
     {
-      ++x_object;
-      vecx.push_back(x_object);
+          // Reuse the code generated for a previous occurrence in hs
+      unsigned int j=0;
+      while(hs[j]!=hs[i]) ++j;
+      if(j<i)
+      {
+        vecx.push_back(vecx[j]);
+      }
+      else
+      {
+        ++x_object;
+        vecx.push_back(x_object);
+      }
     }
     else
     {
-- 
2.43.0


From 0457ef26b89f9360cc0734e749d7333948cf403a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:44 +0000
Subject: [PATCH 42/51] fix: blank and incomplete lines of n-gram files are
 skipped

---
 src/incr_models/_incrNgramLM.h | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/incr_models/_incrNgramLM.h b/src/incr_models/_incrNgramLM.h
index 35118da..9a6eb21 100644
--- a/src/incr_models/_incrNgramLM.h
+++ b/src/incr_models/_incrNgramLM.h
@@ -483,7 +483,7 @@ bool _incrNgramLM<SRC_INFO,SRCTRG_INFO>::load_ngrams(const char *fileName)
         // need to know the order before adding any n-gram)
     while(awk.getln())
     {
-      if(ngramOrder<awk.NF-2) ngramOrder=awk.NF-2;
+      if(awk.NF>2 && ngramOrder<awk.NF-2) ngramOrder=awk.NF-2;
     }
 
         // Rewind file
@@ -492,15 +492,12 @@ bool _incrNgramLM<SRC_INFO,SRCTRG_INFO>::load_ngrams(const char *fileName)
         // Read n-grams
     while(awk.getln())
     {
-      if(awk.NF>1)
+      if(awk.NF>2)
       {
         hs.clear();
-        if(awk.NF>2)
+        for(i=1;i<awk.NF-2;++i)
         {
-          for(i=1;i<awk.NF-2;++i)
-          {
-            hs.push_back(awk.dollar(i));
-          }
+          hs.push_back(awk.dollar(i));
         }
         ht=awk.dollar(awk.NF-2);
         inf.first=atof(awk.dollar(awk.NF-1).c_str());
-- 
2.43.0


From 0433e135285ace37981e4031f424a6b89b2c5a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:44 +0000
Subject: [PATCH 43/51] fix: blank lines do not count as sentences of the
 previous probability

---
 src/nlp_common/BaseNgramLM.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/nlp_common/BaseNgramLM.h b/src/nlp_common/BaseNgramLM.h
index 89ddaf6..e1e3edb 100644
--- a/src/nlp_common/BaseNgramLM.h
+++ b/src/nlp_common/BaseNgramLM.h
@@ -289,9 +289,9 @@ int BaseNgramLM<LM_STATE>::perplexity(const char *corpusFileName,
           else std::cerr<<v[i]<<std::endl;
         }
       }
+      totalLogProb+=logp;
+      ++numOfSentences;
     }
-    totalLogProb+=logp; 
-    ++numOfSentences;	 
   }
 
   perp=exp(-((double)totalLogProb/(numWords+numOfSentences))*M_LN10);
-- 
2.43.0


From 9ff04fb4df6297555b32251b170d7f6643bf31dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:25:44 +0000
Subject: [PATCH 44/51] fix: clearing the encoder of a language model keeps the
 standard symbols

---
 src/incr_models/lm_ienc.cc | 11 +++++++++++
 src/incr_models/lm_ienc.h  |  7 +++++++
 2 files changed, 18 insertions(+)

diff --git a/src/incr_models/lm_ienc.cc b/src/incr_models/lm_ienc.cc
index d283ccc..46518f9 100644
--- a/src/incr_models/lm_ienc.cc
+++ b/src/incr_models/lm_ienc.cc
@@ -31,6 +31,17 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 
 //---------------
 lm_ienc::lm_ienc():vecx_x_incr_enc<std::string,WordIndex>()
+{
+  addStandardSymbols();
+}
+
+void lm_ienc::clear(void)
+{
+  vecx_x_incr_enc<std::string,WordIndex>::clear();
+  addStandardSymbols();
+}
+
+void lm_ienc::addStandardSymbols(void)
 {
       // Introduce standard symbols
   addHTrgCode(UNK_SYMBOL_STR,UNK_SYMBOL);
diff --git a/src/incr_models/lm_ienc.h b/src/incr_models/lm_ienc.h
index e1d3881..719e274 100644
--- a/src/incr_models/lm_ienc.h
+++ b/src/incr_models/lm_ienc.h
@@ -62,6 +62,13 @@ class lm_ienc: public vecx_x_incr_enc<std::string,WordIndex>
        // ("hs" exists in the vocabulary).  s stores the corresponding
        // code if exists, or a not valid one otherwise
    bool HighTrg_to_Trg(const std::string& ht,WordIndex& t);
+
+   void clear(void);
+       // Removes every word except the standard symbols
+
+  protected:
+
+   void addStandardSymbols(void);
        // The same for HX objects
 
 };
-- 
2.43.0


From 8f3d11fc443a38bd295a339c74668774e888bca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:29:37 +0000
Subject: [PATCH 45/51] fix: completions of the empty prefix keep their first
 character

---
 src/incr_models/WordPredictor.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/incr_models/WordPredictor.cc b/src/incr_models/WordPredictor.cc
index 34d1311..e8bfb1e 100644
--- a/src/incr_models/WordPredictor.cc
+++ b/src/incr_models/WordPredictor.cc
@@ -188,7 +188,8 @@ void WordPredictor::getSuffixList(std::string input,
             // finish the iteration over the words that starts with the
             // prefix input
 
-        for(i=1;i<trieIter->first.size();++i)
+            // The key includes the last character of the prefix, if any
+        for(i=(input.size()>0)?1:0;i<trieIter->first.size();++i)
         {
           suff.push_back(trieIter->first[i]);
         }
-- 
2.43.0


From 442efe7d4a7105320ca6bd01372e99e57024a07c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:38 +0000
Subject: [PATCH 46/51] fix: a cleared trie does not keep the data of its first
 node

---
 src/nlp_common/Trie.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/nlp_common/Trie.h b/src/nlp_common/Trie.h
index 358c44e..cbe293c 100644
--- a/src/nlp_common/Trie.h
+++ b/src/nlp_common/Trie.h
@@ -250,6 +250,7 @@ Trie<KEY,DATA_TYPE>* Trie<KEY,DATA_TYPE>::insert(const std::vector<KEY>& keySeq,
       if(t->children==t) // t is uninitialized?
       {
         t->key=k;
+        t->data=DATA_TYPE(); // t may have data from before a call to clear
         t->children=NULL;
       }
       else
-- 
2.43.0


From d8cdde1be28421371b90c690e74566bccabb1d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:23 +0000
Subject: [PATCH 47/51] fix: loading anjiMatrix ignores the size limit of its
 previous contents

---
 src/sw_models/anjiMatrix.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sw_models/anjiMatrix.cc b/src/sw_models/anjiMatrix.cc
index de2f08f..14ac9d0 100644
--- a/src/sw_models/anjiMatrix.cc
+++ b/src/sw_models/anjiMatrix.cc
@@ -155,6 +155,10 @@ bool anjiMatrix::load(const char* prefFileName)
       // Clear data structures
   clear();
 
+      // Entries are loaded without restrictions, the size limit is read
+      // afterwards
+  anji_maxnsize=UNRESTRICTED_ANJI_SIZE;
+
       // Load information from files
   bool retVal;
   std::string anjiFile=prefFileName;
-- 
2.43.0


From baf845e799adf8165f6cd08f00f1221889437756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:51:23 +0000
Subject: [PATCH 48/51] fix: loading anjm1ip_anjiMatrix ignores the size limit
 of its previous contents

---
 src/sw_models/anjm1ip_anjiMatrix.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/sw_models/anjm1ip_anjiMatrix.cc b/src/sw_models/anjm1ip_anjiMatrix.cc
index 5326a2e..6820945 100644
--- a/src/sw_models/anjm1ip_anjiMatrix.cc
+++ b/src/sw_models/anjm1ip_anjiMatrix.cc
@@ -408,6 +408,10 @@ bool anjm1ip_anjiMatrix::load(const char* prefFileName)
       // Clear data structures
   clear();
 
+      // Entries are loaded without restrictions, the size limit is read
+      // afterwards
+  anjm1ip_anji_maxnsize=UNRESTRICTED_ANJM1IP_ANJI_SIZE;
+
       // Load information from files
   bool retVal;
   std::string matrixFile=prefFileName;
-- 
2.43.0


From 9c49aa4d110c868906fd7b3dcbd4af8f5e028448 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:55:02 +0000
Subject: [PATCH 49/51] fix: large sentence counts are printed exactly

---
 src/sw_models/LightSentenceHandler.cc | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/sw_models/LightSentenceHandler.cc b/src/sw_models/LightSentenceHandler.cc
index 525f6a1..508d655 100644
--- a/src/sw_models/LightSentenceHandler.cc
+++ b/src/sw_models/LightSentenceHandler.cc
@@ -25,6 +25,7 @@ along with this program; If not, see <http://www.gnu.org/licenses/>.
 //--------------- Include files --------------------------------------
 
 #include "LightSentenceHandler.h"
+#include <iomanip>
 
 //--------------- LightSentenceHandler class function definitions
 
@@ -353,7 +354,7 @@ bool LightSentenceHandler::printSentPairs(const char *srcSentFile,
     trgOutF<<std::endl;
       
         // print count
-    countsOutF<<c<<std::endl;
+    countsOutF<<std::setprecision(9)<<c<<std::endl;
   }
 
     
-- 
2.43.0


From daedf1e0cdd503c74b1cdda70d59ccdd16bb2f15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:02 +0000
Subject: [PATCH 50/51] fix: IBM 2 alignment scores include the sentence length
 probability

---
 src/sw_models/IncrIbm2AligModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sw_models/IncrIbm2AligModel.cc b/src/sw_models/IncrIbm2AligModel.cc
index ba6d554..83077af 100644
--- a/src/sw_models/IncrIbm2AligModel.cc
+++ b/src/sw_models/IncrIbm2AligModel.cc
@@ -324,7 +324,7 @@ LgProb IncrIbm2AligModel::incrIBM2LgProb(std::vector<WordIndex> nsSent,
      
   if(verbose) std::cerr<<"Obtaining IBM Model 2 logprob...\n"; 
   
-  LgProb lgProb=0;
+  LgProb lgProb=sentLenLgProb(slen,tlen);
   for(unsigned int j=0;j<alig.size();++j)
   {
     Prob p=pts(nsSent[alig[j]],tSent[j]);
-- 
2.43.0


From 2a15350d3e344f908ae2bad84d5780897c50086f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:02 +0000
Subject: [PATCH 51/51] fix: best alignments are recovered when a target word
 has no probable translation

---
 src/sw_models/_incrHmmAligModel.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/sw_models/_incrHmmAligModel.cc b/src/sw_models/_incrHmmAligModel.cc
index b8198d8..f98d6b8 100644
--- a/src/sw_models/_incrHmmAligModel.cc
+++ b/src/sw_models/_incrHmmAligModel.cc
@@ -1464,7 +1464,7 @@ void _incrHmmAligModel::viterbiAlgorithmCached(const std::vector<WordIndex>& nSr
 
       // Make room for matrices
   std::vector<double> dVec;
-  dVec.insert(dVec.begin(),trgSentIndexVector.size()+1,SMALL_LG_NUM);
+  dVec.insert(dVec.begin(),trgSentIndexVector.size()+1,-DBL_MAX);
   vitMatrix.insert(vitMatrix.begin(),nSrcSentIndexVector.size()+1,dVec);
 
   std::vector<PositionIndex> pidxVec;
-- 
2.43.0

