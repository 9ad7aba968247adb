From 475f32b4288fbf281dd20a1787a42772b3b7957c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:25 +0000
Subject: [PATCH 01/22] fix: compare real suffixes conservatively when either
 side lacks suffix bits

A stored key too short to fill its suffix field was ordered below every query,
and a query too short to fill it was ordered below every stored suffix, so
range queries and seeks missed stored keys.
---
 include/suffix.hpp | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 01cfee4..34d782a 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -252,13 +252,25 @@ int BitvectorSuffix::compare(const position_t idx,
 	return kCouldBePositive;
 
     word_t stored_suffix = read(idx);
-    word_t querying_suffix = constructRealSuffix(key, level, real_suffix_len_);
     if (type_ == kMixed)
         stored_suffix = extractRealSuffix(stored_suffix, real_suffix_len_);
 
-    if ((stored_suffix == 0) && (querying_suffix == 0))
+    // no suffix info for the stored key: it could be on either side
+    if (stored_suffix == 0)
 	return kCouldBePositive;
-    else if ((stored_suffix == 0) || (stored_suffix < querying_suffix))
+
+    // the querying key is too short to provide real_suffix_len_ bits:
+    // compare the bits it has; on a tie the (longer) stored key is greater
+    size_t querying_bits = (key.length() > level) ? (key.length() - level) * 8 : 0;
+    if (querying_bits == 0)
+	return 1;
+    if (querying_bits < real_suffix_len_) {
+	word_t querying_suffix = constructRealSuffix(key, level, querying_bits);
+	return ((stored_suffix >> (real_suffix_len_ - querying_bits)) < querying_suffix) ? -1 : 1;
+    }
+
+    word_t querying_suffix = constructRealSuffix(key, level, real_suffix_len_);
+    if (stored_suffix < querying_suffix)
 	return -1;
     else if (stored_suffix == querying_suffix) 
 	return kCouldBePositive;
-- 
2.43.0


From 169b099cae06d2486c719f254476b36d69b4992a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:04 +0000
Subject: [PATCH 02/22] fix: keep sparse seeks inside the node that has a
 terminator label

The label search skips the terminator by advancing the position, and the
seek then measured the node from the advanced position, so it could run one
label into the next node and skip or misplace keys.
---
 include/louds_sparse.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index adff889..a2d3673 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -257,8 +257,9 @@ bool LoudsSparse::moveToKeyGreaterThan(const std::string& key,
     for (level = start_level_; level < key.length(); level++) {
 	position_t node_size = nodeSize(pos);
 	// if no exact match
+	position_t node_pos = pos;
 	if (!labels_->search((label_t)key[level], pos, node_size)) {
-	    moveToLeftInNextSubtrie(pos, node_size, key[level], iter);
+	    moveToLeftInNextSubtrie(node_pos, node_size, key[level], iter);
 	    return false;
 	}
 
@@ -449,9 +450,11 @@ bool LoudsSparse::isEndofNode(const position_t pos) const {
 
 void LoudsSparse::moveToLeftInNextSubtrie(position_t pos, const position_t node_size, 
 					  const label_t label, LoudsSparse::Iter& iter) const {
+    // a search that skips the terminator label moves pos
+    const position_t last_pos = pos + node_size - 1;
     // if no label is greater than key[level] in this node
     if (!labels_->searchGreaterThan(label, pos, node_size)) {
-	iter.append(pos + node_size - 1);
+	iter.append(last_pos);
 	return iter++;
     } else {
 	iter.append(pos);
-- 
2.43.0


From cad57677ba9fa73a3053e4f6a93ce05d9d5435af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:34 +0000
Subject: [PATCH 03/22] fix: dense seeks with a query key that ends inside the
 dense levels

The seek claimed that the leftmost key below was complete in louds-dense even
when it continues in louds-sparse, so the iterator stood on a truncated key
and the keys around it were skipped; an empty query key also failed an
assertion (position -1).
---
 include/louds_dense.hpp | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 19c2b52..a9df3e0 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -141,6 +141,7 @@ private:
     position_t getChildNodeNum(const position_t pos) const;
     position_t getSuffixPos(const position_t pos, const bool is_prefix_key) const;
     position_t getNextPos(const position_t pos) const;
+    position_t getFirstPosInNode(const position_t node_num) const;
     position_t getPrevPos(const position_t pos, bool* is_out_of_bound) const;
 
     bool compareSuffixGreaterThan(const position_t pos, const std::string& key, 
@@ -237,11 +238,15 @@ bool LoudsDense::moveToKeyGreaterThan(const std::string& key,
 	// if is_at_prefix_key_, pos is at the next valid position in the child node
 	pos = node_num * kNodeFanout;
 	if (level >= key.length()) { // if run out of searchKey bytes
-	    iter.append(getNextPos(pos - 1));
-	    if (prefixkey_indicator_bits_->readBit(node_num)) //if the prefix is also a key
-		iter.is_at_prefix_key_ = true;
-	    else
+	    iter.append(getFirstPosInNode(node_num));
+	    if (!prefixkey_indicator_bits_->readBit(node_num)) {
+		// every key in this subtrie is greater than key; the leftmost
+		// one may have to be completed in louds-sparse
 		iter.moveToLeftMostKey();
+		return false;
+	    }
+	    //if the prefix is also a key
+	    iter.is_at_prefix_key_ = true;
 	    // valid, search complete, moveLeft complete, moveRight complete
 	    iter.setFlags(true, true, true, true); 
 	    return true;
@@ -401,6 +406,11 @@ position_t LoudsDense::getNextPos(const position_t pos) const {
     return pos + label_bitmaps_->distanceToNextSetBit(pos);
 }
 
+position_t LoudsDense::getFirstPosInNode(const position_t node_num) const {
+    position_t pos = node_num * kNodeFanout;
+    return label_bitmaps_->readBit(pos) ? pos : getNextPos(pos);
+}
+
 position_t LoudsDense::getPrevPos(const position_t pos, bool* is_out_of_bound) const {
     position_t distance = label_bitmaps_->distanceToPrevSetBit(pos);
     if (pos <= distance) {
-- 
2.43.0


From 325258bff8fee6a44b579d00ef57f9d0f96c66e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:58 +0000
Subject: [PATCH 04/22] fix: a filter whose only key starts with byte 0xFF

The single leaf of the root was taken for a terminator label, so the stored
key was reported absent and the empty key present.
---
 include/louds_sparse.hpp | 4 +++-
 include/surf_builder.hpp | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index a2d3673..c40bf09 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -243,7 +243,9 @@ bool LoudsSparse::lookupKey(const std::string& key, const position_t in_node_num
 	node_num = getChildNodeNum(pos);
 	pos = getFirstLabelPos(node_num);
     }
-    if ((labels_->read(pos) == kTerminator) && (!child_indicator_bits_->readBit(pos)))
+    if ((labels_->read(pos) == kTerminator)
+	&& (!child_indicator_bits_->readBit(pos))
+	&& !isEndofNode(pos))
 	return suffixes_->checkEquality(getSuffixPos(pos), key, level + 1);
     return false;
 }
diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index 280fb81..f9675c4 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -419,6 +419,9 @@ bool SuRFBuilder::isStartOfNode(const level_t level, const position_t pos) const
 }
 
 bool SuRFBuilder::isTerminator(const level_t level, const position_t pos) const {
+    // keys are not empty: a label in the root is never a terminator
+    if (level == 0)
+	return false;
     label_t label = labels_[level][pos];
     return ((label == kTerminator) && !readBit(child_indicator_bits_[level], pos));
 }
-- 
2.43.0


From 4fd7371ea394a2b64c01ab0cbdf1a57b8bca3d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:32 +0000
Subject: [PATCH 05/22] fix: backward iteration reaches a first key that starts
 with byte 0x00

The previous set bit found at position 0 was taken for 'none'.
---
 include/louds_dense.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index a9df3e0..ab0ea5c 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -413,7 +413,8 @@ position_t LoudsDense::getFirstPosInNode(const position_t node_num) const {
 
 position_t LoudsDense::getPrevPos(const position_t pos, bool* is_out_of_bound) const {
     position_t distance = label_bitmaps_->distanceToPrevSetBit(pos);
-    if (pos <= distance) {
+    // distance > pos: no bit is set before pos (bit 0 may be)
+    if (pos == 0 || pos < distance) {
 	*is_out_of_bound = true;
 	return 0;
     }
-- 
2.43.0


From b443f9e381e3a2b06e0faa02f5eb817954b07b23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:40 +0000
Subject: [PATCH 06/22] fix: moveToKeyLessThan skips or overshoots stored keys

An inclusive search for a stored key that is a prefix of its successor stepped
past that key, and a search that stopped at a key known to be greater (by its
real suffix) reported it as a possible false positive and stayed there.
---
 include/louds_dense.hpp  | 3 ++-
 include/louds_sparse.hpp | 3 ++-
 include/surf.hpp         | 9 +++++++--
 3 files changed, 11 insertions(+), 4 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index ab0ea5c..4fdf233 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -433,7 +433,8 @@ bool LoudsDense::compareSuffixGreaterThan(const position_t pos, const std::strin
     }
     // valid, search complete, moveLeft complete, moveRight complete
     iter.setFlags(true, true, true, true);
-    return true;
+    // a stored key known to be greater is not a false positive
+    return (compare == kCouldBePositive);
 }
 
 //============================================================================
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index c40bf09..9f38417 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -474,7 +474,8 @@ bool LoudsSparse::compareSuffixGreaterThan(const position_t pos, const std::stri
 	return false;
     }
     iter.is_valid_ = true;
-    return true;
+    // a stored key known to be greater is not a false positive
+    return (compare == kCouldBePositive);
 }
 
 //============================================================================
diff --git a/include/surf.hpp b/include/surf.hpp
index 0281cbe..4758bb5 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -182,8 +182,13 @@ SuRF::Iter SuRF::moveToKeyLessThan(const std::string& key, const bool inclusive)
     }
     if (!iter.getFpFlag()) {
 	iter--;
-	if (lookupKey(key))
-	    iter--;
+	// key itself is stored, as a prefix of the next key
+	if (lookupKey(key)) {
+	    if (inclusive)
+		iter.could_be_fp_ = true;
+	    else
+		iter--;
+	}
     }
     return iter;
 }
-- 
2.43.0


From cc10a5146c347ab9dbdb73d4e130ddbdd7bc1eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:16 +0000
Subject: [PATCH 07/22] fix: approxCount counts the keys between two positions

approxCount was off by far more than 2 and read past the end of the bit
vectors: it compared positions of iterators that end at different levels,
and ranked/selected past the last bit or node. Count the keys that end
before each position instead.
---
 include/louds_dense.hpp  | 129 ++++++++++++++------------------------
 include/louds_sparse.hpp | 130 +++++++++------------------------------
 2 files changed, 74 insertions(+), 185 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 4fdf233..73e70e5 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -147,8 +147,13 @@ private:
     bool compareSuffixGreaterThan(const position_t pos, const std::string& key, 
 				  const level_t level, const bool inclusive, 
 				  LoudsDense::Iter& iter) const;
-    void extendPosList(std::vector<position_t>& pos_list,
-		       position_t& out_node_num) const;
+    // number of labels with a child before pos in the bitmaps
+    position_t numChildrenBefore(const position_t pos) const;
+    // number of keys that end before pos; include_prefix_key tells whether
+    // the prefix key of pos's own node counts
+    position_t numLeafsBefore(const position_t pos, const bool include_prefix_key) const;
+    // sum over the levels of the keys that end before the iterator's key
+    uint64_t countLeafsBefore(const LoudsDense::Iter* iter, position_t& out_node_num) const;
 
 private:
     static const position_t kNodeFanout = 256;
@@ -273,97 +278,53 @@ bool LoudsDense::moveToKeyGreaterThan(const std::string& key,
     return true;
 }
 
-void LoudsDense::extendPosList(std::vector<position_t>& pos_list,
-			       position_t& out_node_num) const {
+position_t LoudsDense::numChildrenBefore(const position_t pos) const {
+    return (pos == 0) ? 0 : child_indicator_bitmaps_->rank(pos - 1);
+}
+
+position_t LoudsDense::numLeafsBefore(const position_t pos, const bool include_prefix_key) const {
+    position_t num_leafs = (pos == 0) ? 0 : (label_bitmaps_->rank(pos - 1) - numChildrenBefore(pos));
+    position_t num_nodes = pos / kNodeFanout;
+    if (include_prefix_key)
+	num_nodes++;
+    if (num_nodes > 0)
+	num_leafs += prefixkey_indicator_bits_->rank(num_nodes - 1);
+    return num_leafs;
+}
+
+uint64_t LoudsDense::countLeafsBefore(const LoudsDense::Iter* iter,
+				      position_t& out_node_num) const {
+    uint64_t count = 0;
     position_t node_num = 0;
-    position_t pos = pos_list[pos_list.size() - 1];
-    for (level_t i = pos_list.size(); i < height_; i++) {
-	node_num = getChildNodeNum(pos);
-	if (!child_indicator_bitmaps_->readBit(pos))
-	    node_num++;
-	pos = (node_num * kNodeFanout);
-	if (pos > level_cuts_[i]) {
-	    pos = kMaxPos;
-	    pos_list.push_back(pos);
-	    break;
+    for (level_t level = 0; level < height_; level++) {
+	// below the key: the first node whose keys are all greater
+	// (if there is none, this is the end of the level)
+	position_t pos = node_num * kNodeFanout;
+	bool include_prefix_key = false;
+	if (level < iter->key_len_) {
+	    pos = iter->pos_in_trie_[level];
+	    include_prefix_key = !(iter->is_at_prefix_key_ && level == iter->key_len_ - 1);
+	    if (!include_prefix_key)
+		pos -= (pos % kNodeFanout);
 	}
-	pos_list.push_back(pos);
-    }
-    if (pos == kMaxPos) {
-	for (level_t i = pos_list.size(); i < height_; i++)
-	    pos_list.push_back(pos);
-	out_node_num = pos;
-    } else {
-	out_node_num = getChildNodeNum(pos);
-	if (!child_indicator_bitmaps_->readBit(pos))
-	    out_node_num++;
+	count += numLeafsBefore(pos, include_prefix_key);
+	node_num = numChildrenBefore(pos) + 1;
     }
+    out_node_num = node_num;
+    return count;
 }
 
 uint64_t LoudsDense::approxCount(const LoudsDense::Iter* iter_left,
 				 const LoudsDense::Iter* iter_right,
 				 position_t& out_node_num_left,
 				 position_t& out_node_num_right) const {
-    std::vector<position_t> left_pos_list, right_pos_list;
-    for (level_t i = 0; i < iter_left->key_len_; i++)
-	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
-    level_t ori_left_len = left_pos_list.size();
-    extendPosList(left_pos_list, out_node_num_left);
-    
-    for (level_t i = 0; i < iter_right->key_len_; i++)
-	right_pos_list.push_back(iter_right->pos_in_trie_[i]);
-    level_t ori_right_len = right_pos_list.size();
-    extendPosList(right_pos_list, out_node_num_right);
-
-    uint64_t count = 0;
-    for (level_t i = 0; i < height_; i++) {
-	position_t left_pos = left_pos_list[i];
-	if (left_pos == kMaxPos) break;
-	if (i == (ori_left_len - 1) && iter_left->is_at_prefix_key_)
-	    left_pos = (left_pos / kNodeFanout) * kNodeFanout;
-	position_t right_pos = right_pos_list[i];
-	if (right_pos == kMaxPos)
-	    right_pos = level_cuts_[i];
-	if (i == (ori_right_len - 1) && iter_right->is_at_prefix_key_)
-	    right_pos = (right_pos / kNodeFanout) * kNodeFanout;
-	//assert(left_pos <= right_pos);
-	if (left_pos < right_pos) {
-	    if (i >= ori_left_len)
-		left_pos = getNextPos(left_pos);
-	    if (i >= ori_right_len && right_pos != level_cuts_[height_ - 1])
-		right_pos = getNextPos(right_pos);
-	    bool has_prefix_key_left
-		= prefixkey_indicator_bits_->readBit(left_pos / kNodeFanout);
-	    bool has_prefix_key_right
-		= prefixkey_indicator_bits_->readBit(right_pos / kNodeFanout);
-	    position_t rank_left_label = label_bitmaps_->rank(left_pos);
-	    position_t rank_right_label = label_bitmaps_->rank(right_pos);
-	    if (right_pos == level_cuts_[height_ - 1])
-		rank_right_label++;
-	    position_t rank_left_ind = child_indicator_bitmaps_->rank(left_pos);
-	    position_t rank_right_ind = child_indicator_bitmaps_->rank(right_pos);
-	    position_t rank_left_prefix
-		= prefixkey_indicator_bits_->rank(left_pos / kNodeFanout);
-	    position_t rank_right_prefix
-		= prefixkey_indicator_bits_->rank(right_pos / kNodeFanout);
-	    position_t num_leafs = (rank_right_label - rank_left_label)
-		- (rank_right_ind - rank_left_ind)
-		+ (rank_right_prefix - rank_left_prefix);
-	    // offcount in child_indicators
-	    if (child_indicator_bitmaps_->readBit(right_pos))
-		num_leafs++;
-	    if (child_indicator_bitmaps_->readBit(left_pos))
-		num_leafs--;
-	    // offcount in prefix keys
-	    if (i >= ori_right_len && has_prefix_key_right)
-		num_leafs--;
-	    if (i >= ori_left_len && has_prefix_key_left)
-		num_leafs++;
-	    if (iter_left->is_search_complete_ && (i == ori_left_len - 1))
-		num_leafs--;
-	    count += num_leafs;
-	}
-    }
+    uint64_t count_left = countLeafsBefore(iter_left, out_node_num_left);
+    uint64_t count_right = countLeafsBefore(iter_right, out_node_num_right);
+    if (count_right <= count_left) return 0;
+    uint64_t count = count_right - count_left;
+    // the left key itself is not counted
+    if (iter_left->isComplete())
+	count--;
     return count;
 }
 
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 9f38417..45bdc3d 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -149,13 +149,9 @@ private:
 				  const level_t level, const bool inclusive, 
 				  LoudsSparse::Iter& iter) const;
 
-    position_t appendToPosList(std::vector<position_t>& pos_list,
-			       const position_t node_num, const level_t level,
-			       const bool isLeft, bool& done) const;
-    void extendPosList(std::vector<position_t>& left_pos_list,
-		       std::vector<position_t>& right_pos_list,
-		       const position_t left_in_node_num,
-		       const position_t right_in_node_num) const;
+    // sum over the levels of the keys that end before the iterator's key;
+    // in_node_num is the start node if the key ends in louds-dense
+    uint64_t countLeafsBefore(const LoudsSparse::Iter* iter, const position_t in_node_num) const;
 
 private:
     static const position_t kRankBasicBlockSize = 512;
@@ -296,107 +292,39 @@ bool LoudsSparse::moveToKeyGreaterThan(const std::string& key,
     return true;
 }
 
-position_t LoudsSparse::appendToPosList(std::vector<position_t>& pos_list,
-					const position_t node_num,
-					const level_t level,
-					const bool isLeft, bool& done) const {
-    position_t pos = getFirstLabelPos(node_num);
-    if (pos > level_cuts_[start_level_ + level]) {
-	pos = kMaxPos;
-	if (isLeft) {
-	    pos_list.push_back(pos);
-	} else {
-	    for (level_t j = 0; j < (height_ - level) - 1; j++)
-		pos_list.push_back(pos);
-	}
-	done = true;
-    }
-    pos_list.push_back(pos);
-    return pos;
-}
-
-void LoudsSparse::extendPosList(std::vector<position_t>& left_pos_list,
-				std::vector<position_t>& right_pos_list,
-				const position_t left_in_node_num,
-				const position_t right_in_node_num) const {
-    position_t left_node_num = 0, right_node_num = 0, left_pos = 0, right_pos = 0;
-    bool left_done = false, right_done = false;
-    level_t start_depth = left_pos_list.size();
-    if (start_depth > right_pos_list.size())
-	start_depth = right_pos_list.size();
-    if (start_depth == 0) {
-	if (left_pos_list.size() == 0)
-	    left_pos = appendToPosList(left_pos_list, left_in_node_num,
-				       0, true, left_done);
-	if (right_pos_list.size() == 0)
-	    right_pos = appendToPosList(right_pos_list, right_in_node_num,
-					0, false, right_done);
-	start_depth++;
-    }
-
-    left_pos = left_pos_list[left_pos_list.size() - 1];
-    right_pos = right_pos_list[right_pos_list.size() - 1];
-    for (level_t i = start_depth; i < (height_ - start_level_); i++) {
-	if (left_pos == right_pos) break;
-	if (!left_done && left_pos_list.size() <= i) {
-	    left_node_num = getChildNodeNum(left_pos);
-	    if (!child_indicator_bits_->readBit(left_pos))
-		left_node_num++;
-	    left_pos = appendToPosList(left_pos_list, left_node_num,
-				       i, true, left_done);
-	}
-	if (!right_done && right_pos_list.size() <= i) {
-	    right_node_num = getChildNodeNum(right_pos);
-	    if (!child_indicator_bits_->readBit(right_pos))
-		right_node_num++;
-	    right_pos = appendToPosList(right_pos_list, right_node_num,
-					i, false, right_done);
-	}
+uint64_t LoudsSparse::countLeafsBefore(const LoudsSparse::Iter* iter,
+				       const position_t in_node_num) const {
+    uint64_t count = 0;
+    position_t node_num = in_node_num;
+    level_t key_len = iter->isValid() ? iter->key_len_ : 0;
+    for (level_t level = 0; level < (height_ - start_level_); level++) {
+	position_t pos = 0;
+	if (level < key_len)
+	    pos = iter->pos_in_trie_[level];
+	// below the key: the first node whose keys are all greater
+	// (if there is none, this is the end of the level)
+	else if (node_num - node_count_dense_ < louds_bits_->numOnes())
+	    pos = getFirstLabelPos(node_num);
+	else
+	    pos = louds_bits_->numBits();
+	position_t num_children = (pos == 0) ? 0 : child_indicator_bits_->rank(pos - 1);
+	count += (pos - num_children);
+	node_num = child_count_dense_ + num_children + 1;
     }
+    return count;
 }
 
 uint64_t LoudsSparse::approxCount(const LoudsSparse::Iter* iter_left,
 				  const LoudsSparse::Iter* iter_right,
 				  const position_t in_node_num_left,
 				  const position_t in_node_num_right) const {
-    if (in_node_num_left == kMaxPos) return 0;
-    std::vector<position_t> left_pos_list, right_pos_list;
-    for (level_t i = 0; i < iter_left->key_len_; i++)
-	left_pos_list.push_back(iter_left->pos_in_trie_[i]);
-    level_t ori_left_len = left_pos_list.size();
-    if (in_node_num_right == kMaxPos) {
-	for (level_t i = 0; i < (height_ - start_level_); i++)
-	    right_pos_list.push_back(kMaxPos);
-    } else {
-	for (level_t i = 0; i < iter_right->key_len_; i++)
-	    right_pos_list.push_back(iter_right->pos_in_trie_[i]);
-    }
-    extendPosList(left_pos_list, right_pos_list, in_node_num_left, in_node_num_right);
-
-    uint64_t count = 0;
-    level_t search_depth = left_pos_list.size();
-    if (search_depth > right_pos_list.size())
-	search_depth = right_pos_list.size();
-    for (level_t i = 0; i < search_depth; i++) {
-	position_t left_pos = left_pos_list[i];
-	if (left_pos == kMaxPos) break;
-	position_t right_pos = right_pos_list[i];
-	if (right_pos == kMaxPos)
-	    right_pos = level_cuts_[start_level_ + i] + 1;
-	//assert(left_pos <= right_pos);
-	if (left_pos < right_pos) {
-	    position_t rank_left = child_indicator_bits_->rank(left_pos);
-	    position_t rank_right = child_indicator_bits_->rank(right_pos);
-	    position_t num_leafs = (right_pos - left_pos) - (rank_right - rank_left);
-	    if (child_indicator_bits_->readBit(right_pos))
-		num_leafs++;
-	    if (child_indicator_bits_->readBit(left_pos))
-		num_leafs--;
-	    if (i == ori_left_len - 1)
-		num_leafs--;
-	    count += num_leafs;
-	}
-    }
+    uint64_t count_left = countLeafsBefore(iter_left, in_node_num_left);
+    uint64_t count_right = countLeafsBefore(iter_right, in_node_num_right);
+    if (count_right <= count_left) return 0;
+    uint64_t count = count_right - count_left;
+    // the left key itself is not counted
+    if (iter_left->isValid())
+	count--;
     return count;
 }
 
-- 
2.43.0


From f2460210b181e6595904c851deb97a667991cbca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 08/22] fix: filters built with include_dense = false

The constructor read past the end of the per-level suffix sizes, lookupKey
returned true for every key, and moveToFirst/moveToLast returned an
invalid iterator; stepping past an end hit an assertion.
---
 include/louds_dense.hpp | 15 +++++++++++----
 include/surf.hpp        |  2 +-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 73e70e5..8eb6cd0 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -15,7 +15,8 @@ public:
     class Iter {
     public:
 	Iter() : is_valid_(false) {};
-	Iter(LoudsDense* trie) : is_valid_(false), is_search_complete_(false),
+	// with no dense level, the iter is always at the (empty) prefix
+	Iter(LoudsDense* trie) : is_valid_(trie->getHeight() == 0), is_search_complete_(false),
 				 is_move_left_complete_(false),
 				 is_move_right_complete_(false),
 				 trie_(trie),
@@ -191,7 +192,7 @@ LoudsDense::LoudsDense(const SuRFBuilder* builder) {
 						  builder->getPrefixkeyIndicatorBits(),
 						  builder->getNodeCounts(), 0, height_);
 
-    if (builder->getSuffixType() == kNone) {
+    if (builder->getSuffixType() == kNone || height_ == 0) {
 	suffixes_ = new BitvectorSuffix();
     } else {
 	level_t hash_suffix_len = builder->getHashSuffixLen();
@@ -568,7 +569,10 @@ void LoudsDense::Iter::moveToRightMostKey() {
 }
 
 void LoudsDense::Iter::operator ++(int) {
-    assert(key_len_ > 0);
+    if (key_len_ == 0) { // no dense level
+	is_valid_ = false;
+	return;
+    }
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
 	return moveToLeftMostKey();
@@ -590,7 +594,10 @@ void LoudsDense::Iter::operator ++(int) {
 }
 
 void LoudsDense::Iter::operator --(int) {
-    assert(key_len_ > 0);
+    if (key_len_ == 0) { // no dense level
+	is_valid_ = false;
+	return;
+    }
     if (is_at_prefix_key_) {
 	is_at_prefix_key_ = false;
 	key_len_--;
diff --git a/include/surf.hpp b/include/surf.hpp
index 4758bb5..3762898 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -144,7 +144,7 @@ bool SuRF::lookupKey(const std::string& key) const {
     position_t connect_node_num = 0;
     if (!louds_dense_->lookupKey(key, connect_node_num))
 	return false;
-    else if (connect_node_num != 0)
+    else if (connect_node_num != 0 || louds_dense_->getHeight() == 0)
 	return louds_sparse_->lookupKey(key, connect_node_num);
     return true;
 }
-- 
2.43.0


From 88841adc9af1cf1b222acdcfa3e328832d53ae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:37 +0000
Subject: [PATCH 09/22] fix: do not read past the last level when all levels
 are louds-dense

---
 include/louds_sparse.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index 45bdc3d..f50fd19 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -183,7 +183,9 @@ LoudsSparse::LoudsSparse(const SuRFBuilder* builder) {
     if (start_level_ == 0)
 	child_count_dense_ = 0;
     else
-	child_count_dense_ = node_count_dense_ + builder->getNodeCounts()[start_level_] - 1;
+	child_count_dense_ = node_count_dense_ - 1;
+    if (start_level_ > 0 && start_level_ < height_)
+	child_count_dense_ += builder->getNodeCounts()[start_level_];
 
     labels_ = new LabelVector(builder->getLabels(), start_level_, height_);
 
-- 
2.43.0


From fda41aed048244f8f805ff0d2236e1ce359809f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 10/22] fix: suffix bits that straddle words, and suffix
 lengths 0 and 64

Shifts by more than the word size made reads of straddling suffixes and
of suffixes of length 0 or 64 undefined: stored keys were not found.
---
 include/suffix.hpp       | 13 ++++++++-----
 include/surf_builder.hpp |  4 ++++
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/suffix.hpp b/include/suffix.hpp
index 34d782a..b7df351 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -35,8 +35,9 @@ public:
 
     static word_t constructHashSuffix(const std::string& key, const level_t len) {
 	word_t suffix = suffixHash(key);
-	suffix <<= (kWordSize - len - kHashShift);
-	suffix >>= (kWordSize - len);
+	suffix >>= kHashShift;
+	if (len < kWordSize)
+	    suffix &= (((word_t)1 << len) - 1);
 	return suffix;
     }
 
@@ -69,7 +70,7 @@ public:
         word_t hash_suffix = constructHashSuffix(key, hash_len);
         word_t real_suffix = constructRealSuffix(key, real_level, real_len);
         word_t suffix = hash_suffix;
-        suffix <<= real_len;
+        suffix = (real_len < kWordSize) ? (suffix << real_len) : 0;
         suffix |= real_suffix;
         return suffix;
     }
@@ -94,6 +95,8 @@ public:
     }
 
     static word_t extractRealSuffix(const word_t suffix, const level_t real_suffix_len) {
+	if (real_suffix_len >= kWordSize)
+	    return suffix;
         word_t real_suffix_mask = 1;
         real_suffix_mask <<= real_suffix_len;
         real_suffix_mask--;
@@ -197,7 +200,7 @@ word_t BitvectorSuffix::read(const position_t idx) const {
     position_t offset = bit_pos & (kWordSize - 1);
     word_t ret_word = (bits_[word_id] << offset) >> (kWordSize - suffix_len);
     if (offset + suffix_len > kWordSize)
-	ret_word += (bits_[word_id+1] >> (kWordSize - offset - suffix_len));
+	ret_word += (bits_[word_id+1] >> (2 * kWordSize - offset - suffix_len));
     return ret_word;
 }
 
@@ -207,7 +210,7 @@ word_t BitvectorSuffix::readReal(const position_t idx) const {
 
 bool BitvectorSuffix::checkEquality(const position_t idx, 
 				    const std::string& key, const level_t level) const {
-    if (type_ == kNone) 
+    if (type_ == kNone || getSuffixLen() == 0)
 	return true;
     if (idx * getSuffixLen() >= num_bits_) 
 	return false;
diff --git a/include/surf_builder.hpp b/include/surf_builder.hpp
index f9675c4..41b1433 100644
--- a/include/surf_builder.hpp
+++ b/include/surf_builder.hpp
@@ -295,6 +295,10 @@ void SuRFBuilder::insertKeyByte(const char c, const level_t level, const bool is
 
 inline void SuRFBuilder::storeSuffix(const level_t level, const word_t suffix) {
     level_t suffix_len = getSuffixLen();
+    if (suffix_len == 0) {
+	suffix_counts_[level-1]++;
+	return;
+    }
     position_t pos = suffix_counts_[level-1] * suffix_len;
     assert(pos <= (suffixes_[level-1].size() * kWordSize));
     if (pos == (suffixes_[level-1].size() * kWordSize))
-- 
2.43.0


From db91989a76dbe71759cf983fb47bc10ea6a035e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 11/22] fix: size of the label array

The array took num_bytes * (num_bytes / 64 + 1) bytes, which overflows
position_t for large filters, and a deserialized filter had no room for
the 16-byte loads of simdSearch.
---
 include/label_vector.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/label_vector.hpp b/include/label_vector.hpp
index 9582a46..6c42725 100644
--- a/include/label_vector.hpp
+++ b/include/label_vector.hpp
@@ -24,10 +24,7 @@ public:
 	    num_bytes_ += labels_per_level[level].size();
 
 	//labels_ = new label_t[num_bytes_];
-	position_t alloc_bytes = num_bytes_ * (num_bytes_ / kWordSize + 1);
-	labels_ = new label_t[alloc_bytes];
-	for (position_t i = 0; i < alloc_bytes; i++)
-	  labels_[i] = 0;
+	labels_ = new label_t[num_bytes_ + kSimdPadding]();
 
 	position_t pos = 0;
 	for (level_t level = start_level; level < end_level; level++) {
@@ -85,7 +82,7 @@ public:
 	memcpy(&(lv->num_bytes_), src, sizeof(lv->num_bytes_));
 	src += sizeof(lv->num_bytes_);
 	
-	lv->labels_ = new label_t[lv->num_bytes_];
+	lv->labels_ = new label_t[lv->num_bytes_ + kSimdPadding]();
 	memcpy(lv->labels_, src, lv->num_bytes_);
 	src += lv->num_bytes_;
 	
@@ -100,6 +97,9 @@ public:
     }
 
 private:
+    // simdSearch loads 16 labels at a time
+    static const position_t kSimdPadding = 16;
+
     position_t num_bytes_;
     label_t* labels_;
 };
-- 
2.43.0


From 18360d5f3f30d13fbfff667ff99e54db3c18525a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:10 +0000
Subject: [PATCH 12/22] fix: bit vector accesses past the last word and last
 bit

A level that exactly fills the last word wrote one word too far;
distanceToNextSetBit read one word too far when called on the last bit of
a full word, and counted the padding of the last word, so that the last
node of a filter could look larger than it is.
---
 include/bitvector.hpp | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/include/bitvector.hpp b/include/bitvector.hpp
index 7616ac9..6c5bd0b 100644
--- a/include/bitvector.hpp
+++ b/include/bitvector.hpp
@@ -81,6 +81,9 @@ position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
     position_t word_id = (pos + 1) / kWordSize;
     position_t offset = (pos + 1) % kWordSize;
 
+    if (word_id == numWords()) // pos is the last bit
+	return distance;
+
     //first word left-over bits
     word_t test_bits = bits_[word_id] << offset;
     if (test_bits > 0) {
@@ -98,7 +101,7 @@ position_t Bitvector::distanceToNextSetBit (const position_t pos) const {
 	    return (distance + __builtin_clzll(test_bits));
 	distance += kWordSize;
     }
-    return distance;
+    return (num_bits_ - pos);
 }
 
 position_t Bitvector::distanceToPrevSetBit (const position_t pos) const {
@@ -162,7 +165,8 @@ void Bitvector::concatenateBitvectors(const std::vector<std::vector<word_t> >& b
 		bit_shift += bits_remain;
 	    } else {
 		word_id++;
-		bits_[word_id] |= (last_word << (kWordSize - bit_shift));
+		if (bit_shift + bits_remain > kWordSize)
+		    bits_[word_id] |= (last_word << (kWordSize - bit_shift));
 		bit_shift = bit_shift + bits_remain - kWordSize;
 	    }
 	}
-- 
2.43.0


From 6049296f683e6f05ca6e4b714359ce02bd2e1e8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 13/22] fix: queries from several threads share no state

lookupRange and approxCount kept their iterators in members of the filter,
so concurrent callers (see bench/workload_multi_thread.cpp) corrupted each
other's queries. Use local iterators.
---
 include/surf.hpp | 59 ++++++++++++++++++++++--------------------------
 1 file changed, 27 insertions(+), 32 deletions(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 3762898..259e6c7 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -86,10 +86,10 @@ public:
     SuRF::Iter moveToFirst() const;
     SuRF::Iter moveToLast() const;
     bool lookupRange(const std::string& left_key, const bool left_inclusive, 
-		     const std::string& right_key, const bool right_inclusive);
+		     const std::string& right_key, const bool right_inclusive) const;
     // Accurate except at the boundaries --> undercount by at most 2
-    uint64_t approxCount(const std::string& left_key, const std::string& right_key);
-    uint64_t approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2);
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) const;
+    uint64_t approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) const;
 
     uint64_t serializedSize() const;
     uint64_t getMemoryUsage() const;
@@ -110,7 +110,6 @@ public:
 	SuRF* surf = new SuRF();
 	surf->louds_dense_ = LoudsDense::deSerialize(src);
 	surf->louds_sparse_ = LoudsSparse::deSerialize(src);
-	surf->iter_ = SuRF::Iter(surf);
 	return surf;
     }
 
@@ -123,8 +122,6 @@ private:
     LoudsDense* louds_dense_;
     LoudsSparse* louds_sparse_;
     SuRFBuilder* builder_;
-    SuRF::Iter iter_;
-    SuRF::Iter iter2_;
 };
 
 void SuRF::create(const std::vector<std::string>& keys, 
@@ -136,7 +133,6 @@ void SuRF::create(const std::vector<std::string>& keys,
     builder_->build(keys);
     louds_dense_ = new LoudsDense(builder_);
     louds_sparse_ = new LoudsSparse(builder_);
-    iter_ = SuRF::Iter(this);
     delete builder_;
 }
 
@@ -226,24 +222,24 @@ SuRF::Iter SuRF::moveToLast() const {
 }
 
 bool SuRF::lookupRange(const std::string& left_key, const bool left_inclusive, 
-		       const std::string& right_key, const bool right_inclusive) {
-    iter_.clear();
-    louds_dense_->moveToKeyGreaterThan(left_key, left_inclusive, iter_.dense_iter_);
-    if (!iter_.dense_iter_.isValid()) return false;
-    if (!iter_.dense_iter_.isComplete()) {
-	if (!iter_.dense_iter_.isSearchComplete()) {
-	    iter_.passToSparse();
-	    louds_sparse_->moveToKeyGreaterThan(left_key, left_inclusive, iter_.sparse_iter_);
-	    if (!iter_.sparse_iter_.isValid()) {
-		iter_.incrementDenseIter();
+		       const std::string& right_key, const bool right_inclusive) const {
+    SuRF::Iter iter(this);
+    louds_dense_->moveToKeyGreaterThan(left_key, left_inclusive, iter.dense_iter_);
+    if (!iter.dense_iter_.isValid()) return false;
+    if (!iter.dense_iter_.isComplete()) {
+	if (!iter.dense_iter_.isSearchComplete()) {
+	    iter.passToSparse();
+	    louds_sparse_->moveToKeyGreaterThan(left_key, left_inclusive, iter.sparse_iter_);
+	    if (!iter.sparse_iter_.isValid()) {
+		iter.incrementDenseIter();
 	    }
-	} else if (!iter_.dense_iter_.isMoveLeftComplete()) {
-	    iter_.passToSparse();
-	    iter_.sparse_iter_.moveToLeftMostKey();
+	} else if (!iter.dense_iter_.isMoveLeftComplete()) {
+	    iter.passToSparse();
+	    iter.sparse_iter_.moveToLeftMostKey();
 	}
     }
-    if (!iter_.isValid()) return false;
-    int compare = iter_.compare(right_key);
+    if (!iter.isValid()) return false;
+    int compare = iter.compare(right_key);
     if (compare == kCouldBePositive)
 	return true;
     if (right_inclusive)
@@ -252,7 +248,7 @@ bool SuRF::lookupRange(const std::string& left_key, const bool left_inclusive,
 	return (compare < 0);
 }
 
-uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) {
+uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) const {
     if (!iter->isValid() || !iter2->isValid()) return 0;
     position_t out_node_num_left = 0, out_node_num_right = 0;
     uint64_t count = louds_dense_->approxCount(&(iter->dense_iter_),
@@ -267,15 +263,14 @@ uint64_t SuRF::approxCount(const SuRF::Iter* iter, const SuRF::Iter* iter2) {
 }
 
 uint64_t SuRF::approxCount(const std::string& left_key,
-			   const std::string& right_key) {
-    iter_.clear(); iter2_.clear();
-    iter_ = moveToKeyGreaterThan(left_key, true);
-    if (!iter_.isValid()) return 0;
-    iter2_ = moveToKeyGreaterThan(right_key, true);
-    if (!iter2_.isValid())
-	iter2_ = moveToLast();
-
-    return approxCount(&iter_, &iter2_);
+			   const std::string& right_key) const {
+    SuRF::Iter iter = moveToKeyGreaterThan(left_key, true);
+    if (!iter.isValid()) return 0;
+    SuRF::Iter iter2 = moveToKeyGreaterThan(right_key, true);
+    if (!iter2.isValid())
+	iter2 = moveToLast();
+
+    return approxCount(&iter, &iter2);
 }
 
 uint64_t SuRF::serializedSize() const {
-- 
2.43.0


From 2c8996bf3aa4e78f820d1f31d08a9b9252777eb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 14/22] fix: destroy frees everything the filter allocated

---
 include/louds_dense.hpp  | 5 +++++
 include/louds_sparse.hpp | 4 ++++
 include/surf.hpp         | 2 ++
 3 files changed, 11 insertions(+)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index 8eb6cd0..ce1a3a8 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -132,10 +132,15 @@ public:
     }
 
     void destroy() {
+	delete[] level_cuts_;
 	label_bitmaps_->destroy();
+	delete label_bitmaps_;
 	child_indicator_bitmaps_->destroy();
+	delete child_indicator_bitmaps_;
 	prefixkey_indicator_bits_->destroy();
+	delete prefixkey_indicator_bits_;
 	suffixes_->destroy();
+	delete suffixes_;
     }
 
 private:
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index f50fd19..dd711c8 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -129,9 +129,13 @@ public:
     void destroy() {
 	delete[] level_cuts_;
 	labels_->destroy();
+	delete labels_;
 	child_indicator_bits_->destroy();
+	delete child_indicator_bits_;
 	louds_bits_->destroy();
+	delete louds_bits_;
 	suffixes_->destroy();
+	delete suffixes_;
     }
 
 private:
diff --git a/include/surf.hpp b/include/surf.hpp
index 259e6c7..075de36 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -115,7 +115,9 @@ public:
 
     void destroy() {
 	louds_dense_->destroy();
+	delete louds_dense_;
 	louds_sparse_->destroy();
+	delete louds_sparse_;
     }
 
 private:
-- 
2.43.0


From 4b6a00b6fc1632391d1767a563f39a9189ac059f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:31 +0000
Subject: [PATCH 15/22] fix: serialize does not leak heap bytes into the
 padding

---
 include/surf.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/surf.hpp b/include/surf.hpp
index 075de36..1a76871 100644
--- a/include/surf.hpp
+++ b/include/surf.hpp
@@ -98,7 +98,7 @@ public:
 
     char* serialize() const {
 	uint64_t size = serializedSize();
-	char* data = new char[size];
+	char* data = new char[size](); // no stray bytes in the padding
 	char* cur_data = data;
 	louds_dense_->serialize(cur_data);
 	louds_sparse_->serialize(cur_data);
-- 
2.43.0


From f69d88d7f9298d536c8db87e33971d1885b9fbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 16/22] fix: deSerialize from a buffer at any address

The alignment between parts was computed from the absolute address, so an
image restored from a buffer that is not 8-byte aligned was misread.
---
 include/config.hpp       |  5 +++--
 include/label_vector.hpp |  6 ++++--
 include/louds_dense.hpp  | 10 ++++++----
 include/louds_sparse.hpp | 10 ++++++----
 include/rank.hpp         |  6 ++++--
 include/select.hpp       |  6 ++++--
 include/suffix.hpp       |  6 ++++--
 7 files changed, 31 insertions(+), 18 deletions(-)

diff --git a/include/config.hpp b/include/config.hpp
index be4c276..641fc3c 100644
--- a/include/config.hpp
+++ b/include/config.hpp
@@ -34,8 +34,9 @@ enum SuffixType {
     kMixed = 3
 };
 
-void align(char*& ptr) {
-    ptr = (char*)(((uint64_t)ptr + 7) & ~((uint64_t)7));
+// Aligns ptr relative to start, wherever start is in memory
+void align(char*& ptr, const char* start) {
+    ptr += ((uint64_t)(start - ptr) & (uint64_t)7);
 }
 
 void sizeAlign(position_t& size) {
diff --git a/include/label_vector.hpp b/include/label_vector.hpp
index 6c42725..03b647f 100644
--- a/include/label_vector.hpp
+++ b/include/label_vector.hpp
@@ -70,14 +70,16 @@ public:
     bool linearSearchGreaterThan(const label_t target, position_t& pos, const position_t search_len) const;
 
     void serialize(char*& dst) const {
+	const char* start = dst;
 	memcpy(dst, &num_bytes_, sizeof(num_bytes_));
 	dst += sizeof(num_bytes_);
 	memcpy(dst, labels_, num_bytes_);
 	dst += num_bytes_;
-	align(dst);
+	align(dst, start);
     }
     
     static LabelVector* deSerialize(char*& src) {
+	const char* start = src;
 	LabelVector* lv = new LabelVector();
 	memcpy(&(lv->num_bytes_), src, sizeof(lv->num_bytes_));
 	src += sizeof(lv->num_bytes_);
@@ -88,7 +90,7 @@ public:
 	
 	//lv->labels_ = const_cast<label_t*>(reinterpret_cast<const label_t*>(src));
 	//src += lv->num_bytes_;
-	align(src);
+	align(src, start);
 	return lv;
     }
 
diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index ce1a3a8..b568159 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -102,19 +102,21 @@ public:
     uint64_t getMemoryUsage() const;
 
     void serialize(char*& dst) const {
+	const char* start = dst;
 	memcpy(dst, &height_, sizeof(height_));
 	dst += sizeof(height_);
 	memcpy(dst, level_cuts_, sizeof(position_t) * height_);
 	dst += (sizeof(position_t) * height_);
-	align(dst);
+	align(dst, start);
 	label_bitmaps_->serialize(dst);
 	child_indicator_bitmaps_->serialize(dst);
 	prefixkey_indicator_bits_->serialize(dst);
 	suffixes_->serialize(dst);
-	align(dst);
+	align(dst, start);
     }
 
     static LoudsDense* deSerialize(char*& src) {
+	const char* start = src;
 	LoudsDense* louds_dense = new LoudsDense();
 	memcpy(&(louds_dense->height_), src, sizeof(louds_dense->height_));
 	src += sizeof(louds_dense->height_);
@@ -122,12 +124,12 @@ public:
 	memcpy(louds_dense->level_cuts_, src,
 	       sizeof(position_t) * (louds_dense->height_));
 	src += (sizeof(position_t) * (louds_dense->height_));
-	align(src);
+	align(src, start);
 	louds_dense->label_bitmaps_ = BitvectorRank::deSerialize(src);
 	louds_dense->child_indicator_bitmaps_ = BitvectorRank::deSerialize(src);
 	louds_dense->prefixkey_indicator_bits_ = BitvectorRank::deSerialize(src);
 	louds_dense->suffixes_ = BitvectorSuffix::deSerialize(src);
-	align(src);
+	align(src, start);
 	return louds_dense;
     }
 
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index dd711c8..b6cbc4d 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -85,6 +85,7 @@ public:
     uint64_t getMemoryUsage() const;
 
     void serialize(char*& dst) const {
+	const char* start = dst;
 	memcpy(dst, &height_, sizeof(height_));
 	dst += sizeof(height_);
 	memcpy(dst, &start_level_, sizeof(start_level_));
@@ -95,15 +96,16 @@ public:
 	dst += sizeof(child_count_dense_);
 	memcpy(dst, level_cuts_, sizeof(position_t) * height_);
 	dst += (sizeof(position_t) * height_);
-	align(dst);
+	align(dst, start);
 	labels_->serialize(dst);
 	child_indicator_bits_->serialize(dst);
 	louds_bits_->serialize(dst);
 	suffixes_->serialize(dst);
-	align(dst);
+	align(dst, start);
     }
 
     static LoudsSparse* deSerialize(char*& src) {
+	const char* start = src;
 	LoudsSparse* louds_sparse = new LoudsSparse();
 	memcpy(&(louds_sparse->height_), src, sizeof(louds_sparse->height_));
 	src += sizeof(louds_sparse->height_);
@@ -117,12 +119,12 @@ public:
 	memcpy(louds_sparse->level_cuts_, src,
 	       sizeof(position_t) * (louds_sparse->height_));
 	src += (sizeof(position_t) * (louds_sparse->height_));
-	align(src);
+	align(src, start);
 	louds_sparse->labels_ = LabelVector::deSerialize(src);
 	louds_sparse->child_indicator_bits_ = BitvectorRank::deSerialize(src);
 	louds_sparse->louds_bits_ = BitvectorSelect::deSerialize(src);
 	louds_sparse->suffixes_ = BitvectorSuffix::deSerialize(src);
-	align(src);
+	align(src, start);
 	return louds_sparse;
     }
 
diff --git a/include/rank.hpp b/include/rank.hpp
index dd4e4c8..b813fce 100644
--- a/include/rank.hpp
+++ b/include/rank.hpp
@@ -60,6 +60,7 @@ public:
     }
 
     void serialize(char*& dst) const {
+	const char* start = dst;
 	memcpy(dst, &num_bits_, sizeof(num_bits_));
 	dst += sizeof(num_bits_);
 	memcpy(dst, &basic_block_size_, sizeof(basic_block_size_));
@@ -68,10 +69,11 @@ public:
 	dst += bitsSize();
 	memcpy(dst, rank_lut_, rankLutSize());
 	dst += rankLutSize();
-	align(dst);
+	align(dst, start);
     }
 
     static BitvectorRank* deSerialize(char*& src) {
+	const char* start = src;
 	BitvectorRank* bv_rank = new BitvectorRank();
 	memcpy(&(bv_rank->num_bits_), src, sizeof(bv_rank->num_bits_));
 	src += sizeof(bv_rank->num_bits_);
@@ -90,7 +92,7 @@ public:
 	//bv_rank->rank_lut_ = const_cast<position_t*>(reinterpret_cast<const position_t*>(src));
 	//src += bv_rank->rankLutSize();
 	
-	align(src);
+	align(src, start);
 	return bv_rank;
     }
 
diff --git a/include/select.hpp b/include/select.hpp
index bc457c8..bfa60cf 100644
--- a/include/select.hpp
+++ b/include/select.hpp
@@ -85,6 +85,7 @@ public:
     }
 
     void serialize(char*& dst) const {
+	const char* start = dst;
 	memcpy(dst, &num_bits_, sizeof(num_bits_));
 	dst += sizeof(num_bits_);
 	memcpy(dst, &sample_interval_, sizeof(sample_interval_));
@@ -95,10 +96,11 @@ public:
 	dst += bitsSize();
 	memcpy(dst, select_lut_, selectLutSize());
 	dst += selectLutSize();
-	align(dst);
+	align(dst, start);
     }
 
     static BitvectorSelect* deSerialize(char*& src) {
+	const char* start = src;
 	BitvectorSelect* bv_select = new BitvectorSelect();
 	memcpy(&(bv_select->num_bits_), src, sizeof(bv_select->num_bits_));
 	src += sizeof(bv_select->num_bits_);
@@ -118,7 +120,7 @@ public:
 	//src += bv_select->bitsSize();
 	//bv_select->select_lut_ = const_cast<position_t*>(reinterpret_cast<const position_t*>(src));
 	//src += bv_select->selectLutSize();
-	align(src);
+	align(src, start);
 	return bv_select;
     }
 
diff --git a/include/suffix.hpp b/include/suffix.hpp
index b7df351..69b3863 100644
--- a/include/suffix.hpp
+++ b/include/suffix.hpp
@@ -139,6 +139,7 @@ public:
     int compare(const position_t idx, const std::string& key, const level_t level) const;
 
     void serialize(char*& dst) const {
+	const char* start = dst;
 	memcpy(dst, &num_bits_, sizeof(num_bits_));
 	dst += sizeof(num_bits_);
 	memcpy(dst, &type_, sizeof(type_));
@@ -151,10 +152,11 @@ public:
 	    memcpy(dst, bits_, bitsSize());
 	    dst += bitsSize();
 	}
-	align(dst);
+	align(dst, start);
     }
 
     static BitvectorSuffix* deSerialize(char*& src) {
+	const char* start = src;
 	BitvectorSuffix* sv = new BitvectorSuffix();
 	memcpy(&(sv->num_bits_), src, sizeof(sv->num_bits_));
 	src += sizeof(sv->num_bits_);
@@ -172,7 +174,7 @@ public:
 	    //sv->bits_ = const_cast<word_t*>(reinterpret_cast<const word_t*>(src));
 	    //src += sv->bitsSize();
 	}
-	align(src);
+	align(src, start);
 	return sv;
     }
 
-- 
2.43.0


From e360c091cbb09f61a43b0f487594f81127753091 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:47 +0000
Subject: [PATCH 17/22] fix: compare a key that is a prefix of other keys by
 its bytes first

Iter::compare called such a key smaller than every longer key: with only
"b" and "bc" stored, lookupRange("b", "abc") returned true.
---
 include/louds_dense.hpp  | 4 ++--
 include/louds_sparse.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/louds_dense.hpp b/include/louds_dense.hpp
index b568159..cbbfb03 100644
--- a/include/louds_dense.hpp
+++ b/include/louds_dense.hpp
@@ -415,12 +415,12 @@ void LoudsDense::Iter::clear() {
 }
 
 int LoudsDense::Iter::compare(const std::string& key) const {
-    if (is_at_prefix_key_ && (key_len_ - 1) < key.length())
-	return -1;
     std::string iter_key = getKey();
     std::string key_dense = key.substr(0, iter_key.length());
     int compare = iter_key.compare(key_dense);
     if (compare != 0) return compare;
+    if (is_at_prefix_key_ && (key_len_ - 1) < key.length())
+	return -1;
     if (isComplete()) {
 	position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1], is_at_prefix_key_);
 	return trie_->suffixes_->compare(suffix_pos, key, key_len_);
diff --git a/include/louds_sparse.hpp b/include/louds_sparse.hpp
index b6cbc4d..61b5e9c 100644
--- a/include/louds_sparse.hpp
+++ b/include/louds_sparse.hpp
@@ -423,14 +423,14 @@ void LoudsSparse::Iter::clear() {
 }
 
 int LoudsSparse::Iter::compare(const std::string& key) const {
-    if (is_at_terminator_ && (key_len_ - 1) < (key.length() - start_level_))
-	return -1;
     std::string iter_key = getKey();
     std::string key_sparse = key.substr(start_level_);
     std::string key_sparse_same_length = key_sparse.substr(0, iter_key.length());
     int compare = iter_key.compare(key_sparse_same_length);
     if (compare != 0) 
 	return compare;
+    if (is_at_terminator_ && (key_len_ - 1) < (key.length() - start_level_))
+	return -1;
     position_t suffix_pos = trie_->getSuffixPos(pos_in_trie_[key_len_ - 1]);
     return trie_->suffixes_->compare(suffix_pos, key_sparse, key_len_);
 }
-- 
2.43.0


From 55c3661b80ff4557f266551179c6dec8755a8e55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:18 +0000
Subject: [PATCH 18/22] fix: bench: load only the keys that are in the file

At the end of a file whose last line ends with a newline the loader pushed
one more key: the last one again, or an uninitialised integer.
---
 bench/bench.hpp | 13 +++++--------
 1 file changed, 5 insertions(+), 8 deletions(-)

diff --git a/bench/bench.hpp b/bench/bench.hpp
index f2c84a8..6c02fc8 100644
--- a/bench/bench.hpp
+++ b/bench/bench.hpp
@@ -57,16 +57,14 @@ void loadKeysFromFile(const std::string& file_name, const bool is_key_int,
     std::string key;
     uint64_t count = 0;
     if (is_key_int) {
-	while (count < kNumIntRecords && infile.good()) {
-	    uint64_t int_key;
-	    infile >> int_key;
+	uint64_t int_key;
+	while (count < kNumIntRecords && infile >> int_key) {
 	    key = uint64ToString(int_key);
 	    keys.push_back(key);
 	    count++;
 	}
     } else {
-	while (count < kNumEmailRecords && infile.good()) {
-	    infile >> key;
+	while (count < kNumEmailRecords && infile >> key) {
 	    keys.push_back(key);
 	    count++;
 	}
@@ -77,9 +75,8 @@ void loadKeysFromFile(const std::string& file_name, uint64_t num_records,
 		      std::vector<uint64_t> &keys) {
     std::ifstream infile(file_name);
     uint64_t count = 0;
-    while (count < num_records && infile.good()) {
-	uint64_t key;
-	infile >> key;
+    uint64_t key;
+    while (count < num_records && infile >> key) {
 	keys.push_back(key);
 	count++;
     }
-- 
2.43.0


From 93692bd8b307c26390f8b35f15857a22d69920d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:18 +0000
Subject: [PATCH 19/22] fix: bench: approxCount of a filter returns the count

It returned a bool, so the count that workload adds up and prints was the
number of queries with a count other than zero.
---
 bench/filter.hpp       | 2 +-
 bench/filter_bloom.hpp | 4 ++--
 bench/filter_surf.hpp  | 2 +-
 3 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/bench/filter.hpp b/bench/filter.hpp
index e9fc8d6..28366e8 100644
--- a/bench/filter.hpp
+++ b/bench/filter.hpp
@@ -10,7 +10,7 @@ class Filter {
 public:
     virtual bool lookup(const std::string& key) = 0;
     virtual bool lookupRange(const std::string& left_key, const std::string& right_key) = 0;
-    virtual bool approxCount(const std::string& left_key, const std::string& right_key) = 0;
+    virtual uint64_t approxCount(const std::string& left_key, const std::string& right_key) = 0;
     virtual uint64_t getMemoryUsage() = 0;
 };
 
diff --git a/bench/filter_bloom.hpp b/bench/filter_bloom.hpp
index b36b737..0d33dd1 100644
--- a/bench/filter_bloom.hpp
+++ b/bench/filter_bloom.hpp
@@ -29,9 +29,9 @@ public:
 	return false;
     }
 
-    bool approxCount(const std::string& left_key, const std::string& right_key) {
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) {
 	std::cout << kRed << "A Bloom filter does not support approximate count queries\n" << kNoColor;
-	return false;
+	return 0;
     }
 
     uint64_t getMemoryUsage() {
diff --git a/bench/filter_surf.hpp b/bench/filter_surf.hpp
index 547d809..1e65e4f 100644
--- a/bench/filter_surf.hpp
+++ b/bench/filter_surf.hpp
@@ -33,7 +33,7 @@ public:
 	return filter_->lookupRange(left_key, true, right_key, true);
     }
 
-    bool approxCount(const std::string& left_key, const std::string& right_key) {
+    uint64_t approxCount(const std::string& left_key, const std::string& right_key) {
 	return filter_->approxCount(left_key, right_key);
     }
 
-- 
2.43.0


From e2fd5a19dcd1bc1fa0eca5584075b9f0268fdde9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:18 +0000
Subject: [PATCH 20/22] fix: bench: the last thread executes the remaining
 transactions

When the number of threads does not divide the number of transactions, the
last ones were not executed, but true positives were computed over all.
---
 bench/workload_multi_thread.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 29e02ff..201f9df 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -167,7 +167,7 @@ int main(int argc, char *argv[]) {
 	thread_args[i].thread_id = i;
 	thread_args[i].filter = filter;
 	thread_args[i].start_pos = num_txns_per_thread * i;
-	thread_args[i].end_pos = num_txns_per_thread * (i + 1);
+	thread_args[i].end_pos = (i == num_threads - 1) ? num_txns : num_txns_per_thread * (i + 1);
 	if (query_type.compare(std::string("point")) == 0)
 	    thread_args[i].query_type = 0;
 	else
-- 
2.43.0


From 00900f2a815cd60c62fc0bf630585c27ea8e60a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:18 +0000
Subject: [PATCH 21/22] fix: bench: true positives and negatives as in workload

A range query that starts at a stored key is a true positive; true negatives
are the queries answered with no.
---
 bench/workload_multi_thread.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index 201f9df..c107c8a 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -222,7 +222,7 @@ int main(int argc, char *argv[]) {
 	}
     } else if (query_type.compare(std::string("range")) == 0) {
 	for (int i = 0; i < (int)txn_keys.size(); i++) {
-	    ht_iter = ht.upper_bound(txn_keys[i]);
+	    ht_iter = ht.lower_bound(txn_keys[i]);
 	    if (ht_iter != ht.end()) {
 		std::string fetched_key = ht_iter->first;
 		true_positives += (fetched_key.compare(upper_bound_keys[i]) < 0);
@@ -231,7 +231,7 @@ int main(int argc, char *argv[]) {
     }
     int64_t false_positives = positives - true_positives;
     assert(false_positives >= 0);
-    int64_t true_negatives = txn_keys.size() - true_positives;
+    int64_t true_negatives = txn_keys.size() - positives;
     double fp_rate = 0;
     if (false_positives > 0)
 	fp_rate = false_positives / (true_negatives + false_positives + 0.0);
-- 
2.43.0


From 5187bf04c630772e101a7bdcc0d15c3a3ca62d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:37 +0000
Subject: [PATCH 22/22] fix: bench: accept the workload type alterByte, reject
 unknown ones

The check of the workload type was the wrong way round.
---
 bench/workload.cpp              | 2 +-
 bench/workload_multi_thread.cpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/bench/workload.cpp b/bench/workload.cpp
index 9b4e0f3..59b7dc0 100644
--- a/bench/workload.cpp
+++ b/bench/workload.cpp
@@ -41,7 +41,7 @@ int main(int argc, char *argv[]) {
     }
 
     if (workload_type.compare(std::string("mixed")) != 0
-	&& workload_type.compare(std::string("alterByte")) == 0) {
+	&& workload_type.compare(std::string("alterByte")) != 0) {
 	std::cout << bench::kRed << "WRONG workload type\n" << bench::kNoColor;
 	return -1;
     }
diff --git a/bench/workload_multi_thread.cpp b/bench/workload_multi_thread.cpp
index c107c8a..0882b08 100644
--- a/bench/workload_multi_thread.cpp
+++ b/bench/workload_multi_thread.cpp
@@ -85,7 +85,7 @@ int main(int argc, char *argv[]) {
     }
 
     if (workload_type.compare(std::string("mixed")) != 0
-	&& workload_type.compare(std::string("alterByte")) == 0) {
+	&& workload_type.compare(std::string("alterByte")) != 0) {
 	std::cout << bench::kRed << "WRONG workload type\n" << bench::kNoColor;
 	return -1;
     }
-- 
2.43.0

