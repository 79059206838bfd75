From b855b6028a3cf19518d06f84f4978e417356ec4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:25 +0000
Subject: [PATCH 001/138] fix: tx cache deletion must not strand displaced
 entries behind an entry in its home bucket

---
 src/chains/eth/prover/tx_cache.c | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/prover/tx_cache.c b/src/chains/eth/prover/tx_cache.c
index 31faa67..25463a1 100644
--- a/src/chains/eth/prover/tx_cache.c
+++ b/src/chains/eth/prover/tx_cache.c
@@ -120,13 +120,12 @@ static void table_delete_at(size_t pos) {
   while (g_table[j].used) {
     uint64_t h    = hash_bytes32(g_table[j].key);
     size_t   home = table_index(h);
-    // If entry is in its home bucket, stop shifting
-    if (home == j) {
-      break;
+    // Move the entry into the hole only if its home bucket is not cyclically within (i, j]
+    if (((j - home) & (TABLE_CAPACITY - 1u)) >= ((j - i) & (TABLE_CAPACITY - 1u))) {
+      g_table[i] = g_table[j];
+      i          = j;
     }
-    g_table[i] = g_table[j];
-    i          = j;
-    j          = (j + 1u) & (TABLE_CAPACITY - 1u);
+    j = (j + 1u) & (TABLE_CAPACITY - 1u);
   }
   g_table[i].used = false;
 }
-- 
2.43.0


From 7d327e744fb38fdc04ff6eaec46d1ecc3a1ab41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:02:25 +0000
Subject: [PATCH 002/138] fix: tx cache size limit must stay below the table
 capacity, otherwise lookups never terminate

---
 src/chains/eth/prover/tx_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/prover/tx_cache.c b/src/chains/eth/prover/tx_cache.c
index 25463a1..6c40220 100644
--- a/src/chains/eth/prover/tx_cache.c
+++ b/src/chains/eth/prover/tx_cache.c
@@ -278,6 +278,7 @@ void c4_eth_tx_cache_reserve(uint32_t number_of_entries_to_add) {
 
 void c4_eth_tx_cache_set_max_size(uint32_t max) {
   if (max == 0) max = 1; // avoid zero which breaks invariants
+  if (max >= TABLE_CAPACITY) max = TABLE_CAPACITY - 1u; // keep one free slot, so probing always terminates
   g_max_tx_cache_size = (size_t) max;
   // Ensure we do not exceed the new limit
   clean_up_cache(0);
-- 
2.43.0


From 9b28f4a63faa12af5f15cd263f0e28642933dbf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:34 +0000
Subject: [PATCH 003/138] fix: rlp_decode must not read or return ranges
 outside of the source or loop on overflowing lengths

---
 src/chains/eth/verifier/rlp.c | 34 +++++++++++++++++++++++++++-------
 1 file changed, 27 insertions(+), 7 deletions(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index 9eed7e6..50c848c 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -23,10 +23,26 @@
 
 #include "rlp.h"
 
-static int check_range(bytes_t* target, bytes_t* src, size_t new_len, uint8_t* new_start, rlp_type_t result_type) {
+static rlp_type_t check_range(bytes_t* target, bytes_t* src, size_t new_len, uint8_t* new_start, rlp_type_t result_type) {
   if (!target) return RLP_OUT_OF_RANGE;
+  size_t offset = (size_t) (new_start - src->data);
+  if (offset > src->len || new_len > src->len - offset) {
+    *target = NULL_BYTES; // never hand out a range outside of the source
+    return RLP_OUT_OF_RANGE;
+  }
   *target = bytes(new_start, new_len);
-  return (new_start >= src->data && (new_start + new_len) >= src->data && (new_start + new_len) <= (src->data + src->len)) ? result_type : RLP_OUT_OF_RANGE;
+  return result_type;
+}
+
+// reads the big endian length, which must fit into the remaining bytes of the source
+static bool read_length(bytes_t* src, size_t offset, size_t len_of_len, size_t* len) {
+  if (len_of_len > src->len - offset) return false;
+  *len = 0;
+  for (size_t i = 0; i < len_of_len; i++) {
+    if (*len > (SIZE_MAX >> 8)) return false;
+    *len = (*len << 8) | src->data[offset + i];
+  }
+  return *len <= src->len - offset - len_of_len;
 }
 
 INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
@@ -43,9 +59,11 @@ INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
       src_idx += c - 0x80;
     }
     else if (c < 0xc0) {
-      size_t len, n;
-      for (len = 0, n = 0; n < (uint8_t) (c - 0xB7); n++)
-        len |= (*(src->data + src_idx + 1 + n)) << (8 * ((c - 0xb7) - n - 1));
+      size_t len = 0;
+      if (!read_length(src, src_idx + 1, c - 0xb7, &len)) {
+        if (target && index >= 0) *target = NULL_BYTES;
+        return RLP_OUT_OF_RANGE;
+      }
       if ((int) pos == index) return check_range(target, src, len, src->data + src_idx + c - 0xb7 + 1, RLP_ITEM);
       src_idx += len + c - 0xb7;
     }
@@ -57,8 +75,10 @@ INTERNAL rlp_type_t rlp_decode(bytes_t* src, int index, bytes_t* target) {
     }
     else {
       size_t len = 0;
-      for (size_t i = 0; i < (uint8_t) (c - 0xF7); i++)
-        len |= (*(src->data + src_idx + 1 + i)) << (8 * ((c - 0xf7) - i - 1));
+      if (!read_length(src, src_idx + 1, c - 0xf7, &len)) {
+        if (target && index >= 0) *target = NULL_BYTES;
+        return RLP_OUT_OF_RANGE;
+      }
       if ((int) pos == index)
         return check_range(target, src, len, src->data + src_idx + c - 0xf7 + 1, RLP_LIST);
       src_idx += len + c - 0xf7;
-- 
2.43.0


From 74e843940d1ee3088f3d48adae46621520a85bb2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:34 +0000
Subject: [PATCH 004/138] fix: rlp_get_uint64 must not interpret the list
 itself if the item is missing

---
 src/chains/eth/verifier/rlp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index 50c848c..f23f8d3 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -148,7 +148,7 @@ INTERNAL void rlp_to_list(buffer_t* buf) {
 
 INTERNAL uint64_t rlp_get_uint64(bytes_t data, int index) {
   uint64_t value = 0;
-  rlp_decode(&data, index, &data);
+  if (rlp_decode(&data, index, &data) < RLP_ITEM) return 0;
   if (data.len > 8 || !data.len) return 0;
   for (int i = 0; i < data.len; i++)
     value |= ((uint64_t) data.data[i]) << ((data.len - i - 1) << 3);
-- 
2.43.0


From 1bd4b07194bca0a4563235726506475b0a6737f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:06:34 +0000
Subject: [PATCH 005/138] fix: rlp_to_list truncated the length prefix of lists
 with 16 MB or more

---
 src/chains/eth/verifier/rlp.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/rlp.c b/src/chains/eth/verifier/rlp.c
index f23f8d3..d5a298f 100644
--- a/src/chains/eth/verifier/rlp.c
+++ b/src/chains/eth/verifier/rlp.c
@@ -140,7 +140,7 @@ INTERNAL void rlp_add_uint64(buffer_t* buf, uint64_t value) {
 }
 
 INTERNAL void rlp_to_list(buffer_t* buf) {
-  uint8_t  tmp[4] = {0};
+  uint8_t  tmp[5] = {0}; // prefix + up to 4 bytes length
   buffer_t tbuf   = stack_buffer(tmp);
   encode_length(&tbuf, buf->data.len, 0xc0);
   buffer_splice(buf, 0, 0, tbuf.data);
-- 
2.43.0


From 414980b659a091fee3970a3ad891dbcfa4b5cc9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:02 +0000
Subject: [PATCH 006/138] fix: patricia_verify must reject empty and truncated
 proofs instead of reporting them as found

---
 src/chains/eth/verifier/patricia.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 5f6cdf5..1ae86a4 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -165,8 +165,9 @@ INTERNAL patricia_result_t patricia_verify(bytes32_t root, bytes_t path, ssz_ob_
   }
 
   if (result && expected)
-    *expected = result == 2 ? NULL_BYTES : last_value;
+    *expected = result == 3 ? last_value : NULL_BYTES;
 
   if (nibbles) safe_free(nibbles);
-  return result == 3 ? PATRICIA_FOUND : (patricia_result_t) result;
+  // if we still expect a next node, the proof is incomplete
+  return result == 3 ? PATRICIA_FOUND : (result == 2 ? PATRICIA_NOT_EXISTING : PATRICIA_INVALID);
 }
-- 
2.43.0


From 6596ca1306e31d0a74ebfbbf8dd42e61b19a5e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:02 +0000
Subject: [PATCH 007/138] fix: patricia_verify resolved embedded nodes to wrong
 and out-of-bounds ranges

---
 src/chains/eth/verifier/patricia.c | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 1ae86a4..396360d 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -78,10 +78,10 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
       }
 
       if (rlp_decode(&node, **k, &val) == RLP_LIST) { // found embedded node in branch
-        rlp_decode(&node, (**k) - 1, &node);
+        if (val.len >= 31) return 0;                  // a embedded node is always smaller than 32 bytes
         *k += 1;
-        node = bytes(node.data + node.len, val.data + val.len - node.data); // decode the embedded node
-        return handle_node(&node, k, **k == 0xFF || *(*k + 1) == 0xFF, last_val, next_hash, depth);
+        node = bytes(val.data - 1, val.len + 1); // decode the embedded node (including its 1 byte list-prefix)
+        return handle_node(&node, k, last_node, last_val, next_hash, depth);
       }
       else if (val.len != 32) // we got a NULL, which means value does not exists
         return 2;
@@ -104,11 +104,9 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
 
         *k += np_len;
         if (rlp_decode(&node, 1, &val) == RLP_LIST) { // embedded
-          rlp_decode(&node, 0, &node);
-          node.data += node.len;
-          node.len = val.data + val.len - node.data;
-
-          return handle_node(&node, k, k && *k && *(k + 1) == NULL, last_val, next_hash, depth);
+          if (val.len >= 31) return 0;                // a embedded node is always smaller than 32 bytes
+          node = bytes(val.data - 1, val.len + 1);    // including its 1 byte list-prefix
+          return handle_node(&node, k, last_node, last_val, next_hash, depth);
         }
         else if (**k == 0xFF) { // we reached the end of the path
           if (is_leaf) {
-- 
2.43.0


From a72f24f9a5966366d04a076ec51ecdfe70017112 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 008/138] fix: patricia_create_merkle_proof must stop at a
 diverging extension and count only nodes it adds

---
 src/chains/eth/verifier/patricia_trie.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index f5f9c3a..44d0363 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -357,10 +357,11 @@ INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
   int           len     = 0;
   builder.def           = &def;
   while (root && offset <= nibbles.len) {
-    // add the node
-    if (root->hash_len >= 32)
+    // add the node (nodes smaller than 32 bytes are embedded in the parent)
+    if (root->hash_len >= 32 || !root->parent) {
       node_update_hash(root, false, &builder);
-    len++;
+      len++;
+    }
 
     if (offset == nibbles.len) break;
     if (root->type == NODE_TYPE_BRANCH) {
@@ -373,7 +374,8 @@ INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
       nibbles_t remaining = remaining_nibbles(nibbles, offset);
       int       leaf_nibble_len;
       int       same = nibble_cmp(remaining, root->values.leaf.path, &leaf_nibble_len);
-      root           = root->values.extension.child;
+      if (same < leaf_nibble_len) break; // the path diverges here, so this extension proves the exclusion
+      root = root->values.extension.child;
       offset += same;
     }
   }
-- 
2.43.0


From 504c658f1b0d217f31ffb4288303b631e1eefce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:07:16 +0000
Subject: [PATCH 009/138] fix: patricia_get_root must return the keccak hash
 for root nodes smaller than 32 bytes

---
 src/chains/eth/verifier/patricia_trie.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index 44d0363..3ea859f 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -391,6 +391,10 @@ INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
 }
 
 INTERNAL bytes_t patricia_get_root(node_t* node) {
+  if (node->hash_len < 32) { // the root is always hashed, even if the node would be small enough to be embedded
+    keccak(bytes(node->hash, node->hash_len), node->hash);
+    node->hash_len = 32;
+  }
   return bytes(node->hash, 32);
 }
 
-- 
2.43.0


From 0b57e8e83a9164774f84b7af45db60e9dacd52d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:06 +0000
Subject: [PATCH 010/138] fix: splitting a trie extension must relink its
 child, otherwise later hash updates skip the new node

---
 src/chains/eth/verifier/patricia_trie.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index 3ea859f..4bb920f 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -283,6 +283,7 @@ static void set_value(node_t* parent, nibbles_t nibbles, bytes_t value) {
           old_leaf->values.leaf.path =                              // just adjusting the path
               nibbles_to_path(remaining_nibbles(leaf_nibbles, same + 1), old_leaf->type == NODE_TYPE_LEAF);
           old_idx = leaf_nibbles.data[matching];
+          if (old_leaf->type == NODE_TYPE_EXTENSION) old_leaf->values.extension.child->parent = old_leaf;
         }
 
         // handle new node
-- 
2.43.0


From 6c369a3f4ef2467751be6e071a301c890d6830c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:08:06 +0000
Subject: [PATCH 011/138] fix: patricia_verify used an uninitialized node if
 the witness is not a list

---
 src/chains/eth/verifier/patricia.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 396360d..8ff875b 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -67,7 +67,7 @@ static int handle_node(bytes_t* raw, uint8_t** k, int last_node, bytes_t* last_v
 
   if (MAX_DEPTH < (++(*depth))) return 0;
 
-  rlp_decode(raw, 0, &node);
+  if (rlp_decode(raw, 0, &node) != RLP_LIST) return 0;
   switch ((int) rlp_decode(&node, -1, NULL)) {
 
     case NODE_BRANCH:
-- 
2.43.0


From aa844cea2bccc2cb81204c9b3e0303a17f66f8cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:18 +0000
Subject: [PATCH 012/138] fix: ssz_is_valid must enforce the limit of lists
 with dynamic elements and accept an empty last element

---
 src/util/ssz.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index f47e727..38fa535 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -143,12 +143,13 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
         if (ob.bytes.len < SSZ_OFFSET_SIZE) THROW_INVALID("Invalid bytelength for list");
         uint32_t first_offset = uint32_from_le(ob.bytes.data);
         // First offset must be aligned and within bounds
-        if (first_offset >= ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0)
+        if (first_offset > ob.bytes.len || first_offset < SSZ_OFFSET_SIZE || first_offset % SSZ_OFFSET_SIZE != 0)
           THROW_INVALID("Invalid first offset for list");
+        if (first_offset / SSZ_OFFSET_SIZE > ob.def->def.vector.len) THROW_INVALID("Invalid length for list");
         uint32_t offset = first_offset;
         for (int i = SSZ_OFFSET_SIZE; i < first_offset; i += SSZ_OFFSET_SIZE) {
           uint32_t next_offset = uint32_from_le(ob.bytes.data + i);
-          if (next_offset >= ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
+          if (next_offset > ob.bytes.len || next_offset < offset) THROW_INVALID("Invalid  offset for list");
           if (recursive && !ssz_is_valid(ssz_ob(*ob.def->def.vector.type, bytes(ob.bytes.data + offset, next_offset - offset)), recursive, state)) return false;
           offset = next_offset;
         }
-- 
2.43.0


From 37d414f0dc54256a3c5c3e6f9a3db326e0c3a11a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:18 +0000
Subject: [PATCH 013/138] fix: ssz_is_valid accepted bit lists without
 delimiter bit and rejected full ones

---
 src/util/ssz.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index 38fa535..1c077c4 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -171,8 +171,8 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
       // Bit vector length must match definition exactly
       RETURN_VALID_IF(ob.bytes.len == (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit vector");
     case SSZ_TYPE_BIT_LIST:
-      // Bit list length can be up to max length
-      RETURN_VALID_IF(ob.bytes.len <= (ob.def->def.vector.len + 7) >> 3, "Invalid length for bit list");
+      // Bit list needs the delimiter bit in the last byte and can have up to max length bits before it
+      RETURN_VALID_IF(ob.bytes.len && ob.bytes.data[ob.bytes.len - 1] && ssz_len(ob) <= ob.def->def.vector.len, "Invalid length for bit list");
     case SSZ_TYPE_UINT:
       // Uint length must match definition
       RETURN_VALID_IF(ob.bytes.len == ob.def->def.uint.len, "Invalid length for uint");
@@ -248,6 +248,7 @@ uint32_t ssz_len(ssz_ob_t ob) {
     case SSZ_TYPE_BIT_VECTOR:
       return ob.bytes.len * 8;
     case SSZ_TYPE_BIT_LIST: {
+      if (!ob.bytes.len) return 0;
       uint8_t last_bit = ob.bytes.data[ob.bytes.len - 1];
       if (last_bit == 1) return ob.bytes.len * 8 - 8;
       for (int i = 7; i >= 0; i--) {
-- 
2.43.0


From 795d4f4d4969d035466be9ced98292def76cc82e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:17:18 +0000
Subject: [PATCH 014/138] fix: ssz_is_valid read behind containers shorter than
 their fixed part

---
 src/util/ssz.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index 1c077c4..10ff6de 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -178,7 +178,9 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
       RETURN_VALID_IF(ob.bytes.len == ob.def->def.uint.len, "Invalid length for uint");
     case SSZ_TYPE_CONTAINER: {
       // Container with mixed fixed/dynamic fields
-      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < ssz_fixed_length(ob.def)) : (ob.bytes.len != ssz_fixed_length(ob.def))) THROW_INVALID("Invalid length for container");
+      size_t fixed_part = 0;
+      for (int i = 0; i < ob.def->def.container.len; i++) fixed_part += ssz_fixed_length(ob.def->def.container.elements + i);
+      if (ssz_is_dynamic(ob.def) ? (ob.bytes.len < fixed_part) : (ob.bytes.len != fixed_part)) THROW_INVALID("Invalid length for container");
       if (recursive) {
         ssz_ob_t last_ob     = {0};
         uint32_t last_offset = 0;
-- 
2.43.0


From 18ddae65709522f6da249847b0084b0e11ae64c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 015/138] fix: created ssz proofs missed the list length and
 nodes below lists with a limit of one

---
 src/util/ssz_merkle.c | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 070c8d2..5c882e7 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -443,8 +443,11 @@ static void mix_in_length(uint8_t* root, uint32_t length, merkle_ctx_t* ctx) {
 
   if (ctx && ctx->proof) {
     int pos = gindex_indexOf(ctx->proof->witnesses, ctx->root_gindex + 1);
-    if (pos >= 0 && ctx->proof->proof->data.data)
+    if (pos >= 0) {
+      buffer_grow(ctx->proof->proof, (ctx->proof->witnesses->data.len / sizeof(gindex_t)) * 32);
+      ctx->proof->proof->data.len = ctx->proof->witnesses->data.len / sizeof(gindex_t) * 32;
       memcpy(ctx->proof->proof->data.data + pos * 32, length_bytes, 32);
+    }
   }
 }
 
@@ -464,13 +467,10 @@ static void hash_tree_root(ssz_ob_t ob, uint8_t* out, merkle_ctx_t* parent) {
   calc_leafes(&ctx, ob);
   if (parent) {
     ctx.proof       = parent->proof;
-    ctx.root_gindex = ob.def->type == SSZ_TYPE_LIST ? parent->last_gindex * 2 : parent->last_gindex;
+    ctx.root_gindex = ob.def->type == SSZ_TYPE_LIST || ob.def->type == SSZ_TYPE_BIT_LIST ? parent->last_gindex * 2 : parent->last_gindex;
   }
 
-  if (ctx.num_leafes == 1)
-    set_leaf(ob, 0, out, NULL);
-  else
-    merkle_hash(&ctx, 0, 0, out);
+  merkle_hash(&ctx, 0, 0, out);
 
   // Mix in length for variable-length types (lists and bit lists)
   if (ob.def->type == SSZ_TYPE_LIST || ob.def->type == SSZ_TYPE_BIT_LIST)
-- 
2.43.0


From 45a910b1c2954d5cd60b2773d0e493b7a67654c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 016/138] fix: ssz_verify_multi_merkle_proof must not ignore
 conflicting leafes

---
 src/util/ssz_merkle.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index 5c882e7..fb7bb06 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -614,6 +614,18 @@ bool ssz_verify_multi_merkle_proof(bytes_t proof_data, bytes_t leafes, gindex_t*
     return false;
   }
 
+  // each leaf must be part of the calculated root, so a leaf must not be replaced by a different value for the same node or a node below it.
+  for (uint32_t i = 0; i < data.leafes_len; i++) {
+    for (uint32_t j = 0; j < data.leafes_len; j++) {
+      gindex_t path = gindex[j];
+      while (path > gindex[i]) path >>= 1;
+      if (i != j && path == gindex[i] && (gindex[j] != gindex[i] || memcmp(leafes.data + i * 32, leafes.data + j * 32, 32))) {
+        buffer_free(&witnesses_gindex);
+        return false;
+      }
+    }
+  }
+
   // find the highest gindex since we want to start with that.
   gindex_t start = 0;
   for (uint32_t i = 0; i < data.leafes_len; i++) {
-- 
2.43.0


From 268daeca669519082d8d9572294f813bd701fc3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 017/138] fix: ssz_verify_single_merkle_proof left the result
 untouched for proofs with a wrong length

---
 src/util/ssz_merkle.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/util/ssz_merkle.c b/src/util/ssz_merkle.c
index fb7bb06..c4c4898 100644
--- a/src/util/ssz_merkle.c
+++ b/src/util/ssz_merkle.c
@@ -638,7 +638,8 @@ bool ssz_verify_multi_merkle_proof(bytes_t proof_data, bytes_t leafes, gindex_t*
 }
 
 void ssz_verify_single_merkle_proof(bytes_t proof_data, bytes32_t leaf, gindex_t gindex, bytes32_t out) {
-  ssz_verify_multi_merkle_proof(proof_data, bytes(leaf, 32), &gindex, out);
+  if (!ssz_verify_multi_merkle_proof(proof_data, bytes(leaf, 32), &gindex, out))
+    memset(out, 0, 32); // make sure the result can not match any root
 }
 
 gindex_t ssz_add_gindex(gindex_t gindex1, gindex_t gindex2) {
-- 
2.43.0


From 6785ec59de26b14ebb3d89671432a0762ee751a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 018/138] fix: ssz_from_json dropped booleans

---
 src/util/ssz_builder.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 62bb05f..07a4be5 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -299,8 +299,7 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
     }
     case SSZ_TYPE_BOOLEAN: {
       // Boolean: convert JSON boolean to 0 or 1
-      buffer_grow(&buf.fixed, 1);
-      buf.fixed.data.data[0] = json_as_bool(json) ? 1 : 0;
+      ssz_add_uint8(&buf, json_as_bool(json) ? 1 : 0);
       return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
     }
     case SSZ_TYPE_NONE: {
-- 
2.43.0


From 7f0608f86c2d6d4765baceaa1aff5f328ece3e4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:18:15 +0000
Subject: [PATCH 019/138] fix: ssz_from_json truncated bit vectors whose length
 is not a multiple of 8

---
 src/util/ssz_builder.c | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index 07a4be5..b6b6c09 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -348,10 +348,10 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
     }
     case SSZ_TYPE_BIT_VECTOR: {
       bytes_t bytes = json_as_bytes(json, &buf.fixed);
-      if (bytes.len > def->def.vector.len / 8)
-        buf.fixed.data.len = def->def.vector.len / 8;
-      else if (bytes.len < def->def.vector.len / 8)
-        buffer_append(&buf.fixed, bytes(NULL, def->def.vector.len / 8 - bytes.len));
+      if (bytes.len > (def->def.vector.len + 7) / 8)
+        buf.fixed.data.len = (def->def.vector.len + 7) / 8;
+      else if (bytes.len < (def->def.vector.len + 7) / 8)
+        buffer_append(&buf.fixed, bytes(NULL, (def->def.vector.len + 7) / 8 - bytes.len));
       return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
     }
     case SSZ_TYPE_BIT_LIST:
-- 
2.43.0


From 038d2232d054df629914c769d5814b8ca967c8e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 020/138] fix: json_as_uint64 wrote in front of its stack
 buffer for hex values with more than 8 bytes

---
 src/util/json.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/json.c b/src/util/json.c
index 7810e71..4b318d2 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -357,6 +357,7 @@ uint64_t json_as_uint64(json_t value) {
   if (value.len > 4 && value.start && value.start[1] == '0' && value.start[2] == 'x') {
     int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 20));
     if (len == -1) return 0;
+    if (len > 8) return uint64_from_be(tmp + len - 8); // only the lower 64 bits
     memmove(tmp + 8 - len, tmp, len);
     memset(tmp, 0, 8 - len);
     return uint64_from_be(tmp);
-- 
2.43.0


From 72ea6dc680258b57053dc2e221bd7f9a654888aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 021/138] fix: json_as_string must not write the terminator
 behind a fixed buffer and json_as_uint64 must read all 20 digits

---
 src/util/json.c | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index 4b318d2..b93e8b1 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -337,25 +337,25 @@ char* json_as_string(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
   buffer->data.len = 0;
-  buffer_grow(buffer, value.len + 1);
+  size_t max_len   = buffer_grow(buffer, value.len + 1) - 1; // keep space for the NULL-Terminator in fixed buffers
   if (value.type == JSON_TYPE_STRING) {
-    buffer_append(buffer, bytes((uint8_t*) value.start + 1, value.len - 2));
+    buffer_append(buffer, bytes((uint8_t*) value.start + 1, value.len - 2 > max_len ? max_len : value.len - 2));
     buffer->data.data[buffer->data.len] = '\0';
     buffer->data.len++;
     json_deescape_string(buffer);
   }
   else {
-    buffer_append(buffer, bytes((uint8_t*) value.start, value.len));
+    buffer_append(buffer, bytes((uint8_t*) value.start, value.len > max_len ? max_len : value.len));
     buffer->data.data[buffer->data.len] = '\0';
   }
   return (char*) buffer->data.data;
 }
 
 uint64_t json_as_uint64(json_t value) {
-  uint8_t  tmp[20] = {0};
+  uint8_t  tmp[32] = {0};
   buffer_t buffer  = stack_buffer(tmp);
   if (value.len > 4 && value.start && value.start[1] == '0' && value.start[2] == 'x') {
-    int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, 20));
+    int len = hex_to_bytes(value.start + 1, value.len - 2, bytes(tmp, sizeof(tmp)));
     if (len == -1) return 0;
     if (len > 8) return uint64_from_be(tmp + len - 8); // only the lower 64 bits
     memmove(tmp + 8 - len, tmp, len);
-- 
2.43.0


From 78c9d96c2739bd5a23f575d18fd8ffbe6168ef93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 022/138] fix: json_as_bytes must respect the limit of fixed
 buffers

---
 src/util/json.c | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index b93e8b1..939a79a 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -373,18 +373,17 @@ bytes_t json_as_bytes(json_t value, buffer_t* buffer) {
   buffer_t tmp = {0};
   if (!buffer) buffer = &tmp;
   if (value.type == JSON_TYPE_NUMBER) {
+    if (buffer_grow(buffer, 8) < 8) return NULL_BYTES;
     buffer->data.len = 8;
-    buffer_grow(buffer, 8);
     uint64_to_be(buffer->data.data, json_as_uint64(value));
     return buffer->data;
   }
   if (value.type != JSON_TYPE_STRING) return NULL_BYTES;
 
-  buffer_grow(buffer, value.len / 2);
-  buffer->data.len = value.len;
-  int len          = hex_to_bytes(value.start + 1, value.len - 2, buffer->data);
+  size_t max_len   = buffer_grow(buffer, value.len / 2);
+  int    len       = hex_to_bytes(value.start + 1, value.len - 2, bytes(buffer->data.data, max_len));
+  buffer->data.len = len == -1 ? 0 : (uint32_t) len;
   if (len == -1) return NULL_BYTES;
-  buffer->data.len = (uint32_t) len;
   return buffer->data;
 }
 
-- 
2.43.0


From 0cf0d3b82807d6373dd120fa47d55fa501524db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 023/138] fix: json numbers with a signed exponent ended the
 value early

---
 src/util/json.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/json.c b/src/util/json.c
index 939a79a..6f5cd1f 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -87,7 +87,7 @@ static const char* find_end(const char* pos, char start, char end) {
 static json_t parse_number(const char* start) {
   json_t json = json(JSON_TYPE_NUMBER, start, 0);
   for (; *start; start++) {
-    if (isdigit((unsigned char)*start) || *start == '.' || *start == '-' || *start == 'e' || *start == 'E')
+    if (isdigit((unsigned char)*start) || *start == '.' || *start == '-' || *start == '+' || *start == 'e' || *start == 'E')
       json.len++;
     else
       break;
-- 
2.43.0


From c150232e32a8eacaac89a52c32378c8b403ef1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 024/138] fix: json_equal_string compared the wrong length

---
 src/util/json.c | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/util/json.c b/src/util/json.c
index 6f5cd1f..6122013 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -408,6 +408,5 @@ char* json_new_string(json_t parent) {
 bool json_equal_string(json_t value, const char* str) {
   if (!str || !value.start) return false;
   int len = strlen(str);
-  if (len < 2) return false; // Prevent underflow
-  return value.type == JSON_TYPE_STRING && value.len == len - 2 && memcmp(value.start + 1, str, value.len - 2) == 0;
+  return value.type == JSON_TYPE_STRING && value.len == len + 2 && memcmp(value.start + 1, str, len) == 0;
 }
-- 
2.43.0


From b2000f710aa7b934efe973b5711f99c8fe435e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 025/138] fix: hex_to_bytes must reject an invalid leading
 nibble

---
 src/util/bytes.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index e21decb..922409e 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -299,7 +299,11 @@ int hex_to_bytes(const char* hexstring, int len, bytes_t buffer) {
   int src_offset = (hexstring[0] == '0' && hexstring[1] == 'x') ? 2 : 0;
 
   // Handle leading nibble for odd-length strings
-  if (dst_offset) buffer.data[0] = hexchar_to_int(hexstring[src_offset++]);
+  if (dst_offset) {
+    int nibble = hexchar_to_int(hexstring[src_offset++]);
+    if (nibble == -1 || !buffer.len) return -1;
+    buffer.data[0] = nibble;
+  }
 
   // Validate buffer has enough space for the conversion
   if ((hex_len - src_offset) % 2 || (buffer.len - dst_offset) < (hex_len - src_offset) / 2)
-- 
2.43.0


From c0a1a3348b6832e58ebc753fb9665d764b0adc46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 026/138] fix: buffer functions wrote behind fixed buffers

---
 src/util/bytes.c | 17 ++++++++++++-----
 src/util/json.c  |  3 ++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index 922409e..9a92ce3 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -332,7 +332,7 @@ void buffer_add_chars(buffer_t* buffer, const char* data) {
   }
 }
 
-static inline void buffer_add_chars_escaped(buffer_t* buffer, const char* data) {
+static void buffer_add_chars_escaped(buffer_t* buffer, const char* data) {
   if (!data) return;
   const uint8_t* str = (const uint8_t*) data;
   int            len = strlen(data);
@@ -364,7 +364,14 @@ static inline void buffer_add_chars_escaped(buffer_t* buffer, const char* data)
     }
   }
 
-  buffer_grow(buffer, buffer->data.len + len + escaped_len + 1);
+  size_t needed = buffer->data.len + len + escaped_len + 1;
+  if (buffer_grow(buffer, needed) < needed) { // not enough space in a fixed buffer, so we append as much as we can
+    buffer_t escaped = {0};
+    buffer_add_chars_escaped(&escaped, data);
+    buffer_add_chars(buffer, (char*) escaped.data.data);
+    buffer_free(&escaped);
+    return;
+  }
 
   // Fast path: if no escaping needed, use buffer_append
   if (escaped_len == 0) {
@@ -487,7 +494,7 @@ bytes_t bytes_read(char* filename) {
 }
 
 void buffer_add_bytes(buffer_t* buf, uint32_t len, ...) {
-  buffer_grow(buf, buf->data.len + len);
+  if (buffer_grow(buf, buf->data.len + len) < buf->data.len + len) return;
   va_list args;
   va_start(args, len);
   for (uint32_t i = 0; i < len; i++) {
@@ -498,14 +505,14 @@ void buffer_add_bytes(buffer_t* buf, uint32_t len, ...) {
 }
 
 void buffer_add_be(buffer_t* buffer, uint64_t value, uint32_t len) {
-  buffer_grow(buffer, buffer->data.len + len);
+  if (buffer_grow(buffer, buffer->data.len + len) < buffer->data.len + len) return;
   uint32_t s = buffer->data.len;
   for (uint32_t i = 0; i < len; i++)
     buffer->data.data[s + len - i - 1] = (value >> (i << 3)) & 0xFF;
   buffer->data.len += len;
 }
 void buffer_add_le(buffer_t* buffer, uint64_t value, uint32_t len) {
-  buffer_grow(buffer, buffer->data.len + len);
+  if (buffer_grow(buffer, buffer->data.len + len) < buffer->data.len + len) return;
   uint32_t s = buffer->data.len;
   for (uint32_t i = 0; i < len; i++)
     buffer->data.data[s + i] = (value >> (i << 3)) & 0xFF;
diff --git a/src/util/json.c b/src/util/json.c
index 6122013..ff3e930 100644
--- a/src/util/json.c
+++ b/src/util/json.c
@@ -398,7 +398,8 @@ bool json_as_null(json_t value) {
 void buffer_add_json(buffer_t* buffer, json_t data) {
   buffer_grow(buffer, buffer->data.len + data.len + 1);
   buffer_append(buffer, bytes((uint8_t*) data.start, data.len));
-  buffer->data.data[buffer->data.len] = 0;
+  if (buffer->allocated > 0 || buffer->data.len < (uint32_t) -buffer->allocated)
+    buffer->data.data[buffer->data.len] = 0;
 }
 
 char* json_new_string(json_t parent) {
-- 
2.43.0


From 2b7911ac5016df9de160e5a8a888d9762f5343ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 027/138] fix: bprintf %u removed a character in front of an
 empty value

---
 src/util/bytes.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index 9a92ce3..3eabc14 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -661,7 +661,7 @@ char* bprintf(buffer_t* buf, const char* fmt, ...) {
         case 'u': { // write bytes as hex without leading zeros
           uint32_t len = buf->data.len;
           buffer_add_hex_chars(buf, bytes_remove_leading_zeros(va_arg(args, bytes_t)));
-          if (buf->data.data[len] == '0')
+          if (buf->data.len > len && buf->data.data[len] == '0')
             buffer_splice(buf, len, 1, bytes(NULL, 0));
           break;
         }
-- 
2.43.0


From a1700706d1dab434e4a3ff0a839a0b95b0d855e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 028/138] fix: json_validate accepted hex strings without 0x
 prefix

---
 src/util/json_validate.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index 68a3456..bf7d2d2 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -155,7 +155,7 @@ static const char* check_object(json_t ob, const char* def, const char* error_pr
 
 static const char* check_hex(json_t val, int len, bool isuint, const char* error_prefix) {
   if (val.type != JSON_TYPE_STRING) ERROR("%sExpected hex string", error_prefix);
-  if (val.start[1] != '0' && val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
+  if (val.len < 4 || val.start[1] != '0' || val.start[2] != 'x') ERROR("%sExpected hex prefixed (0x) string", error_prefix);
   int l = 0;
   for (int i = 3; i < val.len - 1; i++, l++) {
     if (!isxdigit((unsigned char)val.start[i])) ERROR("%sExpected hex string", error_prefix);
-- 
2.43.0


From 79e88ddbf875f5db9a2bb8a6d892881ee3879dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 029/138] fix: json_validate accepted hex values exceeding the
 limit by one nibble

---
 src/util/json_validate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index bf7d2d2..2634c5d 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -164,8 +164,8 @@ static const char* check_hex(json_t val, int len, bool isuint, const char* error
   if (len > 0 && (l % 2 || l / 2 != len)) ERROR("%sExpected hex string with fixed size (%d) but got %d bytes", error_prefix, len, l / 2);
   if (isuint && (l == 0 || (val.start[3] == '0' && l > 1)))
     ERROR("%sno leading zeros allowed for uint", error_prefix);
-  if (isuint && l / 2 > 32) ERROR("%sexpected uint with max 32 bytes length, but got %d bytes ", error_prefix, l / 2);
-  if (len < 0 && l / 2 > (-len)) ERROR("%sexpected uint with max %d bytes length, but got %d bytes ", error_prefix, -len, l / 2);
+  if (isuint && l > 64) ERROR("%sexpected uint with max 32 bytes length, but got %d bytes ", error_prefix, l / 2);
+  if (len < 0 && (l + 1) / 2 > (-len)) ERROR("%sexpected uint with max %d bytes length, but got %d bytes ", error_prefix, -len, l / 2);
   return NULL;
 }
 
-- 
2.43.0


From 93f5402bbc92e4e00eee20a9b378eaff3bf92bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:20:55 +0000
Subject: [PATCH 030/138] fix: json_validate accepted any string as suint

---
 src/util/json_validate.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index 2634c5d..d0a4aea 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -177,7 +177,7 @@ static const char* check_block(json_t val, const char* error_prefix) {
 
 static const char* check_suint(json_t val, const char* error_prefix) {
   // this is a uint number in quotes as string (no hex, only 0-9+)
-  if (val.type != JSON_TYPE_STRING) ERROR("%sExpected suint", error_prefix);
+  if (val.type != JSON_TYPE_STRING || val.len < 3) ERROR("%sExpected suint", error_prefix);
   for (int i = 1; i < val.len - 1; i++) {
     if (!isdigit((unsigned char)val.start[i])) ERROR("%sExpected suint", error_prefix);
   }
@@ -194,7 +194,7 @@ const char* json_validate(json_t val, const char* def, const char* error_prefix)
   if (strncmp(def, "hex32", 5) == 0) return check_hex(val, -32, false, error_prefix);
   if (strncmp(def, "bytes", 5) == 0) return check_hex(val, 0, false, error_prefix);
   if (strncmp(def, "uint", 4) == 0) return val.type == JSON_TYPE_NUMBER ? NULL : strdup("Expected uint");
-  if (strncmp(def, "suint", 5) == 0) return val.type == JSON_TYPE_STRING ? NULL : strdup("Expected suint");
+  if (strncmp(def, "suint", 5) == 0) return check_suint(val, error_prefix);
   if (strncmp(def, "bool", 4) == 0) return val.type == JSON_TYPE_BOOLEAN ? NULL : strdup("Expected boolean");
   if (strncmp(def, "block", 5) == 0) return check_block(val, error_prefix);
   ERROR("%sUnknown type %s", error_prefix ? error_prefix : "", def);
-- 
2.43.0


From f8f470e9ac6fb0157881a4003d36bd70a8f00846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:47 +0000
Subject: [PATCH 031/138] fix: json_validate accepted negative and fractional
 numbers as uint

---
 src/util/json_validate.c | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index d0a4aea..e72eb2d 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -184,6 +184,14 @@ static const char* check_suint(json_t val, const char* error_prefix) {
   return NULL;
 }
 
+static const char* check_uint(json_t val, const char* error_prefix) {
+  if (val.type != JSON_TYPE_NUMBER) ERROR("%sExpected uint", error_prefix);
+  for (int i = 0; i < val.len; i++) {
+    if (!isdigit((unsigned char)val.start[i])) ERROR("%sExpected uint", error_prefix);
+  }
+  return NULL;
+}
+
 const char* json_validate(json_t val, const char* def, const char* error_prefix) {
   if (val.type == JSON_TYPE_INVALID) return strdup("Invalid JSON");
   if (*def == '[') return check_array(val, def, error_prefix ? error_prefix : "");
@@ -193,7 +201,7 @@ const char* json_validate(json_t val, const char* def, const char* error_prefix)
   if (strncmp(def, "hexuint", 7) == 0) return check_hex(val, 0, true, error_prefix);
   if (strncmp(def, "hex32", 5) == 0) return check_hex(val, -32, false, error_prefix);
   if (strncmp(def, "bytes", 5) == 0) return check_hex(val, 0, false, error_prefix);
-  if (strncmp(def, "uint", 4) == 0) return val.type == JSON_TYPE_NUMBER ? NULL : strdup("Expected uint");
+  if (strncmp(def, "uint", 4) == 0) return check_uint(val, error_prefix);
   if (strncmp(def, "suint", 5) == 0) return check_suint(val, error_prefix);
   if (strncmp(def, "bool", 4) == 0) return val.type == JSON_TYPE_BOOLEAN ? NULL : strdup("Expected boolean");
   if (strncmp(def, "block", 5) == 0) return check_block(val, error_prefix);
-- 
2.43.0


From 77e5526de6c9deafbe88e9b108acc67acad7c501 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:38 +0000
Subject: [PATCH 032/138] fix: bprintf left full fixed buffers without
 terminator

---
 src/util/bytes.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/util/bytes.c b/src/util/bytes.c
index 3eabc14..6fcb5e4 100644
--- a/src/util/bytes.c
+++ b/src/util/bytes.c
@@ -731,9 +731,8 @@ char* bprintf(buffer_t* buf, const char* fmt, ...) {
     }
   }
   va_end(args);
-  if (last_pos != p)
-    buffer_add_chars(buf, last_pos);                            // automaticly appen NULL-Terminator
-  else if (buffer_grow(buf, buf->data.len + 1) > buf->data.len) // can we add the NULL-Terminator?
+  if (*last_pos) buffer_append(buf, bytes((uint8_t*) last_pos, strlen(last_pos)));
+  if (buffer_grow(buf, buf->data.len + 1) > buf->data.len)      // can we add the NULL-Terminator?
     buf->data.data[buf->data.len] = 0;                          // then add it
   else {                                                        // so we reached a limit without space for the NULL-Terminator
     buf->data.len--;                                            // remove the last character
-- 
2.43.0


From 178247af2c0a5bfbcebc0654b6267f5b4a50abce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:31:55 +0000
Subject: [PATCH 033/138] fix: patricia_verify rejected proofs with a branch
 for every nibble of the path

---
 src/chains/eth/verifier/patricia.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/patricia.c b/src/chains/eth/verifier/patricia.c
index 8ff875b..847c4f9 100644
--- a/src/chains/eth/verifier/patricia.c
+++ b/src/chains/eth/verifier/patricia.c
@@ -29,7 +29,7 @@
 #include <stdlib.h>
 #include <string.h>
 
-#define MAX_DEPTH      64
+#define MAX_DEPTH      65 // a branch for each of the 64 nibbles plus the leaf
 #define NODE_BRANCH    17
 #define NODE_LEAF      2
 #define NODE_EXTENSION 3
-- 
2.43.0


From 3de308bec4548d29b6d950b2101c5d25a8a2191d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:44:04 +0000
Subject: [PATCH 034/138] fix: patricia_create_merkle_proof returned an object
 referring to a type on its stack

---
 src/chains/eth/verifier/patricia_trie.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/patricia_trie.c b/src/chains/eth/verifier/patricia_trie.c
index 4bb920f..a738d43 100644
--- a/src/chains/eth/verifier/patricia_trie.c
+++ b/src/chains/eth/verifier/patricia_trie.c
@@ -350,7 +350,7 @@ INTERNAL void patricia_set_value(node_t** root, bytes_t path, bytes_t value) {
 }
 
 INTERNAL ssz_ob_t patricia_create_merkle_proof(node_t* root, bytes_t path) {
-  ssz_def_t     def     = SSZ_LIST("bytes", ssz_bytes_list, 1024);
+  static const ssz_def_t def = SSZ_LIST("bytes", ssz_bytes_list, 1024); // static, since the returned object refers to it
   ssz_builder_t builder = {0};
   buffer_t      buf     = {0};
   nibbles_t     nibbles = path_to_nibbles(path, false);
-- 
2.43.0


From 877ce50b8d00c539f90bd7d14a78a4010455af09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:31 +0000
Subject: [PATCH 035/138] fix: headers signed by less than two thirds of the
 sync committee were accepted

---
 src/chains/eth/verifier/beacon_header.c | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index b837be9..0156220 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -143,6 +143,15 @@ c4_status_t c4_verify_header(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t block_
   return c4_verify_historic_proof(ctx, header, sync_committee_bits, sync_committee_signature, header_proof);
 }
 
+// number of validators of the sync committee, which signed
+static uint32_t count_participants(bytes_t sync_committee_bits) {
+  uint32_t count = 0;
+  for (uint32_t i = 0; i < sync_committee_bits.len * 8; i++) {
+    if (sync_committee_bits.data[i >> 3] & (1 << (i & 7))) count++;
+  }
+  return count;
+}
+
 c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, ssz_ob_t* sync_committee_bits, ssz_ob_t* sync_committee_signature, uint64_t slot, bytes32_t pubkey_hash) {
   bytes32_t            root       = {0};
   c4_sync_validators_t sync_state = {0};
@@ -155,6 +164,10 @@ c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, s
 
   uint32_t period = slot >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits);
 
+  // a supermajority of the sync committee must have signed the header
+  if (count_participants(sync_committee_bits->bytes) * 3 < 512 * 2)
+    THROW_ERROR("not enough participants in the sync committee signature!");
+
   // compute blockhash
   ssz_hash_tree_root(*header, root);
 
-- 
2.43.0


From cc4243e0fde3110b2425d95790075f2aefc6e0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:55:34 +0000
Subject: [PATCH 036/138] fix: historic proofs accepted any value of the beacon
 state as block root

---
 src/chains/eth/verifier/beacon_header.c | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index 0156220..c35a3fc 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -114,11 +114,23 @@ static c4_status_t c4_verify_headers_proof(verify_ctx_t* ctx, ssz_ob_t header, s
   return c4_verify_blockroot_signature(ctx, &signed_header, &sync_committee_bits, &sync_committee_signature, 0, NULL);
 }
 
+// the gindex must point to a block root of the state: either block_roots[i] or the i-th block of historical_summaries[p].block_summary_root
+static bool is_block_root_gindex(chain_id_t chain_id, uint64_t state_slot, uint64_t gindex) {
+  const chain_spec_t* spec   = c4_eth_get_chain_spec(chain_id);
+  uint64_t            fields = c4_chain_fork_id(chain_id, epoch_for_slot(state_slot, spec)) >= C4_FORK_ELECTRA ? 64 : 32;
+  uint64_t            blocks = gindex >> 13; // 8192 block roots
+  if (blocks == fields + 5) return true; // block_roots
+  return (blocks & 1) == 0 && (blocks >> 25) == ((fields + 27) << 1); // historical_summaries (list with 2^24 entries).block_summary_root
+}
+
 static c4_status_t c4_verify_historic_proof(verify_ctx_t* ctx, ssz_ob_t header, ssz_ob_t sync_committee_bits, ssz_ob_t sync_committee_signature, ssz_ob_t historic_proof) {
   bytes32_t block_root    = {0};
   bytes32_t state_root    = {0};
   ssz_ob_t  signed_header = ssz_get(&historic_proof, "header");
 
+  if (!is_block_root_gindex(ctx->chain_id, ssz_get_uint64(&signed_header, "slot"), ssz_get_uint64(&historic_proof, "gindex")))
+    THROW_ERROR("invalid gindex for historic proof!");
+
   ssz_hash_tree_root(header, block_root);
   ssz_verify_single_merkle_proof(ssz_get(&historic_proof, "proof").bytes, block_root, ssz_get_uint64(&historic_proof, "gindex"), state_root);
 
-- 
2.43.0


From 3dcb3a1456658a0f71ce837a614d6f7e8d350939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:59:04 +0000
Subject: [PATCH 037/138] fix: aggregating the keys of a committee with
 repeated members gave a wrong key

---
 src/util/crypto.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/util/crypto.c b/src/util/crypto.c
index 60af08f..f13e639 100644
--- a/src/util/crypto.c
+++ b/src/util/crypto.c
@@ -153,8 +153,8 @@ static void blst_aggregate_body(int chunk_idx, void* ctx_ptr) {
 
       // Aggregate the public key
       // We use blst_p1_add_or_double_affine which is safe for adding a point to itself.
-      // blst_p1_add_affine would be slightly faster but undefined if points are equal.
-      // Since public keys in the sync committee are unique, blst_p1_add_affine is safe here.
+      // blst_p1_add_affine would be slightly faster but undefined if points are equal,
+      // and a validator may hold more than one seat in a sync committee.
       //
       // Note on blst_p1s_add: We intentionally do not use the multi-scalar addition
       // blst_p1s_add despite it using Pippenger's algorithm (approx 60-85% faster).
@@ -165,7 +165,7 @@ static void blst_aggregate_body(int chunk_idx, void* ctx_ptr) {
         first = false;
       }
       else
-        blst_p1_add_affine(&sum, &sum, &pubkey_affine);
+        blst_p1_add_or_double_affine(&sum, &sum, &pubkey_affine);
     }
   }
 
-- 
2.43.0


From 086225669b585c8869dad25fc3e45dc8891b334f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:07:23 +0000
Subject: [PATCH 038/138] fix: light client data with invalid lengths or
 offsets was read out of bounds

---
 src/chains/eth/verifier/sync_committee.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index aae1fe0..fed82d7 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -255,7 +255,7 @@ INTERNAL bool c4_update_from_sync_data(verify_ctx_t* ctx) {
 fork_id_t c4_eth_get_fork_for_lcu(chain_id_t chain_id, bytes_t data) {
   if (data.len < 4) return 0;
   uint32_t offset = uint32_from_le(data.data);
-  if (offset + 8 > data.len) return 0;
+  if (data.len < 8 || offset > data.len - 8) return 0;
   uint64_t            slot = uint64_from_le(data.data + offset);
   const chain_spec_t* spec = c4_eth_get_chain_spec(chain_id);
   return c4_chain_fork_id(chain_id, epoch_for_slot(slot, spec));
@@ -312,8 +312,8 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
 
     length = uint64_from_le(light_client_updates.data + pos);
 
-    // Check for integer overflow and bounds
-    if (length > UPDATE_PREFIX_SIZE && (pos + SSZ_LENGTH_SIZE + length > light_client_updates.len || pos + SSZ_LENGTH_SIZE + length < pos)) {
+    // the update must have at least the fork digest and lie completely in the data
+    if (length <= data_length_offset || length > light_client_updates.len || data_offset + (length - data_length_offset) > light_client_updates.len) {
       success = false;
       c4_state_add_error(&ctx->state, "invalid length causes overflow or exceeds bounds!");
       break;
-- 
2.43.0


From fb60466ba8710a1eab3b116abebd30062607d65f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:40 +0000
Subject: [PATCH 039/138] fix: error messages instead of light client updates
 were read behind their end

---
 src/chains/eth/verifier/sync_committee.c | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index fed82d7..0bd379d 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -350,12 +350,15 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
 INTERNAL bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates) {
   // Check for JSON error message
   if (light_client_updates.len && light_client_updates.data[0] == '{') {
-    json_t json = json_parse((char*) light_client_updates.data);
+    buffer_t text = {0}; // the response is not terminated
+    buffer_append(&text, light_client_updates);
+    buffer_add_chars(&text, "");
+    json_t json = json_parse((char*) text.data.data);
     json_t msg  = json_get(json, "message");
-    if (msg.start) {
-      ctx->state.error = bprintf(NULL, "Invalid light client updates: %j", msg);
-      return false;
-    };
+    bool is_error = msg.start != NULL;
+    if (is_error) ctx->state.error = bprintf(NULL, "Invalid light client updates: %j", msg);
+    buffer_free(&text);
+    if (is_error) return false;
   }
 
   // Process all light client updates using the general processor
-- 
2.43.0


From c3b1a5ffcddf535c3e60204f1b5e2764390b1349 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:02 +0000
Subject: [PATCH 040/138] fix: light client updates of unexpected periods made
 the sync recurse endlessly

---
 src/chains/eth/verifier/sync_committee.c      | 40 +++++++++++++++----
 src/chains/eth/verifier/sync_committee.h      | 22 +++++++++-
 .../eth/verifier/sync_committee_state.c       |  6 +++
 3 files changed, 60 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index 0bd379d..4b54078 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -72,7 +72,8 @@ static uint64_t finalized_root_gindex(chain_id_t chain_id, uint64_t slot) {
   return fork == C4_FORK_DENEB ? DENEP_FINALIZED_ROOT_GINDEX : ELECTRA_FINALIZED_ROOT_GINDEX;
 }
 
-static bool update_light_client_update(verify_ctx_t* ctx, ssz_ob_t* update) {
+static bool update_light_client_update(verify_ctx_t* ctx, ssz_ob_t* update, void* data) {
+  (void) data;
 
   bytes32_t sync_root             = {0};
   bytes32_t merkle_root           = {0};
@@ -189,7 +190,7 @@ static bool update_from_lc_sync_data(verify_ctx_t* ctx) {
   uint32_t updates_len = ssz_len(updates);
   for (uint32_t i = 0; i < updates_len; i++) {
     ssz_ob_t update = ssz_union(ssz_at(updates, i));
-    if (!update_light_client_update(ctx, &update)) return false;
+    if (!update_light_client_update(ctx, &update, NULL)) return false;
   }
 
   // we may want to clean up the sync data, so we don't sync again.
@@ -282,9 +283,10 @@ static bool detect_update_format(bytes_t data) {
  * @param ctx Verification context
  * @param light_client_updates Raw bytes containing one or more light client updates
  * @param process_update Callback function to process each individual update
+ * @param data passed to the callback
  * @return true if all updates were processed successfully, false otherwise
  */
-INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates, bool (*process_update)(verify_ctx_t*, ssz_ob_t*)) {
+INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates, bool (*process_update)(verify_ctx_t*, ssz_ob_t*, void*), void* data) {
   uint64_t length     = 0;
   bool     success    = true;
   bool     lighthouse = detect_update_format(light_client_updates);
@@ -338,7 +340,7 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
     }
 
     // Process this update using the callback
-    if (!process_update(ctx, &light_client_update_ob)) {
+    if (!process_update(ctx, &light_client_update_ob, data)) {
       success = false;
       break;
     }
@@ -347,8 +349,7 @@ INTERNAL bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_c
   return success;
 }
 
-INTERNAL bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates) {
-  // Check for JSON error message
+static bool check_error_message(verify_ctx_t* ctx, bytes_t light_client_updates) {
   if (light_client_updates.len && light_client_updates.data[0] == '{') {
     buffer_t text = {0}; // the response is not terminated
     buffer_append(&text, light_client_updates);
@@ -360,7 +361,32 @@ INTERNAL bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t light_client_u
     buffer_free(&text);
     if (is_error) return false;
   }
+  return true;
+}
+
+static bool add_to_range(verify_ctx_t* ctx, ssz_ob_t* update, void* data) {
+  c4_update_range_t*  range     = (c4_update_range_t*) data;
+  const chain_spec_t* spec      = c4_eth_get_chain_spec(ctx->chain_id);
+  ssz_ob_t            attested  = ssz_get(update, "attestedHeader");
+  ssz_ob_t            header    = ssz_get(&attested, "beacon");
+  ssz_ob_t            finalized = ssz_get(update, "finalizedHeader");
+  uint32_t            period    = ssz_get_uint64(&header, "slot") >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits);
+  if (!range->count) range->start = period;
+  if (period != range->start + range->count) RETURN_VERIFY_ERROR(ctx, "light client updates must be consecutive!");
+  range->finalized_header = ssz_get(&finalized, "beacon");
+  range->count++;
+  return true;
+}
+
+INTERNAL bool c4_get_client_updates_range(verify_ctx_t* ctx, bytes_t light_client_updates, c4_update_range_t* range) {
+  *range = (c4_update_range_t) {0};
+  return check_error_message(ctx, light_client_updates) && c4_process_light_client_updates(ctx, light_client_updates, add_to_range, range);
+}
+
+INTERNAL bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates) {
+  // Check for JSON error message
+  if (!check_error_message(ctx, light_client_updates)) return false;
 
   // Process all light client updates using the general processor
-  return c4_process_light_client_updates(ctx, light_client_updates, update_light_client_update);
+  return c4_process_light_client_updates(ctx, light_client_updates, update_light_client_update, NULL);
 }
diff --git a/src/chains/eth/verifier/sync_committee.h b/src/chains/eth/verifier/sync_committee.h
index 234ea26..601ee6d 100644
--- a/src/chains/eth/verifier/sync_committee.h
+++ b/src/chains/eth/verifier/sync_committee.h
@@ -122,9 +122,29 @@ bool c4_handle_client_updates(verify_ctx_t* ctx, bytes_t client_updates);
  * @param ctx Verification context
  * @param light_client_updates Raw SSZ-encoded updates
  * @param process_update Callback function invoked for each update
+ * @param data passed to the callback
  * @return true if all updates processed successfully, false on error
  */
-bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates, bool (*process_update)(verify_ctx_t*, ssz_ob_t*));
+bool c4_process_light_client_updates(verify_ctx_t* ctx, bytes_t light_client_updates, bool (*process_update)(verify_ctx_t*, ssz_ob_t*, void*), void* data);
+
+/**
+ * The periods covered by a list of consecutive light client updates.
+ */
+typedef struct {
+  uint32_t start;            ///< period of the first update
+  uint32_t count;            ///< number of updates
+  ssz_ob_t finalized_header; ///< the finalized header of the last update
+} c4_update_range_t;
+
+/**
+ * Determines the periods of the updates without applying them. Fails if they are not consecutive.
+ *
+ * @param ctx Verification context
+ * @param light_client_updates Raw SSZ-encoded updates
+ * @param range Output parameter for the periods
+ * @return true if the updates are consecutive, false on error
+ */
+bool c4_get_client_updates_range(verify_ctx_t* ctx, bytes_t light_client_updates, c4_update_range_t* range);
 
 /**
  * Handle and process raw light client bootstrap data from Beacon API.
diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 13261db..a626796 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -945,6 +945,12 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     // Strategy 3: Normal sync path - fetch light_client_updates from lowest to target period
     bytes_t light_client_updates = {0};
     if (req_client_update(&ctx->state, sync_state.lowest_period, sync_state.current_period - sync_state.lowest_period, ctx->chain_id, &light_client_updates)) {
+      // only the requested updates are allowed, others may need committees we don't have and would end up in requesting the same updates again.
+      c4_update_range_t range = {0};
+      if (!c4_get_client_updates_range(ctx, light_client_updates, &range))
+        return c4_state_add_error(&ctx->state, "Failed to read the light client updates");
+      if (range.count && (range.start != sync_state.lowest_period || range.count > sync_state.current_period - sync_state.lowest_period))
+        return c4_state_add_error(&ctx->state, "light client updates for unexpected periods");
       if (!c4_handle_client_updates(ctx, light_client_updates))
         return c4_state_get_pending_request(&ctx->state) ? C4_PENDING : c4_state_add_error(&ctx->state, "Failed to handle light client updates");
     }
-- 
2.43.0


From eb33cb3a323d027f9c2b335e132040bd94129cfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:12:25 +0000
Subject: [PATCH 041/138] fix: light client updates of the first slot of a fork
 were checked with the domain of the previous fork

---
 src/chains/eth/verifier/beacon_header.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/beacon_header.c b/src/chains/eth/verifier/beacon_header.c
index c35a3fc..3ee74fe 100644
--- a/src/chains/eth/verifier/beacon_header.c
+++ b/src/chains/eth/verifier/beacon_header.c
@@ -183,8 +183,8 @@ c4_status_t c4_verify_blockroot_signature(verify_ctx_t* ctx, ssz_ob_t* header, s
   // compute blockhash
   ssz_hash_tree_root(*header, root);
 
-  // compute signing message and store it in root again
-  calculate_signing_message(ctx, slot, root, root);
+  // compute signing message and store it in root again, the header is signed in the following slot at the earliest, even if the committee is the one of its own period.
+  calculate_signing_message(ctx, ssz_get_uint64(header, "slot") + 1, root, root);
 
 #ifdef BLOCK_HASH_CACHE
   valid = is_already_validated(root);
-- 
2.43.0


From a115ab1a36dd53e9737b98241b64925dd03f6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:33 +0000
Subject: [PATCH 042/138] fix: storing a known sync period again or more than 8
 periods corrupted the list of periods

---
 .../eth/verifier/sync_committee_state.c       | 20 ++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index a626796..761b24d 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -355,6 +355,7 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
   c4_get_storage_config(&storage_conf);
   uint32_t periods = period_count(state);
   char     name[100];
+  if (max_states > MAX_SYNC_PERIODS) max_states = MAX_SYNC_PERIODS; // more do not fit in the state
 
   while (periods >= max_states) {
     uint32_t oldest       = 0;
@@ -362,7 +363,7 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
     int      oldest_index = 0;
 
     // Find the oldest and latest period
-    for (int i = 0; state->data.periods[i]; i++) {
+    for (int i = 0; i < periods; i++) {
       uint32_t p = state->data.periods[i];
       if (p > latest || latest == 0)
         latest = p;
@@ -393,6 +394,7 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
     if (oldest_index < periods - 1)
       memmove(state->data.periods + oldest_index, state->data.periods + oldest_index + 1, (periods - oldest_index - 1) * sizeof(uint32_t));
     periods--;
+    state->data.periods[periods] = 0;
   }
 
   return periods;
@@ -448,11 +450,19 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
 
   c4_get_storage_config(&storage_conf);
 
-  // Cleanup old periods if storage limit reached
-  uint32_t periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
+  // a known period is not added again
+  bool known = false;
+  for (uint32_t i = 0; i < period_count(&state); i++) {
+    if (state.data.periods[i] == period) known = true;
+  }
+
+  if (!known) {
+    // Cleanup old periods if storage limit reached
+    uint32_t periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
 
-  // Add new period to tracking
-  state.data.periods[periods] = period;
+    // Add new period to tracking
+    state.data.periods[periods] = period;
+  }
 
   // Store the sync committee data
   if (!store_sync_period(period, validators, previous_pubkeys_hash, chain_id))
-- 
2.43.0


From 9b75de6a57a1abdc0dd4828a4b331de31b89fe25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:20:32 +0000
Subject: [PATCH 043/138] fix: a storage refusing writes made the initial sync
 recurse endlessly

---
 src/chains/eth/verifier/sync_committee_state.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 761b24d..6d6523e 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -491,6 +491,7 @@ static c4_status_t init_sync_state(verify_ctx_t* ctx) {
       if (c4_req_checkpointz_status(state, ctx->chain_id, &checkpoint_epoch, checkpoint_root)) {
         // Set the checkpoint as trusted blockhash
         c4_eth_set_trusted_checkpoint(ctx->chain_id, checkpoint_root);
+        if (c4_get_chain_state(ctx->chain_id).status == C4_STATE_SYNC_EMPTY) THROW_ERROR("failed to store the trusted checkpoint");
         // Recursively call init_sync_state to process the bootstrap with the new trusted checkpoint
         return init_sync_state(ctx);
       }
@@ -938,6 +939,7 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     if (sync_state.lowest_period == 0) {
       if (sync_state.highest_period) THROW_ERROR("the last sync state is higher than the required period, but we cannot sync backwards");
       TRY_ASYNC(init_sync_state(ctx));
+      if (c4_get_chain_state(ctx->chain_id).status != C4_STATE_SYNC_PERIODS) THROW_ERROR("failed to store the sync committee");
       // Recursively call to retrieve the period after initialization
       return c4_get_validators(ctx, period, target_state, NULL);
     }
-- 
2.43.0


From 93a1775d9e261e9f11ce1a902e0b4e1c8bfeb18a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:22:14 +0000
Subject: [PATCH 044/138] fix: the keys of an evicted sync period were deleted
 before the new state was stored

---
 .../eth/verifier/sync_committee_state.c       | 25 +++++++++++--------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 6d6523e..9bdf977 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -344,17 +344,15 @@ c4_status_t c4_handle_bootstrap(verify_ctx_t* ctx, bytes_t bootstrap_data, bytes
 /**
  * Cleanup old sync periods when storage limit is reached.
  * Keeps the oldest and latest periods, removes intermediate ones.
+ * The keys of the removed periods have to be deleted after the new state is stored, otherwise a crash leaves a state listing periods without keys.
  *
  * @param state Chain state containing period information
- * @param chain_id Chain identifier
  * @param max_states Maximum number of sync states to keep
+ * @param removed the removed periods (MAX_SYNC_PERIODS entries, unused ones are left untouched)
  * @return Updated number of periods after cleanup
  */
-static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id, uint32_t max_states) {
-  storage_plugin_t storage_conf = {0};
-  c4_get_storage_config(&storage_conf);
+static uint32_t cleanup_old_periods(c4_chain_state_t* state, uint32_t max_states, uint32_t* removed) {
   uint32_t periods = period_count(state);
-  char     name[100];
   if (max_states > MAX_SYNC_PERIODS) max_states = MAX_SYNC_PERIODS; // more do not fit in the state
 
   while (periods >= max_states) {
@@ -388,9 +386,8 @@ static uint32_t cleanup_old_periods(c4_chain_state_t* state, chain_id_t chain_id
       oldest       = oldest_2nd;
     }
 
-    // Delete from storage and remove from periods array
-    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, oldest);
-    storage_conf.del(name);
+    // remove from periods array
+    *(removed++) = oldest;
     if (oldest_index < periods - 1)
       memmove(state->data.periods + oldest_index, state->data.periods + oldest_index + 1, (periods - oldest_index - 1) * sizeof(uint32_t));
     periods--;
@@ -451,14 +448,15 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
   c4_get_storage_config(&storage_conf);
 
   // a known period is not added again
-  bool known = false;
+  bool     known                     = false;
+  uint32_t removed[MAX_SYNC_PERIODS] = {0};
   for (uint32_t i = 0; i < period_count(&state); i++) {
     if (state.data.periods[i] == period) known = true;
   }
 
   if (!known) {
     // Cleanup old periods if storage limit reached
-    uint32_t periods = cleanup_old_periods(&state, chain_id, storage_conf.max_sync_states);
+    uint32_t periods = cleanup_old_periods(&state, storage_conf.max_sync_states, removed);
 
     // Add new period to tracking
     state.data.periods[periods] = period;
@@ -470,6 +468,13 @@ INTERNAL bool c4_set_sync_period(uint32_t period, bytes_t validators, chain_id_t
 
   // Update chain state
   c4_set_chain_state(chain_id, &state);
+
+  // now the keys of the removed periods are not needed anymore
+  for (uint32_t i = 0; i < MAX_SYNC_PERIODS && removed[i]; i++) {
+    char name[100];
+    sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, removed[i]);
+    storage_conf.del(name);
+  }
   return true;
 }
 
-- 
2.43.0


From f0fc5e57a6450b1d9c1e750bc4068eeaf74eff56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:23:01 +0000
Subject: [PATCH 045/138] fix: syncing a period from the hash stored with the
 following one always failed

---
 .../eth/verifier/sync_committee_state.c       | 130 +++++++++---------
 1 file changed, 63 insertions(+), 67 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 9bdf977..e95928f 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -60,7 +60,7 @@
 
 #ifdef C4_STATIC_MEMORY
 #define C4_STATIC_STATE_SIZE   1024
-#define C4_STATIC_SYNC_SIZE    49152
+#define C4_STATIC_SYNC_SIZE    49184
 #define C4_STATIC_KEYS_48_SIZE 512 * 48
 // Static buffers for embedded targets
 static uint8_t state_buffer[C4_STATIC_STATE_SIZE];
@@ -544,7 +544,7 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
   buffer_t validators = {0};
   buffer_t prev_data  = {0};
 #ifdef BLS_DESERIALIZE
-  validators.allocated = 512 * 48 * 2;
+  validators.allocated = 512 * 48 * 2 + 32;
 #else
   validators.allocated = 512 * 48;
 #endif
@@ -580,12 +580,22 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
     buffer_free(&validators);
 #endif
     validators.data = b;
-    storage_conf.set(name, b);
+    // store them deserialized, but keep the previous_pubkeys_hash
+#ifdef C4_STATIC_MEMORY
+    memcpy(sync_buffer + b.len, previous_root, 32);
+    storage_conf.set(name, bytes(sync_buffer, b.len + 32));
+#else
+    buffer_t storage_data = {0};
+    buffer_append(&storage_data, b);
+    buffer_append(&storage_data, bytes(previous_root, 32));
+    storage_conf.set(name, storage_data.data);
+    buffer_free(&storage_data);
+#endif
     //    log_debug("storing deserialized validators: %d bytes", b.len);
   }
-  else if (validators.data.data && validators.data.len == 512 * 48 + 32) {
-    // Old format without deserialization - just strip the root
-    validators.data.len = 512 * 48;
+  else if (validators.data.data && validators.data.len == 512 * 48 * 2 + 32) {
+    // already deserialized - just strip the root
+    validators.data.len = 512 * 48 * 2;
     log_debug("stripping root from validators (len=%d)", validators.data.len);
   }
   else
@@ -801,6 +811,13 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validat
 }
 #endif // USE_CHECKPOINTZ
 
+// callback returning the (only) light client update
+static bool get_update(verify_ctx_t* ctx, ssz_ob_t* update, void* data) {
+  (void) ctx;
+  *((ssz_ob_t*) data) = *update;
+  return true;
+}
+
 /**
  * Pragmatic fallback to sync a period using the next period's previous_pubkeys_hash.
  *
@@ -830,8 +847,8 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validat
  *
  * If signature verification fails with period N+1's keys:
  * 1. Check if we have period N+1 cached (highest_period == period + 1)
- * 2. Fetch the light_client_update for period N
- * 3. Extract nextSyncCommittee (which represents period N+1's keys)
+ * 2. Fetch the light_client_update for period N-1
+ * 3. Extract nextSyncCommittee (which represents period N's keys)
  * 4. Hash these keys and compare against the stored previous_pubkeys_hash
  * 5. If match: use the keys from step 3 for verification
  *
@@ -848,78 +865,56 @@ static c4_status_t c4_try_sync_from_next_period(verify_ctx_t* ctx, uint32_t peri
   if (sync_state->highest_period != period + 1)
     return C4_SUCCESS; // Not applicable - this is not an error, just means edge case doesn't apply
 
-  // Verify we have an anchor point (either lowest period or the next period)
-  if (sync_state->lowest_period == 0 || sync_state->lowest_period > period)
-    THROW_ERROR("Failed to get previous validators, because there is no anchor like the following period.");
-
-  // Step 1: Retrieve period N+1 from cache to get its previous_pubkeys_hash
+  // Step 1: Retrieve period N+1 from cache to get its previous_pubkeys_hash, which is the SHA256(period N's validator keys)
   c4_sync_validators_t next_sync_state = get_validators_from_cache(ctx, period + 1);
-  if (next_sync_state.validators.data == NULL)
-    THROW_ERROR("Failed to get previous validators, because there is no anchor like the following period.");
-
-  // Step 2: Extract the stored hash of period N's keys from period N+1's metadata
-  bytes32_t previous_hash = {0}; // This is SHA256(period N's validator keys)
-  bytes32_t no_prev       = {0}; // Zero hash for the keys we're about to fetch (they have no predecessor in our use)
-  memcpy(previous_hash, next_sync_state.previous_pubkeys_hash, 32);
 #ifndef C4_STATIC_MEMORY
   // Free next_sync_state validators as we only needed the previous_pubkeys_hash
   safe_free(next_sync_state.validators.data);
-  safe_free(sync_state->validators.data);
 #endif
 
-  // Step 3: Fetch the light_client_update for period N from Beacon API
-  bytes_t   light_client_update = {0};
-  bytes32_t computed_root       = {0};
-  if (req_client_update(&ctx->state, period, 1, ctx->chain_id, &light_client_update)) {
-    // Parse the SSZ-encoded update
-    fork_id_t        fork              = c4_eth_get_fork_for_lcu(ctx->chain_id, light_client_update);
-    const ssz_def_t* client_update_def = eth_get_light_client_update(fork);
-
-    if (!client_update_def || light_client_update.len < UPDATE_PREFIX_SIZE)
-      THROW_ERROR("Invalid light client update format in edge case sync");
+  // without the hash we can still use the normal sync from the lowest period
+  if (bytes_all_zero(bytes(next_sync_state.previous_pubkeys_hash, 32))) return C4_SUCCESS;
 
-    // Navigate to the first update in the list
-    uint32_t offset = uint32_from_le(light_client_update.data);
-    if (offset + UPDATE_PREFIX_SIZE > light_client_update.len)
-      THROW_ERROR("Invalid offset in light client update list");
-
-    uint64_t length                    = uint64_from_le(light_client_update.data + offset);
-    bytes_t  light_client_update_bytes = bytes(light_client_update.data + offset + UPDATE_PREFIX_SIZE, length - SSZ_OFFSET_SIZE);
-    ssz_ob_t update_ob                 = {.bytes = light_client_update_bytes, .def = client_update_def};
+  // Step 2: Fetch the light_client_update for period N-1 from Beacon API
+  bytes_t  light_client_update = {0};
+  ssz_ob_t update_ob           = {0};
+  if (!req_client_update(&ctx->state, period - 1, 1, ctx->chain_id, &light_client_update))
+    return ctx->state.error ? C4_ERROR : C4_PENDING;
+  if (!c4_process_light_client_updates(ctx, light_client_update, get_update, &update_ob) || !update_ob.def)
+    THROW_ERROR("Invalid light client update format in edge case sync");
 
-    // Step 4: Extract nextSyncCommittee from the update (this is period N+1's committee in period N's update)
-    ssz_ob_t next_sync_committee = ssz_get(&update_ob, "nextSyncCommittee");
-    if (ssz_is_error(next_sync_committee))
-      THROW_ERROR("Failed to extract nextSyncCommittee from light client update");
+  // Step 3: Extract nextSyncCommittee from the update (this is period N's committee in period N-1's update)
+  ssz_ob_t next_sync_committee = ssz_get(&update_ob, "nextSyncCommittee");
+  bytes_t  pubkeys             = ssz_get(&next_sync_committee, "pubkeys").bytes;
 
-    // Step 5: Compute the hash of these keys (optionally deserialize for efficiency)
+  // Step 4: Compute the hash of these keys
+  bytes32_t computed_hash = {0};
 #ifdef BLS_DESERIALIZE
-    bytes_t b = blst_deserialize_p1_affine(ssz_get(&next_sync_committee, "pubkeys").bytes.data, 512, NULL);
+#ifdef C4_STATIC_MEMORY
+  bytes_t b = blst_deserialize_p1_affine(pubkeys.data, 512, sync_buffer);
 #else
-    bytes_t b = bytes_dup(ssz_get(&next_sync_committee, "pubkeys").bytes);
+  bytes_t b = blst_deserialize_p1_affine(pubkeys.data, 512, NULL);
+#endif
+  if (b.data) sha256(b, computed_hash);
+#ifndef C4_STATIC_MEMORY
+  safe_free(b.data);
+#endif
+#else
+  sha256(pubkeys, computed_hash);
 #endif
-    sha256(b, computed_root);
-
-    // Step 6: Verify computed hash matches the stored previous_pubkeys_hash
-    // This proves the keys we fetched are indeed period N's keys
-    bool valid = memcmp(previous_hash, computed_root, 32) == 0;
-    if (valid)
-      sync_state->validators = b; // Success! Use these keys for verification
-    else {
-      safe_free(b.data);
-      THROW_ERROR("Sync committee root mismatch in period transition edge case");
-    }
 
-    // Step 7: Store period N's keys for future use (with no previous hash since we're using fallback)
-    if (!c4_set_sync_period(period, ssz_get(&next_sync_committee, "pubkeys").bytes, ctx->chain_id, no_prev)) {
-      safe_free(b.data);
-      THROW_ERROR("Failed to store sync committee for period transition");
-    }
+  // Step 5: Verify computed hash matches the stored previous_pubkeys_hash
+  // This proves the keys we fetched are indeed period N's keys
+  if (memcmp(next_sync_state.previous_pubkeys_hash, computed_hash, 32))
+    THROW_ERROR("Sync committee root mismatch in period transition edge case");
 
-    return C4_SUCCESS;
-  }
-  else
-    return ctx->state.error ? C4_ERROR : C4_PENDING;
+  // Step 6: Store period N's keys for future use (with no previous hash since we're using fallback)
+  bytes32_t no_prev = {0};
+  if (!c4_set_sync_period(period, pubkeys, ctx->chain_id, no_prev))
+    THROW_ERROR("Failed to store sync committee for period transition");
+
+  *sync_state = get_validators_from_cache(ctx, period);
+  return C4_SUCCESS;
 }
 
 /**
@@ -946,7 +941,7 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
       TRY_ASYNC(init_sync_state(ctx));
       if (c4_get_chain_state(ctx->chain_id).status != C4_STATE_SYNC_PERIODS) THROW_ERROR("failed to store the sync committee");
       // Recursively call to retrieve the period after initialization
-      return c4_get_validators(ctx, period, target_state, NULL);
+      return c4_get_validators(ctx, period, target_state, pubkey_hash);
     }
 
     // Strategy 2: Edge case - we have period+1 but not period (delayed finality at boundary)
@@ -956,6 +951,7 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
     // Check if edge case fallback succeeded
     if (sync_state.validators.data) {
       *target_state = sync_state;
+      if (pubkey_hash) sha256(sync_state.validators, pubkey_hash);
       return C4_SUCCESS;
     }
 
-- 
2.43.0


From 2f0ccf1bd4f9838541bcc36d88602c770fe84454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:25:39 +0000
Subject: [PATCH 046/138] fix: missing or damaged keys of a stored sync period
 could never be synced again

---
 .../eth/verifier/sync_committee_state.c       | 64 +++++++++++++++----
 1 file changed, 50 insertions(+), 14 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index e95928f..260effe 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -520,6 +520,30 @@ static c4_status_t init_sync_state(verify_ctx_t* ctx) {
   }
 }
 
+/**
+ * Remove a period, whose keys are not readable, from the state and the storage.
+ *
+ * @param chain_id Chain identifier
+ * @param state Chain state containing the period
+ * @param period the period to remove
+ */
+static void remove_period(chain_id_t chain_id, c4_chain_state_t* state, uint32_t period) {
+  storage_plugin_t storage_conf = {0};
+  char             name[100];
+  uint32_t         count = period_count(state);
+  uint32_t         pos   = 0;
+  for (uint32_t i = 0; i < count; i++) {
+    if (state->data.periods[i] != period) state->data.periods[pos++] = state->data.periods[i];
+  }
+  memset(state->data.periods + pos, 0, (MAX_SYNC_PERIODS - pos) * sizeof(uint32_t));
+  if (pos == 0) state->status = C4_STATE_SYNC_EMPTY;
+  c4_set_chain_state(chain_id, state);
+
+  c4_get_storage_config(&storage_conf);
+  sbprintf(name, "sync_%l_%d", (uint64_t) chain_id, period);
+  storage_conf.del(name);
+}
+
 /**
  * Retrieve sync committee validators from persistent storage cache.
  * Handles BLS deserialization if needed and strips the 32-byte previous_pubkeys_hash suffix.
@@ -555,11 +579,8 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
   c4_get_storage_config(&storage_conf);
   sbprintf(name, "sync_%l_%d", (uint64_t) ctx->chain_id, period);
 
-  for (uint32_t i = 0; chain_state.status == C4_STATE_SYNC_PERIODS && i < MAX_SYNC_PERIODS && chain_state.data.periods[i] != 0; i++) {
-    uint32_t p = chain_state.data.periods[i];
-    if (p == period) found = true;
-    lowest_period  = p > lowest_period && p <= period ? p : lowest_period;
-    highest_period = p > highest_period ? p : highest_period;
+  for (uint32_t i = 0; i < period_count(&chain_state); i++) {
+    if (chain_state.data.periods[i] == period) found = true;
   }
 
   if (found && storage_conf.get) storage_conf.get(name, &validators);
@@ -581,17 +602,19 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
 #endif
     validators.data = b;
     // store them deserialized, but keep the previous_pubkeys_hash
+    if (b.data) {
 #ifdef C4_STATIC_MEMORY
-    memcpy(sync_buffer + b.len, previous_root, 32);
-    storage_conf.set(name, bytes(sync_buffer, b.len + 32));
+      memcpy(sync_buffer + b.len, previous_root, 32);
+      storage_conf.set(name, bytes(sync_buffer, b.len + 32));
 #else
-    buffer_t storage_data = {0};
-    buffer_append(&storage_data, b);
-    buffer_append(&storage_data, bytes(previous_root, 32));
-    storage_conf.set(name, storage_data.data);
-    buffer_free(&storage_data);
+      buffer_t storage_data = {0};
+      buffer_append(&storage_data, b);
+      buffer_append(&storage_data, bytes(previous_root, 32));
+      storage_conf.set(name, storage_data.data);
+      buffer_free(&storage_data);
 #endif
-    //    log_debug("storing deserialized validators: %d bytes", b.len);
+      //    log_debug("storing deserialized validators: %d bytes", b.len);
+    }
   }
   else if (validators.data.data && validators.data.len == 512 * 48 * 2 + 32) {
     // already deserialized - just strip the root
@@ -609,7 +632,20 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
   log_debug("found validators (NO DESERIALIZATION) (len=%d)", validators.data.len);
 #endif
 
-  if (validators.data.len == 0) validators.data.data = NULL; // just to make sure we mark it as not found, even if we are using static memory
+  // the keys may be missing or damaged, if the last write was interrupted. Then we have to sync this period again.
+  if (validators.data.len != 512 * 48 && validators.data.len != 512 * 96) {
+#ifndef C4_STATIC_MEMORY
+    safe_free(validators.data.data);
+#endif
+    validators.data = NULL_BYTES; // just to make sure we mark it as not found, even if we are using static memory
+    if (found) remove_period(ctx->chain_id, &chain_state, period);
+  }
+
+  for (uint32_t i = 0; i < period_count(&chain_state); i++) {
+    uint32_t p     = chain_state.data.periods[i];
+    lowest_period  = p > lowest_period && p <= period ? p : lowest_period;
+    highest_period = p > highest_period ? p : highest_period;
+  }
 
   c4_sync_validators_t result = {
       .deserialized   = validators.data.data && validators.data.len > 512 * 48,
-- 
2.43.0


From d122bc2e606cab65198763a6670387e3580eb3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:27:37 +0000
Subject: [PATCH 047/138] fix: committees synced over the weak subjectivity
 period were stored before the checkpoint was confirmed

---
 .../eth/verifier/sync_committee_state.c       | 101 ++++++------------
 1 file changed, 32 insertions(+), 69 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 260effe..57cfa39 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -684,48 +684,11 @@ static void clear_sync_state(chain_id_t chain_id) {
 }
 
 #ifdef USE_CHECKPOINTZ
-/**
- * Find the most recent finalized checkpoint from verified light client updates.
- * Iterates through all cached light_client/updates requests to find the highest finalized slot.
- * Used for weak subjectivity validation when syncing across large time gaps.
- *
- * @param ctx Verification context with cached requests
- * @param checkpoint_root Output parameter for the finalized checkpoint root
- * @return Slot number of the last finalized checkpoint, or 0 if not found
- */
-static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes32_t checkpoint_root) {
-  ssz_ob_t finalized_header = {0};
-  uint64_t finalized_slot   = 0;
-  for (data_request_t* req = ctx->state.requests; req; req = req->next) {
-    if (req->type == C4_DATA_TYPE_BEACON_API && strncmp(req->url, "eth/v1/beacon/light_client/updates", 34) == 0 && req->response.data && req->response.len > 0 && req->encoding == C4_DATA_ENCODING_SSZ) {
-      bytes_t  client_updates = req->response;
-      uint64_t length         = 0;
-      for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
-        uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
-        uint32_t data_length_offset = SSZ_OFFSET_SIZE;
-        length                      = uint64_from_le(client_updates.data + pos);
-
-        if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
-
-        bytes_t          client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
-        fork_id_t        fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
-        const ssz_def_t* client_update_def   = eth_get_light_client_update(fork);
-        if (!client_update_def) break;
-
-        ssz_ob_t update    = {.bytes = client_update_bytes, .def = client_update_def};
-        ssz_ob_t finalized = ssz_get(&update, "finalizedHeader");
-        ssz_ob_t header    = ssz_get(&finalized, "beacon");
-        uint64_t slot      = ssz_get_uint64(&header, "slot");
-        if (slot > finalized_slot) {
-          finalized_slot   = slot;
-          finalized_header = header;
-        }
-      }
-    }
-  }
-  if (finalized_slot == 0) return 0;
-  ssz_hash_tree_root(finalized_header, checkpoint_root);
-  return finalized_slot;
+// checks if the gap between the highest known period and the target is too big to be synced without confirming the checkpoint.
+static bool exceeds_weak_subjectivity_period(chain_id_t chain_id, uint32_t highest_period, uint32_t target_period) {
+  const chain_spec_t* spec = c4_eth_get_chain_spec(chain_id);
+  if (!spec || target_period <= highest_period) return false; // Cannot validate without spec, no gap, no need to check
+  return (((uint64_t) (target_period - highest_period)) << spec->epochs_per_period_bits) > spec->weak_subjectivity_epochs;
 }
 
 /**
@@ -745,10 +708,12 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
  * ## Implementation
  *
  * When a sync gap exceeds the WSP, this function:
- * 1. Finds the last verified finalized checkpoint from cached light client updates
+ * 1. Takes the finalized header of the last light client update
  * 2. Queries checkpointz (external beacon node) for the block root at that slot
  * 3. Verifies that both roots match, confirming we're on the canonical chain
  *
+ * It must be called before any of the updates is handled, because their committees are stored while handling them.
+ *
  * ## When to Disable (USE_CHECKPOINTZ=OFF)
  *
  * Disabling checkpointz (which disables this function AND bootstrap checkpoint fetching) is acceptable when:
@@ -763,30 +728,21 @@ static uint64_t find_last_verified_finality_checkpoint(verify_ctx_t* ctx, bytes3
  * https://github.com/runtimeverification/beacon-chain-verification/blob/master/weak-subjectivity/weak-subjectivity-analysis.pdf
  *
  * @param ctx Verification context
- * @param sync_state Current sync committee state
+ * @param highest_period the highest period we have keys for
  * @param target_period Target period to sync to
+ * @param finalized_header the finalized header of the last light client update
  * @return C4_SUCCESS if validation passes, C4_ERROR if checkpoint mismatch, C4_PENDING if waiting for checkpointz response
  */
-static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validators_t* sync_state, uint32_t target_period) {
-  const chain_spec_t* spec                                   = c4_eth_get_chain_spec(ctx->chain_id);
-  bytes32_t           last_verified_finality_checkpoint_root = {0};
-  if (!spec) return C4_SUCCESS; // Cannot validate without spec
-
-  // Calculate period difference
-  if (target_period <= sync_state->highest_period) return C4_SUCCESS; // No gap, no need to check
-
-  uint32_t period_diff = target_period - sync_state->highest_period;
-  uint64_t epoch_diff  = ((uint64_t) period_diff) << spec->epochs_per_period_bits;
+static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, uint32_t highest_period, uint32_t target_period, ssz_ob_t finalized_header) {
+  bytes32_t finality_checkpoint_root = {0};
+  if (!exceeds_weak_subjectivity_period(ctx->chain_id, highest_period, target_period)) return C4_SUCCESS; // Within WSP
 
-  // Check if we exceed weak subjectivity period
-  if (epoch_diff <= spec->weak_subjectivity_epochs) return C4_SUCCESS; // Within WSP
-
-  // first find the last finality checkpoint we have verifier during a light_client_update.
-  uint64_t finality_slot = find_last_verified_finality_checkpoint(ctx, last_verified_finality_checkpoint_root);
-  if (!finality_slot) {
+  if (!finalized_header.def) {
     clear_sync_state(ctx->chain_id);
     return c4_state_add_error(&ctx->state, "Checkpoint slot not found in local state");
   }
+  uint64_t finality_slot = ssz_get_uint64(&finalized_header, "slot");
+  ssz_hash_tree_root(finalized_header, finality_checkpoint_root);
 
   buffer_t url_buf = {0};
   bprintf(&url_buf, "eth/v1/beacon/blocks/%l/root", finality_slot);
@@ -835,7 +791,7 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, c4_sync_validat
     buffer_t  root_buf         = {.data = bytes(checkpointz_root, 32), .allocated = -32};
     json_as_bytes(root, &root_buf);
 
-    if (memcmp(checkpointz_root, last_verified_finality_checkpoint_root, 32) != 0) {
+    if (memcmp(checkpointz_root, finality_checkpoint_root, 32) != 0) {
       clear_sync_state(ctx->chain_id);
       return c4_state_add_error(&ctx->state, "Weak subjectivity check failed: checkpoint mismatch");
     }
@@ -1000,19 +956,26 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
         return c4_state_add_error(&ctx->state, "Failed to read the light client updates");
       if (range.count && (range.start != sync_state.lowest_period || range.count > sync_state.current_period - sync_state.lowest_period))
         return c4_state_add_error(&ctx->state, "light client updates for unexpected periods");
-      if (!c4_handle_client_updates(ctx, light_client_updates))
+#ifdef USE_CHECKPOINTZ
+      // Check weak subjectivity period BEFORE the updates are stored
+      // If this fails, clear_sync_state() is called inside to force re-initialization
+      TRY_ASYNC(c4_check_weak_subjectivity(ctx, sync_state.highest_period, period, range.finalized_header));
+#endif
+      if (!c4_handle_client_updates(ctx, light_client_updates)) {
+#ifdef USE_CHECKPOINTZ
+        if (exceeds_weak_subjectivity_period(ctx->chain_id, sync_state.highest_period, period)) {
+          // only all updates together are confirmed by the checkpoint, so we must not keep a part of them
+          clear_sync_state(ctx->chain_id);
+          return c4_state_add_error(&ctx->state, "Failed to handle light client updates");
+        }
+#endif
         return c4_state_get_pending_request(&ctx->state) ? C4_PENDING : c4_state_add_error(&ctx->state, "Failed to handle light client updates");
+      }
     }
     else
       return ctx->state.error ? C4_ERROR : C4_PENDING;
 
-    // Check weak subjectivity period BEFORE loading new sync state
-    // If this fails, clear_sync_state() is called inside to force re-initialization
-#ifdef USE_CHECKPOINTZ
-    TRY_ASYNC(c4_check_weak_subjectivity(ctx, &sync_state, period));
-#endif
-
-    // Load new sync state after successful WSP check
+    // Load new sync state
     sync_state = get_validators_from_cache(ctx, period);
     if (sync_state.validators.data == NULL) return c4_state_add_error(&ctx->state, "Failed to get validators");
   }
-- 
2.43.0


From 54927492900da43d3b2542b53a1f48d9f12c9f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:30:34 +0000
Subject: [PATCH 048/138] fix: light client updates of the sync data were not
 checked against the weak subjectivity period

---
 src/chains/eth/verifier/sync_committee.c      | 70 +++++++++++++++----
 src/chains/eth/verifier/sync_committee.h      | 18 +++++
 .../eth/verifier/sync_committee_state.c       | 18 ++---
 3 files changed, 82 insertions(+), 24 deletions(-)

diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index 4b54078..586756e 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -175,6 +175,49 @@ static bool verify_signatures(verify_ctx_t* ctx, ssz_ob_t checkpoint_ob, ssz_ob_
   if (witness_keys_found != (1 << ctx->witness_keys.len / 20) - 1) RETURN_VERIFY_ERROR(ctx, "some witness keys are missing!");
   return true;
 }
+static bool add_to_range(verify_ctx_t* ctx, ssz_ob_t* update, void* data) {
+  c4_update_range_t*  range     = (c4_update_range_t*) data;
+  const chain_spec_t* spec      = c4_eth_get_chain_spec(ctx->chain_id);
+  ssz_ob_t            attested  = ssz_get(update, "attestedHeader");
+  ssz_ob_t            header    = ssz_get(&attested, "beacon");
+  ssz_ob_t            finalized = ssz_get(update, "finalizedHeader");
+  uint32_t            period    = ssz_get_uint64(&header, "slot") >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits);
+  if (!range->count) range->start = period;
+  if (period != range->start + range->count) RETURN_VERIFY_ERROR(ctx, "light client updates must be consecutive!");
+  range->finalized_header = ssz_get(&finalized, "beacon");
+  range->count++;
+  return true;
+}
+
+#ifdef USE_CHECKPOINTZ
+// checks the gap between the known periods and the last update.
+static bool check_weak_subjectivity(verify_ctx_t* ctx, ssz_ob_t updates, bool* exceeded) {
+  c4_update_range_t range       = {0};
+  c4_chain_state_t  chain_state = c4_get_chain_state(ctx->chain_id);
+  uint32_t          updates_len = ssz_len(updates);
+  uint32_t          highest     = 0;
+  uint32_t          target      = 0;
+  for (int i = 0; chain_state.status == C4_STATE_SYNC_PERIODS && i < MAX_SYNC_PERIODS; i++) {
+    if (chain_state.data.periods[i] > highest) highest = chain_state.data.periods[i];
+  }
+  for (uint32_t i = 0; i < updates_len; i++) {
+    c4_update_range_t single = {0};
+    ssz_ob_t          update = ssz_union(ssz_at(updates, i));
+    if (!add_to_range(ctx, &update, &single)) return false;
+    if (single.start + 1 > target) target = single.start + 1;
+  }
+  *exceeded = c4_exceeds_weak_subjectivity_period(ctx->chain_id, highest, target);
+  if (!*exceeded) return true;
+
+  // the checkpoint confirms only the last of consecutive updates
+  for (uint32_t i = 0; i < updates_len; i++) {
+    ssz_ob_t update = ssz_union(ssz_at(updates, i));
+    if (!add_to_range(ctx, &update, &range)) return false;
+  }
+  return c4_check_weak_subjectivity(ctx, highest, target, range.finalized_header) == C4_SUCCESS;
+}
+#endif
+
 static bool update_from_lc_sync_data(verify_ctx_t* ctx) {
   ssz_ob_t bootstrap = ssz_get(&ctx->sync_data, "bootstrap");
   ssz_ob_t updates   = ssz_get(&ctx->sync_data, "update");
@@ -186,11 +229,22 @@ static bool update_from_lc_sync_data(verify_ctx_t* ctx) {
     if (chain_state.status == C4_STATE_SYNC_CHECKPOINT && c4_handle_bootstrap(ctx, bootstrap.bytes, chain_state.data.checkpoint) != C4_SUCCESS) return false;
   }
 
+#ifdef USE_CHECKPOINTZ
+  bool exceeded = false;
+  if (!check_weak_subjectivity(ctx, updates, &exceeded)) return false;
+#endif
+
   // run all light client updates
   uint32_t updates_len = ssz_len(updates);
   for (uint32_t i = 0; i < updates_len; i++) {
     ssz_ob_t update = ssz_union(ssz_at(updates, i));
-    if (!update_light_client_update(ctx, &update, NULL)) return false;
+    if (!update_light_client_update(ctx, &update, NULL)) {
+#ifdef USE_CHECKPOINTZ
+      // only all updates together are confirmed by the checkpoint, so we must not keep a part of them
+      if (exceeded) c4_clear_sync_state(ctx->chain_id);
+#endif
+      return false;
+    }
   }
 
   // we may want to clean up the sync data, so we don't sync again.
@@ -364,20 +418,6 @@ static bool check_error_message(verify_ctx_t* ctx, bytes_t light_client_updates)
   return true;
 }
 
-static bool add_to_range(verify_ctx_t* ctx, ssz_ob_t* update, void* data) {
-  c4_update_range_t*  range     = (c4_update_range_t*) data;
-  const chain_spec_t* spec      = c4_eth_get_chain_spec(ctx->chain_id);
-  ssz_ob_t            attested  = ssz_get(update, "attestedHeader");
-  ssz_ob_t            header    = ssz_get(&attested, "beacon");
-  ssz_ob_t            finalized = ssz_get(update, "finalizedHeader");
-  uint32_t            period    = ssz_get_uint64(&header, "slot") >> (spec->slots_per_epoch_bits + spec->epochs_per_period_bits);
-  if (!range->count) range->start = period;
-  if (period != range->start + range->count) RETURN_VERIFY_ERROR(ctx, "light client updates must be consecutive!");
-  range->finalized_header = ssz_get(&finalized, "beacon");
-  range->count++;
-  return true;
-}
-
 INTERNAL bool c4_get_client_updates_range(verify_ctx_t* ctx, bytes_t light_client_updates, c4_update_range_t* range) {
   *range = (c4_update_range_t) {0};
   return check_error_message(ctx, light_client_updates) && c4_process_light_client_updates(ctx, light_client_updates, add_to_range, range);
diff --git a/src/chains/eth/verifier/sync_committee.h b/src/chains/eth/verifier/sync_committee.h
index 601ee6d..67d63d0 100644
--- a/src/chains/eth/verifier/sync_committee.h
+++ b/src/chains/eth/verifier/sync_committee.h
@@ -209,6 +209,24 @@ fork_id_t c4_eth_get_fork_for_lcu(chain_id_t chain_id, bytes_t data);
  */
 uint64_t c4_current_sync_committee_gindex(chain_id_t chain_id, uint64_t slot);
 
+#ifdef USE_CHECKPOINTZ
+/**
+ * checks if the gap between the highest known period and the target exceeds the weak subjectivity period.
+ */
+bool c4_exceeds_weak_subjectivity_period(chain_id_t chain_id, uint32_t highest_period, uint32_t target_period);
+
+/**
+ * if the gap exceeds the weak subjectivity period, the finalized header of the last update must be confirmed by the checkpoint server.
+ * Must be called before the updates are handled.
+ */
+c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, uint32_t highest_period, uint32_t target_period, ssz_ob_t finalized_header);
+
+/**
+ * removes all stored periods and the state of the chain.
+ */
+void c4_clear_sync_state(chain_id_t chain_id);
+#endif
+
 c4_chain_state_t c4_state_deserialize(bytes_t data);
 
 bool c4_req_checkpointz_status(c4_state_t* state, chain_id_t chain_id, uint64_t* checkpoint_epoch, bytes32_t checkpoint_root);
diff --git a/src/chains/eth/verifier/sync_committee_state.c b/src/chains/eth/verifier/sync_committee_state.c
index 57cfa39..46d5967 100644
--- a/src/chains/eth/verifier/sync_committee_state.c
+++ b/src/chains/eth/verifier/sync_committee_state.c
@@ -664,7 +664,7 @@ static c4_sync_validators_t get_validators_from_cache(verify_ctx_t* ctx, uint32_
  *
  * @param chain_id Chain identifier for which to clear all state
  */
-static void clear_sync_state(chain_id_t chain_id) {
+INTERNAL void c4_clear_sync_state(chain_id_t chain_id) {
   storage_plugin_t storage_conf = {0};
   c4_get_storage_config(&storage_conf);
 
@@ -685,7 +685,7 @@ static void clear_sync_state(chain_id_t chain_id) {
 
 #ifdef USE_CHECKPOINTZ
 // checks if the gap between the highest known period and the target is too big to be synced without confirming the checkpoint.
-static bool exceeds_weak_subjectivity_period(chain_id_t chain_id, uint32_t highest_period, uint32_t target_period) {
+INTERNAL bool c4_exceeds_weak_subjectivity_period(chain_id_t chain_id, uint32_t highest_period, uint32_t target_period) {
   const chain_spec_t* spec = c4_eth_get_chain_spec(chain_id);
   if (!spec || target_period <= highest_period) return false; // Cannot validate without spec, no gap, no need to check
   return (((uint64_t) (target_period - highest_period)) << spec->epochs_per_period_bits) > spec->weak_subjectivity_epochs;
@@ -733,12 +733,12 @@ static bool exceeds_weak_subjectivity_period(chain_id_t chain_id, uint32_t highe
  * @param finalized_header the finalized header of the last light client update
  * @return C4_SUCCESS if validation passes, C4_ERROR if checkpoint mismatch, C4_PENDING if waiting for checkpointz response
  */
-static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, uint32_t highest_period, uint32_t target_period, ssz_ob_t finalized_header) {
+INTERNAL c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, uint32_t highest_period, uint32_t target_period, ssz_ob_t finalized_header) {
   bytes32_t finality_checkpoint_root = {0};
-  if (!exceeds_weak_subjectivity_period(ctx->chain_id, highest_period, target_period)) return C4_SUCCESS; // Within WSP
+  if (!c4_exceeds_weak_subjectivity_period(ctx->chain_id, highest_period, target_period)) return C4_SUCCESS; // Within WSP
 
   if (!finalized_header.def) {
-    clear_sync_state(ctx->chain_id);
+    c4_clear_sync_state(ctx->chain_id);
     return c4_state_add_error(&ctx->state, "Checkpoint slot not found in local state");
   }
   uint64_t finality_slot = ssz_get_uint64(&finalized_header, "slot");
@@ -792,7 +792,7 @@ static c4_status_t c4_check_weak_subjectivity(verify_ctx_t* ctx, uint32_t highes
     json_as_bytes(root, &root_buf);
 
     if (memcmp(checkpointz_root, finality_checkpoint_root, 32) != 0) {
-      clear_sync_state(ctx->chain_id);
+      c4_clear_sync_state(ctx->chain_id);
       return c4_state_add_error(&ctx->state, "Weak subjectivity check failed: checkpoint mismatch");
     }
 
@@ -958,14 +958,14 @@ INTERNAL const c4_status_t c4_get_validators(verify_ctx_t* ctx, uint32_t period,
         return c4_state_add_error(&ctx->state, "light client updates for unexpected periods");
 #ifdef USE_CHECKPOINTZ
       // Check weak subjectivity period BEFORE the updates are stored
-      // If this fails, clear_sync_state() is called inside to force re-initialization
+      // If this fails, c4_clear_sync_state() is called inside to force re-initialization
       TRY_ASYNC(c4_check_weak_subjectivity(ctx, sync_state.highest_period, period, range.finalized_header));
 #endif
       if (!c4_handle_client_updates(ctx, light_client_updates)) {
 #ifdef USE_CHECKPOINTZ
-        if (exceeds_weak_subjectivity_period(ctx->chain_id, sync_state.highest_period, period)) {
+        if (c4_exceeds_weak_subjectivity_period(ctx->chain_id, sync_state.highest_period, period)) {
           // only all updates together are confirmed by the checkpoint, so we must not keep a part of them
-          clear_sync_state(ctx->chain_id);
+          c4_clear_sync_state(ctx->chain_id);
           return c4_state_add_error(&ctx->state, "Failed to handle light client updates");
         }
 #endif
-- 
2.43.0


From a573bef111cda395b9d174c78d8e33b6627ad261 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:25 +0000
Subject: [PATCH 049/138] fix: state proofs for a block hash were rejected for
 the right and accepted for any other hash

---
 src/chains/eth/verifier/eth_account.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index f0ae0a9..1c8ab20 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -285,7 +285,7 @@ bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t s
     if (block_number.len == 68) {
       if (block.bytes.len != 32) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
       hex_to_bytes(block_number.start + 3, 64, bytes(leafes, 32));
-      if (memcmp(leafes, block.bytes.data, 32) == 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
+      if (memcmp(leafes, block.bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "wrong blockhash");
     }
     else {
       if (block.bytes.len != 8) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
-- 
2.43.0


From 516a397419577a14a5f1fb871fe740ac6346c081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:29 +0000
Subject: [PATCH 050/138] fix: eth_getProof without storage keys wrote behind
 the buffer and values of missing keys were not initialized

---
 src/chains/eth/verifier/eth_account.c          | 2 +-
 src/chains/eth/verifier/verify_account_proof.c | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 1c8ab20..24eb5fe 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -56,7 +56,7 @@ static bool is_equal(ssz_ob_t expect, bytes_t* list, int index) {
 }
 
 static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t storage_hash, bytes_t values) {
-  if (values.data) memset(values.data, 0, 32);
+  if (values.data) memset(values.data, 0, values.len);
   int len = ssz_len(storage_proofs);
   if (len != 0 && memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
   for (int i = 0; i < len; i++) {
diff --git a/src/chains/eth/verifier/verify_account_proof.c b/src/chains/eth/verifier/verify_account_proof.c
index 33cc9c4..a6c4a12 100644
--- a/src/chains/eth/verifier/verify_account_proof.c
+++ b/src/chains/eth/verifier/verify_account_proof.c
@@ -52,9 +52,9 @@ bool verify_account_proof(verify_ctx_t* ctx) {
   bytes32_t           value            = {0};
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
 #ifdef _MSC_VER
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * (storage_keys_len + 1)), 32 * storage_keys_len) : bytes(value, 32);
 #else
-  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * storage_keys_len), 32 * storage_keys_len) : bytes(value, 32);
+  bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(alloca(32 * (storage_keys_len + 1)), 32 * storage_keys_len) : bytes(value, 32);
 #endif
 
   if (!eth_verify_account_proof_exec(ctx, &ctx->proof, state_root, field == ETH_ACCOUNT_PROOF ? ETH_ACCOUNT_STORAGE_HASH : field, values)) RETURN_VERIFY_ERROR(ctx, "invalid account proof!");
-- 
2.43.0


From 22579d9db2b83e323a7dfa7504f8c9ea071e8a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:41:33 +0000
Subject: [PATCH 051/138] fix: storage values with more than 32 bytes were
 written in front of the buffer

---
 src/chains/eth/verifier/eth_account.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 24eb5fe..564ed6d 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -69,8 +69,10 @@ static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t
     keccak(key.bytes, path);
     if (patricia_verify(root, bytes(path, 32), proof, &leaf) == PATRICIA_INVALID) RETURN_VERIFY_ERROR(ctx, "invalid storage proof!");
     if (memcmp(root, storage_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid storage root!");
-    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM)
+    if (values.data && values.len >= (i + 1) * 32 && rlp_decode(&leaf, 0, &leaf) == RLP_ITEM) {
+      if (leaf.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid storage value!");
       memcpy(values.data + (i + 1) * 32 - leaf.len, leaf.data, leaf.len);
+    }
   }
 
   return true;
-- 
2.43.0


From 588ac526a6802a1551812146ce92482253ebefec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:18 +0000
Subject: [PATCH 052/138] fix: proofs for the storage of accounts without
 storage and of missing accounts were rejected

---
 src/chains/eth/verifier/eth_account.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 564ed6d..6090a9d 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -58,12 +58,14 @@ static bool is_equal(ssz_ob_t expect, bytes_t* list, int index) {
 static bool verify_storage(verify_ctx_t* ctx, ssz_ob_t storage_proofs, bytes32_t storage_hash, bytes_t values) {
   if (values.data) memset(values.data, 0, values.len);
   int len = ssz_len(storage_proofs);
-  if (len != 0 && memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
+  bool empty = memcmp(storage_hash, EMPTY_ROOT_HASH, 32) == 0; // all values are zero and there are no nodes to prove it
   for (int i = 0; i < len; i++) {
     bytes32_t path    = {0};
     bytes32_t root    = {0};
     ssz_ob_t  storage = ssz_at(storage_proofs, i);
     ssz_ob_t  proof   = ssz_get(&storage, "proof");
+    if (empty && ssz_len(proof) == 0) continue;
+    if (empty) RETURN_VERIFY_ERROR(ctx, "invalid storage proof because an empty storage hash can not have values!");
     ssz_ob_t  key     = ssz_get(&storage, "key");
     bytes_t   leaf    = {0};
     keccak(key.bytes, path);
@@ -87,6 +89,7 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   bytes32_t storage_hash  = {0};
 
   keccak(address.bytes, address_hash);
+  memcpy(storage_hash, EMPTY_ROOT_HASH, 32);
 
   switch (field) {
     case ETH_ACCOUNT_CODE_HASH:
@@ -109,6 +112,7 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
     if (rlp_decode(&rlp_account, 2, &field_value) != RLP_ITEM) RETURN_VERIFY_ERROR(ctx, "invalid account proof for storage hash!");
     // get the storage hash from the proof
     if (field_value.len > 32) RETURN_VERIFY_ERROR(ctx, "invalid account proof for storage hash!");
+    memset(storage_hash, 0, 32);
     memcpy(storage_hash, field_value.data, field_value.len);
 
     // get the field value from the proof
-- 
2.43.0


From 1c94c93ead795be1ef86386cd3799e3d5be50c81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:42:22 +0000
Subject: [PATCH 053/138] fix: values of missing accounts and storage keys were
 taken from the leaf of a different one

---
 src/chains/eth/verifier/eth_account.c | 77 ++++++++++-----------------
 1 file changed, 28 insertions(+), 49 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 6090a9d..1dc7fce 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -128,25 +128,18 @@ INTERNAL bool eth_verify_account_proof_exec(verify_ctx_t* ctx, ssz_ob_t* proof,
   return true;
 }
 
-static bytes_t get_last_value(ssz_ob_t proof) {
-  bytes_t last_value = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (!last_value.data) return NULL_BYTES;
-  if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return NULL_BYTES;
-  switch ((int) rlp_decode(&last_value, -1, &last_value)) {
-    case 2: // must be a leaf (otherwise the verification would have failed)
-      if (rlp_decode(&last_value, 1, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    case 17: // branch noch with the value
-      if (rlp_decode(&last_value, 16, &last_value) != RLP_ITEM) return NULL_BYTES;
-      break;
-    default:
-      return NULL_BYTES;
-  }
-  return last_value;
+// the value of the account from the account proof or NULL_BYTES if the account does not exist.
+// It is not enough to take the last node, since the proof for a missing account may end with the leaf of a different account.
+static bytes_t get_proven_value(ssz_ob_t proof, bytes_t key) {
+  bytes32_t path  = {0};
+  bytes32_t root  = {0};
+  bytes_t   value = NULL_BYTES;
+  keccak(key, path);
+  return patricia_verify(root, bytes(path, 32), proof, &value) == PATRICIA_FOUND ? value : NULL_BYTES;
 }
 
 bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&storage, "proof"));
+  bytes_t last_value = get_proven_value(ssz_get(&storage, "proof"), ssz_get(&storage, "key").bytes);
   if (!last_value.data) return false;
   if (rlp_decode(&last_value, 0, &last_value) != RLP_ITEM) return false;
   if (last_value.len > 32) return false;
@@ -155,8 +148,11 @@ bool eth_get_storage_value(ssz_ob_t storage, bytes32_t value) {
 }
 
 void eth_get_account_value(ssz_ob_t account, eth_account_field_t field, bytes32_t value) {
-  bytes_t last_value = get_last_value(ssz_get(&account, "accountProof"));
-  if (!last_value.data) return;
+  bytes_t last_value = get_proven_value(ssz_get(&account, "accountProof"), ssz_get(&account, "address").bytes);
+  if (!last_value.data) {
+    if (field == ETH_ACCOUNT_CODE_HASH) memcpy(value, EMPTY_HASH, 32);
+    return;
+  }
   if (rlp_decode(&last_value, 0, &last_value) != RLP_LIST) return;
   if (rlp_decode(&last_value, field - 1, &last_value) != RLP_ITEM) return;
   if (last_value.len > 32) return;
@@ -315,21 +311,6 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
   return ETH_ACCOUNT_NONE;
 }
 
-static bytes_t get_leaf(ssz_ob_t proof) {
-  bytes_t node = ssz_at(proof, ssz_len(proof) - 1).bytes;
-  if (rlp_decode(&node, 0, &node) != RLP_LIST) return NULL_BYTES;
-  int len = rlp_decode(&node, -1, NULL);
-
-  if (len == 17)
-    rlp_decode(&node, 16, &node);
-  else if (len == 2)
-    rlp_decode(&node, 1, &node);
-  else
-    return NULL_BYTES;
-
-  return node;
-}
-
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
   ssz_ob_t  data           = ctx->data;
   bytes32_t expected_value = {0};
@@ -357,18 +338,18 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
       case ETH_ACCOUNT_PROOF: {
         ssz_builder_t builder       = ssz_builder_for_type(ETH_SSZ_DATA_PROOF);
         ssz_ob_t      storage_proof = ssz_get(&ctx->proof, "storageProof");
-        bytes_t       account       = get_leaf(ssz_get(&ctx->proof, "accountProof"));
+        bytes_t       account       = get_proven_value(ssz_get(&ctx->proof, "accountProof"), bytes(verified_address, 20));
         bytes_t       value         = {0};
+        ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
+        for (int i = 0; i < values.len / 32; i++) {
+          ssz_builder_t storage_builder = ssz_builder_for_def(storage_list_builder.def->def.vector.type);
+          ssz_ob_t      storage         = ssz_at(storage_proof, i);
+          ssz_add_bytes(&storage_builder, "key", ssz_get(&storage, "key").bytes);
+          ssz_add_bytes(&storage_builder, "value", bytes(values.data + i * 32, 32));
+          ssz_add_bytes(&storage_builder, "proof", ssz_get(&storage, "proof").bytes);
+          ssz_add_dynamic_list_builders(&storage_list_builder, values.len / 32, storage_builder);
+        }
         if (account.data && rlp_decode(&account, 0, &account) == RLP_LIST && rlp_decode(&account, -1, NULL) == 4) {
-          ssz_builder_t storage_list_builder = ssz_builder_for_def(ssz_get_def(builder.def, "storageProof"));
-          for (int i = 0; i < values.len / 32; i++) {
-            ssz_builder_t storage_builder = ssz_builder_for_def(storage_list_builder.def->def.vector.type);
-            ssz_ob_t      storage         = ssz_at(storage_proof, i);
-            ssz_add_bytes(&storage_builder, "key", ssz_get(&storage, "key").bytes);
-            ssz_add_bytes(&storage_builder, "value", bytes(values.data + i * 32, 32));
-            ssz_add_bytes(&storage_builder, "proof", ssz_get(&storage, "proof").bytes);
-            ssz_add_dynamic_list_builders(&storage_list_builder, values.len / 32, storage_builder);
-          }
           rlp_decode(&account, 1, &value);
           ssz_add_uint256(&builder, value); // balance
           rlp_decode(&account, 3, &value);
@@ -377,17 +358,15 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
           ssz_add_uint256(&builder, value); // nonce
           rlp_decode(&account, 2, &value);
           ssz_add_bytes(&builder, "storageHash", value);
-          ssz_add_bytes(&builder, "accountProof", ssz_get(&ctx->proof, "accountProof").bytes);
-          ssz_add_builders(&builder, "storageProof", storage_list_builder);
         }
         else {
-          ssz_add_bytes(&builder, "balance", bytes(0, 32));
+          ssz_add_uint256(&builder, NULL_BYTES); // balance
           ssz_add_bytes(&builder, "codeHash", bytes(EMPTY_HASH, 32));
-          ssz_add_bytes(&builder, "nonce", bytes(0, 32));
+          ssz_add_uint256(&builder, NULL_BYTES); // nonce
           ssz_add_bytes(&builder, "storageHash", bytes(EMPTY_ROOT_HASH, 32));
-          ssz_add_bytes(&builder, "accountProof", ssz_get(&ctx->proof, "accountProof").bytes);
-          ssz_add_bytes(&builder, "storageProof", NULL_BYTES);
         }
+        ssz_add_bytes(&builder, "accountProof", ssz_get(&ctx->proof, "accountProof").bytes);
+        ssz_add_builders(&builder, "storageProof", storage_list_builder);
 
         ctx->data = ssz_builder_to_bytes(&builder);
         break;
-- 
2.43.0


From 6fa04dff0adabdf8cdc2443548820cc9919bbc73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:00 +0000
Subject: [PATCH 054/138] fix: account proofs were accepted for missing and
 malformed arguments

---
 src/chains/eth/verifier/eth_account.c | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 1dc7fce..a2d5510 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -315,8 +315,11 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
   ssz_ob_t  data           = ctx->data;
   bytes32_t expected_value = {0};
   buffer_t  address_buf    = stack_buffer(expected_value);
-  bytes_t   req_address    = json_as_bytes(json_at(ctx->args, 0), &address_buf);
-  if (req_address.data && (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0)) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  bool      has_keys       = field == ETH_ACCOUNT_STORAGE_HASH || field == ETH_ACCOUNT_PROOF;
+  CHECK_JSON_VERIFY(ctx->args, field == ETH_ACCOUNT_STORAGE_HASH ? "[address,bytes32,block]" : (field == ETH_ACCOUNT_PROOF ? "[address,[bytes32],block]" : "[address,block]"), "Invalid arguments for account proof: ");
+  if (json_len(ctx->args) != (has_keys ? 3 : 2)) RETURN_VERIFY_ERROR(ctx, "invalid number of arguments for account proof!");
+  bytes_t req_address = json_as_bytes(json_at(ctx->args, 0), &address_buf);
+  if (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
   if (!data.def) RETURN_VERIFY_ERROR(ctx, "invalid data!");
   if (data.def->type == SSZ_TYPE_NONE) {
     switch (field) {
-- 
2.43.0


From 3c62f7436868fd416ebeab46dc13a303760ed701 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:04 +0000
Subject: [PATCH 055/138] fix: storage values were accepted for any other key
 than the requested one

---
 src/chains/eth/verifier/eth_account.c | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index a2d5510..49230b9 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -311,6 +311,24 @@ eth_account_field_t eth_account_get_field(verify_ctx_t* ctx) {
   return ETH_ACCOUNT_NONE;
 }
 
+static bool is_storage_key(json_t requested, ssz_ob_t storage) {
+  bytes32_t key     = {0};
+  buffer_t  key_buf = stack_buffer(key);
+  bytes_t   req_key = json_as_bytes(requested, &key_buf);
+  return req_key.len == 32 && bytes_eq(req_key, ssz_get(&storage, "key").bytes);
+}
+
+// checks that the storage proofs are those of the requested key (or array of keys) in the requested order
+static bool has_requested_keys(json_t requested, ssz_ob_t storage_proof) {
+  uint32_t i = 0, len = ssz_len(storage_proof);
+  if (requested.type != JSON_TYPE_ARRAY) return len == 1 && is_storage_key(requested, ssz_at(storage_proof, 0));
+  json_for_each_value(requested, key) {
+    if (i >= len || !is_storage_key(key, ssz_at(storage_proof, i))) return false;
+    i++;
+  }
+  return i == len;
+}
+
 bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_account_field_t field, bytes_t values) {
   ssz_ob_t  data           = ctx->data;
   bytes32_t expected_value = {0};
@@ -320,6 +338,7 @@ bool eth_account_verify_data(verify_ctx_t* ctx, address_t verified_address, eth_
   if (json_len(ctx->args) != (has_keys ? 3 : 2)) RETURN_VERIFY_ERROR(ctx, "invalid number of arguments for account proof!");
   bytes_t req_address = json_as_bytes(json_at(ctx->args, 0), &address_buf);
   if (req_address.len != 20 || memcmp(req_address.data, verified_address, 20) != 0) RETURN_VERIFY_ERROR(ctx, "proof does not match the address in request");
+  if (has_keys && !has_requested_keys(json_at(ctx->args, 1), ssz_get(&ctx->proof, "storageProof"))) RETURN_VERIFY_ERROR(ctx, "proof does not match the storage keys in request");
   if (!data.def) RETURN_VERIFY_ERROR(ctx, "invalid data!");
   if (data.def->type == SSZ_TYPE_NONE) {
     switch (field) {
-- 
2.43.0


From eb727b80009764dbf020fea1021584150d5d4d13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:08 +0000
Subject: [PATCH 056/138] fix: the block of state proofs was not checked for
 calls with overrides and block numbers with more than 64 bits

---
 src/chains/eth/verifier/eth_account.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 49230b9..1fbb370 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -274,7 +274,8 @@ gindex_t eth_get_gindex_for_block(fork_id_t fork, json_t block) {
 
 bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t state_root) {
   bytes32_t body_root          = {0};
-  json_t    block_number       = json_len(ctx->args) ? json_at(ctx->args, json_len(ctx->args) - 1) : (json_t) {0};
+  eth_account_field_t field = eth_account_get_field(ctx);
+  json_t    block_number       = json_at(ctx->args, field == ETH_ACCOUNT_STORAGE_HASH || field == ETH_ACCOUNT_PROOF ? 2 : 1);
   ssz_ob_t  state_merkle_proof = ssz_get(&state_proof, "proof");
   ssz_ob_t  header             = ssz_get(&state_proof, "header");
   ssz_ob_t  block              = ssz_get(&state_proof, "block");
@@ -291,7 +292,7 @@ bool eth_verify_state_proof(verify_ctx_t* ctx, ssz_ob_t state_proof, bytes32_t s
     }
     else {
       if (block.bytes.len != 8) RETURN_VERIFY_ERROR(ctx, "did not expect blockhhash as blocknumber");
-      if (ssz_uint64(block) != json_as_uint64(block_number)) RETURN_VERIFY_ERROR(ctx, "wrong blocknumber");
+      if (block_number.len > 20 || ssz_uint64(block) != json_as_uint64(block_number)) RETURN_VERIFY_ERROR(ctx, "wrong blocknumber");
     }
   }
   else if (block.bytes.len)
-- 
2.43.0


From da5e67c5d3fe1a113e6e7bb4292335a9765df338 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:45:12 +0000
Subject: [PATCH 057/138] fix: json_validate rejected block hashes starting
 with a zero

---
 src/util/json_validate.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/json_validate.c b/src/util/json_validate.c
index e72eb2d..c9414c2 100644
--- a/src/util/json_validate.c
+++ b/src/util/json_validate.c
@@ -172,6 +172,7 @@ static const char* check_hex(json_t val, int len, bool isuint, const char* error
 static const char* check_block(json_t val, const char* error_prefix) {
   if (val.type != JSON_TYPE_STRING) ERROR("%sExpected block number", error_prefix);
   if (strncmp("\"latest\"", val.start, 8) == 0 || strncmp("\"safe\"", val.start, 6) == 0 || strncmp("\"finalized\"", val.start, 11) == 0) return NULL;
+  if (val.len == 68) return check_hex(val, 32, false, error_prefix); // blockhash
   return check_hex(val, 0, true, error_prefix);
 }
 
-- 
2.43.0


From b38e752da86864b38f3770a750067dc42648a219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:34 +0000
Subject: [PATCH 058/138] fix: colibri_decodeTransaction passed the wrong state
 for its error and crashed

---
 src/chains/eth/verifier/verify_local.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_local.c b/src/chains/eth/verifier/verify_local.c
index 18c8f6e..d34d974 100644
--- a/src/chains/eth/verifier/verify_local.c
+++ b/src/chains/eth/verifier/verify_local.c
@@ -118,7 +118,7 @@ static ssz_ob_t colibri_decodeTransaction(verify_ctx_t* ctx) {
   if (!success) {
     buffer_free(&tx_data.dynamic);
     buffer_free(&tx_data.fixed);
-    if (ctx->state.error == NULL) c4_state_add_error(ctx, "invalid tx data!");
+    if (ctx->state.error == NULL) c4_state_add_error(&ctx->state, "invalid tx data!");
     return (ssz_ob_t) {0};
   }
   return ssz_builder_to_bytes(&tx_data);
-- 
2.43.0


From a3a677c031592cc5f643cfe56b113ba984df765d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:38 +0000
Subject: [PATCH 059/138] fix: transactions with fields of the wrong type or
 length were cut off, written out of bounds or accepted with trailing bytes

---
 src/chains/eth/verifier/eth_tx.c | 30 ++++++++++++++++++++++++++----
 1 file changed, 26 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 715b823..5d2881b 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -182,15 +182,39 @@ static bool get_and_remove_tx_type(verify_ctx_t* ctx, bytes_t* raw_tx, tx_type_t
   return true;
 }
 
+// the biggest number of bytes of a numeric field
+static uint32_t max_uint_len(const char* name) {
+  if (strcmp(name, "value") == 0 || strcmp(name, "mint") == 0 || strcmp(name, "r") == 0 || strcmp(name, "s") == 0) return 32;
+  if (strcmp(name, "chainId") == 0) return 4;
+  if (strcmp(name, "yParity") == 0 || strcmp(name, "isSystemTx") == 0) return 1;
+  return 8;
+}
+
+// takes the list out of the transaction (without type) and checks that all its fields are there with the right type and length
+static bool get_tx_fields(verify_ctx_t* ctx, bytes_t raw_tx, const rlp_type_defs_t* defs, bytes_t* list) {
+  if (rlp_decode(&raw_tx, -1, NULL) != 1 || rlp_decode(&raw_tx, 0, list) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
+  if (rlp_decode(list, -1, NULL) != (int) defs->len) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong number of fields!");
+  for (uint32_t i = 0; i < defs->len; i++) {
+    const char* name = defs->defs[i].name;
+    uint32_t    len  = defs->defs[i].len;
+    bytes_t     val  = {0};
+    if (rlp_decode(list, i, &val) != (len == 2 ? RLP_LIST : RLP_ITEM)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong type of a field!");
+    if (len == 1 && val.len > max_uint_len(name)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, number is too big!");
+    if (len == 32 && val.len != 32) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid hash!");
+    if ((len == 20 || len == (uint32_t) -20) && val.len != 20 && (val.len || strcmp(name, "to"))) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid address!");
+  }
+  return true;
+}
+
 INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8_t* address) {
   buffer_t  buf      = {0};
   bytes32_t raw_hash = {0};
   bytes_t   last_item;
   tx_type_t type = 0;
   if (!get_and_remove_tx_type(ctx, &raw_tx, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, missing type!");
-  if (rlp_decode(&raw_tx, 0, &raw_tx) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
   const rlp_type_defs_t* defs_ptr = get_tx_type_defs(type);
   if (!defs_ptr) RETURN_VERIFY_ERROR(ctx, "unsupported transaction type");
+  if (!get_tx_fields(ctx, raw_tx, defs_ptr, &raw_tx)) return false;
   rlp_type_defs_t defs = *defs_ptr;
   if (type == TX_TYPE_DEPOSITED) {
     bytes_t from = {0};
@@ -657,9 +681,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   bytes_t                rlp_list_payload = raw_tx;                 // Renamed to avoid confusion with rlp_list var below
   const rlp_type_defs_t* defs_ptr         = get_tx_type_defs(type); // get the specific typedef for the tx type
   if (!defs_ptr) RETURN_VERIFY_ERROR(ctx, "unsupported transaction type");
-  if (rlp_decode(&rlp_list_payload, 0, &rlp_list_payload) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "c4_write_tx_data_from_raw: invalid RLP list payload");
-  int num_fields = rlp_decode(&rlp_list_payload, -1, NULL);
-  if (num_fields != defs_ptr->len) RETURN_VERIFY_ERROR(ctx, "c4_write_tx_data_from_raw: RLP field count mismatch with definition");
+  if (!get_tx_fields(ctx, raw_tx, defs_ptr, &rlp_list_payload)) return false;
 
   // Deposited transactions don't have signatures, so we extract 'from' from RLP directly
   if (type == TX_TYPE_DEPOSITED) {
-- 
2.43.0


From 32cf66f39c5b8411840d585915f228b565709d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:57:41 +0000
Subject: [PATCH 060/138] fix: values of access lists and authorizations were
 cut off

---
 src/chains/eth/ssz/verify_data_types.h |  2 +-
 src/chains/eth/verifier/eth_tx.c       | 12 ++++++------
 2 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/src/chains/eth/ssz/verify_data_types.h b/src/chains/eth/ssz/verify_data_types.h
index ac2a438..d76c56e 100644
--- a/src/chains/eth/ssz/verify_data_types.h
+++ b/src/chains/eth/ssz/verify_data_types.h
@@ -85,7 +85,7 @@ static const ssz_def_t ETH_ACCESS_LIST_DATA_CONTAINER = SSZ_CONTAINER("AccessLis
 // Entry in the authorization list of a transaction or call.
 static const ssz_def_t ETH_AUTHORIZATION_LIST_DATA[] = {
     SSZ_ADDRESS("address"), // the codebase to be used for the authorization
-    SSZ_UINT32("chainId"),  // the chainId of the transaction
+    SSZ_UINT256("chainId"), // the chainId of the transaction
     SSZ_UINT64("nonce"),    // nonce of the transaction
     SSZ_BYTES32("r"),       // the r value of the transaction
     SSZ_BYTES32("s"),       // the s value of the transaction
diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 5d2881b..f777aa3 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -513,7 +513,7 @@ static ssz_builder_t build_access_list_ssz(verify_ctx_t* ctx, bytes_t rlp_access
         ssz_builder_free(&access_list_builder);
         return (ssz_builder_t) {0};
       }
-      if (rlp_decode(&entry_rlp, 0, &address_rlp) != RLP_ITEM) {
+      if (rlp_decode(&entry_rlp, -1, NULL) != 2 || rlp_decode(&entry_rlp, 0, &address_rlp) != RLP_ITEM || address_rlp.len != 20) {
         c4_state_add_error(&ctx->state, "build_access_list_ssz: Failed to decode access list address");
         ssz_builder_free(&entry_builder);
         ssz_builder_free(&access_list_builder);
@@ -604,7 +604,7 @@ static ssz_builder_t build_authorization_list_ssz(verify_ctx_t* ctx, bytes_t rlp
       // RLP tuple order: [chain_id (0), address (1), nonce (2), y_parity (3), r (4), s (5)]
 
       // Field 0 in SSZ: address (from RLP index 1)
-      if (rlp_decode(&auth_tuple_rlp, 1, &rlp_item_addr) != RLP_ITEM || rlp_item_addr.len != 20) {
+      if (rlp_decode(&auth_tuple_rlp, -1, NULL) != 6 || rlp_decode(&auth_tuple_rlp, 1, &rlp_item_addr) != RLP_ITEM || rlp_item_addr.len != 20) {
         c4_state_add_error(&ctx->state, "build_authorization_list_ssz: Failed to decode auth address or invalid length");
         ssz_builder_free(&auth_entry_builder);
         ssz_builder_free(&authorization_list_builder);
@@ -613,16 +613,16 @@ static ssz_builder_t build_authorization_list_ssz(verify_ctx_t* ctx, bytes_t rlp
       ssz_add_bytes(&auth_entry_builder, "address", rlp_item_addr);
 
       // Field 1 in SSZ: chainId (from RLP index 0)
-      if (rlp_decode(&auth_tuple_rlp, 0, &rlp_item_chain_id) != RLP_ITEM) {
+      if (rlp_decode(&auth_tuple_rlp, 0, &rlp_item_chain_id) != RLP_ITEM || rlp_item_chain_id.len > 32) {
         c4_state_add_error(&ctx->state, "build_authorization_list_ssz: Failed to decode auth chain_id");
         ssz_builder_free(&auth_entry_builder);
         ssz_builder_free(&authorization_list_builder);
         return (ssz_builder_t) {0};
       }
-      ssz_add_uint32(&auth_entry_builder, (uint32_t) bytes_as_be(rlp_item_chain_id));
+      ssz_add_uint256(&auth_entry_builder, rlp_item_chain_id);
 
       // Field 2 in SSZ: nonce (from RLP index 2)
-      if (rlp_decode(&auth_tuple_rlp, 2, &rlp_item_nonce) != RLP_ITEM) {
+      if (rlp_decode(&auth_tuple_rlp, 2, &rlp_item_nonce) != RLP_ITEM || rlp_item_nonce.len > 8) {
         c4_state_add_error(&ctx->state, "build_authorization_list_ssz: Failed to decode auth nonce");
         ssz_builder_free(&auth_entry_builder);
         ssz_builder_free(&authorization_list_builder);
@@ -653,7 +653,7 @@ static ssz_builder_t build_authorization_list_ssz(verify_ctx_t* ctx, bytes_t rlp
       ssz_add_bytes(&auth_entry_builder, "s", bytes(s_val, 32));
 
       // Field 5 in SSZ: yParity (from RLP index 3)
-      if (rlp_decode(&auth_tuple_rlp, 3, &rlp_item_y_parity) != RLP_ITEM) {
+      if (rlp_decode(&auth_tuple_rlp, 3, &rlp_item_y_parity) != RLP_ITEM || rlp_item_y_parity.len > 1) {
         c4_state_add_error(&ctx->state, "build_authorization_list_ssz: Failed to decode auth y_parity");
         ssz_builder_free(&auth_entry_builder);
         ssz_builder_free(&authorization_list_builder);
-- 
2.43.0


From a229d1ea58a829725fb4f50a47d0864871be0bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:58:00 +0000
Subject: [PATCH 061/138] fix: the signature values and the chain id of legacy
 transactions were taken from the first byte of v

---
 src/chains/eth/ssz/verify_data_types.h |  2 +-
 src/chains/eth/verifier/eth_tx.c       | 23 ++++++++++++++++-------
 2 files changed, 17 insertions(+), 8 deletions(-)

diff --git a/src/chains/eth/ssz/verify_data_types.h b/src/chains/eth/ssz/verify_data_types.h
index d76c56e..ef17030 100644
--- a/src/chains/eth/ssz/verify_data_types.h
+++ b/src/chains/eth/ssz/verify_data_types.h
@@ -108,7 +108,7 @@ static const ssz_def_t ETH_TX_DATA[] = {
     SSZ_BYTES32("r"),                                                          // the r value of the transaction
     SSZ_BYTES32("s"),                                                          // the s value of the transaction signature
     SSZ_UINT32("chainId"),                                                     // the chain ID of the transaction
-    SSZ_UINT8("v"),                                                            // the v value of the transaction signature
+    SSZ_UINT64("v"),                                                           // the v value of the transaction signature
     SSZ_UINT64("gas"),                                                         // the gas limit
     SSZ_ADDRESS("from"),                                                       // the sender of the transaction
     SSZ_BYTES("to", 20),                                                       // the target of the transaction
diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index f777aa3..6a2bc59 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -227,14 +227,23 @@ INTERNAL bool c4_tx_create_from_address(verify_ctx_t* ctx, bytes_t raw_tx, uint8
   uint64_t v = 0;
   if (type == TX_TYPE_LEGACY) {
     v = rlp_get_uint64(raw_tx, 6);
+    if (v < 27 || (v > 28 && (v < 35 || (v - 35) / 2 > UINT32_MAX))) {
+      buffer_free(&buf);
+      RETURN_VERIFY_ERROR(ctx, "invalid v of the signature!");
+    }
     if (v > 28) {
       rlp_add_uint64(&buf, (v - 36 + v % 2) / 2);
       rlp_add_item(&buf, NULL_BYTES);
       rlp_add_item(&buf, NULL_BYTES);
     }
   }
-  else
+  else {
     v = rlp_get_uint64(raw_tx, defs.len - 3);
+    if (v > 1) {
+      buffer_free(&buf);
+      RETURN_VERIFY_ERROR(ctx, "invalid yParity of the signature!");
+    }
+  }
 
   rlp_to_list(&buf);
 
@@ -719,7 +728,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   bytes_t  rlp_tx_sig_y_parity              = {0};
   bytes_t  rlp_v_field                      = {0};
   uint8_t  tx_sig_y_parity                  = 0;
-  uint8_t  v_for_ssz                        = 0;
+  uint64_t v_for_ssz                        = 0;
   uint32_t chain_id                         = 0;
   uint64_t gas_price_rlp_val                = 0;
   uint64_t max_priority_fee_per_gas_rlp_val = 0;
@@ -749,10 +758,10 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
 
   // Calculate v_for_ssz, chain_id (legacy overwrite), and gas_price
   if (type == TX_TYPE_LEGACY) {
-    uint8_t rlp_v_val = rlp_v_field.len ? rlp_v_field.data[0] : 0;
-    tx_sig_y_parity   = (rlp_v_val - 1) % 2;
-    chain_id          = rlp_v_val < 28 ? 1 : (rlp_v_val - 35 - tx_sig_y_parity) / 2;
-    v_for_ssz         = rlp_v_val;
+    uint64_t rlp_v_val = bytes_as_be(rlp_v_field);
+    tx_sig_y_parity    = (rlp_v_val - 1) % 2;
+    chain_id           = rlp_v_val <= 28 ? 1 : (uint32_t) ((rlp_v_val - 35 - tx_sig_y_parity) / 2);
+    v_for_ssz          = rlp_v_val;
   }
   else if (type != TX_TYPE_DEPOSITED)
     v_for_ssz = tx_sig_y_parity;
@@ -803,7 +812,7 @@ INTERNAL bool c4_write_tx_data_from_raw(verify_ctx_t* ctx, ssz_builder_t* buffer
   }
 
   ssz_add_uint32(buffer, chain_id);
-  ssz_add_uint8(buffer, v_for_ssz);
+  ssz_add_uint64(buffer, v_for_ssz);
   ssz_add_uint64(buffer, bytes_as_be(get_rlp_field(ctx, rlp_list_payload, defs_ptr, "gas", RLP_ITEM)));
   ssz_add_bytes(buffer, "from", bytes(from_address, 20));
   ssz_add_bytes(buffer, "to", get_rlp_field(ctx, rlp_list_payload, defs_ptr, "to", RLP_ITEM));
-- 
2.43.0


From 6634c29bcb00900769cb8e476344dd925a1247c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:54 +0000
Subject: [PATCH 062/138] fix: transactions were accepted for cut off or
 missing block numbers and indexes

---
 src/chains/eth/verifier/verify_tx_proof.c | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index 9213e95..e8e2eb3 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -74,24 +74,29 @@ static bool create_eth_tx_data(verify_ctx_t* ctx, bytes_t raw, bytes32_t block_h
   ctx->flags |= VERIFY_FLAG_FREE_DATA;
   return true;
 }
+// the argument must be the number without cutting anything off
+static bool matches_uint(json_t arg, uint64_t expected) {
+  return arg.len <= sizeof("\"0xffffffffffffffff\"") - 1 && json_as_uint64(arg) == expected;
+}
+
 static bool verify_args(verify_ctx_t* ctx, bytes_t raw, uint32_t tx_index, bytes32_t block_hash) {
   if (ctx->method == NULL) return true;
   if (strcmp(ctx->method, "eth_getTransactionByHash") == 0) {
     if (!c4_tx_verify_tx_hash(ctx, raw)) RETURN_VERIFY_ERROR(ctx, "invalid tx hash!");
   }
   else if (strcmp(ctx->method, "eth_getTransactionByBlockHashAndIndex") == 0) {
+    CHECK_JSON_VERIFY(ctx->args, "[bytes32,hexuint]", "Invalid arguments for tx proof: ");
     bytes32_t tmp            = {0};
     buffer_t  buf            = stack_buffer(tmp);
     bytes_t   req_block_hash = json_as_bytes(json_at(ctx->args, 0), &buf);
     if (req_block_hash.len != 32) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
     if (memcmp(req_block_hash.data, block_hash, 32) != 0) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    if (!matches_uint(json_at(ctx->args, 1), tx_index)) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
   }
   else if (strcmp(ctx->method, "eth_getTransactionByBlockNumberAndIndex") == 0) {
-    uint64_t req_block_num = json_as_uint64(json_at(ctx->args, 0));
-    if (!req_block_num) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
-    if (req_block_num != ssz_get_uint64(&ctx->proof, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
-    if (json_as_uint32(json_at(ctx->args, 1)) != tx_index) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
+    CHECK_JSON_VERIFY(ctx->args, "[hexuint,hexuint]", "Invalid arguments for tx proof: ");
+    if (!matches_uint(json_at(ctx->args, 0), ssz_get_uint64(&ctx->proof, "blockNumber"))) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
+    if (!matches_uint(json_at(ctx->args, 1), tx_index)) RETURN_VERIFY_ERROR(ctx, "invalid tx index!");
   }
   else
     RETURN_VERIFY_ERROR(ctx, "invalid method for tx proof!");
-- 
2.43.0


From 280ca03a466a842a8b1134ed377b92a1ff6f9ea1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:59:58 +0000
Subject: [PATCH 063/138] fix: a transaction index outside of the transactions
 proved any value of the block as transaction

---
 src/chains/eth/verifier/eth_tx.h               | 1 +
 src/chains/eth/verifier/verify_logs_proof.c    | 4 +++-
 src/chains/eth/verifier/verify_receipt_proof.c | 2 ++
 src/chains/eth/verifier/verify_tx_proof.c      | 2 ++
 4 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.h b/src/chains/eth/verifier/eth_tx.h
index dcd63cd..4dbaf78 100644
--- a/src/chains/eth/verifier/eth_tx.h
+++ b/src/chains/eth/verifier/eth_tx.h
@@ -34,6 +34,7 @@ extern "C" {
 #define GINDEX_BLOCKUMBER   806
 #define GINDEX_BLOCHASH     812
 #define GINDEX_TXINDEX_G    1704984576L // gindex of the first tx
+#define MAX_TXS_PER_PAYLOAD 1048576     // number of leafs in the list of transactions
 
 /*
    SSZ_BYTES32("blockHash"),                                                  // the blockHash of the execution block containing the transaction
diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 0cb6731..8b81c23 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -62,7 +62,7 @@ static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t block, bytes32_t rec
   for (int i = 0; i < tx_count; i++) {
     ssz_ob_t tx = ssz_at(txs, i);
     ssz_hash_tree_root(ssz_get(&tx, "transaction"), leafes + 96 + 32 * i);
-    gindexes[3 + i] = GINDEX_TXINDEX_G + ssz_get_uint64(&tx, "transactionIndex");
+    gindexes[3 + i] = GINDEX_TXINDEX_G + ssz_get_uint32(&tx, "transactionIndex");
   }
 
   bool merkle_proof_match = ssz_verify_multi_merkle_proof(proof.bytes, bytes(leafes, (3 + tx_count) * 32), gindexes, root_hash);
@@ -88,6 +88,8 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
   }
 
+  if (ssz_uint32(tidx) >= MAX_TXS_PER_PAYLOAD) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!"); // would point outside of the transactions
+
   // verify receipt proof
   if (!c4_tx_verify_receipt_proof(ctx, ssz_get(&tx, "proof"), ssz_uint32(tidx), root_hash, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (bytes_all_zero(bytes(receipt_root, 32)))
diff --git a/src/chains/eth/verifier/verify_receipt_proof.c b/src/chains/eth/verifier/verify_receipt_proof.c
index c8e0c65..3e738b1 100644
--- a/src/chains/eth/verifier/verify_receipt_proof.c
+++ b/src/chains/eth/verifier/verify_receipt_proof.c
@@ -43,6 +43,8 @@ static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t proof, bytes_t block
   bytes32_t root_hash      = {0};                                                                                    // calculated body root hash
   gindex_t  gindexes[]     = {GINDEX_BLOCKUMBER, GINDEX_BLOCHASH, GINDEX_RECEIPT_ROOT, GINDEX_TXINDEX_G + tx_index}; // calculate the gindexes for the proof
 
+  if (tx_index >= MAX_TXS_PER_PAYLOAD) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!"); // would point outside of the transactions
+
   // copy leaf data
   memcpy(leafes, block_number.data, block_number.len);
   memcpy(leafes + 32, block_hash.data, block_hash.len);
diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index e8e2eb3..9a98d63 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -48,6 +48,8 @@ static bool verify_merkle_proof(verify_ctx_t* ctx, ssz_ob_t proof, bytes_t block
   bytes32_t root_hash   = {0};                                                                                     // calculated body root hash
   gindex_t  gindexes[]  = {GINDEX_BLOCKUMBER, GINDEX_BLOCHASH, GINDEX_BASEFEEPERGAS, GINDEX_TXINDEX_G + tx_index}; // calculate the gindexes for the proof
 
+  if (tx_index >= MAX_TXS_PER_PAYLOAD) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!"); // would point outside of the transactions
+
   // copy leaf data
   memcpy(leafes, block_number.data, block_number.len);
   memcpy(leafes + 32, block_hash.data, block_hash.len);
-- 
2.43.0


From 555e746bdf82ea5d2f083d1f648e27bb75c358b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:01:05 +0000
Subject: [PATCH 064/138] fix: transactions were accepted without the index as
 argument

---
 src/chains/eth/verifier/verify_tx_proof.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_tx_proof.c b/src/chains/eth/verifier/verify_tx_proof.c
index 9a98d63..fa5308d 100644
--- a/src/chains/eth/verifier/verify_tx_proof.c
+++ b/src/chains/eth/verifier/verify_tx_proof.c
@@ -78,7 +78,7 @@ static bool create_eth_tx_data(verify_ctx_t* ctx, bytes_t raw, bytes32_t block_h
 }
 // the argument must be the number without cutting anything off
 static bool matches_uint(json_t arg, uint64_t expected) {
-  return arg.len <= sizeof("\"0xffffffffffffffff\"") - 1 && json_as_uint64(arg) == expected;
+  return arg.type == JSON_TYPE_STRING && arg.len <= sizeof("\"0xffffffffffffffff\"") - 1 && json_as_uint64(arg) == expected;
 }
 
 static bool verify_args(verify_ctx_t* ctx, bytes_t raw, uint32_t tx_index, bytes32_t block_hash) {
-- 
2.43.0


From 4bd94851ce77c0504f8d629995da68e457c1f5a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:02:49 +0000
Subject: [PATCH 065/138] fix: legacy transactions were accepted with an
 additional zero in front

---
 src/chains/eth/verifier/eth_tx.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 6a2bc59..4a6be5a 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -175,7 +175,7 @@ static bool get_and_remove_tx_type(verify_ctx_t* ctx, bytes_t* raw_tx, tx_type_t
     *type = TX_TYPE_LEGACY; // legacy tx
   else {
     // Check if transaction type is supported by trying to get its definitions
-    if (!get_tx_type_defs(*type)) RETURN_VERIFY_ERROR(ctx, "unsupported transaction type!");
+    if (*type == TX_TYPE_LEGACY || !get_tx_type_defs(*type)) RETURN_VERIFY_ERROR(ctx, "unsupported transaction type!");
     raw_tx->data++;
     raw_tx->len--;
   }
-- 
2.43.0


From dc6a910670da7c20182396402df4a33afc9f1fca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:52 +0000
Subject: [PATCH 066/138] fix: the type of a receipt and the transaction and
 removed flag of its logs were not verified

---
 src/chains/eth/verifier/eth_tx.c | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 4a6be5a..19c2906 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -313,6 +313,7 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
   if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
   if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+  if (ssz_get_uint32(&log, "removed")) RETURN_VERIFY_ERROR(ctx, "invalid removed log!");
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
   uint32_t logs_len = rlp_decode(&logs, -1, &logs);
@@ -334,7 +335,7 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   // from
   if (!c4_tx_create_from_address(ctx, tx_raw, tmp) || memcmp(tmp, ssz_get(&receipt_data, "from").bytes.data, 20)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong from address!");
   // type
-  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) && type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
+  if (!get_and_remove_tx_type(ctx, &tx_raw, &type) || type != (uint8_t) ssz_get_uint32(&receipt_data, "type")) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   // to
   int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
   if (rlp_decode(&tx_raw, 0, &tx_raw) != RLP_LIST || rlp_decode(&tx_raw, to_idx, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "to").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid to address!");
@@ -369,6 +370,9 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
     if (rlp_decode(&log_rlp, 2, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&log, "data").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
     if (block_number != ssz_get_uint64(&log, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
     if (!bytes_eq(ssz_get(&log, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
+    if (tx_index != ssz_get_uint32(&log, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
+    if (!bytes_eq(bytes(tx_hash, 32), ssz_get(&log, "transactionHash").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid transaction hash!");
+    if (ssz_get_uint32(&log, "removed")) RETURN_VERIFY_ERROR(ctx, "invalid removed log!");
 
     log = ssz_get(&log, "topics");
     if (rlp_decode(&log_rlp, 1, &log_rlp) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid topics!");
-- 
2.43.0


From 9442341caa8113d16dab5f18aa4f1964a36b5553 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:14:57 +0000
Subject: [PATCH 067/138] fix: receipt proofs with data of a different type
 crashed or were accepted for other methods

---
 src/chains/eth/verifier/eth_tx.c               | 1 +
 src/chains/eth/verifier/verify_receipt_proof.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 19c2906..2ec7790 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -331,6 +331,7 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   tx_type_t type    = 0;
   bytes_t   val     = {0};
   bytes32_t tx_hash = {0};
+  if (!ssz_is_type(&receipt_data, eth_ssz_verification_type(ETH_SSZ_DATA_RECEIPT))) RETURN_VERIFY_ERROR(ctx, "invalid receipt data!");
   keccak(tx_raw, tx_hash);
   // from
   if (!c4_tx_create_from_address(ctx, tx_raw, tmp) || memcmp(tmp, ssz_get(&receipt_data, "from").bytes.data, 20)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, wrong from address!");
diff --git a/src/chains/eth/verifier/verify_receipt_proof.c b/src/chains/eth/verifier/verify_receipt_proof.c
index 3e738b1..965c69d 100644
--- a/src/chains/eth/verifier/verify_receipt_proof.c
+++ b/src/chains/eth/verifier/verify_receipt_proof.c
@@ -68,6 +68,7 @@ bool verify_receipt_proof(verify_ctx_t* ctx) {
   bytes32_t receipt_root  = {0};
   bytes_t   raw_receipt   = {0};
 
+  if (ctx->method && strcmp(ctx->method, "eth_getTransactionReceipt")) RETURN_VERIFY_ERROR(ctx, "invalid method for receipt proof!");
   if (!c4_tx_verify_tx_hash(ctx, raw_tx.bytes)) RETURN_VERIFY_ERROR(ctx, "invalid tx hash!");
   if (!c4_tx_verify_receipt_proof(ctx, receipt_proof, tx_index, receipt_root, &raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid receipt proof!");
   if (!c4_tx_verify_receipt_data(ctx, ctx->data, block_hash.bytes.data, ssz_uint64(block_number), tx_index, raw_tx.bytes, raw_receipt)) RETURN_VERIFY_ERROR(ctx, "invalid tx data!");
-- 
2.43.0


From d385d5169f077babb86930fc5fcf601908b53fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:15:30 +0000
Subject: [PATCH 068/138] fix: a prover could hide verified fields of a receipt
 and add unverified ones with the mask

---
 src/chains/eth/verifier/eth_tx.c | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 2ec7790..2b36e94 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -326,6 +326,11 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   RETURN_VERIFY_ERROR(ctx, "missing the log within the tx");
 }
 
+// the bits in the mask of the receipt data
+#define RECEIPT_TO       (1 << 7)
+#define RECEIPT_DEPOSIT  (1 << 14 | 1 << 15)                                                                       // depositNonce, depositReceiptVersion
+#define RECEIPT_VERIFIED (1 << 1 | 1 << 2 | 1 << 3 | 1 << 4 | 1 << 5 | 1 << 6 | 1 << 8 | 1 << 10 | 1 << 11 | 1 << 12) // all the verified fields a receipt always has
+
 INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw) {
   bytes32_t tmp     = {0};
   tx_type_t type    = 0;
@@ -340,6 +345,10 @@ INTERNAL bool c4_tx_verify_receipt_data(verify_ctx_t* ctx, ssz_ob_t receipt_data
   // to
   int to_idx = type == TX_TYPE_DEPOSITED ? 2 : (type == TX_TYPE_EIP4844 ? 5 : min32(5, 3 + type));
   if (rlp_decode(&tx_raw, 0, &tx_raw) != RLP_LIST || rlp_decode(&tx_raw, to_idx, &val) != RLP_ITEM || !bytes_eq(val, ssz_get(&receipt_data, "to").bytes)) RETURN_VERIFY_ERROR(ctx, "invalid to address!");
+  // the mask must not hide verified fields or show fields the receipt does not have
+  uint32_t mask     = ssz_get_uint32(&receipt_data, "_optmask");
+  uint32_t required = RECEIPT_VERIFIED | (val.len ? RECEIPT_TO : 0);
+  if ((mask & required) != required || (type != TX_TYPE_DEPOSITED && (mask & RECEIPT_DEPOSIT))) RETURN_VERIFY_ERROR(ctx, "invalid mask of the receipt data!");
   if (block_number != ssz_get_uint64(&receipt_data, "blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid block number!");
   if (!bytes_eq(ssz_get(&receipt_data, "blockHash").bytes, bytes(block_hash, 32))) RETURN_VERIFY_ERROR(ctx, "invalid block hash!");
   if (tx_index != ssz_get_uint32(&receipt_data, "transactionIndex")) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!");
-- 
2.43.0


From 10c76e28318de45f3a21d1fb0f28b0d30371f64e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:27 +0000
Subject: [PATCH 069/138] fix: eth_verifyLogs did not verify the given logs and
 logs proofs were accepted for other methods and data

---
 src/chains/eth/verifier/verify_logs_proof.c | 25 ++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 8b81c23..6a1741f 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -83,11 +83,6 @@ static bool verify_tx(verify_ctx_t* ctx, ssz_ob_t block, ssz_ob_t tx, bytes32_t
   bytes_t   block_hash   = ssz_get(&block, "blockHash").bytes;
   ssz_ob_t  block_number = ssz_get(&block, "blockNumber");
 
-  if (ctx->data.def->type == SSZ_TYPE_NONE && ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
-    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
-    ctx->flags |= VERIFY_FLAG_FREE_DATA;
-  }
-
   if (ssz_uint32(tidx) >= MAX_TXS_PER_PAYLOAD) RETURN_VERIFY_ERROR(ctx, "invalid transaction index!"); // would point outside of the transactions
 
   // verify receipt proof
@@ -137,7 +132,27 @@ static bool has_proof(verify_ctx_t* ctx, bytes_t block_number, bytes_t tx_index,
   return false;
 }
 
+// makes sure the data are the logs to verify, which are taken from the arguments in case of eth_verifyLogs
+static bool prepare_logs(verify_ctx_t* ctx) {
+  if (ctx->method && strcmp(ctx->method, "eth_verifyLogs") == 0) {
+    if (ctx->flags & VERIFY_FLAG_FREE_DATA) return true; // already taken from the arguments
+    if (ctx->data.def->type != SSZ_TYPE_NONE) RETURN_VERIFY_ERROR(ctx, "data must be empty!");
+    CHECK_JSON_VERIFY(ctx->args, "[{address:address,topics:[bytes32],data:bytes,blockNumber:hexuint,transactionHash:bytes32,transactionIndex:hexuint,blockHash:bytes32,logIndex:hexuint,removed:bool}]", "Invalid logs: ");
+    json_for_each_value(ctx->args, log) {
+      if (json_get(log, "blockNumber").len > sizeof("\"0xffffffffffffffff\"") - 1 || json_get(log, "transactionIndex").len > sizeof("\"0xffffffff\"") - 1)
+        RETURN_VERIFY_ERROR(ctx, "invalid block number or transaction index!");
+    }
+    ctx->data = ssz_from_json(ctx->args, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS), &ctx->state);
+    ctx->flags |= VERIFY_FLAG_FREE_DATA;
+    return ctx->state.error == NULL;
+  }
+  if (ctx->method && strcmp(ctx->method, "eth_getLogs")) RETURN_VERIFY_ERROR(ctx, "invalid method for logs proof!");
+  if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS))) RETURN_VERIFY_ERROR(ctx, "invalid logs data!");
+  return true;
+}
+
 bool verify_logs_proof(verify_ctx_t* ctx) {
+  if (!prepare_logs(ctx)) return false;
 
   uint32_t log_count   = ssz_len(ctx->data);
   uint32_t block_count = ssz_len(ctx->proof);
-- 
2.43.0


From 80a58dc6a3650539f5d365018a2660d82c64c5de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:31 +0000
Subject: [PATCH 070/138] fix: logs could be repeated in the answer of
 eth_getLogs

---
 src/chains/eth/verifier/eth_tx.c | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index 2b36e94..c6bee1f 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -303,6 +303,14 @@ static bool matches(ssz_ob_t log, bytes_t logs) {
   return true;
 }
 
+static bool is_same_log(ssz_ob_t a, ssz_ob_t b) {
+  static const char* names[] = {"blockNumber", "transactionIndex", "address", "topics", "data"};
+  for (size_t i = 0; i < sizeof(names) / sizeof(names[0]); i++) {
+    if (!bytes_eq(ssz_get(&a, names[i]).bytes, ssz_get(&b, names[i]).bytes)) return false;
+  }
+  return true;
+}
+
 INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t block_hash, uint64_t block_number, uint32_t tx_index, bytes_t tx_raw, bytes_t receipt_raw) {
   bytes32_t tx_hash = {0};
   bytes_t   val     = {0};
@@ -317,11 +325,17 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
   uint32_t logs_len = rlp_decode(&logs, -1, &logs);
+  uint32_t needed   = 1; // a log repeated in the data must exist as often in the receipt
+  for (uint32_t i = 0; i < ssz_len(ctx->data); i++) {
+    ssz_ob_t other = ssz_at(ctx->data, i);
+    if (other.bytes.data == log.bytes.data) break;
+    if (is_same_log(other, log)) needed++;
+  }
 
   for (uint32_t i = 0; i < logs_len; i++) {
     bytes_t log_rlp = {0};
     rlp_decode(&logs, i, &log_rlp);
-    if (matches(log, log_rlp)) return true;
+    if (matches(log, log_rlp) && --needed == 0) return true;
   }
   RETURN_VERIFY_ERROR(ctx, "missing the log within the tx");
 }
-- 
2.43.0


From 8b7ed6e268ffe7eb2a48ad26aa6dc56bb10ac263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:16:35 +0000
Subject: [PATCH 071/138] fix: logs which do not match the filter were accepted
 for eth_getLogs

---
 src/chains/eth/verifier/verify_logs_proof.c | 40 +++++++++++++++++++++
 1 file changed, 40 insertions(+)

diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 6a1741f..7a62d6b 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -151,6 +151,45 @@ static bool prepare_logs(verify_ctx_t* ctx) {
   return true;
 }
 
+static bool matches_hex(json_t expected, bytes_t value) {
+  bytes32_t tmp = {0};
+  buffer_t  buf = stack_buffer(tmp);
+  return expected.type == JSON_TYPE_STRING && expected.len <= 68 && bytes_eq(json_as_bytes(expected, &buf), value);
+}
+
+// a rule of the filter is either missing, a value or a list of possible values, where a empty list accepts everything
+static bool matches_rule(json_t rule, bytes_t value) {
+  if (rule.type == JSON_TYPE_NOT_FOUND || rule.type == JSON_TYPE_NULL) return true;
+  if (rule.type != JSON_TYPE_ARRAY) return matches_hex(rule, value);
+  json_for_each_value(rule, item) {
+    if (matches_hex(item, value)) return true;
+  }
+  return json_len(rule) == 0;
+}
+
+static bool is_number(json_t val) {
+  return val.type == JSON_TYPE_STRING && val.len > 3 && val.start[1] == '0' && val.start[2] == 'x';
+}
+
+static bool matches_filter(json_t filter, ssz_ob_t log) {
+  uint64_t block_number = ssz_get_uint64(&log, "blockNumber");
+  json_t   from_block   = json_get(filter, "fromBlock");
+  json_t   to_block     = json_get(filter, "toBlock");
+  json_t   topics       = json_get(filter, "topics");
+  ssz_ob_t log_topics   = ssz_get(&log, "topics");
+  uint32_t index        = 0;
+  if (!matches_rule(json_get(filter, "address"), ssz_get(&log, "address").bytes)) return false;
+  if (!matches_rule(json_get(filter, "blockHash"), ssz_get(&log, "blockHash").bytes)) return false;
+  if (is_number(from_block) && block_number < json_as_uint64(from_block)) return false;
+  if (is_number(to_block) && block_number > json_as_uint64(to_block)) return false;
+  if (topics.type != JSON_TYPE_ARRAY) return true;
+  json_for_each_value(topics, topic) {
+    if (index >= ssz_len(log_topics) || !matches_rule(topic, ssz_at(log_topics, index).bytes)) return false;
+    index++;
+  }
+  return true;
+}
+
 bool verify_logs_proof(verify_ctx_t* ctx) {
   if (!prepare_logs(ctx)) return false;
 
@@ -166,6 +205,7 @@ bool verify_logs_proof(verify_ctx_t* ctx) {
   for (int i = 0; i < log_count; i++) {
     ssz_ob_t log = ssz_at(ctx->data, i);
     if (!has_proof(ctx, ssz_get(&log, "blockNumber").bytes, ssz_get(&log, "transactionIndex").bytes, block_count)) RETURN_VERIFY_ERROR(ctx, "missing log proof!");
+    if (ctx->method && strcmp(ctx->method, "eth_getLogs") == 0 && !matches_filter(json_at(ctx->args, 0), log)) RETURN_VERIFY_ERROR(ctx, "log does not match the filter!");
   }
 
   ctx->success = true;
-- 
2.43.0


From c9bcf0f21106474376be7bc5880e58b8b8218a5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:23:36 +0000
Subject: [PATCH 072/138] fix: filters which are no objects and topics which
 are no arrays were accepted for eth_getLogs

---
 src/chains/eth/verifier/verify_logs_proof.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_logs_proof.c b/src/chains/eth/verifier/verify_logs_proof.c
index 7a62d6b..0745376 100644
--- a/src/chains/eth/verifier/verify_logs_proof.c
+++ b/src/chains/eth/verifier/verify_logs_proof.c
@@ -147,6 +147,7 @@ static bool prepare_logs(verify_ctx_t* ctx) {
     return ctx->state.error == NULL;
   }
   if (ctx->method && strcmp(ctx->method, "eth_getLogs")) RETURN_VERIFY_ERROR(ctx, "invalid method for logs proof!");
+  if (ctx->method && json_at(ctx->args, 0).type != JSON_TYPE_OBJECT) RETURN_VERIFY_ERROR(ctx, "invalid filter!");
   if (!ssz_is_type(&ctx->data, eth_ssz_verification_type(ETH_SSZ_DATA_LOGS))) RETURN_VERIFY_ERROR(ctx, "invalid logs data!");
   return true;
 }
@@ -167,6 +168,7 @@ static bool matches_rule(json_t rule, bytes_t value) {
   return json_len(rule) == 0;
 }
 
+// block tags are not checked
 static bool is_number(json_t val) {
   return val.type == JSON_TYPE_STRING && val.len > 3 && val.start[1] == '0' && val.start[2] == 'x';
 }
@@ -182,7 +184,8 @@ static bool matches_filter(json_t filter, ssz_ob_t log) {
   if (!matches_rule(json_get(filter, "blockHash"), ssz_get(&log, "blockHash").bytes)) return false;
   if (is_number(from_block) && block_number < json_as_uint64(from_block)) return false;
   if (is_number(to_block) && block_number > json_as_uint64(to_block)) return false;
-  if (topics.type != JSON_TYPE_ARRAY) return true;
+  if (topics.type == JSON_TYPE_NOT_FOUND || topics.type == JSON_TYPE_NULL) return true;
+  if (topics.type != JSON_TYPE_ARRAY) return false;
   json_for_each_value(topics, topic) {
     if (index >= ssz_len(log_topics) || !matches_rule(topic, ssz_at(log_topics, index).bytes)) return false;
     index++;
-- 
2.43.0


From 3734e5a7756ebddffe630ec4942cf183084d8c08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:45:27 +0000
Subject: [PATCH 073/138] fix: a malformed receipt made the verification of its
 logs run through four billion logs

---
 src/chains/eth/verifier/eth_tx.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/eth_tx.c b/src/chains/eth/verifier/eth_tx.c
index c6bee1f..e21075d 100644
--- a/src/chains/eth/verifier/eth_tx.c
+++ b/src/chains/eth/verifier/eth_tx.c
@@ -324,7 +324,7 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
   if (ssz_get_uint32(&log, "removed")) RETURN_VERIFY_ERROR(ctx, "invalid removed log!");
   if (!get_and_remove_tx_type(ctx, &receipt_raw, &type)) RETURN_VERIFY_ERROR(ctx, "invalid tx data, invalid type!");
   if (rlp_decode(&receipt_raw, 0, &receipt_raw) != RLP_LIST || rlp_decode(&receipt_raw, 3, &logs) != RLP_LIST) RETURN_VERIFY_ERROR(ctx, "invalid to data!");
-  uint32_t logs_len = rlp_decode(&logs, -1, &logs);
+  int      logs_len = rlp_decode(&logs, -1, &logs); // negative if the list is invalid
   uint32_t needed   = 1; // a log repeated in the data must exist as often in the receipt
   for (uint32_t i = 0; i < ssz_len(ctx->data); i++) {
     ssz_ob_t other = ssz_at(ctx->data, i);
@@ -332,7 +332,7 @@ INTERNAL bool c4_tx_verify_log_data(verify_ctx_t* ctx, ssz_ob_t log, bytes32_t b
     if (is_same_log(other, log)) needed++;
   }
 
-  for (uint32_t i = 0; i < logs_len; i++) {
+  for (int i = 0; i < logs_len; i++) {
     bytes_t log_rlp = {0};
     rlp_decode(&logs, i, &log_rlp);
     if (matches(log, log_rlp) && --needed == 0) return true;
-- 
2.43.0


From bc972a4d3167512a090e627d206647a5561b2c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:22 +0000
Subject: [PATCH 074/138] fix: blocks with an empty transaction were accepted
 with an incomplete list of transactions

---
 src/chains/eth/verifier/verify_block.c | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index cd0404a..4f4ef5d 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -62,7 +62,10 @@ static ssz_builder_t create_txs_builder(verify_ctx_t* ctx, const ssz_def_t* tx_u
       // we reset the builder to to avoid allocating memory too ofter and simply resuing the already allocated memory
       tx_builder.fixed.data.len   = 0;
       tx_builder.dynamic.data.len = 0;
-      if (!c4_write_tx_data_from_raw(ctx, &tx_builder, raw_tx, tx_hash, block_hash, block_number, i, base_fee)) break;
+      if (!c4_write_tx_data_from_raw(ctx, &tx_builder, raw_tx, tx_hash, block_hash, block_number, i, base_fee)) {
+        if (ctx->state.error == NULL) c4_state_add_error(&ctx->state, "invalid tx data!"); // the list would be incomplete
+        break;
+      }
       buffer_append(&tx_builder.fixed, tx_builder.dynamic.data);
       ssz_add_dynamic_list_bytes(&txs_builder, len, tx_builder.fixed.data);
     }
-- 
2.43.0


From 1ffef63193d8772ba4ab006ee877ec10d086ba1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:26 +0000
Subject: [PATCH 075/138] fix: the data supplied with a block proof was
 returned without verification

---
 src/chains/eth/verifier/verify_block.c | 2 --
 1 file changed, 2 deletions(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index 4f4ef5d..6b42a21 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -87,8 +87,6 @@ static ssz_builder_t create_txs_builder(verify_ctx_t* ctx, const ssz_def_t* tx_u
 }
 
 void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes32_t parent_root, bytes32_t withdrawel_root, bool include_txs) {
-  if (ctx->data.def && ctx->data.def->type == SSZ_TYPE_CONTAINER) return;
-
   bytes32_t     tx_root = {0};
   ssz_builder_t data    = ssz_builder_for_type(ETH_SSZ_DATA_BLOCK);
   ssz_add_uint32(&data, mask);
-- 
2.43.0


From 2f76186deacf9ada105b993501d41823fce1225d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:00:31 +0000
Subject: [PATCH 076/138] fix: blocks were accepted for malformed hashes,
 numbers and tags and rejected for numbers below 16

---
 src/chains/eth/verifier/verify_block.c | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index 6b42a21..e1643f5 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -120,17 +120,23 @@ void eth_set_block_data(verify_ctx_t* ctx, uint32_t mask, ssz_ob_t block, bytes3
 }
 
 static bool matches_blocknumber(verify_ctx_t* ctx, ssz_ob_t block, json_t req_block) {
-  if (req_block.type != JSON_TYPE_STRING || req_block.len < 6) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
-  if (req_block.start[1] != '0' || req_block.start[2] != 'x') return true;
+  bool by_hash = ctx->method && strcmp(ctx->method, "eth_getBlockByHash") == 0;
+  if (ctx->method && !by_hash && strcmp(ctx->method, "eth_getBlockByNumber")) RETURN_VERIFY_ERROR(ctx, "invalid method for block proof!");
+  if (req_block.type != JSON_TYPE_STRING) RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
   if (req_block.len == 68) { // hash
     bytes32_t hash = {0};
-    buffer_t  buf  = stack_buffer(hash);
-    json_as_bytes(req_block, &buf);
-    if (memcmp(hash, ssz_get(&block, "blockHash").bytes.data, 32) != 0) RETURN_VERIFY_ERROR(ctx, "blockhash mismatch");
+    if (req_block.start[1] != '0' || req_block.start[2] != 'x' || hex_to_bytes(req_block.start + 3, 64, bytes(hash, 32)) != 32 || memcmp(hash, ssz_get(&block, "blockHash").bytes.data, 32) != 0)
+      RETURN_VERIFY_ERROR(ctx, "blockhash mismatch");
     return true;
   }
-  else if (ssz_get_uint64(&block, "blockNumber") != json_as_uint64(req_block))
-    RETURN_VERIFY_ERROR(ctx, "blocknumber mismatch");
+  if (by_hash) RETURN_VERIFY_ERROR(ctx, "invalid blockhash");
+  if (json_equal_string(req_block, "latest") || json_equal_string(req_block, "safe") || json_equal_string(req_block, "finalized")) return true;
+  const char* invalid = json_validate(req_block, "hexuint", "blocknumber");
+  if (invalid) {
+    safe_free((char*) invalid);
+    RETURN_VERIFY_ERROR(ctx, "invalid blocknumber");
+  }
+  if (req_block.len > 20 || ssz_get_uint64(&block, "blockNumber") != json_as_uint64(req_block)) RETURN_VERIFY_ERROR(ctx, "blocknumber mismatch");
   return true;
 }
 
-- 
2.43.0


From e1bf671f916b18285c8f38492e641f785ec607e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:34 +0000
Subject: [PATCH 077/138] fix: any data was accepted for any method together
 with the proof of any account

---
 src/chains/eth/verifier/verify_account_proof.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/verifier/verify_account_proof.c b/src/chains/eth/verifier/verify_account_proof.c
index a6c4a12..e23234d 100644
--- a/src/chains/eth/verifier/verify_account_proof.c
+++ b/src/chains/eth/verifier/verify_account_proof.c
@@ -50,6 +50,7 @@ bool verify_account_proof(verify_ctx_t* ctx) {
   bytes_t             verified_address = ssz_get(&ctx->proof, "address").bytes;
   eth_account_field_t field            = eth_account_get_field(ctx);
   bytes32_t           value            = {0};
+  if (field == ETH_ACCOUNT_NONE) RETURN_VERIFY_ERROR(ctx, "invalid method for account proof!");
   uint32_t            storage_keys_len = ssz_len(ssz_get(&ctx->proof, "storageProof"));
 #ifdef _MSC_VER
   bytes_t values = field == ETH_ACCOUNT_PROOF ? bytes(_alloca(32 * (storage_keys_len + 1)), 32 * storage_keys_len) : bytes(value, 32);
-- 
2.43.0


From d4fa1dc1786940fd8006dfb9b9a89033b7c43f9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:37 +0000
Subject: [PATCH 078/138] fix: the number of a block was accepted as the answer
 of any method

---
 src/chains/eth/verifier/verify_block.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/verifier/verify_block.c b/src/chains/eth/verifier/verify_block.c
index e1643f5..b12db7b 100644
--- a/src/chains/eth/verifier/verify_block.c
+++ b/src/chains/eth/verifier/verify_block.c
@@ -174,6 +174,7 @@ static bool verify_block_number_merkle_proof(verify_ctx_t* ctx, bytes_t proof, b
 }
 
 bool verify_block_number_proof(verify_ctx_t* ctx) {
+  if (!ctx->method || strcmp(ctx->method, "eth_blockNumber")) RETURN_VERIFY_ERROR(ctx, "invalid method for block number proof!");
 
   bytes32_t body_root    = {0};
   ssz_ob_t  block_number = ssz_get(&ctx->proof, "blockNumber");
-- 
2.43.0


From 6152a3562700a597a538896247b5065c4df954e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:41 +0000
Subject: [PATCH 079/138] fix: the result of a call was accepted as the answer
 of any method

---
 src/chains/eth/verifier/verify_call.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/verifier/verify_call.c b/src/chains/eth/verifier/verify_call.c
index 043c047..81b5e42 100644
--- a/src/chains/eth/verifier/verify_call.c
+++ b/src/chains/eth/verifier/verify_call.c
@@ -76,6 +76,7 @@ bool verify_call_proof(verify_ctx_t* ctx) {
   bytes_t      call_result = NULL_BYTES;
   call_code_t* call_codes  = NULL;
   bool         match       = false;
+  if (!ctx->method || strcmp(ctx->method, "eth_call")) RETURN_VERIFY_ERROR(ctx, "invalid method for call proof!");
   CHECK_JSON_VERIFY(ctx->args, "[{to:address,data:bytes,gas?:hexuint,value?:hexuint,gasPrice?:hexuint,from?:address},block,{*:{balance?:hexuint,code?:bytes,state?:{*:bytes32},stateDiff?:{*:bytes32}}}?]", "Invalid transaction");
   json_t                       overrides_json = json_at(ctx->args, 2);
   eth_state_overrides_t        overrides      = {0};
-- 
2.43.0


From 96db28b2ab6b1e82b03740c611cb29ec0f2b87fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:46 +0000
Subject: [PATCH 080/138] fix: web3_sha3 answered malformed arguments with the
 hash of nothing

---
 src/chains/eth/verifier/verify_local.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/chains/eth/verifier/verify_local.c b/src/chains/eth/verifier/verify_local.c
index d34d974..e2e91ce 100644
--- a/src/chains/eth/verifier/verify_local.c
+++ b/src/chains/eth/verifier/verify_local.c
@@ -85,6 +85,8 @@ static ssz_ob_t net_version(verify_ctx_t* ctx) {
 }
 
 static ssz_ob_t web3_sha3(verify_ctx_t* ctx) {
+  ctx->state.error = (char*) json_validate(json_at(ctx->args, 0), "bytes", "web3_sha3");
+  if (ctx->state.error) return (ssz_ob_t) {0};
   buffer_t buf = {0};
   json_as_bytes(json_at(ctx->args, 0), &buf);
   buffer_grow(&buf, 32);
-- 
2.43.0


From 1105c59d7681f2a2d45b16615d339177c9418378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:08 +0000
Subject: [PATCH 081/138] fix: deneb blocks with attester slashings have uint64
 attesting indices

---
 src/chains/eth/ssz/beacon_denep.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/ssz/beacon_denep.c b/src/chains/eth/ssz/beacon_denep.c
index 899e10f..6a441e2 100644
--- a/src/chains/eth/ssz/beacon_denep.c
+++ b/src/chains/eth/ssz/beacon_denep.c
@@ -116,7 +116,7 @@ static const ssz_def_t ATTESTATION_DATA[] = {
 
 // an index attestation is a list of attesting indices, a data and a signature
 static const ssz_def_t INDEX_ATTESTATION[] = {
-    SSZ_LIST("attestingIndices", ssz_uint8, 2048), // the list of attesting indices
+    SSZ_LIST("attestingIndices", ssz_uint64_def, 2048), // the list of attesting indices
     SSZ_CONTAINER("data", ATTESTATION_DATA),       // the data of the attestation
     SSZ_BYTE_VECTOR("signature", 96)               // the BLS signature of the attestation
 };
-- 
2.43.0


From 55926520bd110f335f151ea140de04e7cc8570b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:12 +0000
Subject: [PATCH 082/138] fix: the prover finds the finalized block

---
 src/chains/eth/prover/beacon.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 3a8ddfc..3f09e74 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -37,7 +37,7 @@ static inline void create_cache_block_key(bytes32_t key, json_t block) {
   buffer_t buffer = {.allocated = -32, .data = {.data = key, .len = 0}};
   if (strncmp(block.start, "\"latest\"", 8) == 0)
     sbprintf(((char*) key) + 1, "%s", "latest");
-  else if (strncmp(block.start, "\"safe\"", 6) == 0 || strncmp(block.start, "\"finalized\"", 12) == 0) {
+  else if (strncmp(block.start, "\"safe\"", 6) == 0 || strncmp(block.start, "\"finalized\"", 11) == 0) {
     sbprintf((char*) key, "%s", FINALITY_KEY);
     return;
   }
@@ -56,7 +56,7 @@ static beacon_head_t* c4_beacon_cache_get_slot(prover_ctx_t* ctx, json_t block)
   if (strncmp(block.start, "\"latest\"", 8) == 0 && !cached) {
     log_warn("Slatest block not found in cache, but it is requested! This should not happen!");
   }
-  if (cached && strncmp(block.start, "\"finalized\"", 12) == 0) return cached + 1;
+  if (cached && strncmp(block.start, "\"finalized\"", 11) == 0) return cached + 1;
   return cached;
 }
 static bool c4_beacon_cache_get_blockdata(prover_ctx_t* ctx, bytes32_t block_root, beacon_block_t* beacon_block) {
@@ -380,7 +380,7 @@ static inline c4_status_t eth_get_block_roots(prover_ctx_t* ctx, json_t block, b
     return C4_SUCCESS; // latest -  we do nothing since 2 empty root_hashes are returned, which will trigger head-requests
   else if (strncmp(block.start, "\"safe\"", 6) == 0)
     TRY_ASYNC(eth_get_final_hash(ctx, true, data_root, NULL));
-  else if (strncmp(block.start, "\"finalized\"", 12) == 0)
+  else if (strncmp(block.start, "\"finalized\"", 11) == 0)
     TRY_ASYNC(eth_get_final_hash(ctx, false, data_root, NULL));
   else if (block.type == JSON_TYPE_STRING && block.len == 68) // blockhash
     TRY_ASYNC(eth_get_by_hash(ctx, block, data_root));
-- 
2.43.0


From cfb5d8afad6811b0b15df767261133ad2cd650e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:35:39 +0000
Subject: [PATCH 083/138] fix: eth_getCode is requested for the block of the
 proof

---
 src/chains/eth/prover/eth_req.c       | 7 ++++++-
 src/chains/eth/prover/proof_account.c | 2 +-
 src/chains/eth/prover/proof_call.c    | 2 +-
 3 files changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index 8224b07..997ac9a 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -112,7 +112,12 @@ c4_status_t eth_get_code(prover_ctx_t* ctx, json_t address, json_t* code, uint64
   char            tmp[120];
   buffer_t        buf = stack_buffer(tmp);
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getCode", bprintf(&buf, "[%J,\"lastest\"]", address), DEFAULT_TTL, code, &req));
+  bprintf(&buf, "[%J,", address);
+  if (block_number)
+    bprintf(&buf, "\"0x%lx\"]", block_number);
+  else
+    bprintf(&buf, "\"latest\"]");
+  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getCode", tmp, DEFAULT_TTL, code, &req));
   if (req && !req->validated) {
     CHECK_JSON(*code, "bytes", "Invalid results for Code: ");
     req->validated = true;
diff --git a/src/chains/eth/prover/proof_account.c b/src/chains/eth/prover/proof_account.c
index b9a8c07..63cdca5 100644
--- a/src/chains/eth/prover/proof_account.c
+++ b/src/chains/eth/prover/proof_account.c
@@ -78,7 +78,7 @@ static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof,
   TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
 
   // make sure we have the full code
-  if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, 0));
+  if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, ssz_get_uint64(&block_data->execution, "blockNumber")));
 
   // build the account proof
   add_dynamic_byte_list(json_get(eth_proof, "accountProof"), &eth_account_proof, "accountProof");
diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index cfae54a..87babd0 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -193,7 +193,7 @@ static c4_status_t handle_access_list(prover_ctx_t* ctx, json_t storage, bytes_t
     else if ((ctx->flags & C4_PROVER_FLAG_INCLUDE_CODE) == 0)
       code.type = JSON_TYPE_BOOLEAN;
     else
-      TRY_ASYNC(eth_get_code(ctx, (json_t) {.type = JSON_TYPE_STRING, .start = (const char*) account.data - 1, .len = account.len + 2}, &code, 0));
+      TRY_ASYNC(eth_get_code(ctx, (json_t) {.type = JSON_TYPE_STRING, .start = (const char*) account.data - 1, .len = account.len + 2}, &code, block_number));
   }
 
   add_account(
-- 
2.43.0


From 6bf78f127f814d92a30e52c7713b5bf2a0be5954 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:41:08 +0000
Subject: [PATCH 084/138] fix: no light client updates for a client without any
 state

---
 src/chains/eth/prover/historic_proof.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 64dfb6e..a176b3c 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -345,6 +345,7 @@ c4_status_t c4_get_syncdata_proof(prover_ctx_t* ctx, syncdata_state_t* sync_data
     return C4_SUCCESS;
   }
   if (sync_data->checkpoint_period == 0 && sync_data->required_period <= sync_data->newest_period) return C4_SUCCESS;
+  if (sync_data->checkpoint_period == 0 && sync_data->newest_period == 0) return C4_SUCCESS; // the client has no state yet, so there is nothing the updates could be based on.
 
   builder->def            = C4_ETH_REQUEST_SYNCDATA_UNION + 1; // TODO find a way to better handle this in the future, so updates on ssz will not break the build.
   ssz_ob_t      bootstrap = {.def = &ssz_none};
-- 
2.43.0


From 2ba71122572341078fd7782d176b53555526e5d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:43:22 +0000
Subject: [PATCH 085/138] fix: the period required by a logs proof

---
 src/chains/eth/prover/proof_logs.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index 09d2bf1..f4d7b6d 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -290,7 +290,7 @@ c4_status_t c4_proof_logs(prover_ctx_t* ctx) {
       if (!highest_block || block->beacon_block.slot > highest_block->beacon_block.slot) highest_block = block;
     }
     for (proof_logs_block_t* block = blocks; block; block = block->next)
-      block->block_proof.sync.required_period = highest_block->beacon_block.slot << (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
+      block->block_proof.sync.required_period = highest_block->beacon_block.slot >> (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
   }
 
   // create the merkle proofs for all the blocks
-- 
2.43.0


From 016026879957d81bcb8fbf99225e1bd259fe8516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:46:27 +0000
Subject: [PATCH 086/138] fix: eth_getLogs filters with more than 1000
 characters

---
 src/chains/eth/prover/eth_req.c | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index 997ac9a..3ca6e9f 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -75,10 +75,9 @@ c4_status_t eth_getBlockReceipts(prover_ctx_t* ctx, json_t block, json_t* receip
 }
 
 c4_status_t eth_get_logs(prover_ctx_t* ctx, json_t params, json_t* logs) {
-  uint8_t         tmp[1000];
-  buffer_t        buf = stack_buffer(tmp);
+  buffer_t        buf = {0}; // the filter may be of any length
   data_request_t* req = NULL;
-  TRY_ASYNC(c4_send_eth_rpc(ctx, "eth_getLogs", json_as_string(params, &buf), 12, logs, &req));
+  TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, "eth_getLogs", json_as_string(params, &buf), 12, logs, &req), buffer_free(&buf));
   if (req && !req->validated) {
     CHECK_JSON(*logs, "[" JSON_LOG_FIELDS "]", "Invalid results for Logs: ");
     req->validated = true;
-- 
2.43.0


From 20b64e599ff34b459506f23d13568292f6289fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:47:09 +0000
Subject: [PATCH 087/138] fix: the prover writes no debug files into the
 current directory

---
 src/chains/eth/prover/beacon.c | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 3f09e74..52e1576 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -519,12 +519,6 @@ static bool convert_to_ssz(prover_ctx_t* ctx, data_request_t* data_request, ssz_
     return false;
   }
 
-  buffer_t buffer = {0};
-  bprintf(&buffer, "%z", ssz_result);
-  bytes_write(result->bytes, fopen("block_src.json", "wb"), true);
-  bytes_write(buffer.data, fopen("block_ssz.json", "wb"), true);
-  buffer_free(&buffer);
-
   safe_free(data_request->response.data);
   data_request->response = ssz_result.bytes;
   result->bytes          = ssz_result.bytes;
-- 
2.43.0


From 90b6badd0fb46d5c85863dd4efb59ff92ce833eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:49:30 +0000
Subject: [PATCH 088/138] fix: beacon blocks received as JSON (slashings,
 decimal base fee)

---
 src/chains/eth/ssz/beacon_denep.c   |  4 ++--
 src/chains/eth/ssz/beacon_electra.c |  4 ++--
 src/util/ssz_builder.c              | 12 ++++++++++++
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/ssz/beacon_denep.c b/src/chains/eth/ssz/beacon_denep.c
index 6a441e2..dba12bf 100644
--- a/src/chains/eth/ssz/beacon_denep.c
+++ b/src/chains/eth/ssz/beacon_denep.c
@@ -135,8 +135,8 @@ static const ssz_def_t PROPOSER_SLASHING[] = {
 
 // an attester slashing is a list of two index attestations
 static const ssz_def_t ATTESTER_SLASHING[] = {
-    SSZ_CONTAINER("signedHeader1", INDEX_ATTESTATION),
-    SSZ_CONTAINER("signedHeader2", INDEX_ATTESTATION),
+    SSZ_CONTAINER("attestation1", INDEX_ATTESTATION),
+    SSZ_CONTAINER("attestation2", INDEX_ATTESTATION),
 };
 
 // the eth1 data is a deposit root, a deposit count and a block hash
diff --git a/src/chains/eth/ssz/beacon_electra.c b/src/chains/eth/ssz/beacon_electra.c
index f09f551..bdd9b44 100644
--- a/src/chains/eth/ssz/beacon_electra.c
+++ b/src/chains/eth/ssz/beacon_electra.c
@@ -115,8 +115,8 @@ static const ssz_def_t PROPOSER_SLASHING[] = {
 
 // an attester slashing is a list of two index attestations
 static const ssz_def_t ATTESTER_SLASHING[] = {
-    SSZ_CONTAINER("signedHeader1", INDEX_ATTESTATION), // Kept original C-style field name, type INDEX_ATTESTATION is updated
-    SSZ_CONTAINER("signedHeader2", INDEX_ATTESTATION), // Kept original C-style field name, type INDEX_ATTESTATION is updated
+    SSZ_CONTAINER("attestation1", INDEX_ATTESTATION), // Kept original C-style field name, type INDEX_ATTESTATION is updated
+    SSZ_CONTAINER("attestation2", INDEX_ATTESTATION), // Kept original C-style field name, type INDEX_ATTESTATION is updated
 };
 
 // the eth1 data is a deposit root, a deposit count and a block hash
diff --git a/src/util/ssz_builder.c b/src/util/ssz_builder.c
index b6b6c09..8fcf93a 100644
--- a/src/util/ssz_builder.c
+++ b/src/util/ssz_builder.c
@@ -251,6 +251,8 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
                 buffer_add_chars(&pascal_name, "_");
               cc += 32; // make it lowercase
             }
+            else if (cc >= '0' && cc <= '9' && !c[1] && pascal_name.data.len) // "signedHeader1" -> "signed_header_1"
+              buffer_add_chars(&pascal_name, "_");
             buffer_append(&pascal_name, bytes(&cc, 1));
           }
           buffer_grow(&pascal_name, pascal_name.data.len + 1);
@@ -288,6 +290,16 @@ ssz_ob_t ssz_from_json(json_t json, const ssz_def_t* def, c4_state_t* state) {
       }
       else {
         memset(buf.fixed.data.data, 0, def->def.uint.len);
+        if (json.type == JSON_TYPE_STRING && (json.len < 4 || json.start[2] != 'x')) { // a decimal number, as used by the beacon api
+          for (size_t i = 1; i + 1 < json.len && json.start[i] >= '0' && json.start[i] <= '9'; i++) {
+            uint32_t carry = (uint32_t) (json.start[i] - '0');
+            for (uint32_t n = 0; n < def->def.uint.len; n++, carry >>= 8) {
+              carry += buf.fixed.data.data[n] * 10u;
+              buf.fixed.data.data[n] = (uint8_t) carry;
+            }
+          }
+          return (ssz_ob_t) {.def = def, .bytes = buf.fixed.data};
+        }
         bytes_t bytes = json_as_bytes(json, &buf.dynamic);
         if (bytes.len > def->def.uint.len) bytes.len = def->def.uint.len;
         // switch order
-- 
2.43.0


From e26a1916b98c0b0c61d5871e664b4fd59e2cc800 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:50 +0000
Subject: [PATCH 089/138] fix: light client updates of a beacon node are
 checked before they become part of a proof

---
 src/chains/eth/prover/historic_proof.c | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index a176b3c..df5ad13 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -292,7 +292,7 @@ static c4_status_t fetch_bootstrap_data(prover_ctx_t* ctx, syncdata_state_t* syn
 
 static c4_status_t fetch_updates_data(prover_ctx_t* ctx, syncdata_state_t* sync_data, ssz_builder_t* updates) {
   ssz_ob_t result     = {0};
-  uint32_t count      = (uint32_t) (sync_data->required_period - sync_data->newest_period);
+  uint32_t count      = 0;
   char     query[100] = {0};
   sbprintf(query, "start_period=%l&count=%l", sync_data->newest_period, sync_data->required_period - sync_data->newest_period);
   if (ctx->flags & C4_PROVER_FLAG_CHAIN_STORE)
@@ -304,17 +304,26 @@ static c4_status_t fetch_updates_data(prover_ctx_t* ctx, syncdata_state_t* sync_
 
   bytes_t  client_updates = result.bytes;
   uint64_t length         = 0;
-  for (uint32_t pos = 0; pos + UPDATE_PREFIX_SIZE < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
+
+  // the server may return less updates than requested, so we count them first.
+  for (uint32_t pos = 0; pos < client_updates.len; pos += length + SSZ_LENGTH_SIZE, count++) {
+    if (client_updates.len - pos < UPDATE_PREFIX_SIZE) THROW_ERROR("Invalid update data!");
+    length = uint64_from_le(client_updates.data + pos);
+    if (length < SSZ_OFFSET_SIZE || length > client_updates.len - pos - SSZ_LENGTH_SIZE) THROW_ERROR("Invalid update data!");
+  }
+
+  for (uint32_t pos = 0; pos < client_updates.len; pos += length + SSZ_LENGTH_SIZE) {
     uint32_t data_offset        = pos + SSZ_LENGTH_SIZE + SSZ_OFFSET_SIZE;
     uint32_t data_length_offset = SSZ_OFFSET_SIZE;
     length                      = uint64_from_le(client_updates.data + pos);
 
-    if (pos + SSZ_LENGTH_SIZE + length > client_updates.len && length > UPDATE_PREFIX_SIZE) break;
-
     bytes_t   client_update_bytes = bytes(client_updates.data + data_offset, length - data_length_offset);
     fork_id_t fork                = c4_eth_get_fork_for_lcu(ctx->chain_id, client_update_bytes);
     ssz_ob_t  update              = {.bytes = client_update_bytes, .def = eth_get_light_client_update(fork)};
-    if (!update.def) THROW_ERROR("Invalid update data!");
+    if (!update.def) {
+      ssz_builder_free(updates);
+      THROW_ERROR("Invalid update data!");
+    }
 
     bytes_t prefixed = bytes(safe_malloc(update.bytes.len + 1), update.bytes.len + 1);
     memcpy(prefixed.data + 1, update.bytes.data, update.bytes.len);
-- 
2.43.0


From 3477bdcc0d94d971869cb5a67413eb0accd0a871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:54 +0000
Subject: [PATCH 090/138] fix: no proof of the head for safe or finalized when
 the checkpoints are malformed

---
 src/chains/eth/prover/beacon.c | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 52e1576..3f171a7 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -340,8 +340,9 @@ static inline c4_status_t eth_get_final_hash(prover_ctx_t* ctx, bool safe, bytes
 
   //  uint8_t* root = safe ? blockroot : blockroot + 32;
   TRY_ASYNC(get_finality_check_points(ctx, &result));
-  json_get_bytes(json_get(result, "current_justified"), "root", &buf_justified);
-  json_get_bytes(json_get(result, "finalized"), "root", &buf_finalized);
+  if (json_get_bytes(json_get(result, "current_justified"), "root", &buf_justified).len != 32 ||
+      json_get_bytes(json_get(result, "finalized"), "root", &buf_finalized).len != 32)
+    THROW_ERROR("Invalid finality checkpoints!");
   if (slot) {
     const chain_spec_t* chain = c4_eth_get_chain_spec(ctx->chain_id);
     json_t              cp    = json_get(result, safe ? "finalized" : "current_justified");
-- 
2.43.0


From 9499366ff4d40a15d4aa87a7646e277af0efd393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:23:58 +0000
Subject: [PATCH 091/138] fix: endless recursion of the prover with headers
 without a root

---
 src/chains/eth/prover/beacon.c | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index 3f171a7..ef91304 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -185,7 +185,7 @@ static c4_status_t get_beacon_header_by_parent_hash(prover_ctx_t* ctx, bytes32_t
     *header = val;
     return C4_SUCCESS;
   };
-  if (root) json_get_bytes(val, "root", &buffer);
+  if (root && json_get_bytes(val, "root", &buffer).len != 32) THROW_ERROR("Invalid header!");
   val     = json_get(val, "header");
   *header = json_get(val, "message");
 
@@ -239,7 +239,10 @@ static bool has_signature(ssz_ob_t* block) {
   return !bytes_all_zero(bytes(sync.bytes.data, 64));
 }
 
-c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_hash, bytes32_t data_hash, ssz_ob_t* sig_block, ssz_ob_t* data_block, bytes32_t data_root_result) {
+// the number of blocks without a signature we accept before giving up looking for a signed one
+#define MAX_UNSIGNED_BLOCKS 10
+
+static c4_status_t get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_hash, bytes32_t data_hash, ssz_ob_t* sig_block, ssz_ob_t* data_block, bytes32_t data_root_result, int unsigned_blocks) {
 
   beacon_head_t sign   = {0};
   beacon_head_t data   = {0};
@@ -258,6 +261,7 @@ c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_ha
 
   // check if we have a valid signature
   if (status == C4_SUCCESS && !has_signature(sig_block)) {
+    if (unsigned_blocks >= MAX_UNSIGNED_BLOCKS) THROW_ERROR("no block found with signature");
     if (bytes_all_zero(bytes(sign.root, 32))) { // we fetched the head block
       if (data_hash) THROW_ERROR("latest block has no signature");
       memcpy(sign.root, ssz_get(sig_block, "parentRoot").bytes.data, 32);
@@ -267,7 +271,7 @@ c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_ha
       TRY_ASYNC(get_beacon_header_by_parent_hash(ctx, sign.root, &header, sign.root));
       if (header.type == JSON_TYPE_NOT_FOUND) THROW_ERROR("no block found with signature");
     }
-    return c4_eth_get_signblock_and_parent(ctx, sign.root, data_hash, sig_block, data_block, data_root_result);
+    return get_signblock_and_parent(ctx, sign.root, data_hash, sig_block, data_block, data_root_result, unsigned_blocks + 1);
   }
 
   // handle data_block
@@ -291,6 +295,10 @@ c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_ha
   return status;
 }
 
+c4_status_t c4_eth_get_signblock_and_parent(prover_ctx_t* ctx, bytes32_t sign_hash, bytes32_t data_hash, ssz_ob_t* sig_block, ssz_ob_t* data_block, bytes32_t data_root_result) {
+  return get_signblock_and_parent(ctx, sign_hash, data_hash, sig_block, data_block, data_root_result, 0);
+}
+
 static c4_status_t eth_get_block(prover_ctx_t* ctx, json_t block, bool full_tx, json_t* result) {
   uint8_t  tmp[200] = {0};
   buffer_t buffer   = stack_buffer(tmp);
-- 
2.43.0


From 2bb1b34debe7c1aa2d642ed1e3e2cebeadd61e75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:01 +0000
Subject: [PATCH 092/138] fix: out-of-bounds reads of the sync prover with
 malformed updates

---
 src/chains/eth/prover/proof_sync.c | 31 ++++++++++++++++--------------
 1 file changed, 17 insertions(+), 14 deletions(-)

diff --git a/src/chains/eth/prover/proof_sync.c b/src/chains/eth/prover/proof_sync.c
index 053ea4e..ec1c3d3 100644
--- a/src/chains/eth/prover/proof_sync.c
+++ b/src/chains/eth/prover/proof_sync.c
@@ -73,22 +73,25 @@ typedef struct {
   bytes_t  proposer_index;
 } period_data_t;
 
+// takes the next update (length, fork digest and the update itself) from the response
+static bool next_update(prover_ctx_t* ctx, bytes_t* data, ssz_ob_t* update, fork_id_t* fork) {
+  if (data->len < 12) return false;
+  uint64_t len = uint64_from_le(data->data);
+  if (len < 4 || len > data->len - 8) return false;
+  update->bytes = bytes(data->data + 12, (uint32_t) len - 4);
+  *fork         = c4_eth_get_fork_for_lcu(ctx->chain_id, update->bytes);
+  update->def   = eth_get_light_client_update(*fork);
+  *data         = bytes(data->data + 8 + len, data->len - 8 - (uint32_t) len);
+  return update->def && ssz_is_valid(*update, true, NULL);
+}
+
 static c4_status_t extract_sync_data(prover_ctx_t* ctx, bytes_t data, period_data_t* period) {
   bytes32_t domain    = {0};
   bytes32_t aggregate = {0};
-  if (data.len < 12) THROW_ERROR("invalid client_update");
-  ssz_ob_t old_update = {.bytes = bytes(data.data + 12, uint64_from_le(data.data) - 4), .def = NULL};
-  if (old_update.bytes.len + 24 > data.len) THROW_ERROR("invalid client_update");
-  fork_id_t        fork       = c4_eth_get_fork_for_lcu(ctx->chain_id, old_update.bytes);
-  const ssz_def_t* update_def = eth_get_light_client_update(fork);
-  old_update.def              = update_def;
-  if (!old_update.def) THROW_ERROR("invalid client_update");
-  ssz_ob_t new_update = {.bytes = bytes(data.data + 24 + old_update.bytes.len, uint64_from_le(data.data + 12 + old_update.bytes.len) - 4), .def = NULL};
-  if (new_update.bytes.len + 24 + old_update.bytes.len > data.len) THROW_ERROR("invalid client_update");
-  fork           = c4_eth_get_fork_for_lcu(ctx->chain_id, new_update.bytes);
-  update_def     = eth_get_light_client_update(fork);
-  new_update.def = update_def;
-  if (!new_update.def) THROW_ERROR("invalid client_update");
+  ssz_ob_t  old_update = {0};
+  ssz_ob_t  new_update = {0};
+  fork_id_t fork       = 0;
+  if (!next_update(ctx, &data, &old_update, &fork) || !next_update(ctx, &data, &new_update, &fork)) THROW_ERROR("invalid client_update");
 
   ssz_ob_t old_sync_keys  = ssz_get(&old_update, "nextSyncCommittee");
   ssz_ob_t new_sync_keys  = ssz_get(&new_update, "nextSyncCommittee");
@@ -159,7 +162,7 @@ c4_status_t c4_proof_sync(prover_ctx_t* ctx) {
   json_t        period_data   = json_at(ctx->params, 0);
   uint32_t      period        = json_as_uint32(period_data);
 
-  if (period == 0) THROW_ERROR_WITH("Invalid period: %j", period_data);
+  if (period < 2) THROW_ERROR_WITH("Invalid period: %j", period_data);
   TRY_ASYNC(req_client_update(ctx, period - 2, 2, ctx->chain_id, &data));
   TRY_ASYNC(extract_sync_data(ctx, data, &period_values));
   return create_proof(ctx, &period_values);
-- 
2.43.0


From d98170868cf9dd42cb81a5975494bf4fa8f45dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:24:05 +0000
Subject: [PATCH 093/138] fix: null access of the historic proof with missing
 summaries or block roots

---
 src/chains/eth/prover/historic_proof.c | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index df5ad13..29c174f 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -192,12 +192,19 @@ static c4_status_t check_historic_proof_direct(prover_ctx_t* ctx, blockroot_proo
   bytes32_t body_root      = {0};
   bytes32_t blocks_root    = {0};
 
+  if (blocks.len != ssz_fixed_length(&BLOCKS)) THROW_ERROR("invalid block roots in the period store!");
+
   // create summary-list
   json_for_each_value(json_get(data, "historical_summaries"), entry) {
     buffer_append(&list_data, json_get_bytes(entry, "block_summary_root", &buf));
     buffer_append(&list_data, json_get_bytes(entry, "state_summary_root", &buf));
   }
 
+  if (list_data.data.len % 64 || summary_idx >= list_data.data.len / 64) {
+    buffer_free(&list_data);
+    THROW_ERROR("no historical summary for the period of the block!");
+  }
+
   // create the proofs
   ssz_ob_t summaries_ob           = {.bytes = list_data.data, .def = &SUMMARIES};
   bytes_t  block_idx_proof        = ssz_create_proof(blocks_ob, blocks_root, block_gidx);
-- 
2.43.0


From ecd02a1463989644e1b1922fc577df99460910d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:38:29 +0000
Subject: [PATCH 094/138] fix: memory the prover did not release when a
 question was interrupted or failed

---
 src/chains/eth/prover/historic_proof.c    | 3 +--
 src/chains/eth/prover/proof_account.c     | 6 +++---
 src/chains/eth/prover/proof_block.c       | 8 ++++----
 src/chains/eth/prover/proof_logs.c        | 2 +-
 src/chains/eth/prover/proof_receipt.c     | 2 +-
 src/chains/eth/prover/proof_transaction.c | 4 ++--
 6 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 29c174f..81ca1bb 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -79,7 +79,6 @@ static c4_status_t check_historic_proof_header(prover_ctx_t* ctx, blockroot_proo
   json_t    proof_header  = {0};
   json_t    header        = {0};
   bytes32_t root          = {0};
-  buffer_t  proof_headers = {0};
   bytes32_t header_data   = {0};
   buffer_t  header_buf    = stack_buffer(header_data);
   buffer_t  root_buf      = stack_buffer(root);
@@ -90,7 +89,7 @@ static c4_status_t check_historic_proof_header(prover_ctx_t* ctx, blockroot_proo
 
   for (int i = 0; i <= MAX_HISTORIC_PROOF_HEADER_DEPTH; i++) {
     if (i == MAX_HISTORIC_PROOF_HEADER_DEPTH) {
-      buffer_free(&proof_headers);
+      buffer_free(&proof);
       THROW_ERROR("Max header limit reached!");
     }
 
diff --git a/src/chains/eth/prover/proof_account.c b/src/chains/eth/prover/proof_account.c
index 63cdca5..ee1b13a 100644
--- a/src/chains/eth/prover/proof_account.c
+++ b/src/chains/eth/prover/proof_account.c
@@ -74,12 +74,12 @@ static c4_status_t create_eth_account_proof(prover_ctx_t* ctx, json_t eth_proof,
   ssz_builder_t eth_account_proof = ssz_builder_for_type(ETH_SSZ_VERIFY_ACCOUNT_PROOF);
   ssz_builder_t sync_proof        = NULL_SSZ_BUILDER;
 
-  // get the sync_proof if needed
-  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
-
   // make sure we have the full code
   if (strcmp(ctx->method, "eth_getCode") == 0) TRY_ASYNC(eth_get_code(ctx, address, &json_code, ssz_get_uint64(&block_data->execution, "blockNumber")));
 
+  // get the sync_proof if needed
+  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
+
   // build the account proof
   add_dynamic_byte_list(json_get(eth_proof, "accountProof"), &eth_account_proof, "accountProof");
   ssz_add_bytes(&eth_account_proof, "address", json_as_bytes(address, &tmp));
diff --git a/src/chains/eth/prover/proof_block.c b/src/chains/eth/prover/proof_block.c
index cdc8122..72599ad 100644
--- a/src/chains/eth/prover/proof_block.c
+++ b/src/chains/eth/prover/proof_block.c
@@ -44,8 +44,8 @@ c4_status_t c4_proof_block(prover_ctx_t* ctx) {
 
   // fetch the block
   TRY_ASYNC(c4_beacon_get_block_for_eth(ctx, json_at(ctx->params, 0), &block));
-  TRY_ASYNC(c4_check_blockroot_proof(ctx, &historic_proof, &block));
-  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
+  TRY_ASYNC_CATCH(c4_check_blockroot_proof(ctx, &historic_proof, &block), c4_free_block_proof(&historic_proof));
+  TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof), c4_free_block_proof(&historic_proof));
 
   // create merkle proof
   bytes_t execution_payload_proof = ssz_create_proof(block.body, body_root, ssz_gindex(block.body.def, 1, "executionPayload"));
@@ -78,8 +78,8 @@ c4_status_t c4_proof_block_number(prover_ctx_t* ctx) {
 
   // fetch the block
   TRY_ASYNC(c4_beacon_get_block_for_eth(ctx, json_parse("\"latest\""), &block));
-  TRY_ASYNC(c4_check_blockroot_proof(ctx, &historic_proof, &block));
-  TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof));
+  TRY_ASYNC_CATCH(c4_check_blockroot_proof(ctx, &historic_proof, &block), c4_free_block_proof(&historic_proof));
+  TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &historic_proof.sync, &sync_proof), c4_free_block_proof(&historic_proof));
 
   // create merkle proof
   bytes_t execution_payload_proof = ssz_create_multi_proof(block.body, body_root, 2,
diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index f4d7b6d..d8f0928 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -298,7 +298,7 @@ c4_status_t c4_proof_logs(prover_ctx_t* ctx) {
     TRY_ASYNC_CATCH(proof_block(ctx, block), free_blocks(blocks));
 
   if (ctx->flags & C4_PROVER_FLAG_INCLUDE_SYNC && highest_block)
-    TRY_ASYNC(c4_get_syncdata_proof(ctx, &highest_block->block_proof.sync, &sync_proof));
+    TRY_ASYNC_CATCH(c4_get_syncdata_proof(ctx, &highest_block->block_proof.sync, &sync_proof), free_blocks(blocks));
 
   // serialize the proof
   serialize_log_proof(ctx, blocks, logs, sync_proof);
diff --git a/src/chains/eth/prover/proof_receipt.c b/src/chains/eth/prover/proof_receipt.c
index 6e617b7..61b3087 100644
--- a/src/chains/eth/prover/proof_receipt.c
+++ b/src/chains/eth/prover/proof_receipt.c
@@ -158,7 +158,7 @@ c4_status_t c4_proof_receipt(prover_ctx_t* ctx) {
   TRY_ASYNC(status);
 
   TRACE_START(ctx, "check_blockroot_proof");
-  TRY_ASYNC(c4_check_blockroot_proof(ctx, &block_proof, &block));
+  TRY_ASYNC_CATCH(c4_check_blockroot_proof(ctx, &block_proof, &block), c4_free_block_proof(&block_proof));
 
   TRACE_START(ctx, "receipt_proof");
   TRY_ASYNC_CATCH(c4_eth_get_receipt_proof(ctx, ssz_get(&(block.execution), "blockHash").bytes.data, block_receipts, tx_index, &receipt, &receipt_proof),
diff --git a/src/chains/eth/prover/proof_transaction.c b/src/chains/eth/prover/proof_transaction.c
index e8aaef4..6be2127 100644
--- a/src/chains/eth/prover/proof_transaction.c
+++ b/src/chains/eth/prover/proof_transaction.c
@@ -108,10 +108,10 @@ c4_status_t c4_proof_transaction(prover_ctx_t* ctx) {
   if (block.slot) TRY_ADD_ASYNC(status, c4_check_blockroot_proof(ctx, &block_proof, &block));
 
   if (status != C4_SUCCESS) {
-    safe_free(block_proof.historic_proof.data);
+    c4_free_block_proof(&block_proof);
     return status;
   }
-  REQUEST_WORKER_THREAD_CATCH(ctx, safe_free(block_proof.historic_proof.data));
+  REQUEST_WORKER_THREAD_CATCH(ctx, c4_free_block_proof(&block_proof));
 
   TRACE_START(ctx, "proof_data");
 
-- 
2.43.0


From c610378befeb6df247a0a9165bd302dcd658fb86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:53:05 +0000
Subject: [PATCH 095/138] fix: stack overflow of the prover with block numbers
 of 63 digits

---
 src/chains/eth/prover/beacon.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/beacon.c b/src/chains/eth/prover/beacon.c
index ef91304..73b3606 100644
--- a/src/chains/eth/prover/beacon.c
+++ b/src/chains/eth/prover/beacon.c
@@ -43,7 +43,7 @@ static inline void create_cache_block_key(bytes32_t key, json_t block) {
   }
   else if (block.start[1] == '0' && block.start[2] == 'x') {
     json_as_bytes(block, &buffer);
-    if (block.len < 68) memmove(key + 1, key, buffer.data.len);
+    if (block.len < 68) memmove(key + 1, key, buffer.data.len > 31 ? 31 : buffer.data.len);
   }
   else
     memcpy(key + 1, block.start, block.len > 31 ? 31 : block.len);
-- 
2.43.0


From e3385d42ce657d87b07da61d61cae695f5bb7d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:56:14 +0000
Subject: [PATCH 096/138] fix: sync data of a proof for the last block of a
 period

---
 src/chains/eth/prover/historic_proof.c | 6 +++---
 src/chains/eth/prover/proof_logs.c     | 2 +-
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/prover/historic_proof.c b/src/chains/eth/prover/historic_proof.c
index 81ca1bb..04a9860 100644
--- a/src/chains/eth/prover/historic_proof.c
+++ b/src/chains/eth/prover/historic_proof.c
@@ -167,7 +167,7 @@ static c4_status_t check_historic_proof_direct(prover_ctx_t* ctx, blockroot_proo
   if (chain == NULL) THROW_ERROR("unsupported chain id!");
   if (!ctx->client_state.len || !(ctx->flags & C4_PROVER_FLAG_CHAIN_STORE)) return C4_SUCCESS; // no client state means we can't check for historic proofs and assume we simply use the synccommittee for this block.
   uint64_t state_period = block_proof->sync.oldest_period;                                     // this is the oldest period we have in the client state
-  uint64_t block_period = block_proof->sync.required_period;                                   // the period of the target block
+  uint64_t block_period = src_block->slot >> (chain->epochs_per_period_bits + chain->slots_per_epoch_bits); // the period of the target block
   if (!state_period) return C4_SUCCESS;                                                        // the client does not have a state yet, so he might as well get the head and verify the block.
   if (block_period >= state_period) return C4_SUCCESS;                                         // the target block is within the current range of the client
 
@@ -425,9 +425,9 @@ c4_status_t c4_check_blockroot_proof(prover_ctx_t* ctx, blockroot_proof_t* block
   const chain_spec_t* chain = c4_eth_get_chain_spec(ctx->chain_id);
   if (!chain) THROW_ERROR("unsupported chain id!");
 
-  // set the periods in the sync daata
+  // set the periods in the sync daata (a block is signed in the following slot, so the last block of a period by the next sync committee)
   // we also allow pending requests here
-  block_proof->sync.required_period = max64(block_proof->sync.required_period, (uint64_t) (src_block->slot >> (chain->epochs_per_period_bits + chain->slots_per_epoch_bits)));
+  block_proof->sync.required_period = max64(block_proof->sync.required_period, (uint64_t) ((src_block->slot + 1) >> (chain->epochs_per_period_bits + chain->slots_per_epoch_bits)));
   c4_status_t update_status         = update_syncdata_state(ctx, &block_proof->sync, chain);
 
   // we continue, if only light_clientupdates are pending, but we wait for checkpoints, since we need to make decisions based on the checkpoint period.
diff --git a/src/chains/eth/prover/proof_logs.c b/src/chains/eth/prover/proof_logs.c
index d8f0928..b3c6d7a 100644
--- a/src/chains/eth/prover/proof_logs.c
+++ b/src/chains/eth/prover/proof_logs.c
@@ -290,7 +290,7 @@ c4_status_t c4_proof_logs(prover_ctx_t* ctx) {
       if (!highest_block || block->beacon_block.slot > highest_block->beacon_block.slot) highest_block = block;
     }
     for (proof_logs_block_t* block = blocks; block; block = block->next)
-      block->block_proof.sync.required_period = highest_block->beacon_block.slot >> (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
+      block->block_proof.sync.required_period = (highest_block->beacon_block.slot + 1) >> (chain->slots_per_epoch_bits + chain->epochs_per_period_bits);
   }
 
   // create the merkle proofs for all the blocks
-- 
2.43.0


From e1088bd9371a8ff9c2b73ee9169da06a1f2b8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:42:54 +0000
Subject: [PATCH 097/138] fix: a cache entry replaced while it was in use lost
 its reference count

---
 src/prover/prover.c | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/prover/prover.c b/src/prover/prover.c
index 934e1f4..4c4f146 100644
--- a/src/prover/prover.c
+++ b/src/prover/prover.c
@@ -290,6 +290,15 @@ static cache_entry_t* find_global_cache_entry(bytes32_t key) {
   return NULL; // Not found
 }
 
+// Find the global entry a local copy was taken from. It may have been invalidated (and replaced) in the meantime, so the value has to match.
+static cache_entry_t* find_global_cache_source(cache_entry_t* local) {
+  for (size_t i = 0; i < global_cache_array.count; ++i) {
+    cache_entry_t* entry = &global_cache_array.entries[i];
+    if (CACHE_KEY_MATCH(entry, local->key) && entry->value == local->value) return entry;
+  }
+  return NULL; // Not found
+}
+
 // Invalidate a specific entry in the global cache by setting its timestamp to 0
 void c4_prover_cache_invalidate(bytes32_t key) {
   cache_entry_t* entry = find_global_cache_entry(key);
@@ -401,7 +410,7 @@ void c4_prover_free(prover_ctx_t* ctx) {
       if (current_local_entry->from_global_cache) {
         // This was copied from global, decrement the counter on the source.
         // Re-find the global entry by key before decrementing for safety against realloc.
-        cache_entry_t* global_src = find_global_cache_entry(current_local_entry->key.bytes32);
+        cache_entry_t* global_src = find_global_cache_source(current_local_entry);
         if (global_src && global_src->use_counter > 0) // Prevent underflow
           global_src->use_counter--;
         else
-- 
2.43.0


From a3d9bfcad91f72aff5f208a100a33564c9783cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:26 +0000
Subject: [PATCH 098/138] fix: the log cache lost or mixed up blocks after the
 first rotation and repeated the logs of a block added again

---
 src/chains/eth/prover/logs_cache.c | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 00bd113..e027a98 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -163,8 +163,11 @@ static void bloom_add_element_buf(uint8_t bloom[256], bytes_t element) {
  */
 static block_entry_t* push_block(uint64_t block_number) {
   // block is already in the cache?
-  if (g_cache.start_number <= block_number && g_cache.start_number + g_cache.blocks_count > block_number)
-    return g_cache.blocks + ((block_number - g_cache.start_number) % g_cache.blocks_count);
+  if (g_cache.start_number <= block_number && g_cache.start_number + g_cache.blocks_count > block_number) {
+    block_entry_t* known = g_cache.blocks + ((g_cache.start_idx + (uint32_t) (block_number - g_cache.start_number)) % g_cache.blocks_count);
+    known->events_count  = 0; // its events are added again
+    return known;
+  }
 
   // is previous block in the cache? if not, we need to reset in order to have a contiguous cache
   if (g_cache.start_number && g_cache.start_number + g_cache.blocks_count != block_number) {
@@ -178,6 +181,7 @@ static block_entry_t* push_block(uint64_t block_number) {
     block_entry_t* oldest = &g_cache.blocks[g_cache.start_idx];            // current oldest block spot will be used for the new block.
     safe_free(oldest->events);                                             // clean up old events
     memset(oldest, 0, sizeof(block_entry_t));                              // clear the block entry
+    oldest->block_number = block_number;                                   // it now holds the new block
     g_cache.start_idx    = (g_cache.start_idx + 1) % g_cache.blocks_count; // rotate to next block
     g_cache.start_number = g_cache.blocks[g_cache.start_idx].block_number; // update the start number to the new oldest block
     return oldest;
-- 
2.43.0


From 2510390831878274232523e0d29b38e09096ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:30 +0000
Subject: [PATCH 099/138] fix: the log cache found nothing for filters with
 many alternatives

---
 src/chains/eth/prover/logs_cache.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index e027a98..9b69031 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -353,6 +353,7 @@ static inline bool bloom_subset_of64(const uint64_t* small, const uint64_t* big)
  * @return True if any variant is a subset of the block bloom.
  */
 static inline bool bloom_matches(int variant_count, uint64_t* variants, uint64_t* logs_bloom64) {
+  if (variant_count == 0) return true; // bloom prefilter is disabled
   for (int vi = 0; vi < variant_count; vi++) {
     if (bloom_subset_of64(variants + (vi * 32), logs_bloom64)) return true;
   }
-- 
2.43.0


From a4e2f0db99846ab309db98754ae7df45f1c62e33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:33 +0000
Subject: [PATCH 100/138] fix: the log cache returned the logs in reverse order

---
 src/chains/eth/prover/logs_cache.c | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 9b69031..61b38fa 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -535,13 +535,15 @@ static int build_bloom_variants(bytes_t addresses, bytes_t topics[MAX_TOPICS], u
 static void build_match_index(log_cache_state_t* st) {
   int       variant_count = (int) st->filter_blooms.len / 256;
   uint64_t* variants      = (uint64_t*) st->filter_blooms.data;
-  for (uint64_t bn = st->from_block; bn <= st->to_block; bn++) {
-    block_entry_t* e = g_cache.blocks + ((g_cache.start_idx + (uint32_t) (bn - g_cache.start_number)) % g_cache.blocks_count);
+  // all results are prepended, so we run backwards to keep the order of the chain
+  for (uint64_t n = st->to_block - st->from_block + 1; n > 0; n--) {
+    uint64_t       bn = st->from_block + n - 1;
+    block_entry_t* e  = g_cache.blocks + ((g_cache.start_idx + (uint32_t) (bn - g_cache.start_number)) % g_cache.blocks_count);
     if (!bloom_matches(variant_count, variants, e->logs_bloom64)) continue;
     // Confirm by scanning cached events
     block_result_t* block_res = NULL;
-    for (uint32_t i = 0; i < e->events_count; i++) {
-      cached_event_t* ev = &e->events[i];
+    for (uint32_t i = e->events_count; i > 0; i--) {
+      cached_event_t* ev = &e->events[i - 1];
       if (!address_matches(st->filter_addresses, ev->address)) continue;
       if (!topics_matches(st->filter_topics, ev->topics, ev->topics_count)) continue;
 
-- 
2.43.0


From 4601c289a1662493cb175941d2bdfc4acbb5ea93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:17:36 +0000
Subject: [PATCH 101/138] fix: the log cache answered filters for a block hash
 with the logs of the latest block

---
 src/chains/eth/prover/logs_cache.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/chains/eth/prover/logs_cache.c b/src/chains/eth/prover/logs_cache.c
index 61b38fa..1d0992d 100644
--- a/src/chains/eth/prover/logs_cache.c
+++ b/src/chains/eth/prover/logs_cache.c
@@ -648,6 +648,10 @@ c4_status_t c4_eth_logs_cache_scan(prover_ctx_t* ctx, json_t filter, json_t* out
   if (served_from_cache) *served_from_cache = false;
   if (!c4_eth_logs_cache_is_enabled()) return C4_SUCCESS;
 
+  // a block given by its hash is not in the index
+  json_t block_hash = json_get(filter, "blockHash");
+  if (block_hash.type != JSON_TYPE_NOT_FOUND && block_hash.type != JSON_TYPE_NULL) return C4_SUCCESS;
+
   // Resolve and persist the numeric range across async invocations
   log_cache_state_t* st = get_log_state(ctx);
 
-- 
2.43.0


From fa46f80cdc530e7f5308b48678d49ef939c5c611 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:42 +0000
Subject: [PATCH 102/138] fix: a rejected proof without error message was
 reported as verified

---
 src/verifier/verify.c | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/verifier/verify.c b/src/verifier/verify.c
index 9e864e1..cf86721 100644
--- a/src/verifier/verify.c
+++ b/src/verifier/verify.c
@@ -87,6 +87,8 @@ c4_status_t c4_verify(verify_ctx_t* ctx) {
   // verify the proof
   if (!handle_verification(ctx))
     ctx->state.error = bprintf(NULL, "verification for proof of chain %l is not supported", ctx->chain_id);
+  else if (!ctx->success && !ctx->state.error && !c4_state_get_pending_request(&ctx->state))
+    ctx->state.error = strdup("verification failed"); // a rejected proof must not look like a verified one
 
   return (ctx->state.error ? C4_ERROR : (c4_state_get_pending_request(&ctx->state) ? C4_PENDING : C4_SUCCESS));
 }
-- 
2.43.0


From f9d1fd21abdd5c613f8f8e35398c01e52146058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:46 +0000
Subject: [PATCH 103/138] fix: answers handed over by the host were read behind
 their end

---
 bindings/colibri.c | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index 901f971..5c21f5b 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -144,7 +144,9 @@ void c4_free_prover_ctx(prover_t* ctx) {
 void c4_req_set_response(void* req_ptr, bytes_t data, uint16_t node_index) {
   //  fprintf(stderr, "c4_req_set_response: %p\n : %d\n", req_ptr, data.len);
   data_request_t* ctx      = (data_request_t*) req_ptr;
-  ctx->response            = bytes_dup(bytes(data.data, data.len));
+  ctx->response            = bytes(safe_malloc(data.len + 1), data.len);
+  if (data.len) memcpy(ctx->response.data, data.data, data.len);
+  ctx->response.data[data.len] = 0; // JSON is parsed as a terminated string
   ctx->response_node_index = node_index;
 }
 
-- 
2.43.0


From 9e650d33b25a5cd069e02d6d233dd526ef615ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:50 +0000
Subject: [PATCH 104/138] fix: arguments with leading whitespace were freed at
 the wrong address and arguments of rejected proofs were never freed

---
 bindings/colibri.c | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index 5c21f5b..ce73418 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -37,6 +37,8 @@
 typedef struct {
   verify_ctx_t ctx;
   bytes_t      proof;
+  char*        method;
+  char*        args;
   bool         initialised;
 } c4_verify_ctx_t;
 
@@ -165,7 +167,9 @@ bytes_t c4_prover_get_proof(prover_t* prover) {
 void* c4_verify_create_ctx(bytes_t proof, char* method, char* args, uint64_t chain_id, char* trusted_checkpoint) {
   c4_verify_ctx_t* ctx = calloc(1, sizeof(c4_verify_ctx_t));
   ctx->proof           = bytes_dup(proof);
-  c4_verify_init(&ctx->ctx, ctx->proof, method ? strdup(method) : NULL, args ? json_parse(strdup(args)) : ((json_t) {0}), (chain_id_t) chain_id);
+  ctx->method          = method ? strdup(method) : NULL;
+  ctx->args            = args ? strdup(args) : NULL;
+  c4_verify_init(&ctx->ctx, ctx->proof, ctx->method, ctx->args ? json_parse(ctx->args) : ((json_t) {0}), (chain_id_t) chain_id);
   if (trusted_checkpoint && strlen(trusted_checkpoint) == 66) {
     bytes32_t checkpoint;
     hex_to_bytes(trusted_checkpoint + 2, 64, bytes(checkpoint, 32));
@@ -209,8 +213,8 @@ char* c4_verify_execute_json_status(void* ptr) {
 void c4_verify_free_ctx(void* ptr) {
   c4_verify_ctx_t* ctx = (c4_verify_ctx_t*) ptr;
   if (ctx->proof.data) free(ctx->proof.data);
-  if (ctx->ctx.method) free((char*) ctx->ctx.method);
-  if (ctx->ctx.args.start) free((char*) ctx->ctx.args.start);
+  if (ctx->method) free(ctx->method);
+  if (ctx->args) free(ctx->args);
   c4_verify_free_data(&(ctx->ctx));
   free(ctx);
 }
-- 
2.43.0


From ad13112daaef1e9296f188cb5539cd7a0db3a7e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:53 +0000
Subject: [PATCH 105/138] fix: freeing no context is a no-op as documented

---
 bindings/colibri.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index ce73418..ae314e9 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -141,7 +141,7 @@ char* c4_prover_execute_json_status(prover_t* prover) {
 }
 
 void c4_free_prover_ctx(prover_t* ctx) {
-  c4_prover_free((prover_ctx_t*) ctx);
+  if (ctx) c4_prover_free((prover_ctx_t*) ctx);
 }
 void c4_req_set_response(void* req_ptr, bytes_t data, uint16_t node_index) {
   //  fprintf(stderr, "c4_req_set_response: %p\n : %d\n", req_ptr, data.len);
@@ -212,6 +212,7 @@ char* c4_verify_execute_json_status(void* ptr) {
 
 void c4_verify_free_ctx(void* ptr) {
   c4_verify_ctx_t* ctx = (c4_verify_ctx_t*) ptr;
+  if (!ctx) return;
   if (ctx->proof.data) free(ctx->proof.data);
   if (ctx->method) free(ctx->method);
   if (ctx->args) free(ctx->args);
-- 
2.43.0


From 462fbc76fc6992a0a0b87d553015b1463526c4b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:32:57 +0000
Subject: [PATCH 106/138] fix: a malformed trusted checkpoint made the client
 trust uninitialized memory

---
 bindings/colibri.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bindings/colibri.c b/bindings/colibri.c
index ae314e9..753b5f8 100644
--- a/bindings/colibri.c
+++ b/bindings/colibri.c
@@ -172,8 +172,8 @@ void* c4_verify_create_ctx(bytes_t proof, char* method, char* args, uint64_t cha
   c4_verify_init(&ctx->ctx, ctx->proof, ctx->method, ctx->args ? json_parse(ctx->args) : ((json_t) {0}), (chain_id_t) chain_id);
   if (trusted_checkpoint && strlen(trusted_checkpoint) == 66) {
     bytes32_t checkpoint;
-    hex_to_bytes(trusted_checkpoint + 2, 64, bytes(checkpoint, 32));
-    c4_eth_set_trusted_checkpoint(chain_id, checkpoint);
+    if (hex_to_bytes(trusted_checkpoint + 2, 64, bytes(checkpoint, 32)) == 32)
+      c4_eth_set_trusted_checkpoint(chain_id, checkpoint);
   }
   return (void*) ctx;
 }
-- 
2.43.0


From 2d5036c43b33a256d31dcfb427e274dc80359d01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:10 +0000
Subject: [PATCH 107/138] fix: the next server is tried if one cannot be
 reached (TypeScript client)

---
 bindings/emscripten/src/http.ts  | 42 +++++++++++++++++---------------
 bindings/emscripten/src/index.ts | 22 ++++++++++-------
 2 files changed, 36 insertions(+), 28 deletions(-)

diff --git a/bindings/emscripten/src/http.ts b/bindings/emscripten/src/http.ts
index c0a508f..fc3a363 100644
--- a/bindings/emscripten/src/http.ts
+++ b/bindings/emscripten/src/http.ts
@@ -96,27 +96,31 @@ function log(msg: string) {
 export async function fetch_rpc(urls: string[], payload: any, as_proof: boolean = false): Promise<any> {
   let last_error = 'All nodes failed';
   for (const url of urls) {
-    const response = await fetch(url, {
-      method: 'POST',
-      body: JSON.stringify({ id: 1, jsonrpc: '2.0', ...payload }),
-      headers: {
-        'Content-Type': 'application/json',
-        'Accept': as_proof ? 'application/octet-stream' : 'application/json',
-      },
-    });
-    if (response.ok) {
-      if (!as_proof) {
-        const res = await response.json();
-        if (res.error) {
-          last_error = res.error?.message || res.error;
-          continue;
+    try {
+      const response = await fetch(url, {
+        method: 'POST',
+        body: JSON.stringify({ id: 1, jsonrpc: '2.0', ...payload }),
+        headers: {
+          'Content-Type': 'application/json',
+          'Accept': as_proof ? 'application/octet-stream' : 'application/json',
+        },
+      });
+      if (response.ok) {
+        if (!as_proof) {
+          const res = await response.json();
+          if (res.error) {
+            last_error = res.error?.message || res.error;
+            continue;
+          }
+          return res.result;
         }
-        return res.result;
+        const bytes = await response.blob().then(blob => blob.arrayBuffer());
+        return new Uint8Array(bytes);
+      } else {
+        last_error = `HTTP error! Status: ${response.status}, Details: ${await response.text()}`;
       }
-      const bytes = await response.blob().then(blob => blob.arrayBuffer());
-      return new Uint8Array(bytes);
-    } else {
-      last_error = `HTTP error! Status: ${response.status}, Details: ${await response.text()}`;
+    } catch (e) {
+      last_error = (e instanceof Error) ? e.message : String(e);
     }
   }
   throw new Error(last_error);
diff --git a/bindings/emscripten/src/index.ts b/bindings/emscripten/src/index.ts
index 5cb1988..35dc5fd 100644
--- a/bindings/emscripten/src/index.ts
+++ b/bindings/emscripten/src/index.ts
@@ -170,16 +170,20 @@ export default class C4Client {
   private async fetch_checkpointz() {
     let checkpoint: string | undefined = undefined
     for (const url of [...(this.config.checkpointz || []), ...(this.config.beacon_apis || []), ...(this.config.prover || [])]) {
-      const response = await fetch(url + (url.endsWith('/') ? '' : '/') + 'eth/v1/beacon/states/head/finality_checkpoints', {
-        method: 'GET',
-        headers: {
-          "Content-Type": "application/json"
+      try {
+        const response = await fetch(url + (url.endsWith('/') ? '' : '/') + 'eth/v1/beacon/states/head/finality_checkpoints', {
+          method: 'GET',
+          headers: {
+            "Content-Type": "application/json"
+          }
+        })
+        if (response.ok) {
+          const res = await response.json();
+          checkpoint = res?.data?.finalized?.root
+          if (checkpoint) break;
         }
-      })
-      if (response.ok) {
-        const res = await response.json();
-        checkpoint = res?.data?.finalized?.root
-        if (checkpoint) break;
+      } catch (e) {
+        if (this.config.debug) console.warn(`could not fetch the checkpoint from ${url}:`, e);
       }
     }
     if (!checkpoint) throw new Error('No checkpoint found');
-- 
2.43.0


From 41f21121a010fe0935b65efd1bb94929937f20c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:14 +0000
Subject: [PATCH 108/138] fix: params with non-ASCII characters were cut before
 they reached the library (TypeScript client)

---
 bindings/emscripten/src/wasm_shared.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/bindings/emscripten/src/wasm_shared.ts b/bindings/emscripten/src/wasm_shared.ts
index 8d8961d..e90a9ca 100644
--- a/bindings/emscripten/src/wasm_shared.ts
+++ b/bindings/emscripten/src/wasm_shared.ts
@@ -115,8 +115,9 @@ export async function get_default_storage(): Promise<Storage> {
 }
 
 export function as_char_ptr(str: string, c4w: C4W, free_ptrs?: number[]) {
-    const ptr = c4w._malloc(str.length + 1);
-    c4w.stringToUTF8(str, ptr, str.length + 1);
+    const max_len = str.length * 3 + 1; // a UTF-16 unit takes up to 3 bytes in UTF-8
+    const ptr = c4w._malloc(max_len);
+    c4w.stringToUTF8(str, ptr, max_len);
     if (free_ptrs) free_ptrs.push(ptr);
     return ptr;
 }
-- 
2.43.0


From 798e45b05149cbdc30ae168f8b649f71a4ae2a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:17 +0000
Subject: [PATCH 109/138] fix: a bad answer in the cache was used again for the
 retry (TypeScript client)

---
 bindings/emscripten/src/http.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/bindings/emscripten/src/http.ts b/bindings/emscripten/src/http.ts
index fc3a363..b4cd79b 100644
--- a/bindings/emscripten/src/http.ts
+++ b/bindings/emscripten/src/http.ts
@@ -155,7 +155,7 @@ export async function handle_request(req: DataRequest, conf: C4Config) {
     : req.url;
 
   let cacheable = conf.cache && conf.cache.cacheable(req);
-  if (cacheable && conf.cache) {
+  if (cacheable && conf.cache && !Number(req.exclude_mask)) { // a retry needs another answer
     const data = conf.cache.get(req);
     if (data) {
       if (conf.debug) log(`::: ${path} (len=${data.length} bytes) CACHED`);
-- 
2.43.0


From d35bafc760f37dae5c9909cf9dde64d4cfb97c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:20 +0000
Subject: [PATCH 110/138] fix: WarningWithFallback answered unknown methods
 with undefined (TypeScript client)

---
 bindings/emscripten/src/strategy.ts | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/bindings/emscripten/src/strategy.ts b/bindings/emscripten/src/strategy.ts
index 8ba0a95..e9abc31 100644
--- a/bindings/emscripten/src/strategy.ts
+++ b/bindings/emscripten/src/strategy.ts
@@ -83,8 +83,7 @@ async function WarningStrategy(client: ColibriClient, req: RequestArguments, con
     switch (method_type) {
         case MethodType.LOCAL:
             return client.rpc(req.method, argsToArray(req.params), method_type);
-        case MethodType.UNPROOFABLE:
-        case MethodType.NOT_SUPPORTED:
+        default:
             return fetch_unverified_rpc(config, req, fetch_rpc)
         case MethodType.PROOFABLE: {
             const [verified_result, unverified_result] = await Promise.all([
-- 
2.43.0


From e4ab829bc10624c55bd8686a3b81f3a44b1d1414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:23 +0000
Subject: [PATCH 111/138] fix: the wrong server was excluded after a bad
 answer, which was asked for again and again (Python client)

---
 bindings/python/src/colibri/client.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/bindings/python/src/colibri/client.py b/bindings/python/src/colibri/client.py
index 737d8fd..cbea535 100644
--- a/bindings/python/src/colibri/client.py
+++ b/bindings/python/src/colibri/client.py
@@ -4,7 +4,7 @@ Main Colibri client implementation
 
 import asyncio
 import json
-from typing import Any, Dict, List, Optional, Union
+from typing import Any, Dict, List, Optional, Tuple, Union
 
 import aiohttp
 
@@ -392,10 +392,10 @@ class Colibri:
 
                 # Execute HTTP request
                 try:
-                    response_data = await self._execute_http_request(request, servers)
+                    response_data, node_index = await self._execute_http_request(request, servers)
                     native = _get_native()
                     if native:
-                        native.req_set_response(request.req_ptr, response_data, 0)
+                        native.req_set_response(request.req_ptr, response_data, node_index)
                 except Exception as e:
                     native = _get_native()
                     if native:
@@ -421,7 +421,7 @@ class Colibri:
         self, 
         request: DataRequest, 
         servers: List[str]
-    ) -> bytes:
+    ) -> Tuple[bytes, int]:
         """
         Execute a single HTTP request against multiple servers
         
@@ -430,7 +430,7 @@ class Colibri:
             servers: List of server URLs to try
             
         Returns:
-            Response data as bytes
+            Response data as bytes and the index of the server it came from
             
         Raises:
             HTTPError: If all servers fail
@@ -461,7 +461,7 @@ class Colibri:
                         timeout=aiohttp.ClientTimeout(total=30)
                     ) as response:
                         if response.status == 200:
-                            return await response.read()
+                            return await response.read(), i
                         else:
                             error_text = await response.text()
                             print(f"HTTP {response.status} from {url}: {error_text}")
-- 
2.43.0


From 0bb0e79570de7e07c2a40fd62b1ce08963425626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:26 +0000
Subject: [PATCH 112/138] fix: requests to the prover were sent to the rpc
 nodes (Python client)

---
 bindings/python/src/colibri/client.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/bindings/python/src/colibri/client.py b/bindings/python/src/colibri/client.py
index cbea535..1b3c5cb 100644
--- a/bindings/python/src/colibri/client.py
+++ b/bindings/python/src/colibri/client.py
@@ -387,6 +387,8 @@ class Colibri:
                         servers = self.provers
                     else:
                         servers = self.beacon_apis
+                elif request.request_type == "prover":
+                    servers = self.provers
                 else:
                     servers = self.eth_rpcs
 
-- 
2.43.0


From 69330e9f63fcf8adfacd217870f2d3abdd2a5778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:28 +0000
Subject: [PATCH 113/138] fix: the error of an rpc node was lost and error=null
 taken for one (Python client)

---
 bindings/python/src/colibri/client.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/bindings/python/src/colibri/client.py b/bindings/python/src/colibri/client.py
index 1b3c5cb..b54a169 100644
--- a/bindings/python/src/colibri/client.py
+++ b/bindings/python/src/colibri/client.py
@@ -508,6 +508,7 @@ class Colibri:
             "Accept": "application/octet-stream" if as_proof else "application/json"
         }
 
+        rpc_error = None
         async with aiohttp.ClientSession() as session:
             for url in urls:
                 try:
@@ -522,12 +523,13 @@ class Colibri:
                                 return await response.read()
                             else:
                                 result = await response.json()
-                                if "error" in result:
-                                    raise RPCError(
-                                        result["error"].get("message", "RPC error"),
-                                        result["error"].get("code")
-                                    )
-                                return result.get("result")
+                                error = result.get("error")
+                                if error is None:
+                                    return result.get("result")
+                                if isinstance(error, dict):
+                                    rpc_error = RPCError(error.get("message", "RPC error"), error.get("code"))
+                                else:
+                                    rpc_error = RPCError(str(error))
                         else:
                             error_text = await response.text()
                             print(f"RPC HTTP {response.status} from {url}: {error_text}")
@@ -536,4 +538,4 @@ class Colibri:
                     print(f"RPC request failed for {url}: {e}")
                     continue
         
-        raise RPCError(f"All RPC servers failed for {method}")
\ No newline at end of file
+        raise rpc_error or RPCError(f"All RPC servers failed for {method}")
\ No newline at end of file
-- 
2.43.0


From c9ee0bfb5b35f9f6804203f7b8a8067bc325768d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:31 +0000
Subject: [PATCH 114/138] fix: verifyTransactions was bypassed by request(),
 which passed eth_sendTransaction on to the wallet

---
 bindings/emscripten/src/index.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/bindings/emscripten/src/index.ts b/bindings/emscripten/src/index.ts
index 35dc5fd..09abff3 100644
--- a/bindings/emscripten/src/index.ts
+++ b/bindings/emscripten/src/index.ts
@@ -382,6 +382,9 @@ export default class C4Client {
     let conf = chain_conf(this.config, this.config.chainId)
     let strategy = conf?.proofStrategy || this.config.proofStrategy;
 
+    // no strategy may hand a transaction to the fallback provider without verifying it
+    if (method === 'eth_sendTransaction' && this.config.verifyTransactions) strategy = undefined;
+
     // If not handled by SubscriptionManager, proceed with standard RPC call logic
     try {
       const result = strategy
-- 
2.43.0


From 380364ca0eab96142b3a36f4216c7684ac5f5178 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:34 +0000
Subject: [PATCH 115/138] fix: the signed transaction was not compared with all
 the user asked for

---
 .../emscripten/src/transactionVerifier.ts     | 47 ++++++++++++-------
 1 file changed, 31 insertions(+), 16 deletions(-)

diff --git a/bindings/emscripten/src/transactionVerifier.ts b/bindings/emscripten/src/transactionVerifier.ts
index 5e0ac03..bd448ec 100644
--- a/bindings/emscripten/src/transactionVerifier.ts
+++ b/bindings/emscripten/src/transactionVerifier.ts
@@ -99,21 +99,29 @@ export class TransactionVerifier {
             console.log('Decoded:', decoded);
         }
 
-        // Kritische Parameter vergleichen
-        const criticalFields = ['to', 'value', 'data', 'gas', 'gasPrice', 'maxFeePerGas', 'maxPriorityFeePerGas', 'nonce'];
-
-        for (const field of criticalFields) {
-            if (original[field] !== undefined) {
-                // Normalisierung für Hex-Werte (0x-Prefix, Leading Zeros)
-                const originalValue = this.normalizeHexValue(original[field]);
-                const decodedValue = this.normalizeHexValue(decoded[field]);
-
-                if (originalValue !== decodedValue) {
-                    if (config.debug) {
-                        console.warn(`[TransactionVerifier] Transaction parameter mismatch in '${field}': original='${originalValue}', decoded='${decodedValue}'`);
-                    }
-                    return false;
+        // Kritische Parameter vergleichen: [Feld, Original, Dekodiert]
+        const hex = (value: any) => this.normalizeHexValue(value);
+        const bytes = (value: any) => this.normalizeBytes(value);
+        const criticalFields: [string, string, string][] = [
+            // fehlende Angaben bedeuten: Contract-Creation, kein Wert, keine Daten
+            ['to', bytes(original.to), bytes(decoded.to)],
+            ['value', hex(original.value ?? 0), hex(decoded.value)],
+            ['data', bytes(original.data ?? original.input), bytes(decoded.input)],
+        ];
+        // Diese Felder darf der Signer ergänzen, aber nicht ändern
+        if (original.data !== undefined && original.input !== undefined) criticalFields.push(['input', bytes(original.input), bytes(decoded.input)]);
+        if (original.from !== undefined) criticalFields.push(['from', bytes(original.from), bytes(decoded.from)]);
+        for (const field of ['gas', 'gasPrice', 'maxFeePerGas', 'maxPriorityFeePerGas', 'nonce']) {
+            const originalValue = field === 'gas' ? original.gas ?? original.gasLimit : original[field];
+            if (originalValue !== undefined) criticalFields.push([field, hex(originalValue), hex(decoded[field])]);
+        }
+
+        for (const [field, originalValue, decodedValue] of criticalFields) {
+            if (originalValue !== decodedValue) {
+                if (config.debug) {
+                    console.warn(`[TransactionVerifier] Transaction parameter mismatch in '${field}': original='${originalValue}', decoded='${decodedValue}'`);
                 }
+                return false;
             }
         }
 
@@ -133,9 +141,9 @@ export class TransactionVerifier {
      */
     private static normalizeHexValue(value: any): string {
         if (value === undefined || value === null) return '';
-        if (typeof value === 'number') return '0x' + value.toString(16);
+        if (typeof value === 'number' || typeof value === 'bigint') return '0x' + value.toString(16);
 
-        const str = value.toString();
+        const str = value.toString().toLowerCase();
         if (!str.startsWith('0x')) return '0x' + str;
 
         // Führende Nullen entfernen, aber mindestens eine Ziffer behalten
@@ -143,6 +151,13 @@ export class TransactionVerifier {
         const normalized = withoutPrefix.replace(/^0+/, '') || '0';
         return '0x' + normalized;
     }
+
+    /**
+     * Normalisiert Adressen und Daten für Vergleiche (Groß-/Kleinschreibung, fehlend = leer)
+     */
+    private static normalizeBytes(value: any): string {
+        return value === undefined || value === null ? '0x' : value.toString().toLowerCase();
+    }
 }
 
 /**
-- 
2.43.0


From f7253759d34e8f1adf6b4c35194c9b6f194c3fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:37 +0000
Subject: [PATCH 116/138] fix: the signer could change the transaction it is
 compared with

---
 bindings/emscripten/src/transactionVerifier.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/emscripten/src/transactionVerifier.ts b/bindings/emscripten/src/transactionVerifier.ts
index bd448ec..f0e3773 100644
--- a/bindings/emscripten/src/transactionVerifier.ts
+++ b/bindings/emscripten/src/transactionVerifier.ts
@@ -63,9 +63,10 @@ export class TransactionVerifier {
 
         try {
             // 1. Transaction über fallbackProvider signieren lassen
+            // (mit einer eigenen Kopie, damit der Vergleich mit dem Original erfolgt)
             const signedRawTx = await config.fallback_provider.request({
                 method: 'eth_signTransaction',
-                params: [txObject]
+                params: [{ ...txObject }]
             }) as string;
 
             // 2. Signierte Transaction dekodieren
-- 
2.43.0


From 26e119958f90bf46e7017925908b748919ae0c9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:39 +0000
Subject: [PATCH 117/138] fix: new heads whose block could not be fetched were
 skipped for good

---
 bindings/emscripten/src/subscriptionManager.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/bindings/emscripten/src/subscriptionManager.ts b/bindings/emscripten/src/subscriptionManager.ts
index 2e6137d..c423c4e 100644
--- a/bindings/emscripten/src/subscriptionManager.ts
+++ b/bindings/emscripten/src/subscriptionManager.ts
@@ -234,16 +234,19 @@ export class SubscriptionManager {
                     if (currentVerifiableBlockNumber <= sub.lastPolledBlockNumber) return []; // No new head yet for eth_subscribe('newHeads')
                 }
 
+                let delivered = fromBlock - 1n; // the next poll continues after the last block that could be fetched
                 for (let blockNum = fromBlock; blockNum <= currentVerifiableBlockNumber; blockNum++) {
                     try {
                         const block = await this.rpcCall('eth_getBlockByNumber', ['0x' + blockNum.toString(16), sub.kind === 'newHeads' /* full block for newHeads */]);
-                        if (block && this.activeSubscriptions.has(sub.id)) {
+                        if (!block) break; // not available yet
+                        delivered = blockNum;
+                        if (this.activeSubscriptions.has(sub.id)) {
                             if (sub.kind === 'newHeads') results.push(block);
                             else if (sub.kind === 'block') results.push(block.hash); // eth_newBlockFilter returns block hashes
                         }
                     } catch (e) {
                         if (this.config.debug) console.error(`[SubMan] Error fetching block ${blockNum} for sub/filter ${sub.id}:`, e);
-                        if (sub.kind === 'block') break; // For block filters, stop if a block in sequence fails
+                        break; // stop if a block in sequence fails, it is fetched again with the next poll
                     }
                 }
                 if (results.length > 0 && sub.kind === 'newHeads' && !returnResults && this.activeSubscriptions.has(sub.id)) {
@@ -257,7 +260,7 @@ export class SubscriptionManager {
                     });
                     if (this.config.debug) console.log(`[SubMan] Emitted ${results.length} newHead(s) for sub ${sub.id}`);
                 }
-                sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
+                sub.lastPolledBlockNumber = delivered;
             }
         } else if (sub.kind === 'logs' || sub.kind === 'log') { // 'log' is for eth_newFilter(logs)
             const filterParams = { ...(sub.params || {}) };
-- 
2.43.0


From 0e21045e4d4af979b4034577fc6b936bb4a898be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:42 +0000
Subject: [PATCH 118/138] fix: logs were delivered twice when the block number
 was not available and lost when the node had no answer

---
 .../emscripten/src/subscriptionManager.ts     | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/bindings/emscripten/src/subscriptionManager.ts b/bindings/emscripten/src/subscriptionManager.ts
index c423c4e..3283f18 100644
--- a/bindings/emscripten/src/subscriptionManager.ts
+++ b/bindings/emscripten/src/subscriptionManager.ts
@@ -262,26 +262,24 @@ export class SubscriptionManager {
                 }
                 sub.lastPolledBlockNumber = delivered;
             }
-        } else if (sub.kind === 'logs' || sub.kind === 'log') { // 'log' is for eth_newFilter(logs)
+        } else if ((sub.kind === 'logs' || sub.kind === 'log') && currentVerifiableBlockNumber) { // 'log' is for eth_newFilter(logs)
+            // without a block number the range to continue with is unknown, so the next poll takes care of it
             const filterParams = { ...(sub.params || {}) };
             if (sub.lastPolledBlockNumber) {
                 filterParams.fromBlock = '0x' + (sub.lastPolledBlockNumber + 1n).toString(16);
-            } else if (!filterParams.fromBlock && currentVerifiableBlockNumber) {
+            } else if (!filterParams.fromBlock) {
                 filterParams.fromBlock = '0x' + currentVerifiableBlockNumber.toString(16);
             }
 
-            if (currentVerifiableBlockNumber) {
-                filterParams.toBlock = '0x' + currentVerifiableBlockNumber.toString(16);
-            } else if (!filterParams.toBlock) {
-                filterParams.toBlock = 'latest';
-            }
+            filterParams.toBlock = '0x' + currentVerifiableBlockNumber.toString(16);
 
-            if (filterParams.fromBlock && filterParams.toBlock && filterParams.toBlock !== 'latest' && BigInt(filterParams.fromBlock) > BigInt(filterParams.toBlock)) {
+            if (BigInt(filterParams.fromBlock) > currentVerifiableBlockNumber) {
                 // Skip if fromBlock is ahead
             } else {
                 try {
                     const logs = await this.rpcCall('eth_getLogs', [filterParams]);
-                    if (logs && logs.length > 0 && this.activeSubscriptions.has(sub.id)) {
+                    if (!Array.isArray(logs)) throw new Error('no logs for the range available');
+                    if (logs.length > 0 && this.activeSubscriptions.has(sub.id)) {
                         results = logs;
                         if (!returnResults) { // For eth_subscribe('logs')
                             this.eventEmitter.emit('message', {
@@ -291,8 +289,7 @@ export class SubscriptionManager {
                             if (this.config.debug) console.log(`[SubMan] Emitted ${logs.length} logs for sub ${sub.id}`);
                         }
                     }
-                    if (filterParams.toBlock !== 'latest') sub.lastPolledBlockNumber = BigInt(filterParams.toBlock);
-                    else if (currentVerifiableBlockNumber) sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
+                    sub.lastPolledBlockNumber = currentVerifiableBlockNumber;
                 } catch (e) {
                     if (this.config.debug) console.error(`[SubMan] Error fetching logs for sub/filter ${sub.id}:`, e);
                 }
-- 
2.43.0


From bbd3bd76c53b27e7e5034b9a7b6ebd1d5a724aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:45 +0000
Subject: [PATCH 119/138] fix: a log filter with a block tag as fromBlock ended
 with an error

---
 bindings/emscripten/src/subscriptionManager.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/bindings/emscripten/src/subscriptionManager.ts b/bindings/emscripten/src/subscriptionManager.ts
index 3283f18..e854997 100644
--- a/bindings/emscripten/src/subscriptionManager.ts
+++ b/bindings/emscripten/src/subscriptionManager.ts
@@ -273,7 +273,8 @@ export class SubscriptionManager {
 
             filterParams.toBlock = '0x' + currentVerifiableBlockNumber.toString(16);
 
-            if (BigInt(filterParams.fromBlock) > currentVerifiableBlockNumber) {
+            // fromBlock may also be a tag like "earliest" or "latest"
+            if (/^0x[0-9a-fA-F]+$/.test(filterParams.fromBlock) && BigInt(filterParams.fromBlock) > currentVerifiableBlockNumber) {
                 // Skip if fromBlock is ahead
             } else {
                 try {
-- 
2.43.0


From af0e8e11fe081e619b69632b07ad246637e5f5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:01:48 +0000
Subject: [PATCH 120/138] fix: overlapping eth_getFilterChanges delivered the
 same changes twice

---
 bindings/emscripten/src/subscriptionManager.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/bindings/emscripten/src/subscriptionManager.ts b/bindings/emscripten/src/subscriptionManager.ts
index e854997..b6d98d5 100644
--- a/bindings/emscripten/src/subscriptionManager.ts
+++ b/bindings/emscripten/src/subscriptionManager.ts
@@ -38,6 +38,8 @@ export interface Subscription {
     lastPolledBlockNumber?: bigint;
     // Only for eth_subscribe subscriptions with active polling
     timeoutId?: number;
+    // Only for filters: the running eth_getFilterChanges, the next one starts after it
+    pending?: Promise<any>;
     // internal marker, could also be derived from subscriptionMethod
     // isActivePolling: boolean; // True if managed by setInterval/setTimeout polling loop
 }
@@ -194,7 +196,9 @@ export class SubscriptionManager {
         }
 
         // Perform a one-time poll based on the filter kind
-        return this.executePollLogic(sub, true); // Pass true to indicate results should be returned, not emitted
+        const changes = (sub.pending ?? Promise.resolve()).then(() => this.executePollLogic(sub, true)); // Pass true to indicate results should be returned, not emitted
+        sub.pending = changes.catch(() => undefined);
+        return changes;
     }
 
     // For eth_uninstallFilter
-- 
2.43.0


From db986ddc3771df507c8b2a9ff082faed584208a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:43 +0000
Subject: [PATCH 121/138] fix: at the first slot of a fork a zk sync proof was
 checked (and prepared) with the signature domain of the fork before

---
 src/chains/eth/prover/proof_sync.c       | 2 +-
 src/chains/eth/verifier/sync_committee.c | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/prover/proof_sync.c b/src/chains/eth/prover/proof_sync.c
index ec1c3d3..0765ca8 100644
--- a/src/chains/eth/prover/proof_sync.c
+++ b/src/chains/eth/prover/proof_sync.c
@@ -107,7 +107,7 @@ static c4_status_t extract_sync_data(prover_ctx_t* ctx, bytes_t data, period_dat
   bytes_t  state_proof    = ssz_get(&new_update, "nextSyncCommitteeBranch").bytes;
   ssz_ob_t aggrgated_pub  = ssz_get(&new_sync_keys, "aggregatePubkey");
 
-  if (!eth_calculate_domain(ctx->chain_id, ssz_get_uint64(&header, "slot"), domain)) THROW_ERROR("unsupported chain!");
+  if (!eth_calculate_domain(ctx->chain_id, ssz_get_uint64(&header, "slot") + 1, domain)) THROW_ERROR("unsupported chain!");
   //
   memcpy(aggregate, aggrgated_pub.bytes.data + 32, 16);
   sha256_merkle(bytes_slice(aggrgated_pub.bytes, 0, 32), bytes(aggregate, 32), aggregate);
diff --git a/src/chains/eth/verifier/sync_committee.c b/src/chains/eth/verifier/sync_committee.c
index 586756e..70cf62f 100644
--- a/src/chains/eth/verifier/sync_committee.c
+++ b/src/chains/eth/verifier/sync_committee.c
@@ -280,7 +280,7 @@ static bool update_from_zk_sync_data(verify_ctx_t* ctx) {
   ssz_hash_tree_root(pub_keys, pub_inputs + 32);   // next_keys_root
   uint64_to_le(pub_inputs + 64, period);           // next_period
   ssz_hash_tree_root(header, pub_inputs + 72);     // attested_header_root
-  if (!eth_calculate_domain(ctx->chain_id, attested_slot, pub_inputs + 104)) RETURN_VERIFY_ERROR(ctx, "unsupported chain!");
+  if (!eth_calculate_domain(ctx->chain_id, attested_slot + 1, pub_inputs + 104)) RETURN_VERIFY_ERROR(ctx, "unsupported chain!");
   if (!c4_verify_zk_proof(proof, bytes(pub_inputs, 136), vk_hash.data)) RETURN_VERIFY_ERROR(ctx, "invalid zk_proof!");
   if (!verify_signatures(ctx, ssz_get(&ctx->sync_data, "checkpoint"), header, ssz_get(&ctx->sync_data, "signatures"))) RETURN_VERIFY_ERROR(ctx, "invalid checkpoint signatures!");
   if (!c4_set_sync_period(period, pub_keys.bytes, ctx->chain_id, previous_pubkeys_hash)) RETURN_VERIFY_ERROR(ctx, "failed to store next sync committee!");
-- 
2.43.0


From e445cb2e6129073cda431c9ca59fbe213589b257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:56 +0000
Subject: [PATCH 122/138] fix: a union without a value could have any content,
 which was copied over the stack when verifying the block of a state proof

---
 src/util/ssz.c | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/util/ssz.c b/src/util/ssz.c
index 10ff6de..7acd443 100644
--- a/src/util/ssz.c
+++ b/src/util/ssz.c
@@ -216,6 +216,7 @@ bool ssz_is_valid(ssz_ob_t ob, bool recursive, c4_state_t* state) {
     case SSZ_TYPE_UNION:
       // Union: first byte is selector, remaining bytes are the selected variant
       if (ob.bytes.len == 0 || ob.bytes.data[0] >= ob.def->def.container.len) THROW_INVALID("Invalid selector for union");
+      if (ob.def->def.container.elements[ob.bytes.data[0]].type == SSZ_TYPE_NONE && ob.bytes.len != 1) THROW_INVALID("Invalid length for union without a value");
       if (recursive && ob.def->def.container.elements[ob.bytes.data[0]].type != SSZ_TYPE_NONE && !ssz_is_valid(ssz_ob(ob.def->def.container.elements[ob.bytes.data[0]], bytes(ob.bytes.data + 1, ob.bytes.len - 1)), recursive, state)) return false;
       return true;
     default:
-- 
2.43.0


From a850af368f9b431411466e5430b9ea666cd67067 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:56 +0000
Subject: [PATCH 123/138] fix: the code of a call proof was stored in the code
 cache (and used for other accounts) before its hash was checked

---
 src/chains/eth/verifier/eth_account.c | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index 1fbb370..c9a9d44 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -189,11 +189,18 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
       ac->free = true;
     }
     else if (code.def->type == SSZ_TYPE_LIST) { // code is part of the proof, but not cached yet
-      ac->code = code.bytes;
-      ac->free = false;
+      keccak(code.bytes, hash);
+      if (memcmp(hash, ac->hash, 32) == 0) {
+        ac->code = code.bytes;
+        ac->free = false;
 
-      // store in cache
-      cache.set((char*) buf.data.data, ac->code);
+        // store in cache
+        cache.set((char*) buf.data.data, ac->code);
+      }
+      else { // not the code for this hash, so it must not be cached or used for it (the account will be rejected, if its code is not overridden)
+        safe_free(ac);
+        ac = NULL;
+      }
     }
     else {
       buffer_reset(&buf);
-- 
2.43.0


From 15b3c77335b734e88379436141c8d17d54b8615a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:49:56 +0000
Subject: [PATCH 124/138] fix: the code of an account for which the prover did
 not deliver it was taken as empty when executing a call

---
 src/chains/eth/verifier/call_ctx.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 5a61e69..f045c23 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -204,8 +204,9 @@ static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
 
   ssz_ob_t code = ssz_get(&account, "code");
   if (code.def && code.def->type == SSZ_TYPE_LIST) return code.bytes;
+  // without the code, we can only accept accounts without code
+  if (!ctx->ctx->state.error && memcmp(code_hash, EMPTY_HASH, 32)) ctx->ctx->state.error = bprintf(NULL, "Missing code for account 0x%x", bytes(address, 20));
   return NULL_BYTES;
-  //  return account.def ? ssz_get(&account, "code").bytes : NULL_BYTES;
 }
 
 static void changed_account_free(changed_account_t* acc) {
-- 
2.43.0


From be40541a07e110f3cd6aefb53819f2be4c589ff7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:24 +0000
Subject: [PATCH 125/138] fix: a contract had no code after its storage was
 changed or overridden, if the code is not part of the proof, and an unproven
 balance was taken as zero

---
 src/chains/eth/verifier/call_ctx.h    | 14 +++++++-------
 src/chains/eth/verifier/call_evmone.c |  8 ++++++--
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index f045c23..6bcee5b 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -53,6 +53,8 @@ typedef struct changed_account {
   struct changed_account* next;
   changed_storage_t*      storage;
   bool                    full_state_override;
+  bool                    has_balance; // false: the balance is the one of the proof
+  bool                    has_code;    // false: the code is the one of the proof
   bool                    deleted;
   bool                    free_code;
 } changed_account_t;
@@ -146,7 +148,6 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
   }
   changed_account_t* parent_acc  = ctx->parent ? get_changed_account(ctx->parent, address) : NULL;
   *created                       = parent_acc == NULL;
-  ssz_ob_t           old_account = get_src_account(ctx, address, true);
   changed_account_t* acc         = safe_calloc(1, sizeof(changed_account_t));
   memcpy(acc->address, address, 20);
   acc->next             = ctx->changed_accounts;
@@ -155,6 +156,8 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
   if (parent_acc) {
     memcpy(acc->balance, parent_acc->balance, 32);
     acc->code                       = parent_acc->code;
+    acc->has_balance                = parent_acc->has_balance;
+    acc->has_code                   = parent_acc->has_code;
     acc->full_state_override         = parent_acc->full_state_override;
     changed_storage_t** storage_ptr = &acc->storage;
     for (changed_storage_t* s = parent_acc->storage; s != NULL; s = s->next) {
@@ -165,11 +168,6 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
       storage_ptr          = &(*storage_ptr)->next;
     }
   }
-  else if (old_account.def) {
-    ssz_ob_t code = ssz_get(&old_account, "code");
-    if (code.def && code.def->type == SSZ_TYPE_LIST && code.bytes.len > 0) acc->code = code.bytes;
-    eth_get_account_value(old_account, ETH_ACCOUNT_BALANCE, acc->balance);
-  }
   return acc;
 }
 
@@ -192,7 +190,7 @@ static void set_changed_storage(evmone_context_t* ctx, const address_t addr, con
 }
 static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
   changed_account_t* changed_account = get_changed_account(ctx, address);
-  if (changed_account) return changed_account->code;
+  if (changed_account && changed_account->has_code) return changed_account->code;
   ssz_ob_t account = get_src_account(ctx, address, false);
   if (!account.def) return NULL_BYTES;
   bytes32_t code_hash = {0};
@@ -279,6 +277,8 @@ static void context_apply(evmone_context_t* ctx) {
     memcpy(parent_acc->balance, acc->balance, 32);
     parent_acc->code      = acc->code;
     parent_acc->free_code = acc->free_code;
+    parent_acc->has_balance         = acc->has_balance;
+    parent_acc->has_code            = acc->has_code;
     parent_acc->full_state_override = acc->full_state_override;
 
     for (changed_storage_t* s = acc->storage; s; s = s->next)
diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 9587eb8..be7d93d 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -163,7 +163,7 @@ static evmc_bytes32 host_get_balance(void* context, const evmc_address* addr) {
 
   evmc_bytes32       result = {0};
   changed_account_t* acc    = get_changed_account(ctx, addr->bytes);
-  if (acc)
+  if (acc && acc->has_balance)
     memcpy(result.bytes, acc->balance, 32);
   else {
     ssz_ob_t account = get_src_account(ctx, addr->bytes, false);
@@ -380,9 +380,13 @@ static void apply_state_overrides(evmone_context_t* context, const eth_state_ove
   for (const eth_account_override_t* a = overrides->accounts; a; a = a->next) {
     bool               created = false;
     changed_account_t* acc     = create_changed_account(context, a->address, &created);
-    if (a->has_balance) memcpy(acc->balance, a->balance, 32);
+    if (a->has_balance) {
+      memcpy(acc->balance, a->balance, 32);
+      acc->has_balance = true;
+    }
     if (a->has_code) {
       acc->code      = a->code;
+      acc->has_code  = true;
       acc->free_code = false;
     }
     if (a->storage) {
-- 
2.43.0


From 23097626ef03251b4ea3ac61587527407c15c9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:24 +0000
Subject: [PATCH 126/138] fix: a storage value written by a reverted call
 stayed, if the caller had changed the same value before

---
 src/chains/eth/verifier/call_ctx.h | 19 ++++++++-----------
 1 file changed, 8 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 6bcee5b..b356232 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -172,21 +172,18 @@ static changed_account_t* create_changed_account(evmone_context_t* ctx, const ad
 }
 
 static void set_changed_storage(evmone_context_t* ctx, const address_t addr, const bytes32_t key, const bytes32_t value, bool* account_created, bool* storage_created) {
-  changed_storage_t* storage = get_changed_storage(ctx, addr, key);
-  if (storage) {
-    memcpy(storage->value, value, 32);
-    *account_created = false;
-    *storage_created = false;
-  }
-  else {
-    changed_account_t* account = create_changed_account(ctx, addr, account_created);
-    *storage_created           = true;
-    changed_storage_t* storage = safe_calloc(1, sizeof(changed_storage_t));
+  // the account of this frame is a copy, so the values of the caller are still there, if this frame reverts.
+  changed_account_t* account = create_changed_account(ctx, addr, account_created);
+  changed_storage_t* storage = account->storage;
+  while (storage && memcmp(storage->key, key, 32)) storage = storage->next;
+  *storage_created = storage == NULL;
+  if (!storage) {
+    storage = safe_calloc(1, sizeof(changed_storage_t));
     memcpy(storage->key, key, 32);
-    memcpy(storage->value, value, 32);
     storage->next    = account->storage;
     account->storage = storage;
   }
+  memcpy(storage->value, value, 32);
 }
 static bytes_t get_code(evmone_context_t* ctx, const address_t address) {
   changed_account_t* changed_account = get_changed_account(ctx, address);
-- 
2.43.0


From 38e6dcddfcba3eeecdafcab30fcdd19212f71966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:24 +0000
Subject: [PATCH 127/138] fix: logs of nested calls made the list of logs
 endless or were freed twice, logs were returned in the wrong order and
 results of nested calls were not released

---
 src/chains/eth/verifier/call_ctx.h    | 13 +++++--------
 src/chains/eth/verifier/call_evmone.c | 11 +++++++++--
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index b356232..4587c87 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -284,14 +284,11 @@ static void context_apply(evmone_context_t* ctx) {
 
   // Transfer logs to parent if parent is capturing events
   if (ctx->parent->capture_events && ctx->logs) {
-    emitted_log_t* log = ctx->logs;
-    while (log) {
-      emitted_log_t* next = log->next;
-      log->next           = ctx->parent->logs;
-      ctx->parent->logs   = log;
-      log                 = next;
-    }
-    ctx->logs = NULL; // Prevent double-free
+    emitted_log_t* first = ctx->logs;
+    while (first->next) first = first->next;
+    first->next       = ctx->parent->logs;
+    ctx->parent->logs = ctx->logs;
+    ctx->logs         = NULL; // Prevent double-free
   }
 }
 
diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index be7d93d..72e11da 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -66,6 +66,7 @@ static const struct evmone_host_interface host_interface;
 
 static void add_evm_result(evmone_context_t* ctx, struct evmone_result* result) {
   evm_res_ptr_t* new_result = safe_malloc(sizeof(evm_res_ptr_t));
+  while (ctx->parent) ctx = ctx->parent; // the results are released at the end of the call
   new_result->result        = *result;
   new_result->next          = ctx->results;
   ctx->results              = new_result;
@@ -283,6 +284,7 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
   evmone_context_t child = *ctx;
   child.parent           = ctx;
   child.changed_accounts = NULL;
+  child.logs             = NULL;
 
   // Execute the code (now using fetched code if needed)
   evmone_result exec_result = evmone_execute(
@@ -581,8 +583,13 @@ INTERNAL c4_status_t eth_run_call_evmone_with_events(verify_ctx_t* ctx, call_cod
 
   // Return captured logs if requested
   if (logs && capture_events) {
-    *logs        = context.logs;
-    context.logs = NULL; // Prevent cleanup from freeing the logs
+    *logs = NULL;
+    while (context.logs) { // the last log comes first, but we return them in the order they were emitted (and cleanup must not free them)
+      emitted_log_t* log = context.logs;
+      context.logs       = log->next;
+      log->next          = *logs;
+      *logs              = log;
+    }
   }
 
   // Process the execution result
-- 
2.43.0


From bd57b1ebd165a4341706a66ebfb9bc8161a2555e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:24 +0000
Subject: [PATCH 128/138] fix: copying code from an offset behind its end read
 out of bounds

---
 src/chains/eth/verifier/call_evmone.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 72e11da..1941dbe 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -204,9 +204,9 @@ static size_t host_copy_code(void* context, const evmc_address* addr, size_t cod
   EVM_LOG("copy_code offset: %zu, buffer size: %zu", code_offset, buffer_size);
 
   bytes_t code      = get_code(ctx, addr->bytes);
-  size_t  copy_size = code.len - code_offset;
+  size_t  copy_size = code_offset < code.len ? code.len - code_offset : 0;
   if (buffer_size < copy_size) copy_size = buffer_size;
-  if (code.data) memcpy(buffer_data, code.data + code_offset, copy_size);
+  if (copy_size) memcpy(buffer_data, code.data + code_offset, copy_size);
 
   EVM_LOG("copy_code result: copied %zu bytes", copy_size);
   return copy_size;
-- 
2.43.0


From 093b958eef30798955a42f191f214920e16e9a0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:24 +0000
Subject: [PATCH 129/138] fix: changed accounts did not exist for the EVM, all
 others did, and accounts which do not exist had a code hash

---
 src/chains/eth/verifier/call_evmone.c | 30 +++++++++++++++++++++------
 1 file changed, 24 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 1941dbe..2c04221 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -84,14 +84,25 @@ static void debug_print_bytes32(const char* prefix, const evmc_bytes32* data) {
   fbprintf(stderr, "[EVM] %s: 0x%x\n", prefix, bytes(data->bytes, 32));
 }
 
-// Check if an account exists
+static evmc_bytes32 host_get_balance(void* context, const evmc_address* addr);
+
+// Check if an account exists (EIP-161: it has a balance, a code or a nonce)
 static bool host_account_exists(void* context, const evmc_address* addr) {
   evmone_context_t* ctx = (evmone_context_t*) context;
   debug_print_address("account_exists for", addr);
-  changed_account_t* ac = get_changed_account(ctx, addr->bytes);
-  if (ac) return ac->deleted;
-  bool exists = get_src_account(ctx, addr->bytes, false).def != NULL;
-  // TODO existance check over the values of the account!
+  evmc_bytes32       balance = host_get_balance(context, addr);
+  changed_account_t* ac      = get_changed_account(ctx, addr->bytes);
+  bool               exists  = !bytes_all_zero(bytes(balance.bytes, 32)) || (ac && ac->has_code && ac->code.len);
+  if (!exists) {
+    bytes32_t nonce     = {0};
+    bytes32_t code_hash = {0};
+    ssz_ob_t  account   = get_src_account(ctx, addr->bytes, false);
+    if (account.def) {
+      eth_get_account_value(account, ETH_ACCOUNT_NONCE, nonce);
+      eth_get_account_value(account, ETH_ACCOUNT_CODE_HASH, code_hash);
+      exists = !bytes_all_zero(bytes(nonce, 32)) || (!(ac && ac->has_code) && memcmp(code_hash, EMPTY_HASH, 32));
+    }
+  }
   EVM_LOG("account_exists result: %s", exists ? "true" : "false");
   return exists;
 }
@@ -191,7 +202,14 @@ static evmc_bytes32 host_get_code_hash(void* context, const evmc_address* addr)
   debug_print_address("get_code_hash for", addr);
 
   evmc_bytes32 result = {0};
-  keccak(get_code(ctx, addr->bytes), result.bytes);
+  if (host_account_exists(context, addr)) { // otherwise the hash is zero (EIP-1052)
+    changed_account_t* acc = get_changed_account(ctx, addr->bytes);
+    ssz_ob_t           account;
+    if (acc && acc->has_code)
+      keccak(acc->code, result.bytes);
+    else if ((account = get_src_account(ctx, addr->bytes, false)).def)
+      eth_get_account_value(account, ETH_ACCOUNT_CODE_HASH, result.bytes);
+  }
 
   debug_print_bytes32("get_code_hash result", &result);
   return result;
-- 
2.43.0


From 6e99875c936e28e42d8d6b0d4a024b66b404c10a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:25 +0000
Subject: [PATCH 130/138] fix: an override with an empty state was ignored

---
 src/chains/eth/verifier/call_evmone.c | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index 2c04221..f14ae2a 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -409,12 +409,10 @@ static void apply_state_overrides(evmone_context_t* context, const eth_state_ove
       acc->has_code  = true;
       acc->free_code = false;
     }
-    if (a->storage) {
-      acc->full_state_override = a->full_state;
-      for (const eth_storage_override_t* s = a->storage; s; s = s->next) {
-        bool tmp = false;
-        set_changed_storage(context, a->address, s->key, s->value, &tmp, &tmp);
-      }
+    if (a->full_state) acc->full_state_override = true; // also without any values
+    for (const eth_storage_override_t* s = a->storage; s; s = s->next) {
+      bool tmp = false;
+      set_changed_storage(context, a->address, s->key, s->value, &tmp, &tmp);
     }
   }
 }
-- 
2.43.0


From b5adf4b9bc4c32755cd688f074d38cc9a0a7eff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:25 +0000
Subject: [PATCH 131/138] fix: calls without a result were rejected

---
 src/chains/eth/verifier/verify_call.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/chains/eth/verifier/verify_call.c b/src/chains/eth/verifier/verify_call.c
index 81b5e42..d1a58ea 100644
--- a/src/chains/eth/verifier/verify_call.c
+++ b/src/chains/eth/verifier/verify_call.c
@@ -95,13 +95,13 @@ bool verify_call_proof(verify_ctx_t* ctx) {
 #else
   c4_status_t call_status = c4_state_add_error(&ctx->state, "no EVM is enabled, build with -DEVMONE=1");
 #endif
-  if (call_result.data && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
+  if (call_status == C4_SUCCESS && (ctx->data.def == NULL || ctx->data.def->type == SSZ_TYPE_NONE)) {
     ctx->data = (ssz_ob_t) {.bytes = call_result, .def = eth_ssz_verification_type(ETH_SSZ_DATA_BYTES)};
     ctx->flags |= VERIFY_FLAG_FREE_DATA;
     match = true;
   }
   else {
-    match = call_result.data && bytes_eq(call_result, ctx->data.bytes);
+    match = bytes_eq(call_result, ctx->data.bytes);
     safe_free(call_result.data);
   }
   eth_free_codes(call_codes);
-- 
2.43.0


From 6ef98fdabbbb1b51f849e33d488cdc10e77b015c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:25 +0000
Subject: [PATCH 132/138] fix: the output of precompiles called by a contract
 was never released

---
 src/chains/eth/verifier/call_evmone.c | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index f14ae2a..aea1174 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -58,16 +58,18 @@ typedef enum {
 
 typedef struct evm_res_ptr {
   struct evmone_result result;
+  uint8_t*             precompile_output; // output of a precompile, which is not owned by the EVM
   struct evm_res_ptr*  next;
 } evm_res_ptr_t;
 
 /* EVM Host interface implementation */
 static const struct evmone_host_interface host_interface;
 
-static void add_evm_result(evmone_context_t* ctx, struct evmone_result* result) {
+static void add_evm_result(evmone_context_t* ctx, struct evmone_result* result, uint8_t* precompile_output) {
   evm_res_ptr_t* new_result = safe_malloc(sizeof(evm_res_ptr_t));
   while (ctx->parent) ctx = ctx->parent; // the results are released at the end of the call
   new_result->result        = *result;
+  new_result->precompile_output = precompile_output;
   new_result->next          = ctx->results;
   ctx->results              = new_result;
 }
@@ -270,7 +272,7 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
       EVM_LOG("Precompile failed with status code: %d", pre_result);
       result->gas_left = 0;
     }
-    add_evm_result(ctx, result);
+    add_evm_result(ctx, result, output.data.data);
     return;
   }
 
@@ -324,7 +326,7 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
                exec_result.output_size > 64 ? "..." : "");
     }
   }
-  add_evm_result(ctx, &exec_result);
+  add_evm_result(ctx, &exec_result, NULL);
 
   if (exec_result.status_code == 0) {
     context_apply(&child);
@@ -650,6 +652,7 @@ INTERNAL c4_status_t eth_run_call_evmone_with_events(verify_ctx_t* ctx, call_cod
     evm_res_ptr_t* res  = (evm_res_ptr_t*) context.results;
     evm_res_ptr_t* next = res->next;
     evmone_release_result(&res->result);
+    safe_free(res->precompile_output);
     safe_free(res);
     context.results = next;
   }
-- 
2.43.0


From b63cd3db7f19f1a9ce15a91d7698668684cc7a3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:51:25 +0000
Subject: [PATCH 133/138] fix: the value of calls and the balance of destructed
 contracts was not moved

---
 src/chains/eth/verifier/call_ctx.h    |  1 -
 src/chains/eth/verifier/call_evmone.c | 55 +++++++++++++++++++++------
 2 files changed, 43 insertions(+), 13 deletions(-)

diff --git a/src/chains/eth/verifier/call_ctx.h b/src/chains/eth/verifier/call_ctx.h
index 4587c87..ec4d1c8 100644
--- a/src/chains/eth/verifier/call_ctx.h
+++ b/src/chains/eth/verifier/call_ctx.h
@@ -55,7 +55,6 @@ typedef struct changed_account {
   bool                    full_state_override;
   bool                    has_balance; // false: the balance is the one of the proof
   bool                    has_code;    // false: the code is the one of the proof
-  bool                    deleted;
   bool                    free_code;
 } changed_account_t;
 
diff --git a/src/chains/eth/verifier/call_evmone.c b/src/chains/eth/verifier/call_evmone.c
index aea1174..fb6834d 100644
--- a/src/chains/eth/verifier/call_evmone.c
+++ b/src/chains/eth/verifier/call_evmone.c
@@ -232,22 +232,44 @@ static size_t host_copy_code(void* context, const evmc_address* addr, size_t cod
   return copy_size;
 }
 
-// Handle selfdestruct operation
+// moves the value to the other account (from may be NULL, if the sender of the transaction is not part of the proof).
+static bool move_value(evmone_context_t* ctx, const evmc_address* from, const evmc_address* to, const uint8_t* value) {
+  if (bytes_all_zero(bytes(value, 32))) return true;
+  bool         created      = false;
+  evmc_bytes32 from_balance = {0};
+  evmc_bytes32 to_balance   = host_get_balance(ctx, to);
+  if (from) from_balance = host_get_balance(ctx, from);
+  if (from && memcmp(from_balance.bytes, value, 32) < 0) return false;
+  if (from && memcmp(from->bytes, to->bytes, 20) == 0) return true;
+  int borrow = 0, carry = 0;
+  for (int i = 31; i >= 0; i--) {
+    borrow                = (int) from_balance.bytes[i] - value[i] - borrow;
+    from_balance.bytes[i] = (uint8_t) borrow;
+    borrow                = borrow < 0;
+    carry += (int) to_balance.bytes[i] + value[i];
+    to_balance.bytes[i] = (uint8_t) carry;
+    carry >>= 8;
+  }
+  changed_account_t* acc = NULL;
+  if (from) {
+    acc = create_changed_account(ctx, from->bytes, &created);
+    memcpy(acc->balance, from_balance.bytes, 32);
+    acc->has_balance = true;
+  }
+  acc = create_changed_account(ctx, to->bytes, &created);
+  memcpy(acc->balance, to_balance.bytes, 32);
+  acc->has_balance = true;
+  return true;
+}
+
+// Handle selfdestruct operation (since EIP-6780 existing accounts are kept and only send their balance)
 static void host_selfdestruct(void* context, const evmc_address* addr, const evmc_address* beneficiary) {
   evmone_context_t* ctx = (evmone_context_t*) context;
   debug_print_address("selfdestruct account", addr);
   debug_print_address("selfdestruct beneficiary", beneficiary);
 
-  bool               created;
-  changed_account_t* acc = create_changed_account(ctx, addr->bytes, &created);
-  while (acc->storage) {
-    changed_storage_t* storage = acc->storage;
-    acc->storage               = storage->next;
-    safe_free(storage);
-  }
-  acc->deleted = true;
-
-  EVM_LOG("selfdestruct: account marked as deleted");
+  evmc_bytes32 balance = host_get_balance(context, addr);
+  move_value(ctx, addr, beneficiary, balance.bytes);
 }
 
 // Handle call to another contract
@@ -306,6 +328,12 @@ static void host_call(void* context, const struct evmone_message* msg, const uin
   child.changed_accounts = NULL;
   child.logs             = NULL;
 
+  if (msg->kind == CALL_KIND_CALL && !move_value(&child, &msg->sender, &msg->destination, msg->value.bytes)) {
+    context_free(&child);
+    *result = (struct evmone_result) {.status_code = 17, .gas_left = msg->gas}; // Insufficient balance
+    return;
+  }
+
   // Execute the code (now using fetched code if needed)
   evmone_result exec_result = evmone_execute(
       ctx->executor,
@@ -573,7 +601,10 @@ INTERNAL c4_status_t eth_run_call_evmone_with_events(verify_ctx_t* ctx, call_cod
 
   apply_state_overrides(&context, overrides);
 
-  bytes_t code = get_code(&context, to);
+  bool    known  = get_changed_account(&context, message.sender.bytes) || get_src_account(&context, message.sender.bytes, true).def;
+  bool    funded = move_value(&context, known ? &message.sender : NULL, &message.destination, message.value.bytes);
+  bytes_t code   = get_code(&context, to);
+  if (!funded && !ctx->state.error) ctx->state.error = strdup("Insufficient balance");
   EVM_LOG("Contract code size: %u bytes", (uint32_t) code.len);
 
   // Execute the code
-- 
2.43.0


From d3319ca2946ff61fe2101c247959a5dc52e76abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:58:44 +0000
Subject: [PATCH 134/138] fix: the result of a reverted simulation and the
 buffer for an invalid code from the node were not released

---
 src/chains/eth/verifier/eth_account.c     | 1 +
 src/chains/eth/verifier/verify_simulate.c | 1 +
 2 files changed, 2 insertions(+)

diff --git a/src/chains/eth/verifier/eth_account.c b/src/chains/eth/verifier/eth_account.c
index c9a9d44..137fc27 100644
--- a/src/chains/eth/verifier/eth_account.c
+++ b/src/chains/eth/verifier/eth_account.c
@@ -214,6 +214,7 @@ INTERNAL c4_status_t eth_get_call_codes(verify_ctx_t* ctx, call_code_t** call_co
           buffer_t code_data = {0};
           ac->code           = json_as_bytes(result, &code_data);
           ac->free           = true;
+          if (!ac->code.data) buffer_free(&code_data); // not valid hex
 
           keccak(ac->code, hash);
           if (memcmp(hash, ac->hash, 32) != 0) { // code hash mismatch
diff --git a/src/chains/eth/verifier/verify_simulate.c b/src/chains/eth/verifier/verify_simulate.c
index 2d97903..6a378b3 100644
--- a/src/chains/eth/verifier/verify_simulate.c
+++ b/src/chains/eth/verifier/verify_simulate.c
@@ -139,6 +139,7 @@ bool verify_simulate_proof(verify_ctx_t* ctx) {
 #endif
 
   if (call_status != C4_SUCCESS) {
+    safe_free(call_result.data);
     free_emitted_logs(logs);
     eth_free_codes(call_codes);
     eth_state_overrides_free(&overrides);
-- 
2.43.0


From 0bbabe9c04bfd455b221c515fab943fc2379e3c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:00:28 +0000
Subject: [PATCH 135/138] fix: the overrides before an invalid one were never
 released

---
 src/chains/eth/verifier/state_overrides.c | 65 ++++++-----------------
 1 file changed, 16 insertions(+), 49 deletions(-)

diff --git a/src/chains/eth/verifier/state_overrides.c b/src/chains/eth/verifier/state_overrides.c
index 43a752e..a8dc6e7 100644
--- a/src/chains/eth/verifier/state_overrides.c
+++ b/src/chains/eth/verifier/state_overrides.c
@@ -139,7 +139,7 @@ static c4_status_t validate_override_keys(c4_state_t* st, json_t override_obj) {
   return C4_SUCCESS;
 }
 
-c4_status_t eth_parse_state_overrides_state(c4_state_t* state, json_t overrides, eth_state_overrides_t* out) {
+static c4_status_t parse_state_overrides(c4_state_t* state, json_t overrides, eth_state_overrides_t* out) {
   c4_state_t* st = state;
   if (!out) return c4_state_add_error(st, "stateOverrides: invalid output pointer");
   memset(out, 0, sizeof(*out));
@@ -167,34 +167,26 @@ c4_status_t eth_parse_state_overrides_state(c4_state_t* state, json_t overrides,
 
     eth_account_override_t* acc = (eth_account_override_t*) safe_calloc(1, sizeof(eth_account_override_t));
     memcpy(acc->address, address, 20);
+    acc->next     = out->accounts;
+    out->accounts = acc;
 
     json_t balance = json_get(override_obj, "balance");
     if (balance.type != JSON_TYPE_NOT_FOUND && balance.type != JSON_TYPE_NULL) {
       char* err = (char*) json_validate(balance, "hexuint", "stateOverrides.balance");
-      if (err) {
-        safe_free(acc);
-        return c4_state_set_error_msg(st, err);
-      }
+      if (err) return c4_state_set_error_msg(st, err);
       c4_status_t s = parse_uint256_be(st, balance, acc->balance);
-      if (s != C4_SUCCESS) {
-        safe_free(acc);
-        return s;
-      }
+      if (s != C4_SUCCESS) return s;
       acc->has_balance = true;
     }
 
     json_t code = json_get(override_obj, "code");
     if (code.type != JSON_TYPE_NOT_FOUND && code.type != JSON_TYPE_NULL) {
       char* err = (char*) json_validate(code, "bytes", "stateOverrides.code");
-      if (err) {
-        safe_free(acc);
-        return c4_state_set_error_msg(st, err);
-      }
+      if (err) return c4_state_set_error_msg(st, err);
       buffer_t tmp = {0};
       bytes_t  c   = json_as_bytes(code, &tmp);
       if (!c.data) {
         buffer_free(&tmp);
-        safe_free(acc);
         return c4_state_set_error_msg(st, bprintf(NULL, "stateOverrides: invalid 'code' value"));
       }
       acc->code     = bytes_dup(c);
@@ -204,54 +196,29 @@ c4_status_t eth_parse_state_overrides_state(c4_state_t* state, json_t overrides,
 
     if (has_state) {
       char* err = (char*) json_validate(state_obj, "{*:bytes32}", "stateOverrides.state");
-      if (err) {
-        safe_free(acc);
-        return c4_state_set_error_msg(st, err);
-      }
+      if (err) return c4_state_set_error_msg(st, err);
       acc->full_state = true;
       c4_status_t s   = parse_storage_map(st, state_obj, &acc->storage);
-      if (s != C4_SUCCESS) {
-        if (acc->storage) {
-          eth_storage_override_t* cur = acc->storage;
-          while (cur) {
-            eth_storage_override_t* next = cur->next;
-            safe_free(cur);
-            cur = next;
-          }
-        }
-        safe_free(acc);
-        return s;
-      }
+      if (s != C4_SUCCESS) return s;
     }
     else if (has_stateDiff) {
       char* err = (char*) json_validate(state_diff_obj, "{*:bytes32}", "stateOverrides.stateDiff");
-      if (err) {
-        safe_free(acc);
-        return c4_state_set_error_msg(st, err);
-      }
+      if (err) return c4_state_set_error_msg(st, err);
       acc->full_state = false;
       c4_status_t s   = parse_storage_map(st, state_diff_obj, &acc->storage);
-      if (s != C4_SUCCESS) {
-        if (acc->storage) {
-          eth_storage_override_t* cur = acc->storage;
-          while (cur) {
-            eth_storage_override_t* next = cur->next;
-            safe_free(cur);
-            cur = next;
-          }
-        }
-        safe_free(acc);
-        return s;
-      }
+      if (s != C4_SUCCESS) return s;
     }
-
-    acc->next     = out->accounts;
-    out->accounts = acc;
   }
 
   return C4_SUCCESS;
 }
 
+c4_status_t eth_parse_state_overrides_state(c4_state_t* state, json_t overrides, eth_state_overrides_t* out) {
+  c4_status_t status = parse_state_overrides(state, overrides, out);
+  if (status != C4_SUCCESS) eth_state_overrides_free(out); // also the accounts parsed before the invalid one
+  return status;
+}
+
 c4_status_t eth_parse_state_overrides(verify_ctx_t* ctx, json_t overrides, eth_state_overrides_t* out) {
   if (!ctx) return C4_ERROR;
   return eth_parse_state_overrides_state(&ctx->state, overrides, out);
-- 
2.43.0


From 338538c45484f6e6d828db02d253fa556450615e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:30:44 +0000
Subject: [PATCH 136/138] fix: calls with state overrides could not be proven
 and access lists without the called contract gave proofs nobody could verify

---
 src/chains/eth/prover/proof_call.c | 50 +++++++++++++++++++++++-------
 1 file changed, 39 insertions(+), 11 deletions(-)

diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index 87babd0..81c7a47 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -73,7 +73,6 @@ static c4_status_t create_eth_call_proof(prover_ctx_t* ctx, ssz_builder_t accoun
 }
 
 static void add_account(prover_ctx_t* ctx, ssz_builder_t* builder, json_t values, bytes_t address, json_t code, int accounts_len) {
-  builder->def                  = ssz_get_def(eth_ssz_verification_type(ETH_SSZ_VERIFY_CALL_PROOF), "accounts");
   bytes_t          key          = {0};
   buffer_t         buf          = {0};
   ssz_builder_t    account      = ssz_builder_for_def(builder->def->def.vector.type);
@@ -205,16 +204,39 @@ static c4_status_t handle_access_list(prover_ctx_t* ctx, json_t storage, bytes_t
   return C4_SUCCESS;
 }
 
+static bool access_list_contains(json_t access_list, bytes_t address) {
+  bool found = false;
+  json_for_each_value(access_list, values) {
+    address_t listed = {0};
+    buffer_t  buf    = stack_buffer(listed);
+    if (json_get_bytes(values, "address", &buf).len == 20 && memcmp(listed, address.data, 20) == 0) found = true;
+  }
+  return found;
+}
+
 c4_status_t c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64_t block_number, ssz_builder_t* builder, address_t miner, const eth_state_overrides_t* overrides) {
-  c4_status_t status       = C4_SUCCESS;
-  json_t      eth_proof    = {0};
-  bytes_t     account      = {0};
-  uint8_t     address[20]  = {0};
-  int         accounts_len = 0;
-
-  if (ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST) {
-    json_t access_list = json_get(trace, "accessList");
-    accounts_len       = json_len(access_list);
+  c4_status_t status          = C4_SUCCESS;
+  bytes_t     account         = {0};
+  uint8_t     address[20]     = {0};
+  int         accounts_len    = 0;
+  bool        use_access_list = overrides || (ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST);
+  builder->def                = ssz_get_def(eth_ssz_verification_type(ETH_SSZ_VERIFY_CALL_PROOF), "accounts");
+
+  if (use_access_list) {
+    json_t  access_list = json_get(trace, "accessList");
+    json_t  parties[2]  = {json_get(tx, "to"), json_get(tx, "from")}; // nodes list them only if their storage is used
+    uint8_t to[20]      = {0};
+    int     missing     = 0;
+    for (int i = 0; i < 2; i++) {
+      buffer_t buf  = stack_buffer(address);
+      bytes_t  addr = json_as_bytes(parties[i], &buf);
+      if (addr.len != 20 || access_list_contains(access_list, addr) || (i && memcmp(addr.data, to, 20) == 0))
+        parties[i].type = JSON_TYPE_NOT_FOUND;
+      else
+        missing++;
+      if (i == 0 && addr.len == 20) memcpy(to, addr.data, 20);
+    }
+    accounts_len = json_len(access_list) + missing;
     json_for_each_value(access_list, values) {
       buffer_t buf  = stack_buffer(address);
       json_t   addr = json_get(values, "address");
@@ -222,6 +244,12 @@ c4_status_t c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64
       json_as_bytes(addr, &buf);
       TRY_ADD_ASYNC(status, handle_access_list(ctx, json_get(values, "storageKeys"), account, (json_t) {0}, accounts_len, block_number, address, builder, overrides));
     }
+    for (int i = 0; i < 2; i++) {
+      if (parties[i].type != JSON_TYPE_STRING) continue;
+      buffer_t buf = stack_buffer(address);
+      json_as_bytes(parties[i], &buf);
+      TRY_ADD_ASYNC(status, handle_access_list(ctx, (json_t) {.type = JSON_TYPE_NOT_FOUND}, bytes(parties[i].start + 1, parties[i].len - 2), (json_t) {0}, accounts_len, block_number, address, builder, overrides));
+    }
   }
   else {
     json_for_each_property(trace, values, account) {
@@ -239,7 +267,7 @@ c4_status_t c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64
   // if we know, that we just started the eth_getProof requests,
   // and there are no other requests to start, we can already set the worker thread flag
   // so next execution will be in a worker thread so we don't have to go through all to reach this point.
-  if (status == C4_PENDING && ((ctx->flags & C4_PROVER_FLAG_INCLUDE_CODE) ? (ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST) == 0 : true))
+  if (status == C4_PENDING && ((ctx->flags & C4_PROVER_FLAG_INCLUDE_CODE) ? !use_access_list : true))
     REQUEST_WORKER_THREAD(ctx);
 
   return status;
-- 
2.43.0


From 4b8958e4341311445050a51d3c2b844c975715b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:37:38 +0000
Subject: [PATCH 137/138] fix: accounts, block proof and overrides of a call
 were not released if the sync data or one of the requests failed

---
 src/chains/eth/prover/proof_call.c | 57 ++++++++++++++++--------------
 1 file changed, 30 insertions(+), 27 deletions(-)

diff --git a/src/chains/eth/prover/proof_call.c b/src/chains/eth/prover/proof_call.c
index 81c7a47..ec661dd 100644
--- a/src/chains/eth/prover/proof_call.c
+++ b/src/chains/eth/prover/proof_call.c
@@ -52,7 +52,7 @@ static void add_dynamic_byte_list(json_t bytes_list, ssz_builder_t* builder, cha
   buffer_free(&tmp);
 }
 
-static c4_status_t create_eth_call_proof(prover_ctx_t* ctx, ssz_builder_t account_proofs, beacon_block_t* block_data, json_t block_number, blockroot_proof_t* historic_proof) {
+static c4_status_t create_eth_call_proof(prover_ctx_t* ctx, ssz_builder_t* account_proofs, beacon_block_t* block_data, json_t block_number, blockroot_proof_t* historic_proof) {
 
   ssz_builder_t eth_call_proof = ssz_builder_for_type(ETH_SSZ_VERIFY_CALL_PROOF);
   ssz_builder_t sync_proof     = NULL_SSZ_BUILDER;
@@ -60,7 +60,8 @@ static c4_status_t create_eth_call_proof(prover_ctx_t* ctx, ssz_builder_t accoun
   // get the sync_proof if needed
   TRY_ASYNC(c4_get_syncdata_proof(ctx, &historic_proof->sync, &sync_proof));
 
-  ssz_add_builders(&eth_call_proof, "accounts", account_proofs);
+  ssz_add_builders(&eth_call_proof, "accounts", *account_proofs);
+  *account_proofs = NULL_SSZ_BUILDER; // it was released with adding it
   ssz_add_builders(&eth_call_proof, "state_proof", eth_ssz_create_state_proof(ctx, block_number, block_data, historic_proof));
 
   ctx->proof = eth_create_proof_request(
@@ -273,26 +274,23 @@ c4_status_t c4_get_eth_proofs(prover_ctx_t* ctx, json_t tx, json_t trace, uint64
   return status;
 }
 
-c4_status_t c4_proof_call(prover_ctx_t* ctx) {
-  json_t                tx               = json_at(ctx->params, 0);
-  json_t                block_number     = json_at(ctx->params, 1);
-  json_t                state_overrides  = json_at(ctx->params, 2);
-  beacon_block_t        block            = {0};
-  json_t                trace            = {0};
-  ssz_builder_t         accounts         = {0};
-  blockroot_proof_t     historic_proof   = {0};
-  c4_status_t           status           = C4_SUCCESS;
-  eth_state_overrides_t overrides_parsed = {0};
-  bool                  has_overrides    = state_overrides.type == JSON_TYPE_OBJECT;
+static c4_status_t create_proof(prover_ctx_t* ctx, ssz_builder_t* accounts, blockroot_proof_t* historic_proof, eth_state_overrides_t* overrides) {
+  json_t         tx              = json_at(ctx->params, 0);
+  json_t         block_number    = json_at(ctx->params, 1);
+  json_t         state_overrides = json_at(ctx->params, 2);
+  beacon_block_t block           = {0};
+  json_t         trace           = {0};
+  c4_status_t    status          = C4_SUCCESS;
+  bool           has_overrides   = state_overrides.type == JSON_TYPE_OBJECT;
 
   // Validate arguments before processing
   TRACE_START(ctx, "get_block_for_eth");
   CHECK_JSON(ctx->params, "[{to:address,data:bytes,gas?:hexuint,value?:hexuint,gasPrice?:hexuint,from?:address},block,{*:{balance?:hexuint,code?:bytes,state?:{*:bytes32},stateDiff?:{*:bytes32}}}?]", "Invalid transaction");
-  if (has_overrides) TRY_ASYNC(eth_parse_state_overrides_state(&ctx->state, state_overrides, &overrides_parsed));
+  if (has_overrides) TRY_ASYNC(eth_parse_state_overrides_state(&ctx->state, state_overrides, overrides));
 
-  TRY_ASYNC_CATCH(c4_beacon_get_block_for_eth(ctx, block_number, &block), eth_state_overrides_free(&overrides_parsed)); // get the beacon-block matching the block-tag (usually cached)
-  uint64_t target_block = ssz_get_uint64(&block.execution, "blockNumber");                                              // this is our blocknumber now
-  bytes_t  miner        = ssz_get(&block.execution, "feeRecipient").bytes;                                              // we exclude accounts from the miner address, since mining is not part of an eth_call proof
+  TRY_ASYNC(c4_beacon_get_block_for_eth(ctx, block_number, &block));       // get the beacon-block matching the block-tag (usually cached)
+  uint64_t target_block = ssz_get_uint64(&block.execution, "blockNumber"); // this is our blocknumber now
+  bytes_t  miner        = ssz_get(&block.execution, "feeRecipient").bytes; // we exclude accounts from the miner address, since mining is not part of an eth_call proof
   TRACE_ADD_UINT64(ctx, "target_block", target_block);
 
   TRACE_START(ctx, "fetch access list and eth_getProof");
@@ -301,20 +299,25 @@ c4_status_t c4_proof_call(prover_ctx_t* ctx) {
     TRY_ADD_ASYNC(status, eth_create_access_list(ctx, tx, &trace, target_block, state_overrides));
   else
     TRY_ADD_ASYNC(status, ctx->flags & C4_PROVER_FLAG_USE_ACCESSLIST ? eth_create_access_list(ctx, tx, &trace, target_block, (json_t) {0}) : eth_debug_trace_call(ctx, tx, &trace, target_block));
-  TRY_ADD_ASYNC(status, c4_check_blockroot_proof(ctx, &historic_proof, &block));
-  TRY_ASYNC_CATCH(status, c4_free_block_proof(&historic_proof); eth_state_overrides_free(&overrides_parsed));
-  TRY_ASYNC_CATCH(
-      c4_get_eth_proofs(ctx, tx, trace, target_block, &accounts, miner.data, has_overrides ? &overrides_parsed : NULL),
-      ssz_builder_free(&accounts);
-      c4_free_block_proof(&historic_proof); eth_state_overrides_free(&overrides_parsed););
+  TRY_ADD_ASYNC(status, c4_check_blockroot_proof(ctx, historic_proof, &block));
+  TRY_ASYNC(status);
+  TRY_ASYNC(c4_get_eth_proofs(ctx, tx, trace, target_block, accounts, miner.data, has_overrides ? overrides : NULL));
 
   // creating the proof is too heavy to do in the eventloop
-  REQUEST_WORKER_THREAD_CATCH(ctx, ssz_builder_free(&accounts); c4_free_block_proof(&historic_proof); eth_state_overrides_free(&overrides_parsed););
+  REQUEST_WORKER_THREAD(ctx);
 
   TRACE_START(ctx, "create proof");
-  status = create_eth_call_proof(ctx, accounts, &block, block_number, &historic_proof);
-  c4_free_block_proof(&historic_proof);
-  eth_state_overrides_free(&overrides_parsed);
+  return create_eth_call_proof(ctx, accounts, &block, block_number, historic_proof);
+}
 
+c4_status_t c4_proof_call(prover_ctx_t* ctx) {
+  ssz_builder_t         accounts       = {0};
+  blockroot_proof_t     historic_proof = {0};
+  eth_state_overrides_t overrides      = {0};
+  c4_status_t           status         = create_proof(ctx, &accounts, &historic_proof, &overrides);
+
+  ssz_builder_free(&accounts);
+  c4_free_block_proof(&historic_proof);
+  eth_state_overrides_free(&overrides);
   return status;
 }
-- 
2.43.0


From 41fbf4edb897904e18e770a188df3073c80c4ae4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:53:36 +0000
Subject: [PATCH 138/138] fix: logging an access list read its bytes from an
 invalid address

---
 src/chains/eth/prover/eth_req.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/chains/eth/prover/eth_req.c b/src/chains/eth/prover/eth_req.c
index 3ca6e9f..16e4db8 100644
--- a/src/chains/eth/prover/eth_req.c
+++ b/src/chains/eth/prover/eth_req.c
@@ -144,7 +144,7 @@ c4_status_t eth_create_access_list(prover_ctx_t* ctx, json_t tx, json_t* trace,
     TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, "eth_createAccessList", bprintf(&buf, "[%J},\"0x%lx\",%J]", tx, block_number, state_overrides), 12, trace, &req), buffer_free(&buf));
   else
     TRY_ASYNC_FINAL(c4_send_eth_rpc(ctx, "eth_createAccessList", bprintf(&buf, "[%J},\"0x%lx\"]", tx, block_number), 12, trace, &req), buffer_free(&buf));
-  log_debug("access list: %j", trace);
+  log_debug("access list: %j", *trace);
   if (req && !req->validated) {
     CHECK_JSON(*trace, JSON_ACCESS_LIST_FIELDS, "Invalid results for access list: ");
     req->validated = true;
-- 
2.43.0

