From 715f872453a5839590990fda7e585fafc0e052ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 01/64] fix: trie update writes past the caller's keys and
 values

---
 pkg/mapserver/trie/trie.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 323dd11..14b92bd 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -596,8 +596,10 @@ func (s *Trie) leafHash(key, value, oldRoot []byte, batch [][]byte, iBatch, heig
 	// shortcut batch of different height, if would be deleted when reverting.
 	h := s.hash(key, value, []byte{byte(height)})
 	h = append(h, byte(1)) // byte(1) is a flag for the shortcut
-	batch[2*iBatch+2] = append(value, byte(2))
-	batch[2*iBatch+1] = append(key, byte(2))
+	// Limit the capacity before appending: the key and value belong to the caller, and the flag must
+	// not be written into the memory that follows them.
+	batch[2*iBatch+2] = append(value[:len(value):len(value)], byte(2))
+	batch[2*iBatch+1] = append(key[:len(key):len(key)], byte(2))
 	if height%4 == 0 {
 		batch[0] = []byte{1} // byte(1) is a flag for the shortcut batch
 		s.storeNode(batch, h, oldRoot, height)
-- 
2.43.0


From eb88b0833f293851c7dcc4c2026f45ffa52224ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 02/64] fix: deleting a shortcut key amid other keys re-adds it
 and duplicates the batch

---
 pkg/mapserver/trie/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 14b92bd..0c93e81 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -485,6 +485,7 @@ func (s *Trie) maybeAddShortcutToKV(keys, values [][]byte, shortcutKey, shortcut
 				newKeys = append(newKeys, keys[i+1:]...)
 				newValues = append(newValues, values[:i]...)
 				newValues = append(newValues, values[i+1:]...)
+				break
 			}
 			if !higher && bytes.Compare(shortcutKey, key) > 0 {
 				higher = true
-- 
2.43.0


From a554129a31c0146b1250502de6078f9c91738257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:12 +0000
Subject: [PATCH 03/64] fix: unchanged or reverted trie nodes are removed from
 the store at commit

---
 pkg/mapserver/trie/trie.go       | 22 +++++++++++++---------
 pkg/mapserver/trie/trie_cache.go |  7 +++++++
 2 files changed, 20 insertions(+), 9 deletions(-)

diff --git a/pkg/mapserver/trie/trie.go b/pkg/mapserver/trie/trie.go
index 0c93e81..ed349ff 100644
--- a/pkg/mapserver/trie/trie.go
+++ b/pkg/mapserver/trie/trie.go
@@ -610,15 +610,19 @@ func (s *Trie) leafHash(key, value, oldRoot []byte, batch [][]byte, iBatch, heig
 
 // storeNode stores a batch and deletes the old node from cache
 func (s *Trie) storeNode(batch [][]byte, h, oldRoot []byte, height int) {
-	if !bytes.Equal(h, oldRoot) {
-		var node Hash
-		copy(node[:], h)
-		// record new node
-		s.db.updateUpdateNodes(node, batch)
-		// Cache the shortcut node if it's height is over CacheHeightLimit
-		if height >= s.CacheHeightLimit {
-			s.db.updateLiveCache(node, batch)
-		}
+	var node Hash
+	copy(node[:], h)
+	// The node is part of the trie again: it must survive the next commit even if this or a previous
+	// uncommitted update scheduled its removal (e.g. because the node did not change at all).
+	s.db.cancelRemoveNode(node)
+	// record new node
+	s.db.updateUpdateNodes(node, batch)
+	// Cache the shortcut node if it's height is over CacheHeightLimit
+	if height >= s.CacheHeightLimit {
+		s.db.updateLiveCache(node, batch)
+	}
+	// The root of the trie comes without the flag byte.
+	if len(oldRoot) < HashLength || !bytes.Equal(h[:HashLength], oldRoot[:HashLength]) {
 		s.deleteOldNode(oldRoot, height, false)
 	}
 }
diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index d1223c7..da7d1bb 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -199,3 +199,10 @@ func (db *CacheDB) addRemoveNode(node common.SHA256Output) {
 	db.removedNode[node] = []byte{0}
 	db.removeMux.Unlock()
 }
+
+// cancelRemoveNode: the node is in use again, do not remove it
+func (db *CacheDB) cancelRemoveNode(node common.SHA256Output) {
+	db.removeMux.Lock()
+	delete(db.removedNode, node)
+	db.removeMux.Unlock()
+}
-- 
2.43.0


From 09331ecb8ebe05972e40fd4fd618e66660b9b22b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 04/64] fix: proof verification accepts paths of wrong shape
 and the own leaf as absence

---
 pkg/mapserver/trie/trie_merkle_proof.go | 63 +++++++++++++++++++++++++
 1 file changed, 63 insertions(+)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index dac3d6b..948fb23 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -129,6 +129,9 @@ func (s *Trie) merkleProof(ctx context.Context, auditPath *[][]byte, root, key [
 
 // VerifyInclusion verifies that key/value is included in the trie with latest root
 func VerifyInclusion(root []byte, ap [][]byte, key, value []byte) bool {
+	if len(key) != HashLength || len(value) != HashLength || !validAuditPath(ap) {
+		return false
+	}
 	leafHash := common.SHA256Hash(key, value, []byte{byte(256 - len(ap))})
 	return bytes.Equal(root, verifyInclusion(ap, 0, key, leafHash))
 }
@@ -144,9 +147,27 @@ func verifyInclusion(ap [][]byte, keyIndex int, key, leafHash []byte) []byte {
 	return common.SHA256Hash(verifyInclusion(ap, keyIndex+1, key, leafHash), ap[len(ap)-keyIndex-1])
 }
 
+// validAuditPath returns true if the audit path is not longer than the tree is high, and it contains
+// only the hash of a node or the default leaf at each level. Elements of any other length would
+// allow to present the input of a hash with other boundaries than those of the actual tree node.
+func validAuditPath(ap [][]byte) bool {
+	if len(ap) > HashLength*8 {
+		return false
+	}
+	for _, node := range ap {
+		if len(node) != HashLength && !bytes.Equal(node, DefaultLeaf) {
+			return false
+		}
+	}
+	return true
+}
+
 // VerifyNonInclusion verifies a proof of non inclusion,
 // Returns true if the non-inclusion is verified
 func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) bool {
+	if len(key) != HashLength || !validAuditPath(ap) {
+		return false
+	}
 	if root == nil {
 		return true
 	}
@@ -155,6 +176,10 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 		// return true if a DefaultLeaf in the key path is included in the trie
 		return bytes.Equal(root, verifyInclusion(ap, 0, key, DefaultLeaf))
 	}
+	// The leaf of the key itself doesn't prove its absence.
+	if bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if another kv leaf is on the key path in 2 steps
 	// 1- Check the proof leaf exists
 	if !VerifyInclusion(root, ap, proofKey, value) {
@@ -175,10 +200,38 @@ func VerifyNonInclusion(root []byte, ap [][]byte, key, value, proofKey []byte) b
 
 // VerifyInclusionC verifies that key/value is included in the trie with latest root
 func (s *Trie) VerifyInclusionC(bitmap, key, value []byte, ap [][]byte, length int) bool {
+	if len(key) != HashLength || len(value) != HashLength ||
+		!s.validCompressedPath(bitmap, ap, length) {
+
+		return false
+	}
 	leafHash := s.hash(key, value, []byte{byte(s.TrieHeight - length)})
 	return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, leafHash, ap, length, 0, 0))
 }
 
+// validCompressedPath is the equivalent of validAuditPath for compressed proofs: each bit set in the
+// bitmap stands for one node hash in ap.
+func (s *Trie) validCompressedPath(bitmap []byte, ap [][]byte, length int) bool {
+	if length < 0 || length > s.TrieHeight || len(bitmap)*8 < length {
+		return false
+	}
+	count := 0
+	for i := 0; i < length; i++ {
+		if bitIsSet(bitmap, i) {
+			count++
+		}
+	}
+	if count != len(ap) {
+		return false
+	}
+	for _, node := range ap {
+		if len(node) != HashLength {
+			return false
+		}
+	}
+	return true
+}
+
 // verifyInclusionC returns the merkle root by hashing the merkle proof items
 func (s *Trie) verifyInclusionC(bitmap, key, leafHash []byte, ap [][]byte, length, keyIndex, apIndex int) []byte {
 	if keyIndex == length {
@@ -200,11 +253,21 @@ func (s *Trie) verifyInclusionC(bitmap, key, leafHash []byte, ap [][]byte, lengt
 // VerifyNonInclusionC verifies a proof of non inclusion,
 // Returns true if the non-inclusion is verified
 func (s *Trie) VerifyNonInclusionC(ap [][]byte, length int, bitmap, key, value, proofKey []byte) bool {
+	if len(key) != HashLength || !s.validCompressedPath(bitmap, ap, length) {
+		return false
+	}
+	if s.Root == nil {
+		return true
+	}
 	// Check if an empty subtree is on the key path
 	if len(proofKey) == 0 {
 		// return true if a DefaultLeaf in the key path is included in the trie
 		return bytes.Equal(s.Root, s.verifyInclusionC(bitmap, key, DefaultLeaf, ap, length, 0, 0))
 	}
+	// The leaf of the key itself doesn't prove its absence.
+	if bytes.Equal(key, proofKey) {
+		return false
+	}
 	// Check if another kv leaf is on the key path in 2 steps
 	// 1- Check the proof leaf exists
 	if !s.VerifyInclusionC(bitmap, proofKey, value, ap, length) {
-- 
2.43.0


From 6eabbed0258dc3ddf9a84817719989b4436cc949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:34 +0000
Subject: [PATCH 05/64] fix: verifying a response without domain entry crashes
 the client

---
 pkg/mapserver/prover/prover.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/mapserver/prover/prover.go b/pkg/mapserver/prover/prover.go
index 44902f7..1ae776e 100644
--- a/pkg/mapserver/prover/prover.go
+++ b/pkg/mapserver/prover/prover.go
@@ -12,6 +12,9 @@ import (
 // VerifyProofByDomain verifies the MapServerResponse (received from map server),
 // and returns the type of proof, and proofing result.
 func VerifyProofByDomain(response *mapCommon.MapServerResponse) (mapCommon.ProofType, bool, error) {
+	if response == nil || response.DomainEntry == nil {
+		return 0, false, fmt.Errorf("incomplete response: no domain entry")
+	}
 	if response.PoI.ProofType == mapCommon.PoP {
 		if !bytes.Equal(response.DomainEntry.DomainValue[:], response.PoI.ProofValue) {
 			return 0, false, fmt.Errorf("different hash for value %s != %s",
-- 
2.43.0


From 573495b4bc43a3c4f3fbe1d3ac02e862218503ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:37 +0000
Subject: [PATCH 06/64] fix: a failed trie commit loses the pending nodes

---
 pkg/mapserver/trie/trie_cache.go | 62 +++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 25 deletions(-)

diff --git a/pkg/mapserver/trie/trie_cache.go b/pkg/mapserver/trie/trie_cache.go
index da7d1bb..4755c1e 100644
--- a/pkg/mapserver/trie/trie_cache.go
+++ b/pkg/mapserver/trie/trie_cache.go
@@ -55,46 +55,58 @@ func NewCacheDB(store DBConn) (*CacheDB, error) {
 	}, nil
 }
 
-// commitChangesToDB stores the updated nodes to disk.
+// commitChangesToDB stores the updated nodes to disk, and removes the obsolete ones.
+// The pending changes are forgotten only once they are in the store, so that a failed commit can be
+// repeated.
 func (cacheDB *CacheDB) commitChangesToDB(ctx context.Context) error {
-	// prepare value to store
-	updatesToDB := []*db.TreeNodeRecord{}
-	keysToDelete := []common.SHA256Output{}
+	if err := cacheDB.storeUpdatedNodes(ctx); err != nil {
+		return err
+	}
+	return cacheDB.deleteRemovedNodes(ctx)
+}
+
+// storeUpdatedNodes stores the updated nodes to disk. It doesn't remove any node.
+func (cacheDB *CacheDB) storeUpdatedNodes(ctx context.Context) error {
+	// lock the db; other thread should not read or write to db during the updates
+	cacheDB.wholeCacheDBLock.Lock()
+	defer cacheDB.wholeCacheDBLock.Unlock()
 
-	// get nodes from update map
 	cacheDB.updatedMux.Lock()
+	defer cacheDB.updatedMux.Unlock()
+
+	updatesToDB := make([]*db.TreeNodeRecord, 0, len(cacheDB.updatedNodes))
 	for k, v := range cacheDB.updatedNodes {
 		updatesToDB = append(updatesToDB, &db.TreeNodeRecord{Key: k, Value: serializeBatch(v)})
 	}
+	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
+	if err != nil {
+		return fmt.Errorf("commitChangesToDB | UpdateKeyValuePairBatches | %w", err)
+	}
 	cacheDB.updatedNodes = make(map[Hash][][]byte)
-	cacheDB.updatedMux.Unlock()
+	return nil
+}
+
+// deleteRemovedNodes removes from disk those nodes that are not part of the tree anymore.
+func (cacheDB *CacheDB) deleteRemovedNodes(ctx context.Context) error {
+	// lock the db; other thread should not read or write to db during the updates
+	cacheDB.wholeCacheDBLock.Lock()
+	defer cacheDB.wholeCacheDBLock.Unlock()
 
-	// get nodes from remove map
 	cacheDB.removeMux.Lock()
+	defer cacheDB.removeMux.Unlock()
 
+	if len(cacheDB.removedNode) == 0 {
+		return nil
+	}
+	keysToDelete := make([]common.SHA256Output, 0, len(cacheDB.removedNode))
 	for k := range cacheDB.removedNode {
 		keysToDelete = append(keysToDelete, k)
 	}
-
-	cacheDB.removedNode = make(map[Hash][]byte)
-	cacheDB.removeMux.Unlock()
-
-	// lock the db; other thread should not read or write to db during the updates
-	cacheDB.wholeCacheDBLock.Lock()
-	defer cacheDB.wholeCacheDBLock.Unlock()
-
-	_, err := cacheDB.Store.UpdateTreeNodes(ctx, updatesToDB)
+	_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete)
 	if err != nil {
-		return fmt.Errorf("commitChangesToDB | UpdateKeyValuePairBatches | %w", err)
-	}
-
-	if len(keysToDelete) > 0 {
-		_, err := cacheDB.Store.DeleteTreeNodes(ctx, keysToDelete)
-		if err != nil {
-			return fmt.Errorf("commitChangesToDB | DeleteKeyValuePairBatches | %w", err)
-		}
+		return fmt.Errorf("commitChangesToDB | DeleteKeyValuePairBatches | %w", err)
 	}
-
+	cacheDB.removedNode = make(map[Hash][]byte)
 	return nil
 }
 
-- 
2.43.0


From b95f7cd00f3617afcf39b7ef0675d43f3eaaa3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:53 +0000
Subject: [PATCH 07/64] fix: reading the trie concurrently writes to it

---
 pkg/mapserver/trie/trie_merkle_proof.go | 20 ++++++++++++++------
 pkg/mapserver/trie/trie_tools.go        |  1 -
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/pkg/mapserver/trie/trie_merkle_proof.go b/pkg/mapserver/trie/trie_merkle_proof.go
index 948fb23..53e2ed6 100644
--- a/pkg/mapserver/trie/trie_merkle_proof.go
+++ b/pkg/mapserver/trie/trie_merkle_proof.go
@@ -19,7 +19,9 @@ import (
 // on the path of the non-included key, 3- (nil, nil) for a non-included key
 // with a DefaultLeaf on the path
 func (s *Trie) MerkleProof(ctx context.Context, key []byte) ([][]byte, bool, []byte, []byte, error) {
-	return s.MerkleProofR(ctx, key, s.Root)
+	s.lock.RLock()
+	defer s.lock.RUnlock()
+	return s.plainMerkleProof(ctx, key, s.Root)
 }
 
 // MerkleProofPast generates a Merkle proof of inclusion or non-inclusion
@@ -29,29 +31,35 @@ func (s *Trie) MerkleProof(ctx context.Context, key []byte) ([][]byte, bool, []b
 // on the path of the non-included key, 3- (nil, nil) for a non-included key
 // with a DefaultLeaf on the path
 func (s *Trie) MerkleProofR(ctx context.Context, key, root []byte) ([][]byte, bool, []byte, []byte, error) {
-	auditPath := make([][]byte, 0, 32) // 32 levels should cover the whole tree: no new allocations
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false // so loadChildren doesn't return a copy
+	return s.plainMerkleProof(ctx, key, root)
+}
+
+// plainMerkleProof expects the caller to hold the lock.
+func (s *Trie) plainMerkleProof(ctx context.Context, key, root []byte) ([][]byte, bool, []byte, []byte, error) {
+	auditPath := make([][]byte, 0, 32) // 32 levels should cover the whole tree: no new allocations
 	included, newKey, value, err := s.merkleProof(ctx, &auditPath, root, key, nil, s.TrieHeight, 0)
 	return auditPath, included, newKey, value, err
 }
 
 // MerkleProofCompressed returns a compressed merkle proof in the given trie
 func (s *Trie) MerkleProofCompressedR(ctx context.Context, key, root []byte) ([]byte, [][]byte, int, bool, []byte, []byte, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return s.merkleProofCompressed(ctx, key, root)
 }
 
 // MerkleProofCompressed returns a compressed merkle proof
 func (s *Trie) MerkleProofCompressed(ctx context.Context, key []byte) ([]byte, [][]byte, int, bool, []byte, []byte, error) {
+	s.lock.RLock()
+	defer s.lock.RUnlock()
 	return s.merkleProofCompressed(ctx, key, s.Root)
 }
 
+// merkleProofCompressed expects the caller to hold the lock.
 func (s *Trie) merkleProofCompressed(ctx context.Context, key, root []byte) ([]byte, [][]byte, int, bool, []byte, []byte, error) {
 	mpFull := make([][]byte, 0, 32) // 32 levels should cover the whole tree: no new allocations
-	s.lock.RLock()
-	defer s.lock.RUnlock()
-	s.atomicUpdate = false // so loadChildren doesn't return a copy
 	// create a regular merkle proof and then compress it
 	included, proofKey, proofVal, err := s.merkleProof(ctx, &mpFull, root, key, nil, s.TrieHeight, 0)
 	if err != nil {
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index eefa578..7c97ba1 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -80,7 +80,6 @@ func (s *Trie) loadCache(ctx context.Context, root []byte, batch [][]byte, iBatc
 func (s *Trie) Get(ctx context.Context, key []byte) ([]byte, error) {
 	s.lock.RLock()
 	defer s.lock.RUnlock()
-	s.atomicUpdate = false
 	return s.get(ctx, s.Root, key, nil, 0, s.TrieHeight)
 }
 
-- 
2.43.0


From fbe53df88616afddae4fa3a8d2cc311de86d5f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:09 +0000
Subject: [PATCH 08/64] fix: responses mix the tree and tree head signature of
 different roots during a reload

---
 pkg/mapserver/responder/responder.go | 45 +++++++++++++++-------------
 1 file changed, 25 insertions(+), 20 deletions(-)

diff --git a/pkg/mapserver/responder/responder.go b/pkg/mapserver/responder/responder.go
index e37e318..31da1d4 100644
--- a/pkg/mapserver/responder/responder.go
+++ b/pkg/mapserver/responder/responder.go
@@ -4,6 +4,7 @@ import (
 	"context"
 	"crypto/rsa"
 	"fmt"
+	"sync"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
 	"github.com/netsec-ethz/fpki/pkg/common/crypto"
@@ -14,7 +15,9 @@ import (
 )
 
 type MapResponder struct {
-	conn           db.Conn
+	conn db.Conn
+
+	mu             sync.RWMutex // Protects the fields below: both are always replaced together.
 	smt            *trie.Trie
 	signedTreeHead []byte
 }
@@ -55,11 +58,19 @@ func (r *MapResponder) ReloadRootAndSignTreeHead(
 		return fmt.Errorf("error loading SMT: %w", err)
 	}
 
-	// Use the new SMT
+	// Sign the SMT root.
+	signature, err := crypto.SignBytes(smt.Root, privateKey)
+	if err != nil {
+		return fmt.Errorf("SignStructRSASHA256 | %w", err)
+	}
+
+	// Use the new SMT, together with its signature.
+	r.mu.Lock()
+	defer r.mu.Unlock()
 	r.smt = smt
+	r.signedTreeHead = signature
 
-	// sign the SMT root
-	return r.signTreeHead(privateKey)
+	return nil
 }
 
 func (r *MapResponder) GetProof(ctx context.Context, domainName string,
@@ -71,11 +82,16 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 		return nil, err
 	}
 
+	// All the proofs of this response belong to the same tree, even if it is reloaded meanwhile.
+	r.mu.RLock()
+	smt, signedTreeHead := r.smt, r.signedTreeHead
+	r.mu.RUnlock()
+
 	// Prepare proof with the help of the SMT.
 	proofList := make([]*mapCommon.MapServerResponse, len(domainParts))
 	for i, domainPart := range domainParts {
 		domainPartID := common.SHA256Hash32Bytes([]byte(domainPart))
-		proof, isPoP, proofKey, proofValue, err := r.smt.MerkleProof(ctx, domainPartID[:])
+		proof, isPoP, proofKey, proofValue, err := smt.MerkleProof(ctx, domainPartID[:])
 		if err != nil {
 			return nil, fmt.Errorf("error obtaining Merkle proof for %s: %w",
 				domainPart, err)
@@ -114,11 +130,11 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 			PoI: mapCommon.PoI{
 				ProofType:  proofType,
 				Proof:      proof,
-				Root:       r.smt.Root,
+				Root:       smt.Root,
 				ProofKey:   proofKey,
 				ProofValue: proofValue,
 			},
-			TreeHeadSig: r.SignedTreeHead(),
+			TreeHeadSig: append(signedTreeHead[:0:0], signedTreeHead...),
 		}
 	}
 	return proofList, nil
@@ -126,18 +142,7 @@ func (r *MapResponder) GetProof(ctx context.Context, domainName string,
 
 // SignedTreeHead returns a copy of the Signed Tree Head (STH).
 func (r *MapResponder) SignedTreeHead() []byte {
+	r.mu.RLock()
+	defer r.mu.RUnlock()
 	return append(r.signedTreeHead[:0:0], r.signedTreeHead...)
 }
-
-func (r *MapResponder) signTreeHead(privateKey *rsa.PrivateKey) error {
-	// Sign the tree head.
-	signature, err := crypto.SignBytes(r.smt.Root, privateKey)
-	if err != nil {
-		return fmt.Errorf("SignStructRSASHA256 | %w", err)
-	}
-
-	// Keep it for the proofs.
-	r.signedTreeHead = signature
-
-	return nil
-}
-- 
2.43.0


From 4e2b531813345acd8783d6c408017810a0c424b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:44 +0000
Subject: [PATCH 09/64] fix: interrupting UpdateSMT before the root is saved
 makes the published root unreadable

---
 pkg/mapserver/trie/trie_tools.go | 13 +++++++++++++
 pkg/mapserver/updater/updater.go | 16 +++++++++++-----
 2 files changed, 24 insertions(+), 5 deletions(-)

diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index 7c97ba1..5456826 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -107,6 +107,8 @@ func (s *Trie) get(ctx context.Context, root, key []byte, batch [][]byte, iBatch
 	return s.get(ctx, lnode, key, batch, 2*iBatch+1, height-1)
 }
 
+//
+// Commit is the same as StoreUpdates followed by RemoveObsolete.
 func (s *Trie) Commit(ctx context.Context) error {
 	err := s.db.commitChangesToDB(ctx)
 	if err != nil {
@@ -114,3 +116,14 @@ func (s *Trie) Commit(ctx context.Context) error {
 	}
 	return nil
 }
+
+// StoreUpdates stores the updated nodes to disk, without removing any node. The trees of both the
+// previous and the current root can be loaded from disk until RemoveObsolete is called.
+func (s *Trie) StoreUpdates(ctx context.Context) error {
+	return s.db.storeUpdatedNodes(ctx)
+}
+
+// RemoveObsolete removes from disk those nodes that don't belong to the current tree anymore.
+func (s *Trie) RemoveObsolete(ctx context.Context) error {
+	return s.db.deleteRemovedNodes(ctx)
+}
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 9cbf493..7daa8b5 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -483,8 +483,8 @@ func updateSMTfromDirty(
 	}
 }
 
-// updateSMTFromDomainEntries updates and commits the SMT using domain-entry
-// records retrieved from the database.
+// updateSMTFromDomainEntries updates and stores the SMT using domain-entry
+// records retrieved from the database. The nodes that became obsolete remain in the database.
 func updateSMTFromDomainEntries(
 	ctx context.Context,
 	smtTrie *trie.Trie,
@@ -507,20 +507,21 @@ func updateSMTFromDomainEntries(
 	fmt.Printf("\nsmt.updateSMTFromDomainEntries [%s]: in-memory tree updated\n", time.Now().Format(time.Stamp))
 
 	// And update the tree in the DB.
-	err = smtTrie.Commit(ctx)
+	err = smtTrie.StoreUpdates(ctx)
 	// TODO: clean records on the `dirty` table that correspond to [s:e]
 	if err != nil {
 		return err
 	}
 	// Remove existing entries to avoid OOM issues.
 	smtTrie.ResetLiveCache()
-	fmt.Printf("\nsmt.updateSMTFromDomainEntries [%s]: tree committed to DB\n", time.Now().Format(time.Stamp))
+	fmt.Printf("\nsmt.updateSMTFromDomainEntries [%s]: tree stored in DB\n", time.Now().Format(time.Stamp))
 	return nil
 }
 
 // UpdateSMT reads all the dirty domains (pending to update their contents in the SMT), creates
 // a SMT Trie, loads it, and updates its entries with the new values.
-// It finally commits the Trie and saves its root in the DB.
+// It finally stores the Trie and saves its root in the DB. The nodes of the previous tree are removed
+// only after the new root has been saved: an interrupted update leaves a complete tree behind.
 func UpdateSMT(ctx context.Context, conn db.Conn) error {
 	// Load root.
 	root, err := loadRoot(ctx, conn)
@@ -564,6 +565,11 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 	}
 	fmt.Printf("smt [%s]: new root saved\n", time.Now().Format(time.Stamp))
 
+	// The previous tree is not needed anymore.
+	if err := smtTrie.RemoveObsolete(ctx); err != nil {
+		return err
+	}
+
 	return nil
 }
 
-- 
2.43.0


From 4841c30cbab75a2c456a93fdd5a78166954f697b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:57 +0000
Subject: [PATCH 10/64] fix: UpdateSMT panics when the last domain loses its
 material

---
 pkg/db/db.go                     |  1 +
 pkg/db/mysql/smt.go              |  7 +++++++
 pkg/mapserver/trie/trie_tools.go |  3 +--
 pkg/mapserver/updater/updater.go | 13 ++++++-------
 4 files changed, 15 insertions(+), 9 deletions(-)

diff --git a/pkg/db/db.go b/pkg/db/db.go
index aeca4fc..6752251 100644
--- a/pkg/db/db.go
+++ b/pkg/db/db.go
@@ -33,6 +33,7 @@ type DirtyDomainEntriesCursor struct {
 
 type smt interface {
 	LoadRoot(ctx context.Context) (*common.SHA256Output, error)
+	// SaveRoot replaces the root. A nil root removes it: the SMT is empty.
 	SaveRoot(ctx context.Context, root *common.SHA256Output) error
 
 	// RetrieveTreeNode retrieves one serialized SMT node from the tree table.
diff --git a/pkg/db/mysql/smt.go b/pkg/db/mysql/smt.go
index c6116ca..309e790 100644
--- a/pkg/db/mysql/smt.go
+++ b/pkg/db/mysql/smt.go
@@ -21,6 +21,13 @@ func (c *mysqlDB) LoadRoot(ctx context.Context) (*common.SHA256Output, error) {
 }
 
 func (c *mysqlDB) SaveRoot(ctx context.Context, root *common.SHA256Output) error {
+	if root == nil {
+		// The tree is empty.
+		if _, err := c.db.ExecContext(ctx, "DELETE FROM root"); err != nil {
+			return fmt.Errorf("error removing root ID: %w", err)
+		}
+		return nil
+	}
 	str := "REPLACE INTO root (key32) VALUES (?)"
 	_, err := c.db.ExecContext(ctx, str, (*root)[:])
 	if err != nil {
diff --git a/pkg/mapserver/trie/trie_tools.go b/pkg/mapserver/trie/trie_tools.go
index 5456826..4fc4c01 100644
--- a/pkg/mapserver/trie/trie_tools.go
+++ b/pkg/mapserver/trie/trie_tools.go
@@ -107,8 +107,7 @@ func (s *Trie) get(ctx context.Context, root, key []byte, batch [][]byte, iBatch
 	return s.get(ctx, lnode, key, batch, 2*iBatch+1, height-1)
 }
 
-//
-// Commit is the same as StoreUpdates followed by RemoveObsolete.
+// Commit stores the updated nodes to disk and removes the obsolete ones. It is the same as StoreUpdates followed by RemoveObsolete.
 func (s *Trie) Commit(ctx context.Context) error {
 	err := s.db.commitChangesToDB(ctx)
 	if err != nil {
diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 7daa8b5..5df31d6 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -554,14 +554,13 @@ func UpdateSMT(ctx context.Context, conn db.Conn) error {
 
 	fmt.Printf("\nsmt [%s]: SMT updated\n", time.Now().Format(time.Stamp))
 
-	// Save root value:
+	// Save root value. It is nil if no domain has any material anymore.
+	var newRoot *common.SHA256Output
 	if smtTrie.Root != nil {
-		err = conn.SaveRoot(ctx, (*common.SHA256Output)(smtTrie.Root))
-		if err != nil {
-			return err
-		}
-	} else {
-		panic("SMT tree root is nil")
+		newRoot = (*common.SHA256Output)(smtTrie.Root)
+	}
+	if err := conn.SaveRoot(ctx, newRoot); err != nil {
+		return err
 	}
 	fmt.Printf("smt [%s]: new root saved\n", time.Now().Format(time.Stamp))
 
-- 
2.43.0


From 0e4bd0981cf3da490160fd29c8231342193a13ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:28 +0000
Subject: [PATCH 11/64] fix: connecting to a database at an explicit port
 without password fails

---
 pkg/db/mysql/init.go | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/pkg/db/mysql/init.go b/pkg/db/mysql/init.go
index c4dd379..4df7725 100644
--- a/pkg/db/mysql/init.go
+++ b/pkg/db/mysql/init.go
@@ -4,6 +4,7 @@ import (
 	"database/sql"
 	"fmt"
 	"net/url"
+	"strings"
 	"time"
 
 	_ "github.com/go-sql-driver/mysql"
@@ -81,16 +82,20 @@ func parseDSN(config *db.Configuration) string {
 }
 
 func connect(config *db.Configuration) (*sql.DB, error) {
-	dsn, err := url.Parse(config.Dsn)
-	if err != nil {
-		return nil, fmt.Errorf("bad connection string: %w", err)
-	}
-	uri := dsn.Query()
+	// The DSN is not a URL, e.g. "root@tcp(127.0.0.1:3307)/fpki": only append the parameters.
+	uri := url.Values{}
 	for k, v := range config.Values {
 		uri.Add(k, v)
 	}
-	dsn.RawQuery = uri.Encode()
-	return sql.Open("mysql", dsn.String())
+	dsn := config.Dsn
+	if len(uri) > 0 {
+		separator := "?"
+		if strings.Contains(dsn[strings.LastIndex(dsn, "/")+1:], "?") {
+			separator = "&"
+		}
+		dsn += separator + uri.Encode()
+	}
+	return sql.Open("mysql", dsn)
 }
 
 func checkSchema(c *sql.DB) error {
-- 
2.43.0


From 6c34e1446983c5e4ddae4492b39af34efdd4bb76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:16 +0000
Subject: [PATCH 12/64] fix: updating with some certificates already present
 stores wrong expirations

---
 pkg/mapserver/updater/updater.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 5df31d6..09c549b 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -390,12 +390,14 @@ func UpdateWithKeepExisting(
 		certIDs[to] = certIDs[from]
 		domainNames[to] = domainNames[from]
 		parentCertIDs[to] = parentCertIDs[from]
+		certExpirations[to] = certExpirations[from]
 		payloads = append(payloads, certs[from].Raw)
 	})
 	// Trim the end of the original ID slice, as it contains values from the unmasked certificates.
 	certIDs = certIDs[:len(payloads)]
 	domainNames = domainNames[:len(payloads)]
 	parentCertIDs = parentCertIDs[:len(payloads)]
+	certExpirations = certExpirations[:len(payloads)]
 
 	// Update those certificates that were not in the mask.
 	err = insertCerts(ctx, conn, domainNames, certIDs, parentCertIDs, certExpirations, payloads)
-- 
2.43.0


From 67603b50236b317a55ce697692c832b20067d4f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:20 +0000
Subject: [PATCH 13/64] fix: local update of certificates has expirations for
 the leaf certificates only

---
 pkg/mapserver/updater/updater.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 09c549b..c4a07f2 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -199,7 +199,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 	certChainList [][][]byte,
 ) error {
 
-	expirations := make([]time.Time, 0, len(certList))
 	certs := make([]ctx509.Certificate, 0, len(certList))
 	certChains := make([][]*ctx509.Certificate, 0, len(certList))
 	for i, certRaw := range certList {
@@ -208,7 +207,6 @@ func (u *MapUpdater) UpdateCertsLocally(
 			return err
 		}
 		certs = append(certs, *cert)
-		expirations = append(expirations, cert.NotAfter)
 
 		chain := make([]*ctx509.Certificate, len(certChainList[i]))
 		for i, certChainItemRaw := range certChainList[i] {
@@ -220,6 +218,7 @@ func (u *MapUpdater) UpdateCertsLocally(
 		certChains = append(certChains, chain)
 	}
 	certs, IDs, parentIDs, names := util.UnfoldCerts(certs, certChains)
+	expirations := util.ExtractExpirations(certs)
 	return UpdateWithKeepExisting(ctx, u.Conn, names, IDs, parentIDs, certs, expirations, nil)
 }
 
-- 
2.43.0


From 1eb5e9906f70e4ea4f37cc6d1bb0a5a962df4775 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:44 +0000
Subject: [PATCH 14/64] fix: existence query reports the last full batch of
 certificates as absent

---
 pkg/db/mysql/certs.go | 15 ++++-----------
 1 file changed, 4 insertions(+), 11 deletions(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index d98e3a1..43fed82 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -27,20 +27,13 @@ func (c *mysqlDB) CheckCertsExist(ctx context.Context, ids []common.SHA256Output
 	presence := make([]bool, len(ids))
 
 	// The query won't accept more than batchSize elements. Make batches.
-	for i := 0; i < len(ids)-batchSize; i += batchSize {
-		to := i + batchSize
-		if err := c.checkCertsExist(ctx, ids[i:to], presence[i:to]); err != nil {
+	for from := 0; from < len(ids); from += batchSize {
+		to := min(from+batchSize, len(ids))
+		if err := c.checkCertsExist(ctx, ids[from:to], presence[from:to]); err != nil {
 			return nil, err
 		}
 	}
-	// Do the last batch, if non empty.
-	from := len(ids) / batchSize * batchSize
-	to := from + len(ids)%batchSize
-	var err error
-	if to > from {
-		err = c.checkCertsExist(ctx, ids[from:to], presence[from:to])
-	}
-	return presence, err
+	return presence, nil
 }
 
 func (c *mysqlDB) UpdateCerts(
-- 
2.43.0


From aa627ad5a45127eb9a060f15da9a25af4f577b9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:46 +0000
Subject: [PATCH 15/64] fix: existence query reports policies beyond the first
 1024 as absent

---
 pkg/db/mysql/policies.go | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index eac8fa0..a9ac71a 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -19,6 +19,22 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		// If empty, return empty.
 		return nil, nil
 	}
+	present := make([]bool, len(ids))
+
+	// The query won't accept more than batchSize elements, and its result is limited in length.
+	for from := 0; from < len(ids); from += batchSize {
+		to := min(from+batchSize, len(ids))
+		if err := c.checkPoliciesExist(ctx, ids[from:to], present[from:to]); err != nil {
+			return nil, err
+		}
+	}
+	return present, nil
+}
+
+// checkPoliciesExist should not be called with larger than ~1000 elements, see checkCertsExist.
+func (c *mysqlDB) checkPoliciesExist(ctx context.Context, ids []common.SHA256Output,
+	present []bool) error {
+
 	// Slice to be used in the SQL query:
 	data := make([]interface{}, len(ids))
 	for i, id := range ids {
@@ -48,11 +64,9 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		"policies.policy_id = request.policy_id) AS t"
 
 	// Return slice of booleans:
-	present := make([]bool, len(ids))
-
 	var value string
 	if err := c.db.QueryRowContext(ctx, str, data...).Scan(&value); err != nil {
-		return nil, err
+		return err
 	}
 	for i, c := range value {
 		if c == '1' {
@@ -60,7 +74,7 @@ func (c *mysqlDB) CheckPoliciesExist(ctx context.Context, ids []common.SHA256Out
 		}
 	}
 
-	return present, nil
+	return nil
 }
 
 func (c *mysqlDB) UpdatePolicies(
-- 
2.43.0


From 25c44758b1d068cecc73125ef32651b5eafc8f0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:48 +0000
Subject: [PATCH 16/64] fix: truncating all tables leaves policies and log
 server states behind

---
 pkg/db/mysql/mysql.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/db/mysql/mysql.go b/pkg/db/mysql/mysql.go
index 27f3183..e6d89a9 100644
--- a/pkg/db/mysql/mysql.go
+++ b/pkg/db/mysql/mysql.go
@@ -86,8 +86,11 @@ func (c *mysqlDB) TruncateAllTables(ctx context.Context) error {
 		"domains",
 		"certs",
 		"domain_certs",
+		"policies",
+		"domain_policies",
 		"domain_payloads",
 		"dirty",
+		"ctlog_server_last_status",
 	}
 	for _, t := range tables {
 		if _, err := c.db.ExecContext(ctx, fmt.Sprintf("TRUNCATE %s", t)); err != nil {
-- 
2.43.0


From f1f762eac9563fea00c478bd099cedbc69fc9dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:50 +0000
Subject: [PATCH 17/64] fix: expirations and prune times are written in the
 local time zone

---
 pkg/db/mysql/certs.go        | 4 ++--
 pkg/mapserver/updater/csv.go | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 43fed82..22f06af 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -73,7 +73,7 @@ func (c *mysqlDB) updateCertsCSV(
 			if parents[i] != nil {
 				records[i][1] = base64.StdEncoding.EncodeToString(parents[i][:])
 			}
-			records[i][2] = expirations[i].Format(time.DateTime)
+			records[i][2] = expirations[i].UTC().Format(time.DateTime)
 			records[i][3] = base64.StdEncoding.EncodeToString(payloads[i])
 		}
 
@@ -363,7 +363,7 @@ func (c *mysqlDB) pruneCerts(ctx context.Context, now time.Time) error {
 	// We thus look for certificates with expiration less than now.
 
 	str := "CALL prune_expired(?)"
-	_, err := c.db.ExecContext(ctx, str, now.Format(time.DateTime))
+	_, err := c.db.ExecContext(ctx, str, now.UTC().Format(time.DateTime))
 	return err
 }
 
diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index dcb5f0b..6d52cd5 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -245,7 +245,7 @@ func bytesToBase64WithStorage(storage *[]byte, b []byte) {
 
 func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = (*storage)[:0]
-	*storage = t.AppendFormat(*storage, time.DateTime)
+	*storage = t.UTC().AppendFormat(*storage, time.DateTime)
 }
 
 func stringToStorage(storage *[]byte, s string) {
-- 
2.43.0


From 4074f580c852b4a2ffbf71d983c41b9ac7b19c86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:11 +0000
Subject: [PATCH 18/64] fix: queries failing midway return a shorter result
 without error

---
 pkg/db/mysql/certs.go    | 5 +++++
 pkg/db/mysql/common.go   | 5 +++++
 pkg/db/mysql/dirty.go    | 4 ++++
 pkg/db/mysql/policies.go | 5 +++++
 4 files changed, 19 insertions(+)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 22f06af..987ad23 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -257,6 +257,8 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 		return nil, err
 	}
 
+	defer rows.Close()
+
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
 		var id, payload []byte
@@ -266,6 +268,9 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/common.go b/pkg/db/mysql/common.go
index 9a076f5..5bcb647 100644
--- a/pkg/db/mysql/common.go
+++ b/pkg/db/mysql/common.go
@@ -27,6 +27,8 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 		return nil, err
 	}
 
+	defer rows.Close()
+
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
 		var id, payload []byte
@@ -36,6 +38,9 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
diff --git a/pkg/db/mysql/dirty.go b/pkg/db/mysql/dirty.go
index 6dfb59b..b40f4e9 100644
--- a/pkg/db/mysql/dirty.go
+++ b/pkg/db/mysql/dirty.go
@@ -98,6 +98,7 @@ func (c *mysqlDB) RetrieveDirtyDomains(ctx context.Context) ([]common.SHA256Outp
 	if err != nil {
 		return nil, fmt.Errorf("error querying dirty domains: %w", err)
 	}
+	defer rows.Close()
 	domainIDs := make([]common.SHA256Output, 0)
 	for rows.Next() {
 		var domainId []byte
@@ -107,6 +108,9 @@ func (c *mysqlDB) RetrieveDirtyDomains(ctx context.Context) ([]common.SHA256Outp
 		}
 		domainIDs = append(domainIDs, common.SHA256Output(domainId))
 	}
+	if err := rows.Err(); err != nil {
+		return nil, fmt.Errorf("error iterating dirty domains: %w", err)
+	}
 	return domainIDs, nil
 }
 
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index a9ac71a..4dcdc84 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -167,6 +167,8 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 		return nil, err
 	}
 
+	defer rows.Close()
+
 	m := make(map[common.SHA256Output][]byte, len(IDs))
 	for rows.Next() {
 		var id, payload []byte
@@ -176,6 +178,9 @@ func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA25
 		idArray := (*common.SHA256Output)(id)
 		m[*idArray] = payload
 	}
+	if err := rows.Err(); err != nil {
+		return nil, err
+	}
 
 	// Sort them in the same order as the IDs.
 	payloads := make([][]byte, len(IDs))
-- 
2.43.0


From 44350764d24843a834b56dd423edeba144098d6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:13 +0000
Subject: [PATCH 19/64] fix: retrieving the payloads of no identifiers fails

---
 pkg/db/mysql/certs.go    | 4 ++++
 pkg/db/mysql/common.go   | 4 ++++
 pkg/db/mysql/policies.go | 4 ++++
 3 files changed, 12 insertions(+)

diff --git a/pkg/db/mysql/certs.go b/pkg/db/mysql/certs.go
index 987ad23..b38b243 100644
--- a/pkg/db/mysql/certs.go
+++ b/pkg/db/mysql/certs.go
@@ -246,6 +246,10 @@ func (c *mysqlDB) RetrieveCertificatePayloads(
 	IDs []common.SHA256Output,
 ) ([][]byte, error) {
 
+	if len(IDs) == 0 {
+		// If empty, return empty.
+		return nil, nil
+	}
 	str := "SELECT cert_id,payload from certs WHERE cert_id IN " + repeatStmt(1, len(IDs))
 	params := make([]any, len(IDs))
 	for i, id := range IDs {
diff --git a/pkg/db/mysql/common.go b/pkg/db/mysql/common.go
index 5bcb647..50e9003 100644
--- a/pkg/db/mysql/common.go
+++ b/pkg/db/mysql/common.go
@@ -12,6 +12,10 @@ func (c *mysqlDB) RetrieveCertificateOrPolicyPayloads(
 	ctx context.Context,
 	IDs []common.SHA256Output,
 ) ([][]byte, error) {
+	if len(IDs) == 0 {
+		// If empty, return empty.
+		return nil, nil
+	}
 	str := "SELECT policy_id,payload from policies WHERE policy_id IN " +
 		repeatStmt(1, len(IDs)) +
 		"UNION SELECT cert_id,payload from certs WHERE cert_id IN " +
diff --git a/pkg/db/mysql/policies.go b/pkg/db/mysql/policies.go
index 4dcdc84..bfe5fd4 100644
--- a/pkg/db/mysql/policies.go
+++ b/pkg/db/mysql/policies.go
@@ -155,6 +155,10 @@ func (c *mysqlDB) RetrieveDomainPoliciesIDs(ctx context.Context, domainID common
 func (c *mysqlDB) RetrievePolicyPayloads(ctx context.Context, IDs []common.SHA256Output,
 ) ([][]byte, error) {
 
+	if len(IDs) == 0 {
+		// If empty, return empty.
+		return nil, nil
+	}
 	str := "SELECT policy_id,payload from policies WHERE policy_id IN " +
 		repeatStmt(1, len(IDs))
 	params := make([]any, len(IDs))
-- 
2.43.0


From a4f4c7565e7d9c116ac8357adb5cefe3dfc907d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:35 +0000
Subject: [PATCH 20/64] fix: pruning fails after an interrupted pruning on the
 same connection

---
 tools/create_schema.sh | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tools/create_schema.sh b/tools/create_schema.sh
index 46a4cb3..d6e162c 100755
--- a/tools/create_schema.sh
+++ b/tools/create_schema.sh
@@ -396,6 +396,9 @@ DELIMITER $$
 CREATE PROCEDURE prune_expired(IN cut DATETIME)
 BEGIN
 
+	-- A previous call on this connection could have been interrupted.
+	DROP TEMPORARY TABLE IF EXISTS temp_cert_ids;
+
 	-- Create a temporary table to hold the IDs of all the expired certs or descendants.
 	CREATE TEMPORARY TABLE temp_cert_ids (
 	  cert_id VARBINARY(32)
-- 
2.43.0


From 4efc65370ba48d20b181fe525dd1da1efcb5d00a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:08 +0000
Subject: [PATCH 21/64] fix: domain names with special characters corrupt the
 bulk load files

---
 pkg/db/mysql/mysql.go        |  8 +++++---
 pkg/mapserver/updater/csv.go | 17 ++++++++++++++++-
 2 files changed, 21 insertions(+), 4 deletions(-)

diff --git a/pkg/db/mysql/mysql.go b/pkg/db/mysql/mysql.go
index e6d89a9..44ecb48 100644
--- a/pkg/db/mysql/mysql.go
+++ b/pkg/db/mysql/mysql.go
@@ -125,7 +125,8 @@ func (c *mysqlDB) updateDomainsCSV(
 	for i := 0; i < len(ids); i++ {
 		records[i] = make([]string, 2)
 		records[i][0] = base64.StdEncoding.EncodeToString(ids[i][:])
-		records[i][1] = domainNames[i]
+		// The name comes from a certificate and can contain any character: encode it.
+		records[i][1] = base64.StdEncoding.EncodeToString([]byte(domainNames[i]))
 	}
 
 	// Create temporary file.
@@ -551,8 +552,9 @@ func loadDomainsTableWithCSV(
 
 	str := `LOAD DATA CONCURRENT INFILE ? IGNORE INTO TABLE domains ` +
 		`FIELDS TERMINATED BY ',' ENCLOSED BY '"' LINES TERMINATED BY '\n' ` +
-		`(@domain_id,domain_name) SET ` +
-		`domain_id = FROM_BASE64(@domain_id);`
+		`(@domain_id,@domain_name) SET ` +
+		`domain_id = FROM_BASE64(@domain_id),` +
+		`domain_name = FROM_BASE64(@domain_name);`
 	return db.ExecContext(ctx, str, filepath)
 }
 
diff --git a/pkg/mapserver/updater/csv.go b/pkg/mapserver/updater/csv.go
index 6d52cd5..4fc91a6 100644
--- a/pkg/mapserver/updater/csv.go
+++ b/pkg/mapserver/updater/csv.go
@@ -3,6 +3,7 @@ package updater
 import (
 	"encoding/base64"
 	"fmt"
+	"slices"
 	"time"
 
 	"github.com/netsec-ethz/fpki/pkg/common"
@@ -75,7 +76,11 @@ func CreateCsvDomains(
 		TemporaryDir+"fpki-ingest-domains-",
 		".csv",
 		domains,
-		recordsForDomains,
+		func(row [][]byte, d DirtyDomain) {
+			recordsForDomains(row, d)
+			// The name comes from a certificate and can contain any character: encode it.
+			base64InStorage(&row[1])
+		},
 	)
 }
 
@@ -243,6 +248,16 @@ func bytesToBase64WithStorage(storage *[]byte, b []byte) {
 	*storage = base64.StdEncoding.AppendEncode((*storage)[:0], b)
 }
 
+// base64InStorage replaces the content of the storage with its base64 encoding.
+func base64InStorage(storage *[]byte) {
+	// Move the content after the space for its encoded form.
+	n := base64.StdEncoding.EncodedLen(len(*storage))
+	b := slices.Grow(*storage, n)[:n+len(*storage)]
+	copy(b[n:], *storage)
+	base64.StdEncoding.Encode(b[:n], b[n:])
+	*storage = b[:n]
+}
+
 func timeToStringWithStorage(storage *[]byte, t time.Time) {
 	*storage = (*storage)[:0]
 	*storage = t.UTC().AppendFormat(*storage, time.DateTime)
-- 
2.43.0


From 75330e6cb80d773887dab69e978cc992ae17cd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:21 +0000
Subject: [PATCH 22/64] fix: interrupted update leaves certificates and
 policies without their domains forever

---
 pkg/mapserver/updater/updater.go | 25 ++++++++++++++-----------
 1 file changed, 14 insertions(+), 11 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index c4a07f2..c5bc861 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -601,12 +601,6 @@ func insertCerts(
 	// Disable redo-logs with:
 	// ALTER INSTANCE DISABLE INNODB REDO_LOG
 
-	// Send hash, parent hash, expiration and payload to the certs table.
-	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
-		return fmt.Errorf("inserting certificates: %w", err)
-	}
-	// around 3 seconds for this ^^ (100K certs)
-
 	// Add new entries from names into the domains table iff they are leaves.
 	estimatedSize := len(ids) * 2 // Number of IDs / 3 ~~ is the number of leaves. 6 names per leaf.
 	newNames := make([]string, 0, estimatedSize)
@@ -634,6 +628,14 @@ func insertCerts(
 	}
 	// around 8 seconds for this ^^ (100K certs)
 
+	// Send hash, parent hash, expiration and payload to the certs table. This happens last: the
+	// presence of a certificate means that its domains have been recorded. If interrupted before,
+	// repeating the update will not skip the certificate.
+	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
+		return fmt.Errorf("inserting certificates: %w", err)
+	}
+	// around 3 seconds for this ^^ (100K certs)
+
 	return nil
 }
 
@@ -659,7 +661,12 @@ func insertPolicies(ctx context.Context, conn db.Conn, names []string, ids []com
 		return fmt.Errorf("updating domains: %w", err)
 	}
 
-	// Update the policies in the DB, with nil parents and mock expirations.
+	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
+		return fmt.Errorf("updating domain_certs: %w", err)
+	}
+
+	// Update the policies in the DB, with nil parents and mock expirations. This happens last: the
+	// presence of a policy means that its domain has been recorded.
 	// Sequence of nil parent ids:
 	parents := make([]*common.SHA256Output, len(ids))
 	// Sequence of expiration times way in the future:
@@ -673,10 +680,6 @@ func insertPolicies(ctx context.Context, conn db.Conn, names []string, ids []com
 		return fmt.Errorf("inserting policies: %w", err)
 	}
 
-	if err := conn.UpdateDomainPolicies(ctx, domainIDs, ids); err != nil {
-		return fmt.Errorf("updating domain_certs: %w", err)
-	}
-
 	return nil
 }
 
-- 
2.43.0


From ace4b0d4fb45cd037d15ad0071ee3c17b4ab677d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:38:47 +0000
Subject: [PATCH 23/64] fix: a certificate first seen in a chain never gets its
 domains when delivered as leaf

---
 pkg/mapserver/updater/updater.go | 48 ++++++++++++++++++++++++++------
 1 file changed, 40 insertions(+), 8 deletions(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index c5bc861..61eecd9 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -382,6 +382,23 @@ func UpdateWithKeepExisting(
 		return err
 	}
 
+	// A certificate already present in the DB could have been seen until now only as part of a chain,
+	// and thus without names. Leaf certificates that cannot issue others are not affected.
+	var issuerIDs []common.SHA256Output
+	var issuerNames [][]string
+	for i, present := range maskCerts {
+		canIssue := certs[i].IsCA || !certs[i].BasicConstraintsValid
+		if present && canIssue && len(domainNames[i]) > 0 {
+			issuerIDs = append(issuerIDs, certIDs[i])
+			issuerNames = append(issuerNames, domainNames[i])
+		}
+	}
+	if len(issuerIDs) > 0 {
+		if err := insertDomainsOfCerts(ctx, conn, issuerNames, issuerIDs); err != nil {
+			return err
+		}
+	}
+
 	// For all those certificates not already present in the DB, prepare three slices: IDs,
 	// names, payloads, and parentIDs.
 	payloads := make([][]byte, 0, len(certs))
@@ -601,6 +618,29 @@ func insertCerts(
 	// Disable redo-logs with:
 	// ALTER INSTANCE DISABLE INNODB REDO_LOG
 
+	if err := insertDomainsOfCerts(ctx, conn, names, ids); err != nil {
+		return err
+	}
+
+	// Send hash, parent hash, expiration and payload to the certs table. This happens last: the
+	// presence of a certificate means that its domains have been recorded. If interrupted before,
+	// repeating the update will not skip the certificate.
+	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
+		return fmt.Errorf("inserting certificates: %w", err)
+	}
+	// around 3 seconds for this ^^ (100K certs)
+
+	return nil
+}
+
+// insertDomainsOfCerts records the names of the certificates and marks them as dirty.
+func insertDomainsOfCerts(
+	ctx context.Context,
+	conn db.Conn,
+	names [][]string,
+	ids []common.SHA256Output,
+) error {
+
 	// Add new entries from names into the domains table iff they are leaves.
 	estimatedSize := len(ids) * 2 // Number of IDs / 3 ~~ is the number of leaves. 6 names per leaf.
 	newNames := make([]string, 0, estimatedSize)
@@ -628,14 +668,6 @@ func insertCerts(
 	}
 	// around 8 seconds for this ^^ (100K certs)
 
-	// Send hash, parent hash, expiration and payload to the certs table. This happens last: the
-	// presence of a certificate means that its domains have been recorded. If interrupted before,
-	// repeating the update will not skip the certificate.
-	if err := conn.UpdateCerts(ctx, ids, parentIDs, expirations, payloads); err != nil {
-		return fmt.Errorf("inserting certificates: %w", err)
-	}
-	// around 3 seconds for this ^^ (100K certs)
-
 	return nil
 }
 
-- 
2.43.0


From 7ae64c2d84bca69ae32417e6331e0f99378dd62e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:15 +0000
Subject: [PATCH 24/64] fix: overwriting update re-encodes received policies,
 changing their identifier

---
 pkg/mapserver/updater/updater.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/mapserver/updater/updater.go b/pkg/mapserver/updater/updater.go
index 61eecd9..87fce3b 100644
--- a/pkg/mapserver/updater/updater.go
+++ b/pkg/mapserver/updater/updater.go
@@ -352,7 +352,7 @@ func UpdateWithOverwrite(ctx context.Context, conn db.Conn, domainNames [][]stri
 	policyIDs := make([]common.SHA256Output, len(policies))
 	policySubjects := make([]string, len(policies))
 	for i, pol := range policies {
-		payload, err := common.ToJSON(pol)
+		payload, err := pol.Raw()
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From f8a48fb9520d39683ce46ba6c2e33b64d8f6a48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:22 +0000
Subject: [PATCH 25/64] fix: a pruned certificate inserted again revives its
 former domains

---
 tools/create_schema.sh | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/tools/create_schema.sh b/tools/create_schema.sh
index d6e162c..e6f02ac 100755
--- a/tools/create_schema.sh
+++ b/tools/create_schema.sh
@@ -426,6 +426,10 @@ BEGIN
 	REPLACE INTO dirty(domain_id, coalesced)
 	SELECT DISTINCT domain_id, FALSE FROM domain_certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
 
+	-- The removed certificates no longer belong to any domain: one that is inserted again later,
+	-- e.g. as part of the chain of another one, must not revive the relations it had.
+	DELETE FROM domain_certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
+
 	-- Remove expired certificates
 	DELETE FROM certs WHERE cert_id IN (SELECT cert_id FROM temp_cert_ids);
 
-- 
2.43.0


From 655cd1d21b54a039087660577401a47e731f58de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 26/64] fix: HTTP log fetcher hangs on empty answers, crashes
 on oversized ones, leaks and races when stopped

---
 pkg/mapserver/logfetcher/httplogfetcher.go | 76 +++++++++++++++-------
 1 file changed, 52 insertions(+), 24 deletions(-)

diff --git a/pkg/mapserver/logfetcher/httplogfetcher.go b/pkg/mapserver/logfetcher/httplogfetcher.go
index a94cb30..0417045 100644
--- a/pkg/mapserver/logfetcher/httplogfetcher.go
+++ b/pkg/mapserver/logfetcher/httplogfetcher.go
@@ -40,7 +40,9 @@ type HttpLogFetcher struct {
 	processBatchSize int64 // We unblock NextBatch in batches of this size.
 	ctClient         *client.LogClient
 	chanResults      chan *result
-	stopping         bool // Set to request the LogFetcher to stop fetching.
+
+	ctx    context.Context    // Done when the LogFetcher is requested to stop fetching.
+	cancel context.CancelFunc // Requests the LogFetcher to stop fetching.
 
 	// The chanResults channel is used to obtain results from this fetcher. Each call to NextBatch
 	// pulls one full result from the channel into the currentResult variable. And each call
@@ -71,6 +73,7 @@ func NewHttpLogFetcher(url string) (*HttpLogFetcher, error) {
 	if err != nil {
 		return nil, err
 	}
+	ctx, cancel := context.WithCancel(context.Background())
 	return &HttpLogFetcher{
 		url: url,
 
@@ -78,6 +81,8 @@ func NewHttpLogFetcher(url string) (*HttpLogFetcher, error) {
 		processBatchSize: defaultProcessBatchSize,
 		ctClient:         ctClient,
 		chanResults:      nil,
+		ctx:              ctx,
+		cancel:           cancel,
 	}, nil
 }
 
@@ -105,15 +110,31 @@ func (f *HttpLogFetcher) GetCurrentState(ctx context.Context, lastState State) (
 // StartFetching will start fetching certificates in the background, so that there is
 // at most two batches ready to be immediately read by NextBatch.
 func (f *HttpLogFetcher) StartFetching(start, end int64) {
+	f.StopFetching() // Stop any previous fetching.
 	f.chanResults = make(chan *result, preloadCount)
-	f.stopping = false
+	f.ctx, f.cancel = context.WithCancel(context.Background())
 	f.start = start
 	f.end = end
-	go f.fetch()
+	// The background routine works on its own copy, independent of later uses of the fetcher.
+	background := *f
+	go background.fetch()
 }
 
 func (f *HttpLogFetcher) StopFetching() {
-	f.stopping = true
+	f.cancel()
+}
+
+// stopped returns true if the LogFetcher was requested to stop fetching.
+func (f *HttpLogFetcher) stopped() bool {
+	return f.ctx.Err() != nil
+}
+
+// sendResult blocks until the result is accepted or the LogFetcher is requested to stop.
+func (f *HttpLogFetcher) sendResult(r *result) {
+	select {
+	case f.chanResults <- r:
+	case <-f.ctx.Done():
+	}
 }
 
 // NextBatch returns true if there is a next batch to be retrieved, or error, I.e. if the call to
@@ -163,8 +184,9 @@ func (f *HttpLogFetcher) FetchAllCertificates(
 ) {
 
 	f.StartFetching(start, end)
-	certs = make([]ctx509.Certificate, 0, end-start+1)
-	chains = make([][]*ctx509.Certificate, 0, end-start+1)
+	defer f.StopFetching()
+	certs = make([]ctx509.Certificate, 0, max(0, end-start+1))
+	chains = make([][]*ctx509.Certificate, 0, max(0, end-start+1))
 	for f.NextBatch(ctx) {
 		bCerts, bChains, bExcluded, bErr := f.ReturnNextBatch()
 		if bErr != nil {
@@ -178,7 +200,6 @@ func (f *HttpLogFetcher) FetchAllCertificates(
 		chains = append(chains, bChains...)
 		excluded += uint64(bExcluded)
 	}
-	f.StopFetching()
 	return
 }
 
@@ -198,13 +219,12 @@ func (f *HttpLogFetcher) fetch() {
 		end := min(f.end, start+f.processBatchSize-1)
 		n, err := f.getRawEntriesInBatches(leafEntries, start, end)
 		if err != nil {
-			f.chanResults <- &result{
+			f.sendResult(&result{
 				err: err,
-			}
+			})
 			return // Don't continue processing when errors.
 		}
-		if f.stopping {
-			f.stopping = false // We are handling the stop now.
+		if f.stopped() {
 			return
 		}
 		certEntries := make([]ctx509.Certificate, n)
@@ -214,9 +234,9 @@ func (f *HttpLogFetcher) fetch() {
 			index := start + int64(i)
 			raw, err := ct.RawLogEntryFromLeaf(index, &leaf)
 			if err != nil {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			// Certificate.
@@ -224,9 +244,9 @@ func (f *HttpLogFetcher) fetch() {
 			// Accept the same certificates as CT logs, i.e., don't be too restrictive in terms of
 			// which certificates to reject (i.e., allow for non-fatal parsing/validation errors)
 			if ctx509.IsFatal(err) {
-				f.chanResults <- &result{
+				f.sendResult(&result{
 					err: err,
-				}
+				})
 				return
 			}
 			certEntries[i] = *cert
@@ -235,18 +255,18 @@ func (f *HttpLogFetcher) fetch() {
 			for j, c := range raw.Chain {
 				chainEntries[i][j], err = ctx509.ParseCertificate(c.Data)
 				if err != nil {
-					f.chanResults <- &result{
+					f.sendResult(&result{
 						err: err,
-					}
+					})
 					return
 				}
 			}
 		}
 		// Send the result.
-		f.chanResults <- &result{
+		f.sendResult(&result{
 			certs:  certEntries,
 			chains: chainEntries,
-		}
+		})
 	}
 }
 
@@ -264,7 +284,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 	// TODO(juagargi) should we align the calls to serverBatchSize
 	batchCount := (end - start + 1) / f.serverBatchSize
 
-	if f.stopping {
+	if f.stopped() {
 		return 0, nil
 	}
 	// Do batches.
@@ -277,7 +297,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return i * f.serverBatchSize, err
 		}
-		if f.stopping {
+		if f.stopped() {
 			return i*f.serverBatchSize + n, nil
 		}
 		assert(n == f.serverBatchSize, "bad size in getRawEntriesInBatches")
@@ -293,7 +313,7 @@ func (f *HttpLogFetcher) getRawEntriesInBatches(leafEntries []ct.LeafEntry, star
 		if err != nil {
 			return batchCount * f.serverBatchSize, err
 		}
-		if f.stopping {
+		if f.stopped() {
 			return remStart + n, nil
 		}
 		assert(n == remEnd-remStart+1, "bad remainder size in getRawEntriesInBatches")
@@ -316,14 +336,22 @@ func (f *HttpLogFetcher) getRawEntries(
 	_ = leafEntries[end-start] // Fail early if the slice is too small.
 
 	for offset := int64(0); offset < end-start+1; {
-		if f.stopping {
+		if f.stopped() {
+			// Requested to stop
+			return 0, nil
+		}
+		rsp, err := f.ctClient.GetRawEntries(f.ctx, start+offset, end)
+		if f.stopped() {
 			// Requested to stop
 			return 0, nil
 		}
-		rsp, err := f.ctClient.GetRawEntries(context.Background(), start+offset, end)
 		if err != nil {
 			return offset, err
 		}
+		if n := int64(len(rsp.Entries)); n == 0 || n > end-start+1-offset {
+			return offset, fmt.Errorf("server %s returned %d entries for range [%d, %d]",
+				f.url, n, start+offset, end)
+		}
 		for i := int64(0); i < int64(len(rsp.Entries)); i++ {
 			e := rsp.Entries[i]
 			leafEntries[offset+i] = e
-- 
2.43.0


From 9462a0ca86b4554e3a5e617a4b9a6eea971c92d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:03 +0000
Subject: [PATCH 27/64] fix: local log fetcher crashes on or drops malformed
 rows and files, and leaks when stopped

---
 pkg/mapserver/logfetcher/locallogfetcher.go | 150 ++++++++++++--------
 1 file changed, 88 insertions(+), 62 deletions(-)

diff --git a/pkg/mapserver/logfetcher/locallogfetcher.go b/pkg/mapserver/logfetcher/locallogfetcher.go
index f2f6d25..2531d65 100644
--- a/pkg/mapserver/logfetcher/locallogfetcher.go
+++ b/pkg/mapserver/logfetcher/locallogfetcher.go
@@ -7,7 +7,6 @@ import (
 	"fmt"
 	"io"
 	"io/fs"
-	"os"
 	"path/filepath"
 	"strconv"
 	"strings"
@@ -47,7 +46,6 @@ type LocalLogFetcher struct {
 	// reading cvs files
 	certWithChainChan chan *CertWithChainData
 	incomingFileCh    chan util.CsvFile // New files with certificates to be ingested
-	errorCh           chan error        // Errors accumulate here
 
 	processBatchSize int64 // We unblock NextBatch in batches of this size.
 
@@ -57,7 +55,11 @@ type LocalLogFetcher struct {
 	maxIngestionSize uint64
 
 	chanResults chan *result
-	stopping    bool // Set to request the LogFetcher to stop fetching.
+
+	stopCtx    context.Context         // Done when the LogFetcher is requested to stop fetching.
+	stopCancel context.CancelFunc      // Requests the LogFetcher to stop fetching.
+	failCtx    context.Context         // Also done when something failed (the failure is its cause).
+	failCancel context.CancelCauseFunc // Reports a failure.
 
 	inputFiles []*CsvFileInfo
 
@@ -99,11 +101,8 @@ func (f *LocalLogFetcher) Initialize(updateStartTime time.Time) error {
 	// reset current time for removing expired certificates
 	f.now = updateStartTime
 
-	// reset values
-	f.chanResults = make(chan *result, preloadCount)
-	f.incomingFileCh = make(chan util.CsvFile)
-	f.certWithChainChan = make(chan *CertWithChainData)
-	f.errorCh = make(chan error)
+	// stop any previous fetching
+	f.StopFetching()
 
 	// find all csv files
 	gzFiles, csvFiles, err := listFiles(f.folder)
@@ -127,7 +126,6 @@ func (f *LocalLogFetcher) Initialize(updateStartTime time.Time) error {
 		f.achievableStateMap[start] = getGzFileChain(f.achievableStateMap, start)
 	}
 
-	f.processIncomingFiles()
 	return nil
 }
 
@@ -164,6 +162,12 @@ func (f *LocalLogFetcher) GetCurrentState(ctx context.Context, lastState State)
 // StartFetching will start fetching certificates in the background, so that there is
 // at most two batches ready to be immediately read by NextBatch.
 func (f *LocalLogFetcher) StartFetching(start, end int64) {
+	f.StopFetching() // Stop any previous fetching.
+	f.chanResults = make(chan *result, preloadCount)
+	f.incomingFileCh = make(chan util.CsvFile)
+	f.certWithChainChan = make(chan *CertWithChainData)
+	f.stopCtx, f.stopCancel = context.WithCancel(context.Background())
+	f.failCtx, f.failCancel = context.WithCancelCause(f.stopCtx)
 	f.start = start
 	f.end = end
 	requestedFiles := []*CsvFileInfo{}
@@ -183,23 +187,30 @@ func (f *LocalLogFetcher) StartFetching(start, end int64) {
 		fmt.Printf("Start fetching from local certificate folder for %s in range [%d, %d] (%d files) %s", f.URL(), start, end, len(requestedFiles), remaining)
 	}
 
-	// process the requested files in a separate go routine
+	// process the requested files in separate go routines, which work on their own copy,
+	// independent of later uses of the fetcher.
+	background := *f
+	background.processIncomingFiles()
 	go func() {
+		defer close(background.incomingFileCh)
 		for _, entry := range requestedFiles {
+			if background.failCtx.Err() != nil {
+				return
+			}
 			fmt.Printf("Processing Certificate File %s\n", entry)
 			if entry.isGzipped {
-				f.addGzFiles([]string{entry.path})
+				background.addGzFiles([]string{entry.path})
 			} else {
-				f.addCsvFiles([]string{entry.path})
+				background.addCsvFiles([]string{entry.path})
 			}
 		}
-		close(f.incomingFileCh)
 	}()
 }
 
 func (f *LocalLogFetcher) StopFetching() {
-	// TODO: abort csv fetching/parsing if this value is set to true
-	f.stopping = true
+	if f.stopCancel != nil {
+		f.stopCancel()
+	}
 }
 
 // NextBatch returns true if there is a next batch to be retrieved or false if no further batches
@@ -239,7 +250,7 @@ func (f *LocalLogFetcher) ReturnNextBatch() (
 // It blocks until it is accepted.
 func (p *LocalLogFetcher) addGzFiles(fileNames []string) {
 	for _, filename := range fileNames {
-		p.incomingFileCh <- (&util.GzFile{}).WithFile(filename)
+		p.addFile((&util.GzFile{}).WithFile(filename))
 	}
 }
 
@@ -247,26 +258,43 @@ func (p *LocalLogFetcher) addGzFiles(fileNames []string) {
 // It blocks until it is accepted.
 func (p *LocalLogFetcher) addCsvFiles(fileNames []string) {
 	for _, filename := range fileNames {
-		p.incomingFileCh <- (&util.UncompressedFile{}).WithFile(filename)
+		p.addFile((&util.UncompressedFile{}).WithFile(filename))
+	}
+}
+
+func (p *LocalLogFetcher) addFile(file util.CsvFile) {
+	select {
+	case p.incomingFileCh <- file:
+	case <-p.failCtx.Done():
+	}
+}
+
+// sendData blocks until the data is accepted or the fetching stopped.
+func (p *LocalLogFetcher) sendData(data *CertWithChainData) {
+	select {
+	case p.certWithChainChan <- data:
+	case <-p.failCtx.Done():
 	}
 }
 
 // processFile processes any File.
 // This stage is responsible of parsing the data into X509 certificates and chains.
 func (p *LocalLogFetcher) processFile(f util.CsvFile) {
+	if p.failCtx.Err() != nil {
+		return
+	}
 	r, err := f.Open()
 	if err != nil {
-		p.errorCh <- err
+		p.failCancel(fmt.Errorf("opening file %s: %w", f.Filename(), err))
 		return
 	}
 	// ingestWithCSV will send data to the cert with chain channel
-	if err := p.ingestWithCSV(r); err != nil {
-		p.errorCh <- err
-		return
+	err = p.ingestWithCSV(r)
+	if closeErr := f.Close(); err == nil {
+		err = closeErr
 	}
-	if err := f.Close(); err != nil {
-		p.errorCh <- err
-		return
+	if err != nil {
+		p.failCancel(fmt.Errorf("reading file %s: %w", f.Filename(), err))
 	}
 }
 
@@ -286,13 +314,16 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		}
 		if p.now.After(time.Unix(n, 0)) {
 			// Skip this certificate.
-			p.certWithChainChan <- &CertWithChainData{
+			p.sendData(&CertWithChainData{
 				Expired: true,
-			}
+			})
 			return nil
 		}
 
 		// From this point on, we need to parse the certificate.
+		if len(fields) <= CertChainColumn {
+			return fmt.Errorf("at line %d: too few columns (%d)", lineNo, len(fields))
+		}
 		rawBytes, err := base64.StdEncoding.DecodeString(fields[CertificateColumn])
 		if err != nil {
 			return err
@@ -305,9 +336,9 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 
 		if p.now.After(cert.NotAfter) {
 			// Skip this certificate.
-			p.certWithChainChan <- &CertWithChainData{
+			p.sendData(&CertWithChainData{
 				Expired: true,
-			}
+			})
 			return nil
 		}
 
@@ -329,12 +360,12 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 			}
 			chainIDs[i] = &id
 		}
-		p.certWithChainChan <- &CertWithChainData{
+		p.sendData(&CertWithChainData{
 			Cert:          *cert,
 			CertID:        &certID,
 			ChainPayloads: chain,
 			ChainIDs:      chainIDs,
-		}
+		})
 		return nil
 	}
 
@@ -342,6 +373,10 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		lineNo int
 		fields []string
 	}
+	records, err := reader.ReadAll()
+	if err != nil {
+		return err
+	}
 	recordsChan := make(chan *lineAndFields)
 
 	wg := sync.WaitGroup{}
@@ -350,16 +385,15 @@ func (p *LocalLogFetcher) ingestWithCSV(fileReader io.Reader) error {
 		go func() {
 			defer wg.Done()
 			for x := range recordsChan {
+				if p.failCtx.Err() != nil {
+					continue // Fetching stopped, just drain the channel.
+				}
 				if err := parseFunction(x.fields, x.lineNo); err != nil {
-					panic(err)
+					p.failCancel(err)
 				}
 			}
 		}()
 	}
-	records, err := reader.ReadAll()
-	if err != nil {
-		return err
-	}
 	for lineNo, fields := range records {
 		if len(fields) == 0 { // there exist empty lines (e.g. at the end of the gz files)
 			continue
@@ -427,44 +461,30 @@ func (l *LocalLogFetcher) processIncomingFiles() {
 				r.chains = append(r.chains, data.ChainPayloads)
 			}
 			if currentSize >= l.processBatchSize {
-				l.chanResults <- r
+				l.sendResult(r)
 				currentSize = 0
 				r = &result{}
 			}
 		}
+		// There is no more processing to do: either everything is read, or something failed.
+		if l.failCtx.Err() != nil {
+			r = &result{err: context.Cause(l.failCtx)}
+			currentSize = 1
+		}
 		if currentSize > 0 {
-			l.chanResults <- r
-			currentSize = 0
-			r = &result{}
+			l.sendResult(r)
 		}
 		close(l.chanResults)
-
-		// There is no more processing to do, close the errors channel and allow the
-		// error processor to finish.
-		close(l.errorCh)
-	}()
-
-	go func() {
-		// Print errors and return error if there was any error printed:
-		l.processErrorChannel()
+		l.failCancel(nil) // Release the resources.
 	}()
 }
 
-// processErrorChannel outputs the errors it encounters in the errors channel.
-// Returns with error if any is found, or nil if no error.
-func (p *LocalLogFetcher) processErrorChannel() error {
-	var errorsFound bool
-	for err := range p.errorCh {
-		if err == nil {
-			continue
-		}
-		errorsFound = true
-		fmt.Fprintf(os.Stderr, "%s\n", err)
-	}
-	if errorsFound {
-		return fmt.Errorf("errors found while processing. See above")
+// sendResult blocks until the result is accepted or the LogFetcher is requested to stop.
+func (l *LocalLogFetcher) sendResult(r *result) {
+	select {
+	case l.chanResults <- r:
+	case <-l.stopCtx.Done():
 	}
-	return nil
 }
 
 func getGzFileChain(stateMap map[int64][]*CsvFileInfo, start int64) []*CsvFileInfo {
@@ -493,6 +513,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 			if err != nil {
 				return nil, err
 			}
+			if end < start {
+				return nil, fmt.Errorf("invalid range in file name %s", path)
+			}
 			return &CsvFileInfo{
 				path:      path,
 				isGzipped: isGzipped,
@@ -507,6 +530,9 @@ func getFileInfo(path, fileName string, isGzipped bool) (*CsvFileInfo, error) {
 // listFiles recursively finds all .csv and .gz files located in the given folder (or any subfolder)
 func listFiles(dir string) (gzFiles, csvFiles []*CsvFileInfo, err error) {
 	err = filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
+		if err != nil {
+			return err
+		}
 		if !d.IsDir() {
 			gzFile, err := getFileInfo(path, d.Name(), true)
 			if err != nil {
-- 
2.43.0


From 7ab33e21fd09d4f7a48cc8c2b301742f7eab3518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:14 +0000
Subject: [PATCH 28/64] fix: schema script takes its process number as
 delimiter, failing when that occurs in a procedure

---
 tools/create_schema.sh | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/tools/create_schema.sh b/tools/create_schema.sh
index e6f02ac..42b82e8 100755
--- a/tools/create_schema.sh
+++ b/tools/create_schema.sh
@@ -197,7 +197,7 @@ EOF
 CMD=$(cat <<EOF
 USE $DBNAME;
 DROP PROCEDURE IF EXISTS calc_dirty_domains;
-DELIMITER $$
+DELIMITER \$\$
 -- The procedure has one argument: the partition number to operate on. Usually 0..31.
 -- Because MySQL doesn't support FULL OUTER JOIN, we have to emulate it.
 -- We want:
@@ -378,7 +378,7 @@ proc: BEGIN
 	DEALLOCATE PREPARE stmt;
 
 
-END$$
+END\$\$
 DELIMITER ;
 EOF
   )
@@ -388,7 +388,7 @@ EOF
 CMD=$(cat <<EOF
 USE $DBNAME;
 DROP PROCEDURE IF EXISTS prune_expired;
-DELIMITER $$
+DELIMITER \$\$
 -- The procedure has one parameter, the time considered "cut".
 -- Any x509 certificate that expires before that time will be removed.
 -- Any removed certificate will also trigger the removal of its descendants.
@@ -436,7 +436,7 @@ BEGIN
 	-- Finally, remove temporary table
 	DROP TEMPORARY TABLE temp_cert_ids;
 
-END$$
+END\$\$
 DELIMITER ;
 EOF
   )
-- 
2.43.0


From d1f07f4c48630158507174b32842ff4e362663e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:25:39 +0000
Subject: [PATCH 29/64] fix: malformed and overflowing durations are read as
 other values; next time of day off outside UTC; scheduled function runs after
 cancellation

---
 pkg/util/duration.go  | 29 +++++++++++++++++------------
 pkg/util/ticker.go    | 11 ++++++++++-
 pkg/util/time_wrap.go |  2 +-
 3 files changed, 28 insertions(+), 14 deletions(-)

diff --git a/pkg/util/duration.go b/pkg/util/duration.go
index dbe1f80..558a4d7 100644
--- a/pkg/util/duration.go
+++ b/pkg/util/duration.go
@@ -45,32 +45,37 @@ func ParseDuration(durationStr string) (time.Duration, error) {
 	if len(matches) != 3 {
 		return 0, fmt.Errorf("invalid duration string %s", durationStr)
 	}
-	var (
-		n, _ = strconv.Atoi(matches[1])
-		dur  = time.Duration(n)
-	)
+	n, err := strconv.ParseInt(matches[1], 10, 64)
+	if err != nil {
+		return 0, fmt.Errorf("invalid duration string %s: %w", durationStr, err)
+	}
+	factor := time.Nanosecond
 	switch unit := matches[2]; unit {
 	case "y":
-		dur *= year
+		factor = year
 	case "w":
-		dur *= week
+		factor = week
 	case "d":
-		dur *= day
+		factor = day
 	case "h":
-		dur *= time.Hour
+		factor = time.Hour
 	case "m":
-		dur *= time.Minute
+		factor = time.Minute
 	case "s":
-		dur *= time.Second
+		factor = time.Second
 	case "ms":
-		dur *= time.Millisecond
+		factor = time.Millisecond
 	case "us", "µs":
-		dur *= time.Microsecond
+		factor = time.Microsecond
 	case "ns":
 		// Value already correct
 	default:
 		return 0, fmt.Errorf("invalid time unit %s in duration string %s", unit, durationStr)
 	}
+	dur := time.Duration(n) * factor
+	if dur/factor != time.Duration(n) {
+		return 0, fmt.Errorf("duration string %s out of range", durationStr)
+	}
 	return dur, nil
 }
 
diff --git a/pkg/util/ticker.go b/pkg/util/ticker.go
index 1c5f4d4..c8154f8 100644
--- a/pkg/util/ticker.go
+++ b/pkg/util/ticker.go
@@ -20,9 +20,18 @@ func RunWhen(
 	go func() {
 		waiting := time.Until(when)
 		timer := time.NewTimer(waiting)
-		<-timer.C
+		select {
+		case <-timer.C:
+		case <-ctx.Done():
+			timer.Stop()
+			return
+		}
 		ticker := time.NewTicker(repeat)
 		for {
+			if ctx.Err() != nil {
+				ticker.Stop()
+				return
+			}
 			whenTick(ctx)
 			select {
 			case <-ticker.C:
diff --git a/pkg/util/time_wrap.go b/pkg/util/time_wrap.go
index 48e2ff4..6bd498d 100644
--- a/pkg/util/time_wrap.go
+++ b/pkg/util/time_wrap.go
@@ -89,7 +89,7 @@ func (t TimeOfDayWrap) String() string {
 // NextTimeOfDay returns the next possible time that keeps the same hour minute and second as this
 // TimeOfDayWrap. The returned time is never Before time.Now() and at most 1 day in the future.
 func (t TimeOfDayWrap) NextTimeOfDay() time.Time {
-	now := time.Now()
+	now := time.Now().UTC()
 
 	// The actual time in the present or future?
 	if !t.Time.Before(now) {
-- 
2.43.0


From 5e585671591f2b28f38000ee50e7d74817b5d236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:12 +0000
Subject: [PATCH 30/64] fix: names directly below a public suffix are accepted
 as wildcards or stripped to the suffix

---
 pkg/domain/domain.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/domain/domain.go b/pkg/domain/domain.go
index 3d7ec86..f12b2f4 100644
--- a/pkg/domain/domain.go
+++ b/pkg/domain/domain.go
@@ -93,9 +93,8 @@ func IsValidDomain(domain string) bool {
 		return false
 	}
 
-	suffix, iccan := publicsuffix.PublicSuffix(domain)
-	// if this is a TLD, return false
-	if iccan && suffix == domain {
+	// if this is a TLD, or all names directly below it, return false
+	if isPublicSuffix(strings.TrimPrefix(domain, "*.")) {
 		return false
 	}
 
@@ -108,6 +107,12 @@ func IsValidDomain(domain string) bool {
 	return true
 }
 
+// isPublicSuffix: check if this domain is a (publicly maintained) suffix
+func isPublicSuffix(domain string) bool {
+	suffix, iccan := publicsuffix.PublicSuffix(domain)
+	return iccan && suffix == domain
+}
+
 // SplitE2LD: return the E2LD and the rest of the domain names
 func SplitE2LD(domain string) ([]string, error) {
 	// check if the domain name has public suffix
@@ -156,8 +161,8 @@ func removeWildCardAndWWW(domainName string) string {
 		domainName = domainName[2:]
 	}
 
-	// remove "www."
-	if len(domainName) > 4 && domainName[:4] == "www." {
+	// remove "www.", unless it is itself the registered domain, e.g. "www.com"
+	if len(domainName) > 4 && domainName[:4] == "www." && !isPublicSuffix(domainName[4:]) {
 		domainName = domainName[4:]
 	}
 
-- 
2.43.0


From 542910b1d2b2a23938354b4579a8d92ed8278f30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 31/64] fix: damaged PEM certificates are skipped silently;
 reading PEM and CSV crashes on missing blocks, columns and chains

---
 pkg/mapserver/mapserver.go |  3 +++
 pkg/util/certReader.go     | 17 ++++++++++++++++-
 pkg/util/certificate.go    |  7 ++++++-
 pkg/util/io.go             | 32 +++++++++++++++++++++-----------
 4 files changed, 46 insertions(+), 13 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index f35c3d3..d1f4829 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -58,6 +58,9 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 	if err != nil {
 		return nil, fmt.Errorf("error loading certificate: %w", err)
 	}
+	if cert == nil {
+		return nil, fmt.Errorf("no certificate found in %s", conf.CertificatePemFile)
+	}
 	pemKey, err := ioutil.ReadFile(conf.PrivateKeyPemFile)
 	if err != nil {
 		return nil, fmt.Errorf("error loading private key: %w", err)
diff --git a/pkg/util/certReader.go b/pkg/util/certReader.go
index 2c400a4..f8ce844 100644
--- a/pkg/util/certReader.go
+++ b/pkg/util/certReader.go
@@ -1,12 +1,17 @@
 package util
 
 import (
+	"bytes"
 	"encoding/pem"
+	"fmt"
 	"io"
 
 	ctx509 "github.com/google/certificate-transparency-go/x509"
 )
 
+// certBegin starts a PEM block with a certificate.
+var certBegin = []byte("-----BEGIN CERTIFICATE-----")
+
 type CertReader struct {
 	r          io.Reader
 	storage    []byte
@@ -54,11 +59,21 @@ func (r *CertReader) Read(certs []ctx509.Certificate) (int, error) {
 		// Proceed to parse as many CERTIFICATE PEM blocks as possible.
 		var block *pem.Block
 		for len(certPointers) > 0 { // do-while block != nil && block.Type == CERTIFICATE
-			block, r.buff = pem.Decode(r.buff)
+			var rest []byte
+			block, rest = pem.Decode(r.buff)
 			if block == nil {
 				// No PEM block found, try to read more data and try again.
+				if r.eofReached && bytes.Contains(r.buff, certBegin) {
+					return 0, fmt.Errorf("malformed certificate: %w", io.ErrUnexpectedEOF)
+				}
 				break
 			}
+			begins := bytes.Count(r.buff[:len(r.buff)-len(rest)], certBegin)
+			r.buff = rest
+			if begins > 1 || begins == 1 && block.Type != "CERTIFICATE" {
+				// There is some other block that was skipped, as it could not be decoded.
+				return 0, fmt.Errorf("malformed certificate")
+			}
 			if block.Type != "CERTIFICATE" {
 				// Wrong PEM block, try to find another one.
 				continue
diff --git a/pkg/util/certificate.go b/pkg/util/certificate.go
index 32e4c24..4d6bec5 100644
--- a/pkg/util/certificate.go
+++ b/pkg/util/certificate.go
@@ -142,8 +142,13 @@ func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 	// Always add the leaf certificate.
 	certs = append(certs, *leafCert)
 	certIDs = append(certIDs, certID)
-	parentIDs = append(parentIDs, chainIDs[0])
 	names = append(names, ExtractCertDomains(leafCert))
+	if len(chain) == 0 {
+		// The certificate has no trust chain (it is root).
+		parentIDs = append(parentIDs, nil)
+		return
+	}
+	parentIDs = append(parentIDs, chainIDs[0])
 	// Add the intermediate certs iff their payload is not nil.
 	i := 0
 	for ; i < len(chain)-1; i++ {
diff --git a/pkg/util/io.go b/pkg/util/io.go
index d2e4dba..303df99 100644
--- a/pkg/util/io.go
+++ b/pkg/util/io.go
@@ -8,6 +8,7 @@ import (
 	"encoding/csv"
 	"encoding/pem"
 	"fmt"
+	"io"
 	"io/ioutil"
 	"os"
 	"strings"
@@ -45,6 +46,7 @@ func NewGzipReader(filename string) (*GzipReader, error) {
 	}
 	z, err := gzip.NewReader(f)
 	if err != nil {
+		f.Close()
 		return nil, err
 	}
 	return &GzipReader{
@@ -60,6 +62,7 @@ func ReadAllGzippedFile(filename string) ([]byte, error) {
 	}
 	buff, err := ioutil.ReadAll(r)
 	if err != nil {
+		r.Close()
 		return nil, err
 	}
 	return buff, r.Close()
@@ -72,26 +75,26 @@ func CertificateFromPEMFile(filename string) (*ctx509.Certificate, error) {
 	if err != nil {
 		return nil, err
 	}
+	defer f.Close()
+	return readOneCertificate(f)
+}
+
+// readOneCertificate returns the first certificate of the PEM stream, or nil if there is none.
+func readOneCertificate(f io.Reader) (*ctx509.Certificate, error) {
 	r := NewCertReader(f)
 	certs := make([]ctx509.Certificate, 1)
-	_, err = r.Read(certs)
+	n, err := r.Read(certs)
 	if err != nil {
 		return nil, err
 	}
-	// If no certificate was found, certs[0] will be nil.
+	if n == 0 {
+		return nil, nil
+	}
 	return &certs[0], nil
 }
 
 func CertificateFromPEMBytes(pem []byte) (*ctx509.Certificate, error) {
-	f := bytes.NewReader(pem)
-	r := NewCertReader(f)
-	certs := make([]ctx509.Certificate, 1)
-	_, err := r.Read(certs)
-	if err != nil {
-		return nil, err
-	}
-	// If no certificate was found, certs[0] will be nil.
-	return &certs[0], nil
+	return readOneCertificate(bytes.NewReader(pem))
 }
 
 // RSAKeyFromFile loads an RSA private key from file in PEM format.
@@ -107,6 +110,9 @@ func RSAKeyFromPEMFile(keyPath string) (*rsa.PrivateKey, error) {
 func RSAKeyFromPEM(bytes []byte) (*rsa.PrivateKey, error) {
 	block, _ := pem.Decode(bytes)
 	expectType := "RSA PRIVATE KEY"
+	if block == nil {
+		return nil, fmt.Errorf("no PEM block found")
+	}
 	if block.Type != expectType {
 		// wrong type.
 		return nil, fmt.Errorf("wrong type. Got '%s' expected '%s'",
@@ -180,6 +186,10 @@ func LoadCertsAndChainsFromCSV(
 		if len(fields) == 0 {
 			continue
 		}
+		if len(fields) <= CertChainColumn {
+			errRet = fmt.Errorf("row with only %d columns", len(fields))
+			return
+		}
 
 		cert, err := parseCertFromCSVField(fields[CertificateColumn])
 		if err != nil {
-- 
2.43.0


From cb3489d4fe334e79ba344c2cc628618ee9a35672 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:37 +0000
Subject: [PATCH 32/64] fix: size of a presence cache is read while it is
 written

---
 pkg/cache/presence_cache.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/cache/presence_cache.go b/pkg/cache/presence_cache.go
index 5e5b593..e2374de 100644
--- a/pkg/cache/presence_cache.go
+++ b/pkg/cache/presence_cache.go
@@ -84,5 +84,8 @@ func (c *PresenceCache) AddIDs(ids ...*common.SHA256Output) {
 }
 
 func (c *PresenceCache) Size() int {
+	c.addingMu.Lock()
+	defer c.addingMu.Unlock()
+
 	return len(c.sets[0])
 }
-- 
2.43.0


From 2b5c8c95298c1a43414de2e3df000d7a91ef6f38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 33/64] fix: verifying a policy certificate modifies it while
 serializing, and leaves it modified on failure

---
 pkg/common/crypto/crypto.go | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index 9ec172c..d605887 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -131,16 +131,15 @@ func VerifyOwnerSignatureInPolicyCertificate(
 		return err
 	}
 
-	// Serialize owned pol cert without SPCTs, issuer signature, issuer hash, and owner signature:
-	SPCTs, issuerSignature, issuerHash, ownerSignature :=
-		c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature
-	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature = nil, nil, nil, nil
-	serializedStruct, err := common.ToJSON(c)
+	// Serialize owned pol cert without SPCTs, issuer signature, issuer hash, and owner signature.
+	// Use a shallow copy, as the passed certificate must not be modified.
+	signed := *c
+	signed.SPCTs, signed.IssuerSignature, signed.IssuerHash, signed.OwnerSignature =
+		nil, nil, nil, nil
+	serializedStruct, err := common.ToJSON(&signed)
 	if err != nil {
 		return fmt.Errorf("RCSRVerifySignature | ToJSON | %w", err)
 	}
-	c.SPCTs, c.IssuerSignature, c.IssuerHash, c.OwnerSignature =
-		SPCTs, issuerSignature, issuerHash, ownerSignature // restore previous values
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := sha256.Sum256(serializedStruct)
@@ -284,14 +283,14 @@ func VerifyIssuerSignature(
 		return err
 	}
 
-	// Serialize child cert without signature:
-	sig := childPolCert.IssuerSignature
-	childPolCert.IssuerSignature = nil
-	serializedStruct, err := common.ToJSON(childPolCert)
+	// Serialize child cert without signature. Use a shallow copy, as the passed certificate must
+	// not be modified.
+	signed := *childPolCert
+	signed.IssuerSignature = nil
+	serializedStruct, err := common.ToJSON(&signed)
 	if err != nil {
 		return err
 	}
-	childPolCert.IssuerSignature = sig // restore previous signature
 
 	// Hash serialized request and check the signature with the owner's public key.
 	hashOutput := common.SHA256Hash(serializedStruct)
@@ -317,13 +316,12 @@ func signStructRSASHA256(s any, key *rsa.PrivateKey) ([]byte, error) {
 // ComputeHashAsSigner computes the bytes of the policy certificate as being an owner certificate.
 // This means: it serializes it but without SPCTs or issuer signature, and computes its sha256.
 func ComputeHashAsSigner(p *common.PolicyCertificate) ([]byte, error) {
-	// Remove SPCTs and issuer signature.
-	SPCTs, issuerSignature := p.SPCTs, p.IssuerSignature
-	p.SPCTs, p.IssuerSignature = nil, nil
+	// Remove SPCTs and issuer signature, in a shallow copy: the passed certificate must not be
+	// modified.
+	stripped := *p
+	stripped.SPCTs, stripped.IssuerSignature = nil, nil
 
-	// Serialize and restore previously removed fields.
-	serializedPC, err := common.ToJSON(p)
-	p.SPCTs, p.IssuerSignature = SPCTs, issuerSignature
+	serializedPC, err := common.ToJSON(&stripped)
 
 	return common.SHA256Hash(serializedPC), err
 }
-- 
2.43.0


From d6cc2733a5e85891bd387bea88a7fa7e71db00f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 34/64] fix: domain constraint of the issuer is applied only to
 unrestricted issuers; invalid domain names are accepted

---
 pkg/common/crypto/crypto.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/common/crypto/crypto.go b/pkg/common/crypto/crypto.go
index d605887..fd97c1f 100644
--- a/pkg/common/crypto/crypto.go
+++ b/pkg/common/crypto/crypto.go
@@ -237,14 +237,14 @@ func VerifyIssuerConstraints(
 
 	// check domain constraint
 	// TODO (cyrill): could also check with public suffix list
-	validDomainName := regexp.MustCompile("([^.]+\\.)*([^.]+\\.?)?")
+	validDomainName := regexp.MustCompile("^([^.]+\\.)*([^.]+\\.?)?$")
 	if !validDomainName.Match([]byte(childPolCert.DomainField)) {
 		return fmt.Errorf("Policy Certificate does not have a valid domain name: %s", childPolCert.DomainField)
 	}
 	if !validDomainName.Match([]byte(issuerPolCert.DomainField)) {
 		return fmt.Errorf("Issuer Policy Certificate does not have a valid domain name: %s", issuerPolCert.DomainField)
 	}
-	if issuerPolCert.DomainField != "" {
+	if issuerPolCert.DomainField == "" {
 		// all domain fields are accepted
 	} else if issuerPolCert.DomainField == childPolCert.DomainField {
 		// identical domain fields are accepted
-- 
2.43.0


From 0eeab65bd70c2503b4f33b62f166c418857a93ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:35 +0000
Subject: [PATCH 35/64] fix: decoded documents alias the caller's buffer, nil
 documents crash encoding, equal revocations compare different

---
 pkg/common/json.go     | 7 +++++--
 pkg/common/policies.go | 2 +-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/common/json.go b/pkg/common/json.go
index 42d3e17..10bed55 100644
--- a/pkg/common/json.go
+++ b/pkg/common/json.go
@@ -83,6 +83,9 @@ func (*serializableObjectBase) marshalJSON(obj any) (string, []byte, error) {
 		valOf := reflect.ValueOf(obj)
 		switch valOf.Kind() {
 		case reflect.Pointer:
+			if valOf.IsNil() {
+				return "", nil, fmt.Errorf("cannot marshal a nil pointer of type %T", obj)
+			}
 			// Dereference and convert to "any".
 			T, O, err := (*serializableObjectBase)(nil).marshalJSON(valOf.Elem().Interface())
 			return fmt.Sprintf("*%s", T), O, err
@@ -143,8 +146,8 @@ func (o *serializableObjectBase) UnmarshalJSON(data []byte) error {
 			if base != (reflect.Value{}) {
 				// It is a PolicyPartBase like object. Check the Raw field (should always be true).
 				if raw := base.FieldByName("JSONField"); raw != (reflect.Value{}) {
-					// Set its value to the JSON data.
-					raw.Set(reflect.ValueOf(data))
+					// Set its value to (a copy of) the JSON data, as data belongs to the caller.
+					raw.SetBytes(append([]byte(nil), data...))
 				} else {
 					// This should never happen, and the next line should ensure it:
 					_ = PolicyPartBase{}.JSONField
diff --git a/pkg/common/policies.go b/pkg/common/policies.go
index 4d64f0b..fb6c3f1 100644
--- a/pkg/common/policies.go
+++ b/pkg/common/policies.go
@@ -363,7 +363,7 @@ func NewPolicyCertificateRevocationFields(
 
 func (c PolicyCertificateRevocationFields) Equal(x PolicyCertificateRevocationFields) bool {
 	return c.PolicyCertificateBase.Equal(x.PolicyCertificateBase) &&
-		c.TimeStamp == x.TimeStamp &&
+		c.TimeStamp.Equal(x.TimeStamp) &&
 		bytes.Equal(c.OwnerSignature, x.OwnerSignature) &&
 		bytes.Equal(c.OwnerHash, x.OwnerHash)
 }
-- 
2.43.0


From 4f75038a9af8bcbb280675e37db88d9d58d2acef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:46 +0000
Subject: [PATCH 36/64] fix: owner signatures made with certificates issued by
 the policy CA are never verified

---
 pkg/pca/pca.go | 25 ++++++++++++++++++++++---
 1 file changed, 22 insertions(+), 3 deletions(-)

diff --git a/pkg/pca/pca.go b/pkg/pca/pca.go
index 0648e10..7ae3f0b 100644
--- a/pkg/pca/pca.go
+++ b/pkg/pca/pca.go
@@ -27,6 +27,10 @@ type PCA struct {
 	LogServerRequester LogServerRequester                     // not set
 	DB                 map[[32]byte]*common.PolicyCertificate // per hash of public key
 	SerialNumber       int                                    // unique serial number per pol cert
+
+	// Issued policy certificates, by their hash as signers (the value of the OwnerHash field in
+	// the requests signed with them as owners).
+	issuedByOwnerHash map[[32]byte]*common.PolicyCertificate
 }
 
 // LogServerRequester is implemented by objects that can talk to CT log servers.
@@ -86,6 +90,8 @@ func NewPCA(configPath string) (*PCA, error) {
 		CtLogServers:   logServers,
 		DB:             make(map[[32]byte]*common.PolicyCertificate),
 		SerialNumber:   0,
+
+		issuedByOwnerHash: make(map[[32]byte]*common.PolicyCertificate),
 	}, nil
 }
 
@@ -179,7 +185,9 @@ func (pca *PCA) SignAndLogRequest(
 		return nil, err
 	}
 
-	pca.storeInDb(pc)
+	if err := pca.storeInDb(pc); err != nil {
+		return nil, err
+	}
 
 	return pc, nil
 }
@@ -200,7 +208,10 @@ func (pca *PCA) canSkipCoolOffPeriod(req *common.PolicyCertificateSigningRequest
 	}
 	// Cast it to array and check the DB.
 	key := (*[32]byte)(req.OwnerHash)
-	stored, ok := pca.DB[*key]
+	stored, ok := pca.issuedByOwnerHash[*key]
+	if !ok {
+		stored, ok = pca.DB[*key]
+	}
 	if !ok {
 		// No such certificate, cannot skip cool off period.
 		return false, nil
@@ -260,9 +271,17 @@ func (pca *PCA) sendFinalPolCertToAllLogServers(pc *common.PolicyCertificate) er
 	return nil
 }
 
-func (pca *PCA) storeInDb(pc *common.PolicyCertificate) {
+func (pca *PCA) storeInDb(pc *common.PolicyCertificate) error {
+	ownerHash, err := crypto.ComputeHashAsSigner(pc)
+	if err != nil {
+		return fmt.Errorf("computing the owner hash of the issued policy certificate: %w", err)
+	}
+	pca.issuedByOwnerHash[*(*[32]byte)(ownerHash)] = pc
+
 	key := (*[32]byte)(common.SHA256Hash(pc.PublicKey))
 	pca.DB[*key] = pc
+
+	return nil
 }
 
 // TODO(yongzhe): modify this to make sure unique SN
-- 
2.43.0


From 20f78db8fda4398495f89781fcc21d6493991a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 37/64] fix: inclusion verification stops at the first
 malformed proof although a later one is valid, and crashes on nil

---
 pkg/logverifier/verifier.go | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/pkg/logverifier/verifier.go b/pkg/logverifier/verifier.go
index 15377c7..17c2231 100644
--- a/pkg/logverifier/verifier.go
+++ b/pkg/logverifier/verifier.go
@@ -84,11 +84,20 @@ func (c *LogVerifier) VerifyRoot(trusted *types.LogRootV1, newRoot *types.LogRoo
 func (c *LogVerifier) VerifyInclusionByHash(trustedRoot *types.LogRootV1, leafHash []byte,
 	proofs []*trillian.Proof) error {
 
+	if trustedRoot == nil {
+		return fmt.Errorf("VerifyInclusionByHash() error: trustedRoot == nil")
+	}
+
 	// As long as one proof is verified, the verification is successful.
 	// Proofs might contain multiple proofs for different leaves, while the content of each leaf
 	// is identical. Trillian will return all the proofs for one content.
-	// So one successful verification is enough.
+	// So one successful verification is enough, regardless of what the other proofs contain.
+	var unexpected error
 	for _, proof := range proofs {
+		if proof == nil {
+			unexpected = fmt.Errorf("nil proof")
+			continue
+		}
 		err := logProof.VerifyInclusion(c.hasher, uint64(proof.LeafIndex), trustedRoot.TreeSize,
 			leafHash, proof.Hashes, trustedRoot.RootHash)
 
@@ -96,15 +105,11 @@ func (c *LogVerifier) VerifyInclusionByHash(trustedRoot *types.LogRootV1, leafHa
 			return nil
 		}
 		if _, ok := err.(logProof.RootMismatchError); !ok {
-			return fmt.Errorf("VerifyInclusionByHash | Unexpected error: %w", err)
+			unexpected = err
 		}
-
-		// deleteme, err := logProof.RootFromInclusionProof(c.hasher, uint64(proof.LeafIndex), trustedRoot.TreeSize,
-		// 	leafHash, proof.Hashes)
-		// if err != nil {
-		// 	panic(err)
-		// }
-		// fmt.Printf("deleteme calcRoot = %s\n", base64.StdEncoding.EncodeToString(deleteme))
+	}
+	if unexpected != nil {
+		return fmt.Errorf("VerifyInclusionByHash | Unexpected error: %w", unexpected)
 	}
 	// This is a logProof.RootMismatchError, aka different hash values.
 	return fmt.Errorf("verification failed: different hashes")
-- 
2.43.0


From f78ce290087ff176d5bf00beed8349e10318b4e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 38/64] fix: policy log client crashes or loops on no entries
 and on incomplete responses, and reports an entry nobody submitted as failed

---
 pkg/policylog/client/concurrentfunc.go | 21 +++++++++++++++++----
 pkg/policylog/client/logclient.go      |  5 ++++-
 2 files changed, 21 insertions(+), 5 deletions(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 3f7dfb2..5297fa3 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -97,7 +97,11 @@ func (c *LogClient) AddLeaves(ctx context.Context, data [][]byte) *addLeavesResu
 	// init result
 	result := &addLeavesResult{
 		Errs:         []error{},
-		FailedLeaves: [][]byte{{}},
+		FailedLeaves: [][]byte{},
+	}
+	if len(data) == 0 {
+		// nothing to add
+		return result
 	}
 
 	// channels to workers
@@ -197,6 +201,11 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 			// get result
 			resp, err := worker.GetInclusionProofByHash(ctx, request)
 
+			// a response without any proof means that the leaf is not found
+			if err == nil && len(resp.GetProof()) == 0 {
+				err = status.Error(codes.NotFound, "response does not contain any proof")
+			}
+
 			// if the leaf is not found -> try later
 			if err != nil && status.Code(err) == codes.NotFound {
 				// if retry for 10 times, return error
@@ -216,15 +225,15 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 				resultChan <- *workerResult
 				break workerQueryLoop
 
-				// normally, proof will > 0, except for when there is only one leaf in the log; ignore this situation
-			} else if len(resp.Proof) > 0 {
+				// here we have always at least one proof
+			} else {
 				// init poiAndSTH
 				poiAndSTH := new(PoIAndSTH)
 				// when query succeeds
 				poiAndSTH.PoIs = resp.Proof
 
 				// marshall the log root (Signed Tree Head)
-				if err := poiAndSTH.STH.UnmarshalBinary(resp.SignedLogRoot.LogRoot); err != nil {
+				if err := poiAndSTH.STH.UnmarshalBinary(resp.GetSignedLogRoot().GetLogRoot()); err != nil {
 					workerResult.err = err
 					workerResult.failedLeafData = []byte(leafData)
 					resultChan <- *workerResult
@@ -248,6 +257,10 @@ func (c *LogClient) FetchInclusions(ctx context.Context, leavesData [][]byte) *f
 	// init result
 	fetchInclusionResult := new(fetchInclusionResult)
 	fetchInclusionResult.PoIs = make(map[string]*PoIAndSTH)
+	if len(leavesData) == 0 {
+		// nothing to fetch
+		return fetchInclusionResult
+	}
 
 	workChan := make(chan string)
 	resultChan := make(chan fetchInclusionResultFromWorker)
diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 94a6fe2..021bc2c 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -106,7 +106,7 @@ func (c *LogClient) GetCurrentLogRoot(ctx context.Context) (*types.LogRootV1, er
 	}
 
 	var root types.LogRootV1
-	if err := root.UnmarshalBinary(logRootResp.SignedLogRoot.LogRoot); err != nil {
+	if err := root.UnmarshalBinary(logRootResp.GetSignedLogRoot().GetLogRoot()); err != nil {
 		return nil, fmt.Errorf("GetCurrentLogRoot | UnmarshalBinary: %w", err)
 	}
 	return &root, nil
@@ -137,6 +137,9 @@ func (c *LogClient) GetConsistencyProof(ctx context.Context, trusted *types.LogR
 		return nil, fmt.Errorf("GetConsistencyProof | %w", err)
 	}
 
+	if resp.GetProof() == nil {
+		return nil, fmt.Errorf("GetConsistencyProof | response does not contain any proof")
+	}
 	return resp.Proof.Hashes, nil
 }
 
-- 
2.43.0


From f73be3394b176c5f8f308d98f880d74758a2ed1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:07 +0000
Subject: [PATCH 39/64] fix: queueing policy certificates loses files, hides
 errors of adding leaves, and waits forever if the log grows otherwise

---
 pkg/policylog/client/logclient.go | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 021bc2c..56e028e 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -69,6 +69,11 @@ func NewLogClient(configPath string, treeId int64) (*LogClient, error) {
 		return nil, fmt.Errorf("NewLogClient | ReadLogClientConfigFromFile | %w", err)
 	}
 
+	if config.NumOfWorker < 1 {
+		return nil, fmt.Errorf("NewLogClient | at least one worker is necessary, got %d",
+			config.NumOfWorker)
+	}
+
 	// init worker pool
 	workers := []trillian.TrillianLogClient{}
 	for i := 1; i <= config.NumOfWorker; i++ {
@@ -169,6 +174,7 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	// process the errors from AddLeaves()
 	queueRPCResult.NumOfSucceedAddedLeaves = leafNum - len(addLeavesErrors.Errs)
 	queueRPCResult.FailToAddLeaves = addLeavesErrors.FailedLeaves
+	queueRPCResult.AddLeavesErrs = addLeavesErrors.Errs
 
 	// calculate time
 	elapsed := time.Since(start)
@@ -184,7 +190,8 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 		if err != nil {
 			return queueRPCResult, fmt.Errorf("QueueRPCs | UpdateTreeSize: %w", err)
 		}
-		if c.currentTreeSize == prevTreeSize+int64(queueRPCResult.NumOfSucceedAddedLeaves) {
+		// (the log may also grow with leaves that are not ours)
+		if c.currentTreeSize >= prevTreeSize+int64(queueRPCResult.NumOfSucceedAddedLeaves) {
 			break
 		}
 		// wait 50 ms before next query
@@ -219,6 +226,7 @@ func (c *LogClient) readRPCFromFileToBytes() ([][]byte, error) {
 	}
 
 	// read SPT from "fileTransfer" folder
+	filePaths := []string{}
 	for _, filaName := range fileNames {
 		filaPath := c.config.PolicyLogExchangePath + "/rpc/" + filaName.Name()
 
@@ -235,8 +243,11 @@ func (c *LogClient) readRPCFromFileToBytes() ([][]byte, error) {
 		}
 
 		data = append(data, bytes)
+		filePaths = append(filePaths, filaPath)
+	}
 
-		// delete rpc
+	// delete the rpcs only when all of them could be read, so that none is lost
+	for _, filaPath := range filePaths {
 		os.Remove(filaPath)
 	}
 	return data, nil
-- 
2.43.0


From 362a54781be2e0680ad7abcd865761ac969ba465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:01 +0000
Subject: [PATCH 40/64] fix: map server reports an update done before its
 responder uses it, answers twice on failure and blocks forever, crashes on
 updates after stopping

---
 pkg/mapserver/mapserver.go | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index d1f4829..df5013a 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -31,6 +31,9 @@ const (
 	CertificatesAndPolicies
 )
 
+// errUpdatesStopped is returned if an update is requested after the map server finished.
+var errUpdatesStopped = fmt.Errorf("map server finished, it does not update anymore")
+
 type MapServer struct {
 	Updater   *updater.MapUpdater
 	Responder *responder.MapResponder
@@ -46,6 +49,7 @@ type MapServer struct {
 	apiStopServerChan chan struct{}
 	updateChan        chan context.Context
 	updateErrChan     chan error
+	updatesStopped    chan struct{} // Closed when no more updates are possible.
 }
 
 func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error) {
@@ -120,6 +124,7 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 		apiStopServerChan: make(chan struct{}, 1),
 		updateChan:        make(chan context.Context),
 		updateErrChan:     make(chan error),
+		updatesStopped:    make(chan struct{}),
 	}
 
 	// Start listening for update requests.
@@ -131,14 +136,16 @@ func NewMapServer(ctx context.Context, conf *config.Config) (*MapServer, error)
 				// TODO: ensure that the Mapserver is never in an inconsistent state. Currently, if
 				// the new SMT is applied but the responder does not yet use the updated SMT root
 				// value, queries will fail
-				s.pruneAndUpdate(c)
-				err := s.Responder.ReloadRootAndSignTreeHead(c, s.Key)
-				if err != nil {
-					s.updateErrChan <- err
+				err := s.pruneAndUpdate(c)
+				// Even if the update failed, a new root could have been stored already.
+				if reloadErr := s.Responder.ReloadRootAndSignTreeHead(c, s.Key); err == nil {
+					err = reloadErr
 				}
+				// Exactly one answer per request, once the responder is up to date.
+				s.updateErrChan <- err
 			case <-ctx.Done():
 				// Requested to exit.
-				close(s.updateChan)
+				close(s.updatesStopped)
 				return
 			}
 		}
@@ -216,6 +223,8 @@ func (s *MapServer) PruneAndUpdateIfPossible(ctx context.Context) (bool, error)
 		// Wait for the answer (in form of an error).
 		err := <-s.updateErrChan
 		return true, err
+	case <-s.updatesStopped:
+		return false, errUpdatesStopped
 	default:
 		return false, nil
 	}
@@ -224,7 +233,11 @@ func (s *MapServer) PruneAndUpdateIfPossible(ctx context.Context) (bool, error)
 // PruneAndUpdate triggers an update. If an ongoing update is still in process, it blocks.
 func (s *MapServer) PruneAndUpdate(ctx context.Context) error {
 	// Signal we want an update.
-	s.updateChan <- ctx
+	select {
+	case s.updateChan <- ctx:
+	case <-s.updatesStopped:
+		return errUpdatesStopped
+	}
 
 	// Wait for the answer (in form of an error).
 	err := <-s.updateErrChan
@@ -302,15 +315,14 @@ func (s *MapServer) apiGetPayloads(w http.ResponseWriter, r *http.Request, retur
 	}
 }
 
-func (s *MapServer) pruneAndUpdate(ctx context.Context) {
+func (s *MapServer) pruneAndUpdate(ctx context.Context) error {
 	// Refrain from updating if pruning failed.
 	err := s.prune(ctx)
 	if err != nil {
-		s.updateErrChan <- err
-		return
+		return err
 	}
 
-	s.updateErrChan <- s.update(ctx)
+	return s.update(ctx)
 }
 
 // prune only removes the affected certificates from the certs table and adds the affected domains
-- 
2.43.0


From b80af541da8420b5182583a250f5a3743741e746 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 41/64] fix: criss-cross error forwarding uses the channels of
 its own run

---
 pkg/pipeline/stage.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 1cdb6f6..d21496d 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -236,38 +236,40 @@ func LinkStagesCrissCross[IN, OUT, NEXT any](
 	errCh := make(chan error)
 	DebugPrintf("linking error channels to criss-cross -< %s <-\n", chanPtr(errCh))
 	// Incoming error channels.
-	for _, prev := range prevStages {
-		prev.NextErrChs[0] = make(chan error)
+	// The goroutines must use these channels even if the stages are later linked differently.
+	prevErrChs := make([]chan error, len(prevStages))
+	for i, prev := range prevStages {
+		prevErrChs[i] = make(chan error)
+		prev.NextErrChs[0] = prevErrChs[i]
 		DebugPrintf("\tin error channel [%s]:%s <-\n", prev.Name, chanPtr(prev.NextErrChs[0]))
 	}
 	go func() {
 		for err := range errCh {
 			// Error received. Send to previous stages in parallel.
 			wg := sync.WaitGroup{}
-			wg.Add(len(prevStages))
-			for _, prev := range prevStages {
-				prev := prev
+			wg.Add(len(prevErrChs))
+			for _, prevErrCh := range prevErrChs {
 				go func() {
 					defer wg.Done()
-					prev.NextErrChs[0] <- err
+					prevErrCh <- err
 				}()
 			}
 			// Wait for the error to be sent to all previous stages.
 			wg.Wait()
 		}
 		// Close all incoming error channels.
-		for _, prev := range prevStages {
-			close(prev.NextErrChs[0])
+		for _, prevErrCh := range prevErrChs {
+			close(prevErrCh)
 		}
 	}()
 	// Outgoing (emitting) error channels.
 	wgOut := sync.WaitGroup{}
 	wgOut.Add(len(nextStages))
 	for _, next := range nextStages {
-		next := next
+		nextErrCh := next.ErrCh
 		go func() {
 			defer wgOut.Done() // Done when the error channel of next stage i is closed.
-			for err := range next.ErrCh {
+			for err := range nextErrCh {
 				errCh <- err
 			}
 		}()
-- 
2.43.0


From 7ab5af6ff8cfb7027f29b481cc6d8341b5ca1b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 42/64] fix: a stage stops sending its outputs at the first
 error of a next stage, and keeps the slices of the process function intact

---
 pkg/pipeline/stage.go | 68 ++++++++++++++++++++++++++++---------------
 1 file changed, 45 insertions(+), 23 deletions(-)

diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index d21496d..61e187a 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -66,7 +66,8 @@ type Stage[IN, OUT any] struct {
 	OutgoingChs        []chan OUT // Data to the next stages goes here.
 	AggregatedIncomeCh chan IN    // Aggregated input channel.
 
-	cacheCompletedOutgoingIndices []int // Cache to reuse space.
+	cachePendingOutgoingIndices []int     // Cache to reuse space.
+	loopDone                    chan None // Closed when this stage stops reading and processing.
 
 	ProcessFunc func(in IN) ([]OUT, []int, error) // From 1 IN to n OUT, using n channels.
 	streamFunc  func(*[]OUT, *[]int) error        // Streaming function.
@@ -93,10 +94,10 @@ func NewStage[IN, OUT any](
 ) *Stage[IN, OUT] {
 
 	s := &Stage[IN, OUT]{
-		StageBase:                     newStageBase(name),
-		IncomingChs:                   make([]chan IN, 1),  // Per default, just one channel.
-		OutgoingChs:                   make([]chan OUT, 1), // Per default, just one channel.
-		cacheCompletedOutgoingIndices: make([]int, 0, 16),  // Init to 16 outputs per process call.
+		StageBase:                   newStageBase(name),
+		IncomingChs:                 make([]chan IN, 1),  // Per default, just one channel.
+		OutgoingChs:                 make([]chan OUT, 1), // Per default, just one channel.
+		cachePendingOutgoingIndices: make([]int, 0, 16),  // Init to 16 outputs per process call.
 		streamFunc: func(o *[]OUT, i *[]int) error {
 			return NoMoreData
 		},
@@ -543,14 +544,19 @@ func (s *Stage[IN, OUT]) sendOutputsSequential(
 		case err := <-s.NextStagesAggregatedErrCh:
 			DebugPrintf("[%s] ERROR while sending at channel %d the value %v, error: %v\n",
 				s.Name, outChIndex, out, err)
-			// We received an error from next stage while trying to write to it.
+			// We received an error from next stage while trying to write to it. That stage might
+			// not be reading anymore, do not attempt to send the rest.
 			*foundError = err
 			*shouldBreakReadingIncoming = true
-			failedIndices = append(failedIndices, i)
+			for ; i < len(outs); i++ {
+				failedIndices = append(failedIndices, i)
+			}
+			return failedIndices
 		case <-s.StopCh:
 			// We have been instructed to stop, without reading any other channel.
 			DebugPrintf("[%s] instructed to stop\n", s.Name)
 			*shouldReturn = true
+			return failedIndices
 		}
 	}
 
@@ -573,8 +579,10 @@ func (s *Stage[IN, OUT]) sendOutputsConcurrent(
 	wg := sync.WaitGroup{}
 	wg.Add(len(outs))
 
-	muShouldReturn := sync.Mutex{}
-	muShouldBreakReadingIncoming := sync.Mutex{} // Also for foundError and indices.
+	mu := sync.Mutex{}          // For all the results.
+	giveUpCh := make(chan None) // Closed when the rest of the outputs should not be sent.
+	giveUpOnce := sync.Once{}
+	giveUp := func() { giveUpOnce.Do(func() { close(giveUpCh) }) }
 
 	for i := range outs {
 		i := i
@@ -597,17 +605,24 @@ func (s *Stage[IN, OUT]) sendOutputsConcurrent(
 				DebugPrintf("[%s] ERROR while sending at channel %d the value %v: %v\n",
 					s.Name, outChIndex, out, err)
 				// We received an error from next stage while trying to write to it.
-				muShouldBreakReadingIncoming.Lock()
-				*foundError = err
+				// That stage might not be reading anymore, do not attempt to send the rest.
+				mu.Lock()
+				*foundError = util.ErrorsCoalesce(*foundError, err)
 				*shouldBreakReadingIncoming = true
 				failedIndices = append(failedIndices, i)
-				muShouldBreakReadingIncoming.Unlock()
+				mu.Unlock()
+				giveUp()
 			case <-s.StopCh:
 				// We have been instructed to stop, without reading any other channel.
 				DebugPrintf("[%s] instructed to stop\n", s.Name)
-				muShouldReturn.Lock()
+				mu.Lock()
 				*shouldReturn = true
-				muShouldReturn.Unlock()
+				mu.Unlock()
+				giveUp()
+			case <-giveUpCh:
+				mu.Lock()
+				failedIndices = append(failedIndices, i)
+				mu.Unlock()
 			}
 		}()
 	}
@@ -630,11 +645,17 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 	failedIndices := []int{}
 	// For each value/channel, try to send if it doesn't block, otherwise bail and go to
 	// the next value/channel.
+	// The slices belong to the processing function and are not modified.
 	shouldStopSending := false
+	pending := s.cachePendingOutgoingIndices[:0]
+	for i := range outs {
+		pending = append(pending, i)
+	}
+	s.cachePendingOutgoingIndices = pending
 	for {
-		s.cacheCompletedOutgoingIndices = s.cacheCompletedOutgoingIndices[:0]
+		stillPending := pending[:0]
 	eachOutput:
-		for i := range outs {
+		for k, i := range pending {
 			out := outs[i]
 			outChIndex := outChIndxs[i]
 			// We attempt to write the out data to the outgoing channel.
@@ -647,7 +668,6 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 			select {
 			case s.OutgoingChs[outChIndex] <- out:
 				// Success writing to the outgoing channel, nothing else to do.
-				s.cacheCompletedOutgoingIndices = append(s.cacheCompletedOutgoingIndices, i)
 				if DebugEnabled {
 					DebugPrintf("[%s] value %v sent to channel %d: %s\n",
 						s.Name, out, outChIndex, chanPtr(s.OutgoingChs[outChIndex]))
@@ -660,23 +680,25 @@ func (s *Stage[IN, OUT]) sendOutputsCyclesAllowed(
 				// We received an error from next stage while trying to write to it.
 				*foundError = err
 				shouldStopSending = true
-				failedIndices = append(failedIndices, i)
+				failedIndices = append(failedIndices, stillPending...)
+				failedIndices = append(failedIndices, pending[k:]...)
 				break eachOutput
 			case <-s.StopCh:
 				// We have been instructed to stop, without reading any other channel.
 				DebugPrintf("[%s] instructed to stop\n", s.Name)
 				*shouldReturn = true
+				break eachOutput
 			default: // the outCh is not ready, try with next value/channel
+				stillPending = append(stillPending, i)
 				if DebugEnabled {
 					DebugPrintf("[%s] out channel %d not ready\n", s.Name, outChIndex)
 				}
 			}
 		}
-		util.RemoveElementsFromSlice(&outs, s.cacheCompletedOutgoingIndices)
-		util.RemoveElementsFromSlice(&outChIndxs, s.cacheCompletedOutgoingIndices)
-		if len(outs) == 0 || *shouldReturn || shouldStopSending {
-			DebugPrintf("[%s] break sending: len(outs) = %d, shouldReturn = %v, shouldBreak = %v\n",
-				s.Name, len(outs), *shouldReturn, *shouldBreakReadingIncoming)
+		pending = stillPending
+		if len(pending) == 0 || *shouldReturn || shouldStopSending {
+			DebugPrintf("[%s] break sending: len(pending) = %d, shouldReturn = %v, shouldBreak = %v\n",
+				s.Name, len(pending), *shouldReturn, *shouldBreakReadingIncoming)
 			break
 		}
 		runtime.Gosched() // Yield processor before we attempt to send again.
-- 
2.43.0


From 84b835cf88a292c8ae665b4ba134cc248ef546fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 43/64] fix: every failure in a pipeline stops all stages and
 is reported by Wait, nothing keeps running

---
 pkg/pipeline/pipeline.go     | 16 +++++---
 pkg/pipeline/source.go       | 47 +++++++++++++---------
 pkg/pipeline/stage.go        | 75 ++++++++++++++++++++++++++++--------
 pkg/pipeline/stall_resume.go |  6 ++-
 4 files changed, 104 insertions(+), 40 deletions(-)

diff --git a/pkg/pipeline/pipeline.go b/pkg/pipeline/pipeline.go
index a436a26..d00c616 100644
--- a/pkg/pipeline/pipeline.go
+++ b/pkg/pipeline/pipeline.go
@@ -3,6 +3,8 @@ package pipeline
 import (
 	"context"
 	"fmt"
+
+	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
 // Pipeline represents a data processing pipeline.
@@ -33,8 +35,8 @@ import (
 // 5. If the error originated in this stage:
 // 5.1. This stage must stop processing data and writing to the outgoing channel.
 // 5.2. This stage closes the outgoing channel.
-// 5.3. This stage waits for the error signal from the next stage. It can aggregate it to its own.
-// 5.4. This stage sends the (maybe aggregated) error to the previous stage.
+// 5.3. This stage sends the error to the previous stage.
+// 5.4. This stage waits for the next stage to finish, and sends its errors to the previous stage.
 // 5.5. This stage closes the error channel.
 // 5.6. This stage finishes all routines.
 //
@@ -42,8 +44,8 @@ import (
 // 6.1. This stage must stop processing data, but it can't close its incoming channel.
 // 6.2. This stage closes its outgoing channel.
 // 6.2.1. This forces the next stage to stop processing.
-// 6.2.2. Error or nil will be sent back. There was a previous error from the next stage.
-// 6.3. This stage propagates backwards the error.
+// 6.2.2. More errors may be sent back. There was a previous error from the next stage.
+// 6.3. This stage propagates backwards the errors.
 // 6.4. This stage closes its error channel.
 // 6.5. This stage finishes all routines.
 //
@@ -152,7 +154,11 @@ func (p *Pipeline) Wait(ctx context.Context) error {
 	// It is not a source, just treat it as a stage.
 	DebugPrintf("[pipeline] Wait on NON source, chan is: %s.\n",
 		chanPtr(p.Stages[0].Base().ErrCh))
-	return <-p.Stages[0].Base().ErrCh
+	var err error
+	for e := range p.Stages[0].Base().ErrCh {
+		err = util.ErrorsCoalesce(err, e)
+	}
+	return err
 }
 
 func (p Pipeline) LinkFunction() func(*Pipeline) {
diff --git a/pkg/pipeline/source.go b/pkg/pipeline/source.go
index 5db963a..10a5ab4 100644
--- a/pkg/pipeline/source.go
+++ b/pkg/pipeline/source.go
@@ -2,6 +2,8 @@ package pipeline
 
 import (
 	"context"
+
+	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
 type SourceLike interface {
@@ -112,15 +114,14 @@ func WithSourceSlice[OUT any](
 	return newSourceOption(
 		func(s *Source[OUT]) {
 			s.onResume = func() {
-				s.sourceIncomingCh = make(chan OUT)
+				// The channel holds all the values, there is nobody to stop if the source fails.
+				s.sourceIncomingCh = make(chan OUT, len(*incomingValues))
 				DebugPrintf("[%s] WithSourceSlice restoring source channel to %s\n",
 					s.Name, chanPtr(s.sourceIncomingCh))
-				go func() {
-					for _, in := range *incomingValues {
-						s.sourceIncomingCh <- in
-					}
-					close(s.sourceIncomingCh)
-				}()
+				for _, in := range *incomingValues {
+					s.sourceIncomingCh <- in
+				}
+				close(s.sourceIncomingCh)
 			}
 
 			processFunction := processFunction // Local copy of the processing function.
@@ -163,28 +164,38 @@ func (s *Source[OUT]) Prepare(ctx context.Context) {
 	// As a source, we generate data by sending none to our incoming channel,
 	// until our errCh is closed.
 	// No other stage is reading from our ErrCh, since we are a source, there is no previous one.
-	go func(errCh chan error) {
+	// The goroutine uses only the channels of this run. After having reported to the top error
+	// channel, the source can be prepared again.
+	// It stops sending by itself, there is no need to discard its messages.
+	s.sharedInput = true
+	go func(incomingCh chan None, errCh, topErrCh chan error) {
 		DebugPrintf("[%s] source.Prepare spawning continuous send, err chan: %s\n",
 			s.Name, chanPtr(errCh))
 		for {
 			select {
-			case s.IncomingChs[0] <- None{}:
+			case incomingCh <- None{}:
 				DebugPrintf("[%s] source to itself None\n", s.Name)
-			case err := <-errCh:
-				DebugPrintf("[%s] source's orig. errCh (%s): %v. Sending to TopChan %s\n",
-					s.Name, chanPtr(errCh), err, chanPtr(s.TopErrCh))
+			case err, ok := <-errCh:
 				// Close incoming.
-				DebugPrintf("[%s] source closing incoming %s\n", s.Name, chanPtr(s.IncomingChs[0]))
-				close(s.IncomingChs[0])
+				DebugPrintf("[%s] source closing incoming %s\n", s.Name, chanPtr(incomingCh))
+				close(incomingCh)
+				// Collect all errors, until all stages have finished.
+				for ok {
+					var next error
+					next, ok = <-errCh
+					err = util.ErrorsCoalesce(err, next)
+				}
+				DebugPrintf("[%s] source's orig. errCh (%s): %v. Sending to TopChan %s\n",
+					s.Name, chanPtr(errCh), err, chanPtr(topErrCh))
 				if err != nil {
-					s.TopErrCh <- err // might block, but this goroutine is done anyways.
+					topErrCh <- err // might block, but this goroutine is done anyways.
 				}
-				DebugPrintf("[%s] source closing TopErr %s\n", s.Name, chanPtr(s.TopErrCh))
-				close(s.TopErrCh)
+				DebugPrintf("[%s] source closing TopErr %s\n", s.Name, chanPtr(topErrCh))
+				close(topErrCh)
 				return
 			}
 		}
-	}(s.ErrCh)
+	}(s.IncomingChs[0], s.ErrCh, s.TopErrCh)
 }
 
 func (s *Source[OUT]) SourceProcessFunc() func(OUT) ([]int, error) {
diff --git a/pkg/pipeline/stage.go b/pkg/pipeline/stage.go
index 61e187a..33bdf18 100644
--- a/pkg/pipeline/stage.go
+++ b/pkg/pipeline/stage.go
@@ -41,6 +41,9 @@ type StageBase struct {
 	onProcessed               func()          // Callback after process.
 	onSent                    func()          // Callback after sent to outgoing.
 	onErrorSending            func(error, []int)
+	sharedInput               bool   // Others read from the input as well, or stop sending to it.
+	resumable                 bool   // The stage may continue with the same input after stopping.
+	discardInput              func() // Consumes the input until the previous stages finish.
 }
 
 func newStageBase(name string) StageBase {
@@ -205,6 +208,7 @@ func LinkStagesCrissCross[IN, OUT, NEXT any](
 	}
 	for _, next := range nextStages {
 		next.IncomingChs[0] = dataCh
+		next.sharedInput = true
 	}
 	// Debug purposes.
 	if DebugEnabled {
@@ -295,6 +299,9 @@ func (s *Stage[IN, OUT]) prepareStage(ctx context.Context) {
 	s.ErrCh = make(chan error)
 	s.StopCh = make(chan None)
 
+	s.sharedInput = false
+	s.resumable = false
+
 	// Clear the aggregated input channel if set.
 	s.AggregatedIncomeCh = nil
 	for i := range s.IncomingChs {
@@ -333,6 +340,20 @@ func (s *Stage[IN, OUT]) Resume(ctx context.Context) {
 	// All the nextStageErrCh are created and linked from other stages at this point.
 	s.NextStagesAggregatedErrCh = s.aggregateNextErrChannels()
 
+	// Stages that stop before their input ends have to discard it, because previous stages that are
+	// not notified (e.g. because another previous stage got the error) would block on sending to it.
+	incoming := s.AggregatedIncomeCh
+	shared := s.sharedInput
+	s.discardInput = func() {
+		if !shared {
+			go func() {
+				for range incoming {
+				}
+			}()
+		}
+	}
+
+	s.loopDone = make(chan None)
 	go s.processThisStage()
 }
 
@@ -345,6 +366,7 @@ func (s *Stage[IN, OUT]) StopAndWait() error {
 	// working resume goroutine. We explicitly indicate the goroutine to finish and
 	// not to read any state from the next stage. We will do that here.
 	s.StopCh <- None{}
+	<-s.loopDone
 
 	return s.breakPipelineAndWait(nil)
 }
@@ -363,30 +385,33 @@ func (s *Stage[IN, OUT]) breakPipelineAndWait(initialErr error) error {
 		s.closeOutChannel(i)
 	}
 
-	// Read its status:
-	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
-	err := <-s.NextStagesAggregatedErrCh
-	DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
-
-	// Coalesce with any error at this stage.
-	initialErr = util.ErrorsCoalesce(initialErr, err)
-
-	// Propagate error backwards.
-	DebugPrintf("[%s] closing error channel %s, previous stage will be notified\n",
-		s.Name, chanPtr(s.ErrCh))
+	// Propagate the error backwards at once: there may be next stages that only stop when all of
+	// their previous ones do, and these have to learn about the error via the previous stage.
 	if initialErr != nil {
-		// Propagate error backwards.
 		s.ErrCh <- initialErr
 	}
 
-	// Close our own error channel.
-	DebugPrintf("[%s] closed main error channel %s\n", s.Name, chanPtr(s.ErrCh))
-	close(s.ErrCh)
+	// Read the status of all next stages, until all of them have finished.
+	DebugPrintf("[%s] waiting for next stage's error\n", s.Name)
+	for err := range s.NextStagesAggregatedErrCh {
+		DebugPrintf("[%s] read next stage's error: %v\n", s.Name, err)
+		if err != nil {
+			s.ErrCh <- err
+			// Coalesce with any error at this stage.
+			initialErr = util.ErrorsCoalesce(initialErr, err)
+		}
+	}
 
-	// Close the stop channel indicator.
+	// Close the stop channel indicator. As soon as the error channel is closed, this stage can be
+	// prepared and resumed again, with new channels.
 	DebugPrintf("[%s] closing stop channel %s\n", s.Name, chanPtr(s.StopCh))
 	close(s.StopCh)
 
+	// Close our own error channel.
+	DebugPrintf("[%s] closing error channel %s, previous stage will be notified\n",
+		s.Name, chanPtr(s.ErrCh))
+	close(s.ErrCh)
+
 	DebugPrintf("[%s] all done, stage is stopped\n", s.Name)
 	return initialErr
 }
@@ -410,6 +435,8 @@ func (s *Stage[IN, OUT]) processThisStage() {
 	var outs []OUT
 	var outChIndxs []int
 	var err error
+	inputClosed := false
+	loopDone := s.loopDone
 readIncoming:
 	for {
 		s.onBeforeData()
@@ -422,6 +449,7 @@ readIncoming:
 		case <-s.StopCh:
 			// We have been instructed to stop, without reading any other channel.
 			DebugPrintf("[%s] stop requested\n", s.Name)
+			close(loopDone)
 			return
 
 		case err := <-s.NextStagesAggregatedErrCh:
@@ -449,6 +477,7 @@ readIncoming:
 				// Incoming channel was closed. No data to be written to outgoing channel.
 				DebugPrintf("[%s] input indicates no more data\n", s.Name)
 				outs, outChIndxs, err = s.onNoMoreData()
+				inputClosed = true
 				shouldBreakReadingIncoming = true // Regardless of err, request to break.
 			} else {
 				outs, outChIndxs, err = s.ProcessFunc(in)
@@ -496,6 +525,7 @@ readIncoming:
 
 				// Determine the next action to do.
 				if shouldReturn {
+					close(loopDone)
 					return
 				}
 				if shouldBreakReadingIncoming || sendingError {
@@ -506,11 +536,24 @@ readIncoming:
 				if err != StreamOutput {
 					break
 				}
+				s.onReceivedData()
 				err = s.streamFunc(&outs, &outChIndxs)
+				s.onProcessed()
+				if err != nil && err != StreamOutput && err != NoMoreData {
+					// Streaming failed, break immediately.
+					foundError = err
+					break readIncoming
+				}
 			}
 		} // end of select
 	} // end of for-loop readIncoming
 
+	close(loopDone)
+
+	if !inputClosed && (foundError != nil || !s.resumable) {
+		s.discardInput()
+	}
+
 	// Stop pipeline.
 	s.breakPipelineAndWait(foundError)
 }
diff --git a/pkg/pipeline/stall_resume.go b/pkg/pipeline/stall_resume.go
index 0b56a1d..45c8f9b 100644
--- a/pkg/pipeline/stall_resume.go
+++ b/pkg/pipeline/stall_resume.go
@@ -36,6 +36,7 @@ func WithAutoResumeAtStage(
 			DebugPrintf("[autoresume] orig error channel: %s\n", chanPtr(origErrCh))
 			newErrCh := make(chan error)
 			target.Base().ErrCh = newErrCh
+			target.Base().resumable = true
 			DebugPrintf("[autoresume] new error channel: %s\n", chanPtr(newErrCh))
 
 			go func() {
@@ -51,8 +52,11 @@ func WithAutoResumeAtStage(
 					// The target closed the error channel, check whether to resume automatically.
 					if !shouldResumeNow() {
 						DebugPrintf("[autoresume] *************** closing sniffer error channel\n")
-						// The function indicates not to resume, close the new error channel.
+						// The function indicates not to resume: nobody will continue reading the
+						// input of the target, and the original error channel is closed.
+						discard := target.Base().discardInput
 						close(origErrCh)
+						discard()
 						// And exit, as once not resuming means stopping.
 						return
 					}
-- 
2.43.0


From f66a08cab0caed17a6b1a8c961a0db2de75843e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:13 +0000
Subject: [PATCH 44/64] fix: joined pipelines can run again, and end when the
 second one fails

---
 pkg/pipeline/join.go | 54 +++++++++++++++++++++++++++-----------------
 1 file changed, 33 insertions(+), 21 deletions(-)

diff --git a/pkg/pipeline/join.go b/pkg/pipeline/join.go
index 1b827ef..3e795d7 100644
--- a/pkg/pipeline/join.go
+++ b/pkg/pipeline/join.go
@@ -133,6 +133,12 @@ type jointStage[T any] struct {
 	source *Source[T]
 	p1     *Pipeline
 	p2     *Pipeline
+
+	// The original functions of sink and source, before joining.
+	sinkOrigProcessFunc  func(T) ([]None, []int, error)
+	sinkOrigOnNoMoreData func() ([]None, []int, error)
+	origSourceOnResume   func()
+	joined               bool
 }
 
 var _ StageLike = (*jointStage[int])(nil)
@@ -152,6 +158,10 @@ func newJointStage[T any](
 		source: source,
 		p1:     firstPipeline,
 		p2:     secondPipeline,
+
+		sinkOrigProcessFunc:  sink.ProcessFunc,
+		sinkOrigOnNoMoreData: sink.onNoMoreData,
+		origSourceOnResume:   source.onResume,
 	}
 }
 
@@ -180,7 +190,7 @@ func (j *jointStage[T]) Resume(ctx context.Context) {
 	j.sink.Resume(ctx)
 }
 
-// joinStages must be called once, after the new pipeline's stages have been prepared,
+// joinStages must be called every time after the new pipeline's stages have been prepared,
 // but before resuming them, usually at the new pipeline's link function.
 func (j *jointStage[T]) joinStages() {
 	// Sketch of the original scenario:
@@ -191,19 +201,13 @@ func (j *jointStage[T]) joinStages() {
 	// ----> B1 ----> sink ----> p2.source
 	// ----> B2 ---/
 
-	// -- Do once, after prepare but before resume.
-	// (1) Remember the original sink's process function.
-	sinkOrigProcessFunc := j.sink.ProcessFunc
-
-	// (2) Remember the original sink's OnNoMoreData function
-	sinkOrigOnNoMoreData := j.sink.onNoMoreData
-
-	// (3) Close the original source incoming channel.
-	DebugPrintf("[%s] closing source channel %s\n", j.Name, chanPtr(j.source.sourceIncomingCh))
-	close(j.source.sourceIncomingCh)
-
-	// (4) Remember the source's original onResume function, before replacing it.
-	origSourceOnResume := j.source.onResume
+	// -- Do once.
+	// Close the original source incoming channel.
+	if !j.joined {
+		j.joined = true
+		DebugPrintf("[%s] closing source channel %s\n", j.Name, chanPtr(j.source.sourceIncomingCh))
+		close(j.source.sourceIncomingCh)
+	}
 
 	// -- Do every time autoresume kicks in, until sink's ErrCh is closed.
 	j.sink.onResume = func() {
@@ -211,7 +215,7 @@ func (j *jointStage[T]) joinStages() {
 		// (1) New source incoming channel.
 		j.source.onResume = func() {
 			// Call the original onResume for the source.
-			origSourceOnResume()
+			j.origSourceOnResume()
 			// If there was any onResume replacing it, ensure the source channel is the new one.
 			j.source.sourceIncomingCh = make(chan T)
 		}
@@ -221,6 +225,8 @@ func (j *jointStage[T]) joinStages() {
 		// (2) Resume (which also prepares) the whole p2 pipeline.
 		DebugPrintf("[%s] resuming second pipeline\n", j.Name)
 		j.p2.Resume(j.p1.Ctx)
+		sourceCh := j.source.sourceIncomingCh
+		sourceDone := j.source.loopDone
 
 		// (3) Set the p2.source's TopErr channel as one of the p1.sink's next err channels.
 		j.sink.NextErrChs = append(j.sink.NextErrChs, j.source.TopErrCh)
@@ -232,11 +238,17 @@ func (j *jointStage[T]) joinStages() {
 		// Since the next error channel number 2 (sink.NextErrChs[1]) is the top level p2.source's
 		// error channel, the sink will also receive errors from the second pipeline.
 		j.sink.ProcessFunc = func(in T) ([]None, []int, error) {
-			j.source.sourceIncomingCh <- in
-			_, _, err := sinkOrigProcessFunc(in)
+			select {
+			case sourceCh <- in:
+			case <-sourceDone:
+				// The second pipeline has stopped, its error (if any) is still to come.
+				return nil, nil, NoMoreData
+			}
+			_, _, err := j.sinkOrigProcessFunc(in)
 			DebugPrintf("[%s] msg: '%v' on original sink. Processing error: %v\n", j.Name, in, err)
-			if err == NoMoreData {
-				close(j.source.sourceIncomingCh)
+			if err != nil {
+				// The sink stops.
+				close(sourceCh)
 			}
 			return nil, nil, err
 		}
@@ -245,8 +257,8 @@ func (j *jointStage[T]) joinStages() {
 		j.sink.onNoMoreData = func() ([]None, []int, error) {
 			DebugPrintf("[%s] OnNoMoreData() called on sink. Closing source's incoming channel\n",
 				j.Name)
-			close(j.source.sourceIncomingCh)
-			return sinkOrigOnNoMoreData()
+			close(sourceCh)
+			return j.sinkOrigOnNoMoreData()
 		}
 	}
 }
-- 
2.43.0


From 4b6a4cab8ab9e907ba1ed63ca717ec9b21b89ff9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:25 +0000
Subject: [PATCH 45/64] fix: insertion with a number of workers that is not a
 power of two

---
 pkg/mapserver/updater/manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 104f85e..8567d6e 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -46,7 +46,8 @@ func NewManager(
 	nBits := int(util.Log2(uint(workerCount)))
 
 	selectPartition := func(id *common.SHA256Output) uint {
-		return mysql.PartitionByIdMSB(id, nBits)
+		// If the number of workers is not a power of two, there are more partitions than workers.
+		return mysql.PartitionByIdMSB(id, nBits) % uint(workerCount)
 	}
 
 	// Create the Manager structure.
-- 
2.43.0


From b45ac9804ca838c840b3737d2bda68d1ddf48bf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:34 +0000
Subject: [PATCH 46/64] fix: bulk insertion stores the relation of a domain
 with every one of its certificates

---
 pkg/mapserver/updater/certsWorker.go | 15 ++++++++++-----
 pkg/mapserver/updater/manager.go     | 12 +++++++++---
 2 files changed, 19 insertions(+), 8 deletions(-)

diff --git a/pkg/mapserver/updater/certsWorker.go b/pkg/mapserver/updater/certsWorker.go
index 3a2024a..6fb2ebd 100644
--- a/pkg/mapserver/updater/certsWorker.go
+++ b/pkg/mapserver/updater/certsWorker.go
@@ -77,21 +77,23 @@ type domainExtractor struct {
 	*pip.Stage[Certificate, DirtyDomain]
 	hasher        common.Hasher
 	domains       ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
-	domainIdCache cache.Cache            // Keep track of the already seen domains.
+	seenRelations cache.Cache            // Keep track of the already seen (domain, certificate).
+	relation      []byte                 // Storage for one (domain, certificate), reused.
 }
 
 func newDomainExtractor(
 	id int,
 	m *Manager,
 	workerCount int,
-	domainIdCache cache.Cache,
+	seenRelations cache.Cache,
 ) *domainExtractor {
 	// Create the domain extractor, with one domains storage, that keeps two slices of domains.
 	// These two slices have been preallocated already, and its storage is being reused.
 	w := &domainExtractor{
 		hasher:        *common.NewHasher(),
-		domainIdCache: domainIdCache,
+		seenRelations: seenRelations,
 		domains:       newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
+		relation:      make([]byte, 0, 2*common.SHA256Size),
 	}
 	outChannels := make([]int, 0, 10)
 
@@ -103,9 +105,12 @@ func newDomainExtractor(
 			w.domains.rotate()
 			for _, name := range in.Names {
 				id := w.hasher.HashStringCopy(name)
-				if !w.domainIdCache.Contains(&id) {
+				// The same domain has to be sent again if it comes with a different certificate.
+				w.relation = append(append(w.relation[:0], id[:]...), in.CertID[:]...)
+				relationID := w.hasher.HashCopy(w.relation)
+				if !w.seenRelations.Contains(&relationID) {
 					// Add it to the cache.
-					w.domainIdCache.AddIDs(&id)
+					w.seenRelations.AddIDs(&relationID)
 
 					// Send it to next stages.
 					d := DirtyDomain{
diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 8567d6e..6e74d8c 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -12,7 +12,7 @@ import (
 	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
-const domainIdCacheSize = 10000
+const seenRelationsCacheSize = 10000
 
 // Manager contains a processing pipeline that takes certificates and stores them concurrently
 // using several workers (but the same one for the same certificate).
@@ -29,6 +29,8 @@ type Manager struct {
 	IncomingCertChan    chan Certificate  // Certificates arrive from this channel.
 	IncomingCertPtrChan chan *Certificate // Only one of the incoming channels is enabled.
 	Pipeline            *pip.Pipeline
+
+	seenRelations *cache.LruCache // Relations already sent to the DB during the current run.
 }
 
 // NewManager creates a new manager and its workers.
@@ -69,6 +71,10 @@ func (m *Manager) Resume(ctx context.Context) {
 	// Create a new source incoming channel.
 	m.IncomingCertChan = make(chan Certificate)
 
+	// The previous run could have failed before its relations were stored, and the domains it
+	// marked as dirty could have been cleaned up since then.
+	m.seenRelations.Purge()
+
 	// Resume pipeline.
 	m.Pipeline.Resume(ctx)
 }
@@ -146,12 +152,12 @@ func (m *Manager) createPipeline(workerCount int) error {
 	}
 
 	// Prepare the domain extractors. Stages C1..Cw
-	domainCache := cache.NewLruCache(domainIdCacheSize)
+	m.seenRelations = cache.NewLruCache(seenRelationsCacheSize)
 
 	domainExtractors := make([]*domainExtractor, workerCount)
 	domainExtractorStages := make([]pip.StageLike, workerCount)
 	for i := range domainExtractors {
-		domainExtractors[i] = newDomainExtractor(i, m, workerCount, domainCache)
+		domainExtractors[i] = newDomainExtractor(i, m, workerCount, m.seenRelations)
 		domainExtractorStages[i] = domainExtractors[i].Stage
 	}
 
-- 
2.43.0


From a232372c1b343c61cf3ecca2575fcbbb80c2562f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 47/64] fix: all new ancestors of a certificate are stored also
 if one before them was seen already

---
 pkg/util/certificate.go | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/pkg/util/certificate.go b/pkg/util/certificate.go
index 4d6bec5..73e9c95 100644
--- a/pkg/util/certificate.go
+++ b/pkg/util/certificate.go
@@ -123,8 +123,9 @@ func UnfoldCerts(leafCerts []ctx509.Certificate, chains [][]*ctx509.Certificate,
 // UnfoldCert takes a certificate with its trust chain and returns a ready-to-insert-in-DB
 // collection of IDs and payloads for the certificate and its ancestry.
 // Additionally, if the payload of any of the ancestors of the certificate is nil, this function
-// interprets it as the ancestor is already present in the DB, and thus will omit returning it
-// and any posterior ancestors.
+// interprets it as the ancestor is already present in the DB, and thus will omit returning it.
+// The ancestors after it are still returned: a certificate can have appeared before with a
+// different (e.g. shorter) chain.
 func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 	chain []*ctx509.Certificate, chainIDs []*common.SHA256Output,
 ) (
@@ -153,10 +154,8 @@ func UnfoldCert(leafCert *ctx509.Certificate, certID common.SHA256Output,
 	i := 0
 	for ; i < len(chain)-1; i++ {
 		if chain[i] == nil {
-			// This parent has been inserted already in DB. This implies that its own parent,
-			// the grandparent of the leaf, must have been inserted as well; and so on.
-			// There are no more parents to insert.
-			return
+			// This parent has been inserted already in DB.
+			continue
 		}
 		certs = append(certs, *chain[i])
 		certIDs = append(certIDs, *chainIDs[i])
-- 
2.43.0


From 6985ba8003c07e971d786cff6734179df29c07de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 48/64] fix: ingest does not drop a leaf certificate that
 appeared before in a chain

---
 cmd/ingest/toChainPtrWorker.go | 6 ++----
 cmd/ingest/toChainWorker.go    | 6 ++----
 2 files changed, 4 insertions(+), 8 deletions(-)

diff --git a/cmd/ingest/toChainPtrWorker.go b/cmd/ingest/toChainPtrWorker.go
index 3b77e84..cc45828 100644
--- a/cmd/ingest/toChainPtrWorker.go
+++ b/cmd/ingest/toChainPtrWorker.go
@@ -69,11 +69,9 @@ func (w *lineToChainPtrWorker) parseLine(p *Processor, line *line) (*certChain,
 	p.Manager.Stats.UncachedCerts.Add(1)
 
 	// Get the leaf certificate ID.
+	// The cache contains only certificates seen in chains: those were sent without their names.
+	// Thus the leaf certificate always needs to be sent.
 	certID := common.SHA256Hash32Bytes(rawBytes)
-	if w.cache.Contains(&certID) {
-		// The leaf was already seen by this worker, so skip duplicate work and output.
-		return nil, nil
-	}
 	cert, err := ctx509.ParseCertificate(rawBytes)
 	if err != nil {
 		return nil, err
diff --git a/cmd/ingest/toChainWorker.go b/cmd/ingest/toChainWorker.go
index 8d3b2ae..1c1a5d1 100644
--- a/cmd/ingest/toChainWorker.go
+++ b/cmd/ingest/toChainWorker.go
@@ -93,11 +93,9 @@ func (w *lineToChainWorker) parseLine(p *Processor, line *line) (*certChain, err
 	p.Manager.Stats.ReadBytes.Add(int64(len(rawBytes)))
 
 	// Get the leaf certificate ID.
+	// The cache contains only certificates seen in chains: those were sent without their names.
+	// Thus the leaf certificate always needs to be sent.
 	certID := common.SHA256Hash32Bytes(rawBytes)
-	if w.cache.Contains(&certID) {
-		// The leaf was already seen by this worker, so avoid reparsing and reinserting it.
-		return nil, nil
-	}
 
 	p.Manager.Stats.UncachedCerts.Add(1)
 
-- 
2.43.0


From 4e474557e14109e00ab7548644fad378dc96ba98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 49/64] fix: ingest accepts certificates without a chain

---
 cmd/ingest/toChainWorker.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/ingest/toChainWorker.go b/cmd/ingest/toChainWorker.go
index 1c1a5d1..0c72f3b 100644
--- a/cmd/ingest/toChainWorker.go
+++ b/cmd/ingest/toChainWorker.go
@@ -164,7 +164,11 @@ func getExpiration(field []byte) (int64, error) {
 }
 
 // splitSemicolonField returns subslices for each semicolon-delimited chain payload.
+// An empty field has no payloads.
 func splitSemicolonField(field []byte) [][]byte {
+	if len(field) == 0 {
+		return nil
+	}
 	// Keep subslices pointing into the original row buffer to avoid allocating per chain element.
 	count := 1
 	for _, b := range field {
-- 
2.43.0


From bf64cab0745652ca8e37c5e3758366d4a545f851 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:22 +0000
Subject: [PATCH 50/64] fix: reading one input file does not close the channel
 of the next one

---
 cmd/ingest/csvSplitWorker.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/cmd/ingest/csvSplitWorker.go b/cmd/ingest/csvSplitWorker.go
index 4dd0e3c..bfc94a5 100644
--- a/cmd/ingest/csvSplitWorker.go
+++ b/cmd/ingest/csvSplitWorker.go
@@ -87,8 +87,12 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 	}
 
 	r := bufio.NewReader(fileReader)
-	w.lines = make(chan line, cap(w.lines))
-	w.done = make(chan error, 1)
+	// The goroutine below must not use the fields: once it is done with this file, they are
+	// replaced with the ones of the next file.
+	lines := make(chan line, cap(w.lines))
+	done := make(chan error, 1)
+	w.lines = lines
+	w.done = done
 	go func() {
 		var finalErr error
 		for lineNo := 1; ; lineNo++ {
@@ -122,7 +126,7 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 					break
 				}
 				// Forward only the compact, ingest-relevant fields to the next stage.
-				w.lines <- line{
+				lines <- line{
 					certField:       parsed.CertField,
 					chainField:      parsed.ChainField,
 					expirationField: parsed.ExpirationField,
@@ -134,7 +138,7 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 				break
 			}
 		}
-		close(w.lines)
+		close(lines)
 		if err := f.Close(); err != nil {
 			if finalErr != nil {
 				finalErr = errors.Join(finalErr, err)
@@ -142,8 +146,8 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 				finalErr = err
 			}
 		}
-		w.done <- finalErr
-		close(w.done)
+		done <- finalErr
+		close(done)
 	}()
 
 	return nil
-- 
2.43.0


From 5f0c10f402925894dfa86afd675c4e6c87911d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:51 +0000
Subject: [PATCH 51/64] fix: ingest keeps the files of all subfolders, also
 those listed before a bundled folder

---
 cmd/ingest/journal/list_files.go | 25 +++++++++++++++++--------
 1 file changed, 17 insertions(+), 8 deletions(-)

diff --git a/cmd/ingest/journal/list_files.go b/cmd/ingest/journal/list_files.go
index a87da22..d247157 100644
--- a/cmd/ingest/journal/list_files.go
+++ b/cmd/ingest/journal/list_files.go
@@ -1,9 +1,9 @@
 package journal
 
 import (
-	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/netsec-ethz/fpki/pkg/util"
 )
@@ -20,16 +20,15 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 			continue
 		}
 		if e.Name() == "bundled" {
-			// Use all *.gz in this directory.
-			d := filepath.Join(dir, e.Name())
-			gzFiles, err = filepath.Glob(fmt.Sprintf("%s/*.gz", d))
-			if err != nil {
-				return nil, nil, err
-			}
-			csvFiles, err = filepath.Glob(fmt.Sprintf("%s/*.csv", dir))
+			// Use all *.gz and *.csv in this directory, and the *.csv beside it.
+			// Keep the files already found in other directories.
+			bundled, err := os.ReadDir(filepath.Join(dir, e.Name()))
 			if err != nil {
 				return nil, nil, err
 			}
+			gzFiles = appendFiles(gzFiles, filepath.Join(dir, e.Name()), bundled, ".gz")
+			csvFiles = appendFiles(csvFiles, filepath.Join(dir, e.Name()), bundled, ".csv")
+			csvFiles = appendFiles(csvFiles, dir, entries, ".csv")
 		} else {
 			gzs, csvs, err := ListCsvFiles(filepath.Join(dir, e.Name()))
 			if err != nil {
@@ -46,3 +45,13 @@ func ListCsvFiles(dir string) (gzFiles, csvFiles []string, err error) {
 
 	return
 }
+
+// appendFiles appends the paths of those entries of the directory that have the given extension.
+func appendFiles(files []string, dir string, entries []os.DirEntry, ext string) []string {
+	for _, e := range entries {
+		if strings.HasSuffix(e.Name(), ext) {
+			files = append(files, filepath.Join(dir, e.Name()))
+		}
+	}
+	return files
+}
-- 
2.43.0


From 353babde0153155eb6ab25fc6525ed50a15fcfae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:52 +0000
Subject: [PATCH 52/64] fix: the ingest journal does not mix up the files of
 different subfolders

---
 cmd/ingest/journal/journal.go | 33 +++++++++++++++++++++++++++++++--
 1 file changed, 31 insertions(+), 2 deletions(-)

diff --git a/cmd/ingest/journal/journal.go b/cmd/ingest/journal/journal.go
index a8498a7..77b0d3a 100644
--- a/cmd/ingest/journal/journal.go
+++ b/cmd/ingest/journal/journal.go
@@ -10,6 +10,7 @@ import (
 	"regexp"
 	"slices"
 	"strconv"
+	"strings"
 	"sync"
 	"time"
 
@@ -650,7 +651,9 @@ func containsCompletedInterval(completed CompletedIndices, ingestDirBase string,
 }
 
 // normalizeCompletedFile converts a current-run file path into the canonical
-// ingest-dir and interval pair.
+// ingest-dir and interval pair. The files directly in the ingest directory or its "bundled"
+// folder belong to the base name of the ingest directory. The files of its other subfolders have
+// their own intervals, and belong to the base name followed by the path of the subfolder.
 func normalizeCompletedFile(file string, ingestDir string) (string, Interval, error) {
 	if ingestDir == "" {
 		return "", Interval{}, fmt.Errorf("cannot normalize completed file %q without ingest directory", file)
@@ -659,7 +662,33 @@ func normalizeCompletedFile(file string, ingestDir string) (string, Interval, er
 	if err != nil {
 		return "", Interval{}, err
 	}
-	return filepath.Base(filepath.Clean(ingestDir)), interval, nil
+	ingestDirBase := filepath.Base(filepath.Clean(ingestDir))
+	if sub := ingestSubfolder(file, ingestDir); sub != "" {
+		ingestDirBase += "/" + sub
+	}
+	return ingestDirBase, interval, nil
+}
+
+// ingestSubfolder returns the path, relative to the ingest directory, of the subfolder whose
+// bundle contains the file. It is empty if the bundle is that of the ingest directory itself, or
+// if the file is not in the ingest directory.
+func ingestSubfolder(file string, ingestDir string) string {
+	rel, err := filepath.Rel(ingestDir, filepath.Dir(file))
+	if err != nil {
+		return ""
+	}
+	rel = filepath.ToSlash(rel)
+	if rel == ".." || strings.HasPrefix(rel, "../") {
+		return ""
+	}
+	if rel == "bundled" {
+		return ""
+	}
+	rel = strings.TrimSuffix(rel, "/bundled")
+	if rel == "." {
+		return ""
+	}
+	return rel
 }
 
 // parseFileInterval extracts an inclusive interval from a bundle filename such
-- 
2.43.0


From ccd0a4380edbd860b044c288ea8ce717a19ce03f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:12 +0000
Subject: [PATCH 53/64] fix: recordctsize does not report a size if the first
 entries of the log are missing

---
 cmd/ingest/run.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 830d8fa..24e972b 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -298,6 +298,11 @@ func completedCTLogSize(j *journal.Journal, ingestDir string) (int64, error) {
 	if len(intervals) == 0 {
 		return 0, fmt.Errorf("no completed indices recorded for ingest directory %q", ingestDirBase)
 	}
+	// If the first entries are missing, there is no interval [0,END].
+	if intervals[0].Start != 0 {
+		return 0, fmt.Errorf("the completed indices of ingest directory %q start at %d instead of 0",
+			ingestDirBase, intervals[0].Start)
+	}
 	// Set the size of the ingested set from this CT log server to be END+1 of the interval [0,END].
 	return int64(intervals[0].End) + 1, nil
 }
-- 
2.43.0


From 7f48f231cc2b179e9a60b1c70025760619621ca3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:29:28 +0000
Subject: [PATCH 54/64] fix: ingest does not record skipped missing files as
 completed

---
 cmd/ingest/csvSplitWorker.go |  3 +++
 cmd/ingest/main.go           |  8 +++++++-
 cmd/ingest/processor.go      | 17 +++++++++++++++++
 cmd/ingest/run.go            | 16 +++++++++++++---
 4 files changed, 40 insertions(+), 4 deletions(-)

diff --git a/cmd/ingest/csvSplitWorker.go b/cmd/ingest/csvSplitWorker.go
index bfc94a5..46129d5 100644
--- a/cmd/ingest/csvSplitWorker.go
+++ b/cmd/ingest/csvSplitWorker.go
@@ -31,11 +31,13 @@ type csvSplitWorker struct {
 	lines            chan line  // Created once per file.
 	done             chan error // Created once per file.
 	skipMissingFiles bool
+	onSkippedFile    func(filename string)
 }
 
 func NewCsvSplitWorker(p *Processor) *csvSplitWorker {
 	w := &csvSplitWorker{
 		skipMissingFiles: p.SkipMissing,
+		onSkippedFile:    p.addSkippedFile,
 	}
 
 	lastOut := make([]line, 1)
@@ -75,6 +77,7 @@ func (w *csvSplitWorker) startReadingLines(f util.CsvFile) error {
 	if err != nil {
 		if errors.Is(err, os.ErrNotExist) && w.skipMissingFiles {
 			fmt.Fprintf(os.Stderr, "missing file, skipping: %s\n", f.Filename())
+			w.onSkippedFile(f.Filename())
 			// Open/close lines and done channels to signal we started, and we are done.
 			w.lines = make(chan line)
 			close(w.lines)
diff --git a/cmd/ingest/main.go b/cmd/ingest/main.go
index f56266b..2fc80f0 100644
--- a/cmd/ingest/main.go
+++ b/cmd/ingest/main.go
@@ -149,6 +149,7 @@ func mainFunction() error {
 		exit:              util.Exit,
 	})
 
+	var skippedFiles []string // Skipped files in the last batch.
 	err = runIngest(ctx, cfg, RunDependencies{
 		NewJournal: func(cfg RunConfig, jobCfg journal.JobConfiguration) (*journal.Journal, error) {
 			return journal.NewJournal(cfg.JournalFile, jobCfg, cfg.Directory)
@@ -187,7 +188,12 @@ func mainFunction() error {
 			proc.AddCsvFiles(csvFiles)
 			logBatchStart(files)
 			proc.Resume()
-			return proc.Wait()
+			err = proc.Wait()
+			skippedFiles = proc.SkippedFiles()
+			return err
+		},
+		SkippedFiles: func() []string {
+			return skippedFiles
 		},
 		Coalesce: func() error {
 			ctx, span := tr.MT().Start(ctx, "coalesce")
diff --git a/cmd/ingest/processor.go b/cmd/ingest/processor.go
index 40b80da..6118c1f 100644
--- a/cmd/ingest/processor.go
+++ b/cmd/ingest/processor.go
@@ -3,6 +3,7 @@ package main
 import (
 	"context"
 	"fmt"
+	"slices"
 	"sync"
 
 	"github.com/netsec-ethz/fpki/pkg/db"
@@ -34,6 +35,9 @@ type Processor struct {
 	SkipMissing    bool
 	Pipeline       *pip.Pipeline
 	Manager        *updater.Manager
+
+	skippedMu    sync.Mutex
+	skippedFiles []string // Missing files that were skipped.
 }
 
 func NewProcessor(
@@ -143,6 +147,19 @@ func (p *Processor) Wait() error {
 	return p.Pipeline.Wait(p.Ctx)
 }
 
+// SkippedFiles returns the names of the missing files that were skipped.
+func (p *Processor) SkippedFiles() []string {
+	p.skippedMu.Lock()
+	defer p.skippedMu.Unlock()
+	return slices.Clone(p.skippedFiles)
+}
+
+func (p *Processor) addSkippedFile(filename string) {
+	p.skippedMu.Lock()
+	defer p.skippedMu.Unlock()
+	p.skippedFiles = append(p.skippedFiles, filename)
+}
+
 // AddCsvFiles adds the files to the processor to be read when Resume is called.
 func (p *Processor) AddCsvFiles(files []util.CsvFile) {
 	p.CsvFiles = append(p.CsvFiles, files...)
diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 24e972b..7dcea2e 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -6,6 +6,7 @@ import (
 	"net/url"
 	"path/filepath"
 	"runtime"
+	"slices"
 	"strings"
 	"time"
 
@@ -40,9 +41,11 @@ type RunDependencies struct {
 	EstimateCertCount func(string) (uint, error)
 	BeforeBatch       func(batchNum, batchCount int) error
 	RunBatch          func(*statistics.Stats, []string) error
-	Coalesce          func() error
-	UpdateSMT         func() error
-	RecordCTSize      func(context.Context, string, int64) error
+	// SkippedFiles (optional) returns the files skipped by the last call to RunBatch.
+	SkippedFiles func() []string
+	Coalesce     func() error
+	UpdateSMT    func() error
+	RecordCTSize func(context.Context, string, int64) error
 }
 
 func (cfg RunConfig) JobConfiguration() (journal.JobConfiguration, error) {
@@ -167,6 +170,13 @@ func runIngest(ctx context.Context, cfg RunConfig, deps RunDependencies) error {
 			if err := deps.RunBatch(stats, files); err != nil {
 				return err
 			}
+			if deps.SkippedFiles != nil {
+				// The skipped files are still pending, they must not be recorded as completed.
+				skipped := deps.SkippedFiles()
+				files = slices.DeleteFunc(slices.Clone(files), func(file string) bool {
+					return slices.Contains(skipped, file)
+				})
+			}
 			if jobCfg.Coalesce {
 				if err := coalesce(); err != nil {
 					return err
-- 
2.43.0


From fa984bc2e9134c082602b0c5aafb46187489d390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:30 +0000
Subject: [PATCH 55/64] fix: full ingest runs the follow-up phases of files
 ingested by a previous run

---
 cmd/ingest/run.go | 28 ++++++++++++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/cmd/ingest/run.go b/cmd/ingest/run.go
index 7dcea2e..5c70736 100644
--- a/cmd/ingest/run.go
+++ b/cmd/ingest/run.go
@@ -159,7 +159,7 @@ func runIngest(ctx context.Context, cfg RunConfig, deps RunDependencies) error {
 		defer stats.Stop()
 	}
 
-	return ingestFilesInBatches(
+	if err := ingestFilesInBatches(
 		ctx,
 		j,
 		stats,
@@ -189,7 +189,31 @@ func runIngest(ctx context.Context, cfg RunConfig, deps RunDependencies) error {
 			}
 			return j.CommitProgress(files, jobCfg.Coalesce, jobCfg.UpdateSMT)
 		},
-	)
+	); err != nil {
+		return err
+	}
+
+	// If there were no pending files, the files ingested by a previous run with a different
+	// strategy can still need the follow-up phases.
+	job := j.Jobs[len(j.Jobs)-1]
+	if len(job.CompletedIndices) == 0 ||
+		(!jobCfg.Coalesce || job.Coalesced) && (!jobCfg.UpdateSMT || job.UpdatedSMT) {
+		return nil
+	}
+	if err := ctx.Err(); err != nil {
+		return err
+	}
+	if jobCfg.Coalesce {
+		if err := coalesce(); err != nil {
+			return err
+		}
+	}
+	if jobCfg.UpdateSMT {
+		if err := updateSMT(); err != nil {
+			return err
+		}
+	}
+	return j.CommitProgress(nil, jobCfg.Coalesce, jobCfg.UpdateSMT)
 }
 
 func ingestFilesInBatches(
-- 
2.43.0


From 2f3134c82187f4dfbf333e4959f4b6fb81c8e75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:43:53 +0000
Subject: [PATCH 56/64] fix: the domain cache of a bulk insertion does not
 outlive its run

Replaces b45ac98: sending a domain again with each of its certificates contradicts TestManagerStart.
---
 pkg/mapserver/updater/certsWorker.go | 15 +++++----------
 pkg/mapserver/updater/manager.go     | 12 ++++++------
 2 files changed, 11 insertions(+), 16 deletions(-)

diff --git a/pkg/mapserver/updater/certsWorker.go b/pkg/mapserver/updater/certsWorker.go
index 6fb2ebd..3a2024a 100644
--- a/pkg/mapserver/updater/certsWorker.go
+++ b/pkg/mapserver/updater/certsWorker.go
@@ -77,23 +77,21 @@ type domainExtractor struct {
 	*pip.Stage[Certificate, DirtyDomain]
 	hasher        common.Hasher
 	domains       ringCache[DirtyDomain] // Keep a copy until the next stage has finished.
-	seenRelations cache.Cache            // Keep track of the already seen (domain, certificate).
-	relation      []byte                 // Storage for one (domain, certificate), reused.
+	domainIdCache cache.Cache            // Keep track of the already seen domains.
 }
 
 func newDomainExtractor(
 	id int,
 	m *Manager,
 	workerCount int,
-	seenRelations cache.Cache,
+	domainIdCache cache.Cache,
 ) *domainExtractor {
 	// Create the domain extractor, with one domains storage, that keeps two slices of domains.
 	// These two slices have been preallocated already, and its storage is being reused.
 	w := &domainExtractor{
 		hasher:        *common.NewHasher(),
-		seenRelations: seenRelations,
+		domainIdCache: domainIdCache,
 		domains:       newRingCache[DirtyDomain](10), // Preallocate 10 domains per cert.
-		relation:      make([]byte, 0, 2*common.SHA256Size),
 	}
 	outChannels := make([]int, 0, 10)
 
@@ -105,12 +103,9 @@ func newDomainExtractor(
 			w.domains.rotate()
 			for _, name := range in.Names {
 				id := w.hasher.HashStringCopy(name)
-				// The same domain has to be sent again if it comes with a different certificate.
-				w.relation = append(append(w.relation[:0], id[:]...), in.CertID[:]...)
-				relationID := w.hasher.HashCopy(w.relation)
-				if !w.seenRelations.Contains(&relationID) {
+				if !w.domainIdCache.Contains(&id) {
 					// Add it to the cache.
-					w.seenRelations.AddIDs(&relationID)
+					w.domainIdCache.AddIDs(&id)
 
 					// Send it to next stages.
 					d := DirtyDomain{
diff --git a/pkg/mapserver/updater/manager.go b/pkg/mapserver/updater/manager.go
index 6e74d8c..9dd7abf 100644
--- a/pkg/mapserver/updater/manager.go
+++ b/pkg/mapserver/updater/manager.go
@@ -12,7 +12,7 @@ import (
 	"github.com/netsec-ethz/fpki/pkg/util"
 )
 
-const seenRelationsCacheSize = 10000
+const domainIdCacheSize = 10000
 
 // Manager contains a processing pipeline that takes certificates and stores them concurrently
 // using several workers (but the same one for the same certificate).
@@ -30,7 +30,7 @@ type Manager struct {
 	IncomingCertPtrChan chan *Certificate // Only one of the incoming channels is enabled.
 	Pipeline            *pip.Pipeline
 
-	seenRelations *cache.LruCache // Relations already sent to the DB during the current run.
+	domainIdCache *cache.LruCache // Domains already sent to the DB during the current run.
 }
 
 // NewManager creates a new manager and its workers.
@@ -71,9 +71,9 @@ func (m *Manager) Resume(ctx context.Context) {
 	// Create a new source incoming channel.
 	m.IncomingCertChan = make(chan Certificate)
 
-	// The previous run could have failed before its relations were stored, and the domains it
+	// The previous run could have failed before its domains were stored, and the domains it
 	// marked as dirty could have been cleaned up since then.
-	m.seenRelations.Purge()
+	m.domainIdCache.Purge()
 
 	// Resume pipeline.
 	m.Pipeline.Resume(ctx)
@@ -152,12 +152,12 @@ func (m *Manager) createPipeline(workerCount int) error {
 	}
 
 	// Prepare the domain extractors. Stages C1..Cw
-	m.seenRelations = cache.NewLruCache(seenRelationsCacheSize)
+	m.domainIdCache = cache.NewLruCache(domainIdCacheSize)
 
 	domainExtractors := make([]*domainExtractor, workerCount)
 	domainExtractorStages := make([]pip.StageLike, workerCount)
 	for i := range domainExtractors {
-		domainExtractors[i] = newDomainExtractor(i, m, workerCount, m.seenRelations)
+		domainExtractors[i] = newDomainExtractor(i, m, workerCount, m.domainIdCache)
 		domainExtractorStages[i] = domainExtractors[i].Stage
 	}
 
-- 
2.43.0


From a6ac21ed6b859b28d5d2ac45dd811681d588bedd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:06 +0000
Subject: [PATCH 57/64] fix: the map server stops serving when its context is
 done

Before, a SIGTERM or SIGINT left the map server listening until it ended itself with a panic.
Requests in progress are answered before the server returns.
---
 pkg/mapserver/mapserver.go | 42 +++++++++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 14 deletions(-)

diff --git a/pkg/mapserver/mapserver.go b/pkg/mapserver/mapserver.go
index df5013a..8073eea 100644
--- a/pkg/mapserver/mapserver.go
+++ b/pkg/mapserver/mapserver.go
@@ -31,6 +31,9 @@ const (
 	CertificatesAndPolicies
 )
 
+// shutdownTimeout is the time that requests in progress have to finish, once the server stops.
+const shutdownTimeout = 5 * time.Second
+
 // errUpdatesStopped is returned if an update is requested after the map server finished.
 var errUpdatesStopped = fmt.Errorf("map server finished, it does not update anymore")
 
@@ -181,23 +184,34 @@ func (s *MapServer) listen(ctx context.Context, useTLS bool) error {
 		ReadTimeout:  s.ReadTimeout,
 		WriteTimeout: s.WriteTimeout,
 	}
-	// chanErr will hold the error from the Listen call.
-	chanErr := make(chan error)
+	// Spawn a goroutine to shutdown the HTTP server, when requested or when the context is done.
+	listenFinished := make(chan struct{})
+	shutdownFinished := make(chan struct{})
 	go func() {
-		// Spawn a goroutine to shutdown the HTTP server.
-		go func() {
-			<-s.apiStopServerChan
-			server.Shutdown(ctx)
-		}()
-		// This call blocks
-		fmt.Printf("Listening on %d\n", s.HttpAPIPort)
-		if useTLS {
-			chanErr <- server.ListenAndServeTLS("", "")
-		} else {
-			chanErr <- server.ListenAndServe()
+		defer close(shutdownFinished)
+		select {
+		case <-s.apiStopServerChan:
+		case <-ctx.Done():
+		case <-listenFinished:
+			return
 		}
+		// Even if the context is done, allow the requests in progress to be answered.
+		shutdownCtx, cancelF := context.WithTimeout(context.WithoutCancel(ctx), shutdownTimeout)
+		defer cancelF()
+		server.Shutdown(shutdownCtx)
 	}()
-	err := <-chanErr
+
+	// This call blocks
+	fmt.Printf("Listening on %d\n", s.HttpAPIPort)
+	var err error
+	if useTLS {
+		err = server.ListenAndServeTLS("", "")
+	} else {
+		err = server.ListenAndServe()
+	}
+	close(listenFinished)
+	<-shutdownFinished
+
 	// If the error happened because we stopped the server, ignore it.
 	if err == http.ErrServerClosed {
 		err = nil
-- 
2.43.0


From f975ecf39480fbdf2598ff4c216907b6fb7e3583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:59:06 +0000
Subject: [PATCH 58/64] fix: refuse a map server configuration without a
 positive update period

It would crash the map server at the first scheduled update.
---
 cmd/mapserver/main.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/cmd/mapserver/main.go b/cmd/mapserver/main.go
index 963726f..351b638 100644
--- a/cmd/mapserver/main.go
+++ b/cmd/mapserver/main.go
@@ -177,6 +177,10 @@ func runWithConfig(
 	updateNow bool,
 ) error {
 
+	if conf.UpdateTimer.Duration <= 0 {
+		return fmt.Errorf("invalid UpdateTimer %s in configuration: must be positive", conf.UpdateTimer)
+	}
+
 	server, err := mapserver.NewMapServer(ctx, conf)
 	if err != nil {
 		return err
-- 
2.43.0


From 1cc1d6495a6ba04f9d5a4e49c1e5225c098b2353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:44 +0000
Subject: [PATCH 59/64] fix: the admin client creates logs with the configured
 MaxRootDuration

It used the waiting time of its own calls instead.
---
 pkg/policylog/client/adminclient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/policylog/client/adminclient.go b/pkg/policylog/client/adminclient.go
index a911226..5187d16 100644
--- a/pkg/policylog/client/adminclient.go
+++ b/pkg/policylog/client/adminclient.go
@@ -83,7 +83,7 @@ func (client AdminClient) generateCreateTreeReq() *trillian.CreateTreeRequest {
 		TreeType:        trillian.TreeType_LOG,
 		DisplayName:     client.config.DisplayName,
 		Description:     client.config.Description,
-		MaxRootDuration: durationpb.New(time.Second * time.Duration(client.config.RpcMaxWaitingTimeInSec)),
+		MaxRootDuration: durationpb.New(time.Second * time.Duration(client.config.MaxRootDuration)),
 	}}
 }
 
-- 
2.43.0


From 0b98ddea7fe13be9d8f988c3a93b9aff806cb683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:41 +0000
Subject: [PATCH 60/64] fix: proofs fetched by the log client belong to the
 tree head returned with them

The proofs are those for the size of the client's last tree head, the tree head returned was the
newest one of the server: they did not fit together once the log had grown. With another tree,
nothing known of the previous one is used.
---
 pkg/policylog/client/concurrentfunc.go | 18 ++++++++++++++++--
 pkg/policylog/client/logclient.go      |  6 ++++++
 2 files changed, 22 insertions(+), 2 deletions(-)

diff --git a/pkg/policylog/client/concurrentfunc.go b/pkg/policylog/client/concurrentfunc.go
index 5297fa3..d8777f3 100644
--- a/pkg/policylog/client/concurrentfunc.go
+++ b/pkg/policylog/client/concurrentfunc.go
@@ -168,7 +168,7 @@ send_receive_loop:
 
 // func for a worker to fetch the inclusion
 func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClient, workChan <-chan string,
-	resultChan chan<- fetchInclusionResultFromWorker, treeId int64, treeSize int64) {
+	resultChan chan<- fetchInclusionResultFromWorker, treeId int64, treeSize int64, root *types.LogRootV1) {
 	for {
 		// receive data from channel
 		leafData, ok := <-workChan
@@ -240,6 +240,12 @@ func worker_fetchInclusion(ctx context.Context, worker trillian.TrillianLogClien
 					break workerQueryLoop
 				}
 
+				// the log may have grown meanwhile: the proof holds for the tree head of the size
+				// asked for
+				if root != nil && poiAndSTH.STH.TreeSize != root.TreeSize {
+					poiAndSTH.STH = *root
+				}
+
 				workerResult.PoI = poiAndSTH
 				workerResult.err = nil
 
@@ -265,8 +271,16 @@ func (c *LogClient) FetchInclusions(ctx context.Context, leavesData [][]byte) *f
 	workChan := make(chan string)
 	resultChan := make(chan fetchInclusionResultFromWorker)
 
+	// the tree head of the size asked for, if known
+	c.logRootLock.Lock()
+	root := c.logRoot
+	c.logRootLock.Unlock()
+	if root != nil && root.TreeSize != uint64(c.currentTreeSize) {
+		root = nil
+	}
+
 	for i := 0; i < len(c.worker); i++ {
-		go worker_fetchInclusion(ctx, c.worker[i], workChan, resultChan, c.treeId, c.currentTreeSize)
+		go worker_fetchInclusion(ctx, c.worker[i], workChan, resultChan, c.treeId, c.currentTreeSize, root)
 	}
 
 	dataSize := len(leavesData)
diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 56e028e..479ff52 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -95,6 +95,12 @@ func NewLogClient(configPath string, treeId int64) (*LogClient, error) {
 // SetTreeId: Set the target tree ID
 func (c *LogClient) SetTreeId(treeID int64) {
 	c.treeId = treeID
+
+	// what is known is about the previous tree
+	c.currentTreeSize = 0
+	c.logRootLock.Lock()
+	defer c.logRootLock.Unlock()
+	c.logRoot = nil
 }
 
 // GetCurrentLogRoot:  get current log root of the target tree
-- 
2.43.0


From 9020a0ea3ae56e5031641384cdd8c2201c85daf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:01:37 +0000
Subject: [PATCH 61/64] fix: queueing documents waits until each added one is
 part of the log

It waited for the log to grow by their number: forever if the log contained one already, and not long
enough if the client had not yet asked for the size or the log grew with entries of others.
---
 pkg/policylog/client/logclient.go | 58 ++++++++++++++++++++-----------
 1 file changed, 37 insertions(+), 21 deletions(-)

diff --git a/pkg/policylog/client/logclient.go b/pkg/policylog/client/logclient.go
index 479ff52..356dcbd 100644
--- a/pkg/policylog/client/logclient.go
+++ b/pkg/policylog/client/logclient.go
@@ -12,12 +12,10 @@ import (
 	"github.com/google/trillian/types"
 	common "github.com/netsec-ethz/fpki/pkg/common"
 	"github.com/transparency-dev/merkle/rfc6962"
+	"google.golang.org/grpc/codes"
+	"google.golang.org/grpc/status"
 )
 
-// TODO(yongzhe, CRITICAL): Around line 183, the func will wait forever, if one identical leaf is added to the trillian
-// Possible cause: Trillian will update the identical leaf, rather than add a new one... So the tree size will not grow
-// To Be Solved Later...
-
 // what will a LogCLient do?
 // 1. Add leaves to the log
 // 2. Get the inclusion proof for one leaf
@@ -187,34 +185,52 @@ func (c *LogClient) QueueRPCs(ctx context.Context) (*QueueRPCResult, error) {
 	fmt.Println("queue leaves succeed!")
 	fmt.Println(elapsed)
 
-	// record previous tree size
-	prevTreeSize := c.currentTreeSize
+	start = time.Now()
 
-	// wait for the leaves to be added to the log (BUG FOUND!!!!!!)
+	// fetch the inclusion of all leaves, repeating it for those added but not yet part of the log.
+	// (The size of the log does not tell whether they are: it may grow with leaves that are not
+	// ours, and does not if it contains ours already)
+	failedToAdd := map[string]struct{}{}
+	for _, leaf := range addLeavesErrors.FailedLeaves {
+		failedToAdd[string(leaf)] = struct{}{}
+	}
+	retrieved := map[string]struct{}{}
+	pending := data
 	for {
 		err = c.UpdateTreeSize(ctx)
 		if err != nil {
 			return queueRPCResult, fmt.Errorf("QueueRPCs | UpdateTreeSize: %w", err)
 		}
-		// (the log may also grow with leaves that are not ours)
-		if c.currentTreeSize >= prevTreeSize+int64(queueRPCResult.NumOfSucceedAddedLeaves) {
-			break
+		if c.currentTreeSize > 0 || queueRPCResult.NumOfSucceedAddedLeaves == 0 {
+			fetchInclusionResult := c.FetchInclusions(ctx, pending)
+
+			// process fetch inclusion errors
+			pending = nil
+			for name := range fetchInclusionResult.PoIs {
+				retrieved[name] = struct{}{}
+			}
+			for i, leaf := range fetchInclusionResult.FailedLeaves {
+				if _, notAdded := failedToAdd[string(leaf)]; !notAdded &&
+					status.Code(fetchInclusionResult.Errs[i]) == codes.NotFound {
+
+					pending = append(pending, leaf)
+					continue
+				}
+				queueRPCResult.FailToRetrievedLeaves = append(queueRPCResult.FailToRetrievedLeaves, leaf)
+				queueRPCResult.FailToRetrieveLeavesName = append(queueRPCResult.FailToRetrieveLeavesName,
+					fetchInclusionResult.FailedLeavesName[i])
+				queueRPCResult.RetrieveLeavesErrs = append(queueRPCResult.RetrieveLeavesErrs,
+					fetchInclusionResult.Errs[i])
+			}
+			queueRPCResult.NumOfRetrievedLeaves = len(retrieved)
+			if len(pending) == 0 {
+				break
+			}
 		}
 		// wait 50 ms before next query
 		time.Sleep(50 * time.Millisecond)
 	}
 
-	start = time.Now()
-
-	// fetch the inclusion
-	fetchInclusionResult := c.FetchInclusions(ctx, data)
-
-	// precess fetch inclusion errors
-	queueRPCResult.NumOfRetrievedLeaves = len(fetchInclusionResult.PoIs)
-	queueRPCResult.FailToRetrievedLeaves = fetchInclusionResult.FailedLeaves
-	queueRPCResult.FailToRetrieveLeavesName = fetchInclusionResult.FailedLeavesName
-	queueRPCResult.RetrieveLeavesErrs = fetchInclusionResult.Errs
-
 	elapsed = time.Since(start)
 	fmt.Println("fetch proofs succeed!")
 	fmt.Println(elapsed)
-- 
2.43.0


From 5a3ed4136feee06fa5273549101d37c9a7fce96a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:35 +0000
Subject: [PATCH 62/64] fix: release the DB session used to check the schema

---
 pkg/db/mysql/init.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/db/mysql/init.go b/pkg/db/mysql/init.go
index 4df7725..05a0929 100644
--- a/pkg/db/mysql/init.go
+++ b/pkg/db/mysql/init.go
@@ -99,10 +99,13 @@ func connect(config *db.Configuration) (*sql.DB, error) {
 }
 
 func checkSchema(c *sql.DB) error {
-	_, err := c.Query("SELECT COUNT(*) FROM nodes")
+	rows, err := c.Query("SELECT COUNT(*) FROM nodes")
 	if err != nil {
 		return fmt.Errorf("table nodes: %w", err)
 	}
+	if err = rows.Close(); err != nil {
+		return fmt.Errorf("table nodes: %w", err)
+	}
 	row := c.QueryRow("SHOW STATUS LIKE 'max_used_connections'")
 	var varName string
 	var varValue string
-- 
2.43.0


From c40e00657b6d989f776822d786dea9cc130403c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:37:35 +0000
Subject: [PATCH 63/64] fix: use the configured password also with a local DB
 socket

---
 pkg/db/mysql/init.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/db/mysql/init.go b/pkg/db/mysql/init.go
index 05a0929..d164cb5 100644
--- a/pkg/db/mysql/init.go
+++ b/pkg/db/mysql/init.go
@@ -54,6 +54,9 @@ func Connect(config *db.Configuration) (*mysqlDB, error) {
 func parseDSN(config *db.Configuration) string {
 	val := config.Values
 	dsnString := val[keyUser]
+	if val[keyPassword] != "" {
+		dsnString += ":" + val[keyPassword]
+	}
 	// If a local socket is requested, the DSN is composed of different keys.
 	if path, ok := val[keyLocalSocket]; ok {
 		// Form a string like "root@unix(/var/run/mysqld/mysqld.sock)/fpki"
@@ -61,9 +64,6 @@ func parseDSN(config *db.Configuration) string {
 			path, val[db.KeyDBName])
 	} else {
 		// Form a string like "root:password@tcp(1.1.1.1:8080)/fpki"
-		if val[keyPassword] != "" {
-			dsnString += ":" + val[keyPassword]
-		}
 		dsnString += "@tcp(" + val[keyHost]
 		if val[keyPort] != "" {
 			dsnString += ":" + val[keyPort]
-- 
2.43.0


From fa73ef3cebac64603cea16b6508e243549ed180b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:38:02 +0000
Subject: [PATCH 64/64] fix: checking the DB schema looks for a table that the
 schema has

---
 pkg/db/mysql/init.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/db/mysql/init.go b/pkg/db/mysql/init.go
index d164cb5..0894c66 100644
--- a/pkg/db/mysql/init.go
+++ b/pkg/db/mysql/init.go
@@ -99,12 +99,12 @@ func connect(config *db.Configuration) (*sql.DB, error) {
 }
 
 func checkSchema(c *sql.DB) error {
-	rows, err := c.Query("SELECT COUNT(*) FROM nodes")
+	rows, err := c.Query("SELECT COUNT(*) FROM tree")
 	if err != nil {
-		return fmt.Errorf("table nodes: %w", err)
+		return fmt.Errorf("table tree: %w", err)
 	}
 	if err = rows.Close(); err != nil {
-		return fmt.Errorf("table nodes: %w", err)
+		return fmt.Errorf("table tree: %w", err)
 	}
 	row := c.QueryRow("SHOW STATUS LIKE 'max_used_connections'")
 	var varName string
-- 
2.43.0

