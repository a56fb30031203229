From d3aa56fb066e4733356fe3b52745adf0e17bd694 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:37 +0000
Subject: [PATCH 1/4] fix: ignore the deletion of a key inserted in the same
 block instead of appending it

---
 moeingads.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/moeingads.go b/moeingads.go
index 827df28..73ff517 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -572,8 +572,10 @@ func (mads *MoeingADS) update() {
 				continue
 			}
 			chanID := types.GetIndexChanID(ptr.Key[0])
-			if hotEntry.Operation == types.OpDelete && ptr.SerialNum >= 0 {
-				// if ptr.SerialNum==-1, then we are deleting a just-inserted value, so ignore it.
+			if hotEntry.Operation == types.OpDelete && ptr.SerialNum < 0 {
+				continue // we are deleting a just-inserted value, so ignore it.
+			}
+			if hotEntry.Operation == types.OpDelete {
 				mads.DeactiviateEntry(shardID, ptr.SerialNum)
 				mads.idxTreeJobChan[chanID] <- idxTreeJob{key: ptr.Key, pos: -1} //delete
 			} else if hotEntry.Operation != types.OpNone || hotEntry.IsTouchedByNext {
-- 
2.43.0


From ba9ac4d949d3592b3a20691cc0d8b4ecfe8dbdc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:04 +0000
Subject: [PATCH 2/4] fix: persist the metadata changed by PruneBeforeHeight

---
 moeingads.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/moeingads.go b/moeingads.go
index 73ff517..5cedefe 100644
--- a/moeingads.go
+++ b/moeingads.go
@@ -744,6 +744,7 @@ func (mads *MoeingADS) PruneBeforeHeight(height int64) {
 			mads.meta.SetLastPrunedTwig(shardID, end-1)
 		}
 	}
+	mads.meta.Commit()
 	mads.kvdb.CloseOldBatch()
 	mads.kvdb.SetPruneHeight(uint64(height))
 }
-- 
2.43.0


From 763cee7643a5f0345e0404d68aca76cd086d44ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 3/4] fix: keep the twig Merkle trees which RecoverTree needs
 when pruning

---
 datatree/tree.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/datatree/tree.go b/datatree/tree.go
index 99271bb..73867b1 100644
--- a/datatree/tree.go
+++ b/datatree/tree.go
@@ -409,7 +409,8 @@ func (tree *Tree) PruneTwigs(startID, endID int64) []byte {
 	endPos := tree.twigMtFile.GetFirstEntryPos(endID)
 	//fmt.Printf("NOW entry prune till %d\n", endPos)
 	tree.entryFile.PruneHead(endPos)
-	tree.twigMtFile.PruneHead(endID * TwigMtSize)
+	// RecoverTree reads the roots of the last one or two pruned twigs
+	tree.twigMtFile.PruneHead((endID - 2) * TwigMtSize)
 	return tree.ReapNodes(startID, endID)
 }
 
-- 
2.43.0


From c1c976bda4bf1cd2a56943925fe601182b1df447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:01 +0000
Subject: [PATCH 4/4] fix: reject proof bytes without any upper node instead of
 crashing in Check

---
 datatree/proof.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/datatree/proof.go b/datatree/proof.go
index 7476cc5..d67dfeb 100644
--- a/datatree/proof.go
+++ b/datatree/proof.go
@@ -49,7 +49,7 @@ func BytesToProofPath(bz []byte) (*ProofPath, error) {
 	pp := &ProofPath{}
 	n := len(bz) - 8
 	upperCount := n/32 - OtherNodeCount
-	if n%32 != 0 || upperCount < 0 {
+	if n%32 != 0 || upperCount < 1 {
 		return nil, fmt.Errorf("Invalid byte slice length: %d", len(bz))
 	}
 	pp.UpperPath = make([]ProofNode, upperCount)
-- 
2.43.0

