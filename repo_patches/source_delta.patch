From a4c59e9979438374f1efd1601f0d5b715655b569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:18 +0000
Subject: [PATCH 01/32] fix: release the commit lock in a single step

Checking the token and deleting the key were two commands. If the lock
expired in between and another process acquired it, the release removed
that process's lock.
---
 go/storage/rediscache.go | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index e2b1665..80a38d9 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -288,10 +288,15 @@ func (ec *RedisCache) AcquireCommitLock() (*string, error) {
 	return &commitLockToken, err
 }
 
+// Deletes the commit lock if, and only if, it still holds the given token. The
+// comparison and the deletion have to be a single step: between two separate
+// commands the lock could expire and be acquired by someone else.
+const releaseCommitLockScript = `if redis.call("GET", KEYS[1]) == ARGV[1] then return redis.call("DEL", KEYS[1]) end return 0`
+
 func (ec *RedisCache) ReleaseCommitLock(aToken string) {
-	hasLock, err := ec.HasCommitLock(aToken)
-	if err == nil && hasLock {
-		ec.client.Del(COMMIT_LOCK_KEY)
+	err := ec.client.Eval(releaseCommitLockScript, []string{COMMIT_LOCK_KEY}, aToken).Err()
+	if err != nil {
+		glog.Warningf("Couldn't release commit lock: %s", err)
 	}
 }
 
-- 
2.43.0


From 353a89ee410a6c411365f86137e25e576fa6312a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:55 +0000
Subject: [PATCH 02/32] fix: detect the loss of the cache after the first
 commit

The first commit leaves epoch 0 in storage, and a missing epoch file was
also read as 0. A cache that lost its epoch after exactly one commit was
therefore taken for a consistent one, its log positions were not
restored, and the next commit replaced the coverage metadata.
---
 go/storage/certdatabase.go | 32 +++++++++++++++++++++++++++++---
 1 file changed, 29 insertions(+), 3 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index b9d7a98..b355e09 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -96,7 +96,11 @@ func (db *CertDatabase) EnsureCacheIsConsistent() error {
 		return err
 	}
 
-	if cacheEpoch == storageEpoch+1 || (cacheEpoch == 0 && storageEpoch == 0) {
+	consistent, err := db.epochsAreConsistent(cacheEpoch, storageEpoch)
+	if err != nil {
+		return err
+	}
+	if consistent {
 		return nil
 	}
 
@@ -523,6 +527,23 @@ func (db *CertDatabase) getStorageEpoch() (uint64, error) {
 	return 0, nil
 }
 
+// The cache is one epoch ahead of storage after every commit. Both epochs are 0
+// before the first commit, which is also when there is no epoch file yet: the
+// first commit stores epoch 0, so a cache at epoch 0 has then been lost.
+func (db *CertDatabase) epochsAreConsistent(aCacheEpoch, aStorageEpoch uint64) (bool, error) {
+	if aCacheEpoch == aStorageEpoch+1 {
+		return true, nil
+	}
+	if aCacheEpoch != 0 || aStorageEpoch != 0 {
+		return false, nil
+	}
+	_, err := os.Stat(db.epochFile())
+	if errors.Is(err, os.ErrNotExist) {
+		return true, nil
+	}
+	return false, err
+}
+
 func (db *CertDatabase) Commit(aProofOfLock string) error {
 	// Commit() moves serials from cache to storage, removes expired serial
 	// numbers from storage, and updates the coverage metadata file. This is
@@ -544,7 +565,8 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 	//
 	// The epoch value in storage must be one less than the epoch value in
 	// cache (unless this is the first time that Commit() has been called,
-	// in which case both epochs will be equal to 0).
+	// in which case both epochs will be equal to 0 and there is no epoch
+	// file).
 
 	if db.readOnlyStorage {
 		return fmt.Errorf("Cannot commit serials to read-only storage")
@@ -568,7 +590,11 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		return err
 	}
 
-	if (cacheEpoch != storageEpoch+1) && !(cacheEpoch == 0 && storageEpoch == 0) {
+	consistent, err := db.epochsAreConsistent(cacheEpoch, storageEpoch)
+	if err != nil {
+		return err
+	}
+	if !consistent {
 		return errors.New("Inconsistent cache and storage epochs. Restart ct-fetch.")
 	}
 
-- 
2.43.0


From a8c9e93123960e685cee9bbdf94e55b72b4ed98d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:04 +0000
Subject: [PATCH 03/32] fix: compare the epochs under the commit lock before
 rewinding

EnsureCacheIsConsistent read the two epochs, and only then acquired the
commit lock to restore the log states. A commit in between made a
consistent pair look inconsistent, or made it restore an epoch that was
out of date, after which every commit failed.
---
 go/storage/certdatabase.go | 26 ++++++++++++++++++++++++++
 go/storage/rediscache.go   |  7 +------
 2 files changed, 27 insertions(+), 6 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index b355e09..aef4ad6 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -104,6 +104,32 @@ func (db *CertDatabase) EnsureCacheIsConsistent() error {
 		return nil
 	}
 
+	// The epochs look inconsistent. A commit between the two reads above has
+	// the same effect, so look again while no commit can be running.
+	commitToken, err := db.cache.AcquireCommitLock()
+	if err != nil || commitToken == nil {
+		return fmt.Errorf("Failed to acquire commit lock: %v", err)
+	}
+	defer db.cache.ReleaseCommitLock(*commitToken)
+
+	storageEpoch, err = db.getStorageEpoch()
+	if err != nil {
+		return err
+	}
+
+	cacheEpoch, err = db.cache.GetEpoch()
+	if err != nil {
+		return err
+	}
+
+	consistent, err = db.epochsAreConsistent(cacheEpoch, storageEpoch)
+	if err != nil {
+		return err
+	}
+	if consistent {
+		return nil
+	}
+
 	// The epochs are inconsistent, so we'll reset the cached log states
 	// based on what's in storage. This ensures that the ct-fetch process
 	// downloads a portion of each log that is contiguous with what's
diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index 80a38d9..5ca1554 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -326,13 +326,8 @@ func (ec *RedisCache) NextEpoch() error {
 	return ec.client.Incr(EPOCH_KEY).Err()
 }
 
+// The caller must hold the commit lock.
 func (ec *RedisCache) Restore(aEpoch uint64, aLogStates []types.CTLogState) error {
-	commitToken, err := ec.AcquireCommitLock()
-	if err != nil || commitToken == nil {
-		return fmt.Errorf("Failed to acquire commit lock: %s", err)
-	}
-	defer ec.ReleaseCommitLock(*commitToken)
-
 	logKeys, err := ec.client.Keys("log::*").Result()
 	if err != nil {
 		return err
-- 
2.43.0


From 31cd6e8c0762c6efdc3bbe1de7344f7e4927c48e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:15 +0000
Subject: [PATCH 04/32] fix: rewind the cache also when storage has no coverage
 metadata

If persistent storage was lost while the cache survived, the epochs are
inconsistent but there is no coverage file, and the start-up check failed
forever instead of rewinding the logs to the beginning.
---
 go/storage/certdatabase.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index aef4ad6..20c69ad 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -135,7 +135,10 @@ func (db *CertDatabase) EnsureCacheIsConsistent() error {
 	// downloads a portion of each log that is contiguous with what's
 	// already in storage.
 	logStates, err := db.GetCTLogsFromStorage()
-	if err != nil {
+	if errors.Is(err, os.ErrNotExist) {
+		// Nothing is in storage, so every log has to be downloaded again.
+		logStates = []types.CTLogState{}
+	} else if err != nil {
 		return err
 	}
 
-- 
2.43.0


From 8171957d7153465972e6f80ac4614f53fa4687ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:55 +0000
Subject: [PATCH 05/32] fix: report failing writes of serial lists and of the
 issuer list

The last part of a list is written when the buffered writer is flushed,
and the result of that was discarded: with a full disk a truncated serial
file replaced the stored one and its serials were dropped from the cache,
and truncated known, revoked and issuer lists were reported as complete.
---
 go/cmd/aggregate-crls/aggregate-crls.go   |  3 +--
 go/cmd/aggregate-known/aggregate-known.go | 12 +++++++++---
 go/rootprogram/issuers.go                 |  2 ++
 go/storage/certdatabase.go                |  3 +--
 4 files changed, 13 insertions(+), 7 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 97d6201..23468fa 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -471,7 +471,6 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 	defer fd.Close()
 
 	writer := bufio.NewWriter(fd)
-	defer writer.Flush()
 
 	for _, s := range serials {
 		select {
@@ -492,7 +491,7 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 			}
 		}
 	}
-	return nil
+	return writer.Flush()
 }
 
 func checkPathArg(strObj string, confOptionName string, ctconfig *config.CTConfig) {
diff --git a/go/cmd/aggregate-known/aggregate-known.go b/go/cmd/aggregate-known/aggregate-known.go
index 7823224..c4be971 100644
--- a/go/cmd/aggregate-known/aggregate-known.go
+++ b/go/cmd/aggregate-known/aggregate-known.go
@@ -55,7 +55,7 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 	}
 
 	for tuple := range workChan {
-		// Wrap in anonymous function to defer a writer.Flush & fd.Close per work unit
+		// Wrap in anonymous function to defer an fd.Close per work unit
 		func() {
 			path := filepath.Join(kw.savePath, tuple.issuer.ID())
 			fd, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, permMode)
@@ -67,7 +67,6 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 			defer fd.Close()
 
 			writer := bufio.NewWriter(fd)
-			defer writer.Flush()
 
 			var serialCount uint64
 
@@ -102,6 +101,11 @@ func (kw knownWorker) run(ctx context.Context, cancelMain context.CancelFunc, wg
 					return
 				}
 			}
+			if err := writer.Flush(); err != nil {
+				glog.Errorf("[%s] Could not write serials: %s", tuple.issuer.ID(), err)
+				cancelMain()
+				return
+			}
 			glog.Infof("[%s] %d total known serials for %s (shards=%d)", tuple.issuer.ID(),
 				serialCount, tuple.issuerDN, len(tuple.expDates))
 		}()
@@ -197,7 +201,9 @@ func work() error {
 	if err := enc.Encode(logList); err != nil {
 		return fmt.Errorf("Error marshaling ct-logs list %s: %s", *ctlogspath, err)
 	}
-	ctLogFD.Close()
+	if err := ctLogFD.Close(); err != nil {
+		return fmt.Errorf("Error writing %s: %s", *ctlogspath, err)
+	}
 
 	glog.Infof("Listing issuers and their expiration dates...")
 	issuerList, err := certDB.GetIssuerAndDatesFromStorage()
diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 7383ca6..2927d0c 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -337,6 +337,8 @@ func (mi *MozIssuers) SaveIssuersList(filePath string) error {
 
 	if err := enc.Encode(issuers); err != nil {
 		glog.Errorf("Error marshaling enrolled issuer %s: %s", filePath, err)
+		fd.Close()
+		return err
 	}
 
 	if err = fd.Close(); err != nil {
diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 20c69ad..af07dda 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -32,7 +32,6 @@ func serialListExpiryLine(aExpDate types.ExpDate) string {
 
 func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer, aSerials []types.Serial) error {
 	writer := bufio.NewWriter(w)
-	defer writer.Flush()
 
 	// Write the expiry date for this collection of serial numbers as a unix
 	// timestamp encoded as a zero-padded 16 digit hex string. The expiry
@@ -56,7 +55,7 @@ func WriteSerialList(w io.Writer, aExpDate types.ExpDate, aIssuer types.Issuer,
 		}
 	}
 
-	return nil
+	return writer.Flush()
 }
 
 type CertDatabase struct {
-- 
2.43.0


From f29e9b0f1dc8aa5aa9a09696aacfa90a3bcd80bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:34 +0000
Subject: [PATCH 06/32] fix: do not install an empty epoch file

The error of flushing the new epoch file was ignored: on a full disk the
empty file replaced the old one and was read as epoch 0 from then on.
---
 go/storage/certdatabase.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index af07dda..83cc8af 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -673,7 +673,11 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		glog.Warningf("Failed to increment epochs: %s", err)
 		return nil
 	}
-	writer.Flush()
+	err = writer.Flush()
+	if err != nil {
+		glog.Warningf("Failed to increment epochs: %s", err)
+		return nil
+	}
 
 	err = db.cache.NextEpoch()
 	if err != nil {
-- 
2.43.0


From a525068cf9ac98ddf1354a1be67d6321993dd2e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:57 +0000
Subject: [PATCH 07/32] fix: detect the loss of storage after the first commit

A missing epoch file was read as epoch 0, so that a cache at epoch 1 looked
consistent with an empty storage directory and the serials lost with it were
never fetched again.
---
 go/storage/certdatabase.go | 53 +++++++++++++++-----------------------
 1 file changed, 21 insertions(+), 32 deletions(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 83cc8af..9c31701 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -85,7 +85,7 @@ func NewCertDatabase(aCache RemoteCache, aStorageDir string, aReadOnlyStorage bo
 }
 
 func (db *CertDatabase) EnsureCacheIsConsistent() error {
-	storageEpoch, err := db.getStorageEpoch()
+	expectedEpoch, err := db.expectedCacheEpoch()
 	if err != nil {
 		return err
 	}
@@ -95,11 +95,7 @@ func (db *CertDatabase) EnsureCacheIsConsistent() error {
 		return err
 	}
 
-	consistent, err := db.epochsAreConsistent(cacheEpoch, storageEpoch)
-	if err != nil {
-		return err
-	}
-	if consistent {
+	if cacheEpoch == expectedEpoch {
 		return nil
 	}
 
@@ -111,7 +107,7 @@ func (db *CertDatabase) EnsureCacheIsConsistent() error {
 	}
 	defer db.cache.ReleaseCommitLock(*commitToken)
 
-	storageEpoch, err = db.getStorageEpoch()
+	expectedEpoch, err = db.expectedCacheEpoch()
 	if err != nil {
 		return err
 	}
@@ -121,11 +117,7 @@ func (db *CertDatabase) EnsureCacheIsConsistent() error {
 		return err
 	}
 
-	consistent, err = db.epochsAreConsistent(cacheEpoch, storageEpoch)
-	if err != nil {
-		return err
-	}
-	if consistent {
+	if cacheEpoch == expectedEpoch {
 		return nil
 	}
 
@@ -141,8 +133,7 @@ func (db *CertDatabase) EnsureCacheIsConsistent() error {
 		return err
 	}
 
-	return db.cache.Restore(storageEpoch+1, logStates)
-
+	return db.cache.Restore(expectedEpoch, logStates)
 }
 
 func (db *CertDatabase) GetIssuerAndDatesFromChannel(reader <-chan string) ([]types.IssuerDate, error) {
@@ -555,21 +546,23 @@ func (db *CertDatabase) getStorageEpoch() (uint64, error) {
 	return 0, nil
 }
 
-// The cache is one epoch ahead of storage after every commit. Both epochs are 0
-// before the first commit, which is also when there is no epoch file yet: the
-// first commit stores epoch 0, so a cache at epoch 0 has then been lost.
-func (db *CertDatabase) epochsAreConsistent(aCacheEpoch, aStorageEpoch uint64) (bool, error) {
-	if aCacheEpoch == aStorageEpoch+1 {
-		return true, nil
-	}
-	if aCacheEpoch != 0 || aStorageEpoch != 0 {
-		return false, nil
-	}
+// The cache is one epoch ahead of storage after every commit. Before the first
+// commit there is no epoch file and the cache is at epoch 0: a missing file with
+// any other cache epoch means that storage has been lost, and a cache at epoch 0
+// with an epoch file (the first commit stores epoch 0) that the cache has been.
+func (db *CertDatabase) expectedCacheEpoch() (uint64, error) {
 	_, err := os.Stat(db.epochFile())
 	if errors.Is(err, os.ErrNotExist) {
-		return true, nil
+		return 0, nil
 	}
-	return false, err
+	if err != nil {
+		return 0, err
+	}
+	storageEpoch, err := db.getStorageEpoch()
+	if err != nil {
+		return 0, err
+	}
+	return storageEpoch + 1, nil
 }
 
 func (db *CertDatabase) Commit(aProofOfLock string) error {
@@ -608,7 +601,7 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		return errors.New("Caller must hold commit lock")
 	}
 
-	storageEpoch, err := db.getStorageEpoch()
+	expectedEpoch, err := db.expectedCacheEpoch()
 	if err != nil {
 		return err
 	}
@@ -618,11 +611,7 @@ func (db *CertDatabase) Commit(aProofOfLock string) error {
 		return err
 	}
 
-	consistent, err := db.epochsAreConsistent(cacheEpoch, storageEpoch)
-	if err != nil {
-		return err
-	}
-	if !consistent {
+	if cacheEpoch != expectedEpoch {
 		return errors.New("Inconsistent cache and storage epochs. Restart ct-fetch.")
 	}
 
-- 
2.43.0


From 86c2bd30cf38b4cf71e760430889c135c46a9ed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 08/32] fix: backfill the first entries of a log also when
 fewer than four are missing

---
 go/cmd/ct-fetch/rfc6962.go | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index bf5acfe..1cff64d 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -400,6 +400,12 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// 0 or 1). We ensured newSize > 3 when we assigned this
 		// worker its job, so we can use oldSize = 3.
 		oldSize = 3
+		if newSize <= oldSize {
+			// We're backfilling the first few entries. The
+			// smallest proof that depends on them also depends
+			// on entries that we've already downloaded.
+			newSize = oldSize + 1
+		}
 	}
 	proof, err := lw.Client.GetSTHConsistency(ctx, oldSize, newSize)
 	if err != nil {
@@ -442,7 +448,7 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// We're backfilling towards index 0. Download subtrees
 		// in order of decreasing last element.
 		for _, subtree := range subtrees {
-			if !(firstIndex <= subtree.First && subtree.Last <= lastIndex) {
+			if !(firstIndex <= subtree.First && subtree.First <= lastIndex) {
 				continue
 			}
 			item := CtLogSubtreeVerifier{Subtree: subtree}
@@ -511,7 +517,9 @@ func (lw *LogWorker) updateState(ctx context.Context, newSubtree *CtLogSubtree,
 			return fmt.Errorf("Missing entries")
 		}
 	case Backfill:
-		if lw.LogState.MinEntry == newSubtree.Last+1 {
+		// When we backfill the first few entries, newSubtree may overlap
+		// with the DB.
+		if newSubtree.First < lw.LogState.MinEntry && lw.LogState.MinEntry <= newSubtree.Last+1 {
 			lw.LogState.MinEntry = newSubtree.First
 		} else {
 			return fmt.Errorf("Missing entries")
-- 
2.43.0


From eb6a7dce6632b9d51d94d8cc8b6abe595a79473d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 09/32] fix: do not claim entry 0 of a log of which nothing was
 downloaded

---
 go/cmd/ct-fetch/rfc6962.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index 1cff64d..e766e62 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -354,7 +354,7 @@ func (lw *LogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessage) e
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
+		if !lw.LogState.LastUpdateTime.IsZero() && lw.LogState.MaxEntry == lw.STH.TreeSize-1 {
 			err := lw.updateState(ctx, nil, lw.LogState.MinEntry, lw.STH.Timestamp, entryChan)
 			if err != nil {
 				glog.Errorf("[%s] Failed to update log state: %s", lw.Name(), err)
-- 
2.43.0


From 7b8247d781b2e8fe4bfd85587c2bd4cbb84a3847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 10/32] fix: download entry 0 of tiled logs

---
 go/cmd/ct-fetch/tiled.go | 38 +++++++++++++++++++++++++++-----------
 1 file changed, 27 insertions(+), 11 deletions(-)

diff --git a/go/cmd/ct-fetch/tiled.go b/go/cmd/ct-fetch/tiled.go
index 86a6139..14e9615 100644
--- a/go/cmd/ct-fetch/tiled.go
+++ b/go/cmd/ct-fetch/tiled.go
@@ -89,13 +89,20 @@ func NewTiledLogWorker(ctx context.Context, logObj *types.CTLogState, ctLogMeta
 	} else {
 		metrics.SetGauge([]string{metricKey, "coverage"}, float32(logObj.MaxEntry-logObj.MinEntry+1)/float32(checkpoint.Tree.N))
 
-		if logObj.MaxEntry+batchSize < uint64(checkpoint.Tree.N) {
+		// MaxEntry = 0 means either that we have entry 0 or that we've
+		// never read from this log.
+		numRead := uint64(0)
+		if !logObj.LastUpdateTime.IsZero() {
+			numRead = logObj.MaxEntry + 1
+		}
+
+		if numRead+batchSize <= uint64(checkpoint.Tree.N) {
 			// There are many new entries to download.
 			task = Update
 		} else if time.Since(logObj.LastUpdateTime) < 10*time.Minute {
 			// There are few new entries, and we updated recently.
 			task = Sleep
-		} else if logObj.MaxEntry+1 < uint64(checkpoint.Tree.N) {
+		} else if numRead < uint64(checkpoint.Tree.N) {
 			// There is at least one new entry and we haven't
 			// downloaded anything recently.
 			task = ForceUpdate
@@ -252,6 +259,7 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 	minTimestamp := lw.LogState.MinTimestamp
 	maxTimestamp := lw.LogState.MaxTimestamp
 	maxEntry := lw.LogState.MaxEntry
+	isNew := lw.LogState.LastUpdateTime.IsZero()
 
 	if lw.WorkOrder == RetryGetSTH {
 		lw.sleep(ctx)
@@ -268,7 +276,7 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		// than `STH.Timestamp - LogState.MMD` will be added. This
 		// ensures that we will eventually cover the tail of a log that
 		// is no longer receiving new entries.
-		if lw.LogState.MaxEntry+1 == uint64(lw.Checkpoint.Tree.N) {
+		if !isNew && lw.LogState.MaxEntry+1 == uint64(lw.Checkpoint.Tree.N) {
 			maxTimestamp = lw.SthTimestamp
 			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
 			if err != nil {
@@ -284,20 +292,25 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 		return fmt.Errorf("Unexpected work order: %d", lw.WorkOrder)
 	}
 
-	// readLogEntries mutably captures lw, ctx, maxEntry, minTimestamp,
-	// and maxTimestamp.
+	// readLogEntries mutably captures lw, ctx, isNew, maxEntry,
+	// minTimestamp, and maxTimestamp.
 	//
 	// Return codes:
 	//   - (true, nil): success
 	//   - (false, nil): intermittent error, the TileLogWorker should sleep.
 	//   - (false, err): fatal error, log ingestion should halt.
 	readLogEntries := func() (bool, error) {
-		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, int64(maxEntry+1)) {
+		start := int64(0)
+		if !isNew {
+			start = int64(maxEntry + 1)
+		}
+		for i, entry := range lw.Client.Entries(ctx, lw.Checkpoint.Tree, start) {
 			keepGoing, err := lw.storeLogEntry(ctx, entry, entryChan)
 			if !(keepGoing && err == nil) {
 				return keepGoing, err
 			}
 
+			isNew = false
 			maxEntry = uint64(i)
 			minTimestamp = uint64Min(minTimestamp, uint64(entry.Timestamp))
 			maxTimestamp = uint64Max(maxTimestamp, uint64(entry.Timestamp))
@@ -311,13 +324,16 @@ func (lw *TiledLogWorker) Run(ctx context.Context, entryChan chan<- LogSyncMessa
 			}
 		}
 
-		err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
-		if err != nil {
-			glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
-			return false, err
+		// There is no state to save until we've read an entry.
+		if !isNew {
+			err := lw.updateState(ctx, maxEntry, minTimestamp, maxTimestamp, entryChan)
+			if err != nil {
+				glog.Errorf("[%s] : Error saving log state %s", lw.Name(), err)
+				return false, err
+			}
 		}
 
-		err = lw.Client.Err()
+		err := lw.Client.Err()
 		if err != nil {
 			glog.Errorf("[%s] : Sunlight client error %s", lw.Name(), err)
 			return false, nil
-- 
2.43.0


From b7da51c6f7a0e197b26c6ea6cd1a146f95428bd5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 11/32] fix: do not exit before the downloads and the database
 thread have started

---
 go/cmd/ct-fetch/ct-fetch.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/go/cmd/ct-fetch/ct-fetch.go b/go/cmd/ct-fetch/ct-fetch.go
index f2d6c71..28b8012 100644
--- a/go/cmd/ct-fetch/ct-fetch.go
+++ b/go/cmd/ct-fetch/ct-fetch.go
@@ -87,12 +87,13 @@ func NewLogSyncEngine(db storage.CertDatabase) *LogSyncEngine {
 }
 
 func (ld *LogSyncEngine) StartDatabaseThread(ctx context.Context) {
+	ld.ThreadWaitGroup.Add(1)
 	go ld.insertCTWorker(ctx)
 }
 
-// Blocking function, run from a thread
+// Blocking function, run from a thread. The caller must have called
+// DownloaderWaitGroup.Add(1).
 func (ld *LogSyncEngine) SyncLog(ctx context.Context, enrolledLogs *EnrolledLogs, logMeta types.CTLogMetadata) error {
-	ld.DownloaderWaitGroup.Add(1)
 	defer ld.DownloaderWaitGroup.Done()
 
 	if err := ld.database.Migrate(&logMeta); err != nil {
@@ -215,7 +216,6 @@ func (ld *LogSyncEngine) tryUpdate(queue []storage.SetMemberWithExpiry, logState
 }
 
 func (ld *LogSyncEngine) insertCTWorker(ctx context.Context) {
-	ld.ThreadWaitGroup.Add(1)
 	defer ld.ThreadWaitGroup.Done()
 
 	healthStatusPeriod := time.Duration(15000+rand.Int63n(15000)) * time.Millisecond
@@ -464,9 +464,12 @@ func main() {
 	syncEngine.StartDatabaseThread(ctx)
 
 	// Sync with logs as they are enrolled
+	allStarted := make(chan struct{})
 	go func() {
+		defer close(allStarted)
 		for ctLog := range enrolledLogs.NewChan {
 			glog.Infof("[%s] Starting download.", ctLog.URL)
+			syncEngine.DownloaderWaitGroup.Add(1)
 			go syncEngine.SyncLog(ctx, enrolledLogs, ctLog)
 		}
 	}()
@@ -543,6 +546,9 @@ func main() {
 	// Wait until we've finalized enrollment.
 	enrolledLogs.Wait()
 
+	// Wait until a job has been started for each enrolled log.
+	<-allStarted
+
 	// Wait until all jobs are finished.
 	syncEngine.Wait()
 
-- 
2.43.0


From 97a415738f48c8dce2cfd3f0b16bfac1111a4293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:48 +0000
Subject: [PATCH 12/32] fix: do not repeat forever a request that the log
 answers with no entries

---
 go/cmd/ct-fetch/rfc6962.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/go/cmd/ct-fetch/rfc6962.go b/go/cmd/ct-fetch/rfc6962.go
index e766e62..682f16c 100644
--- a/go/cmd/ct-fetch/rfc6962.go
+++ b/go/cmd/ct-fetch/rfc6962.go
@@ -658,6 +658,10 @@ func (lw *LogWorker) downloadCTRangeToChannel(ctx context.Context, verifier *CtL
 			return minTimestamp, maxTimestamp, err
 		}
 
+		if len(resp.Entries) == 0 {
+			return minTimestamp, maxTimestamp, fmt.Errorf("no entries in response at index=%d", index)
+		}
+
 		for _, entry := range resp.Entries {
 			rawLogEntry, err := ct.RawLogEntryFromLeaf(int64(index), &entry)
 			if err != nil {
-- 
2.43.0


From 129695fb040cfb416567e7da07bc24e9a6deee02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 13/32] fix: do not take a log for a new one when its state
 cannot be read

---
 go/storage/certdatabase.go | 3 +++
 go/storage/mockcache.go    | 2 +-
 go/storage/rediscache.go   | 3 +++
 go/storage/types.go        | 5 +++++
 4 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/go/storage/certdatabase.go b/go/storage/certdatabase.go
index 9c31701..0bc5ca9 100644
--- a/go/storage/certdatabase.go
+++ b/go/storage/certdatabase.go
@@ -291,6 +291,9 @@ func (db *CertDatabase) GetLogState(aUrl *url.URL) (*types.CTLogState, error) {
 	if log != nil {
 		return log, cacheErr
 	}
+	if cacheErr != ErrLogStateNotFound {
+		return nil, cacheErr
+	}
 
 	glog.Warningf("Allocating brand new log for %+v, cache err=%v", shortUrl, cacheErr)
 	return &types.CTLogState{
diff --git a/go/storage/mockcache.go b/go/storage/mockcache.go
index bbbc42a..5ac07ad 100644
--- a/go/storage/mockcache.go
+++ b/go/storage/mockcache.go
@@ -218,7 +218,7 @@ func (ec *MockRemoteCache) LoadLogState(shortUrl string) (*types.CTLogState, err
 	defer ec.mu.Unlock()
 	data, ok := ec.Data["log::"+shortUrl]
 	if !ok {
-		return nil, fmt.Errorf("Log state not found")
+		return nil, ErrLogStateNotFound
 	}
 	if len(data) != 1 {
 		return nil, fmt.Errorf("Unexpected number of log states")
diff --git a/go/storage/rediscache.go b/go/storage/rediscache.go
index 5ca1554..b557701 100644
--- a/go/storage/rediscache.go
+++ b/go/storage/rediscache.go
@@ -235,6 +235,9 @@ func (ec *RedisCache) StoreLogState(log *types.CTLogState) error {
 
 func (ec *RedisCache) LoadLogState(shortUrl string) (*types.CTLogState, error) {
 	data, err := ec.client.Get(shortUrlToLogKey(shortUrl)).Bytes()
+	if err == redis.Nil {
+		return nil, ErrLogStateNotFound
+	}
 	if err != nil {
 		return nil, err
 	}
diff --git a/go/storage/types.go b/go/storage/types.go
index a90a320..d5f7692 100644
--- a/go/storage/types.go
+++ b/go/storage/types.go
@@ -2,12 +2,17 @@ package storage
 
 import (
 	"encoding/binary"
+	"errors"
 	"fmt"
 	"time"
 
 	"github.com/mozilla/crlite/go"
 )
 
+// ErrLogStateNotFound is returned by LoadLogState if the cache holds no state
+// for the log, as opposed to a failure to read it.
+var ErrLogStateNotFound = errors.New("Log state not found")
+
 type RemoteCache interface {
 	Exists(key string) (bool, error)
 	SetInsert(key string, aEntry string) (bool, error)
-- 
2.43.0


From 5514f98d718638b618ac2b74788386357cac9bf6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:40:18 +0000
Subject: [PATCH 14/32] fix: file certificates under the UTC hour of their
 expiration

---
 go/types.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/go/types.go b/go/types.go
index 8475b85..710cad3 100644
--- a/go/types.go
+++ b/go/types.go
@@ -454,7 +454,7 @@ type ExpDate struct {
 }
 
 func NewExpDateFromTime(t time.Time) ExpDate {
-	truncTime := t.Truncate(time.Hour)
+	truncTime := t.UTC().Truncate(time.Hour)
 	return ExpDate{
 		date:           truncTime,
 		lastGood:       truncTime.Add(-1 * time.Millisecond),
-- 
2.43.0


From bf65c1209a6aba046704ed40f14127a2231231fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:42 +0000
Subject: [PATCH 15/32] fix: aggregate-crls: an interrupted run must not report
 success

---
 go/cmd/aggregate-crls/aggregate-crls.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 23468fa..dc425bf 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -557,10 +557,15 @@ func main() {
 	crlPaths, count := ae.downloadCRLs(ctx, mozIssuers)
 
 	if ctx.Err() != nil {
-		return
+		glog.Exitf("Interrupted while downloading CRLs: %s", ctx.Err())
 	}
 
 	ae.aggregateCRLs(ctx, count, crlPaths)
+
+	if ctx.Err() != nil {
+		glog.Exitf("Interrupted while aggregating CRLs: %s", ctx.Err())
+	}
+
 	if err := mozIssuers.SaveIssuersList(*enrolledpath); err != nil {
 		glog.Fatalf("Unable to save the crlite-informed intermediate issuers to %s: %s", *enrolledpath, err)
 	}
-- 
2.43.0


From 040abfa0a7e0916268e688668eb255044d3a8134 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:51 +0000
Subject: [PATCH 16/32] fix: write revocation lists atomically

---
 go/cmd/aggregate-crls/aggregate-crls.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index dc425bf..37929f2 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -23,6 +23,7 @@ import (
 	"github.com/golang/glog"
 	"github.com/google/certificate-transparency-go/x509"
 	"github.com/google/certificate-transparency-go/x509/pkix"
+	"github.com/google/renameio"
 	"github.com/mozilla/crlite/go"
 	"github.com/mozilla/crlite/go/config"
 	"github.com/mozilla/crlite/go/downloader"
@@ -464,11 +465,16 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 
 	path := filepath.Join(ae.rootPath, issuer.ID())
 
-	fd, err := os.OpenFile(path, os.O_WRONLY|os.O_CREATE|os.O_TRUNC, permMode)
+	// Write to a temporary file, so that an incomplete list is never seen
+	fd, err := renameio.TempFile("", path)
 	if err != nil {
 		return err
 	}
-	defer fd.Close()
+	defer fd.Cleanup()
+
+	if err := fd.Chmod(permMode); err != nil {
+		return err
+	}
 
 	writer := bufio.NewWriter(fd)
 
@@ -491,7 +497,10 @@ func (ae *AggregateEngine) StoreRevokedCertificateList(ctx context.Context, issu
 			}
 		}
 	}
-	return writer.Flush()
+	if err := writer.Flush(); err != nil {
+		return err
+	}
+	return fd.CloseAtomicallyReplace()
 }
 
 func checkPathArg(strObj string, confOptionName string, ctconfig *config.CTConfig) {
-- 
2.43.0


From 59ec388eb0115da134870ca72a5f6ca0f223d3e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:33:59 +0000
Subject: [PATCH 17/32] fix: keep CRLs apart whose URLs have malformed queries

---
 go/cmd/aggregate-crls/aggregate-crls.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 37929f2..4586f4e 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -51,8 +51,14 @@ var (
 
 func normalizedUrlString(u *url.URL) string {
 	if u.RawQuery != "" {
+		// A query that is not well-formed has to be taken as it is:
+		// its malformed parts would be dropped.
+		query, err := url.ParseQuery(u.RawQuery)
+		if err != nil {
+			return u.String()
+		}
 		normalized := *u
-		normalized.RawQuery = normalized.Query().Encode()
+		normalized.RawQuery = query.Encode()
 		return normalized.String()
 	}
 	return u.String()
-- 
2.43.0


From 40c713b668fb6ff6a68aaadb8fbd105f64d99977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:34:11 +0000
Subject: [PATCH 18/32] fix: audit CRLs that cannot be stored

---
 go/cmd/aggregate-crls/aggregate-crls.go | 2 ++
 go/downloader/verifying-downloader.go   | 1 +
 2 files changed, 3 insertions(+)

diff --git a/go/cmd/aggregate-crls/aggregate-crls.go b/go/cmd/aggregate-crls/aggregate-crls.go
index 4586f4e..6e80a65 100644
--- a/go/cmd/aggregate-crls/aggregate-crls.go
+++ b/go/cmd/aggregate-crls/aggregate-crls.go
@@ -100,6 +100,7 @@ func (ae *AggregateEngine) crlFetchWorkerProcessOne(ctx context.Context, crlUrl
 
 	err := os.MkdirAll(filepath.Join(*crlpath, issuer.ID()), permModeDir)
 	if err != nil {
+		ae.auditor.FailedDownload(&issuer, &crlUrl, downloader.NewDownloadTracer(), err)
 		glog.Warningf("Couldn't make directory: %s", err)
 		return "", err
 	}
@@ -130,6 +131,7 @@ func (ae *AggregateEngine) crlFetchWorkerProcessOne(ctx context.Context, crlUrl
 	// Ensure the final path is acceptable
 	localSize, localDate, err := downloader.GetSizeAndDateOfFile(finalPath)
 	if err != nil {
+		ae.auditor.FailedDownload(&issuer, &crlUrl, downloader.NewDownloadTracer(), err)
 		glog.Errorf("[%s] Unexpected error on local file, will not be populating the "+
 			"revocations: %s", crlUrlStr, err)
 		return "", err
diff --git a/go/downloader/verifying-downloader.go b/go/downloader/verifying-downloader.go
index 84187e3..671a63b 100644
--- a/go/downloader/verifying-downloader.go
+++ b/go/downloader/verifying-downloader.go
@@ -65,6 +65,7 @@ func DownloadAndVerifyFileSync(ctx context.Context, verifyFunc DownloadVerifier,
 
 	renameErr := os.Rename(tmpPath, finalPath)
 	if renameErr != nil {
+		auditor.FailedDownload(identifier, &crlUrl, dlTracer, renameErr)
 		glog.Errorf("[%s] Couldn't rename %s to %s: %s", identifier.ID(), tmpPath, finalPath, renameErr)
 
 		return attemptFallbackToExistingFile(renameErr)
-- 
2.43.0


From f253ee99a5981dd7ed55a44516ca4a60af23b0bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:54 +0000
Subject: [PATCH 19/32] fix: decode the JSON array of partitioned CRLs as JSON

URLs that contain a comma were split in two, and URLs written with JSON
escapes (\/, \u0026) were taken literally, so that these CRLs were never
fetched.
---
 go/rootprogram/issuers.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 2927d0c..dea1e74 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -424,8 +424,12 @@ func decodeCrls(fullCrlStr string, partCrlJson string) ([]string, bool, error) {
 		}
 	}
 
-	partCrlJson = strings.Trim(strings.TrimSpace(partCrlJson), "[]")
-	partCrls := strings.Split(partCrlJson, ",")
+	var partCrls []string
+	if err := json.Unmarshal([]byte(partCrlJson), &partCrls); err != nil {
+		// Tolerate lists that are not quite JSON.
+		partCrlJson = strings.Trim(strings.TrimSpace(partCrlJson), "[]")
+		partCrls = strings.Split(partCrlJson, ",")
+	}
 	for _, crl := range partCrls {
 		crl = strings.Trim(strings.TrimSpace(crl), `"`)
 		if crl == "" {
-- 
2.43.0


From 09948d60f3d5df34cca74938f449a6ea4748eacb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:56 +0000
Subject: [PATCH 20/32] fix: an issuer uses partitioned CRLs if any of its
 certificates does

The issuer's certificates are inserted in the random order of a map, and the
first one decided whether distribution points are checked.
---
 go/rootprogram/issuers.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index dea1e74..fa2e361 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -476,6 +476,7 @@ func (mi *MozIssuers) InsertIssuer(aCert *ctx509.Certificate, aCrls []string, aU
 	v, exists := mi.issuerMap[issuer.ID()]
 	if exists {
 		v.certs = append(v.certs, ic)
+		v.usesPartitionedCrls = v.usesPartitionedCrls || aUsesPartitionedCrls
 		mi.issuerMap[issuer.ID()] = v
 		return issuer
 	}
-- 
2.43.0


From d0221e91adcfe0cf87be03ac297b62508a6a8a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:57 +0000
Subject: [PATCH 21/32] fix: replace the CCADB report only by a completely
 downloaded one

The report was downloaded over the local copy. If the download was cut off at
the end of a row, or if the process was killed, the remaining part was loaded
by the next run as a fresh and complete report.
---
 go/rootprogram/issuers.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index fa2e361..492adbd 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -80,11 +80,22 @@ func (mi *MozIssuers) Load() error {
 		return err
 	}
 
-	err = downloader.DownloadFileSync(ctx, *dataUrl, mi.DiskPath, 3, 300*time.Second)
+	// Download next to the report, so that an interrupted download does not
+	// leave a part of a report that looks like a recent and complete one.
+	tmpPath := mi.DiskPath + ".tmp"
+	if err = os.Remove(tmpPath); err != nil && !os.IsNotExist(err) {
+		return err
+	}
+	defer os.Remove(tmpPath)
+
+	err = downloader.DownloadFileSync(ctx, *dataUrl, tmpPath, 3, 300*time.Second)
 	if err != nil {
 		glog.Errorf("Error downloading CCADB report: %s", err)
 		return err
 	}
+	if err = os.Rename(tmpPath, mi.DiskPath); err != nil {
+		return err
+	}
 
 	return mi.LoadFromDisk(mi.DiskPath)
 }
-- 
2.43.0


From 4ac037fb344910711487ebb834879b73bb6f6728 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:58 +0000
Subject: [PATCH 22/32] fix: enrol issuers that have both unusable and usable
 paths to a root

The verifier caches the chains above an intermediate together with the path on
which it was first reached, and checks dates and extended key usages last. If
an issuer had an expired or non-TLS certificate beside a good one, whether the
issuers below were enrolled depended on the order of the report's rows.
---
 go/rootprogram/issuers.go | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/go/rootprogram/issuers.go b/go/rootprogram/issuers.go
index 492adbd..d068def 100644
--- a/go/rootprogram/issuers.go
+++ b/go/rootprogram/issuers.go
@@ -160,6 +160,8 @@ func (mi *MozIssuers) LoadFromDisk(aPath string) error {
 	mozillaRootCount := 0
 	intermediateCount := 0
 
+	now := time.Now()
+
 	for _, row := range metadataRecords {
 		if len(row) < len(columnMap) {
 			continue
@@ -195,7 +197,12 @@ func (mi *MozIssuers) LoadFromDisk(aPath string) error {
 				continue
 			}
 
-			intermediatePool.AddCert(cert)
+			// The verifier caches partial chains and filters complete
+			// ones. A link that cannot be part of an acceptable chain
+			// must not hide an acceptable one.
+			if usableForServerAuth(cert, now) {
+				intermediatePool.AddCert(cert)
+			}
 			intermediateCerts[fp] = cert
 			intermediateCount += 1
 
@@ -213,7 +220,7 @@ func (mi *MozIssuers) LoadFromDisk(aPath string) error {
 	verifyOpts := zcx509.VerifyOptions{
 		Roots:         mozillaRootPool,
 		Intermediates: intermediatePool,
-		CurrentTime:   time.Now(),
+		CurrentTime:   now,
 		KeyUsages:     []zcx509.ExtKeyUsage{zcx509.ExtKeyUsageServerAuth},
 	}
 
@@ -237,6 +244,19 @@ func (mi *MozIssuers) LoadFromDisk(aPath string) error {
 	return nil
 }
 
+// usableForServerAuth reports whether the certificate by itself, regardless of
+// its issuer, is valid at the given time and for TLS server authentication.
+func usableForServerAuth(cert *zcx509.Certificate, now time.Time) bool {
+	self := zcx509.NewCertPool()
+	self.AddCert(cert)
+	chains, _, _, err := cert.Verify(zcx509.VerifyOptions{
+		Roots:       self,
+		CurrentTime: now,
+		KeyUsages:   []zcx509.ExtKeyUsage{zcx509.ExtKeyUsageServerAuth},
+	})
+	return err == nil && len(chains) > 0
+}
+
 func (mi *MozIssuers) DatasetAge() time.Duration {
 	if mi.modTime.IsZero() {
 		return 0
-- 
2.43.0


From fd61c43560f126c8ad45a55facd4a4b8760928e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 23/32] fix: detect new runs and records that are not in the
 order of time

Runs are only compared with each other, and may have equal timestamps. A new
run that is not later than the last published record gets a record whose name
does not sort last, so that the next delta continues from the wrong record and
the chain branches. The same happens if the chain of the existing records is
not in the order of their names.
---
 moz_kinto_publisher/main.py | 29 +++++++++++++++++++++++++----
 1 file changed, 25 insertions(+), 4 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 6dc3824..1c26301 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -887,8 +887,21 @@ def crlite_verify_record_consistency(*, existing_records, channel):
     if maxHeight != len(existing_records) - 1:
         raise ConsistencyException(f"Multiple filter descendents: {full_filters}")
 
+    # The chain should be in the order of the records' timestamps, so that the
+    # last record is the one to extend.
+    try:
+        ts = [timestamp_from_record(r) for r in existing_records]
+    except ValueError as ve:
+        raise ConsistencyException(f"Malformed record name: {ve}")
+    for i in range(1, len(existing_records)):
+        in_order = existing_records[i].get("parent") == existing_records[i - 1]["id"]
+        if not in_order or ts[i - 1] >= ts[i]:
+            raise ConsistencyException(f"Out-of-order record {existing_records[i]}")
+
 
-def crlite_verify_run_id_consistency(*, run_db, identifiers_to_check, channel):
+def crlite_verify_run_id_consistency(
+    *, run_db, identifiers_to_check, channel, most_recent_published=None
+):
     # The runs should be complete.
     for r in identifiers_to_check:
         if not run_db.is_run_ready(r):
@@ -899,11 +912,16 @@ def crlite_verify_run_id_consistency(*, run_db, identifiers_to_check, channel):
         if not run_db.is_run_valid(r, channel):
             raise ConsistencyException(f"Not a valid run: {r}")
 
-    # When sorted by run ID, the runs should have increasing timestamps.
+    # When sorted by run ID, the runs should have increasing timestamps, and
+    # all of them should be later than the most recent published record.
+    # Otherwise the names of the published records would not sort in the order
+    # of the runs.
     identifiers_to_check.sort(key=lambda x: [int(y) for y in x.split("-")])
     ts = [run_db.get_run_timestamp(r) for r in identifiers_to_check]
+    if most_recent_published is not None:
+        ts.insert(0, most_recent_published)
     for x, y in zip(ts, ts[1:]):
-        if x > y:
+        if x >= y:
             raise ConsistencyException(f"Out-of-order timestamp: {ts}")
 
 
@@ -960,7 +978,10 @@ def crlite_determine_publish(*, existing_records, run_db, channel):
     # If the new runs fail a consistency check, publish a full filter.
     try:
         crlite_verify_run_id_consistency(
-            run_db=run_db, identifiers_to_check=new_run_ids, channel=channel
+            run_db=run_db,
+            identifiers_to_check=new_run_ids,
+            channel=channel,
+            most_recent_published=timestamp_from_record(existing_records[-1]),
         )
     except ConsistencyException as se:
         log.error("Failed to verify run ID consistency: %s", se)
-- 
2.43.0


From ca31bb332d09af08eded1b2e486982b0aa33c0a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 24/32] fix: take the age of the full filter from its own run

The smallest run identifier as a string need not be that of the full filter:
20210101-10 sorts before 20210101-9.
---
 moz_kinto_publisher/main.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 1c26301..3c81c41 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -988,7 +988,9 @@ def crlite_determine_publish(*, existing_records, run_db, channel):
         return default
 
     # If the full filter is too old, publish a full filter.
-    earliest_timestamp = run_db.get_run_timestamp(min(record_run_ids))
+    # (Run IDs are compared as numbers: 20210101-9 is earlier than 20210101-10.)
+    earliest_run_id = min(record_run_ids, key=lambda x: [int(y) for y in x.split("-")])
+    earliest_timestamp = run_db.get_run_timestamp(earliest_run_id)
     new_timestamp = run_db.get_run_timestamp(new_run_id)
     if new_timestamp - earliest_timestamp >= timedelta(
         days=channel.max_filter_age_days
-- 
2.43.0


From a3a46d6bddbb92efdc4dd51aa951afbdae5c4d60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 25/32] fix: remove also malformed records when a channel is
 cleared

A record without the incremental attribute makes the publisher fail every time,
and one where it is null is left beside the new full filter.
---
 moz_kinto_publisher/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 3c81c41..4c93ebc 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -700,7 +700,9 @@ def clear_crlite_filters(*, rw_client, noop, channel):
     existing_records = [
         x for x in existing_records if x.get("channel", CHANNEL_DEFAULT) == channel.slug
     ]
-    existing_filters = filter(lambda x: x["incremental"] is False, existing_records)
+    existing_filters = filter(
+        lambda x: not x.get("incremental"), existing_records
+    )
     for filter_record in existing_filters:
         log.info("Cleaning up stale filter record %s.", filter_record["id"])
         rw_client.delete_record(
@@ -719,7 +721,7 @@ def clear_crlite_deltas(*, rw_client, noop, channel):
     existing_records = [
         x for x in existing_records if x.get("channel", CHANNEL_DEFAULT) == channel.slug
     ]
-    existing_deltas = filter(lambda x: x["incremental"] is True, existing_records)
+    existing_deltas = filter(lambda x: x.get("incremental"), existing_records)
     for delta in existing_deltas:
         log.info("Cleaning up stale delta record %s.", delta["id"])
         rw_client.delete_record(
-- 
2.43.0


From 4d164dcebd3250dcf003f53a929b717ff77bb430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:56 +0000
Subject: [PATCH 26/32] fix: do not take 20210101-3-old for a run

Directories whose names merely begin like a run identifier were listed as runs
that do not exist, or a second time as the run that they are named after.
---
 workflow/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/workflow/__init__.py b/workflow/__init__.py
index 3de882d..1f40113 100644
--- a/workflow/__init__.py
+++ b/workflow/__init__.py
@@ -9,7 +9,7 @@ from google.cloud import storage
 from pathlib import Path
 
 
-kIdentifierFormat = re.compile(r"(\d{8}-\d+)/?")
+kIdentifierFormat = re.compile(r"(\d{8}-\d+)/?$")
 
 kTestBucket = "local_test"
 
-- 
2.43.0


From dbb15a87b55f6a5e8a851064f8da2ad5676f6abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:46:42 +0000
Subject: [PATCH 27/32] fix: request a review of the removal of unused channels

The records of unused channels are removed after the last request for review,
so that their removal does not take effect before the next filter.
---
 moz_kinto_publisher/main.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 4c93ebc..74bf6f0 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -693,41 +693,41 @@ def publish_intermediates(*, args, rw_client):
 def clear_crlite_filters(*, rw_client, noop, channel):
     if noop:
         log.info("Would clean up CRLite filters, but no-op set")
-        return
+        return 0
     existing_records = rw_client.get_records(
         collection=settings.KINTO_CRLITE_COLLECTION
     )
     existing_records = [
         x for x in existing_records if x.get("channel", CHANNEL_DEFAULT) == channel.slug
     ]
-    existing_filters = filter(
-        lambda x: not x.get("incremental"), existing_records
-    )
+    existing_filters = [x for x in existing_records if not x.get("incremental")]
     for filter_record in existing_filters:
         log.info("Cleaning up stale filter record %s.", filter_record["id"])
         rw_client.delete_record(
             collection=settings.KINTO_CRLITE_COLLECTION,
             id=filter_record["id"],
         )
+    return len(existing_filters)
 
 
 def clear_crlite_deltas(*, rw_client, noop, channel):
     if noop:
         log.info("Would clean up CRLite deltas, but no-op set")
-        return
+        return 0
     existing_records = rw_client.get_records(
         collection=settings.KINTO_CRLITE_COLLECTION
     )
     existing_records = [
         x for x in existing_records if x.get("channel", CHANNEL_DEFAULT) == channel.slug
     ]
-    existing_deltas = filter(lambda x: x.get("incremental"), existing_records)
+    existing_deltas = [x for x in existing_records if x.get("incremental")]
     for delta in existing_deltas:
         log.info("Cleaning up stale delta record %s.", delta["id"])
         rw_client.delete_record(
             collection=settings.KINTO_CRLITE_COLLECTION,
             id=delta["id"],
         )
+    return len(existing_deltas)
 
 
 def publish_crlite_record(
@@ -1342,14 +1342,19 @@ def main():
                 publish_crlite(args=args, channel=channel, rw_client=rw_client)
 
         log.info("Removing records for unused channels")
+        num_removed = 0
         for channel in CHANNELS:
             if not channel.enabled:
-                clear_crlite_filters(
+                num_removed += clear_crlite_filters(
                     noop=args.noop, channel=channel, rw_client=rw_client
                 )
-                clear_crlite_deltas(
+                num_removed += clear_crlite_deltas(
                     noop=args.noop, channel=channel, rw_client=rw_client
                 )
+        if num_removed > 0:
+            rw_client.request_review_of_collection(
+                collection=settings.KINTO_CRLITE_COLLECTION
+            )
 
         log.info("Updating intermediates collection")
         publish_intermediates(args=args, rw_client=rw_client)
-- 
2.43.0


From 245909a1fca90760c31aa49f8e683cef77ab340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:51:10 +0000
Subject: [PATCH 28/32] fix: treat an intermediate without a readable PEM as
 malformed

set_pem decodes the PEM by hand, does not use the result, and raises exceptions
that nobody expects. One record whose attachment is not a certificate therefore
makes every run of the publisher fail, although malformed records are meant to
be removed.
---
 moz_kinto_publisher/main.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/moz_kinto_publisher/main.py b/moz_kinto_publisher/main.py
index 74bf6f0..5b243c1 100755
--- a/moz_kinto_publisher/main.py
+++ b/moz_kinto_publisher/main.py
@@ -4,7 +4,6 @@ import base64
 import hashlib
 import json
 import math
-import re
 import tempfile
 import time
 
@@ -164,15 +163,6 @@ class PublishedRunDB:
         return self.cached_run_times[run_id]
 
 
-def asciiPemToBinaryDer(pem: str) -> bytes:
-    matches = re.search(
-        r"(?<=-----BEGIN CERTIFICATE-----).*?(?=-----END CERTIFICATE-----)",
-        pem,
-        flags=re.DOTALL,
-    )
-    return base64.b64decode(matches.group(0))
-
-
 @lru_cache
 def get_attachments_base_url(client):
     return client.server_info()["capabilities"]["attachments"]["base_url"]
@@ -384,7 +374,6 @@ class Intermediate:
     def set_pem(self, pem_data):
         self.pemData = pem_data
         self.pemHash = hashlib.sha256(pem_data.encode("utf-8")).hexdigest()
-        derCert = asciiPemToBinaryDer(pem_data)
         try:
             self.cert = x509.load_pem_x509_certificate(
                 pem_data.encode("utf-8"), default_backend()
-- 
2.43.0


From de52f5e9a25ffac78804302aa2d312311af68a20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 29/32] fix: allocate identifiers that sort after the newest
 run if the clock went back

---
 workflow/0-allocate_identifier | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/workflow/0-allocate_identifier b/workflow/0-allocate_identifier
index 2ca919c..919a19b 100755
--- a/workflow/0-allocate_identifier
+++ b/workflow/0-allocate_identifier
@@ -27,7 +27,10 @@ all_identifiers = workflow.get_run_identifiers(args.filter_bucket)
 if all_identifiers:
     most_recent_identifier = all_identifiers.pop()
     (date_part, idx_part) = most_recent_identifier.split("-")
-    if date_part == dateprefix:
+    if date_part >= dateprefix:
+        # Identifiers have to sort in the order of allocation, also if the
+        # clock went back since the last run.
+        dateprefix = date_part
         next_idx = int(idx_part) + 1
 
 allocatedName = "{}-{}".format(dateprefix, next_idx)
-- 
2.43.0


From 6d3e22c2ea72a5442da20e30c53ddc065e9c8e2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 30/32] fix: skip identifiers whose directory a failed run has
 left

---
 workflow/0-allocate_identifier | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/workflow/0-allocate_identifier b/workflow/0-allocate_identifier
index 919a19b..49fa08f 100755
--- a/workflow/0-allocate_identifier
+++ b/workflow/0-allocate_identifier
@@ -33,6 +33,10 @@ if all_identifiers:
         dateprefix = date_part
         next_idx = int(idx_part) + 1
 
+# A run that failed before it uploaded anything has left its directory.
+while (args.path / Path("{}-{}".format(dateprefix, next_idx))).exists():
+    next_idx += 1
+
 allocatedName = "{}-{}".format(dateprefix, next_idx)
 allocatedPath = args.path / Path(allocatedName)
 
-- 
2.43.0


From a4c273e6125bd7d20ecab899d227d96eec749e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 31/32] fix: do not mark a run complete without its priority
 filter

---
 workflow/3-upload_mlbf_to_storage | 1 +
 1 file changed, 1 insertion(+)

diff --git a/workflow/3-upload_mlbf_to_storage b/workflow/3-upload_mlbf_to_storage
index f108303..4659eef 100755
--- a/workflow/3-upload_mlbf_to_storage
+++ b/workflow/3-upload_mlbf_to_storage
@@ -69,6 +69,7 @@ def main():
     runIdPath = args.results_path[0].resolve()
 
     ensureFileOrAbort(runIdPath, Path("clubcard-all/filter"))
+    ensureFileOrAbort(runIdPath, Path("clubcard-priority/filter"))
 
     for path, dirs, files in os.walk(runIdPath / "clubcard-all"):
         localFolder = Path(path)
-- 
2.43.0


From d5d4973b9b0152cb769263ffc77832f336ded8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:24:02 +0000
Subject: [PATCH 32/32] fix: take the delta of a reason set against the revset
 of that set

---
 workflow/2-generate_mlbf          | 9 ++++++++-
 workflow/3-upload_mlbf_to_storage | 3 +++
 2 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/workflow/2-generate_mlbf b/workflow/2-generate_mlbf
index ebc0a60..cd72329 100755
--- a/workflow/2-generate_mlbf
+++ b/workflow/2-generate_mlbf
@@ -88,9 +88,16 @@ def main():
             dest = Path(tempfile.mkdtemp())
             prev_revset = dest / Path("prev_revset.bin")
 
+            # The delta continues from the last run of the same filter: the
+            # revset of another reason set holds other certificates.
+            if reason_set == "all":
+                remote_revset = "latest/revset.bin"
+            else:
+                remote_revset = f"latest/{os.path.basename(outdir)}/revset.bin"
+
             workflow.download_from_google_cloud(
                 args.filter_bucket,
-                "latest/revset.bin",
+                remote_revset,
                 prev_revset,
             )
 
diff --git a/workflow/3-upload_mlbf_to_storage b/workflow/3-upload_mlbf_to_storage
index 4659eef..b93bb58 100755
--- a/workflow/3-upload_mlbf_to_storage
+++ b/workflow/3-upload_mlbf_to_storage
@@ -83,6 +83,9 @@ def main():
         localFolder = Path(path)
         remoteFolder = localFolder.relative_to(runIdPath.parent)
         uploadFiles(files, localFolder, remoteFolder, bucket, args=args)
+        # Add a copy to /latest/clubcard-priority
+        subFolder = localFolder.relative_to(runIdPath)
+        uploadFiles(files, localFolder, Path("latest") / subFolder, bucket, args=args)
 
     sentinel = bucket.blob(str(Path(runIdPath.name) / "completed"))
     log.info(f"Saving 'completed' marker to {sentinel.name}")
-- 
2.43.0

