From d5251f95f086c42958a5f38f8db7acd473aa726b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:25:52 +0000
Subject: [PATCH 01/48] fix: read and replace provider info atomically in
 RegisterOrUpdate

Concurrent calls read the same existing info and then overwrote each other's
update, and a provider removed or registered in between was brought back with
its old data. The existing info of an inactive provider was not read at all and
so was lost.
---
 internal/registry/registry.go | 59 +++++++++++++++++++++++------------
 1 file changed, 39 insertions(+), 20 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 708f328..be0f7e6 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -315,6 +315,30 @@ func (r *Registry) Discover(peerID peer.ID, discoveryAddr string, sync bool) err
 // Register is used to directly register a provider, bypassing discovery and
 // adding discovered data directly to the registry.
 func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
+	err := r.checkRegister(info)
+	if err != nil {
+		return err
+	}
+
+	// If provider is allowed and publisher is allowed to publish for the
+	// provider, then register.
+	errCh := make(chan error, 1)
+	r.actions <- func() {
+		errCh <- r.syncRegister(ctx, info)
+	}
+
+	err = <-errCh
+	if err != nil {
+		return err
+	}
+
+	log.Infow("Registered provider", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
+	return nil
+}
+
+// checkRegister checks that the provider info is valid, and that the provider
+// and its publisher are allowed by policy.
+func (r *Registry) checkRegister(info *ProviderInfo) error {
 	if len(info.AddrInfo.Addrs) == 0 {
 		return errors.New("missing provider address")
 	}
@@ -341,19 +365,6 @@ func (r *Registry) Register(ctx context.Context, info *ProviderInfo) error {
 		}
 	}
 
-	// If provider is allowed and publisher is allowed to publish for the
-	// provider, then register.
-	errCh := make(chan error, 1)
-	r.actions <- func() {
-		errCh <- r.syncRegister(ctx, info)
-	}
-
-	err = <-errCh
-	if err != nil {
-		return err
-	}
-
-	log.Infow("Registered provider", "id", info.AddrInfo.ID, "addrs", info.AddrInfo.Addrs)
 	return nil
 }
 
@@ -398,9 +409,19 @@ func (r *Registry) BlockPeer(peerID peer.ID) bool {
 // If publisher has a valid ID, then the data in publisher replaces the
 // provider's previous publisher information.
 func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
+	// The update depends on the existing info, so read and replace it in the
+	// same action.
+	errCh := make(chan error, 1)
+	r.actions <- func() {
+		errCh <- r.syncRegisterOrUpdate(ctx, providerID, addrs, adID, publisher)
+	}
+	return <-errCh
+}
+
+func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID, addrs []string, adID cid.Cid, publisher peer.AddrInfo) error {
 	var fullRegister bool
 	// Check that the provider has been discovered and validated
-	info := r.ProviderInfo(providerID)
+	info := r.providers[providerID]
 	if info != nil {
 		info = &ProviderInfo{
 			AddrInfo: peer.AddrInfo{
@@ -468,15 +489,13 @@ func (r *Registry) RegisterOrUpdate(ctx context.Context, providerID peer.ID, add
 	// If there is a new providerID or publisherID then do a full Register that
 	// checks the allow policy.
 	if fullRegister {
-		return r.Register(ctx, info)
+		if err := r.checkRegister(info); err != nil {
+			return err
+		}
 	}
 
 	// If laready registered and no new IDs, register without verification.
-	errCh := make(chan error, 1)
-	r.actions <- func() {
-		errCh <- r.syncRegister(ctx, info)
-	}
-	err := <-errCh
+	err := r.syncRegister(ctx, info)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From eddd7073b6a39087a414fc9ebe5c4f3b04178244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:29:40 +0000
Subject: [PATCH 02/48] fix: do not modify provider info that was already
 handed out

Removing a provider and polling changed ProviderInfo instances in place, which
are documented to be immutable and are read by other goroutines.
---
 internal/registry/registry.go | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index be0f7e6..1437bee 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -641,9 +641,11 @@ func (r *Registry) RemoveProvider(ctx context.Context, providerID peer.ID) error
 		return err
 	}
 	if pinfo != nil {
-		// Tell ingester to delete its provider data.
-		pinfo.deleted = true
-		r.syncChan <- pinfo
+		// Tell ingester to delete its provider data. Provider info is
+		// immutable, so set deleted in a copy.
+		delInfo := *pinfo
+		delInfo.deleted = true
+		r.syncChan <- &delInfo
 	}
 	return nil
 }
@@ -837,6 +839,9 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 				// No publisher.
 				continue
 			}
+			// Provider info is immutable, so update a copy.
+			infoCopy := *info
+			info = &infoCopy
 			override, ok := pollOverrides[peerID]
 			if ok {
 				poll = override
@@ -845,6 +850,7 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 				// There has been no contact since startup.  Poll during next
 				// call to this function if no update for provider.
 				info.lastContactTime = now.Add(-poll.interval)
+				r.providers[peerID] = info
 				continue
 			}
 			noContactTime := now.Sub(info.lastContactTime)
@@ -869,6 +875,7 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 				// Still polling after at least one retry, so mark inactive.
 				// This will exclude the provider from find responses.
 				info.inactive = true
+				r.providers[peerID] = info
 			}
 			select {
 			case r.syncChan <- info:
-- 
2.43.0


From 87de7878c880acab8b45ce02980b45ea4742e2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:31:52 +0000
Subject: [PATCH 03/48] fix: apply poll override only to its own provider

After a provider with an override, all providers that followed in the same
check were polled with the parameters of that override.
---
 internal/registry/registry.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 1437bee..39f8fd4 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -842,6 +842,7 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 			// Provider info is immutable, so update a copy.
 			infoCopy := *info
 			info = &infoCopy
+			poll := poll // an override applies only to its own provider
 			override, ok := pollOverrides[peerID]
 			if ok {
 				poll = override
-- 
2.43.0


From 9e9fe8def785b2d0cbacd6b556ee95a8725a899c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:34:33 +0000
Subject: [PATCH 04/48] fix: do not lose the signal to delete an unresponsive
 provider

If the sync channel was full when a provider was removed for being unreachable,
then the ingester was never told to remove its data.
---
 internal/registry/registry.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 39f8fd4..88c5319 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -866,12 +866,21 @@ func (r *Registry) pollProviders(poll polling, pollOverrides map[peer.ID]polling
 			if sincePollingStarted >= poll.stopAfter {
 				// Too much time since last contact.
 				log.Warnw("Lost contact with provider, too long with no updates", "publisher", info.Publisher, "provider", info.AddrInfo.ID, "since", info.lastContactTime)
+				// Tell the ingester to remove data for the provider. If it
+				// cannot be told now, then keep the provider until the next
+				// check.
+				info.deleted = true
+				select {
+				case r.syncChan <- info:
+				default:
+					log.Debugw("Sync channel blocked, not removing provider yet", "provider", peerID)
+					continue
+				}
 				// Remove the dead provider from the registry.
 				if err := r.syncRemoveProvider(context.Background(), peerID); err != nil {
 					log.Errorw("Failed to update deleted provider info", "err", err)
 				}
-				// Tell the ingester to remove data for the provider.
-				info.deleted = true
+				continue
 			} else if sincePollingStarted >= 2*poll.retryAfter {
 				// Still polling after at least one retry, so mark inactive.
 				// This will exclude the provider from find responses.
-- 
2.43.0


From 7908e254fa7386fe2eb6cfab316f4e0e8f345ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:56 +0000
Subject: [PATCH 05/48] fix: do not accept a request again when its sequence is
 retired

A sequence exactly as old as allowed, or that became too old between the age
check and taking the lock, was forgotten by retire and then accepted again.
---
 internal/registry/sequences.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/registry/sequences.go b/internal/registry/sequences.go
index 88d8097..6bec1e3 100644
--- a/internal/registry/sequences.go
+++ b/internal/registry/sequences.go
@@ -27,14 +27,14 @@ func newSequences(maxAge time.Duration) *sequences {
 }
 
 func (s *sequences) check(id peer.ID, sequence uint64) error {
+	s.mutex.Lock()
+	defer s.mutex.Unlock()
+
 	oldestAllowed := uint64(time.Now().Add(-s.maxAge).UnixNano())
 	if sequence < oldestAllowed {
 		return errors.New("sequence too small")
 	}
 
-	s.mutex.Lock()
-	defer s.mutex.Unlock()
-
 	prevSeq, ok := s.seqs[id]
 	if ok && sequence <= prevSeq {
 		return errors.New("sequence less than or equal to last seen")
@@ -51,7 +51,7 @@ func (s *sequences) retire() {
 	defer s.mutex.Unlock()
 
 	for id, seq := range s.seqs {
-		if seq > oldestAllowed {
+		if seq >= oldestAllowed {
 			active[id] = seq
 		}
 	}
-- 
2.43.0


From 13bc5ce121f16688abbf62d9fed748591dadd19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:24 +0000
Subject: [PATCH 06/48] fix: do not send on the closed sync channel when
 closing the registry

Importing or removing a provider could be waiting to signal the ingester when
Close closed the channel, which crashed the process.
---
 internal/registry/registry.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 88c5319..5f23cc8 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -279,11 +279,11 @@ running:
 		close(done)
 	}
 	<-done
-	close(r.syncChan)
 
-	// Wait for any pending discoveries to complete, then stop the main run
-	// goroutine.
+	// Wait for any pending discoveries, and anything sending on the sync
+	// channel, to complete, then stop the main run goroutine.
 	r.discoverWait.Wait()
+	close(r.syncChan)
 	close(r.actions)
 }
 
@@ -615,7 +615,9 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 	log.Infow("Imported new providers from other indexer", "from", fromURL.String(), "count", len(newProvs))
 
 	// Start gorouting to sync with all the new providers.
+	r.discoverWait.Add(1)
 	go func() {
+		defer r.discoverWait.Done()
 		for _, pinfo := range newProvs {
 			select {
 			case r.syncChan <- pinfo:
@@ -633,10 +635,12 @@ func (r *Registry) RemoveProvider(ctx context.Context, providerID peer.ID) error
 	errChan := make(chan error)
 	r.actions <- func() {
 		pinfo = r.providers[providerID]
+		r.discoverWait.Add(1)
 		// Remove provider from datastore and memory.
 		errChan <- r.syncRemoveProvider(ctx, providerID)
 	}
 	err := <-errChan
+	defer r.discoverWait.Done()
 	if err != nil {
 		return err
 	}
@@ -645,7 +649,10 @@ func (r *Registry) RemoveProvider(ctx context.Context, providerID peer.ID) error
 		// immutable, so set deleted in a copy.
 		delInfo := *pinfo
 		delInfo.deleted = true
-		r.syncChan <- &delInfo
+		select {
+		case r.syncChan <- &delInfo:
+		case <-r.closing:
+		}
 	}
 	return nil
 }
-- 
2.43.0


From 0a06ad5167b1a60d740e0af83e9e0146ad426d57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:42:41 +0000
Subject: [PATCH 07/48] fix: refuse malformed provider addresses instead of
 crashing

An advertisement or import with an address that cannot be parsed, or a changed
publisher without address, ended the process.
---
 internal/registry/registry.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index 5f23cc8..a2d945d 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -439,7 +439,10 @@ func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID,
 			if publisher.ID != info.Publisher {
 				// Publisher ID changed.
 				info.Publisher = publisher.ID
-				info.PublisherAddr = publisher.Addrs[0]
+				info.PublisherAddr = nil
+				if len(publisher.Addrs) != 0 {
+					info.PublisherAddr = publisher.Addrs[0]
+				}
 				fullRegister = true
 			} else if len(publisher.Addrs) != 0 {
 				// Use provided publisher addrs.
@@ -473,7 +476,7 @@ func (r *Registry) syncRegisterOrUpdate(ctx context.Context, providerID peer.ID,
 	if len(addrs) != 0 {
 		maddrs, err := stringsToMultiaddrs(addrs)
 		if err != nil {
-			panic(err)
+			return err
 		}
 		info.AddrInfo.Addrs = maddrs
 	}
@@ -578,6 +581,10 @@ func (r *Registry) ImportProviders(ctx context.Context, fromURL *url.URL) (int,
 
 	var newProvs []*ProviderInfo
 	for _, pInfo := range provs {
+		if pInfo == nil || len(pInfo.AddrInfo.Addrs) == 0 {
+			// Cannot register a provider that has no address.
+			continue
+		}
 		if r.IsRegistered(pInfo.AddrInfo.ID) {
 			continue
 		}
-- 
2.43.0


From 4ca5c07cf059e9280c60be362e0ca5154f813b17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:11:49 +0000
Subject: [PATCH 08/48] fix: do not drop a staged ad chain when another one is
 staged

---
 internal/ingest/ingest.go | 46 +++++++++++++++++++++++++++++++++++----
 1 file changed, 42 insertions(+), 4 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 66e272d..1d1985c 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -73,6 +73,23 @@ type workerAssignment struct {
 	adInfos   []adInfo
 	publisher peer.ID
 	provider  peer.ID
+	// earlier holds assignments that were still waiting for a worker when this
+	// one was staged, and that have ads that are not part of this one.
+	earlier []workerAssignment
+}
+
+// covers reports whether all ads of the other assignment are also in this one.
+func (wa *workerAssignment) covers(other workerAssignment) bool {
+	cids := make(map[cid.Cid]struct{}, len(wa.adInfos))
+	for _, ai := range wa.adInfos {
+		cids[ai.cid] = struct{}{}
+	}
+	for _, ai := range other.adInfos {
+		if _, ok := cids[ai.cid]; !ok {
+			return false
+		}
+	}
+	return true
 }
 
 // Ingester is a type that uses go-legs for the ingestion protocol.
@@ -767,13 +784,26 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 			wa = &atomic.Value{}
 			ing.providerAdChainStaging[p] = wa
 		}
-		ing.providersBeingProcessedMu.Unlock()
 
-		oldAssignment := wa.Swap(workerAssignment{
+		newAssignment := workerAssignment{
 			adInfos:   adInfos,
 			publisher: syncFinishedEvent.PeerID,
 			provider:  p,
-		})
+		}
+		oldAssignment := wa.Load()
+		if oldAssignment != nil && !oldAssignment.(workerAssignment).none {
+			// Keep what the assignment that is being replaced has in addition.
+			old := oldAssignment.(workerAssignment)
+			earlier := old.earlier
+			old.earlier = nil
+			for _, waiting := range append(earlier, old) {
+				if !newAssignment.covers(waiting) {
+					newAssignment.earlier = append(newAssignment.earlier, waiting)
+				}
+			}
+		}
+		wa.Store(newAssignment)
+		ing.providersBeingProcessedMu.Unlock()
 
 		if oldAssignment == nil || oldAssignment.(workerAssignment).none {
 			// No previous run scheduled a worker to handle this provider, so
@@ -810,9 +840,9 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 	// populates this atomic.Value.
 	ing.providersBeingProcessedMu.Lock()
 	wa := ing.providerAdChainStaging[provider]
+	assignmentInterface := wa.Swap(workerAssignment{none: true})
 	ing.providersBeingProcessedMu.Unlock()
 
-	assignmentInterface := wa.Swap(workerAssignment{none: true})
 	if assignmentInterface == nil || assignmentInterface.(workerAssignment).none {
 		// Note this is here for completeness. This would not happen
 		// normally. Execution could get here if someone manually calls this
@@ -820,7 +850,15 @@ func (ing *Ingester) ingestWorkerLogic(provider peer.ID) {
 		return
 	}
 	assignment := assignmentInterface.(workerAssignment)
+	for _, earlier := range assignment.earlier {
+		ing.ingestAssignment(earlier)
+	}
+	ing.ingestAssignment(assignment)
+}
 
+// ingestAssignment ingests the unprocessed ads of an assignment, from earliest
+// to latest.
+func (ing *Ingester) ingestAssignment(assignment workerAssignment) {
 	rmCtxID := make(map[string]struct{})
 	var skips []int
 	skip := -1
-- 
2.43.0


From a9b31afc326f44fb07b4701b5d5abe744e4bc2ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:14:12 +0000
Subject: [PATCH 09/48] fix: do not fail a sync because an ad was processed
 meanwhile

---
 internal/ingest/ingest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 1d1985c..5e66bdb 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -246,6 +246,12 @@ func (ing *Ingester) generalLegsBlockHook(_ peer.ID, c cid.Cid, actions legs.Seg
 	// Therefore, we only attempt to load advertisements here and signal failure if the
 	// load fails.
 	if ad, err := ing.loadAd(c); err != nil {
+		// An ad that was processed since the sync got to it is no longer in the
+		// datastore, and there is no need to sync any earlier ads.
+		if ing.adAlreadyProcessed(c) {
+			actions.SetNextSyncCid(cid.Undef)
+			return
+		}
 		actions.FailSync(err)
 	} else if ad.PreviousID != nil {
 		actions.SetNextSyncCid(ad.PreviousID.(cidlink.Link).Cid)
-- 
2.43.0


From 7c018f1052dc0e835a3257a1817dc3cc46ea10a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:33:11 +0000
Subject: [PATCH 10/48] fix: do not leave an announce pending when nothing is
 processing its provider

---
 internal/ingest/ingest.go | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 5e66bdb..2ac4995 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -456,6 +456,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 		log.Info("Handling direct announce request")
 		err := ing.sub.Announce(ctx, nextCid, provider, addrInfo.Addrs)
 		<-pc
+		ing.handleLatePendingAnnounce(provider, pc)
 		return err
 	case <-ctx.Done():
 		return ctx.Err()
@@ -465,6 +466,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 			nextCid:  nextCid,
 		})
 		log.Info("Deferred handling direct announce request")
+		ing.handleLatePendingAnnounce(provider, pc)
 		return nil
 	}
 }
@@ -837,6 +839,7 @@ func (ing *Ingester) ingestWorker() {
 			ing.ingestWorkerLogic(pid)
 			ing.handlePendingAnnounce(pid)
 			<-pc
+			ing.handleLatePendingAnnounce(pid, pc)
 		}
 	}
 }
@@ -1007,6 +1010,24 @@ func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 	log.Info("Successfully handled pending announce")
 }
 
+// handleLatePendingAnnounce handles an announce that became pending after
+// whoever was processing the provider had looked for it. If the provider is
+// being processed then that is left to whoever is processing it.
+func (ing *Ingester) handleLatePendingAnnounce(pid peer.ID, pc chan struct{}) {
+	for {
+		if _, found := ing.providersPendingAnnounce.Load(pid); !found {
+			return
+		}
+		select {
+		case pc <- struct{}{}:
+			ing.handlePendingAnnounce(pid)
+			<-pc
+		default:
+			return
+		}
+	}
+}
+
 // recursionLimit returns the recursion limit for the given depth.
 func recursionLimit(depth int) selector.RecursionLimit {
 	if depth < 1 {
-- 
2.43.0


From 18096f73dd8a1e875bf5c8ab2ea506c49f13af9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:36:03 +0000
Subject: [PATCH 11/48] fix: do not block event distribution on a sync that is
 not reading

---
 internal/ingest/ingest.go | 39 +++++++++++++++++++++++++++++++++++++--
 1 file changed, 37 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 2ac4995..605e600 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -414,7 +414,11 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 		log.Debugw("Syncing advertisements up to latest", "adCid", c)
 		for {
 			select {
-			case adProcessedEvent := <-syncDone:
+			case adProcessedEvent, ok := <-syncDone:
+				if !ok {
+					log.Warnw("Sync cancelled because of close")
+					return
+				}
 				log.Debugw("Synced advertisement", "adCid", adProcessedEvent.adCid)
 				if adProcessedEvent.adCid == c || adProcessedEvent.err != nil && adProcessedEvent.headAdCid == c {
 					// If an error occurred then the adProcessedEvent.adCid
@@ -574,6 +578,11 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 	}
 	ing.outEventsChans[peerID] = append(outEventsChans, ch)
 
+	// Queue the events, so that a reader that is not reading the channel does
+	// not stop the distribution of events to others and its own cancellation.
+	queued := make(chan adProcessedEvent)
+	go queueEvents(ch, queued)
+
 	cncl := func() {
 		ing.outEventsMutex.Lock()
 		defer ing.outEventsMutex.Unlock()
@@ -590,6 +599,7 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 					} else {
 						delete(ing.outEventsChans, peerID)
 					}
+					close(ch)
 				} else {
 					outEventsChans[i] = outEventsChans[len(outEventsChans)-1]
 					outEventsChans[len(outEventsChans)-1] = nil
@@ -601,7 +611,32 @@ func (ing *Ingester) onAdProcessed(peerID peer.ID) (<-chan adProcessedEvent, con
 			}
 		}
 	}
-	return ch, cncl
+	return queued, cncl
+}
+
+// queueEvents delivers all events read from in to out, and always reads in
+// without waiting for out. When in is closed, out is closed.
+func queueEvents(in <-chan adProcessedEvent, out chan<- adProcessedEvent) {
+	defer close(out)
+
+	var queue []adProcessedEvent
+	for {
+		var next adProcessedEvent
+		var ready chan<- adProcessedEvent
+		if len(queue) != 0 {
+			next = queue[0]
+			ready = out
+		}
+		select {
+		case event, ok := <-in:
+			if !ok {
+				return
+			}
+			queue = append(queue, event)
+		case ready <- next:
+			queue = queue[1:]
+		}
+	}
 }
 
 // signalMetricsUpdate signals that metrics should be updated.
-- 
2.43.0


From 702c81eb0cd65a1f555e453f8ed300496b6932bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:16 +0000
Subject: [PATCH 12/48] fix: do not report a sync as done when processing its
 ads failed

---
 internal/ingest/ingest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 605e600..0022a0a 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -425,6 +425,12 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 					// will be the cid that caused the error, and there will
 					// not be any future adProcessedEvents. Therefore check the
 					// headAdCid to see if this was the sync that was started.
+					if adProcessedEvent.err != nil {
+						// The sync did not complete, so do not report it as done.
+						log.Errorw("Failed to process synced advertisements", "err", adProcessedEvent.err, "adCid", adProcessedEvent.adCid)
+						ing.signalMetricsUpdate()
+						return
+					}
 					out <- c
 					ing.signalMetricsUpdate()
 					return
-- 
2.43.0


From b642b165386064e446443f6f9643e891aaa77ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:38 +0000
Subject: [PATCH 13/48] fix: do not wait for an ad that is already processed

---
 internal/ingest/ingest.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 0022a0a..40093e7 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -405,7 +405,7 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 
 		// If latest head had already finished syncing, then do not wait for
 		// syncDone since it will never happen.
-		if latest == c && !resync {
+		if (latest == c || ing.adAlreadyProcessed(c)) && !resync {
 			log.Infow("Latest advertisement already processed", "adCid", c)
 			out <- c
 			return
-- 
2.43.0


From c430f9ddd560522be21a6483cbfd9ae0adc9733d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:37:51 +0000
Subject: [PATCH 14/48] fix: retry an ad when storing its first entries fails

---
 internal/ingest/linksystem.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index abbcfb2..e4c6fea 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -308,13 +308,14 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		log = log.With("entriesKind", "EntryChunk")
 		// We have already peaked the first EntryChunk as part of probing the entries type.
 		// So process that first
-		chunk, err := ing.loadEntryChunk(syncedFirstEntryCid)
+		chunk, err := schema.UnwrapEntryChunk(node)
 		if err != nil {
 			errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
 		} else {
 			err = ing.ingestEntryChunk(ctx, ad, syncedFirstEntryCid, *chunk, log)
 			if err != nil {
-				errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
+				// Not a problem with the chunk, so this may work when retried.
+				return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to ingest first entry chunk: %w", err)}
 			}
 		}
 
-- 
2.43.0


From bf943d97a32ec70a95e0894a1da62697170223c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:38:21 +0000
Subject: [PATCH 15/48] fix: do not process later ads when an ad cannot be
 loaded

---
 internal/ingest/ingest.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 40093e7..0d0630c 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -807,8 +807,20 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		ad, err := ing.loadAd(c)
 		if err != nil {
 			stats.Record(context.Background(), metrics.AdLoadError.M(1))
-			log.Errorw("Failed to load advertisement CID, skipping", "cid", c, "err", err)
-			continue
+			if ing.adAlreadyProcessed(c) {
+				// Processed, and removed from the datastore, just now.
+				break
+			}
+			log.Errorw("Failed to load advertisement CID, not ingesting later ads", "cid", c, "err", err)
+			// Later ads must not be processed without this one. Tell anyone
+			// waiting that the sync finished because of error.
+			ing.inEvents <- adProcessedEvent{
+				publisher: syncFinishedEvent.PeerID,
+				headAdCid: syncFinishedEvent.SyncedCids[0],
+				adCid:     c,
+				err:       err,
+			}
+			return
 		}
 		providerID, err := peer.Decode(ad.Provider)
 		if err != nil {
-- 
2.43.0


From 4a82700bdd6918c0a51715a8bb2e08f78f3a8b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:22:50 +0000
Subject: [PATCH 16/48] fix: find does not remove the data of an inactive
 provider

---
 server/finder/handler/finder_handler.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/server/finder/handler/finder_handler.go b/server/finder/handler/finder_handler.go
index 0255d29..baefcc8 100644
--- a/server/finder/handler/finder_handler.go
+++ b/server/finder/handler/finder_handler.go
@@ -59,6 +59,11 @@ func (h *FinderHandler) Find(mhashes []multihash.Multihash) (*model.FindResponse
 			addrs, ok := provAddrs[provID]
 			if !ok {
 				pinfo := h.registry.ProviderInfo(provID)
+				if pinfo == nil && h.registry.IsRegistered(provID) {
+					// Provider is in registry, but is not available now. Do
+					// not return it in result, and keep its data.
+					continue
+				}
 				if pinfo == nil {
 					// If provider not in registry, then provider was deleted.
 					// Tell the indexed core to delete the contextID for the
-- 
2.43.0


From aa8bb38e8c9c26a4c63d28c9bf6df60668b6341d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:24:36 +0000
Subject: [PATCH 17/48] fix: ads of a removed provider are processed again when
 it returns

---
 internal/ingest/ingest.go | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 0d0630c..c57a32d 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -253,13 +253,29 @@ func (ing *Ingester) generalLegsBlockHook(_ peer.ID, c cid.Cid, actions legs.Seg
 			return
 		}
 		actions.FailSync(err)
-	} else if ad.PreviousID != nil {
+	} else if ing.unprocessRemoved(c, ad); ad.PreviousID != nil {
 		actions.SetNextSyncCid(ad.PreviousID.(cidlink.Link).Cid)
 	} else {
 		actions.SetNextSyncCid(cid.Undef)
 	}
 }
 
+// unprocessRemoved marks an ad as unprocessed if its provider was removed after
+// the ad was processed. The data of a removed provider gets deleted, so if the
+// provider is back then all of its ads need to be processed again.
+func (ing *Ingester) unprocessRemoved(c cid.Cid, ad schema.Advertisement) {
+	if !ing.adAlreadyProcessed(c) {
+		return
+	}
+	providerID, err := peer.Decode(ad.Provider)
+	if err != nil || ing.reg.IsRegistered(providerID) {
+		return
+	}
+	if err = ing.markAdUnprocessed(c); err != nil {
+		log.Errorw("Failed to mark ad as unprocessed", "err", err, "adCid", c)
+	}
+}
+
 func (ing *Ingester) getRateLimiter(publisher peer.ID) *rate.Limiter {
 	ing.rateMutex.Lock()
 	defer ing.rateMutex.Unlock()
-- 
2.43.0


From 8e9fcaab3c56aa10c63784f82275df6cfa6942cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:27:07 +0000
Subject: [PATCH 18/48] fix: a provider whose publisher answers a poll is not
 considered lost

---
 internal/ingest/ingest.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index c57a32d..49981cb 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -744,6 +744,12 @@ func (ing *Ingester) autoSync() {
 				log.Errorw("Failed to auto-sync with publisher", "err", err)
 				return
 			}
+			// The publisher responded, so there was contact with the provider
+			// even if there is nothing new.
+			err = ing.reg.RegisterOrUpdate(ctx, provID, nil, cid.Undef, peer.AddrInfo{})
+			if err != nil {
+				log.Errorw("Failed to update provider after auto-sync", "err", err)
+			}
 		}(provInfo.Publisher, provInfo.PublisherAddr, provInfo.AddrInfo.ID)
 	}
 }
-- 
2.43.0


From 39c4bfa5a6c07c0a90ac927263581d307d099556 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:46:38 +0000
Subject: [PATCH 19/48] fix: an empty libp2p error response is not reported as
 success

---
 api/v0/finder/client/libp2p/client.go | 4 ++++
 api/v0/ingest/client/libp2p/client.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/api/v0/finder/client/libp2p/client.go b/api/v0/finder/client/libp2p/client.go
index aaf4742..75c284b 100644
--- a/api/v0/finder/client/libp2p/client.go
+++ b/api/v0/finder/client/libp2p/client.go
@@ -132,6 +132,10 @@ func (c *Client) sendRecv(ctx context.Context, req *pb.FinderMessage, expectRspT
 	}
 	if resp.GetType() != expectRspType {
 		if resp.GetType() == pb.FinderMessage_ERROR_RESPONSE {
+			if len(resp.GetData()) == 0 {
+				// No message to decode, but still not a success.
+				return nil, fmt.Errorf("indexer returned error without message")
+			}
 			return nil, v0.DecodeError(resp.GetData())
 		}
 		return nil, fmt.Errorf("response type is not %s", expectRspType.String())
diff --git a/api/v0/ingest/client/libp2p/client.go b/api/v0/ingest/client/libp2p/client.go
index 7c99225..ebffb31 100644
--- a/api/v0/ingest/client/libp2p/client.go
+++ b/api/v0/ingest/client/libp2p/client.go
@@ -94,6 +94,10 @@ func (c *Client) sendRecv(ctx context.Context, req *pb.IngestMessage, expectRspT
 	}
 	if resp.GetType() != expectRspType {
 		if resp.GetType() == pb.IngestMessage_ERROR_RESPONSE {
+			if len(resp.GetData()) == 0 {
+				// No message to decode, but still not a success.
+				return nil, fmt.Errorf("indexer returned error without message")
+			}
 			return nil, v0.DecodeError(resp.GetData())
 		}
 		return nil, fmt.Errorf("response type is not %s", expectRspType.String())
-- 
2.43.0


From f65bc4f70f47b4219af95413a0e7a564ea6db221 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:49:12 +0000
Subject: [PATCH 20/48] fix: refuse signed requests that the provider itself
 did not sign

---
 api/v0/ingest/model/discover_request.go | 5 ++++-
 api/v0/ingest/model/ingest_request.go   | 5 ++++-
 api/v0/ingest/model/register_request.go | 5 ++++-
 3 files changed, 12 insertions(+), 3 deletions(-)

diff --git a/api/v0/ingest/model/discover_request.go b/api/v0/ingest/model/discover_request.go
index 83c2dbc..8dd7367 100644
--- a/api/v0/ingest/model/discover_request.go
+++ b/api/v0/ingest/model/discover_request.go
@@ -64,7 +64,7 @@ func MakeDiscoverRequest(providerID peer.ID, privateKey crypto.PrivKey, discover
 // ReadDiscoverRequest unmarshals a DiscoverRequest from bytes, verifies the
 // signature, and returns the DiscoverRequest
 func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, DiscoverRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume discover request envelope: %s", err)
 	}
@@ -72,5 +72,8 @@ func ReadDiscoverRequest(data []byte) (*DiscoverRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *DiscoverRequest")
 	}
+	if !rec.ProviderID.MatchesPublicKey(envelope.PublicKey) {
+		return nil, fmt.Errorf("discover request not signed by provider")
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/ingest_request.go b/api/v0/ingest/model/ingest_request.go
index 7678e05..d656a42 100644
--- a/api/v0/ingest/model/ingest_request.go
+++ b/api/v0/ingest/model/ingest_request.go
@@ -73,7 +73,7 @@ func MakeIngestRequest(providerID peer.ID, privateKey crypto.PrivKey, m multihas
 // ReadIngestRequest unmarshals an IngestRequest from bytes, verifies the
 // signature, and returns the IngestRequest
 func ReadIngestRequest(data []byte) (*IngestRequest, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, IngestRequestEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -81,5 +81,8 @@ func ReadIngestRequest(data []byte) (*IngestRequest, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled request is not a *IngestRequest")
 	}
+	if !rec.ProviderID.MatchesPublicKey(envelope.PublicKey) {
+		return nil, fmt.Errorf("ingest request not signed by provider")
+	}
 	return rec, nil
 }
diff --git a/api/v0/ingest/model/register_request.go b/api/v0/ingest/model/register_request.go
index 135aff6..e25cd10 100644
--- a/api/v0/ingest/model/register_request.go
+++ b/api/v0/ingest/model/register_request.go
@@ -36,7 +36,7 @@ func MakeRegisterRequest(providerID peer.ID, privateKey crypto.PrivKey, addrs []
 // ReadRegisterRequest unmarshals a peer.PeerRequest from bytes, verifies the
 // signature, and returns a peer.PeerRecord
 func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
-	_, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
+	envelope, untypedRecord, err := record.ConsumeEnvelope(data, peer.PeerRecordEnvelopeDomain)
 	if err != nil {
 		return nil, fmt.Errorf("cannot consume register request envelope: %s", err)
 	}
@@ -44,5 +44,8 @@ func ReadRegisterRequest(data []byte) (*peer.PeerRecord, error) {
 	if !ok {
 		return nil, fmt.Errorf("unmarshaled register request record is not a *PeerRecord")
 	}
+	if !rec.PeerID.MatchesPublicKey(envelope.PublicKey) {
+		return nil, fmt.Errorf("register request not signed by provider")
+	}
 	return rec, nil
 }
-- 
2.43.0


From ce300b02816e1e9911f2da0297dc46ecf2036e63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:52:29 +0000
Subject: [PATCH 21/48] fix: write the headers of JSON responses before the
 status

---
 internal/httpserver/util.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/httpserver/util.go b/internal/httpserver/util.go
index 295ea44..3823e22 100644
--- a/internal/httpserver/util.go
+++ b/internal/httpserver/util.go
@@ -13,10 +13,10 @@ import (
 var log = logging.Logger("indexer/http")
 
 func WriteJsonResponse(w http.ResponseWriter, status int, body []byte) {
-	w.WriteHeader(status)
 	w.Header().Set("Content-Type", "application/json; charset=utf-8")
 	w.Header().Set("Cache-Control", "no-cache")
 	w.Header().Set("Access-Control-Allow-Origin", "*")
+	w.WriteHeader(status)
 
 	if _, err := w.Write(body); err != nil {
 		log.Errorw("cannot write response", "err", err)
-- 
2.43.0


From f9779b011de9c110bc3729fd7b51c043addbae5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:14:04 +0000
Subject: [PATCH 22/48] fix: import CID list lines whatever their ending

---
 internal/importer/cidlist.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/internal/importer/cidlist.go b/internal/importer/cidlist.go
index 0bae227..1b0a9c6 100644
--- a/internal/importer/cidlist.go
+++ b/internal/importer/cidlist.go
@@ -5,6 +5,7 @@ import (
 	"context"
 	"errors"
 	"io"
+	"strings"
 
 	"github.com/ipfs/go-cid"
 	logging "github.com/ipfs/go-log/v2"
@@ -30,9 +31,12 @@ func ReadCids(ctx context.Context, in io.Reader, out chan<- multihash.Multihash,
 				done <- err
 				return
 			}
-			break
+			// The last line may not end with a newline.
+			if line == "" {
+				break
+			}
 		}
-		c, err := cid.Decode(line)
+		c, err := cid.Decode(strings.TrimSpace(line))
 		if err != nil || !c.Defined() {
 			badEntryCount++
 			// Ignore malformed CIDs
-- 
2.43.0


From 88790d1d7c43a23b07d170f3c590fc701728a34b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:23:24 +0000
Subject: [PATCH 23/48] fix: keep the current configuration when a reload fails

---
 command/daemon.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 09ff055..2bf2624 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -338,14 +338,15 @@ func daemonCommand(cctx *cli.Context) error {
 				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
 			}
 
-			cfg, err = reloadConfig(cfgPath, ingester, reg)
+			newCfg, err := reloadConfig(cfgPath, ingester, reg)
 			if err != nil {
 				log.Errorw("Error reloading conifg", "err", err)
 				if errChan != nil {
 					errChan <- errors.New("could not reload configuration")
-					continue
 				}
+				continue // keep the current configuration
 			}
+			cfg = newCfg
 
 			if p2pHost != nil {
 				peeringService, err = reloadPeering(cfg.Peering, peeringService, p2pHost)
-- 
2.43.0


From 63c254b26af20f7bafb395a70d8000aa2aa35657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:17 +0000
Subject: [PATCH 24/48] fix: a reload signal does not block the daemon when a
 reload is pending

---
 command/daemon.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 2bf2624..c67fb80 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -331,7 +331,10 @@ func daemonCommand(cctx *cli.Context) error {
 			finalErr = ErrDaemonStart
 			endDaemon = true
 		case <-reloadSig:
-			reloadErrsChan <- nil
+			select {
+			case reloadErrsChan <- nil:
+			default: // a reload is already pending
+			}
 		case errChan := <-reloadErrsChan:
 			prevCfgChk := cfg.Indexer.ConfigCheckInterval
 			if prevCfgChk != cfg.Indexer.ConfigCheckInterval {
@@ -374,7 +377,10 @@ func daemonCommand(cctx *cli.Context) error {
 			}
 			statErr = nil
 			if changed {
-				reloadErrsChan <- nil
+				select {
+				case reloadErrsChan <- nil:
+				default: // a reload is already pending
+				}
 			}
 		}
 	}
-- 
2.43.0


From 8a5e044cef117df5e43319382d2456d014fc194e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:50 +0000
Subject: [PATCH 25/48] fix: keep the peering service when its configuration is
 invalid

---
 command/daemon.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index c67fb80..93a0ac3 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -352,14 +352,15 @@ func daemonCommand(cctx *cli.Context) error {
 			cfg = newCfg
 
 			if p2pHost != nil {
-				peeringService, err = reloadPeering(cfg.Peering, peeringService, p2pHost)
+				newPeering, err := reloadPeering(cfg.Peering, peeringService, p2pHost)
 				if err != nil {
 					log.Errorw("Error reloading peering service", "err", err)
 					if errChan != nil {
 						errChan <- errors.New("could not reload peering service")
-						continue
 					}
+					continue // keep the current peering service
 				}
+				peeringService = newPeering
 			}
 
 			if errChan != nil {
-- 
2.43.0


From 10817cd686834984439367fd4d61c55876c7ef3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:24:50 +0000
Subject: [PATCH 26/48] fix: a reloaded config check interval takes effect

---
 command/daemon.go | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/command/daemon.go b/command/daemon.go
index 93a0ac3..e806f07 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -337,10 +337,6 @@ func daemonCommand(cctx *cli.Context) error {
 			}
 		case errChan := <-reloadErrsChan:
 			prevCfgChk := cfg.Indexer.ConfigCheckInterval
-			if prevCfgChk != cfg.Indexer.ConfigCheckInterval {
-				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
-			}
-
 			newCfg, err := reloadConfig(cfgPath, ingester, reg)
 			if err != nil {
 				log.Errorw("Error reloading conifg", "err", err)
@@ -350,6 +346,9 @@ func daemonCommand(cctx *cli.Context) error {
 				continue // keep the current configuration
 			}
 			cfg = newCfg
+			if ticker != nil && cfg.Indexer.ConfigCheckInterval > 0 && prevCfgChk != cfg.Indexer.ConfigCheckInterval {
+				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
+			}
 
 			if p2pHost != nil {
 				newPeering, err := reloadPeering(cfg.Peering, peeringService, p2pHost)
-- 
2.43.0


From 91b38563b1f1ea6d97278301659c578e7d32a1a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 27/48] fix: refuse discovery when no gateway is configured

---
 command/daemon.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index e806f07..f873f1f 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -20,6 +20,7 @@ import (
 	"github.com/filecoin-project/storetheindex/internal/ingest"
 	"github.com/filecoin-project/storetheindex/internal/lotus"
 	"github.com/filecoin-project/storetheindex/internal/registry"
+	"github.com/filecoin-project/storetheindex/internal/registry/discovery"
 	httpadminserver "github.com/filecoin-project/storetheindex/server/admin/http"
 	httpfinderserver "github.com/filecoin-project/storetheindex/server/finder/http"
 	p2pfinderserver "github.com/filecoin-project/storetheindex/server/finder/libp2p"
@@ -119,7 +120,7 @@ func daemonCommand(cctx *cli.Context) error {
 		return err
 	}
 
-	var lotusDiscoverer *lotus.Discoverer
+	var lotusDiscoverer discovery.Discoverer
 	if cfg.Discovery.LotusGateway != "none" {
 		log.Infow("discovery using lotus", "gateway", cfg.Discovery.LotusGateway)
 		// Create lotus client
-- 
2.43.0


From bb333bfb794175597b6ca86ef58b90ddc399268e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 28/48] fix: the admin server is disabled by the address "none"

---
 command/daemon.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index f873f1f..e29e9a4 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -252,7 +252,7 @@ func daemonCommand(cctx *cli.Context) error {
 
 	// Create admin HTTP server
 	var adminSvr *httpadminserver.Server
-	if cfg.Addresses.Admin != "" && !cctx.Bool("noadmin") {
+	if cfg.Addresses.Admin != "" && cfg.Addresses.Admin != "none" && !cctx.Bool("noadmin") {
 		maddr, err := multiaddr.NewMultiaddr(cfg.Addresses.Admin)
 		if err != nil {
 			return fmt.Errorf("bad admin address in config %s: %s", cfg.Addresses.Admin, err)
-- 
2.43.0


From 92cd73b852f1acd25a53eae276f0d96ec2014deb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 29/48] fix: refuse to start an admin server without ingester

---
 server/admin/http/server.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server/admin/http/server.go b/server/admin/http/server.go
index c62f680..3ab064d 100644
--- a/server/admin/http/server.go
+++ b/server/admin/http/server.go
@@ -2,6 +2,7 @@ package adminserver
 
 import (
 	"context"
+	"errors"
 	"net"
 	"net/http"
 
@@ -25,7 +26,7 @@ type Server struct {
 
 func New(listen string, indexer indexer.Interface, ingester *ingest.Ingester, reg *registry.Registry, reloadErrChan chan<- chan error, options ...ServerOption) (*Server, error) {
 	if ingester == nil {
-		panic("ingester cannot be nil")
+		return nil, errors.New("ingester cannot be nil")
 	}
 	var cfg serverConfig
 	if err := cfg.apply(append([]ServerOption{serverDefaults}, options...)...); err != nil {
-- 
2.43.0


From 5bbf73a66fb4bc2a841e0d40b45c78d78e7173ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:26:59 +0000
Subject: [PATCH 30/48] fix: a pending reload request does not delay shutdown

---
 server/admin/http/handler.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/server/admin/http/handler.go b/server/admin/http/handler.go
index 53d732e..49b3d73 100644
--- a/server/admin/http/handler.go
+++ b/server/admin/http/handler.go
@@ -181,9 +181,18 @@ func (h *adminHandler) importProviders(w http.ResponseWriter, r *http.Request) {
 }
 
 func (h *adminHandler) reloadConfig(w http.ResponseWriter, r *http.Request) {
-	errChan := make(chan error)
-	h.reloadErrChan <- errChan
-	err := <-errChan
+	errChan := make(chan error, 1)
+	var err error
+	select {
+	case h.reloadErrChan <- errChan:
+		select {
+		case err = <-errChan:
+		case <-h.ctx.Done():
+			err = h.ctx.Err()
+		}
+	case <-h.ctx.Done():
+		err = h.ctx.Err()
+	}
 	if err != nil {
 		http.Error(w, err.Error(), http.StatusInternalServerError)
 		return
-- 
2.43.0


From c443eee2c9137d2d5605484136327bf96d7ef607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:29 +0000
Subject: [PATCH 31/48] fix: refuse a configuration with a negative worker
 count or check interval

---
 command/daemon.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/command/daemon.go b/command/daemon.go
index e29e9a4..dfea764 100644
--- a/command/daemon.go
+++ b/command/daemon.go
@@ -347,7 +347,7 @@ func daemonCommand(cctx *cli.Context) error {
 				continue // keep the current configuration
 			}
 			cfg = newCfg
-			if ticker != nil && cfg.Indexer.ConfigCheckInterval > 0 && prevCfgChk != cfg.Indexer.ConfigCheckInterval {
+			if ticker != nil && prevCfgChk != cfg.Indexer.ConfigCheckInterval {
 				ticker.Reset(time.Duration(cfg.Indexer.ConfigCheckInterval))
 			}
 
@@ -516,6 +516,13 @@ func loadConfig(filePath string) (*config.Config, error) {
 		return nil, fmt.Errorf("only levelds datastore type supported, %q not supported", cfg.Datastore.Type)
 	}
 
+	if cfg.Ingest.IngestWorkerCount < 0 {
+		return nil, errors.New("IngestWorkerCount must not be negative")
+	}
+	if cfg.Indexer.ConfigCheckInterval < 0 {
+		return nil, errors.New("ConfigCheckInterval must not be negative")
+	}
+
 	return cfg, nil
 }
 
-- 
2.43.0


From 6988fabb1fe75058266a043ae1dc3f77fe905d7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:36:29 +0000
Subject: [PATCH 32/48] fix: lowering the worker count does not wait for busy
 workers

---
 internal/ingest/ingest.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 49981cb..f3fc2e7 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -92,6 +92,10 @@ func (wa *workerAssignment) covers(other workerAssignment) bool {
 	return true
 }
 
+// maxStoppingWorkers is the number of busy workers that can be told to stop
+// without waiting for them.
+const maxStoppingWorkers = 1024
+
 // Ingester is a type that uses go-legs for the ingestion protocol.
 type Ingester struct {
 	host    host.Host
@@ -174,7 +178,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		providersBeingProcessed: make(map[peer.ID]chan struct{}),
 		providerAdChainStaging:  make(map[peer.ID]*atomic.Value),
 		toWorkers:               make(chan providerID),
-		closeWorkers:            make(chan struct{}),
+		closeWorkers:            make(chan struct{}, maxStoppingWorkers),
 	}
 
 	var err error
-- 
2.43.0


From b11374704977da5d8813e6e5333795ffd798bf30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:47:26 +0000
Subject: [PATCH 33/48] fix: closing the ingester while a sync is in progress
 does not crash

---
 internal/ingest/ingest.go | 78 +++++++++++++++++++++++++++++++++++----
 1 file changed, 71 insertions(+), 7 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index f3fc2e7..1c65a48 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -96,6 +96,8 @@ func (wa *workerAssignment) covers(other workerAssignment) bool {
 // without waiting for them.
 const maxStoppingWorkers = 1024
 
+var errClosed = errors.New("ingester is closed")
+
 // Ingester is a type that uses go-legs for the ingestion protocol.
 type Ingester struct {
 	host    host.Host
@@ -126,6 +128,9 @@ type Ingester struct {
 
 	waitForPendingSyncs sync.WaitGroup
 	closePendingSyncs   chan struct{}
+	closingMutex        sync.Mutex
+	closing             bool
+	closeSyncsOnce      sync.Once
 
 	cancelOnSyncFinished context.CancelFunc
 
@@ -138,6 +143,8 @@ type Ingester struct {
 	closeWorkers chan struct{}
 	// toStaging receives sync finished events used to call to runIngestStep.
 	toStaging <-chan legs.SyncFinished
+	// stagingDone is closed when runIngesterLoop is done.
+	stagingDone chan struct{}
 	// toWorkers is used to ask the worker pool to start processing the ad
 	// chain for a given provider.
 	toWorkers      chan providerID
@@ -174,6 +181,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		inEvents:    make(chan adProcessedEvent, 1),
 
 		closePendingSyncs: make(chan struct{}),
+		stagingDone:       make(chan struct{}),
 
 		providersBeingProcessed: make(map[peer.ID]chan struct{}),
 		providerAdChainStaging:  make(map[peer.ID]*atomic.Value),
@@ -294,6 +302,18 @@ func (ing *Ingester) getRateLimiter(publisher peer.ID) *rate.Limiter {
 }
 
 func (ing *Ingester) Close() error {
+	// Stop everything that uses the leg transport.
+	ing.closeSyncsOnce.Do(func() {
+		ing.closingMutex.Lock()
+		ing.closing = true
+		ing.closingMutex.Unlock()
+
+		close(ing.closePendingSyncs)
+		ing.waitForPendingSyncs.Wait()
+		close(ing.closeWorkers)
+		ing.waitForWorkers.Wait()
+	})
+
 	// Close leg transport.
 	err := ing.sub.Close()
 
@@ -309,10 +329,7 @@ func (ing *Ingester) Close() error {
 
 	ing.closeOnce.Do(func() {
 		ing.cancelOnSyncFinished()
-		close(ing.closeWorkers)
-		ing.waitForWorkers.Wait()
-		close(ing.closePendingSyncs)
-		ing.waitForPendingSyncs.Wait()
+		<-ing.stagingDone
 
 		// Stop the distribution goroutine.
 		close(ing.inEvents)
@@ -323,6 +340,33 @@ func (ing *Ingester) Close() error {
 	return err
 }
 
+// startPendingSync prevents the ingester from closing the leg transport until
+// waitForPendingSyncs.Done is called. Returns false if the ingester is closed.
+func (ing *Ingester) startPendingSync() bool {
+	ing.closingMutex.Lock()
+	defer ing.closingMutex.Unlock()
+
+	if ing.closing {
+		return false
+	}
+	ing.waitForPendingSyncs.Add(1)
+	return true
+}
+
+// pendingSyncContext returns a context that is also canceled when the ingester
+// is closed.
+func (ing *Ingester) pendingSyncContext(ctx context.Context) (context.Context, context.CancelFunc) {
+	ctx, cancel := context.WithCancel(ctx)
+	go func() {
+		select {
+		case <-ing.closePendingSyncs:
+			cancel()
+		case <-ctx.Done():
+		}
+	}()
+	return ctx, cancel
+}
+
 // Sync syncs advertisements, up to the the latest advertisement, from a
 // publisher. A channel is returned that gives the caller the option to wait
 // for Sync to complete. The channel returns the final CID that was synced by
@@ -360,11 +404,16 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 
 	out := make(chan cid.Cid, 1)
 
-	ing.waitForPendingSyncs.Add(1)
+	if !ing.startPendingSync() {
+		return nil, errClosed
+	}
 	go func() {
 		defer ing.waitForPendingSyncs.Done()
 		defer close(out)
 
+		ctx, cancelSync := ing.pendingSyncContext(ctx)
+		defer cancelSync()
+
 		log := log.With("provider", peerID, "peerAddr", peerAddr, "depth", depth, "resync", resync)
 		log.Info("Explicitly syncing the latest advertisement from peer")
 
@@ -473,6 +522,11 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	provider := addrInfo.ID
 	log := log.With("provider", provider, "cid", nextCid, "addrs", addrInfo.Addrs)
 
+	if !ing.startPendingSync() {
+		return errClosed
+	}
+	defer ing.waitForPendingSyncs.Done()
+
 	ing.providersBeingProcessedMu.Lock()
 	pc, ok := ing.providersBeingProcessed[provider]
 	if !ok {
@@ -736,10 +790,15 @@ func (ing *Ingester) autoSync() {
 
 		// If a separate goroutine, attempt to sync the provider at its last
 		// know publisher.
-		ing.waitForPendingSyncs.Add(1)
+		if !ing.startPendingSync() {
+			continue
+		}
 		go func(pubID peer.ID, pubAddr multiaddr.Multiaddr, provID peer.ID) {
 			defer ing.waitForPendingSyncs.Done()
 
+			ctx, cancelSync := ing.pendingSyncContext(ctx)
+			defer cancelSync()
+
 			log := log.With("provider", provID, "publisher", pubID, "addr", pubAddr)
 			log.Info("Auto-syncing the latest advertisement with publisher")
 
@@ -810,6 +869,7 @@ func (ing *Ingester) RunWorkers(n int) {
 }
 
 func (ing *Ingester) runIngesterLoop() {
+	defer close(ing.stagingDone)
 	for syncFinishedEvent := range ing.toStaging {
 		ing.runIngestStep(syncFinishedEvent)
 	}
@@ -895,7 +955,11 @@ func (ing *Ingester) runIngestStep(syncFinishedEvent legs.SyncFinished) {
 		if oldAssignment == nil || oldAssignment.(workerAssignment).none {
 			// No previous run scheduled a worker to handle this provider, so
 			// schedule one.
-			ing.toWorkers <- providerID(p)
+			select {
+			case ing.toWorkers <- providerID(p):
+			case <-ing.closePendingSyncs:
+				return
+			}
 		}
 	}
 }
-- 
2.43.0


From 43eb1a40348ceda03202bf23145cde2a59a76a4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:57 +0000
Subject: [PATCH 34/48] fix: remove a malformed first entry chunk from the
 datastore

---
 internal/ingest/linksystem.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index e4c6fea..46369d9 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -311,6 +311,10 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 		chunk, err := schema.UnwrapEntryChunk(node)
 		if err != nil {
 			errsIngestingEntryChunks = append(errsIngestingEntryChunks, err)
+			// Remove the block, since it is not going to be used.
+			if err = ing.ds.Delete(ctx, datastore.NewKey(syncedFirstEntryCid.String())); err != nil {
+				log.Errorw("Error deleting entries from datastore", "err", err)
+			}
 		} else {
 			err = ing.ingestEntryChunk(ctx, ad, syncedFirstEntryCid, *chunk, log)
 			if err != nil {
-- 
2.43.0


From 79c831116756ad058b8b7976fe301bf79a5b2d39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:50:57 +0000
Subject: [PATCH 35/48] fix: a malformed HAMT does not crash the indexer

---
 internal/ingest/linksystem.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index 46369d9..d068eec 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -132,7 +132,7 @@ func verifyAdvertisement(n ipld.Node, reg *registry.Registry) (peer.ID, error) {
 // source of the indexed content, the provider is where content can be
 // retrieved from. It is the provider ID that needs to be stored by the
 // indexer.
-func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Advertisement) error {
+func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Advertisement) (ingestErr error) {
 	stats.Record(context.Background(), metrics.IngestChange.M(1))
 	ingestStart := time.Now()
 	defer func() {
@@ -242,6 +242,13 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 			}
 		}()
 
+		// The HAMT implementation panics on some malformed nodes.
+		defer func() {
+			if r := recover(); r != nil {
+				ingestErr = adIngestError{adIngestMalformedErr, fmt.Errorf("malformed HAMT: %v", r)}
+			}
+		}()
+
 		// Load the CID as HAMT root node.
 		hn, err := ing.loadHamt(syncedFirstEntryCid)
 		if err != nil {
-- 
2.43.0


From 158ea391bad2f43ace197ab07dd94bb90901c675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:11 +0000
Subject: [PATCH 36/48] fix: a negative store batch size disables batching, and
 changing it does not race

---
 internal/ingest/ingest.go     | 13 +++++++++++--
 internal/ingest/linksystem.go |  6 +++---
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 1c65a48..f33b480 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -172,7 +172,7 @@ func NewIngester(cfg config.Ingest, h host.Host, idxr indexer.Interface, reg *re
 		ds:          ds,
 		lsys:        mkLinkSystem(ds, reg),
 		indexer:     idxr,
-		batchSize:   uint32(cfg.StoreBatchSize),
+		batchSize:   storeBatchSize(cfg.StoreBatchSize),
 		sigUpdate:   make(chan struct{}, 1),
 		syncTimeout: time.Duration(cfg.SyncTimeout),
 		entriesSel:  Selectors.EntriesWithLimit(recursionLimit(cfg.EntriesDepthLimit)),
@@ -835,7 +835,16 @@ func (ing *Ingester) BatchSize() int {
 }
 
 func (ing *Ingester) SetBatchSize(batchSize int) {
-	atomic.StoreUint32(&ing.batchSize, uint32(batchSize))
+	atomic.StoreUint32(&ing.batchSize, storeBatchSize(batchSize))
+}
+
+// storeBatchSize returns the number of multihashes to write in a batch. A
+// configured value less than 2 means no batching.
+func storeBatchSize(batchSize int) uint32 {
+	if batchSize < 1 {
+		return 1
+	}
+	return uint32(batchSize)
 }
 
 func (ing *Ingester) SetRateLimit(cfgRateLimit config.RateLimit) error {
diff --git a/internal/ingest/linksystem.go b/internal/ingest/linksystem.go
index d068eec..c59d43c 100644
--- a/internal/ingest/linksystem.go
+++ b/internal/ingest/linksystem.go
@@ -296,7 +296,7 @@ func (ing *Ingester) ingestAd(publisherID peer.ID, adCid cid.Cid, ad schema.Adve
 			// the HAMT, instead of loading all the multihashes in the HAMT then batch them later in
 			// indexContentBlock.
 			// TODO: See how we can refactor code to make batching logic more flexible in indexContentBlock.
-			if len(mhs) >= int(ing.batchSize) {
+			if len(mhs) >= ing.BatchSize() {
 				err := ing.indexAdMultihashes(ad, mhs, log)
 				if err != nil {
 					return adIngestError{adIngestIndexerErr, fmt.Errorf("failed to index content from HAMT: %w", err)}
@@ -428,7 +428,7 @@ func (ing *Ingester) indexAdMultihashes(ad schema.Advertisement, mhs []multihash
 		}
 	}()
 
-	batch := make([]multihash.Multihash, 0, ing.batchSize)
+	batch := make([]multihash.Multihash, 0, ing.BatchSize())
 	var prevBatch []multihash.Multihash
 
 	// Iterate over all entries and ingest (or remove) them.
@@ -454,7 +454,7 @@ func (ing *Ingester) indexAdMultihashes(ad schema.Advertisement, mhs []multihash
 			}
 			count += len(batch)
 			if prevBatch == nil {
-				prevBatch = make([]multihash.Multihash, 0, ing.batchSize)
+				prevBatch = make([]multihash.Multihash, 0, ing.BatchSize())
 			}
 			// Since batchChan is unbuffered, the goroutine is done reading the previous batch.
 			prevBatch, batch = batch, prevBatch
-- 
2.43.0


From 45cc7bd70209691186c71d798ba950603e6b99be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:06:32 +0000
Subject: [PATCH 37/48] fix: fetch entries from the current address of a
 publisher that moved

---
 internal/ingest/ingest.go | 42 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 42 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index f33b480..70b7262 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -27,6 +27,7 @@ import (
 	"github.com/ipld/go-ipld-prime/traversal/selector"
 	"github.com/libp2p/go-libp2p-core/host"
 	"github.com/libp2p/go-libp2p-core/peer"
+	"github.com/libp2p/go-libp2p-core/peerstore"
 	"github.com/multiformats/go-multiaddr"
 	"go.opencensus.io/stats"
 	"go.opencensus.io/tag"
@@ -464,6 +465,9 @@ func (ing *Ingester) Sync(ctx context.Context, peerID peer.ID, peerAddr multiadd
 				ing.generalLegsBlockHook(i, c, actions)
 			}))
 		}
+		if peerAddr != nil {
+			ing.setPublisherAddrs(peerID, []multiaddr.Multiaddr{peerAddr})
+		}
 		c, err := ing.sub.Sync(ctx, peerID, cid.Undef, sel, peerAddr, opts...)
 		if err != nil {
 			log.Errorw("Failed to sync with provider", "err", err)
@@ -538,6 +542,7 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	select {
 	case pc <- struct{}{}:
 		log.Info("Handling direct announce request")
+		ing.setPublisherAddrs(provider, addrInfo.Addrs)
 		err := ing.sub.Announce(ctx, nextCid, provider, addrInfo.Addrs)
 		<-pc
 		ing.handleLatePendingAnnounce(provider, pc)
@@ -555,6 +560,42 @@ func (ing *Ingester) Announce(ctx context.Context, nextCid cid.Cid, addrInfo pee
 	}
 }
 
+// setPublisherAddrs forgets any HTTP address of a publisher other than the one
+// that is used with the given addresses. Entries are fetched from a known
+// address of the publisher, and must not be looked for at an address where the
+// publisher was before.
+func (ing *Ingester) setPublisherAddrs(publisherID peer.ID, addrs []multiaddr.Multiaddr) {
+	peerStore := ing.sub.HttpPeerStore()
+	if peerStore == nil || len(addrs) == 0 {
+		return
+	}
+	var httpAddr multiaddr.Multiaddr
+	for _, addr := range addrs {
+		if isHTTPAddr(addr) {
+			httpAddr = addr
+			peerStore.AddAddr(publisherID, addr, peerstore.TempAddrTTL)
+			break
+		}
+	}
+	for _, known := range peerStore.Addrs(publisherID) {
+		if httpAddr == nil || !known.Equal(httpAddr) {
+			peerStore.SetAddr(publisherID, known, 0)
+		}
+	}
+}
+
+func isHTTPAddr(addr multiaddr.Multiaddr) bool {
+	if addr == nil {
+		return false
+	}
+	for _, p := range addr.Protocols() {
+		if p.Code == multiaddr.P_HTTP || p.Code == multiaddr.P_HTTPS {
+			return true
+		}
+	}
+	return false
+}
+
 func (ing *Ingester) makeLimitedDepthSelector(peerID peer.ID, depth int, resync bool) (ipld.Node, error) {
 	// Consider the value of < 1 as no-limit.
 	rLimit := recursionLimit(depth)
@@ -1154,6 +1195,7 @@ func (ing *Ingester) handlePendingAnnounce(pid peer.ID) {
 		return
 	}
 	log = log.With("cid", pa.nextCid, "addrinfo", pa.addrInfo)
+	ing.setPublisherAddrs(pa.addrInfo.ID, pa.addrInfo.Addrs)
 	err := ing.sub.Announce(context.Background(), pa.nextCid, pa.addrInfo.ID, pa.addrInfo.Addrs)
 	if err != nil {
 		log.Errorw("Failed to handle pending announce", "err", err)
-- 
2.43.0


From 56bfcdec65ac796dc94dbf59fff71f4b27e62c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:08:01 +0000
Subject: [PATCH 38/48] fix: refuse an announcement when running without an
 ingester

---
 server/ingest/handler/ingest_handler.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server/ingest/handler/ingest_handler.go b/server/ingest/handler/ingest_handler.go
index 5cba4d6..b208942 100644
--- a/server/ingest/handler/ingest_handler.go
+++ b/server/ingest/handler/ingest_handler.go
@@ -144,6 +144,9 @@ func (h *IngestHandler) Announce(r io.Reader) error {
 		err = fmt.Errorf("announce requests not allowed from peer %s", addrInfo.ID)
 		return v0.NewError(err, http.StatusForbidden)
 	}
+	if h.ingester == nil {
+		return v0.NewError(errors.New("not ingesting advertisements"), http.StatusServiceUnavailable)
+	}
 	cur, err := h.ingester.GetLatestSync(addrInfo.ID)
 	if err == nil {
 		if cur.Equals(an.Cid) {
-- 
2.43.0


From 4cdcf6d8ee35789ab9570db8b21983b00b86eb30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:47:07 +0000
Subject: [PATCH 39/48] fix: decide a registration by one policy when the
 policy changes meanwhile

---
 internal/registry/policy/policy.go | 11 +++++++++++
 internal/registry/registry.go      |  9 ++++++---
 2 files changed, 17 insertions(+), 3 deletions(-)

diff --git a/internal/registry/policy/policy.go b/internal/registry/policy/policy.go
index 6189833..2cdcc48 100644
--- a/internal/registry/policy/policy.go
+++ b/internal/registry/policy/policy.go
@@ -52,6 +52,17 @@ func (p *Policy) PublishAllowed(publisherID, providerID peer.ID) bool {
 	return p.publish.Eval(publisherID)
 }
 
+// RegisterAllowed returns whether the policy allows the provider, whether it
+// allows the publisher, and whether the publisher may publish for the provider.
+// All answers are those of the same policy.
+func (p *Policy) RegisterAllowed(publisherID, providerID peer.ID) (provider, publisher, publish bool) {
+	p.rwmutex.RLock()
+	defer p.rwmutex.RUnlock()
+
+	return p.allow.Eval(providerID), p.allow.Eval(publisherID),
+		publisherID == providerID || p.publish.Eval(publisherID)
+}
+
 // Allow alters the policy to allow the specified peer.  Returns true if the
 // policy needed to be updated.
 func (p *Policy) Allow(peerID peer.ID) bool {
diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index a2d945d..b93429d 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -348,8 +348,11 @@ func (r *Registry) checkRegister(info *ProviderInfo) error {
 		return err
 	}
 
+	// Get all answers from the same policy, in case it changes meanwhile.
+	allowed, pubAllowed, publishAllowed := r.policy.RegisterAllowed(info.Publisher, info.AddrInfo.ID)
+
 	// If provider is not allowed, then ignore request.
-	if !r.policy.Allowed(info.AddrInfo.ID) {
+	if !allowed {
 		return v0.NewError(ErrNotAllowed, http.StatusForbidden)
 	}
 
@@ -357,10 +360,10 @@ func (r *Registry) checkRegister(info *ProviderInfo) error {
 	// publisher is allowed, and is also allowed to publish on behalf of the
 	// provider.
 	if info.Publisher.Validate() == nil && info.Publisher != info.AddrInfo.ID {
-		if !r.policy.Allowed(info.Publisher) {
+		if !pubAllowed {
 			return v0.NewError(ErrPublisherNotAllowed, http.StatusForbidden)
 		}
-		if !r.policy.PublishAllowed(info.Publisher, info.AddrInfo.ID) {
+		if !publishAllowed {
 			return v0.NewError(ErrCannotPublish, http.StatusForbidden)
 		}
 	}
-- 
2.43.0


From 603efc6da1daaaa17dd4901915598483ac520508 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:53:50 +0000
Subject: [PATCH 40/48] fix: give up a lotus look-up when its time is over

---
 internal/lotus/discovery.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/internal/lotus/discovery.go b/internal/lotus/discovery.go
index fe08c10..bbce6b7 100644
--- a/internal/lotus/discovery.go
+++ b/internal/lotus/discovery.go
@@ -66,7 +66,10 @@ func (d *Discoverer) Discover(ctx context.Context, peerID peer.ID, minerAddr str
 		return nil, fmt.Errorf("invalid provider filecoin address: %s", err)
 	}
 
-	jrpcClient := jrpc.NewClient(d.gatewayURL)
+	// The RPC client does not take a context, so have its transport use it.
+	jrpcClient := jrpc.NewClientWithOpts(d.gatewayURL, &jrpc.RPCClientOpts{
+		HTTPClient: &http.Client{Transport: ctxTransport{ctx}},
+	})
 
 	var ets ExpTipSet
 	err = jrpcClient.CallFor(&ets, "Filecoin.ChainHead")
@@ -99,6 +102,16 @@ func (d *Discoverer) Discover(ctx context.Context, peerID peer.ID, minerAddr str
 	}, nil
 }
 
+// ctxTransport is an http.RoundTripper that gives up requests when its context
+// is done.
+type ctxTransport struct {
+	ctx context.Context
+}
+
+func (t ctxTransport) RoundTrip(req *http.Request) (*http.Response, error) {
+	return http.DefaultTransport.RoundTrip(req.WithContext(t.ctx))
+}
+
 func (d *Discoverer) getMinerPeerAddr(minerInfo MinerInfo) (peer.AddrInfo, error) {
 	multiaddrs := make([]multiaddr.Multiaddr, 0, len(minerInfo.Multiaddrs))
 	for _, a := range minerInfo.Multiaddrs {
-- 
2.43.0


From 7bf992704f471aaa0183f6f9550c7cee31657339 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:03 +0000
Subject: [PATCH 41/48] fix: auto-sync fetches entries from the address it
 syncs with

---
 internal/ingest/ingest.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index 70b7262..ef32799 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -843,6 +843,9 @@ func (ing *Ingester) autoSync() {
 			log := log.With("provider", provID, "publisher", pubID, "addr", pubAddr)
 			log.Info("Auto-syncing the latest advertisement with publisher")
 
+			if pubAddr != nil {
+				ing.setPublisherAddrs(pubID, []multiaddr.Multiaddr{pubAddr})
+			}
 			_, err := ing.sub.Sync(ctx, pubID, cid.Undef, nil, pubAddr)
 			if err != nil {
 				log.Errorw("Failed to auto-sync with publisher", "err", err)
-- 
2.43.0


From 8f4f8db6128df178e0713a60317cb5ba0c569ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:44:42 +0000
Subject: [PATCH 42/48] fix: commit the index before marking an advertisement
 as processed

---
 internal/ingest/ingest.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/ingest/ingest.go b/internal/ingest/ingest.go
index ef32799..6fd12ff 100644
--- a/internal/ingest/ingest.go
+++ b/internal/ingest/ingest.go
@@ -1132,6 +1132,11 @@ func (ing *Ingester) ingestAssignment(assignment workerAssignment) {
 			"progress", fmt.Sprintf("%d of %d", count, splitAtIndex))
 
 		err := ing.ingestAd(assignment.publisher, ai.cid, ai.ad)
+		if err == nil {
+			// Commit what was indexed, since after a crash an ad that is marked
+			// as processed is not ingested again.
+			err = ing.indexer.Flush()
+		}
 		if err == nil {
 			// No error at all, this ad was processed successfully.
 			stats.Record(context.Background(), metrics.AdIngestSuccessCount.M(1))
-- 
2.43.0


From 7aaa02eff328c05e3d1c4c89132e4508027ca41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:17 +0000
Subject: [PATCH 43/48] fix: register command sends the given provider
 addresses to the ingest server

---
 command/register.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/register.go b/command/register.go
index 3862c98..dab0084 100644
--- a/command/register.go
+++ b/command/register.go
@@ -30,13 +30,13 @@ func registerCommand(cctx *cli.Context) error {
 		return err
 	}
 
-	indexerHost := cliIndexer(cctx, "admin")
+	indexerHost := cliIndexer(cctx, "ingest")
 	client, err := v0client.New(indexerHost)
 	if err != nil {
 		return err
 	}
 
-	err = client.Register(cctx.Context, peerID, privKey, cctx.StringSlice("addr"))
+	err = client.Register(cctx.Context, peerID, privKey, cctx.StringSlice("provider-addr"))
 	if err != nil {
 		return fmt.Errorf("failed to register providers: %s", err)
 	}
-- 
2.43.0


From fdeb2fecf1f0352f5c13b21d0ccc2d607608d04b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:53:17 +0000
Subject: [PATCH 44/48] fix: find command takes the indexer's peer ID from its
 flag

---
 command/find.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/command/find.go b/command/find.go
index 505e8d5..0f64cb9 100644
--- a/command/find.go
+++ b/command/find.go
@@ -51,7 +51,7 @@ func findCmd(cctx *cli.Context) error {
 			return err
 		}
 	case "libp2p":
-		peerID, err := peer.Decode(cctx.String("peerid"))
+		peerID, err := peer.Decode(cctx.String("indexerid"))
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 6c1a106b06de5dd29c3647aac21e716f04f5be01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:43 +0000
Subject: [PATCH 45/48] fix: registering a provider again keeps its publisher
 and last advertisement

---
 internal/registry/registry.go | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/internal/registry/registry.go b/internal/registry/registry.go
index b93429d..49786f0 100644
--- a/internal/registry/registry.go
+++ b/internal/registry/registry.go
@@ -719,6 +719,23 @@ func (r *Registry) syncStartDiscover(peerID peer.ID, spID string, errCh chan<- e
 }
 
 func (r *Registry) syncRegister(ctx context.Context, info *ProviderInfo) error {
+	if prev, ok := r.providers[info.AddrInfo.ID]; ok {
+		// Registering or discovering a provider again does not tell anything
+		// about its advertisements or publisher, so keep what is known.
+		merged := *info
+		if merged.LastAdvertisement == cid.Undef {
+			merged.LastAdvertisement = prev.LastAdvertisement
+			merged.LastAdvertisementTime = prev.LastAdvertisementTime
+		}
+		if merged.Publisher.Validate() != nil {
+			merged.Publisher = prev.Publisher
+			merged.PublisherAddr = prev.PublisherAddr
+		}
+		if merged.DiscoveryAddr == "" {
+			merged.DiscoveryAddr = prev.DiscoveryAddr
+		}
+		info = &merged
+	}
 	r.providers[info.AddrInfo.ID] = info
 	err := r.syncPersistProvider(ctx, info)
 	if err != nil {
-- 
2.43.0


From 04ce0ddb3e55dbef28c02a4c599fa619ef988159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 46/48] fix: config command uses the configured indexer if none
 is given

---
 command/config.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/command/config.go b/command/config.go
index 624890c..8cfae17 100644
--- a/command/config.go
+++ b/command/config.go
@@ -47,7 +47,7 @@ following command will set the level for all subsystems to debug:
 }
 
 func setLogLevels(cctx *cli.Context) error {
-	cl, err := httpclient.New(cctx.String("indexer"))
+	cl, err := httpclient.New(cliIndexer(cctx, "admin"))
 	if err != nil {
 		return err
 	}
@@ -71,7 +71,7 @@ func setLogLevels(cctx *cli.Context) error {
 }
 
 func listLogSubSystems(cctx *cli.Context) error {
-	cl, err := httpclient.New(cctx.String("indexer"))
+	cl, err := httpclient.New(cliIndexer(cctx, "admin"))
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 4e70dfa529346d5be8ed8023f6789854295839ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:52 +0000
Subject: [PATCH 47/48] fix: find command over libp2p connects to the
 configured libp2p address

---
 command/find.go  | 2 +-
 command/flags.go | 2 ++
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/command/find.go b/command/find.go
index 0f64cb9..6cd285b 100644
--- a/command/find.go
+++ b/command/find.go
@@ -61,7 +61,7 @@ func findCmd(cctx *cli.Context) error {
 			return err
 		}
 
-		err = c.Connect(cctx.Context, cliIndexer(cctx, "finder"))
+		err = c.Connect(cctx.Context, cliIndexer(cctx, "libp2p"))
 		if err != nil {
 			return err
 		}
diff --git a/command/flags.go b/command/flags.go
index fd6a429..b921a27 100644
--- a/command/flags.go
+++ b/command/flags.go
@@ -299,6 +299,8 @@ func indexerHost(addrType string) string {
 		maddr, err = multiaddr.NewMultiaddr(cfg.Addresses.Admin)
 	case "ingest":
 		maddr, err = multiaddr.NewMultiaddr(cfg.Addresses.Ingest)
+	case "libp2p":
+		maddr, err = multiaddr.NewMultiaddr(cfg.Addresses.P2PAddr)
 	default:
 		return ""
 	}
-- 
2.43.0


From d28f5d75158af8c6ea77c8be7984bc4389da06d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:24:08 +0000
Subject: [PATCH 48/48] fix: addresses of the indexer may be IPv6

---
 api/v0/libp2pclient/client.go | 9 +++------
 command/flags.go              | 4 ++--
 2 files changed, 5 insertions(+), 8 deletions(-)

diff --git a/api/v0/libp2pclient/client.go b/api/v0/libp2pclient/client.go
index aa1c388..5f9232b 100644
--- a/api/v0/libp2pclient/client.go
+++ b/api/v0/libp2pclient/client.go
@@ -5,7 +5,6 @@ import (
 	"fmt"
 	"net"
 	"strconv"
-	"strings"
 	"time"
 
 	"github.com/gogo/protobuf/proto"
@@ -82,11 +81,9 @@ func (c *Client) Connect(ctx context.Context, hostname string) error {
 		hostname = "127.0.0.1"
 		netProto = "ip4"
 	} else {
-		hostport := strings.SplitN(hostname, ":", 2)
-		if len(hostport) > 1 {
-			hostname = hostport[0]
-			var err error
-			port, err = strconv.Atoi(hostport[1])
+		if host, portStr, err := net.SplitHostPort(hostname); err == nil {
+			hostname = host
+			port, err = strconv.Atoi(portStr)
 			if err != nil {
 				return err
 			}
diff --git a/command/flags.go b/command/flags.go
index b921a27..d99ddba 100644
--- a/command/flags.go
+++ b/command/flags.go
@@ -1,7 +1,7 @@
 package command
 
 import (
-	"fmt"
+	"net"
 
 	"github.com/filecoin-project/storetheindex/config"
 	"github.com/multiformats/go-multiaddr"
@@ -316,7 +316,7 @@ func multiaddrHost(maddr multiaddr.Multiaddr) string {
 		if err == nil {
 			port, err := maddr.ValueForProtocol(multiaddr.P_TCP)
 			if err == nil {
-				addr = fmt.Sprint(addr, ":", port)
+				addr = net.JoinHostPort(addr, port)
 			}
 			return addr
 		}
-- 
2.43.0

