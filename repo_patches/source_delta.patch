From bc657f98f176ac4c4021e2184b415b2ad07f2b6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:09 +0000
Subject: [PATCH 01/12] fix: UnAlias leaks its locks when it refuses

A call for an unknown index returned with indicesMu read-locked, a call for an
unknown alias with aliasesMu locked, so that the next writer waited for ever.
Also keep the index locked until the alias is changed, as Alias does: a rename in
between made UnAlias report success without removing anything.
---
 repos_repo.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 659ec0d..f69d4b3 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -111,11 +111,12 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	}
 	// only remove an index-alias association
 	h.indicesMu.RLock()
+	defer h.indicesMu.RUnlock()
 	if _, ok := h.indices[index]; !ok {
 		return false
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.Lock()
+	defer h.aliasesMu.Unlock()
 	indices, ok := h.aliases[alias]
 	if !ok {
 		return false
@@ -131,7 +132,6 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 	if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
-	h.aliasesMu.Unlock()
 	return true
 }
 
-- 
2.43.0


From 4441c713babed482fc710ce330349c651ad07a0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:11 +0000
Subject: [PATCH 02/12] fix: UnAlias leaves an alias that stands for nothing

Removing the last index of an alias left an empty alias behind: a put through it
stored the document nowhere, without an error. Delete it, as Drop does.
---
 repos_repo.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index f69d4b3..45ec095 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -129,7 +129,9 @@ func (h *IndexRepo) UnAlias(alias, index string) bool {
 			newIndices = append(newIndices, aliasedIndexName)
 		}
 	}
-	if len(newIndices) != len(indices) {
+	if len(newIndices) < 1 {
+		delete(h.aliases, alias)
+	} else if len(newIndices) != len(indices) {
 		h.aliases[alias] = newIndices
 	}
 	return true
-- 
2.43.0


From c2ac20e7c7a599c7d88bb5d2da7ea6d0bde04f1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:14 +0000
Subject: [PATCH 03/12] fix: Put decides which indices it writes before it
 locks them

Two first puts of one index both saw that it was missing, and the second replaced
the index of the first: an acknowledged document was lost. The same happened
beside Rename and Drop. Look the name up under the lock that covers the write.
---
 repos_repo.go | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 45ec095..a17b920 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -216,8 +216,8 @@ func (h *IndexRepo) Search(
 }
 
 func (h *IndexRepo) Put(indexName string, doc DocRequest) {
-	indices, ok := h.getIndices(indexName)
 	h.indicesMu.Lock()
+	indices, ok := h.getIndices(indexName)
 	if !ok {
 		// TODO sanitize name
 		// TODO parametrize index engine
@@ -282,12 +282,11 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	return AliasesResult{Aliases: aliases}
 }
 
+// getIndices returns the indices a name stands for. The caller holds indicesMu.
 func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	// 1. Search on indices directly
-	h.indicesMu.RLock()
 	in, ok := h.indices[name]
 	if ok {
-		h.indicesMu.RUnlock()
 		return []Index{in}, true
 	}
 	// 2. If not found, search on aliases
@@ -295,14 +294,12 @@ func (h *IndexRepo) getIndices(name string) ([]Index, bool) {
 	aliasedIndices, ok := h.aliases[name]
 	if !ok {
 		h.aliasesMu.RUnlock()
-		h.indicesMu.RUnlock()
 		return nil, false
 	}
 	res := make([]Index, len(aliasedIndices))
 	for i, index := range aliasedIndices {
 		res[i] = h.indices[index]
 	}
-	h.indicesMu.RUnlock()
 	h.aliasesMu.RUnlock()
 	return res, true
 }
-- 
2.43.0


From 020be63368455f8f1704371db8f32d48cca2b260 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:16 +0000
Subject: [PATCH 04/12] fix: concurrent drops of one index all succeed

Drop checked for the index under a lock it then gave up, so several callers could
be told that they dropped it, even one whose index had been created meanwhile.
---
 repos_repo.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index a17b920..54bd6ea 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -240,14 +240,12 @@ func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 }
 
 func (h *IndexRepo) Drop(indexName string) bool {
-	h.indicesMu.RLock()
+	h.indicesMu.Lock()
 	_, ok := h.indices[indexName]
 	if !ok {
-		h.indicesMu.RUnlock()
+		h.indicesMu.Unlock()
 		return false
 	}
-	h.indicesMu.RUnlock()
-	h.indicesMu.Lock()
 	h.aliasesMu.Lock()
 	// Drop references to index
 	for alias, indices := range h.aliases {
-- 
2.43.0


From 464b1a6f5ed1728ab87fe11b8ffe39935ec873b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:19 +0000
Subject: [PATCH 05/12] fix: Rename changes the aliases without their lock

HasAlias, ListAliases and UnAlias of a whole alias only hold aliasesMu, so they
raced with Rename.
---
 repos_repo.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index 54bd6ea..5ac0c39 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -150,6 +150,7 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	h.indices[new] = index
 	delete(h.indices, old)
 	// 3. Update indices to
+	h.aliasesMu.Lock()
 	for _, indices := range h.aliases {
 		for i, indexName := range indices {
 			if indexName == old {
@@ -157,6 +158,7 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 			}
 		}
 	}
+	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
 	return true
 }
-- 
2.43.0


From e92082f4fbcefef69c74999e25625d0e9cb0aa5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:21 +0000
Subject: [PATCH 06/12] fix: renaming an index to its own name deletes it

The index was stored under the new name and then deleted under the old, same, one.
Aliases kept its name, and the next search through them panicked.
---
 repos_repo.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/repos_repo.go b/repos_repo.go
index 5ac0c39..c305c42 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -146,6 +146,10 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 		h.indicesMu.Unlock()
 		return false
 	}
+	if old == new {
+		h.indicesMu.Unlock()
+		return true
+	}
 	// 2. Perform the swap
 	h.indices[new] = index
 	delete(h.indices, old)
-- 
2.43.0


From 2892754d1c0d9008e330b50d55278debc2d1532e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:33:24 +0000
Subject: [PATCH 07/12] fix: renaming onto an existing index repeats it in
 aliases

An alias that stood for both indices then stood for the new one twice: searches
returned every document twice and puts stored it twice.
---
 repos_repo.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index c305c42..fe32ade 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -155,12 +155,20 @@ func (h *IndexRepo) Rename(old string, new string) bool {
 	delete(h.indices, old)
 	// 3. Update indices to
 	h.aliasesMu.Lock()
-	for _, indices := range h.aliases {
-		for i, indexName := range indices {
-			if indexName == old {
-				indices[i] = new
+	for alias, indices := range h.aliases {
+		renamed := make([]string, 0, len(indices))
+		seen := false // new may be there already, if it names a replaced index
+		for _, indexName := range indices {
+			if indexName == old || indexName == new {
+				if seen {
+					continue
+				}
+				seen = true
+				indexName = new
 			}
+			renamed = append(renamed, indexName)
 		}
+		h.aliases[alias] = renamed
 	}
 	h.aliasesMu.Unlock()
 	h.indicesMu.Unlock()
-- 
2.43.0


From c10d5d92f238dc6ccb41a956f2d538af65bcffa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:47 +0000
Subject: [PATCH 08/12] fix: ListAliases hands out the repository's own lists

---
 repos_repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index fe32ade..606bc15 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -287,7 +287,7 @@ func (h *IndexRepo) ListAliases() AliasesResult {
 	aliases := make([]AliasesResultRow, len(h.aliases))
 	i := 0
 	for k, v := range h.aliases {
-		aliases[i] = AliasesResultRow{Alias: k, Indices: v}
+		aliases[i] = AliasesResultRow{Alias: k, Indices: append([]string(nil), v...)}
 		i++
 	}
 	h.aliasesMu.RUnlock()
-- 
2.43.0


From 5b81cca757068a0a8f46739b6b72a87fb9039d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 09/12] fix: a search through an alias answers in a random
 order

---
 repos_repo.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 606bc15..90e3c50 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -215,17 +215,17 @@ func (h *IndexRepo) Search(
 	)
 	wg.Add(len(indices))
 
-	rl := new(sync.Mutex)
-	for _, index := range indices {
-		go func(idx Index) {
+	results := make([]slices.Slice[SearchResult], len(indices))
+	for i, index := range indices {
+		go func(i int, idx Index) {
 			defer wg.Done()
-			sr := idx.Search(terms, engine)
-			rl.Lock()
-			result.AppendVector(sr)
-			rl.Unlock()
-		}(index)
+			results[i] = idx.Search(terms, engine)
+		}(i, index)
 	}
 	wg.Wait()
+	for _, sr := range results {
+		result.AppendVector(sr)
+	}
 	return streams.MemReader(result, nil), nil
 }
 
-- 
2.43.0


From 16810e28ac660b45a17995b864be14d967ff5abe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 10/12] fix: a panic in one index of an alias ends the process
 or keeps the lock

---
 repos_repo.go | 40 ++++++++++++++++++++++++++++++++++------
 1 file changed, 34 insertions(+), 6 deletions(-)

diff --git a/repos_repo.go b/repos_repo.go
index 90e3c50..43c2a2c 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -31,6 +31,27 @@ type AliasesResult struct {
 	Aliases []AliasesResultRow
 }
 
+// panicBox takes a panic from the goroutine it happens in, where it would end
+// the process, to the goroutine of the caller.
+type panicBox struct {
+	mu    sync.Mutex
+	value any
+}
+
+func (b *panicBox) capture() {
+	if value := recover(); value != nil {
+		b.mu.Lock()
+		b.value = value
+		b.mu.Unlock()
+	}
+}
+
+func (b *panicBox) rethrow() {
+	if b.value != nil {
+		panic(b.value)
+	}
+}
+
 // IndexRepo handles a collection of indexes
 type IndexRepo struct {
 	indices   map[string]Index
@@ -210,8 +231,9 @@ func (h *IndexRepo) Search(
 	}
 
 	var (
-		wg     sync.WaitGroup
-		result slices.Slice[SearchResult]
+		wg      sync.WaitGroup
+		result  slices.Slice[SearchResult]
+		failure panicBox
 	)
 	wg.Add(len(indices))
 
@@ -219,10 +241,12 @@ func (h *IndexRepo) Search(
 	for i, index := range indices {
 		go func(i int, idx Index) {
 			defer wg.Done()
+			defer failure.capture()
 			results[i] = idx.Search(terms, engine)
 		}(i, index)
 	}
 	wg.Wait()
+	failure.rethrow()
 	for _, sr := range results {
 		result.AppendVector(sr)
 	}
@@ -231,6 +255,7 @@ func (h *IndexRepo) Search(
 
 func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 	h.indicesMu.Lock()
+	defer h.indicesMu.Unlock()
 	indices, ok := h.getIndices(indexName)
 	if !ok {
 		// TODO sanitize name
@@ -238,19 +263,22 @@ func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 		in := h.indexBuilder(indexName)
 		h.indices[indexName] = in
 		in.Put(doc)
-		h.indicesMu.Unlock()
 		return
 	}
-	var wg sync.WaitGroup
+	var (
+		wg      sync.WaitGroup
+		failure panicBox
+	)
 	wg.Add(len(indices))
 	for _, in := range indices {
 		go func(index Index) {
+			defer wg.Done()
+			defer failure.capture()
 			index.Put(doc)
-			wg.Done()
 		}(in)
 	}
 	wg.Wait()
-	h.indicesMu.Unlock()
+	failure.rethrow()
 }
 
 func (h *IndexRepo) Drop(indexName string) bool {
-- 
2.43.0


From 3f6abe1f09e3139e2a09a3683e1fbf53002fb083 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:34:48 +0000
Subject: [PATCH 11/12] fix: a put that fails leaves an empty index behind

---
 repos_repo.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/repos_repo.go b/repos_repo.go
index 43c2a2c..17255ea 100644
--- a/repos_repo.go
+++ b/repos_repo.go
@@ -261,8 +261,8 @@ func (h *IndexRepo) Put(indexName string, doc DocRequest) {
 		// TODO sanitize name
 		// TODO parametrize index engine
 		in := h.indexBuilder(indexName)
-		h.indices[indexName] = in
 		in.Put(doc)
+		h.indices[indexName] = in
 		return
 	}
 	var (
-- 
2.43.0


From 9c464cbd67524f4d4dfe7e31601b5e985f7959e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:05 +0000
Subject: [PATCH 12/12] fix: HitsSearch takes documents with one ID hash for
 one document

---
 search_hits_search.go | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/search_hits_search.go b/search_hits_search.go
index ab7cb97..0a1844f 100644
--- a/search_hits_search.go
+++ b/search_hits_search.go
@@ -45,8 +45,9 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// A document must contain ALL tokens to be included in results
 	threshold := len(tokens)
 
-	// Map to count hits per document (using document hash as key for uniqueness)
-	docHits := make(map[HashKey]SearchResult)
+	// Map to count hits per document (using document index as key: the hash of the
+	// document ID is shared by documents with the same ID, or with colliding IDs)
+	docHits := make(map[int]SearchResult)
 
 	// Phase 1: Count hits for each document
 	for _, token := range tokens {
@@ -59,15 +60,14 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 		// For each document containing this token, increment its hit count
 		for _, index := range indexed {
 			doc := indexer.Document(index)
-			hashKey := doc.Hash()
 
-			if result, exists := docHits[hashKey]; exists {
+			if result, exists := docHits[index]; exists {
 				// Document already seen - increment hit count
 				result.Hits++
-				docHits[hashKey] = result
+				docHits[index] = result
 			} else {
 				// First time seeing this document - initialize with 1 hit
-				docHits[hashKey] = SearchResult{
+				docHits[index] = SearchResult{
 					Document: doc,
 					Hits:     1,
 				}
@@ -81,11 +81,8 @@ func HitsSearch(tokens []string, indexer Indexer) slices.Slice[SearchResult] {
 	// Iterate through documents in index order to ensure deterministic results
 	// This prevents random ordering when documents have the same hit count
 	for i := 0; i < indexer.Len(); i++ {
-		doc := indexer.Document(i)
-		hashKey := doc.Hash()
-
 		// Only include documents that have ALL tokens (hits >= threshold)
-		if result, exists := docHits[hashKey]; exists && result.Hits >= threshold {
+		if result, exists := docHits[i]; exists && result.Hits >= threshold {
 			results = append(results, result)
 		}
 	}
-- 
2.43.0

