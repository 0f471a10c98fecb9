From 7f32234d5dd87a602c3cbf2598e299e93d4d25dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 01/36] fix: report failures to store a triple in the graph
 index

---
 internal/triplestore/igraph/index.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index bc3453f..a2de248 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -252,10 +252,12 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 
 	// forward id
 	id := index.triple.Inc()
-	index.triples.Set(id, IndexTriple{
+	if err := index.triples.Set(id, IndexTriple{
 		Role:  Regular,
 		Items: [3]imap.TripleID{s, p, o},
-	})
+	}); err != nil {
+		return err
+	}
 
 	conflicted, err := index.insert(s.Canonical, p.Canonical, o.Canonical, id)
 	if err != nil {
@@ -272,7 +274,7 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 	if ok {
 		// reverse id
 		iid := index.triple.Inc()
-		index.triples.Set(iid, IndexTriple{
+		if err := index.triples.Set(iid, IndexTriple{
 			Role: Inverse,
 			Items: [3]imap.TripleID{
 				{
@@ -288,7 +290,9 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 					Literal:   o.Literal,
 				},
 			},
-		})
+		}); err != nil {
+			return err
+		}
 
 		conflicted, err := index.insert(o.Canonical, i, s.Canonical, iid)
 		if err != nil {
-- 
2.43.0


From 73cc1a6105baab53fadc22d04d8b7a9de9ff7cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 02/36] fix: report failures to store a label mapping

---
 internal/triplestore/imap/imap.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/internal/triplestore/imap/imap.go b/internal/triplestore/imap/imap.go
index 453b861..05af166 100644
--- a/internal/triplestore/imap/imap.go
+++ b/internal/triplestore/imap/imap.go
@@ -171,8 +171,10 @@ func (mp *IMap) AddNew(label impl.Label) (ids TripleID, old bool, err error) {
 	}
 
 	// store mappings in both directions
-	mp.forward.Set(label, ids)
-	mp.reverse.Set(ids.Literal, label)
+	if err = mp.forward.Set(label, ids); err != nil {
+		return
+	}
+	err = mp.reverse.Set(ids.Literal, label)
 
 	// return the id
 	return
-- 
2.43.0


From 0e433ba4b932ec3226dc1ac2eaa86be368c1fc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 03/36] fix: stop indexing when storing a statement fails

---
 internal/sparkl/index.go | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 0c32f60..2db2df3 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -192,7 +192,9 @@ func indexSameAs(source Source, index *igraph.Index, sameAsPredicates []impl.Lab
 			return 0, tok.Err
 		case !tok.HasDatum:
 			if _, ok := sameAss[tok.Predicate]; ok {
-				index.MarkIdentical(tok.Subject, tok.Object)
+				if err := index.MarkIdentical(tok.Subject, tok.Object); err != nil {
+					return 0, err
+				}
 			}
 		}
 	}
@@ -236,7 +238,9 @@ func indexInverseOf(source Source, index *igraph.Index, inversePredicates []impl
 			return tok.Err
 		case !tok.HasDatum:
 			if _, ok := inverses[tok.Predicate]; ok {
-				index.MarkInverse(tok.Subject, tok.Object)
+				if err := index.MarkInverse(tok.Subject, tok.Object); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -269,9 +273,13 @@ func indexData(source Source, index *igraph.Index, total int, opts IndexOptions,
 		case tok.Err != nil:
 			return tok.Err
 		case tok.HasDatum:
-			index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language)
+			if err := index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language); err != nil {
+				return err
+			}
 		case !tok.HasDatum:
-			index.AddTriple(tok.Subject, tok.Predicate, tok.Object)
+			if err := index.AddTriple(tok.Subject, tok.Predicate, tok.Object); err != nil {
+				return err
+			}
 		}
 	}
 }
-- 
2.43.0


From f91914e20ef5fa6a247dd34dd097dad098a3a07b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 04/36] fix: report failure to prepare the uri map of the cache

---
 internal/sparkl/cache.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/cache.go b/internal/sparkl/cache.go
index fcbba81..913bc97 100644
--- a/internal/sparkl/cache.go
+++ b/internal/sparkl/cache.go
@@ -115,7 +115,9 @@ func NewCache(Data map[string][]wisski.Entity, SameAs imap.HashMap[impl.Label, i
 
 	// reset the uris
 	c.uris = &imap.IMap{}
-	c.uris.Reset(&c.engine)
+	if err := c.uris.Reset(&c.engine); err != nil {
+		return c, err
+	}
 
 	// store the bundle-entity index
 	c.beIndex = Data
-- 
2.43.0


From b628c2ae4e3b9e9c3f949946023d5ad05d134a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:03 +0000
Subject: [PATCH 05/36] fix: report lookup failures of the disk graph index

---
 internal/triplestore/igraph/engine_disk.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/triplestore/igraph/engine_disk.go b/internal/triplestore/igraph/engine_disk.go
index 3f62471..fb5631a 100644
--- a/internal/triplestore/igraph/engine_disk.go
+++ b/internal/triplestore/igraph/engine_disk.go
@@ -136,6 +136,8 @@ func (tlm *ThreeDiskHash) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new
 		}
 		conflicted = true
 	case leveldberrors.ErrNotFound:
+	default:
+		return false, err
 	}
 	return conflicted, tlm.DB.Put(impl.EncodeIDs(a, b, c), impl.EncodeIDs(l), nil)
 }
@@ -188,6 +190,9 @@ func (tlm *ThreeDiskHash) Has(a, b, c impl.ID) (id impl.ID, ok bool, err error)
 		var invalid impl.ID
 		return invalid, false, nil
 	}
+	if err != nil {
+		return id, false, err
+	}
 
 	err = impl.UnmarshalID(&id, value)
 	if err != nil {
-- 
2.43.0


From 6ab721805f7c8374c2cf96f1b3a4ae0a271ac0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 06/36] fix: close the language and triple storages of the
 graph index

---
 internal/triplestore/igraph/index.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index a2de248..33adba7 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -577,7 +577,7 @@ func (index *Index) Finalize() error {
 
 // Close closes any storages attached to this storage
 func (index *Index) Close() error {
-	var errors [5]error
+	var errors [7]error
 	errors[0] = index.labels.Close()
 
 	if index.data != nil {
@@ -600,6 +600,16 @@ func (index *Index) Close() error {
 		index.posIndex = nil
 	}
 
+	if index.language != nil {
+		errors[5] = index.language.Close()
+		index.language = nil
+	}
+
+	if index.triples != nil {
+		errors[6] = index.triples.Close()
+		index.triples = nil
+	}
+
 	for _, err := range errors {
 		if err != nil {
 			return err
-- 
2.43.0


From f40280c21c243142fa32e2f4a3ed17838169a4f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 07/36] fix: compact and finalize the language storage of the
 graph index

---
 internal/triplestore/igraph/index.go | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 33adba7..4567a3c 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -486,9 +486,9 @@ func (index *Index) Compact() error {
 	}
 
 	var wg sync.WaitGroup
-	wg.Add(6)
+	wg.Add(7)
 
-	var errs [6]error
+	var errs [7]error
 
 	go func() {
 		defer wg.Done()
@@ -520,6 +520,11 @@ func (index *Index) Compact() error {
 		errs[5] = index.triples.Compact()
 	}()
 
+	go func() {
+		defer wg.Done()
+		errs[6] = index.language.Compact()
+	}()
+
 	wg.Wait()
 	return errors.Join(errs[:]...)
 }
@@ -537,9 +542,9 @@ func (index *Index) Finalize() error {
 	}
 
 	var wg sync.WaitGroup
-	wg.Add(6)
+	wg.Add(7)
 
-	var errs [6]error
+	var errs [7]error
 
 	go func() {
 		defer wg.Done()
@@ -571,6 +576,11 @@ func (index *Index) Finalize() error {
 		errs[5] = index.triples.Finalize()
 	}()
 
+	go func() {
+		defer wg.Done()
+		errs[6] = index.language.Finalize()
+	}()
+
 	wg.Wait()
 	return errors.Join(errs[:]...)
 }
-- 
2.43.0


From c7f044881488dd66348034f12b5d9c178fadf1f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 08/36] fix: refuse masks and compacting after finalizing

---
 internal/triplestore/igraph/index.go | 4 ++++
 internal/triplestore/imap/imap.go    | 5 +++++
 2 files changed, 9 insertions(+)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 4567a3c..94473ee 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -184,6 +184,10 @@ func (index *Index) SetDataMask(predicates map[impl.Label]struct{}) error {
 }
 
 func (index *Index) setMask(predicates map[impl.Label]struct{}, dest *map[impl.ID]struct{}) error {
+	if index.finalized.Load() {
+		return ErrFinalized
+	}
+
 	mask := make(map[impl.ID]struct{}, len(predicates))
 	for label := range predicates {
 		ids, err := index.labels.Add(label)
diff --git a/internal/triplestore/imap/imap.go b/internal/triplestore/imap/imap.go
index 05af166..dadd829 100644
--- a/internal/triplestore/imap/imap.go
+++ b/internal/triplestore/imap/imap.go
@@ -82,6 +82,11 @@ func (mp *IMap) Next() impl.ID {
 
 // Compact indicates to the implementation to perform any optimization of internal data structures.
 func (mp *IMap) Compact() error {
+	// we were already finalized!
+	if mp.finalized.Load() {
+		return ErrFinalized
+	}
+
 	var errs [2]error
 
 	var wg sync.WaitGroup
-- 
2.43.0


From 4bd5291ac1f0422204afd54fb77015cb1be5f518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:02:27 +0000
Subject: [PATCH 09/36] fix: release the iterator used for counting a disk
 storage

---
 internal/triplestore/imap/map_disk.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/internal/triplestore/imap/map_disk.go b/internal/triplestore/imap/map_disk.go
index afad4bf..5844494 100644
--- a/internal/triplestore/imap/map_disk.go
+++ b/internal/triplestore/imap/map_disk.go
@@ -221,6 +221,8 @@ func (ds *DiskStorage[Key, Value]) Close() error {
 // Count returns the number of objects in this DiskStorage.
 func (ds *DiskStorage[Key, Value]) Count() (count uint64, err error) {
 	it := ds.DB.NewIterator(nil, nil)
+	defer it.Release()
+
 	for it.Next() {
 		count++
 	}
-- 
2.43.0


From 99d32660816078428ad4de3625a79eb0463e369a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 10/36] fix: report failure to close a disk bundle storage

---
 internal/sparkl/storages/disk.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index f38f40e..9ed8746 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -256,9 +256,10 @@ func (ds *Disk) Load(uri impl.Label) (entity wisski.Entity, err error) {
 
 func (ds *Disk) Close() error {
 	if ds.DB != nil {
-		ds.DB.Close()
+		err := ds.DB.Close()
 		ds.DB = nil
 		ds.childStorages = nil
+		return err
 	}
 	return nil
 }
-- 
2.43.0


From 4684c712701e4f82f68b58eae7b8fa0821b50ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 11/36] fix: list parents at the first path position from disk
 storages

---
 internal/sparkl/storages/disk.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 9ed8746..19be033 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -201,12 +201,10 @@ func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 			var uri LabelWithParent
 			var err error
 
-			if parentPathIndex > 0 {
+			if parentPathIndex > -1 {
 				err = ds.decode(it.Value(), func(se *sEntity) error {
 					uri.Label = se.URI
-					if parentPathIndex != -1 {
-						uri.Parent = se.Path[parentPathIndex]
-					}
+					uri.Parent = se.Path[parentPathIndex]
 					return nil
 				})
 			} else {
-- 
2.43.0


From 3e20ecbc477beedebb60ae2289863c89bcaaf5ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:31 +0000
Subject: [PATCH 12/36] fix: keep disk bundle storages apart and inside their
 directory

---
 internal/sparkl/storages/disk.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index 19be033..f84b7fb 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -1,6 +1,9 @@
 package storages
 
 import (
+	"crypto/sha256"
+	"encoding/hex"
+	"fmt"
 	"os"
 	"path/filepath"
 	"sync"
@@ -20,7 +23,13 @@ type DiskEngine struct {
 }
 
 func (de DiskEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, error) {
-	path := filepath.Join(de.Path, bundle.Path.Bundle)
+	// machine names are free text and only unique within the parent bundle:
+	// the directory must neither leave de.Path nor be that of another bundle.
+	name := sha256.New()
+	for b := bundle; b != nil; b = b.Parent {
+		fmt.Fprintf(name, "%q/", b.MachineName())
+	}
+	path := filepath.Join(de.Path, hex.EncodeToString(name.Sum(nil)))
 
 	if _, err := os.Stat(path); err == nil {
 		if err := os.RemoveAll(path); err != nil {
-- 
2.43.0


From 30e500a3025b386bf218f9c321602176d1f3aa05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 13/36] fix: report failure to store an entity

---
 internal/sparkl/context.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 3e292ff..7c7bbca 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -166,7 +166,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				path := paths.Datum()
 				nodes := path.Nodes
 				triples := path.Triples
-				storage.Add(nodes[entityURIIndex], nodes, triples)
+				if err := storage.Add(nodes[entityURIIndex], nodes, triples); err != nil {
+					return err
+				}
 			}
 
 			return paths.Err()
-- 
2.43.0


From 8cb98c4952eb2e7636ed7ab6125d2e33d229bbc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:58 +0000
Subject: [PATCH 14/36] fix: do not share the error variable between field
 workers

---
 internal/sparkl/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 7c7bbca..b34f4d1 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -189,7 +189,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				for paths.Next() {
 					path := paths.Datum()
 
-					err = storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
+					err := storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
 					if err != storages.ErrNoEntity {
 						context.reportError(err)
 					}
-- 
2.43.0


From f6af16fd743c34b4491566266ee82a6eb2fb12db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:09 +0000
Subject: [PATCH 15/36] fix: wait for bundle storages to be finalized and close
 all of them

---
 internal/sparkl/context.go | 39 +++++++++++++++++++++-----------------
 1 file changed, 22 insertions(+), 17 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index b34f4d1..1cfe81c 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -21,6 +21,7 @@ import (
 func StoreBundle(bundle *pathbuilder.Bundle, index *igraph.Index, engine storages.BundleEngine, st *stats.Stats) (storages.BundleStorage, func() error, error) {
 	storages, closer, err := StoreBundles([]*pathbuilder.Bundle{bundle}, index, engine, st)
 	if err != nil {
+		closer()
 		return nil, nil, err
 	}
 	return storages[0], closer, err
@@ -76,7 +77,8 @@ type Context struct {
 	Engine       storages.BundleEngine
 	err          error          // error that occurred (if any)
 	Index        *igraph.Index  // index being used
-	closers      chan io.Closer // what to close when done
+	closersLock  sync.Mutex     // protects closers
+	closers      []io.Closer    // what to close when done
 	extractWait  sync.WaitGroup // waiting on extracting entities in all bundles
 	childAddWait sync.WaitGroup // loading child entities wait
 	errOnce      sync.Once      // to set the error
@@ -89,7 +91,6 @@ type Context struct {
 // Multiple calls to Open are invalid.
 func (context *Context) Open() {
 	context.extractWait.Add(1)
-	context.closers = make(chan io.Closer)
 }
 
 // Wait signals this context that no more bundles will be loaded.
@@ -105,17 +106,18 @@ func (context *Context) Wait() error {
 
 // Close closes this context
 func (context *Context) Close() (err error) {
-	for {
-		select {
-		case closer := <-context.closers:
-			cErr := closer.Close()
-			if err == nil {
-				err = cErr
-			}
-		default:
-			return nil
+	context.closersLock.Lock()
+	closers := context.closers
+	context.closers = nil
+	context.closersLock.Unlock()
+
+	for _, closer := range closers {
+		cErr := closer.Close()
+		if err == nil {
+			err = cErr
 		}
 	}
+	return err
 }
 
 // reportError stores an error in this context
@@ -146,6 +148,11 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 		return nil
 	}
 
+	// tell the storage to be closed on a call to Close()
+	context.closersLock.Lock()
+	context.closers = append(context.closers, storage)
+	context.closersLock.Unlock()
+
 	go func() {
 		defer onFinish()
 		defer context.extractWait.Done()
@@ -212,10 +219,12 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			context.reportError(err)
 		}
 
-		context.childAddWait.Add(len(cstorages))
+		context.childAddWait.Add(1)
 
 		// stage 4: register all the child entities
 		go func() {
+			defer context.childAddWait.Done()
+
 			context.extractWait.Wait()
 
 			var wg sync.WaitGroup
@@ -224,7 +233,6 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				wg.Add(1)
 				go func(cstorage storages.BundleStorage, bundle *pathbuilder.Bundle) {
 					defer wg.Done()
-					defer context.childAddWait.Done()
 
 					children := cstorage.Get(entityURIIndex)
 					for children.Next() {
@@ -239,10 +247,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			wg.Wait()
-			storage.Finalize() // no more writing!
-
-			// tell the storage to be closed on a call to Close()
-			context.closers <- storage
+			context.reportError(storage.Finalize()) // no more writing!
 		}()
 	}()
 
-- 
2.43.0


From 915ab9c25b40701c5178ff0088a3e790b3e4f1f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:37 +0000
Subject: [PATCH 16/36] fix: close the exporter when extracting bundles fails

---
 internal/sparkl/pathbuilder.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/pathbuilder.go b/internal/sparkl/pathbuilder.go
index 27e8e80..21f23ad 100644
--- a/internal/sparkl/pathbuilder.go
+++ b/internal/sparkl/pathbuilder.go
@@ -15,14 +15,20 @@ import (
 
 // Export loads all top-level paths from the given path-builder from the index into the given engine.
 // Afterwards it is exported into the given exporter.
-func Export(pb *pathbuilder.Pathbuilder, index *igraph.Index, engine storages.BundleEngine, exporter exporter.Exporter, stats *stats.Stats) error {
+func Export(pb *pathbuilder.Pathbuilder, index *igraph.Index, engine storages.BundleEngine, exporter exporter.Exporter, stats *stats.Stats) (err error) {
 	bundles := pb.Bundles()
 
 	storages, closer, err := StoreBundles(bundles, index, engine, stats)
 	if closer != nil {
-		defer closer()
+		defer func() {
+			cErr := closer()
+			if err == nil {
+				err = cErr
+			}
+		}()
 	}
 	if err != nil {
+		exporter.Close() // nothing to export, but it still has to be closed
 		return err
 	}
 
-- 
2.43.0


From 449102fadda3dedb2bc39852b066a848472fd978 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 17/36] fix: report failing extraction and export stages

---
 cmd/n2j/json.go         | 2 +-
 internal/glass/glass.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/n2j/json.go b/cmd/n2j/json.go
index 0788e62..b3300d5 100644
--- a/cmd/n2j/json.go
+++ b/cmd/n2j/json.go
@@ -25,7 +25,7 @@ func doJSON(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.B
 		st.LogFatal("extract bundles", err)
 	}
 
-	st.DoStage(stats.StageExportJSON, func() error {
+	err = st.DoStage(stats.StageExportJSON, func() error {
 		return json.NewEncoder(os.Stdout).Encode(bundles)
 	})
 	if err != nil {
diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index df59659..1da77d7 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -116,7 +116,7 @@ func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags vi
 
 	// extract the bundles
 	var bundles map[string][]wisski.Entity
-	st.DoStage(stats.StageExtractBundles, func() (err error) {
+	err = st.DoStage(stats.StageExtractBundles, func() (err error) {
 		bundles, err = sparkl.LoadPathbuilder(&drincw.Pathbuilder, index, bEngine, st)
 		return err
 	})
-- 
2.43.0


From ce555f9d9d14798a4d91da2a1f5ce819489f6720 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:42 +0000
Subject: [PATCH 18/36] fix: bind the mysql option to its own setting

---
 cmd/n2j/n2j.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index fc10cc5..97266d9 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -121,7 +121,7 @@ func init() {
 	flag.StringVar(&cache, "cache", cache, "During indexing, cache data in the given directory as opposed to memory")
 	flag.StringVar(&sqlite, "sqlite", sqlite, "Export an sqlite database to the given path")
 	flag.StringVar(&csvPath, "csv", csvPath, "Export CSV files at the given path")
-	flag.StringVar(&sqlite, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
+	flag.StringVar(&mysql, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
 
 	flag.StringVar(&sqlSeperator, "sql-seperator", sqlSeperator, "Use seperator on multi-valued fields")
 	flag.BoolVar(&sqlFieldTables, "sql-field-tables", sqlFieldTables, "Store values for fields in seperate tables")
-- 
2.43.0


From 4c46c01bedcd36a298676518fd4113baa3b16297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:44 +0000
Subject: [PATCH 19/36] fix: refuse more than one output kind

---
 cmd/n2j/n2j.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index 97266d9..0890461 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -44,7 +44,7 @@ func main() {
 
 	if selected > 1 {
 		st.Log("Usage: n2j [-help] [...flags] /path/to/pathbuilder /path/to/nquads")
-		st.LogError("parse arguments", errBothSqliteAndMysql)
+		st.LogFatal("parse arguments", errBothSqliteAndMysql)
 	}
 
 	// find the paths
-- 
2.43.0


From a9629a145e93d9e5fb03ee6f6953a9820c267778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:50 +0000
Subject: [PATCH 20/36] fix: report failures to write csv files

---
 cmd/n2j/sqlite.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/cmd/n2j/sqlite.go b/cmd/n2j/sqlite.go
index 1461b9f..1de0446 100644
--- a/cmd/n2j/sqlite.go
+++ b/cmd/n2j/sqlite.go
@@ -89,17 +89,21 @@ func doCSV(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.Bu
 
 }
 
-func doCSVTable(db *sql.DB, table string, path string) error {
+func doCSVTable(db *sql.DB, table string, path string) (err error) {
 	// open a csv file matching the name
 	file, err := os.Create(filepath.Join(path, table+".csv"))
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		cErr := file.Close()
+		if err == nil {
+			err = cErr
+		}
+	}()
 
 	// create a writer
 	writer := csv.NewWriter(file)
-	defer writer.Flush()
 
 	// query everything in the table
 	rows, err := db.Query("SELECT * FROM " + table)
@@ -147,5 +151,8 @@ func doCSVTable(db *sql.DB, table string, path string) error {
 	if err := rows.Err(); err != nil {
 		return err
 	}
-	return nil
+
+	// and make sure that everything has been written
+	writer.Flush()
+	return writer.Error()
 }
-- 
2.43.0


From 7c5626742fc010ed1df40115b413945cbb594dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:09 +0000
Subject: [PATCH 21/36] fix: do not serve on a missing listener while exporting

---
 cmd/hangover/hangover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangover/hangover.go b/cmd/hangover/hangover.go
index 97fbc93..94aa991 100644
--- a/cmd/hangover/hangover.go
+++ b/cmd/hangover/hangover.go
@@ -54,7 +54,7 @@ func main() {
 		handler.Stats.Log("listen", "addr", addr)
 	}
 
-	if !benchMode {
+	if listener != nil {
 		go func() {
 			defer close(done)
 			http.Serve(listener, handler)
-- 
2.43.0


From 2f1b7571e1dac590c1e265787702d480bb36b474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:11 +0000
Subject: [PATCH 22/36] fix: report failure to flush serialized triples

---
 internal/wisski/entity.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/internal/wisski/entity.go b/internal/wisski/entity.go
index 905bef5..67226c1 100644
--- a/internal/wisski/entity.go
+++ b/internal/wisski/entity.go
@@ -21,9 +21,14 @@ type Entity struct {
 }
 
 // WriteTo writes triples representing this entity into w.
-func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format) error {
+func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format) (err error) {
 	writer := rdf.NewTripleEncoder(w, f)
-	defer writer.Close()
+	defer func() {
+		cErr := writer.Close()
+		if err == nil {
+			err = cErr
+		}
+	}()
 
 	for _, triple := range entity.AllTriples() {
 		triple, err := triple.Triple(canonical)
-- 
2.43.0


From d64eb5022d2236f2fe99e6f15a497b104339e895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:38 +0000
Subject: [PATCH 23/36] fix: write exports completely and report failures to do
 so

---
 internal/glass/glass.go | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 1da77d7..c0618ab 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -163,14 +163,19 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		st.LogError("create export", err)
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		cErr := f.Close()
+		if err == nil && cErr != nil {
+			st.LogError("close export", cErr)
+			err = cErr
+		}
+	}()
 
 	writer, err := gzip.NewWriterLevel(f, gzip.BestCompression)
 	if err != nil {
 		st.LogError("create gzip writer", err)
 		return err
 	}
-	defer writer.Flush()
 
 	return st.DoStage(stats.StageExportIndex, func() error {
 		counter := &progress.Writer{
@@ -183,6 +188,13 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 
 		if err != nil {
 			st.LogError("encode export", err)
+			return err
+		}
+
+		// write out everything still being compressed
+		err = writer.Close()
+		if err != nil {
+			st.LogError("close gzip writer", err)
 		}
 		return err
 	})
-- 
2.43.0


From 6adaa9bb4394cca05b853928320ced5af0ddf411 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:41 +0000
Subject: [PATCH 24/36] fix: export and import without an attached status
 output

---
 internal/glass/glass.go | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index c0618ab..2866ee0 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -5,6 +5,7 @@ import (
 	"compress/gzip"
 	"encoding/gob"
 	"errors"
+	"io"
 	"os"
 	"runtime/debug"
 
@@ -156,6 +157,15 @@ func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags vi
 	return drincw, nil
 }
 
+// rewritable returns a copy of the rewritable of st.
+// If there is none, the copy discards anything written to it.
+func rewritable(st *stats.Stats) progress.Rewritable {
+	if rw := st.Rewritable(); rw != nil {
+		return *rw
+	}
+	return progress.Rewritable{Writer: io.Discard, FlushInterval: progress.DefaultFlushInterval}
+}
+
 // Export writes a glass to the given path
 func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 	f, err := os.Create(path)
@@ -180,7 +190,7 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 	return st.DoStage(stats.StageExportIndex, func() error {
 		counter := &progress.Writer{
 			Writer:     writer,
-			Rewritable: *st.Rewritable(),
+			Rewritable: rewritable(st),
 		}
 
 		err = drincw.EncodeTo(gob.NewEncoder(counter))
@@ -222,7 +232,7 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 	err = st.DoStage(stats.StageImportIndex, func() error {
 		counter := &progress.Reader{
 			Reader:     reader,
-			Rewritable: *st.Rewritable(),
+			Rewritable: rewritable(st),
 		}
 		err = drincw.DecodeFrom(gob.NewDecoder(counter))
 		counter.Flush(true)
-- 
2.43.0


From b5c37c127c669b80168d0f7e5ce56b43f19c5f64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:01 +0000
Subject: [PATCH 25/36] fix: keep the status out of the encoded render flags

---
 internal/viewer/fallback.go | 2 +-
 internal/viewer/html.go     | 2 +-
 internal/viewer/viewer.go   | 7 ++++---
 3 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index a638e3e..30bd3fa 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -40,7 +40,7 @@ func (viewer *Viewer) htmlFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 	if err != nil {
-		viewer.RenderFlags.Stats.LogError("render fallback", err)
+		viewer.RenderFlags.st.LogError("render fallback", err)
 	}
 
 	return true
diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 46d3bd9..3cac1b2 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -471,6 +471,6 @@ func (viewer *Viewer) htmlEntity(w http.ResponseWriter, r *http.Request) {
 	w.WriteHeader(http.StatusOK)
 	err := entityTemplate.Execute(w, context)
 	if err != nil {
-		viewer.RenderFlags.Stats.LogError("render entity", err)
+		viewer.RenderFlags.st.LogError("render entity", err)
 	}
 }
diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index d95647f..67866e7 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -58,8 +58,9 @@ type RenderFlags struct {
 	HTMLRender  bool
 	ImageRender bool
 
-	// Stats holds the status to use for logging
-	Stats *stats.Stats
+	// st holds the status to use for logging.
+	// It is not exported, because RenderFlags are part of exports.
+	st *stats.Stats
 }
 
 func (rf RenderFlags) PublicURIS() (public []string) {
@@ -67,7 +68,7 @@ func (rf RenderFlags) PublicURIS() (public []string) {
 	for _, raw := range text.Splitter(",\n")(rf.PublicURL) {
 		url, err := url.Parse(strings.TrimSpace(raw))
 		if err != nil {
-			rf.Stats.LogError("parse url", err)
+			rf.st.LogError("parse url", err)
 			continue
 		}
 
-- 
2.43.0


From 84db35eae46921caba7fbff08825f6ddd51606ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:25 +0000
Subject: [PATCH 26/36] fix: end api requests answered while loading

---
 internal/viewer/fallback.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index 30bd3fa..2eb647c 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -71,5 +71,5 @@ func (viewer *Viewer) jsonFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 
-	return
+	return true
 }
-- 
2.43.0


From b8e49158931dd79dfc340b9322a8dfc04da7d36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:28 +0000
Subject: [PATCH 27/36] fix: encode redirect targets for their position

---
 internal/viewer/html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 3cac1b2..f0f3e37 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -403,7 +403,7 @@ func (viewer *Viewer) htmlEntityResolve(w http.ResponseWriter, r *http.Request)
 	canon := viewer.Cache.Canonical(uri)
 
 	// redirect to the entity
-	target := "/entity/" + bundle + "?uri=" + url.PathEscape(string(canon))
+	target := "/entity/" + url.PathEscape(bundle) + "?uri=" + url.QueryEscape(string(canon))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
@@ -427,7 +427,7 @@ func (viewer *Viewer) sendToResolver(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	target := "/wisski/get?uri=" + url.PathEscape(string(uri))
+	target := "/wisski/get?uri=" + url.QueryEscape(string(uri))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
-- 
2.43.0


From 4e47554cc785bca449510f7baeda6b0368182432 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:31 +0000
Subject: [PATCH 28/36] fix: drop existing field tables before creating them

---
 internal/sparkl/exporter/sql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index fe545a8..65e6c7b 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -159,6 +159,11 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 
 // CreateFieldTable creates a table for the given field
 func (sql *SQL) CreateFieldTable(bundle *pathbuilder.Bundle, field pathbuilder.Field) error {
+	// drop the table if it already exists
+	if err := sql.exec("DROP TABLE IF EXISTS "+sql.FieldTable(bundle, field)+";", nil); err != nil {
+		return err
+	}
+
 	table := sqlbuilder.CreateTable(sql.FieldTable(bundle, field)).IfNotExists()
 	table.Define(uriColumn, "TEXT")
 	table.Define(valueColumn, "TEXT")
-- 
2.43.0


From 0d7355fe871cd9972050c6872203e789efaf5fc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:34 +0000
Subject: [PATCH 29/36] fix: serialize empty literals as literals

---
 internal/triplestore/igraph/triple.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7e12560..7ae9bea 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -109,7 +109,7 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		return rdf.Triple{}, err
 	}
 
-	if triple.Datum == "" {
+	if triple.Role != Data {
 		var object string
 		if !canonical {
 			object = string(triple.Object)
-- 
2.43.0


From 55b7cc93a6afab90565e4efd5e7974f75f21fa30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:51 +0000
Subject: [PATCH 30/36] fix: apply settings before serving the first request

---
 internal/headache/ui_run.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/headache/ui_run.go b/internal/headache/ui_run.go
index 968d91f..0ccc3a6 100644
--- a/internal/headache/ui_run.go
+++ b/internal/headache/ui_run.go
@@ -67,6 +67,9 @@ func (h *Headache) setupRunWindow() {
 
 // runViewer
 func (h *Headache) runViewer(listener net.Listener, ctx context.Context, cancel context.CancelFunc) {
+	// set up the handler before it serves the first request
+	h.handler.RenderFlags = h.settings.Flags()
+
 	// create a new handler
 	h.done.Add(1)
 	go func() {
@@ -85,7 +88,6 @@ func (h *Headache) runViewer(listener net.Listener, ctx context.Context, cancel
 		defer listener.Close()  // close the listener
 		defer h.handler.Close() // kill the cache
 
-		h.handler.RenderFlags = h.settings.Flags()
 		pb, nq := h.settings.Pathbuilder(), h.settings.Nquads()
 
 		// create the glass by indexing
-- 
2.43.0


From c2fe0a0ac41b5439b5a5dff6d56dee6b5f14e460 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:53 +0000
Subject: [PATCH 31/36] fix: write progress while holding the lock of the
 status

---
 internal/stats/status.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index d6ca505..b29ef42 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -371,13 +371,13 @@ func (st *Stats) SetCT(current, total int) {
 		st.current.Current = current
 		st.current.Total = total
 		progress = st.current.Progress()
-	}
-	st.m.Unlock()
 
-	// and write out the rewritable
-	if st.rewritable != nil {
-		st.rewritable.Write(progress)
+		// and write out the rewritable
+		if st.rewritable != nil {
+			st.rewritable.Write(progress)
+		}
 	}
+	st.m.Unlock()
 }
 
 // Progress returns a string holding progress information on the current stage
-- 
2.43.0


From 04efacf33b8b0c62960ce0c2116b6258198f4364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 32/36] fix: finish reporting progress before signalling
 completion

---
 internal/sparkl/context.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 1cfe81c..96cdf0c 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -143,8 +143,8 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 	// create a new context
 	storage, err := context.Engine.NewStorage(bundle)
 	if context.reportError(err) {
-		context.extractWait.Done()
 		onFinish()
+		context.extractWait.Done()
 		return nil
 	}
 
@@ -154,8 +154,8 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 	context.closersLock.Unlock()
 
 	go func() {
-		defer onFinish()
 		defer context.extractWait.Done()
+		defer onFinish()
 
 		// determine the index of the URI within the paths describing this bundle
 		// this is the length of the parent path, or zero (if it does not exist).
-- 
2.43.0


From 478ee9f8c5ebdb0e0db9aebc72ea24e84ae67b11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:25 +0000
Subject: [PATCH 33/36] fix: set up the run window before the settings worker
 signals it is done

---
 internal/headache/ui_settings.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/headache/ui_settings.go b/internal/headache/ui_settings.go
index 7a4a886..0d8b2db 100644
--- a/internal/headache/ui_settings.go
+++ b/internal/headache/ui_settings.go
@@ -140,7 +140,7 @@ func (h *Headache) setupSettingsWindow() {
 		}
 
 		// setup the run window
-		go h.setupRunWindow()
+		h.setupRunWindow()
 	}()
 }
 
-- 
2.43.0


From 4aff5698dbe00fefd7a8ecc491191df412e5ee44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:24 +0000
Subject: [PATCH 34/36] fix: serve bundles whose name contains a slash

---
 internal/viewer/viewer.go | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index 67866e7..7494b6c 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -123,6 +123,9 @@ func (rf RenderFlags) CSPHeader() string {
 
 func (viewer *Viewer) setupMux() {
 	viewer.init.Do(func() {
+		// bundle names may contain slashes
+		viewer.mux.SkipClean(true)
+
 		viewer.mux.HandleFunc("/", viewer.htmlIndex)
 		viewer.mux.HandleFunc("/about", viewer.htmlLegal)
 		viewer.mux.HandleFunc("/pathbuilder", viewer.htmlPathbuilder)
@@ -132,10 +135,10 @@ func (viewer *Viewer) setupMux() {
 		}
 		viewer.mux.HandleFunc("/perf", viewer.htmlPerf)
 
-		viewer.mux.HandleFunc("/bundle/{bundle}", viewer.htmlBundle).Queries("limit", "{limit:\\d+}", "skip", "{skip:\\d+}")
-		viewer.mux.HandleFunc("/bundle/{bundle}", viewer.htmlBundle)
+		viewer.mux.HandleFunc("/bundle/{bundle:.+}", viewer.htmlBundle).Queries("limit", "{limit:\\d+}", "skip", "{skip:\\d+}")
+		viewer.mux.HandleFunc("/bundle/{bundle:.+}", viewer.htmlBundle)
 
-		viewer.mux.HandleFunc("/entity/{bundle}", viewer.htmlEntity).Queries("uri", "{uri:.+}")
+		viewer.mux.HandleFunc("/entity/{bundle:.+}", viewer.htmlEntity).Queries("uri", "{uri:.+}")
 
 		viewer.mux.HandleFunc("/wisski/get", viewer.htmlEntityResolve).Queries("uri", "{uri:.+}")
 		viewer.mux.HandleFunc("/wisski/navigate/{id}/view", viewer.sendToResolver)
@@ -143,11 +146,11 @@ func (viewer *Viewer) setupMux() {
 		viewer.mux.HandleFunc("/api/v1", viewer.jsonIndex)
 		viewer.mux.HandleFunc("/api/v1/progress", viewer.jsonProgress)
 		viewer.mux.HandleFunc("/api/v1/perf", viewer.jsonPerf)
-		viewer.mux.HandleFunc("/api/v1/bundle/{bundle}", viewer.jsonBundle)
-		viewer.mux.HandleFunc("/api/v1/entity/{bundle}", viewer.jsonEntity).Queries("uri", "{uri:.+}")
+		viewer.mux.HandleFunc("/api/v1/bundle/{bundle:.+}", viewer.jsonBundle)
+		viewer.mux.HandleFunc("/api/v1/entity/{bundle:.+}", viewer.jsonEntity).Queries("uri", "{uri:.+}")
 
-		viewer.mux.HandleFunc("/api/v1/ntriples/{bundle}", viewer.jsonNTriples).Queries("uri", "{uri:.+}")
-		viewer.mux.HandleFunc("/api/v1/turtle/{bundle}", viewer.jsonTurtle).Queries("uri", "{uri:.+}")
+		viewer.mux.HandleFunc("/api/v1/ntriples/{bundle:.+}", viewer.jsonNTriples).Queries("uri", "{uri:.+}")
+		viewer.mux.HandleFunc("/api/v1/turtle/{bundle:.+}", viewer.jsonTurtle).Queries("uri", "{uri:.+}")
 
 		viewer.mux.PathPrefix("/assets/").Handler(assets.AssetHandler)
 
-- 
2.43.0


From cf248b0c06dd2f5e66d5207fec62aba9b77dbe2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:39 +0000
Subject: [PATCH 35/36] fix: encode bundle names in links

---
 internal/viewer/html.go               | 1 +
 internal/viewer/templates/bundle.html | 2 +-
 internal/viewer/templates/entity.html | 2 +-
 internal/viewer/templates/index.html  | 2 +-
 4 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index f0f3e37..de970b4 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -31,6 +31,7 @@ var contextTemplateFuncs = template.FuncMap{
 	"datum2string": func(datum impl.Datum) string {
 		return string(datum)
 	},
+	"pathescape": url.PathEscape,
 	"combine": func(pairs ...any) (map[string]any, error) {
 		if len(pairs)%2 != 0 {
 			return nil, errors.New("pairs must be of even length")
diff --git a/internal/viewer/templates/bundle.html b/internal/viewer/templates/bundle.html
index 349f6ab..f4f0694 100644
--- a/internal/viewer/templates/bundle.html
+++ b/internal/viewer/templates/bundle.html
@@ -19,7 +19,7 @@
         {{ $bundle := .Bundle.MachineName }}
         {{ range .URIS }}
             <li>
-                <a href="/entity/{{ $bundle }}?uri={{ . }}">
+                <a href="/entity/{{ pathescape $bundle }}?uri={{ . }}">
                     {{ . }}
                 </a>
             </li>
diff --git a/internal/viewer/templates/entity.html b/internal/viewer/templates/entity.html
index 8ec7b4e..a267626 100644
--- a/internal/viewer/templates/entity.html
+++ b/internal/viewer/templates/entity.html
@@ -9,7 +9,7 @@
 
 {{ define "nav" }}
     <a href="/">Bundles</a> &gt;
-    <a href="/bundle/{{ .Bundle.MachineName }}">Bundle {{ .Bundle.Path.Name }}</a> &gt;
+    <a href="/bundle/{{ pathescape .Bundle.MachineName }}">Bundle {{ .Bundle.Path.Name }}</a> &gt;
     <b>Entity {{ .Entity.URI }}</b>
 {{ end }}
 
diff --git a/internal/viewer/templates/index.html b/internal/viewer/templates/index.html
index e2130c1..7969fc6 100644
--- a/internal/viewer/templates/index.html
+++ b/internal/viewer/templates/index.html
@@ -16,7 +16,7 @@
     <ul>
         {{ range .Bundles }}
             <li>
-                <a href="/bundle/{{ .MachineName }}">
+                <a href="/bundle/{{ pathescape .MachineName }}">
                     {{ .Path.Name }}
                 </a>
             </li>
-- 
2.43.0


From 962bc0f12ebb2f0936f35c75d1918f765cb78c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:53:11 +0000
Subject: [PATCH 36/36] fix: link to the previous and first page from the
 second page of a bundle

---
 internal/viewer/html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index de970b4..f747ba1 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -305,9 +305,9 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 		return template.URL("/bundle/" + url.PathEscape(bundleName) + "?limit=" + strconv.Itoa(limit) + "&" + "skip=" + strconv.Itoa(skip))
 	}
 
-	// add the previous link if there are previous pages
+	// add the previous link if there are previous entities
 	prev := skip - limit
-	if prev > 0 {
+	if skip > 0 {
 		context.PrevLink = pageLink(prev)
 		context.FirstLink = pageLink(0)
 	}
-- 
2.43.0

