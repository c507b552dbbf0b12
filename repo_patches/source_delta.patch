From 8ff9a989091801accea6bc416143b6e48e52d925 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 01/45] fix: keep statements with equivalent or inverse
 predicates when masking

---
 internal/sparkl/index.go             | 19 ++++++++++++-------
 internal/triplestore/igraph/index.go | 20 ++++++++++++++++++--
 2 files changed, 30 insertions(+), 9 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 0c32f60..1ac747e 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -49,12 +49,6 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
-	// setup the mask for indexing the data
-	if err := setMask(&index, opts.Mask); err != nil {
-		index.Close()
-		return nil, err
-	}
-
 	// read the "same as" triples first
 	var total int
 	err := st.DoStage(stats.StageScanSameAs, func() (err error) {
@@ -93,6 +87,13 @@ func MakeIndex(source Source, predicates Predicates, engine igraph.Engine, opts
 		return nil, err
 	}
 
+	// setup the mask for indexing the data
+	// this needs to happen after all identities are known, because the mask uses canonical ids
+	if err := setMask(&index, opts.Mask); err != nil {
+		index.Close()
+		return nil, err
+	}
+
 	// and then read all the other data
 	err = st.DoStage(stats.StageScanTriples, func() error {
 		return indexData(source, &index, total, opts, st)
@@ -144,7 +145,11 @@ func addBundleToMasks(pmask map[impl.Label]struct{}, dmask map[impl.Label]struct
 	addPathArrayToMasks(pmask, bundle.PathArray)
 	for _, field := range bundle.Fields() {
 		addPathArrayToMasks(pmask, field.PathArray)
-		dmask[impl.Label(field.DatatypeProperty)] = struct{}{}
+		if datatype := field.Datatype(); datatype != "" {
+			// the value may either be a datum or another node
+			pmask[impl.Label(datatype)] = struct{}{}
+			dmask[impl.Label(datatype)] = struct{}{}
+		}
 	}
 	for _, child := range bundle.ChildBundles {
 		addBundleToMasks(pmask, dmask, child)
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index bc3453f..e309ec8 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -214,7 +214,23 @@ func (index *Index) addMask(predicate impl.Label, mask map[impl.ID]struct{}) (im
 	}
 
 	// make sure it's contained in the map
-	_, ok = mask[ids.Literal]
+	_, ok = mask[ids.Canonical]
+	return ids, ok, nil
+}
+
+// addPredicateMask is like addMask for the predicate mask.
+// It also lets predicates pass if their inverse is contained in the mask.
+func (index *Index) addPredicateMask(predicate impl.Label) (imap.TripleID, bool, error) {
+	ids, ok, err := index.addMask(predicate, index.pMask)
+	if err != nil || ok || !ids.Canonical.Valid() {
+		return ids, ok, err
+	}
+
+	inverse, ok, err := index.inverses.Get(ids.Canonical)
+	if err != nil || !ok {
+		return ids, false, err
+	}
+	_, ok = index.pMask[inverse]
 	return ids, ok, nil
 }
 
@@ -229,7 +245,7 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 	}
 
 	// add a predicate (and check if it is masked)
-	p, masked, err := index.addMask(predicate, index.pMask)
+	p, masked, err := index.addPredicateMask(predicate)
 	if err != nil {
 		return err
 	}
-- 
2.43.0


From 525335bb0301e6749c12f225d4a38fa6453da53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:06:48 +0000
Subject: [PATCH 02/45] fix: read literals containing language or datatype
 markers unchanged

---
 internal/sparkl/index_source.go | 59 ++++++++++++++++++++++++++++-----
 1 file changed, 50 insertions(+), 9 deletions(-)

diff --git a/internal/sparkl/index_source.go b/internal/sparkl/index_source.go
index c81e5b8..e9553b8 100644
--- a/internal/sparkl/index_source.go
+++ b/internal/sparkl/index_source.go
@@ -1,8 +1,10 @@
 package sparkl
 
 import (
+	"bufio"
 	"fmt"
 	"io"
+	"strings"
 
 	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
 	"github.com/cayleygraph/quad"
@@ -51,30 +53,72 @@ type Token struct {
 // QuadSource reads triples from a quad file
 type QuadSource struct {
 	Reader io.ReadSeeker
-	reader *nquads.Reader
+	reader *bufio.Reader
 }
 
 func (qs *QuadSource) Open() error {
 	// if we previously had a reader
 	// then we need to reset the state
 	if qs.reader != nil {
-		if err := qs.reader.Close(); err != nil {
-			return err
-		}
 		_, err := qs.Reader.Seek(0, io.SeekStart)
 		if err != nil {
 			return err
 		}
 	}
 
-	qs.reader = nquads.NewReader(qs.Reader, true)
+	qs.reader = bufio.NewReader(qs.Reader)
 	return nil
 }
 
+// readQuad reads the next valid quad from the reader.
+func (qs *QuadSource) readQuad() (quad.Quad, error) {
+	for {
+		text, err := qs.reader.ReadString('\n')
+		if err != nil && (err != io.EOF || text == "") {
+			return quad.Quad{}, err
+		}
+
+		line := strings.TrimSpace(text)
+		if line == "" || line[0] == '#' {
+			continue
+		}
+
+		value, err := parseQuad(line)
+		if err != nil {
+			return quad.Quad{}, fmt.Errorf("failed to parse %q: %w", line, err)
+		}
+		if value.IsValid() {
+			return value, nil
+		}
+	}
+}
+
+// parseQuad parses a single line holding a quad.
+//
+// The raw parser follows the n-quads grammar, but does not keep literals containing '"@' or '"^^<' apart from their language or datatype.
+// The typed parser does, and is used for the literal itself.
+func parseQuad(line string) (quad.Quad, error) {
+	value, err := nquads.ParseRaw(line)
+	if err != nil {
+		return value, err
+	}
+	if _, ok := asURILike(value.Object); ok {
+		return value, nil
+	}
+	typed, err := nquads.Parse(line)
+	if err != nil || typed.Object == nil {
+		return value, nil
+	}
+	if _, ok := asURILike(typed.Object); !ok {
+		value.Object = typed.Object
+	}
+	return value, nil
+}
+
 // Next reads the next token from the QuadSource
 func (qs *QuadSource) Next() Token {
 	for {
-		value, err := qs.reader.ReadQuad()
+		value, err := qs.readQuad()
 		if err != nil {
 			return Token{Err: err}
 		}
@@ -117,9 +161,6 @@ func (qs *QuadSource) Next() Token {
 }
 
 func (qs *QuadSource) Close() error {
-	if qs.reader != nil {
-		return qs.reader.Close()
-	}
 	return nil
 }
 
-- 
2.43.0


From a93e7abd356f45f3e5db3b86244b36c285c35108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:20:06 +0000
Subject: [PATCH 03/45] fix: attach children of top-level entities when using a
 cache directory

---
 internal/sparkl/storages/disk.go | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index f38f40e..d0f5f15 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -201,12 +201,10 @@ func (ds *Disk) Get(parentPathIndex int) traversal.Iterator[LabelWithParent] {
 			var uri LabelWithParent
 			var err error
 
-			if parentPathIndex > 0 {
+			if parentPathIndex > -1 {
 				err = ds.decode(it.Value(), func(se *sEntity) error {
 					uri.Label = se.URI
-					if parentPathIndex != -1 {
-						uri.Parent = se.Path[parentPathIndex]
-					}
+					uri.Parent = se.Path[parentPathIndex]
 					return nil
 				})
 			} else {
-- 
2.43.0


From cc6888718ec9af7e00c6b5a0aa44223ed048b0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 04/45] fix: do not share an error variable between concurrent
 fields

---
 internal/sparkl/context.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 3e292ff..1201cf3 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -187,7 +187,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				for paths.Next() {
 					path := paths.Datum()
 
-					err = storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
+					err := storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
 					if err != storages.ErrNoEntity {
 						context.reportError(err)
 					}
-- 
2.43.0


From 9035e849a1baf29e13b6835d19c8add4b8ef7711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 05/45] fix: wait until bundle storages are finalized, report
 their errors and close all of them

---
 internal/sparkl/context.go | 50 +++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 22 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 1201cf3..1ffc10b 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -1,6 +1,7 @@
 package sparkl
 
 import (
+	"errors"
 	"io"
 	"sync"
 	"sync/atomic"
@@ -21,7 +22,7 @@ import (
 func StoreBundle(bundle *pathbuilder.Bundle, index *igraph.Index, engine storages.BundleEngine, st *stats.Stats) (storages.BundleStorage, func() error, error) {
 	storages, closer, err := StoreBundles([]*pathbuilder.Bundle{bundle}, index, engine, st)
 	if err != nil {
-		return nil, nil, err
+		return nil, nil, errors.Join(err, closer())
 	}
 	return storages[0], closer, err
 }
@@ -76,9 +77,10 @@ type Context struct {
 	Engine       storages.BundleEngine
 	err          error          // error that occurred (if any)
 	Index        *igraph.Index  // index being used
-	closers      chan io.Closer // what to close when done
+	closersM     sync.Mutex     // protects closers
+	closers      []io.Closer    // what to close when done
 	extractWait  sync.WaitGroup // waiting on extracting entities in all bundles
-	childAddWait sync.WaitGroup // loading child entities wait
+	childAddWait sync.WaitGroup // waiting on adding child entities and finalizing storages
 	errOnce      sync.Once      // to set the error
 
 	st *stats.Stats // st holds statistics of the current viewer
@@ -89,7 +91,6 @@ type Context struct {
 // Multiple calls to Open are invalid.
 func (context *Context) Open() {
 	context.extractWait.Add(1)
-	context.closers = make(chan io.Closer)
 }
 
 // Wait signals this context that no more bundles will be loaded.
@@ -105,17 +106,14 @@ func (context *Context) Wait() error {
 
 // Close closes this context
 func (context *Context) Close() (err error) {
-	for {
-		select {
-		case closer := <-context.closers:
-			cErr := closer.Close()
-			if err == nil {
-				err = cErr
-			}
-		default:
-			return nil
-		}
+	context.closersM.Lock()
+	defer context.closersM.Unlock()
+
+	for _, closer := range context.closers {
+		err = errors.Join(err, closer.Close())
 	}
+	context.closers = nil
+	return err
 }
 
 // reportError stores an error in this context
@@ -146,6 +144,11 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 		return nil
 	}
 
+	// tell the storage to be closed on a call to Close()
+	context.closersM.Lock()
+	context.closers = append(context.closers, storage)
+	context.closersM.Unlock()
+
 	go func() {
 		defer onFinish()
 		defer context.extractWait.Done()
@@ -166,7 +169,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				path := paths.Datum()
 				nodes := path.Nodes
 				triples := path.Triples
-				storage.Add(nodes[entityURIIndex], nodes, triples)
+				if err := storage.Add(nodes[entityURIIndex], nodes, triples); err != nil {
+					return err
+				}
 			}
 
 			return paths.Err()
@@ -207,13 +212,16 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			err := storage.RegisterChildStorage(bundle.MachineName(), cstorages[i])
-			context.reportError(err)
+			if context.reportError(err) {
+				return
+			}
 		}
 
-		context.childAddWait.Add(len(cstorages))
+		context.childAddWait.Add(1)
 
 		// stage 4: register all the child entities
 		go func() {
+			defer context.childAddWait.Done()
 			context.extractWait.Wait()
 
 			var wg sync.WaitGroup
@@ -222,9 +230,10 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				wg.Add(1)
 				go func(cstorage storages.BundleStorage, bundle *pathbuilder.Bundle) {
 					defer wg.Done()
-					defer context.childAddWait.Done()
 
 					children := cstorage.Get(entityURIIndex)
+					defer children.Close()
+
 					for children.Next() {
 						child := children.Datum()
 						err := storage.AddChild(child.Parent, bundle.MachineName(), child.Label)
@@ -237,10 +246,7 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 			}
 
 			wg.Wait()
-			storage.Finalize() // no more writing!
-
-			// tell the storage to be closed on a call to Close()
-			context.closers <- storage
+			context.reportError(storage.Finalize()) // no more writing!
 		}()
 	}()
 
-- 
2.43.0


From 600ddb763817018806e3f8570036505e05709208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:47 +0000
Subject: [PATCH 06/45] fix: close the underlying iterators when a path
 iterator is closed

---
 internal/triplestore/igraph/paths.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/triplestore/igraph/paths.go b/internal/triplestore/igraph/paths.go
index 00248be..2b9cd16 100644
--- a/internal/triplestore/igraph/paths.go
+++ b/internal/triplestore/igraph/paths.go
@@ -159,6 +159,7 @@ func (set *Paths) Size() (int, error) {
 func (set *Paths) Paths() traversal.Iterator[Path] {
 	return traversal.New(func(generator traversal.Generator[Path]) {
 		defer generator.Return()
+		defer set.elements.Close()
 
 		for set.elements.Next() {
 			element := set.elements.Datum()
-- 
2.43.0


From 5695eb49962a8ff5537363fa94dab7e47b57b4df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 07/45] fix: report errors of the index storages while indexing

---
 internal/sparkl/index.go                   | 16 +++++++++++----
 internal/triplestore/igraph/engine_disk.go |  5 +++++
 internal/triplestore/igraph/index.go       | 24 +++++++++++++---------
 internal/triplestore/imap/imap.go          |  8 ++++++--
 4 files changed, 37 insertions(+), 16 deletions(-)

diff --git a/internal/sparkl/index.go b/internal/sparkl/index.go
index 1ac747e..c7e5934 100644
--- a/internal/sparkl/index.go
+++ b/internal/sparkl/index.go
@@ -197,7 +197,9 @@ func indexSameAs(source Source, index *igraph.Index, sameAsPredicates []impl.Lab
 			return 0, tok.Err
 		case !tok.HasDatum:
 			if _, ok := sameAss[tok.Predicate]; ok {
-				index.MarkIdentical(tok.Subject, tok.Object)
+				if err := index.MarkIdentical(tok.Subject, tok.Object); err != nil {
+					return 0, err
+				}
 			}
 		}
 	}
@@ -241,7 +243,9 @@ func indexInverseOf(source Source, index *igraph.Index, inversePredicates []impl
 			return tok.Err
 		case !tok.HasDatum:
 			if _, ok := inverses[tok.Predicate]; ok {
-				index.MarkInverse(tok.Subject, tok.Object)
+				if err := index.MarkInverse(tok.Subject, tok.Object); err != nil {
+					return err
+				}
 			}
 		}
 	}
@@ -274,9 +278,13 @@ func indexData(source Source, index *igraph.Index, total int, opts IndexOptions,
 		case tok.Err != nil:
 			return tok.Err
 		case tok.HasDatum:
-			index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language)
+			if err := index.AddLangData(tok.Subject, tok.Predicate, tok.Datum, tok.Language); err != nil {
+				return err
+			}
 		case !tok.HasDatum:
-			index.AddTriple(tok.Subject, tok.Predicate, tok.Object)
+			if err := index.AddTriple(tok.Subject, tok.Predicate, tok.Object); err != nil {
+				return err
+			}
 		}
 	}
 }
diff --git a/internal/triplestore/igraph/engine_disk.go b/internal/triplestore/igraph/engine_disk.go
index 3f62471..fb5631a 100644
--- a/internal/triplestore/igraph/engine_disk.go
+++ b/internal/triplestore/igraph/engine_disk.go
@@ -136,6 +136,8 @@ func (tlm *ThreeDiskHash) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new
 		}
 		conflicted = true
 	case leveldberrors.ErrNotFound:
+	default:
+		return false, err
 	}
 	return conflicted, tlm.DB.Put(impl.EncodeIDs(a, b, c), impl.EncodeIDs(l), nil)
 }
@@ -188,6 +190,9 @@ func (tlm *ThreeDiskHash) Has(a, b, c impl.ID) (id impl.ID, ok bool, err error)
 		var invalid impl.ID
 		return invalid, false, nil
 	}
+	if err != nil {
+		return id, false, err
+	}
 
 	err = impl.UnmarshalID(&id, value)
 	if err != nil {
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index e309ec8..72a5329 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -268,10 +268,12 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 
 	// forward id
 	id := index.triple.Inc()
-	index.triples.Set(id, IndexTriple{
+	if err := index.triples.Set(id, IndexTriple{
 		Role:  Regular,
 		Items: [3]imap.TripleID{s, p, o},
-	})
+	}); err != nil {
+		return err
+	}
 
 	conflicted, err := index.insert(s.Canonical, p.Canonical, o.Canonical, id)
 	if err != nil {
@@ -288,7 +290,7 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 	if ok {
 		// reverse id
 		iid := index.triple.Inc()
-		index.triples.Set(iid, IndexTriple{
+		if err := index.triples.Set(iid, IndexTriple{
 			Role: Inverse,
 			Items: [3]imap.TripleID{
 				{
@@ -304,7 +306,9 @@ func (index *Index) AddTriple(subject, predicate, object impl.Label) error {
 					Literal:   o.Literal,
 				},
 			},
-		})
+		}); err != nil {
+			return err
+		}
 
 		conflicted, err := index.insert(o.Canonical, i, s.Canonical, iid)
 		if err != nil {
@@ -400,21 +404,21 @@ func (index *Index) resolveLabelConflict(old, new impl.ID) (impl.ID, error) {
 
 	// lod the old triple
 	ot, ok, err := index.triples.Get(old)
-	if !ok {
-		return old, errResolveConflictCorrupt
-	}
 	if err != nil {
 		return old, err
 	}
-
-	// load the new triple
-	nt, ok, err := index.triples.Get(new)
 	if !ok {
 		return old, errResolveConflictCorrupt
 	}
+
+	// load the new triple
+	nt, ok, err := index.triples.Get(new)
 	if err != nil {
 		return new, err
 	}
+	if !ok {
+		return old, errResolveConflictCorrupt
+	}
 
 	// use the one with the smaller role
 	if nt.Role < ot.Role {
diff --git a/internal/triplestore/imap/imap.go b/internal/triplestore/imap/imap.go
index 453b861..74ef932 100644
--- a/internal/triplestore/imap/imap.go
+++ b/internal/triplestore/imap/imap.go
@@ -171,8 +171,12 @@ func (mp *IMap) AddNew(label impl.Label) (ids TripleID, old bool, err error) {
 	}
 
 	// store mappings in both directions
-	mp.forward.Set(label, ids)
-	mp.reverse.Set(ids.Literal, label)
+	if err = mp.forward.Set(label, ids); err != nil {
+		return
+	}
+	if err = mp.reverse.Set(ids.Literal, label); err != nil {
+		return
+	}
 
 	// return the id
 	return
-- 
2.43.0


From ae3ad281f8d9591b3c27007aa26d6664e7f52378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:06 +0000
Subject: [PATCH 08/45] fix: compact, finalize and close every storage of an
 index

---
 internal/triplestore/igraph/index.go  | 30 ++++++++++++++++++++++-----
 internal/triplestore/imap/map_disk.go |  2 ++
 2 files changed, 27 insertions(+), 5 deletions(-)

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 72a5329..8ac100a 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -502,9 +502,9 @@ func (index *Index) Compact() error {
 	}
 
 	var wg sync.WaitGroup
-	wg.Add(6)
+	wg.Add(7)
 
-	var errs [6]error
+	var errs [7]error
 
 	go func() {
 		defer wg.Done()
@@ -536,6 +536,11 @@ func (index *Index) Compact() error {
 		errs[5] = index.triples.Compact()
 	}()
 
+	go func() {
+		defer wg.Done()
+		errs[6] = index.language.Compact()
+	}()
+
 	wg.Wait()
 	return errors.Join(errs[:]...)
 }
@@ -553,9 +558,9 @@ func (index *Index) Finalize() error {
 	}
 
 	var wg sync.WaitGroup
-	wg.Add(6)
+	wg.Add(7)
 
-	var errs [6]error
+	var errs [7]error
 
 	go func() {
 		defer wg.Done()
@@ -587,13 +592,18 @@ func (index *Index) Finalize() error {
 		errs[5] = index.triples.Finalize()
 	}()
 
+	go func() {
+		defer wg.Done()
+		errs[6] = index.language.Finalize()
+	}()
+
 	wg.Wait()
 	return errors.Join(errs[:]...)
 }
 
 // Close closes any storages attached to this storage
 func (index *Index) Close() error {
-	var errors [5]error
+	var errors [7]error
 	errors[0] = index.labels.Close()
 
 	if index.data != nil {
@@ -616,6 +626,16 @@ func (index *Index) Close() error {
 		index.posIndex = nil
 	}
 
+	if index.triples != nil {
+		errors[5] = index.triples.Close()
+		index.triples = nil
+	}
+
+	if index.language != nil {
+		errors[6] = index.language.Close()
+		index.language = nil
+	}
+
 	for _, err := range errors {
 		if err != nil {
 			return err
diff --git a/internal/triplestore/imap/map_disk.go b/internal/triplestore/imap/map_disk.go
index afad4bf..5844494 100644
--- a/internal/triplestore/imap/map_disk.go
+++ b/internal/triplestore/imap/map_disk.go
@@ -221,6 +221,8 @@ func (ds *DiskStorage[Key, Value]) Close() error {
 // Count returns the number of objects in this DiskStorage.
 func (ds *DiskStorage[Key, Value]) Count() (count uint64, err error) {
 	it := ds.DB.NewIterator(nil, nil)
+	defer it.Release()
+
 	for it.Next() {
 		count++
 	}
-- 
2.43.0


From b59868c3eec803efa72e759087e76dd07a0dd4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 09/45] fix: report errors while extracting bundles

---
 internal/glass/glass.go | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index df59659..848c066 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -116,11 +116,10 @@ func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags vi
 
 	// extract the bundles
 	var bundles map[string][]wisski.Entity
-	st.DoStage(stats.StageExtractBundles, func() (err error) {
+	if err := st.DoStage(stats.StageExtractBundles, func() (err error) {
 		bundles, err = sparkl.LoadPathbuilder(&drincw.Pathbuilder, index, bEngine, st)
 		return err
-	})
-	if err != nil {
+	}); err != nil {
 		return drincw, err
 	}
 
-- 
2.43.0


From e5cb6bd68c2426c63747d1286aac826bd87807d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 10/45] fix: terminate the container of an exported index and
 report write errors

---
 internal/glass/glass.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 848c066..34eebbb 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -162,14 +162,18 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		st.LogError("create export", err)
 		return err
 	}
-	defer f.Close()
+	defer func() {
+		// an error while closing means that the file may be incomplete
+		if cErr := f.Close(); err == nil {
+			err = cErr
+		}
+	}()
 
 	writer, err := gzip.NewWriterLevel(f, gzip.BestCompression)
 	if err != nil {
 		st.LogError("create gzip writer", err)
 		return err
 	}
-	defer writer.Flush()
 
 	return st.DoStage(stats.StageExportIndex, func() error {
 		counter := &progress.Writer{
@@ -180,6 +184,11 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 		err = drincw.EncodeTo(gob.NewEncoder(counter))
 		counter.Flush(true)
 
+		// write out the remaining data and the footer
+		if cErr := writer.Close(); err == nil {
+			err = cErr
+		}
+
 		if err != nil {
 			st.LogError("encode export", err)
 		}
-- 
2.43.0


From 87161a9417355c75b3b684119cdccd08e093bb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 11/45] fix: do not crash when exporting or importing an index
 without output

---
 internal/stats/status.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/stats/status.go b/internal/stats/status.go
index d6ca505..391287a 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -57,10 +57,11 @@ func NewStats(w io.Writer) *Stats {
 }
 
 // Rewritable returns the rewritable associated with this status.
-// It is automatically closed at the end of each stage
+// It is automatically closed at the end of each stage.
+// When there is no output, anything written to it is discarded.
 func (st *Stats) Rewritable() *progress.Rewritable {
-	if st == nil {
-		return nil
+	if st == nil || st.rewritable == nil {
+		return &progress.Rewritable{Writer: io.Discard, FlushInterval: progress.DefaultFlushInterval}
 	}
 	return st.rewritable
 }
-- 
2.43.0


From 88a6c83fb52cd34175e4c2deb03c9712eb404a0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 12/45] fix: refuse index files with a wrong checksum or
 trailing data

---
 internal/glass/glass.go | 31 ++++++++++++++++++++++++-------
 1 file changed, 24 insertions(+), 7 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 34eebbb..83f1faa 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -5,7 +5,9 @@ import (
 	"compress/gzip"
 	"encoding/gob"
 	"errors"
+	"io"
 	"os"
+	"reflect"
 	"runtime/debug"
 
 	"github.com/FAU-CDI/drincw/pathbuilder"
@@ -62,9 +64,15 @@ func (glass *Glass) EncodeTo(encoder *gob.Encoder) error {
 // DecodeFrom decodes a glass from the given decoder
 func (glass *Glass) DecodeFrom(decoder *gob.Decoder) (err error) {
 	var version int
+	if err := sgob.Decode(decoder, &version); err != nil {
+		return err
+	}
+	if version != GlassVersion {
+		return errInvalidVersion
+	}
+
 	var xml []byte
 	for _, obj := range []any{
-		&version,
 		&xml,
 		&glass.Flags,
 	} {
@@ -79,10 +87,6 @@ func (glass *Glass) DecodeFrom(decoder *gob.Decoder) (err error) {
 		return err
 	}
 
-	if version != GlassVersion {
-		return errInvalidVersion
-	}
-
 	glass.Cache = new(sparkl.Cache)
 	return glass.Cache.DecodeFrom(decoder)
 }
@@ -197,6 +201,7 @@ func Export(path string, drincw Glass, st *stats.Stats) (err error) {
 }
 
 var errInvalidVersion = errors.New("Glass Export: Invalid version")
+var errTrailingData = errors.New("Glass Export: Trailing data")
 
 // Import loads a glass from disk
 func Import(path string, st *stats.Stats) (drincw Glass, err error) {
@@ -220,7 +225,16 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 			Reader:     reader,
 			Rewritable: *st.Rewritable(),
 		}
-		err = drincw.DecodeFrom(gob.NewDecoder(counter))
+		decoder := gob.NewDecoder(counter)
+		err = drincw.DecodeFrom(decoder)
+		if err == nil {
+			// there may not be any further data, and the checksum has to match
+			if eErr := decoder.DecodeValue(reflect.Value{}); eErr == nil {
+				err = errTrailingData
+			} else if eErr != io.EOF {
+				err = eErr
+			}
+		}
 		counter.Flush(true)
 		if err != nil {
 			st.LogError("decode export", err)
@@ -228,5 +242,8 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 		}
 		return nil
 	})
-	return drincw, err
+	if err != nil {
+		return Glass{}, err
+	}
+	return drincw, nil
 }
-- 
2.43.0


From 5f807ac99608de1f9ff66c95084d96eadcdc8ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 13/45] fix: do not allocate memory for elements that are not
 there

---
 pkg/sgob/sgob.go | 38 ++++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/pkg/sgob/sgob.go b/pkg/sgob/sgob.go
index 83ca38f..a39174a 100644
--- a/pkg/sgob/sgob.go
+++ b/pkg/sgob/sgob.go
@@ -12,6 +12,7 @@ package sgob
 import (
 	"encoding/gob"
 	"errors"
+	"math"
 	"reflect"
 )
 
@@ -75,19 +76,36 @@ func encodeMap(encoder *gob.Encoder, obj reflect.Value) error {
 	return nil
 }
 
-func decodeMap(decoder *gob.Decoder, obj reflect.Value) error {
-	// decode the count
+// maxPrealloc is the maximum number of elements to allocate space for before they are read
+const maxPrealloc = 1024
+
+var errInvalidCount = errors.New("gobs: invalid element count")
+
+// decodeCount decodes the number of elements of a map or slice
+func decodeCount(decoder *gob.Decoder) (int, error) {
 	var count uint64
 	if err := decoder.Decode(&count); err != nil {
+		return 0, err
+	}
+	if count > math.MaxInt {
+		return 0, errInvalidCount
+	}
+	return int(count), nil
+}
+
+func decodeMap(decoder *gob.Decoder, obj reflect.Value) error {
+	// decode the count
+	count, err := decodeCount(decoder)
+	if err != nil {
 		return err
 	}
 
 	tp := obj.Type().Elem()
 
 	// create a map key and value
-	mp := reflect.MakeMapWithSize(tp, int(count))
+	mp := reflect.MakeMapWithSize(tp, min(count, maxPrealloc))
 
-	for i := 0; i < int(count); i++ {
+	for i := 0; i < count; i++ {
 		key := reflect.New(tp.Key())
 		value := reflect.New(tp.Elem())
 
@@ -122,22 +140,22 @@ func encodeSlice(encoder *gob.Encoder, obj reflect.Value) error {
 
 func decodeSlice(decoder *gob.Decoder, obj reflect.Value) error {
 	// decode the count
-	var count uint64
-	if err := decoder.Decode(&count); err != nil {
+	count, err := decodeCount(decoder)
+	if err != nil {
 		return err
 	}
 
 	tp := obj.Type().Elem()
 
-	// create a map key and value
-	slice := reflect.MakeSlice(tp, int(count), int(count))
+	// create a slice, which grows as elements are read
+	slice := reflect.MakeSlice(tp, 0, min(count, maxPrealloc))
 
-	for i := 0; i < int(count); i++ {
+	for i := 0; i < count; i++ {
 		value := reflect.New(tp.Elem())
 		if err := DecodeValue(decoder, value); err != nil {
 			return err
 		}
-		slice.Index(i).Set(value.Elem())
+		slice = reflect.Append(slice, value.Elem())
 	}
 
 	obj.Elem().Set(slice)
-- 
2.43.0


From f1c5911b66e31fd99528a24a9ecbbaf7a4b54a5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:26 +0000
Subject: [PATCH 14/45] fix: report progress of bundles in order and without
 data races

---
 internal/sparkl/context.go | 12 ++++++++----
 internal/stats/status.go   | 15 +++++----------
 2 files changed, 13 insertions(+), 14 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index 1ffc10b..cf30a58 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -44,12 +44,16 @@ func StoreBundles(bundles []*pathbuilder.Bundle, index *igraph.Index, engine sto
 	st.SetCT(0, total)
 
 	// update the counter every time we finish a bundle
-	var counter atomic.Int64
+	var counter int
+	var counterM sync.Mutex
 	storages := make([]storages.BundleStorage, len(bundles))
 	for i := range storages {
 		storages[i] = context.Store(bundles[i], func() {
-			current := int(counter.Add(1))
-			st.SetCT(current, total)
+			counterM.Lock()
+			defer counterM.Unlock()
+
+			counter++
+			st.SetCT(counter, total)
 		})
 	}
 	err := context.Wait()
@@ -150,8 +154,8 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 	context.closersM.Unlock()
 
 	go func() {
-		defer onFinish()
 		defer context.extractWait.Done()
+		defer onFinish()
 
 		// determine the index of the URI within the paths describing this bundle
 		// this is the length of the parent path, or zero (if it does not exist).
diff --git a/internal/stats/status.go b/internal/stats/status.go
index 391287a..631510b 100644
--- a/internal/stats/status.go
+++ b/internal/stats/status.go
@@ -362,22 +362,17 @@ func (st *Stats) SetCT(current, total int) {
 		return
 	}
 
-	// update the process and make a copy
-	var progress string
-
 	defer st.onUpdate()
 
 	st.m.Lock()
-	{
-		st.current.Current = current
-		st.current.Total = total
-		progress = st.current.Progress()
-	}
-	st.m.Unlock()
+	defer st.m.Unlock()
+
+	st.current.Current = current
+	st.current.Total = total
 
 	// and write out the rewritable
 	if st.rewritable != nil {
-		st.rewritable.Write(progress)
+		st.rewritable.Write(st.current.Progress())
 	}
 }
 
-- 
2.43.0


From 3c7db2cd871a38f2bbf157d1d6fa3d808d894a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:36 +0000
Subject: [PATCH 15/45] fix: do not answer api calls with missing data while
 loading

---
 internal/viewer/fallback.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index a638e3e..86ce67f 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -71,5 +71,5 @@ func (viewer *Viewer) jsonFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 
-	return
+	return true
 }
-- 
2.43.0


From 54945d427b1e55e8ea817b2030b51d2f0fa9b150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:39 +0000
Subject: [PATCH 16/45] fix: show pages of empty bundles and link to the
 previous and last page

---
 internal/viewer/html.go | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index 46d3bd9..b46af38 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -273,12 +273,11 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 
 	total := len(entities)
 	// slice the entities received
-	if skip < total {
-		entities = entities[skip:]
-	} else {
+	if skip > 0 && skip >= total {
 		http.NotFound(w, r)
 		return
 	}
+	entities = entities[skip:]
 	if limit < len(entities) {
 		entities = entities[:limit]
 	}
@@ -293,8 +292,10 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 		URIS:   entities,
 	}
 
-	context.PageStart = skip + 1
-	context.PageEnd = context.PageStart + len(entities) - 1
+	context.PageEnd = skip + len(entities)
+	if len(entities) > 0 {
+		context.PageStart = skip + 1
+	}
 
 	// generate all the page links
 	pageLink := func(skip int) template.URL {
@@ -305,15 +306,14 @@ func (viewer *Viewer) htmlBundleWithLimit(w http.ResponseWriter, r *http.Request
 	}
 
 	// add the previous link if there are previous pages
-	prev := skip - limit
-	if prev > 0 {
-		context.PrevLink = pageLink(prev)
+	if skip > 0 {
+		context.PrevLink = pageLink(skip - limit)
 		context.FirstLink = pageLink(0)
 	}
 	// add the next link if there are more
 	next := skip + limit
-	last := total - (total % limit) - 1
 	if next < total {
+		last := ((total - 1) / limit) * limit
 		context.NextLink = pageLink(next)
 		context.LastLink = pageLink(last)
 	}
-- 
2.43.0


From b591fd1101b18a1bb15d5fcdadd4e437833d09a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:41 +0000
Subject: [PATCH 17/45] fix: escape names of entities in redirects

---
 internal/viewer/html.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index b46af38..a87370c 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -403,7 +403,7 @@ func (viewer *Viewer) htmlEntityResolve(w http.ResponseWriter, r *http.Request)
 	canon := viewer.Cache.Canonical(uri)
 
 	// redirect to the entity
-	target := "/entity/" + bundle + "?uri=" + url.PathEscape(string(canon))
+	target := "/entity/" + url.PathEscape(bundle) + "?uri=" + url.QueryEscape(string(canon))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
@@ -427,7 +427,7 @@ func (viewer *Viewer) sendToResolver(w http.ResponseWriter, r *http.Request) {
 		return
 	}
 
-	target := "/wisski/get?uri=" + url.PathEscape(string(uri))
+	target := "/wisski/get?uri=" + url.QueryEscape(string(uri))
 	http.Redirect(w, r, target, http.StatusTemporaryRedirect)
 }
 
-- 
2.43.0


From 0c88db4c5e130f30e92165c22fd00405b8b97dec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:45 +0000
Subject: [PATCH 18/45] fix: write triples with empty literals

---
 internal/triplestore/igraph/triple.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7e12560..7ae9bea 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -109,7 +109,7 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		return rdf.Triple{}, err
 	}
 
-	if triple.Datum == "" {
+	if triple.Role != Data {
 		var object string
 		if !canonical {
 			object = string(triple.Object)
-- 
2.43.0


From f70dcc0345b6f1a256930f73da7a7ccef1dd7aa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:47 +0000
Subject: [PATCH 19/45] fix: do not crash when exporting an index

---
 cmd/hangover/hangover.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/hangover/hangover.go b/cmd/hangover/hangover.go
index 97fbc93..94aa991 100644
--- a/cmd/hangover/hangover.go
+++ b/cmd/hangover/hangover.go
@@ -54,7 +54,7 @@ func main() {
 		handler.Stats.Log("listen", "addr", addr)
 	}
 
-	if !benchMode {
+	if listener != nil {
 		go func() {
 			defer close(done)
 			http.Serve(listener, handler)
-- 
2.43.0


From f94fa0b5a6d76d0d1aff9ff84e2ba4451310e99e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:50 +0000
Subject: [PATCH 20/45] fix: exit when several export formats are given

---
 cmd/n2j/n2j.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index fc10cc5..13cdf21 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -21,7 +21,7 @@ import (
 
 // cspell:words nquads pathbuilder
 
-var errBothSqliteAndMysql = errors.New("both -sqlite and -mysql were given")
+var errBothSqliteAndMysql = errors.New("only one of -sqlite, -mysql and -csv may be given")
 
 func main() {
 	// create a new status
@@ -44,7 +44,7 @@ func main() {
 
 	if selected > 1 {
 		st.Log("Usage: n2j [-help] [...flags] /path/to/pathbuilder /path/to/nquads")
-		st.LogError("parse arguments", errBothSqliteAndMysql)
+		st.LogFatal("parse arguments", errBothSqliteAndMysql)
 	}
 
 	// find the paths
-- 
2.43.0


From 717e53afc826602b57cc3d637d7cffb1ee908bef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:52 +0000
Subject: [PATCH 21/45] fix: export to mysql when requested

---
 cmd/n2j/n2j.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index 13cdf21..6dad370 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -121,7 +121,7 @@ func init() {
 	flag.StringVar(&cache, "cache", cache, "During indexing, cache data in the given directory as opposed to memory")
 	flag.StringVar(&sqlite, "sqlite", sqlite, "Export an sqlite database to the given path")
 	flag.StringVar(&csvPath, "csv", csvPath, "Export CSV files at the given path")
-	flag.StringVar(&sqlite, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
+	flag.StringVar(&mysql, "mysql", mysql, "Export a mysql database. Use a connection string of the form `username:password@host/database`")
 
 	flag.StringVar(&sqlSeperator, "sql-seperator", sqlSeperator, "Use seperator on multi-valued fields")
 	flag.BoolVar(&sqlFieldTables, "sql-field-tables", sqlFieldTables, "Store values for fields in seperate tables")
-- 
2.43.0


From 8858e9313c1fc52943b7fb32af575c1f2900ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:55 +0000
Subject: [PATCH 22/45] fix: report errors when writing json and csv

---
 cmd/n2j/json.go   |  2 +-
 cmd/n2j/sqlite.go | 14 ++++++++++----
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/cmd/n2j/json.go b/cmd/n2j/json.go
index 0788e62..b3300d5 100644
--- a/cmd/n2j/json.go
+++ b/cmd/n2j/json.go
@@ -25,7 +25,7 @@ func doJSON(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.B
 		st.LogFatal("extract bundles", err)
 	}
 
-	st.DoStage(stats.StageExportJSON, func() error {
+	err = st.DoStage(stats.StageExportJSON, func() error {
 		return json.NewEncoder(os.Stdout).Encode(bundles)
 	})
 	if err != nil {
diff --git a/cmd/n2j/sqlite.go b/cmd/n2j/sqlite.go
index 1461b9f..612640c 100644
--- a/cmd/n2j/sqlite.go
+++ b/cmd/n2j/sqlite.go
@@ -89,17 +89,20 @@ func doCSV(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.Bu
 
 }
 
-func doCSVTable(db *sql.DB, table string, path string) error {
+func doCSVTable(db *sql.DB, table string, path string) (err error) {
 	// open a csv file matching the name
 	file, err := os.Create(filepath.Join(path, table+".csv"))
 	if err != nil {
 		return err
 	}
-	defer file.Close()
+	defer func() {
+		if cErr := file.Close(); err == nil {
+			err = cErr
+		}
+	}()
 
 	// create a writer
 	writer := csv.NewWriter(file)
-	defer writer.Flush()
 
 	// query everything in the table
 	rows, err := db.Query("SELECT * FROM " + table)
@@ -147,5 +150,8 @@ func doCSVTable(db *sql.DB, table string, path string) error {
 	if err := rows.Err(); err != nil {
 		return err
 	}
-	return nil
+
+	// write out everything
+	writer.Flush()
+	return writer.Error()
 }
-- 
2.43.0


From 50d69e8058e56c3e2a0bcc690542efaa938c491c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:46:58 +0000
Subject: [PATCH 23/45] fix: replace field tables when exporting again

---
 internal/sparkl/exporter/sql.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index fe545a8..65e6c7b 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -159,6 +159,11 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 
 // CreateFieldTable creates a table for the given field
 func (sql *SQL) CreateFieldTable(bundle *pathbuilder.Bundle, field pathbuilder.Field) error {
+	// drop the table if it already exists
+	if err := sql.exec("DROP TABLE IF EXISTS "+sql.FieldTable(bundle, field)+";", nil); err != nil {
+		return err
+	}
+
 	table := sqlbuilder.CreateTable(sql.FieldTable(bundle, field)).IfNotExists()
 	table.Define(uriColumn, "TEXT")
 	table.Define(valueColumn, "TEXT")
-- 
2.43.0


From beb05e2f40e675b29ea0647ffc691cc53fac58ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:02 +0000
Subject: [PATCH 24/45] fix: use a distinct directory inside the cache for
 every bundle

---
 internal/sparkl/storages/disk.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/internal/sparkl/storages/disk.go b/internal/sparkl/storages/disk.go
index d0f5f15..4538b9f 100644
--- a/internal/sparkl/storages/disk.go
+++ b/internal/sparkl/storages/disk.go
@@ -1,6 +1,7 @@
 package storages
 
 import (
+	"net/url"
 	"os"
 	"path/filepath"
 	"sync"
@@ -20,7 +21,8 @@ type DiskEngine struct {
 }
 
 func (de DiskEngine) NewStorage(bundle *pathbuilder.Bundle) (BundleStorage, error) {
-	path := filepath.Join(de.Path, bundle.Path.Bundle)
+	// the machine name is unique, but it might not be a valid file name
+	path := filepath.Join(de.Path, "bundle_"+url.PathEscape(bundle.MachineName()))
 
 	if _, err := os.Stat(path); err == nil {
 		if err := os.RemoveAll(path); err != nil {
-- 
2.43.0


From d3abd48eb635c7da99c1a4244b54adae799fb9b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:05 +0000
Subject: [PATCH 25/45] fix: find sources in directories with special
 characters in their name

---
 load.go | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/load.go b/load.go
index 190ecfe..b7fba25 100644
--- a/load.go
+++ b/load.go
@@ -5,6 +5,7 @@ import (
 	"fmt"
 	"os"
 	"path/filepath"
+	"strings"
 )
 
 // cspell:words nqauds
@@ -40,7 +41,7 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 
 		base := argv[0]
 
-		xmls, err := filepath.Glob(filepath.Join(base, "*.xml"))
+		xmls, err := findExtension(base, ".xml")
 		if err != nil {
 			return "", "", "", err
 		}
@@ -49,12 +50,12 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 		}
 		xml = xmls[0]
 
-		nqs, err := filepath.Glob(filepath.Join(base, "*.nq"))
+		nqs, err := findExtension(base, ".nq")
 		if err != nil {
 			return "", "", "", err
 		}
 		if len(nqs) != 1 {
-			return "", "", "", fmt.Errorf("need exactly one '*.xml' in %q, but got %d", base, len(nqs))
+			return "", "", "", fmt.Errorf("need exactly one '*.nq' in %q, but got %d", base, len(nqs))
 		}
 		nq = nqs[0]
 	}
@@ -73,6 +74,20 @@ func FindSource(allowIndex bool, argv ...string) (nq, xml, index string, err err
 	return nq, xml, "", nil
 }
 
+// findExtension finds all entries with the given extension in a directory
+func findExtension(base, ext string) (paths []string, err error) {
+	entries, err := os.ReadDir(base)
+	if err != nil {
+		return nil, err
+	}
+	for _, entry := range entries {
+		if strings.HasSuffix(entry.Name(), ext) {
+			paths = append(paths, filepath.Join(base, entry.Name()))
+		}
+	}
+	return paths, nil
+}
+
 func isDirectory(path string) (ok bool, err error) {
 	stats, err := os.Stat(path)
 	if err != nil {
-- 
2.43.0


From 30801ca8c58773667c44ebef9012fa6b8260d542 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:13 +0000
Subject: [PATCH 26/45] fix: abort running queries before closing an index

Iterators are closed asynchronously, so queries of an extraction that failed
could still use the storages of the index while they were being closed.
---
 internal/triplestore/igraph/index.go   |  7 ++-
 internal/triplestore/igraph/paths.go   |  8 +--
 internal/triplestore/igraph/queries.go | 86 ++++++++++++++++++++++++++
 3 files changed, 96 insertions(+), 5 deletions(-)
 create mode 100644 internal/triplestore/igraph/queries.go

diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index 8ac100a..f42008e 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -36,6 +36,7 @@ type Index struct {
 	pMask     map[impl.ID]struct{}                 // mask for predicates
 	dMask     map[impl.ID]struct{}                 // mask for data
 	labels    imap.IMap
+	queries   queries // running queries
 	stats     Stats
 	finalized atomic.Bool
 	triple    impl.ID // id for a given triple
@@ -163,6 +164,7 @@ func (index *Index) Reset(engine Engine) (err error) {
 
 	index.triple.Reset()
 	index.finalized.Store(false)
+	index.queries.reset()
 
 	// reset mask and triples
 	index.pMask = nil
@@ -601,8 +603,11 @@ func (index *Index) Finalize() error {
 	return errors.Join(errs[:]...)
 }
 
-// Close closes any storages attached to this storage
+// Close closes any storages attached to this storage.
+// Queries that are still running are aborted.
 func (index *Index) Close() error {
+	index.queries.stop()
+
 	var errors [7]error
 	errors[0] = index.labels.Close()
 
diff --git a/internal/triplestore/igraph/paths.go b/internal/triplestore/igraph/paths.go
index 2b9cd16..3cc936a 100644
--- a/internal/triplestore/igraph/paths.go
+++ b/internal/triplestore/igraph/paths.go
@@ -61,7 +61,7 @@ func (index *Index) PathsStarting(predicate, object impl.Label) (*Paths, error)
 func (index *Index) newQuery(source func(sender traversal.Generator[element])) (q *Paths) {
 	q = &Paths{
 		index:    index,
-		elements: traversal.New(source),
+		elements: newIterator(&index.queries, source),
 		size:     invalidSize,
 	}
 	return q
@@ -82,7 +82,7 @@ var errAborted = errors.New("paths: aborted")
 
 // expand expands the nodes in this query by adding a link to each element found in the index
 func (set *Paths) expand(p impl.ID) error {
-	set.elements = traversal.Connect(set.elements, func(subject element, sender traversal.Generator[element]) (ok bool) {
+	set.elements = connect(&set.index.queries, set.elements, func(subject element, sender traversal.Generator[element]) (ok bool) {
 		err := set.index.psoIndex.Fetch(p, subject.Node, func(object impl.ID, l impl.ID) error {
 			if !sender.Yield(element{
 				Node:    object,
@@ -120,7 +120,7 @@ func (set *Paths) Ending(predicate, object impl.Label) error {
 
 // restrict restricts the set of nodes by those mapped in the index
 func (set *Paths) restrict(p, o impl.ID) error {
-	set.elements = traversal.Connect(set.elements, func(subject element, sender traversal.Generator[element]) bool {
+	set.elements = connect(&set.index.queries, set.elements, func(subject element, sender traversal.Generator[element]) bool {
 		tid, has, err := set.index.posIndex.Has(p, o, subject.Node)
 		if err != nil {
 			return sender.YieldError(err)
@@ -157,7 +157,7 @@ func (set *Paths) Size() (int, error) {
 // Paths returns an iterator over paths contained in this Paths.
 // It may only be called once, afterwards further calls may be invalid.
 func (set *Paths) Paths() traversal.Iterator[Path] {
-	return traversal.New(func(generator traversal.Generator[Path]) {
+	return newIterator(&set.index.queries, func(generator traversal.Generator[Path]) {
 		defer generator.Return()
 		defer set.elements.Close()
 
diff --git a/internal/triplestore/igraph/queries.go b/internal/triplestore/igraph/queries.go
new file mode 100644
index 0000000..564cc58
--- /dev/null
+++ b/internal/triplestore/igraph/queries.go
@@ -0,0 +1,86 @@
+package igraph
+
+import (
+	"errors"
+	"sync"
+
+	"github.com/tkw1536/pkglib/traversal"
+)
+
+var errClosed = errors.New("IGraph: Closed")
+
+// queries keeps track of the iterators using an index.
+// The zero value is ready to be used.
+type queries struct {
+	m       sync.Mutex
+	closed  bool
+	next    int
+	running map[int]func() error // closes running iterators
+	wg      sync.WaitGroup       // waiting for running iterators
+}
+
+// stop closes all iterators that are still running, and waits for them to no longer use the index.
+// Iterators created afterwards only return an error.
+func (qs *queries) stop() {
+	qs.m.Lock()
+	qs.closed = true
+	for _, stop := range qs.running {
+		stop()
+	}
+	qs.m.Unlock()
+
+	qs.wg.Wait()
+}
+
+// reset allows new iterators to be created
+func (qs *queries) reset() {
+	qs.m.Lock()
+	defer qs.m.Unlock()
+
+	qs.closed = false
+}
+
+// newIterator is like [traversal.New], but the iterator is ended by a call to stop.
+func newIterator[T any](qs *queries, source func(sender traversal.Generator[T])) traversal.Iterator[T] {
+	qs.m.Lock()
+	defer qs.m.Unlock()
+
+	if qs.closed {
+		return traversal.Empty[T](errClosed)
+	}
+
+	id := qs.next
+	qs.next++
+
+	qs.wg.Add(1)
+	it := traversal.New(func(sender traversal.Generator[T]) {
+		defer func() {
+			qs.m.Lock()
+			delete(qs.running, id)
+			qs.m.Unlock()
+
+			qs.wg.Done()
+		}()
+		source(sender)
+	})
+
+	if qs.running == nil {
+		qs.running = make(map[int]func() error)
+	}
+	qs.running[id] = it.Close
+	return it
+}
+
+// connect is like [traversal.Connect], but the iterator is ended by a call to stop.
+func connect[S, T any](qs *queries, source traversal.Iterator[S], f func(element S, sender traversal.Generator[T]) (ok bool)) traversal.Iterator[T] {
+	return newIterator(qs, func(sender traversal.Generator[T]) {
+		defer source.Close()
+
+		for source.Next() {
+			if !f(source.Datum(), sender) {
+				break
+			}
+		}
+		sender.YieldError(source.Err())
+	})
+}
-- 
2.43.0


From cb14b98dcec57a8ea2c2c469e0889d9df605f7d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:28 +0000
Subject: [PATCH 27/45] fix: exporting an index always failed

The flags of the viewer held a reference to the stats, which gob refuses to encode.
---
 internal/viewer/fallback.go | 2 +-
 internal/viewer/html.go     | 2 +-
 internal/viewer/viewer.go   | 6 +-----
 3 files changed, 3 insertions(+), 7 deletions(-)

diff --git a/internal/viewer/fallback.go b/internal/viewer/fallback.go
index 86ce67f..6bdb854 100644
--- a/internal/viewer/fallback.go
+++ b/internal/viewer/fallback.go
@@ -40,7 +40,7 @@ func (viewer *Viewer) htmlFallback(w http.ResponseWriter, r *http.Request) (sent
 		Progress: progress,
 	})
 	if err != nil {
-		viewer.RenderFlags.Stats.LogError("render fallback", err)
+		viewer.Stats.LogError("render fallback", err)
 	}
 
 	return true
diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index a87370c..e81b4f2 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -471,6 +471,6 @@ func (viewer *Viewer) htmlEntity(w http.ResponseWriter, r *http.Request) {
 	w.WriteHeader(http.StatusOK)
 	err := entityTemplate.Execute(w, context)
 	if err != nil {
-		viewer.RenderFlags.Stats.LogError("render entity", err)
+		viewer.Stats.LogError("render entity", err)
 	}
 }
diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index d95647f..4888136 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -57,9 +57,6 @@ type RenderFlags struct {
 	StrictCSP   bool // use strict content-security-policy for images and media by only allowing content from public uris
 	HTMLRender  bool
 	ImageRender bool
-
-	// Stats holds the status to use for logging
-	Stats *stats.Stats
 }
 
 func (rf RenderFlags) PublicURIS() (public []string) {
@@ -67,8 +64,7 @@ func (rf RenderFlags) PublicURIS() (public []string) {
 	for _, raw := range text.Splitter(",\n")(rf.PublicURL) {
 		url, err := url.Parse(strings.TrimSpace(raw))
 		if err != nil {
-			rf.Stats.LogError("parse url", err)
-			continue
+			continue // ignore invalid urls
 		}
 
 		url.Scheme = "http"
-- 
2.43.0


From 10360c7462f65a0b26a9e0af1c624ed3b26957b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:58:39 +0000
Subject: [PATCH 28/45] fix: report short keys and values of a disk index
 instead of crashing

---
 internal/triplestore/igraph/engine_disk.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/internal/triplestore/igraph/engine_disk.go b/internal/triplestore/igraph/engine_disk.go
index fb5631a..60ad0aa 100644
--- a/internal/triplestore/igraph/engine_disk.go
+++ b/internal/triplestore/igraph/engine_disk.go
@@ -130,7 +130,11 @@ func (tlm *ThreeDiskHash) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new
 	value, err := tlm.DB.Get(key, nil)
 	switch err {
 	case nil:
-		l, err = conflict(impl.DecodeID(value, 0), l)
+		var old impl.ID
+		if err := impl.UnmarshalID(&old, value); err != nil {
+			return false, err
+		}
+		l, err = conflict(old, l)
 		if err != nil {
 			return false, err
 		}
@@ -170,8 +174,13 @@ func (tlm *ThreeDiskHash) Fetch(a, b impl.ID, f func(c impl.ID, l impl.ID) error
 	defer iterator.Release()
 
 	for iterator.Next() {
-		c := impl.DecodeID(iterator.Key(), 2)
-		l := impl.DecodeID(iterator.Value(), 0)
+		var prefix, c, l impl.ID
+		if err := impl.UnmarshalIDs(iterator.Key(), &prefix, &prefix, &c); err != nil {
+			return err
+		}
+		if err := impl.UnmarshalID(&l, iterator.Value()); err != nil {
+			return err
+		}
 		if err := f(c, l); err != nil {
 			return err
 		}
-- 
2.43.0


From a821df4d401a625a65399c450e109ca8f16bbb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:31 +0000
Subject: [PATCH 29/45] fix: report an error instead of crashing when nil is
 encoded

---
 pkg/sgob/sgob.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/pkg/sgob/sgob.go b/pkg/sgob/sgob.go
index a39174a..f15e1b1 100644
--- a/pkg/sgob/sgob.go
+++ b/pkg/sgob/sgob.go
@@ -28,8 +28,15 @@ func Decode(decoder *gob.Decoder, obj any) error {
 	return DecodeValue(decoder, reflect.ValueOf(obj))
 }
 
+var errNilValue = errors.New("gobs: attempt to encode nil")
+
 // EncodeValue is like Encode, but takes a reflect.Value.
 func EncodeValue(encoder *gob.Encoder, value reflect.Value) error {
+	// gob panics when given one of these
+	if !value.IsValid() || value.Kind() == reflect.Pointer && value.IsNil() {
+		return errNilValue
+	}
+
 	switch value.Type().Kind() {
 	case reflect.Map:
 		return encodeMap(encoder, value)
-- 
2.43.0


From 6e0c22ca4f64d1b457dbdf7ff5449fff9846b1a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:29 +0000
Subject: [PATCH 30/45] fix: report invalid pathbuilders as an error instead of
 crashing

---
 cmd/n2j/n2j.go                 |  3 +--
 internal/glass/glass.go        |  4 ++--
 internal/wisski/pathbuilder.go | 30 ++++++++++++++++++++++++++++++
 3 files changed, 33 insertions(+), 4 deletions(-)
 create mode 100644 internal/wisski/pathbuilder.go

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index 6dad370..93dda84 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -9,7 +9,6 @@ import (
 	"os"
 
 	"github.com/FAU-CDI/drincw/pathbuilder"
-	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
 	"github.com/FAU-CDI/hangover"
 	"github.com/FAU-CDI/hangover/internal/sparkl"
 	"github.com/FAU-CDI/hangover/internal/sparkl/storages"
@@ -57,7 +56,7 @@ func main() {
 	// read the pathbuilder
 	var pb pathbuilder.Pathbuilder
 	err = st.DoStage(stats.StageReadPathbuilder, func() (err error) {
-		pb, err = pbxml.Load(pbp)
+		pb, err = wisski.LoadPathbuilder(pbp)
 		return
 	})
 	if err != nil {
diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index 83f1faa..a2fd740 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -82,7 +82,7 @@ func (glass *Glass) DecodeFrom(decoder *gob.Decoder) (err error) {
 	}
 
 	// decode the xml again
-	glass.Pathbuilder, err = pbxml.Unmarshal(xml)
+	glass.Pathbuilder, err = wisski.UnmarshalPathbuilder(xml)
 	if err != nil {
 		return err
 	}
@@ -96,7 +96,7 @@ func (glass *Glass) DecodeFrom(decoder *gob.Decoder) (err error) {
 func Create(pathbuilderPath string, nquadsPath string, cacheDir string, flags viewer.RenderFlags, st *stats.Stats) (drincw Glass, err error) {
 	// read the pathbuilder
 	if err := st.DoStage(stats.StageReadPathbuilder, func() (err error) {
-		drincw.Pathbuilder, err = pbxml.Load(pathbuilderPath)
+		drincw.Pathbuilder, err = wisski.LoadPathbuilder(pathbuilderPath)
 		return err
 	}); err != nil {
 		return drincw, err
diff --git a/internal/wisski/pathbuilder.go b/internal/wisski/pathbuilder.go
new file mode 100644
index 0000000..747fe40
--- /dev/null
+++ b/internal/wisski/pathbuilder.go
@@ -0,0 +1,30 @@
+package wisski
+
+import (
+	"fmt"
+
+	"github.com/FAU-CDI/drincw/pathbuilder"
+	"github.com/FAU-CDI/drincw/pathbuilder/pbxml"
+)
+
+// cspell:words pbxml
+
+// LoadPathbuilder loads a pathbuilder in xml format from the given source.
+func LoadPathbuilder(src string) (pb pathbuilder.Pathbuilder, err error) {
+	defer recoverInvalid(&err)
+	return pbxml.Load(src)
+}
+
+// UnmarshalPathbuilder loads a pathbuilder from xml data.
+func UnmarshalPathbuilder(data []byte) (pb pathbuilder.Pathbuilder, err error) {
+	defer recoverInvalid(&err)
+	return pbxml.Unmarshal(data)
+}
+
+// recoverInvalid turns a panic into an error.
+// The pbxml package panics when given some invalid pathbuilders, for example one containing a group without an id.
+func recoverInvalid(err *error) {
+	if r := recover(); r != nil {
+		*err = fmt.Errorf("invalid pathbuilder: %v", r)
+	}
+}
-- 
2.43.0


From 4be73c6b8c799b9de963de1ab1d9508cd10e1755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:26:22 +0000
Subject: [PATCH 31/45] fix: refuse exports with data following the content,
 also when it looks like an empty message

---
 internal/glass/glass.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/internal/glass/glass.go b/internal/glass/glass.go
index a2fd740..409ee54 100644
--- a/internal/glass/glass.go
+++ b/internal/glass/glass.go
@@ -2,12 +2,12 @@
 package glass
 
 import (
+	"bufio"
 	"compress/gzip"
 	"encoding/gob"
 	"errors"
 	"io"
 	"os"
-	"reflect"
 	"runtime/debug"
 
 	"github.com/FAU-CDI/drincw/pathbuilder"
@@ -225,11 +225,11 @@ func Import(path string, st *stats.Stats) (drincw Glass, err error) {
 			Reader:     reader,
 			Rewritable: *st.Rewritable(),
 		}
-		decoder := gob.NewDecoder(counter)
-		err = drincw.DecodeFrom(decoder)
+		buffer := bufio.NewReader(counter) // shared with the decoder
+		err = drincw.DecodeFrom(gob.NewDecoder(buffer))
 		if err == nil {
 			// there may not be any further data, and the checksum has to match
-			if eErr := decoder.DecodeValue(reflect.Value{}); eErr == nil {
+			if _, eErr := buffer.ReadByte(); eErr == nil {
 				err = errTrailingData
 			} else if eErr != io.EOF {
 				err = eErr
-- 
2.43.0


From 13b5410fa33fadd002c5fe65907de599d7cfc8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:15 +0000
Subject: [PATCH 32/45] fix: resolve uris that end with unicode spaces

---
 internal/viewer/html.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index e81b4f2..da5a7cd 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -392,9 +392,14 @@ func (viewer *Viewer) htmlEntityResolve(w http.ResponseWriter, r *http.Request)
 	}
 
 	vars := mux.Vars(r)
-	uri := impl.Label(strings.TrimSpace(vars["uri"]))
+	uri := impl.Label(vars["uri"])
 
 	bundle, ok := viewer.Cache.Bundle(uri)
+	if !ok {
+		// maybe there are spaces around the uri that do not belong to it
+		uri = impl.Label(strings.TrimSpace(vars["uri"]))
+		bundle, ok = viewer.Cache.Bundle(uri)
+	}
 	if !ok {
 		http.NotFound(w, r)
 		return
-- 
2.43.0


From 5931ca136f5f4d7bd2619ebdd6b936dd7421d008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:30 +0000
Subject: [PATCH 33/45] fix: write turtle that is well-formed for every iri

---
 internal/wisski/entity.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/internal/wisski/entity.go b/internal/wisski/entity.go
index 905bef5..db6c4c2 100644
--- a/internal/wisski/entity.go
+++ b/internal/wisski/entity.go
@@ -23,6 +23,7 @@ type Entity struct {
 // WriteTo writes triples representing this entity into w.
 func (entity Entity) WriteAllTriples(w io.Writer, canonical bool, f rdf.Format) error {
 	writer := rdf.NewTripleEncoder(w, f)
+	writer.GenerateNamespaces = false // prefixed names are not escaped by the encoder
 	defer writer.Close()
 
 	for _, triple := range entity.AllTriples() {
-- 
2.43.0


From 051991e974cd59942609ea75e12df85282494dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:52:30 +0000
Subject: [PATCH 34/45] fix: write triples with language tags that have several
 subtags

---
 internal/triplestore/igraph/triple.go | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/internal/triplestore/igraph/triple.go b/internal/triplestore/igraph/triple.go
index 7ae9bea..5c3ad4e 100644
--- a/internal/triplestore/igraph/triple.go
+++ b/internal/triplestore/igraph/triple.go
@@ -3,6 +3,7 @@ package igraph
 import (
 	"errors"
 	"fmt"
+	"strings"
 
 	"github.com/FAU-CDI/hangover/internal/triplestore/imap"
 	"github.com/FAU-CDI/hangover/internal/triplestore/impl"
@@ -126,7 +127,7 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 		var err error
 
 		if triple.Language != "" {
-			spo.Obj, err = rdf.NewLangLiteral(string(triple.Datum), string(triple.Language))
+			spo.Obj, err = newLangLiteral(string(triple.Datum), string(triple.Language))
 		} else {
 			spo.Obj, err = rdf.NewLiteral(string(triple.Datum))
 		}
@@ -138,6 +139,30 @@ func (triple Triple) Triple(canonical bool) (spo rdf.Triple, err error) {
 	return
 }
 
+// newLangLiteral is like [rdf.NewLangLiteral], but also accepts language tags with several subtags.
+func newLangLiteral(value, lang string) (rdf.Literal, error) {
+	literal, err := rdf.NewLangLiteral(value, lang)
+	if err == nil {
+		return literal, nil
+	}
+
+	// only the decoder can make such a literal
+	simple, e := rdf.NewLangLiteral(value, "x")
+	if e != nil {
+		return rdf.Literal{}, err
+	}
+	text := strings.TrimSuffix(simple.Serialize(rdf.NTriples), "x") + lang
+	spo, e := rdf.NewTripleDecoder(strings.NewReader("<x:x> <x:x> "+text+" .\n"), rdf.NTriples).Decode()
+	if e != nil {
+		return rdf.Literal{}, err
+	}
+	literal, ok := spo.Obj.(rdf.Literal)
+	if !ok || literal.String() != value || literal.Lang() != lang {
+		return rdf.Literal{}, err
+	}
+	return literal, nil
+}
+
 // Compare compares this triple to another triple based on it's id
 func (triple Triple) Compare(other Triple) int {
 	return triple.ID.Compare(other.ID)
-- 
2.43.0


From d0baea3a0177bb462f851bb3b58c1cd743923c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:49 +0000
Subject: [PATCH 35/45] fix: do not treat empty entries of the list of public
 urls as urls

An empty entry made of spaces became the sources 'http:' and 'https:', which allow everything with a strict content security policy.
---
 internal/viewer/viewer.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index 4888136..7dce7eb 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -62,7 +62,12 @@ type RenderFlags struct {
 func (rf RenderFlags) PublicURIS() (public []string) {
 	// add all the public urls
 	for _, raw := range text.Splitter(",\n")(rf.PublicURL) {
-		url, err := url.Parse(strings.TrimSpace(raw))
+		raw = strings.TrimSpace(raw)
+		if raw == "" {
+			continue // nothing between two separators
+		}
+
+		url, err := url.Parse(raw)
 		if err != nil {
 			continue // ignore invalid urls
 		}
-- 
2.43.0


From da99039f63ed8a276477ad0d90ce21502d52524f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 36/45] fix: only treat urls below the wisski path as urls of
 the public site

A url like https://example.org/wisskifoo was turned into a local link.
---
 internal/viewer/html.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/viewer/html.go b/internal/viewer/html.go
index da5a7cd..758e42d 100644
--- a/internal/viewer/html.go
+++ b/internal/viewer/html.go
@@ -117,7 +117,8 @@ type contextGlobal struct {
 
 func (cg contextGlobal) ReplaceURL(u string) string {
 	for _, prefix := range cg.InterceptedPrefixes {
-		if strings.HasPrefix(u, prefix) {
+		rest, ok := strings.CutPrefix(u, prefix)
+		if ok && (rest == "" || strings.ContainsRune("/?#", rune(rest[0]))) {
 			url, err := url.Parse(u)
 			if err != nil {
 				continue
-- 
2.43.0


From 448bbdb1530a8b18b1b90f9ffd42cc09638b0034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:39 +0000
Subject: [PATCH 37/45] fix: keep html that is rendered inside of its place

Html was parsed as a complete document, which lost white space and could change attributes of the page itself.
Errors were ignored, which cut off the value, and elements that can not be closed consumed the rest of the page.
---
 pkg/htmlx/htmlx.go | 47 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 43 insertions(+), 4 deletions(-)

diff --git a/pkg/htmlx/htmlx.go b/pkg/htmlx/htmlx.go
index d3bf36f..8b3c8db 100644
--- a/pkg/htmlx/htmlx.go
+++ b/pkg/htmlx/htmlx.go
@@ -5,21 +5,24 @@ import (
 	"strings"
 
 	"golang.org/x/net/html"
+	"golang.org/x/net/html/atom"
 )
 
 // cspell:words htmlx twiesing
 
 // ReplaceLinks parses source as a html fragment, and then replaces all paths
 // inside <a> and <img> elements with the replace function.
+//
+// Source that can not be written as html without affecting what is around it is returned as escaped text.
 func ReplaceLinks(source string, replace func(string) string) string {
 	// NOTE(twiesing): we should better define what exactly this means
 	// and parse all sorts of other elements
 	var builder strings.Builder
 	builder.Grow(len(source))
 
-	nodes, err := html.ParseFragment(strings.NewReader(source), nil)
+	nodes, err := html.ParseFragment(strings.NewReader(source), &html.Node{Type: html.ElementNode, Data: "div", DataAtom: atom.Div})
 	if err != nil {
-		panic(err)
+		return html.EscapeString(source)
 	}
 
 	for _, node := range nodes {
@@ -32,9 +35,45 @@ func ReplaceLinks(source string, replace func(string) string) string {
 				replaceAttr(node.Attr, "src", replace)
 			}
 		})
-		html.Render(&builder, node)
+		if err := html.Render(&builder, node); err != nil {
+			return html.EscapeString(source)
+		}
+	}
+
+	result := builder.String()
+	if !isContained(result) {
+		return html.EscapeString(source)
+	}
+	return result
+}
+
+// isContained checks that source, when placed inside of an element of a page, leaves everything around it as it is.
+// This is not the case when source contains e.g. a <plaintext> element.
+func isContained(source string) bool {
+	document, err := html.Parse(strings.NewReader("<!DOCTYPE html><head></head><body><table><tbody><tr><td>" + source + "</td><td></td></tr></tbody></table></body>"))
+	if err != nil {
+		return false
+	}
+
+	// each of the elements around source must have no attributes and exactly the expected children
+	// the last cell is placed after source
+	node := document.LastChild
+	for _, children := range [][]atom.Atom{{atom.Head, atom.Body}, {atom.Table}, {atom.Tbody}, {atom.Tr}, {atom.Td, atom.Td}, {}} {
+		if len(node.Attr) > 0 {
+			return false
+		}
+		child := node.FirstChild
+		for _, want := range children {
+			if child == nil || child.DataAtom != want {
+				return false
+			}
+			node, child = child, child.NextSibling
+		}
+		if child != nil {
+			return false
+		}
 	}
-	return builder.String()
+	return true
 }
 
 func replaceAttr(attr []html.Attribute, key string, replace func(string) string) {
-- 
2.43.0


From d39b9d602e169270448005ae2a723362bfffcdc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:56 +0000
Subject: [PATCH 38/45] fix: quote names in sql exports, and refuse tables that
 would be shared

---
 cmd/n2j/sqlite.go               | 14 ++++++---
 internal/sparkl/exporter/sql.go | 55 ++++++++++++++++++++++++++++-----
 2 files changed, 56 insertions(+), 13 deletions(-)

diff --git a/cmd/n2j/sqlite.go b/cmd/n2j/sqlite.go
index 612640c..365a9ac 100644
--- a/cmd/n2j/sqlite.go
+++ b/cmd/n2j/sqlite.go
@@ -6,6 +6,7 @@ import (
 	"log"
 	"os"
 	"path/filepath"
+	"strings"
 
 	"github.com/FAU-CDI/drincw/pathbuilder"
 	"github.com/FAU-CDI/hangover/internal/sparkl"
@@ -89,9 +90,12 @@ func doCSV(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.Bu
 
 }
 
+// csvNames turns names of tables into names of files
+var csvNames = strings.NewReplacer("%", "%25", "/", "%2F", "\\", "%5C")
+
 func doCSVTable(db *sql.DB, table string, path string) (err error) {
 	// open a csv file matching the name
-	file, err := os.Create(filepath.Join(path, table+".csv"))
+	file, err := os.Create(filepath.Join(path, csvNames.Replace(table)+".csv"))
 	if err != nil {
 		return err
 	}
@@ -105,7 +109,7 @@ func doCSVTable(db *sql.DB, table string, path string) (err error) {
 	writer := csv.NewWriter(file)
 
 	// query everything in the table
-	rows, err := db.Query("SELECT * FROM " + table)
+	rows, err := db.Query("SELECT * FROM " + exporter.QuoteName(table))
 	if err != nil {
 		return err
 	}
@@ -134,14 +138,14 @@ func doCSVTable(db *sql.DB, table string, path string) (err error) {
 		}
 
 		// convert into strings
-		strings := make([]string, len(values))
+		record := make([]string, len(values))
 		for i, val := range values {
 			b := val.(*sql.RawBytes)
-			strings[i] = string(*b)
+			record[i] = string(*b)
 		}
 
 		// and write out
-		if err := writer.Write(strings); err != nil {
+		if err := writer.Write(record); err != nil {
 			return err
 		}
 	}
diff --git a/internal/sparkl/exporter/sql.go b/internal/sparkl/exporter/sql.go
index 65e6c7b..71fe888 100644
--- a/internal/sparkl/exporter/sql.go
+++ b/internal/sparkl/exporter/sql.go
@@ -26,7 +26,8 @@ type SQL struct {
 	MaxQueryVar     int    // Maximum number of query variables (overrides BatchSize)
 	dbLock          sync.Mutex
 	batchLock       sync.Mutex
-	MakeFieldTables bool // create tables for field values (if false, they get joined with "separator")
+	tables          map[string]string // owner of each table
+	MakeFieldTables bool              // create tables for field values (if false, they get joined with "separator")
 }
 
 // exec executes an sql query
@@ -57,9 +58,14 @@ func (sql *SQL) execInsert(table string, columns []string, values [][]any) error
 		chunkSize = sql.BatchSize
 	}
 
+	quoted := make([]string, len(columns))
+	for i, column := range columns {
+		quoted[i] = QuoteName(column)
+	}
+
 	for i := 0; i < len(values); i += chunkSize {
-		insert := sqlbuilder.InsertInto(table)
-		insert.Cols(columns...)
+		insert := sqlbuilder.InsertInto(QuoteName(table))
+		insert.Cols(quoted...)
 
 		// determine the true chunk size
 		chunkStart := i
@@ -111,6 +117,12 @@ const (
 	fieldTableInfix  = "__"
 )
 
+// QuoteName quotes the name of a table or column for use inside a query.
+// It works for both sqlite and mysql.
+func QuoteName(name string) string {
+	return "`" + strings.ReplaceAll(name, "`", "``") + "`"
+}
+
 func (*SQL) BundleTable(bundle *pathbuilder.Bundle) string {
 	return bundleTablePrefix + bundle.MachineName()
 }
@@ -123,6 +135,24 @@ func (*SQL) FieldColumn(field pathbuilder.Field) string {
 	return fieldColumnPrefix + field.MachineName()
 }
 
+// claim makes sure that the given table is only used by the given owner.
+// Databases may not distinguish upper and lower case in the names of tables.
+func (sql *SQL) claim(table string, owner string) error {
+	sql.dbLock.Lock()
+	defer sql.dbLock.Unlock()
+
+	if sql.tables == nil {
+		sql.tables = make(map[string]string)
+	}
+
+	table = strings.ToLower(table)
+	if other, ok := sql.tables[table]; ok && other != owner {
+		return fmt.Errorf("%w: %q", errTableNotUnique, table)
+	}
+	sql.tables[table] = owner
+	return nil
+}
+
 // createBundleTable creates a table for the given bundle
 func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 	// build all the child tables first!
@@ -132,20 +162,24 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 		}
 	}
 
+	if err := sql.claim(sql.BundleTable(bundle), bundle.MachineName()); err != nil {
+		return err
+	}
+
 	// drop the table if it already exists
-	if err := sql.exec("DROP TABLE IF EXISTS "+sql.BundleTable(bundle)+";", nil); err != nil {
+	if err := sql.exec("DROP TABLE IF EXISTS "+QuoteName(sql.BundleTable(bundle))+";", nil); err != nil {
 		return err
 	}
 
 	// create a table with fields for every field, and the child field
-	table := sqlbuilder.CreateTable(sql.BundleTable(bundle)).IfNotExists()
+	table := sqlbuilder.CreateTable(QuoteName(sql.BundleTable(bundle))).IfNotExists()
 	table.Define(uriColumn, "TEXT", "NOT NULL")
 	if !bundle.IsToplevel() {
 		table.Define(parentColumn, "TEXT")
 	}
 	for _, field := range bundle.ChildFields {
 		if !sql.MakeFieldTables {
-			table.Define(sql.FieldColumn(field))
+			table.Define(sqlbuilder.Escape(QuoteName(sql.FieldColumn(field))))
 		} else {
 			if err := sql.CreateFieldTable(bundle, field); err != nil {
 				return err
@@ -159,12 +193,16 @@ func (sql *SQL) createBundleTable(bundle *pathbuilder.Bundle) error {
 
 // CreateFieldTable creates a table for the given field
 func (sql *SQL) CreateFieldTable(bundle *pathbuilder.Bundle, field pathbuilder.Field) error {
+	if err := sql.claim(sql.FieldTable(bundle, field), bundle.MachineName()+"/"+field.MachineName()); err != nil {
+		return err
+	}
+
 	// drop the table if it already exists
-	if err := sql.exec("DROP TABLE IF EXISTS "+sql.FieldTable(bundle, field)+";", nil); err != nil {
+	if err := sql.exec("DROP TABLE IF EXISTS "+QuoteName(sql.FieldTable(bundle, field))+";", nil); err != nil {
 		return err
 	}
 
-	table := sqlbuilder.CreateTable(sql.FieldTable(bundle, field)).IfNotExists()
+	table := sqlbuilder.CreateTable(QuoteName(sql.FieldTable(bundle, field))).IfNotExists()
 	table.Define(uriColumn, "TEXT")
 	table.Define(valueColumn, "TEXT")
 	table.Define(langColumn, "TEXT")
@@ -245,6 +283,7 @@ func (sql *SQL) Close() error {
 var (
 	nullString               sql.NullString
 	errInsufficientQueryVars = errors.New("insufficient query variables")
+	errTableNotUnique        = errors.New("several bundles or fields need the same table")
 )
 
 // inserts performs inserts into the table for the provided bundle.
-- 
2.43.0


From da2f0841cf03f0b37d811eacbe6bfb130451fc99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:37 +0000
Subject: [PATCH 39/45] fix: refuse pathbuilders in which groups use the same
 id

---
 internal/wisski/pathbuilder.go | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/internal/wisski/pathbuilder.go b/internal/wisski/pathbuilder.go
index 747fe40..a4f03b3 100644
--- a/internal/wisski/pathbuilder.go
+++ b/internal/wisski/pathbuilder.go
@@ -1,6 +1,7 @@
 package wisski
 
 import (
+	"errors"
 	"fmt"
 
 	"github.com/FAU-CDI/drincw/pathbuilder"
@@ -12,13 +13,37 @@ import (
 // LoadPathbuilder loads a pathbuilder in xml format from the given source.
 func LoadPathbuilder(src string) (pb pathbuilder.Pathbuilder, err error) {
 	defer recoverInvalid(&err)
-	return pbxml.Load(src)
+	if pb, err = pbxml.Load(src); err != nil {
+		return pb, err
+	}
+	return pb, checkBundles(pb.Bundles(), nil)
 }
 
 // UnmarshalPathbuilder loads a pathbuilder from xml data.
 func UnmarshalPathbuilder(data []byte) (pb pathbuilder.Pathbuilder, err error) {
 	defer recoverInvalid(&err)
-	return pbxml.Unmarshal(data)
+	if pb, err = pbxml.Unmarshal(data); err != nil {
+		return pb, err
+	}
+	return pb, checkBundles(pb.Bundles(), nil)
+}
+
+var errBundleTwice = errors.New("invalid pathbuilder: several groups use the same id")
+
+// checkBundles checks that each bundle is contained only in its parent, and only once.
+// This is not the case when several groups use the same id.
+func checkBundles(bundles []*pathbuilder.Bundle, parent *pathbuilder.Bundle) error {
+	seen := make(map[*pathbuilder.Bundle]struct{}, len(bundles))
+	for _, bundle := range bundles {
+		if _, ok := seen[bundle]; ok || bundle.Parent != parent {
+			return fmt.Errorf("%w: %q", errBundleTwice, bundle.MachineName())
+		}
+		seen[bundle] = struct{}{}
+		if err := checkBundles(bundle.ChildBundles, bundle); err != nil {
+			return err
+		}
+	}
+	return nil
 }
 
 // recoverInvalid turns a panic into an error.
-- 
2.43.0


From f948955ba96bd3d8325390668fd48d11f8fa55fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:26 +0000
Subject: [PATCH 40/45] fix: report paths that are shorter than the path of
 their bundle instead of crashing

---
 internal/sparkl/context.go | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/internal/sparkl/context.go b/internal/sparkl/context.go
index cf30a58..d1f4a5e 100644
--- a/internal/sparkl/context.go
+++ b/internal/sparkl/context.go
@@ -2,6 +2,7 @@ package sparkl
 
 import (
 	"errors"
+	"fmt"
 	"io"
 	"sync"
 	"sync/atomic"
@@ -132,6 +133,16 @@ func (context *Context) reportError(err error) bool {
 	return true
 }
 
+var errPathTooShort = errors.New("path is shorter than the path of its bundle")
+
+// getEntityIndex gets the index of the entity within the paths of the given bundle
+func getEntityIndex(bundle *pathbuilder.Bundle) int {
+	if bundle.Parent == nil {
+		return 0
+	}
+	return len(bundle.Path.PathArray) / 2
+}
+
 // Store creates a new Storage for the given bundle and schedules entities to be loaded.
 // Once onFinish is finished
 // May only be called between calls [Open] and [Wait].
@@ -159,9 +170,10 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 
 		// determine the index of the URI within the paths describing this bundle
 		// this is the length of the parent path, or zero (if it does not exist).
-		var entityURIIndex int
+		entityURIIndex := getEntityIndex(bundle)
+		parentURIIndex := -1
 		if bundle.Parent != nil {
-			entityURIIndex = len(bundle.Path.PathArray) / 2
+			parentURIIndex = getEntityIndex(bundle.Parent)
 		}
 
 		// stage 1: load the entities themselves
@@ -173,6 +185,9 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 				path := paths.Datum()
 				nodes := path.Nodes
 				triples := path.Triples
+				if entityURIIndex >= len(nodes) || parentURIIndex >= len(nodes) {
+					return fmt.Errorf("%w: %q", errPathTooShort, bundle.MachineName())
+				}
 				if err := storage.Add(nodes[entityURIIndex], nodes, triples); err != nil {
 					return err
 				}
@@ -195,6 +210,10 @@ func (context *Context) Store(bundle *pathbuilder.Bundle, onFinish func()) stora
 
 				for paths.Next() {
 					path := paths.Datum()
+					if entityURIIndex >= len(path.Nodes) {
+						context.reportError(fmt.Errorf("%w: %q", errPathTooShort, field.MachineName()))
+						return
+					}
 
 					err := storage.AddFieldValue(path.Nodes[entityURIIndex], field.MachineName(), path.Value(), path.Language, path.Nodes, path.Triples)
 					if err != storages.ErrNoEntity {
-- 
2.43.0


From 6a2b69dfb766972596abce4f09c2686e67cc9acb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:57 +0000
Subject: [PATCH 41/45] fix: use the path given to -sqlite as a path, and not
 as an sqlite uri

---
 cmd/n2j/n2j.go    |  2 +-
 cmd/n2j/sqlite.go | 19 +++++++++++++++++++
 2 files changed, 20 insertions(+), 1 deletion(-)

diff --git a/cmd/n2j/n2j.go b/cmd/n2j/n2j.go
index 93dda84..238e14a 100644
--- a/cmd/n2j/n2j.go
+++ b/cmd/n2j/n2j.go
@@ -87,7 +87,7 @@ func main() {
 	case mysql != "":
 		doSQL(&pb, index, bEngine, "mysql", mysql, false, st)
 	case sqlite != "":
-		doSQL(&pb, index, bEngine, "sqlite", sqlite, false, st)
+		doSQL(&pb, index, bEngine, "sqlite", sqliteAddr(sqlite), false, st)
 	case csvPath != "":
 		doCSV(&pb, index, bEngine, csvPath, st)
 	default:
diff --git a/cmd/n2j/sqlite.go b/cmd/n2j/sqlite.go
index 365a9ac..59c18c3 100644
--- a/cmd/n2j/sqlite.go
+++ b/cmd/n2j/sqlite.go
@@ -23,6 +23,25 @@ const (
 	sqlLiteBatchSize  = 1000
 )
 
+// sqliteEscape escapes characters that are special in sqlite uris
+var sqliteEscape = strings.NewReplacer("%", "%25", "?", "%3F", "#", "%23")
+
+// sqliteAddr returns the address of the sqlite database stored in the file with the given path.
+// The path itself can not be used as an address: everything after a '?' would not be a part of the path,
+// and names such as ':memory:' and 'file:name' would have a special meaning.
+func sqliteAddr(path string) string {
+	path = sqliteEscape.Replace(filepath.ToSlash(path))
+	switch {
+	case filepath.VolumeName(path) != "":
+		path = "///" + path
+	case strings.HasPrefix(path, "/"):
+		path = "//" + path
+	default:
+		path = "./" + path
+	}
+	return "file:" + path
+}
+
 func doSQL(pb *pathbuilder.Pathbuilder, index *igraph.Index, bEngine storages.BundleEngine, proto, addr string, skipClose bool, st *stats.Stats) (*sql.DB, error) {
 	var err error
 
-- 
2.43.0


From 1ef4c5661644ea416397d4b85106c1e71e054beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:50 +0000
Subject: [PATCH 42/45] fix: read the settings of the graphical frontend before
 serving

---
 internal/headache/ui_run.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/headache/ui_run.go b/internal/headache/ui_run.go
index 968d91f..eed8766 100644
--- a/internal/headache/ui_run.go
+++ b/internal/headache/ui_run.go
@@ -67,6 +67,10 @@ func (h *Headache) setupRunWindow() {
 
 // runViewer
 func (h *Headache) runViewer(listener net.Listener, ctx context.Context, cancel context.CancelFunc) {
+	// read the settings before anything is served, as the first request sets up the handler
+	h.handler.RenderFlags = h.settings.Flags()
+	pb, nq := h.settings.Pathbuilder(), h.settings.Nquads()
+
 	// create a new handler
 	h.done.Add(1)
 	go func() {
@@ -85,9 +89,6 @@ func (h *Headache) runViewer(listener net.Listener, ctx context.Context, cancel
 		defer listener.Close()  // close the listener
 		defer h.handler.Close() // kill the cache
 
-		h.handler.RenderFlags = h.settings.Flags()
-		pb, nq := h.settings.Pathbuilder(), h.settings.Nquads()
-
 		// create the glass by indexing
 		h.handler.Stats.Log("loading files", "pathbuilder", pb, "nquads", nq)
 		drincw, err := glass.Create(pb, nq, "", h.handler.RenderFlags, h.handler.Stats)
-- 
2.43.0


From 0ac1041393ba6af73c0ca8f9a9b9f8590b92c2c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:36:03 +0000
Subject: [PATCH 43/45] fix: count distinct statements in TripleCount, also
 before the index is finalized

---
 internal/triplestore/igraph/engine_memory.go | 2 +-
 internal/triplestore/igraph/index.go         | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/internal/triplestore/igraph/engine_memory.go b/internal/triplestore/igraph/engine_memory.go
index 8fce161..e21942c 100644
--- a/internal/triplestore/igraph/engine_memory.go
+++ b/internal/triplestore/igraph/engine_memory.go
@@ -77,7 +77,7 @@ func (tlm ThreeHash) Add(a, b, c impl.ID, l impl.ID, conflict func(old, new impl
 func (tlm ThreeHash) Count() (total int64, err error) {
 	for _, a := range tlm {
 		for _, b := range a {
-			total += int64(len(b.Keys))
+			total += int64(len(b.Data))
 		}
 	}
 	return total, nil
diff --git a/internal/triplestore/igraph/index.go b/internal/triplestore/igraph/index.go
index f42008e..7e24249 100644
--- a/internal/triplestore/igraph/index.go
+++ b/internal/triplestore/igraph/index.go
@@ -50,10 +50,11 @@ func (index *Index) Stats() Stats {
 // TripleCount returns the total number of (distinct) triples in this graph.
 // Triples which have been identified will only count once.
 func (index *Index) TripleCount() (count uint64, err error) {
-	if index == nil {
+	if index == nil || index.psoIndex == nil {
 		return 0, nil
 	}
-	return index.triples.Count()
+	total, err := index.psoIndex.Count()
+	return uint64(total), err
 }
 
 // Triple returns the triple with the given id
-- 
2.43.0


From 83d4e8872dda1dd9e6a44a32e47d794e527b4b4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:14:25 +0000
Subject: [PATCH 44/45] fix: allow the icon and logo of the pages in their own
 content security policy

---
 internal/viewer/viewer.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/internal/viewer/viewer.go b/internal/viewer/viewer.go
index 7dce7eb..0a46231 100644
--- a/internal/viewer/viewer.go
+++ b/internal/viewer/viewer.go
@@ -112,9 +112,12 @@ func (rf RenderFlags) CSPHeader() string {
 		source = strings.Join(rf.PublicURIS(), " ")
 	}
 
+	// the pages themselves contain an icon and a logo.
+	images := "'self'"
 	if rf.ImageRender || rf.HTMLRender {
-		header += "img-src " + source + ";"
+		images += " " + source
 	}
+	header += "img-src " + images + "; "
 	if rf.HTMLRender {
 		header += "media-src " + source + ";"
 	}
-- 
2.43.0


From 1828df9ecf3d4e45fc627ea806334a24f583bf76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:15:08 +0000
Subject: [PATCH 45/45] fix: count only bytes that were written, and compare
 counts as numbers

---
 pkg/progress/progress.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/progress/progress.go b/pkg/progress/progress.go
index f60aa85..d7f7326 100644
--- a/pkg/progress/progress.go
+++ b/pkg/progress/progress.go
@@ -33,9 +33,10 @@ type Writer struct {
 }
 
 func (cw *Writer) Write(bytes []byte) (int, error) {
-	cw.Bytes += int64(len(bytes))
+	count, err := cw.Writer.Write(bytes)
+	cw.Bytes += int64(count)
 	cw.Rewritable.Write(fmt.Sprintf("Wrote %s", humanize.Bytes(uint64(cw.Bytes))))
-	return cw.Writer.Write(bytes)
+	return count, err
 }
 
 // DefaultFlushInterval is a reasonable default flush interval
@@ -93,7 +94,7 @@ func (progress *Progress) Set(prefix string, count, total int) {
 		countS = strings.Repeat(" ", len(totalS)-len(countS)) + countS
 	}
 
-	if countS < totalS {
+	if count < total {
 		progress.Rewritable.Write(fmt.Sprintf("%s: %s/%s", prefix, countS, totalS))
 	} else {
 		progress.Rewritable.Write(fmt.Sprintf("%s: %s", prefix, countS))
-- 
2.43.0

