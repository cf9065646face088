From ae233ba1655739f4c62e605719b68b51fe762246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:30 +0000
Subject: [PATCH 01/55] fix: keep looking in earlier files when a query skips a
 data file

---
 database/files/metric.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 562a5dd..6fdb7aa 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -360,7 +360,8 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 				return false, err
 			}
 			if meta.SmallestEnd >= end {
-				return false, nil
+				// earlier files may still have data before the end.
+				return true, nil
 			}
 
 			capacity := f.Capacity()
-- 
2.43.0


From 42bae96c98a6d72f59913aa095b12289ea8c44d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:46 +0000
Subject: [PATCH 02/55] fix: do not create a data file when reading a metric
 without any

---
 database/files/metric.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 6fdb7aa..646566b 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -138,7 +138,12 @@ func newMetric(ctx context.Context, opts metricOptions) (*metric, error) {
 	// if we didn't set the first, create an empty file at 1. this simplifies
 	// the logic because we can from now on assume that at least one possibly
 	// empty file exists.
-	if !first_set {
+	//
+	// reading must not create anything, though: in that case the range of
+	// files is left empty.
+	if !first_set && opts.ro {
+		first, last = 1, 0
+	} else if !first_set {
 		path := fb.metricFilenameAt(dir, 1)
 		f, err := opts.fch.acquireFile(ctx, path, false)
 		if err != nil {
-- 
2.43.0


From c075f8ae22427b8ca2f27cd9c25082df05e11262 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:50 +0000
Subject: [PATCH 03/55] fix: check that a value fits into a new file before
 rotating

---
 database/files/metric.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 646566b..d04da30 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -251,11 +251,11 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		return false, Error.New("unable to compute number of records")
 	}
 	if head-nr < 0 {
-		last_rec := f.Capacity() - 1
-
-		// if this is the first write to an empty file, then we will not be
-		// able to write it.
-		if m.last == 1 && head == last_rec {
+		// if the value will not fit in a new file, then we will not be able
+		// to write it, and we must not make room for it.
+		opts := m.opts.fch.opts
+		new_nr := numRecords(len(data), opts.Size)
+		if new_nr == 0 || new_nr > opts.Cap {
 			return false, Error.New("value too large for empty file")
 		}
 
-- 
2.43.0


From 535385134a015b7257f1bfc33bc1a60831afb557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:53 +0000
Subject: [PATCH 04/55] fix: remove every file beyond the limit when the limit
 was lowered

---
 database/files/metric.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index d04da30..3fe06d7 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -263,7 +263,7 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 		// the first number. since it may be in the cache, we need to evict
 		// it from the cache if it is there. bump first once the file is
 		// removed.
-		if m.last-m.first >= m.opts.max && m.opts.max > 0 {
+		for m.last-m.first >= m.opts.max && m.opts.max > 0 {
 			first_path := m.filenameAt(m.first)
 			m.opts.fch.evictFile(first_path)
 			os.Remove(first_path)
-- 
2.43.0


From f00b0616c1c6bc235362191cd58446604594c5b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:57 +0000
Subject: [PATCH 05/55] fix: evict an empty data file from the cache when
 removing it

---
 database/files/metric.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 3fe06d7..ccb3ad2 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -201,8 +201,10 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 		// there exists one.
 		if head == f.Capacity()-1 && m.last > m.first {
 			// since this file is empty and there is an earlier file, we should
-			// remove it.
+			// remove it. it must not stay in the cache, because a file
+			// created at the path later is a different one.
 			m.opts.fch.releaseFile(path, f)
+			m.opts.fch.evictFile(path)
 			os.Remove(path)
 			m.last--
 
-- 
2.43.0


From 7693c46953e183eac7603fd883eea6ec257ba748 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:40 +0000
Subject: [PATCH 06/55] fix: do not treat a smallest end of zero as unset

---
 database/files/metric.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index ccb3ad2..504e2b6 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -318,14 +318,18 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	if err != nil {
 		return true, err
 	}
+	// the first value in the file has the smallest start and end. zero is as
+	// good a time as any, so it can not be used to tell if they are set: they
+	// are if the metadata already knows about some value.
+	if meta.Head == f.Capacity()-1 {
+		first, err := f.Record(ctx, f.Capacity()-1)
+		if err == nil {
+			meta.Start = first.start
+			meta.SmallestEnd = first.end
+		}
+	}
 	meta.Head = new_head
 	meta.End = end
-	if meta.Start == 0 {
-		meta.Start = start
-	}
-	if meta.SmallestEnd == 0 || end < meta.SmallestEnd {
-		meta.SmallestEnd = end
-	}
 
 	err = f.SetMetadata(ctx, meta)
 	if err != nil {
-- 
2.43.0


From c627b65f225dc74011b9e355fde0f05db8cc8333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:44 +0000
Subject: [PATCH 07/55] fix: clear what a crashed write left behind before
 building on it

---
 database/files/file.go   | 7 +++++++
 database/files/metric.go | 5 +++++
 2 files changed, 12 insertions(+)

diff --git a/database/files/file.go b/database/files/file.go
index 88f3395..86d6a84 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -180,6 +180,13 @@ func (f file) SetRecord(ctx context.Context, n int, rec record) (err error) {
 	return writeRecord(f.slice()[off:off+f.size], rec)
 }
 
+// ClearRecord removes any record stored in the nth slot.
+func (f file) ClearRecord(ctx context.Context, n int) {
+	if f.HasRecord(ctx, n) {
+		f.slice()[f.offset(n)] = 0
+	}
+}
+
 // HasRecord returns if there is a record stored at the index.
 func (f file) HasRecord(ctx context.Context, n int) (ok bool) {
 	if n >= f.cap || n < 0 {
diff --git a/database/files/metric.go b/database/files/metric.go
index 504e2b6..68069bc 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -301,6 +301,11 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	head -= nr
 	new_head := head - 1
 
+	// a crash in the middle of an earlier write may have left a record where
+	// the next value will end. clear it so that it is not taken as a part of
+	// the data.
+	f.ClearRecord(ctx, new_head)
+
 	// write the records into the file
 	err = iterateRecords(start, end, data, f.Size(),
 		func(rec record) error {
-- 
2.43.0


From 048ef0b869a269caa9d7e1d0ad788d4f1c2e9899 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:17 +0000
Subject: [PATCH 08/55] fix: accept new values after an unreadable record

---
 database/files/metric.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 68069bc..af6eaec 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -239,7 +239,16 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	if f.HasRecord(ctx, head) {
 		last_rec, err := f.Record(ctx, head)
 		if err != nil {
-			return false, err
+			// reads skip records that are not readable, so they should not
+			// stop writes forever either. the metadata knows the last end.
+			external.Errorw("error reading record",
+				"err", err,
+			)
+			meta, err := f.Metadata(ctx)
+			if err != nil {
+				return false, err
+			}
+			last_rec.end = meta.End
 		}
 		if last_rec.end >= end {
 			return false, nil
-- 
2.43.0


From 18e63e981bbfef7e5211afedfae5b1f4d9b20921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:20 +0000
Subject: [PATCH 09/55] fix: do not search past the end of a truncated data
 file forever

---
 database/files/file_ops.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/files/file_ops.go b/database/files/file_ops.go
index 310e880..2510ad7 100644
--- a/database/files/file_ops.go
+++ b/database/files/file_ops.go
@@ -17,6 +17,11 @@ func getHeadPointer(ctx context.Context, f file) (n int, err error) {
 		return head, nil
 	}
 
+	// the file may have become shorter than it was when the head was stored
+	if head >= f.Capacity() {
+		head = f.Capacity() - 1
+	}
+
 	// figure out if head has a record. typically, it won't.
 	orig_has := f.HasRecord(ctx, head)
 
-- 
2.43.0


From 436a029aaac117a9ec1d4880727e89f2064d5454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:24 +0000
Subject: [PATCH 10/55] fix: unmap and refuse data files with invalid metadata

---
 database/files/file.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/database/files/file.go b/database/files/file.go
index 86d6a84..9d845c2 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -110,10 +110,12 @@ func openFile(ctx context.Context, path string) (f file, err error) {
 	// file.
 	meta, err := readMetadata(slice(data, len))
 	if err != nil {
+		system.Munmap(data, len)
 		return f, err
 	}
 
-	if meta.Size_ < recordHeaderSize {
+	if meta.Size_ < recordHeaderSize || meta.Size_ > len {
+		system.Munmap(data, len)
 		return f, Error.New("possible corruption: invalid size")
 	}
 
-- 
2.43.0


From ccd310965a59a4732f99870168eb2a694e0186ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:29 +0000
Subject: [PATCH 11/55] fix: create data files atomically

---
 database/files/file.go | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/database/files/file.go b/database/files/file.go
index 9d845c2..abd7a5e 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -32,11 +32,20 @@ type file struct {
 func createFile(ctx context.Context, path string, size, cap int) (
 	f file, err error) {
 
-	fh, err := os.OpenFile(path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
+	// prepare the file under a temporary name, and rename it when it is valid
+	// so that a crash or an error does not leave an unreadable file behind.
+	tmp_path := path + ".tmp"
+
+	fh, err := os.OpenFile(tmp_path, os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0644)
 	if err != nil {
 		return file{}, Error.Wrap(err)
 	}
 	defer fh.Close()
+	defer func() {
+		if err != nil {
+			os.Remove(tmp_path)
+		}
+	}()
 	fd := int(fh.Fd())
 
 	// these overflow checks might be too restrictive, but i think it will
@@ -67,7 +76,11 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		Size_: size,
 		Head:  cap - 1,
 	})
+	if err == nil {
+		err = Error.Wrap(os.Rename(tmp_path, path))
+	}
 	if err != nil {
+		system.Munmap(data, len)
 		return file{}, err
 	}
 
-- 
2.43.0


From 9372f1f3d69f82d17aeda28f0099a71c33fa8c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:52 +0000
Subject: [PATCH 12/55] fix: update the metadata of a data file in one step

---
 database/files/file_helpers.go | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/database/files/file_helpers.go b/database/files/file_helpers.go
index a5b0b0f..2076daa 100644
--- a/database/files/file_helpers.go
+++ b/database/files/file_helpers.go
@@ -37,13 +37,22 @@ func writeMetadata(buf []byte, m meta.Metadata) (err error) {
 		return Error.New("metadata too large")
 	}
 
-	_, err = m.MarshalTo(buf[recordHeaderSize:])
+	// the buffer is what is on disk, and if the checksum and the payload do
+	// not match the whole file is unreadable. prepare the record on the side
+	// and then put it in place all at once.
+	var scratch [recordHeaderSize + 128]byte
+	if rec.Size() > len(scratch) {
+		return Error.New("metadata too large")
+	}
+
+	_, err = m.MarshalTo(scratch[recordHeaderSize:])
 	if err != nil {
 		return Error.Wrap(err)
 	}
 
-	rec.data = buf[recordHeaderSize:]
-	rec.MarshalHeader(buf[:0])
+	rec.data = scratch[recordHeaderSize:]
+	rec.MarshalHeader(scratch[:0])
+	copy(buf, scratch[:rec.Size()])
 
 	return nil
 }
-- 
2.43.0


From 06ff1328b97d009063eea922818e1842d3ee8c15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:56 +0000
Subject: [PATCH 13/55] fix: refuse record sizes and capacities that can not
 work

---
 database/files/file.go   | 12 ++++++++++--
 database/files/record.go |  4 ++--
 2 files changed, 12 insertions(+), 4 deletions(-)

diff --git a/database/files/file.go b/database/files/file.go
index abd7a5e..8d8fd7e 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -52,12 +52,20 @@ func createFile(ctx context.Context, path string, size, cap int) (
 	// go up to 1GB at least, so meh that's probably good enough. we can
 	// revisit making them up to a larger size size later, though the system
 	// will probably struggle with that anyway.
-	if cap+1 < cap ||
+	if cap <= 0 ||
+		cap+1 < cap ||
 		int(int32(cap)) != cap ||
 		int(int32(size)) != size ||
 		int32(size)*int32(cap)/int32(cap) != int32(size) {
 
-		return file{}, Error.New("capacity too large")
+		return file{}, Error.New("invalid capacity")
+	}
+
+	// every metadata record has to fit, whatever the times in it are.
+	if max := (&meta.Metadata{
+		Size_: size, Head: -1, Start: -1, End: -1, SmallestEnd: -1,
+	}).Size(); size < recordHeaderSize+max {
+		return file{}, Error.New("size too small")
 	}
 
 	len := size * (cap + 1)
diff --git a/database/files/record.go b/database/files/record.go
index f0e5537..a7cb0a8 100644
--- a/database/files/record.go
+++ b/database/files/record.go
@@ -130,7 +130,7 @@ func parse(buf []byte) (out record, err error) {
 // size is not in a range that is valid.
 func numRecords(len, size int) int {
 	chunk := size - recordHeaderSize
-	if chunk < 0 || int(uint16(chunk)) != chunk {
+	if chunk <= 0 || int(uint16(chunk)) != chunk {
 		return 0
 	}
 	if len == 0 {
@@ -147,7 +147,7 @@ func iterateRecords(start, end int64, data []byte, size int,
 	fn func(rec record) error) error {
 
 	chunk := size - recordHeaderSize
-	if chunk < 0 || int(uint16(chunk)) != chunk {
+	if chunk <= 0 || int(uint16(chunk)) != chunk {
 		return Error.New("invalid size value")
 	}
 
-- 
2.43.0


From 381221fc8de2cf0ac048d74f4c61d56bb66253af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 14/55] fix: do not lose or corrupt metric names in concurrent
 listings

---
 database/files/db_read.go | 53 ++++++++++++---------------------------
 1 file changed, 16 insertions(+), 37 deletions(-)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index e0b248c..8e44512 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -53,51 +53,33 @@ func (db *DB) QueryLatest(ctx context.Context, metric string, buf []byte) (
 func (db *DB) Metrics(ctx context.Context,
 	cb func(name string) (bool, error)) (err error) {
 
+	// names move from the worker sets to the readonly names value, and we
+	// must not miss any that some concurrent Metrics call is moving.
+	db.names_mu.Lock()
+
 	// load up the readonly names value
 	names, ok := db.names.Load().(*sset.Set)
 	if !ok {
 		names = sset.New(0)
 	}
 
-	// merge the worker sets in if we have a flag for it
+	// merge the worker sets in if there is something in them
 	copied := false
-	locked := false
-	for i, names_w := range db.names_w {
+	for i := range db.names_w {
 		db.names_w_mu[i].Lock()
-		len_names_w := names_w.Len()
-		db.names_w_mu[i].Unlock()
-
-		// skip if we don't need to merge it in
-		if len_names_w == 0 {
-			continue
-		}
-
-		// lock the populating mutex if required
-		if !locked {
-			db.names_mu.Lock()
-			locked = true
-		}
 
-		// lock the worker map again. we drop the worker mutex to avoid
-		// deadlocks while taking the db.names_mu.
-		db.names_w_mu[i].Lock()
-
-		// lazily copy the names map to ensure it is readonly
-		// we reload the names map here after we have the mutex in case
-		// some concurrent Metrics call has updated the atomic.Value
-		if !copied {
-			new_names, ok := db.names.Load().(*sset.Set)
-			if ok && new_names.Len() > 0 {
-				names = new_names.Copy()
+		if db.names_w[i].Len() > 0 {
+			// lazily copy the names map to ensure it is readonly
+			if !copied {
+				names = names.Copy()
+				copied = true
 			}
-			copied = true
-		}
 
-		// merge the worker map in
-		names.Merge(names_w)
+			// merge the worker map in and clear it out
+			names.Merge(db.names_w[i])
+			db.names_w[i] = sset.New(0)
+		}
 
-		// clear out the worker map
-		db.names_w[i] = sset.New(0)
 		db.names_w_mu[i].Unlock()
 	}
 
@@ -106,10 +88,7 @@ func (db *DB) Metrics(ctx context.Context,
 		db.names.Store(names)
 	}
 
-	// if we locked, we can unlock now as we're done populating and storing
-	if locked {
-		db.names_mu.Unlock()
-	}
+	db.names_mu.Unlock()
 
 	// yay do callbacks
 	names.Iter(func(name string) (ok bool) {
-- 
2.43.0


From a3cc3c164ab762399eeff12148648c8eb42f10b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:50 +0000
Subject: [PATCH 15/55] fix: keep metric names added during a directory walk

---
 database/files/db_read.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index 8e44512..a1cd66b 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -101,6 +101,13 @@ func (db *DB) Metrics(ctx context.Context,
 // PopulateMetrics walks the directory tree of the metrics recreating the
 // in-memory cache of metric names. It should be called periodically.
 func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
+	// remember what we know at this point: the walk may miss names that are
+	// added while it is in progress.
+	before, ok := db.names.Load().(*sset.Set)
+	if !ok {
+		before = sset.New(0)
+	}
+
 	dp := newDBPopulator(db.dir)
 	switch err := dp.populate(ctx); {
 	case err == context.Canceled:
@@ -111,6 +118,14 @@ func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
 
 	// all stores to the names map have to be done under the names_mu mutex.
 	db.names_mu.Lock()
+	if names, ok := db.names.Load().(*sset.Set); ok {
+		names.Iter(func(name string) bool {
+			if !before.Has(name) {
+				dp.out.Add(name)
+			}
+			return true
+		})
+	}
 	db.names.Store(dp.out)
 	db.names_mu.Unlock()
 
-- 
2.43.0


From 3271d55643b028e5a9a8600d57395d3080d30872 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:33 +0000
Subject: [PATCH 16/55] fix: observe and finish a record under its lock

---
 data/agg.go    | 32 ++++++++++++++++----------------
 data/writer.go |  6 ++++++
 2 files changed, 22 insertions(+), 16 deletions(-)

diff --git a/data/agg.go b/data/agg.go
index 9a3a1a8..0c77847 100644
--- a/data/agg.go
+++ b/data/agg.go
@@ -33,6 +33,7 @@ func newAgg(params dist.Params, now time.Time) *agg {
 // if it used.
 func (a *agg) Observe(val float64, id []byte) {
 	a.mu.Lock()
+	defer a.mu.Unlock()
 
 	// add the value into the digest, initializing it if necessary
 	if a.dist == nil {
@@ -45,45 +46,44 @@ func (a *agg) Observe(val float64, id []byte) {
 	}
 	a.dist.Observe(val)
 
-	// keep track of min, max and obs to update them after dropping the mutex
-	// and bump observations.
+	// bump observations.
 	min, max, obs := a.rec.Min, a.rec.Max, a.rec.Observations
 	a.rec.Observations++
 
-	a.mu.Unlock()
-
-	// in the common case we don't need to bump min and max, so we do a double
-	// check pattern to avoid as much critical section as possible.
+	// in the common case we don't need to bump min and max. it has to happen
+	// together with the observation, because otherwise some other observation
+	// or the record being finished could see only half of it.
 	if obs == 0 || val < min || val > max {
 
-		// we only make the copy if there's a good chance we'll be storing it.
-		// once again, we do this outside of the mutex to avoid as much
-		// critical section as possible.
+		// we only make the copy if we'll be storing it.
 		var id_copy []byte
 		if id != nil {
 			id_copy = append(id_copy, id...)
 		}
 
-		a.mu.Lock()
-		if obs == 0 || val < a.rec.Min {
+		if obs == 0 || val < min {
 			a.rec.Min = val
 			a.rec.MinId = id_copy
 		}
-		if obs == 0 || val > a.rec.Max {
+		if obs == 0 || val > max {
 			a.rec.Max = val
 			a.rec.MaxId = id_copy
 		}
-		a.mu.Unlock()
 	}
 }
 
 // Finish returns the aggregated record, using the buf to marshal the data
-// and returning the buf. Mutating the returned buf invalidates the record.
+// and returning the buf. Mutating the returned buf invalidates the record. The
+// record has no observations if nothing has been observed.
 func (a *agg) Finish(buf []byte, now time.Time) ([]byte, Record) {
 	a.mu.Lock()
-	out := a.rec
-	a.mu.Unlock()
+	defer a.mu.Unlock()
+
+	if a.dist == nil {
+		return buf, Record{}
+	}
 
+	out := a.rec
 	out.EndTime = now.In(time.UTC).UnixNano()
 	out.Kind = a.dist.Kind()
 	buf = a.dist.Marshal(buf[:0])
diff --git a/data/writer.go b/data/writer.go
index 180cd4d..f16d02f 100644
--- a/data/writer.go
+++ b/data/writer.go
@@ -115,6 +115,9 @@ func (s *Writer) Capture(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
@@ -138,6 +141,9 @@ func (s *Writer) Iterate(ctx context.Context,
 	p.m.Range(func(key, ai interface{}) (ok bool) {
 		var rec Record
 		buf, rec = ai.(*agg).Finish(buf, now)
+		if rec.Observations == 0 {
+			return true
+		}
 		return fn(ctx, key.(string), rec)
 	})
 }
-- 
2.43.0


From 9e279c9cccb45041040030aa7b2593650ee55004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:38 +0000
Subject: [PATCH 17/55] fix: forget memoized quantiles when observing a value

---
 dist/tdigest/wrapper.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index 80f4c68..4f0d6ab 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -61,8 +61,9 @@ func (Wrapper) Kind() string {
 }
 
 // Observe adds the value to the t-digest.
-func (w Wrapper) Observe(val float64) {
+func (w *Wrapper) Observe(val float64) {
 	w.td.Add(val)
+	w.cache = nil // the quantiles may have changed
 }
 
 // Marshal appends a byte form of the t-digest to the provided buffer.
-- 
2.43.0


From 629272aec88aba7c70ba61afb4323976d8799e35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:42 +0000
Subject: [PATCH 18/55] fix: keep the ids of the first record's extremes when
 merging

---
 merge/merge.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/merge/merge.go b/merge/merge.go
index 5a0e8c9..bbfc3ce 100644
--- a/merge/merge.go
+++ b/merge/merge.go
@@ -71,6 +71,7 @@ func Merge(ctx context.Context, opts MergeOptions) (
 
 	// merge the max and min values
 	out.Min, out.Max = opts.Records[0].Min, opts.Records[0].Max
+	out.MinId, out.MaxId = opts.Records[0].MinId, opts.Records[0].MaxId
 	for _, r := range opts.Records[1:] {
 		if r.Min < out.Min {
 			out.Min = r.Min
-- 
2.43.0


From ee066a1307bfabdc526e0f5acbf5662a821b46f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:45 +0000
Subject: [PATCH 19/55] fix: do not hold the registry lock while calling makers

---
 registry/registry.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/registry/registry.go b/registry/registry.go
index d29ef21..05fa9f9 100644
--- a/registry/registry.go
+++ b/registry/registry.go
@@ -38,9 +38,9 @@ func (r *Registry) NewListener(ctx context.Context, name string,
 	config interface{}) (listener.Listener, error) {
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.listeners[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -65,9 +65,9 @@ func (r *Registry) NewDatabase(ctx context.Context, name string,
 	config interface{}) (database.DB, error) {
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.databases[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
@@ -93,9 +93,9 @@ func (r *Registry) NewDistribution(ctx context.Context, name string,
 	config interface{}) (dist.Params, error) {
 
 	r.mu.Lock()
-	defer r.mu.Unlock()
-
 	maker, ok := r.distributions[name]
+	r.mu.Unlock()
+
 	if !ok {
 		return nil, errs.New("no registration for: %q", name)
 	}
-- 
2.43.0


From e595a48c17f643589d9230511d8f93b7b226b7f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:04 +0000
Subject: [PATCH 20/55] fix: do not compute infinite rates for records without
 merged or duration

---
 merge/merger.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/merge/merger.go b/merge/merger.go
index e2d264d..a7e930c 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -201,7 +201,17 @@ func (m *Merger) emit(ctx context.Context, start, end int64,
 	recs := make([]data.Record, 0, len(mrecs))
 	for _, mrec := range mrecs {
 		recs = append(recs, mrec.rec)
-		obs_sec += float64(mrec.rec.Observations) / float64(mrec.rec.Merged) /
+
+		// back compat: a merged of 0 actually means 1. also, a record that
+		// covers no time has no meaningful rate.
+		merged := mrec.rec.Merged
+		if merged == 0 {
+			merged = 1
+		}
+		if mrec.rec.EndTime <= mrec.rec.StartTime {
+			continue
+		}
+		obs_sec += float64(mrec.rec.Observations) / float64(merged) /
 			time.Duration(mrec.rec.EndTime-mrec.rec.StartTime).Seconds()
 	}
 	obs_sec /= float64(len(mrecs))
-- 
2.43.0


From 549653d556271f11f8ab77942d0a13f69605e02d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:08 +0000
Subject: [PATCH 21/55] fix: do not divide by zero with more pixels than
 nanoseconds

---
 merge/merger.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/merge/merger.go b/merge/merger.go
index a7e930c..0ff3d86 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -63,6 +63,10 @@ func NewMerger(opts MergerOptions) *Merger {
 func (m *Merger) SetWidth(width int) {
 	m.width = width
 	m.pixel_size = m.opts.Duration.Nanoseconds() / int64(width)
+	if m.pixel_size <= 0 {
+		// there can not be more pixels than nanoseconds
+		m.pixel_size = 1
+	}
 	m.completed_px = int64(width)
 }
 
-- 
2.43.0


From 2ce8747d5ac6dc01949b1a3ade0ef41b6296bb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:55 +0000
Subject: [PATCH 22/55] fix: refuse t-digests that can not be decoded or
 handled

---
 dist/tdigest/wrapper.go | 73 ++++++++++++++++++++++++++++++++++++++++-
 merge/resample.go       | 12 +++++--
 2 files changed, 81 insertions(+), 4 deletions(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index 4f0d6ab..db2dd62 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -3,6 +3,9 @@
 package tdigest
 
 import (
+	"encoding/binary"
+	"math"
+
 	"github.com/vivint/rothko/dist"
 	"github.com/zeebo/errs"
 	"github.com/zeebo/tdigest"
@@ -23,11 +26,25 @@ func (p Params) New() (dist.Dist, error) {
 	if p.Compression == 0 {
 		return nil, errs.New("New called on zero value Params")
 	}
+	if !validCompression(p.Compression) {
+		return nil, errs.New("invalid compression: %v", p.Compression)
+	}
 	return Wrap(tdigest.New(p.Compression)), nil
 }
 
 // Unmarshal loads a dist.Dist out of some bytes.
-func (p Params) Unmarshal(data []byte) (dist.Dist, error) {
+func (p Params) Unmarshal(data []byte) (_ dist.Dist, err error) {
+	if err := checkEncoding(data); err != nil {
+		return nil, err
+	}
+
+	// the t-digest library panics when the data is too short.
+	defer func() {
+		if recover() != nil {
+			err = errs.New("invalid t-digest data")
+		}
+	}()
+
 	dist, err := tdigest.FromBytes(data)
 	if err != nil {
 		return nil, errs.Wrap(err)
@@ -35,6 +52,54 @@ func (p Params) Unmarshal(data []byte) (dist.Dist, error) {
 	return Wrap(dist), nil
 }
 
+const (
+	// minCompression and maxCompression bound the compressions that can be
+	// used: the t-digest library does not terminate for ones that are smaller,
+	// and allocates in proportion to them.
+	minCompression = 1
+	maxCompression = 1e5
+
+	// maxMagnitude bounds the magnitude of the values in the t-digest, because
+	// the difference between any two of them is encoded as a float32.
+	maxMagnitude = math.MaxFloat32 / 2
+)
+
+// validCompression returns if the t-digest library can handle the compression.
+func validCompression(compression float64) bool {
+	return minCompression <= compression && compression <= maxCompression
+}
+
+// checkEncoding returns an error if the data has values that the t-digest
+// library would accept but is unable to handle.
+func checkEncoding(data []byte) error {
+	const header = 4 + 8 + 4 // version, compression, number of means
+
+	if len(data) < header {
+		return errs.New("invalid t-digest data: too short")
+	}
+
+	compression := math.Float64frombits(binary.BigEndian.Uint64(data[4:]))
+	if !validCompression(compression) {
+		return errs.New("invalid t-digest data: compression: %v", compression)
+	}
+
+	means := uint64(binary.BigEndian.Uint32(data[12:]))
+	data = data[header:]
+	if uint64(len(data)) < 4*means {
+		return errs.New("invalid t-digest data: too short")
+	}
+
+	for ; means > 0; means-- {
+		delta := float64(math.Float32frombits(binary.BigEndian.Uint32(data)))
+		if math.IsNaN(delta) || math.IsInf(delta, 0) {
+			return errs.New("invalid t-digest data: mean")
+		}
+		data = data[4:]
+	}
+
+	return nil
+}
+
 //
 // Wrapper
 //
@@ -62,6 +127,12 @@ func (Wrapper) Kind() string {
 
 // Observe adds the value to the t-digest.
 func (w *Wrapper) Observe(val float64) {
+	// keep the value in the range that can be encoded.
+	if val > maxMagnitude {
+		val = maxMagnitude
+	} else if val < -maxMagnitude {
+		val = -maxMagnitude
+	}
 	w.td.Add(val)
 	w.cache = nil // the quantiles may have changed
 }
diff --git a/merge/resample.go b/merge/resample.go
index 38910b2..b57dbce 100644
--- a/merge/resample.go
+++ b/merge/resample.go
@@ -6,6 +6,7 @@ import (
 	"context"
 
 	"github.com/vivint/rothko/data"
+	wrapper "github.com/vivint/rothko/dist/tdigest"
 	"github.com/zeebo/tdigest"
 )
 
@@ -33,11 +34,16 @@ func newResampler(dig *tdigest.TDigest) *resampler {
 func (res *resampler) Sample(ctx context.Context, r data.Record) error {
 	switch r.Kind {
 	case "tdigest":
-		other, err := tdigest.FromBytes(r.Distribution)
+		other, err := (wrapper.Params{}).Unmarshal(r.Distribution)
 		if err != nil {
-			return err
+			return Error.Wrap(err)
 		}
-		return res.dig.Merge(other)
+		unwrapped, ok := other.(*wrapper.Wrapper)
+		if !ok {
+			return Error.New(
+				"programmer error: params did not make t-digest")
+		}
+		return res.dig.Merge(unwrapped.Underlying())
 	}
 
 	return Error.New("unknown distribution kind: %v", r.Kind)
-- 
2.43.0


From b4305440fda24fde7a102fde1799e3c3619295ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:09 +0000
Subject: [PATCH 23/55] fix: draw no columns for records outside of the window

---
 merge/merger.go | 23 +++++++++++++++++++++++
 1 file changed, 23 insertions(+)

diff --git a/merge/merger.go b/merge/merger.go
index 0ff3d86..7321692 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -70,8 +70,21 @@ func (m *Merger) SetWidth(width int) {
 	m.completed_px = int64(width)
 }
 
+// earliest returns the earliest time that is part of the window.
+func (m *Merger) earliest() int64 {
+	return m.opts.Now - m.opts.Duration.Nanoseconds()
+}
+
 // timeToPixel maps the time to a pixel.
 func (m *Merger) timeToPixel(time int64) int64 {
+	// nothing outside of the window has a pixel of it's own
+	if time > m.opts.Now {
+		time = m.opts.Now
+	}
+	if earliest := m.earliest(); time < earliest {
+		time = earliest
+	}
+
 	delta := m.opts.Now - time + m.pixel_size - 1
 	px := int64(m.width) - (delta / m.pixel_size)
 	if px < 0 {
@@ -87,6 +100,11 @@ func (m *Merger) Push(ctx context.Context, rec data.Record) error {
 		return Error.New("invalid: must call SetWidth before Push")
 	}
 
+	// a record that ended before the window has no overlap with any pixel.
+	if rec.EndTime < m.earliest() {
+		return nil
+	}
+
 	mrec := mergeRecord{
 		rec:   rec,
 		start: m.timeToPixel(rec.StartTime),
@@ -114,6 +132,11 @@ func (m *Merger) Finish(ctx context.Context) ([]draw.Column, error) {
 func (m *Merger) completed(ctx context.Context, completed_px int64) error {
 	debugPrint("completed", completed_px)
 
+	// a record may reach past the last pixel, which completes nothing.
+	if completed_px > m.completed_px {
+		completed_px = m.completed_px
+	}
+
 	// some variables for our state
 	var (
 		to_emit_end_px int64
-- 
2.43.0


From 05f3361429dd1dd5b801c3c60f545243bebb8c07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:31 +0000
Subject: [PATCH 24/55] fix: clip heatmap columns and draw them alike on every
 canvas

---
 draw/heatmap/heatmap.go | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/draw/heatmap/heatmap.go b/draw/heatmap/heatmap.go
index 57f597b..8863256 100644
--- a/draw/heatmap/heatmap.go
+++ b/draw/heatmap/heatmap.go
@@ -51,9 +51,24 @@ func New(opts Options) *Heatmap {
 func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 	last_index := -1
 	last_color := d.opts.Colors[0]
-	index_scale := float64(len(col.Data)-1) / float64(d.height-1)
+	index_scale := 0.0
+	if d.height > 1 {
+		index_scale = float64(len(col.Data)-1) / float64(d.height-1)
+	}
 	m := d.m
 
+	// clip the column to the canvas
+	x0, x1 := col.X, col.X+col.W
+	if x0 < 0 {
+		x0 = 0
+	}
+	if x1 > d.width {
+		x1 = d.width
+	}
+	if x0 >= x1 {
+		return
+	}
+
 	for y := 0; y < d.height; y++ {
 		// TODO(jeff): truncating might not work. we can also perhaps
 		// invert this computation to give us the number of pixels
@@ -69,11 +84,8 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 
 		if m != nil {
 			row := (d.height - 1 - y + m.Y) * m.Stride
-			low := row + 4*(col.X+m.X)
-			high := low + 4*col.W
-			if high > len(m.Pix) {
-				high = len(m.Pix)
-			}
+			low := row + 4*(x0+m.X)
+			high := row + 4*(x1+m.X)
 
 			// reslicing in gopherjs always allocates a slice structure. so
 			// since it doesn't elide bounds checks, we write it this way even
@@ -97,9 +109,8 @@ func (d *Heatmap) Draw(ctx context.Context, col draw.Column) {
 			}
 
 		} else {
-			x1 := col.X + col.W
-			for x := col.X; x < x1 && x < d.width; x++ {
-				d.opts.Canvas.Set(x, y, last_color)
+			for x := x0; x < x1; x++ {
+				d.opts.Canvas.Set(x, d.height-1-y, last_color)
 			}
 		}
 
-- 
2.43.0


From 6e1e0f3e05fc72ae256121214e77785d5828709e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:34 +0000
Subject: [PATCH 25/55] fix: draw keys that are one pixel high

---
 draw/key/key.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/draw/key/key.go b/draw/key/key.go
index fdd4191..fb25dee 100644
--- a/draw/key/key.go
+++ b/draw/key/key.go
@@ -29,7 +29,10 @@ func Draw(canvas *draw.RGB, opts Options) (out *draw.RGB) {
 		canvas = draw.NewRGB(opts.Width, opts.Height)
 	}
 
-	scale := float64(len(opts.Colors)-1) / float64(opts.Height-1)
+	scale := 0.0
+	if opts.Height > 1 {
+		scale = float64(len(opts.Colors)-1) / float64(opts.Height-1)
+	}
 	for y := 0; y < opts.Height; y++ {
 		index := int(float64(opts.Height-1-y) * scale)
 		color := opts.Colors[index]
-- 
2.43.0


From 3b81569f8060951a0111f0189fdbf5c8c233e930 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:37 +0000
Subject: [PATCH 26/55] fix: keep labels inside of the view they are drawn on

---
 draw/common.go           | 11 +++++++----
 draw/observations/obs.go |  5 ++++-
 2 files changed, 11 insertions(+), 5 deletions(-)

diff --git a/draw/common.go b/draw/common.go
index 1602cc4..5aea292 100644
--- a/draw/common.go
+++ b/draw/common.go
@@ -79,12 +79,15 @@ func (m RGB) View(x, y, w, h int) *RGB {
 	return &m
 }
 
+// AsImage returns an image of exactly the pixels of the RGB. It shares memory
+// with the RGB.
 func (m *RGB) AsImage() *image.RGBA {
+	if m.Width <= 0 || m.Height <= 0 {
+		return &image.RGBA{}
+	}
 	return &image.RGBA{
-		Pix:    m.Pix,
+		Pix:    m.Pix[m.Y*m.Stride+m.X*4:],
 		Stride: m.Stride,
-		// TODO(jeff): i highly suspect m.Width and m.Height is wrong here.
-		// add a test around boundary conditions.
-		Rect: image.Rect(-m.X, -m.Y, m.Width, m.Height),
+		Rect:   image.Rect(0, 0, m.Width, m.Height),
 	}
 }
diff --git a/draw/observations/obs.go b/draw/observations/obs.go
index 0d59faa..93987e1 100644
--- a/draw/observations/obs.go
+++ b/draw/observations/obs.go
@@ -90,7 +90,10 @@ func (m Measured) Draw(ctx context.Context, cols []draw.Column,
 	label_width := (m.bounds.Max.X - m.bounds.Min.X).Ceil()
 
 	for _, col := range cols {
-		sat := 255 - byte(float64(col.ObsSec)/float64(max)*255)
+		sat := byte(255)
+		if max > 0 {
+			sat -= byte(float64(col.ObsSec) / float64(max) * 255)
+		}
 		c := draw.Color{sat, sat, sat}
 		for y := 0; y < m.opts.Height; y++ {
 			for x := 0; x < col.W; x++ {
-- 
2.43.0


From 335870341c83a3a7949d88b9f5e43d1ed6485061 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:52 +0000
Subject: [PATCH 27/55] fix: measure small graphs and ones before 1970

---
 draw/graph/graph.go | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/draw/graph/graph.go b/draw/graph/graph.go
index 283f859..383adf2 100644
--- a/draw/graph/graph.go
+++ b/draw/graph/graph.go
@@ -93,7 +93,7 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// calculate the heatmap height and leave a gap for the bottom/obs axis
 	height := opts.Height - vert_guess
-	if height < 0 {
+	if height <= 0 {
 		return Measured{}, false
 	}
 
@@ -157,6 +157,9 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 	// for the left and right axis
 	heatmapWidth := opts.Width -
 		(left.Width + keyPadding + keyWidth + right.Width)
+	if heatmapWidth <= 0 {
+		return Measured{}, false
+	}
 
 	obs := observations.Measure(ctx, observations.Options{
 		Face:   iosevka.Iosevka,
@@ -169,7 +172,10 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// determine the "natural" duration unit for 100 px. this is going to
 	// be the largest "natural" unit smaller than the chunk.
-	chunk := opts.Duration / time.Duration(opts.Width/100)
+	chunk := opts.Duration
+	if opts.Width >= 100 {
+		chunk /= time.Duration(opts.Width / 100)
+	}
 	natural := naturalUnits[0]
 	for _, unit := range naturalUnits[1:] {
 		if unit < chunk {
@@ -181,12 +187,18 @@ func tryMeasure(ctx context.Context, opts MeasureOptions,
 
 	// create the labels from the truncated now
 	x := time.Duration(opts.Now).Truncate(natural).Nanoseconds()
-	stop_before := opts.Now - opts.Duration.Nanoseconds()
-	for x > stop_before {
+	if x > opts.Now {
+		// it truncates towards zero, but labels can't be in the future
+		x -= natural.Nanoseconds()
+	}
+	for opts.Now-x < opts.Duration.Nanoseconds() {
 		labels = append(labels, axis.Label{
 			Position: 1 - float64(opts.Now-x)/float64(opts.Duration),
 			Text:     time.Unix(0, x).Format("1/2 @ 15:04"),
 		})
+		if opts.Duration.Nanoseconds()-(opts.Now-x) <= natural.Nanoseconds() {
+			break // and don't overflow
+		}
 		x -= natural.Nanoseconds()
 	}
 
-- 
2.43.0


From 07289625841576b9c554f4630cda4cdf0a06e718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:19 +0000
Subject: [PATCH 28/55] fix: refuse render parameters that make no sense, and
 draw empty windows

---
 api/server.go | 39 +++++++++++++++++++++++++++------------
 1 file changed, 27 insertions(+), 12 deletions(-)

diff --git a/api/server.go b/api/server.go
index 29c63b1..5b20755 100644
--- a/api/server.go
+++ b/api/server.go
@@ -27,6 +27,12 @@ import (
 	"github.com/zeebo/errs"
 )
 
+const (
+	maxPixels      = 1 << 25 // largest number of pixels in a graph
+	maxSamples     = 1024    // largest number of samples in a column
+	maxCompression = 1000    // largest compression of a column
+)
+
 // Options for the server.
 type Options struct {
 	// Origin is sent back in Access-Control-Allow-Origin. If not set, sends
@@ -166,8 +172,21 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 	compression := getFloat64(req.FormValue("compression"), 5)
 	stop_before := now - dur.Nanoseconds()
 
+	// check that they make sense and that their magnitude is reasonable
+	switch {
+	case width <= 0 || height <= 0 || padding < 0 ||
+		width > maxPixels || height > maxPixels || padding > maxPixels ||
+		int64(width+2*padding)*int64(height+2*padding) > maxPixels:
+		return errBadRequest.New("invalid size")
+	case dur <= 0 || stop_before > now:
+		return errBadRequest.New("invalid duration")
+	case samples <= 0 || samples > maxSamples:
+		return errBadRequest.New("invalid samples")
+	case !(compression >= 1 && compression <= maxCompression):
+		return errBadRequest.New("invalid compression")
+	}
+
 	// set up some state for the query
-	var measured graph.Measured
 	var earliest []byte
 	measure_opts := graph.MeasureOptions{
 		Now:      now,
@@ -183,7 +202,12 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 		Duration: dur,
 		Params:   tdigest.Params{Compression: compression},
 	})
-	var ok bool
+
+	// if there is no record to be drawn, it is still a graph.
+	measured, ok := graph.Measure(ctx, measure_opts)
+	if !ok {
+		return errBadRequest.New("too small")
+	}
 
 	// run the query
 	err = s.db.Query(ctx, metric, now, nil,
@@ -224,7 +248,7 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 		return errs.Wrap(err)
 	}
 	if !ok {
-		return errs.New("too small")
+		return errBadRequest.New("too small")
 	}
 
 	// grab the columns
@@ -249,15 +273,6 @@ func (s *Server) serveRender(ctx context.Context, w http.ResponseWriter,
 		}))
 	}
 
-	// if we never got an earliest, we need to measure without it to get the
-	// axes ready.
-	if measure_opts.Earliest == nil {
-		measured, ok = graph.Measure(ctx, measure_opts)
-		if !ok {
-			return errs.New("too small")
-		}
-	}
-
 	// draw the graph
 	out := measured.Draw(ctx, graph.DrawOptions{
 		Canvas:  nil,
-- 
2.43.0


From af3609a025191810b918e3aec48574c2c3e6dd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:22 +0000
Subject: [PATCH 29/55] fix: do not allocate for or crash with any result limit

---
 api/query/search.go | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/api/query/search.go b/api/query/search.go
index 8e2416d..c5c79ac 100644
--- a/api/query/search.go
+++ b/api/query/search.go
@@ -8,8 +8,9 @@ import (
 
 // Search represents a metric search.
 type Search struct {
-	specs   []spec
-	matched []string
+	specs    []spec
+	capacity int
+	matched  []string
 }
 
 // New constructs a metric searcher from the query string.
@@ -20,8 +21,9 @@ func New(query string, capacity int) *Search {
 		specs[i] = newSpec(part)
 	}
 	return &Search{
-		specs:   specs,
-		matched: make([]string, 0, capacity),
+		specs:    specs,
+		capacity: capacity,
+		matched:  make([]string, 0),
 	}
 }
 
@@ -37,7 +39,7 @@ func (s *Search) Match(metric string) bool {
 
 // Add is meant to be passed to a disk.Metrics call.
 func (s *Search) Add(name string) (bool, error) {
-	if len(s.matched) == cap(s.matched) {
+	if len(s.matched) >= s.capacity {
 		return false, nil
 	}
 	if !s.Match(name) {
-- 
2.43.0


From 925e94396bdce631dcb753fe440807a9b11035a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:52 +0000
Subject: [PATCH 30/55] fix: match wildcards and components that are empty

---
 api/query/glob.go |  5 +++++
 api/query/spec.go | 42 ++++++++++++++++++++++++------------------
 2 files changed, 29 insertions(+), 18 deletions(-)

diff --git a/api/query/glob.go b/api/query/glob.go
index 7ff235a..de10b5e 100644
--- a/api/query/glob.go
+++ b/api/query/glob.go
@@ -12,6 +12,11 @@ func glob(pattern, name string) bool {
 
 	for px < len(pattern) {
 		if nx >= len(name) {
+			// a wildcard also matches nothing at all
+			if pattern[px] == '*' {
+				px++
+				continue
+			}
 			return false
 		}
 		n := name[nx]
diff --git a/api/query/spec.go b/api/query/spec.go
index ca083c3..39a35cc 100644
--- a/api/query/spec.go
+++ b/api/query/spec.go
@@ -47,32 +47,38 @@ func globify(part string) string {
 
 // Match returns true if the spec matches the metric.
 func (s spec) Match(metric string) bool {
-top:
-	for {
-		if len(metric) == 0 {
-			return false
+	for more := true; more; {
+		if s.matchFirst(metric) {
+			return true
 		}
+		_, metric, more = splitMetric(metric)
+	}
+	return false
+}
 
+// matchFirst returns true if the spec matches the first components of the
+// metric.
+func (s spec) matchFirst(metric string) bool {
+	more := true
+	for _, g := range s.globs {
+		if !more {
+			return false
+		}
 		var part string
-		part, metric = splitMetric(metric)
-
-		tail := metric
-		for _, g := range s.globs {
-			if !glob(g, part) {
-				continue top
-			}
-			part, tail = splitMetric(tail)
+		part, metric, more = splitMetric(metric)
+		if !glob(g, part) {
+			return false
 		}
-
-		return true
 	}
+	return true
 }
 
-// splitMetric pulls off the first dot separated component of the metric.
-func splitMetric(metric string) (prefix, suffix string) {
+// splitMetric pulls off the first dot separated component of the metric, and
+// returns if there are more components in the suffix.
+func splitMetric(metric string) (prefix, suffix string, more bool) {
 	index := strings.IndexByte(metric, '.')
 	if index == -1 {
-		return metric, ""
+		return metric, "", false
 	}
-	return metric[:index], metric[index+1:]
+	return metric[:index], metric[index+1:], true
 }
-- 
2.43.0


From d5e0fb3e7b2fe9e5e3714cc48c048ef4c892b1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:55 +0000
Subject: [PATCH 31/55] fix: list directories of the static site

---
 internal/tgzfs/file.go |  9 +++++----
 internal/tgzfs/fs.go   | 24 +++++++++++++-----------
 2 files changed, 18 insertions(+), 15 deletions(-)

diff --git a/internal/tgzfs/file.go b/internal/tgzfs/file.go
index e3d3be4..594c526 100644
--- a/internal/tgzfs/file.go
+++ b/internal/tgzfs/file.go
@@ -62,16 +62,17 @@ func (h *fileHandle) Read(p []byte) (int, error) {
 	return h.data.Read(p)
 }
 
-// Readdir reads up to count entries from the listing and returns them.
+// Readdir reads up to count entries from the listing and returns them. If the
+// count is not positive, it returns all of the remaining entries.
 func (h *fileHandle) Readdir(count int) (entries []os.FileInfo, err error) {
-	if len(h.listing) == 0 {
+	if count > 0 && len(h.listing) == 0 {
 		return nil, io.EOF
 	}
-	if len(h.listing) < count {
+	if count <= 0 || len(h.listing) < count {
 		count = len(h.listing)
 	}
 	listing := h.listing[:count]
-	h.listing = h.listing[:len(h.listing)-len(listing)]
+	h.listing = h.listing[count:]
 	return listing, nil
 }
 
diff --git a/internal/tgzfs/fs.go b/internal/tgzfs/fs.go
index b7b3267..2fd011d 100644
--- a/internal/tgzfs/fs.go
+++ b/internal/tgzfs/fs.go
@@ -20,15 +20,16 @@ import (
 // rootMtime is the mtime for the root file.
 var rootMtime = time.Now()
 
-// rootFileInfo is a fake file info for the root of the tree.
-type rootFileInfo struct{}
+// dirFileInfo is a fake file info for the root of the tree and directories
+// that have no entry in the tarball.
+type dirFileInfo struct{ name string }
 
-func (r rootFileInfo) Name() string       { return "" }
-func (r rootFileInfo) Size() int64        { return 0 }
-func (r rootFileInfo) Mode() os.FileMode  { return os.ModeDir }
-func (r rootFileInfo) ModTime() time.Time { return rootMtime }
-func (r rootFileInfo) IsDir() bool        { return true }
-func (r rootFileInfo) Sys() interface{}   { return nil }
+func (d dirFileInfo) Name() string       { return d.name }
+func (d dirFileInfo) Size() int64        { return 0 }
+func (d dirFileInfo) Mode() os.FileMode  { return os.ModeDir }
+func (d dirFileInfo) ModTime() time.Time { return rootMtime }
+func (d dirFileInfo) IsDir() bool        { return true }
+func (d dirFileInfo) Sys() interface{}   { return nil }
 
 // FS is an http.FileServer for a tarball.
 type FS struct {
@@ -46,7 +47,7 @@ func New(data []byte) (*FS, error) {
 	fs := &FS{
 		root: newFile(),
 	}
-	fs.root.setFileInfo(rootFileInfo{})
+	fs.root.setFileInfo(dirFileInfo{})
 
 	tardata := tar.NewReader(gzdata)
 	for {
@@ -75,9 +76,9 @@ func New(data []byte) (*FS, error) {
 }
 
 // splitPath splits a cleaned version of the path. It assumes unix style path
-// separators.
+// separators, and that the path is relative to the root.
 func splitPath(p string) []string {
-	return strings.Split(path.Clean(p), "/")
+	return strings.Split(path.Clean("/"+p), "/")
 }
 
 // getFile returns the *file at the given path, allocating file structures
@@ -96,6 +97,7 @@ func (fs *FS) getFile(path string, alloc bool) *file {
 				return fs.def
 			}
 			child = newFile()
+			child.setFileInfo(dirFileInfo{name: part})
 			children[part] = child
 		}
 	}
-- 
2.43.0


From dae81d7bab3d02551bc6e1cac2139ba82ac53db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:58 +0000
Subject: [PATCH 32/55] fix: refuse a configuration without a duration

---
 run.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/run.go b/run.go
index a8fae0c..63ce238 100644
--- a/run.go
+++ b/run.go
@@ -70,6 +70,11 @@ The run command starts up the rothko system
 // binary. The started return value is true if the services were created and
 // started before returning.
 func run(ctx context.Context, conf *config.Config) (started bool, err error) {
+	if conf.Main.Duration <= 0 {
+		return false, errs.New("main.duration must be positive: %v",
+			conf.Main.Duration)
+	}
+
 	// load the plugins
 	for _, path := range conf.Main.Plugins {
 		external.Infow("loading plugin",
-- 
2.43.0


From 11d0515c83b66a32bdf32d2a02241a563eb565dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:49 +0000
Subject: [PATCH 33/55] verif: hooks between the effects of the files database

---
 database/files/db.go            |  1 +
 database/files/db_read.go       |  5 +++++
 database/files/db_write.go      |  2 ++
 database/files/file.go          |  5 +++++
 database/files/hook_no_verif.go | 10 ++++++++++
 database/files/hook_verif.go    | 18 ++++++++++++++++++
 database/files/metric.go        |  6 ++++++
 7 files changed, 47 insertions(+)
 create mode 100644 database/files/hook_no_verif.go
 create mode 100644 database/files/hook_verif.go

diff --git a/database/files/db.go b/database/files/db.go
index c438587..3c901ab 100644
--- a/database/files/db.go
+++ b/database/files/db.go
@@ -234,6 +234,7 @@ func (db *DB) Run(ctx context.Context) error {
 
 	// set a new queue for the next calls to Queue
 	db.queue.Store(make(chan queuedValue, db.opts.Tuning.Buffer))
+	hook("stopping", db.dir)
 
 	// close and empty the old queue. close is safe because all of the callers
 	// writing to it recover any panics.
diff --git a/database/files/db_read.go b/database/files/db_read.go
index a1cd66b..08cfcdd 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -28,6 +28,7 @@ func (db *DB) Query(ctx context.Context, metric string, end int64,
 	if err != nil {
 		return err
 	}
+	hook("query", metric)
 
 	return met.Read(ctx, end, buf, cb)
 }
@@ -63,6 +64,8 @@ func (db *DB) Metrics(ctx context.Context,
 		names = sset.New(0)
 	}
 
+	hook("listing", db.dir)
+
 	// merge the worker sets in if there is something in them
 	copied := false
 	for i := range db.names_w {
@@ -116,6 +119,8 @@ func (db *DB) PopulateMetrics(ctx context.Context) (err error) {
 		return err
 	}
 
+	hook("walked", db.dir)
+
 	// all stores to the names map have to be done under the names_mu mutex.
 	db.names_mu.Lock()
 	if names, ok := db.names.Load().(*sset.Set); ok {
diff --git a/database/files/db_write.go b/database/files/db_write.go
index 4954036..d45f58a 100644
--- a/database/files/db_write.go
+++ b/database/files/db_write.go
@@ -36,6 +36,7 @@ func (db *DB) Queue(ctx context.Context, metric string, start int64,
 
 	// grab the queue and send the value down it, blocking if necessary.
 	queue := db.queue.Load().(chan queuedValue)
+	hook("queue", metric)
 	value := queuedValue{
 		metric: metric,
 		start:  start,
@@ -124,6 +125,7 @@ func (db *DB) write(ctx context.Context, num int, value queuedValue) (
 			should_store = true
 		}
 
+		hook("written", value.metric)
 		if should_store {
 			db.names_w_mu[num].Lock()
 			db.names_w[num].Add(value.metric)
diff --git a/database/files/file.go b/database/files/file.go
index 8d8fd7e..7632cc9 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -47,6 +47,7 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		}
 	}()
 	fd := int(fh.Fd())
+	hook("created", path)
 
 	// these overflow checks might be too restrictive, but i think it will
 	// go up to 1GB at least, so meh that's probably good enough. we can
@@ -73,6 +74,8 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		return file{}, err
 	}
 
+	hook("allocated", path)
+
 	data, err := system.Mmap(fd, len,
 		system.PROT_READ|system.PROT_WRITE,
 		system.MAP_SHARED)
@@ -85,12 +88,14 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		Head:  cap - 1,
 	})
 	if err == nil {
+		hook("prepared", path)
 		err = Error.Wrap(os.Rename(tmp_path, path))
 	}
 	if err != nil {
 		system.Munmap(data, len)
 		return file{}, err
 	}
+	hook("published", path)
 
 	return file{
 		data: data,
diff --git a/database/files/hook_no_verif.go b/database/files/hook_no_verif.go
new file mode 100644
index 0000000..4d67df7
--- /dev/null
+++ b/database/files/hook_no_verif.go
@@ -0,0 +1,10 @@
+// Copyright (C) 2018. See AUTHORS.
+
+//go:build !verif
+// +build !verif
+
+package files
+
+// hook does nothing in a normal build, so that Go can inline and remove it
+// from the compiled output.
+func hook(point, name string) {}
diff --git a/database/files/hook_verif.go b/database/files/hook_verif.go
new file mode 100644
index 0000000..c0edf64
--- /dev/null
+++ b/database/files/hook_verif.go
@@ -0,0 +1,18 @@
+// Copyright (C) 2018. See AUTHORS.
+
+//go:build verif
+// +build verif
+
+package files
+
+// Hook is called, if it is not nil, between the individual effects that the
+// database has on its files, and at the points where goroutines hand over to
+// each other. The name is the path or the metric that it is about. It must be
+// set before any database is used.
+var Hook func(point, name string)
+
+func hook(point, name string) {
+	if Hook != nil {
+		Hook(point, name)
+	}
+}
diff --git a/database/files/metric.go b/database/files/metric.go
index af6eaec..b3673bf 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -206,6 +206,7 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 			m.opts.fch.releaseFile(path, f)
 			m.opts.fch.evictFile(path)
 			os.Remove(path)
+			hook("removed", path)
 			m.last--
 
 			continue
@@ -278,6 +279,7 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 			first_path := m.filenameAt(m.first)
 			m.opts.fch.evictFile(first_path)
 			os.Remove(first_path)
+			hook("removed", first_path)
 			m.first++
 		}
 
@@ -314,11 +316,13 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	// the next value will end. clear it so that it is not taken as a part of
 	// the data.
 	f.ClearRecord(ctx, new_head)
+	hook("cleared", m.filenameAt(m.last))
 
 	// write the records into the file
 	err = iterateRecords(start, end, data, f.Size(),
 		func(rec record) error {
 			err := f.SetRecord(ctx, head, rec)
+			hook("record", m.filenameAt(m.last))
 			head++
 			return err
 		})
@@ -349,6 +353,7 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	if err != nil {
 		return true, err
 	}
+	hook("metadata", m.filenameAt(m.last))
 
 	return true, nil
 }
@@ -378,6 +383,7 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 				return false, err
 			}
 			defer m.opts.fch.releaseFile(path, f)
+			hook("reading", path)
 
 			// check if the file would have any data. if not, just skip it.
 			meta, err := f.Metadata(ctx)
-- 
2.43.0


From 746bca51c06f66be7409bca8c8e271fefc7a6ab9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:40 +0000
Subject: [PATCH 34/55] fix: do not create data files with records too large to
 write

---
 database/files/file.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/files/file.go b/database/files/file.go
index 7632cc9..041335a 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -69,6 +69,11 @@ func createFile(ctx context.Context, path string, size, cap int) (
 		return file{}, Error.New("size too small")
 	}
 
+	// no value could ever be written to a file with larger records.
+	if numRecords(0, size) == 0 {
+		return file{}, Error.New("size too large")
+	}
+
 	len := size * (cap + 1)
 	if err := system.Allocate(fd, int64(len)); err != nil {
 		return file{}, err
-- 
2.43.0


From e13ffffa2c4c8ed1b79955815a7bf186883bc54b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:04 +0000
Subject: [PATCH 35/55] fix: order values after a crash by what can be read

---
 database/files/metric.go | 102 ++++++++++++++++++++++++++++++---------
 1 file changed, 80 insertions(+), 22 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index b3673bf..005dad9 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -219,6 +219,72 @@ func (m *metric) acquireLast(ctx context.Context) (f file, head int,
 	return file{}, 0, Error.New("unable to acquire last file")
 }
 
+// latestEnd returns the end of the latest value that can be read, if there is
+// any. f is the file at m.last, and head the first record in it. just like
+// reads do, it skips what a crash or some damage left unreadable, because that
+// should neither stop writes forever nor let them go back in time.
+func (m *metric) latestEnd(ctx context.Context, f file, head int) (
+	end int64, ok bool) {
+
+	if end, ok := latestEndIn(ctx, f, head); ok {
+		return end, true
+	}
+
+	for num := m.last - 1; num >= m.first; num-- {
+		path := m.filenameAt(num)
+		f, err := m.opts.fch.acquireFile(ctx, path, true)
+		if err != nil {
+			continue
+		}
+		head, err := getHeadPointer(ctx, f)
+		if err == nil {
+			end, ok = latestEndIn(ctx, f, head+1)
+		}
+		m.opts.fch.releaseFile(path, f)
+		if ok {
+			return end, true
+		}
+	}
+
+	return 0, false
+}
+
+// latestEndIn returns the end of the first complete value that starts at or
+// after head in the file.
+func latestEndIn(ctx context.Context, f file, head int) (end int64, ok bool) {
+	for head < f.Capacity() {
+		rec, err := f.Record(ctx, head)
+		head++
+		if err != nil {
+			external.Errorw("error reading record",
+				"err", err,
+			)
+			continue
+		}
+		if rec.kind == recordKind_complete {
+			return rec.end, true
+		}
+		if rec.kind != recordKind_begin {
+			continue
+		}
+
+		// the value only counts if all of it is there.
+		for rec.kind != recordKind_end {
+			rec, err = f.Record(ctx, head)
+			head++
+			if err != nil || (rec.kind != recordKind_continue &&
+				rec.kind != recordKind_end) {
+				break
+			}
+		}
+		if err == nil && rec.kind == recordKind_end {
+			return rec.end, true
+		}
+	}
+
+	return 0, false
+}
+
 // Write stores the data in the metric if there is room and the data is
 // chronologically later than the last data stored. additionally, it cleans
 // any files older than max if it had to allocate a new file. it returns if
@@ -238,20 +304,8 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 
 	// if the last file has a record, ensure monotonicity with it.
 	if f.HasRecord(ctx, head) {
-		last_rec, err := f.Record(ctx, head)
-		if err != nil {
-			// reads skip records that are not readable, so they should not
-			// stop writes forever either. the metadata knows the last end.
-			external.Errorw("error reading record",
-				"err", err,
-			)
-			meta, err := f.Metadata(ctx)
-			if err != nil {
-				return false, err
-			}
-			last_rec.end = meta.End
-		}
-		if last_rec.end >= end {
+		last_end, ok := m.latestEnd(ctx, f, head)
+		if ok && last_end >= end {
 			return false, nil
 		}
 	}
@@ -336,15 +390,19 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	if err != nil {
 		return true, err
 	}
-	// the first value in the file has the smallest start and end. zero is as
-	// good a time as any, so it can not be used to tell if they are set: they
-	// are if the metadata already knows about some value.
+	// zero is as good a time as any, so it can not be used to tell if the start
+	// and smallest end are set: they are if the metadata already knows about
+	// some value. if it does not, a crash may have left some behind.
 	if meta.Head == f.Capacity()-1 {
-		first, err := f.Record(ctx, f.Capacity()-1)
-		if err == nil {
-			meta.Start = first.start
-			meta.SmallestEnd = first.end
+		meta.Start, meta.SmallestEnd = start, end
+		for i := f.Capacity() - 1; i > new_head; i-- {
+			rec, err := f.Record(ctx, i)
+			if err == nil && rec.end < meta.SmallestEnd {
+				meta.Start, meta.SmallestEnd = rec.start, rec.end
+			}
 		}
+	} else if end < meta.SmallestEnd {
+		meta.Start, meta.SmallestEnd = start, end
 	}
 	meta.Head = new_head
 	meta.End = end
@@ -390,7 +448,7 @@ func (m *metric) Read(ctx context.Context, end int64, buf []byte,
 			if err != nil {
 				return false, err
 			}
-			if meta.SmallestEnd >= end {
+			if meta.Head < f.Capacity()-1 && meta.SmallestEnd >= end {
 				// earlier files may still have data before the end.
 				return true, nil
 			}
-- 
2.43.0


From 9e00d80c6f7dee09630d140a3288fe6034c8e3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:56 +0000
Subject: [PATCH 36/55] fix: go on after graphite lines that are too long

---
 listener/graphite/listener.go | 34 +++++++++++++++++++++++++++++-----
 1 file changed, 29 insertions(+), 5 deletions(-)

diff --git a/listener/graphite/listener.go b/listener/graphite/listener.go
index 9815bfa..2c3a849 100644
--- a/listener/graphite/listener.go
+++ b/listener/graphite/listener.go
@@ -6,6 +6,7 @@ import (
 	"bufio"
 	"bytes"
 	"context"
+	"io"
 	"net"
 	"strconv"
 	"sync"
@@ -15,6 +16,9 @@ import (
 	"github.com/zeebo/errs"
 )
 
+// maxLine is the length of the longest line that is handled.
+const maxLine = 64 * 1024
+
 // Listener implements the listener.Listener for the graphite wire protocol.
 type Listener struct {
 	address string
@@ -104,18 +108,38 @@ func handleConn(ctx context.Context, w *data.Writer, conn net.Conn) (
 	// TODO(jeff): don't return an error when the conn is closed due to the
 	// context.
 
-	scanner := bufio.NewScanner(conn)
-	for scanner.Scan() {
-		err := handleLine(ctx, w, scanner.Bytes())
+	reader := bufio.NewReaderSize(conn, maxLine)
+	for {
+		line, long, err := reader.ReadLine()
+		if err == io.EOF {
+			return nil
+		}
+		if err != nil {
+			return errs.Wrap(err)
+		}
+
+		// skip the rest of lines that are too long, so that the ones following
+		// it on the connection are still handled.
+		if long {
+			external.Errorw("invalid graphite line",
+				"peer", conn.RemoteAddr().String(),
+				"err", "line too long",
+			)
+			for long && err == nil {
+				_, long, err = reader.ReadLine()
+			}
+			continue
+		}
+
+		err = handleLine(ctx, w, line)
 		if err != nil {
 			external.Errorw("invalid graphite line",
-				"line", scanner.Text(),
+				"line", string(line),
 				"peer", conn.RemoteAddr().String(),
 				"err", err.Error(),
 			)
 		}
 	}
-	return scanner.Err()
 }
 
 // handleLine adds the graphite data in the line to the writer.
-- 
2.43.0


From 0d9d37b19dbbe41f3d9a70a3f5dfaf41d8bdcda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:51 +0000
Subject: [PATCH 37/55] fix: keep quantiles within what was observed

---
 dist/tdigest/wrapper.go | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/dist/tdigest/wrapper.go b/dist/tdigest/wrapper.go
index db2dd62..c56b5d6 100644
--- a/dist/tdigest/wrapper.go
+++ b/dist/tdigest/wrapper.go
@@ -144,7 +144,20 @@ func (w Wrapper) Marshal(buf []byte) []byte {
 
 // Query returns the approximate x'th quantile.
 func (w Wrapper) Query(x float64) float64 {
-	return w.td.Quantile(x)
+	val := w.td.Quantile(x)
+
+	// the t-digest library extrapolates past the first and last centroids, but
+	// nothing that was observed can be out there. the means are sorted.
+	mean, n := val, 0
+	w.td.ForEachCentroid(func(m float64, count uint32) bool {
+		mean = m
+		n++
+		return mean < val
+	})
+	if n == 1 || mean < val {
+		return mean
+	}
+	return val
 }
 
 // quan is a wrapper to memoize queried qualtile values for quickly estimating
@@ -156,7 +169,7 @@ func (w *Wrapper) quan(x float64) float64 {
 	if val, ok := w.cache[x]; ok {
 		return val
 	}
-	val := w.td.Quantile(x)
+	val := w.Query(x)
 	w.cache[x] = val
 	return val
 }
-- 
2.43.0


From 526b68c4bd2f9355410634d3356e6107e1683daf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:52:28 +0000
Subject: [PATCH 38/55] fix: map times to pixels without overflowing

---
 merge/merger.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/merge/merger.go b/merge/merger.go
index 7321692..02d3322 100644
--- a/merge/merger.go
+++ b/merge/merger.go
@@ -85,8 +85,11 @@ func (m *Merger) timeToPixel(time int64) int64 {
 		time = earliest
 	}
 
-	delta := m.opts.Now - time + m.pixel_size - 1
+	delta := m.opts.Now - time
 	px := int64(m.width) - (delta / m.pixel_size)
+	if delta%m.pixel_size != 0 {
+		px-- // round up, where adding to delta could overflow
+	}
 	if px < 0 {
 		px = 0
 	}
-- 
2.43.0


From b4775024f5ba6d9e08f33530dced5972ed5912d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:58 +0000
Subject: [PATCH 39/55] fix: keep the columns of the observations axis inside
 of it

---
 draw/observations/obs.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/draw/observations/obs.go b/draw/observations/obs.go
index 93987e1..b683cd4 100644
--- a/draw/observations/obs.go
+++ b/draw/observations/obs.go
@@ -96,8 +96,11 @@ func (m Measured) Draw(ctx context.Context, cols []draw.Column,
 		}
 		c := draw.Color{sat, sat, sat}
 		for y := 0; y < m.opts.Height; y++ {
-			for x := 0; x < col.W; x++ {
-				canvas.Set(x+col.X, y+padding+label_height, c)
+			for x := col.X; x < col.X+col.W && x < m.Width; x++ {
+				if x < 0 {
+					continue // clip the column to the axis
+				}
+				canvas.Set(x, y+padding+label_height, c)
 			}
 		}
 	}
-- 
2.43.0


From a3c6139da86f8b958238fc4d40f8e81c79ae198c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:14:14 +0000
Subject: [PATCH 40/55] fix: make views into views relative to them

---
 draw/common.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/draw/common.go b/draw/common.go
index 5aea292..46e958e 100644
--- a/draw/common.go
+++ b/draw/common.go
@@ -72,8 +72,8 @@ func (m *RGB) Raw(x, y int) []uint8 {
 
 // View returns a view into the RGB.
 func (m RGB) View(x, y, w, h int) *RGB {
-	m.X = x
-	m.Y = y
+	m.X += x
+	m.Y += y
 	m.Width = w
 	m.Height = h
 	return &m
-- 
2.43.0


From 7ec2ea26924438625fa9cbd52e491e2fdd730209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:39 +0000
Subject: [PATCH 41/55] fix: close the right file when a template fails

---
 internal/tmplfs/fs.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/internal/tmplfs/fs.go b/internal/tmplfs/fs.go
index da37a27..b688909 100644
--- a/internal/tmplfs/fs.go
+++ b/internal/tmplfs/fs.go
@@ -39,8 +39,8 @@ type wrapper struct {
 }
 
 // Open implements http.FileSystem and processes any html files as a template.
-func (w *wrapper) Open(name string) (f http.File, err error) {
-	f, err = w.fs.Open(name)
+func (w *wrapper) Open(name string) (_ http.File, err error) {
+	f, err := w.fs.Open(name)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 387763ae3f90efd6484a2278aaa403a1adcfab69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:25 +0000
Subject: [PATCH 42/55] fix: refuse listeners that are no table

---
 config/load.go | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/config/load.go b/config/load.go
index 8c5aacc..46d6d95 100644
--- a/config/load.go
+++ b/config/load.go
@@ -33,10 +33,19 @@ func Load(data []byte) (*Config, error) {
 		} `toml:"api"`
 	}
 
-	if err := toml.Unmarshal(data, &tomlConfig); err != nil {
+	meta, err := toml.Decode(string(data), &tomlConfig)
+	if err != nil {
 		return nil, ParseError.Wrap(err)
 	}
 
+	// the library quietly ignores values that are no table where a map is
+	// expected, and the listeners are the only ones that may be empty.
+	switch kind := meta.Type("listeners"); kind {
+	case "", "Hash":
+	default:
+		return nil, ParseError.New("listeners must be a table: got %s", kind)
+	}
+
 	if len(tomlConfig.Database) != 1 {
 		return nil, ParseError.New("exactly one database must be specified")
 	}
-- 
2.43.0


From 5c3841761a65833b26822340109f8f3b78bb261a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:27 +0000
Subject: [PATCH 43/55] fix: return an error for any invalid toml

---
 config/load.go | 20 ++++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/config/load.go b/config/load.go
index 46d6d95..e7eef6b 100644
--- a/config/load.go
+++ b/config/load.go
@@ -33,9 +33,9 @@ func Load(data []byte) (*Config, error) {
 		} `toml:"api"`
 	}
 
-	meta, err := toml.Decode(string(data), &tomlConfig)
+	meta, err := decode(data, &tomlConfig)
 	if err != nil {
-		return nil, ParseError.Wrap(err)
+		return nil, err
 	}
 
 	// the library quietly ignores values that are no table where a map is
@@ -96,3 +96,19 @@ func Load(data []byte) (*Config, error) {
 
 	return conf, nil
 }
+
+// decode parses the toml into the value. The library panics on some of the
+// data that is not valid, and that is an error like any other.
+func decode(data []byte, into interface{}) (meta toml.MetaData, err error) {
+	defer func() {
+		if rec := recover(); rec != nil {
+			err = ParseError.New("invalid toml: %v", rec)
+		}
+	}()
+
+	meta, err = toml.Decode(string(data), into)
+	if err != nil {
+		return meta, ParseError.Wrap(err)
+	}
+	return meta, nil
+}
-- 
2.43.0


From c237b52dd9100cb4b3b64e8d350a9b3960db7dc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:54:35 +0000
Subject: [PATCH 44/55] fix: do not hang in the demo when a value is refused at
 once

---
 demo.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/demo.go b/demo.go
index c1ddc16..578b7e2 100644
--- a/demo.go
+++ b/demo.go
@@ -145,7 +145,8 @@ func addDemoData(ctx context.Context, params dist.Params, db database.DB) (
 		observations = 300            // number of observations per record
 	)
 
-	errors := make(chan error)
+	// the answer may come from inside of the call to Queue
+	errors := make(chan error, 1)
 	now := time.Now()
 	start := now.Add(-duration)
 	tdelta := now.Sub(start) / records
-- 
2.43.0


From ca070d89e7477eb1c050ec702b07b85f8925a0de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:12:59 +0000
Subject: [PATCH 45/55] fix: never write through a link in init

---
 init.go | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/init.go b/init.go
index 2992a9b..03490c7 100644
--- a/init.go
+++ b/init.go
@@ -4,7 +4,6 @@ package rothko
 
 import (
 	"fmt"
-	"io/ioutil"
 	"os"
 
 	"github.com/urfave/cli"
@@ -30,20 +29,26 @@ edited, but contains useful defaults.
 			return err
 		}
 
-		_, err := os.Stat(configPath)
-		switch {
-		case os.IsNotExist(err):
-		case err == nil:
+		// creating it exclusively makes sure that nothing is overwritten, even
+		// if it is a link to nowhere or someone else creates it right now.
+		fh, err := os.OpenFile(
+			configPath, os.O_WRONLY|os.O_CREATE|os.O_EXCL, 0644)
+		if os.IsExist(err) {
 			fmt.Printf("config file already exists. remove %q first\n",
 				configPath)
 			return handled.New("")
-		case err != nil:
+		}
+		if err != nil {
 			return errs.Wrap(err)
 		}
+		defer fh.Close()
 
-		err = ioutil.WriteFile(
-			configPath, []byte(config.InitialConfig), 0644)
+		_, err = fh.WriteString(config.InitialConfig)
+		if err == nil {
+			err = fh.Close()
+		}
 		if err != nil {
+			os.Remove(configPath)
 			return errs.Wrap(err)
 		}
 
-- 
2.43.0


From 2e574995cf0f2ef320768931950e0d57158ddd59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:24 +0000
Subject: [PATCH 46/55] fix: refuse database settings that can not work

---
 database/files/db.go       | 15 ++++++++--
 database/files/file.go     | 56 ++++++++++++++++++++++----------------
 database/files/register.go | 16 +++++++++++
 3 files changed, 62 insertions(+), 25 deletions(-)

diff --git a/database/files/db.go b/database/files/db.go
index 3c901ab..b2e89de 100644
--- a/database/files/db.go
+++ b/database/files/db.go
@@ -116,7 +116,7 @@ type queuedValue struct {
 // options.
 func New(dir string, opts Options) *DB {
 	// set up the number of workers
-	if opts.Tuning.Workers == 0 {
+	if opts.Tuning.Workers <= 0 {
 		opts.Tuning.Workers = runtime.GOMAXPROCS(-1) - 1
 
 		// in the worst case, run one worker anyway
@@ -138,6 +138,17 @@ func New(dir string, opts Options) *DB {
 		opts.Tuning.Handles = 0
 	}
 
+	// set up the size of the buffer
+	if opts.Tuning.Buffer < 0 {
+		opts.Tuning.Buffer = 0
+	}
+
+	// sizes that no file can have are refused when writing
+	bufsize := opts.Size
+	if numRecords(0, bufsize) == 0 {
+		bufsize = 0
+	}
+
 	var queue atomic.Value
 	queue.Store(make(chan queuedValue, opts.Tuning.Buffer))
 
@@ -152,7 +163,7 @@ func New(dir string, opts Options) *DB {
 
 		queue: queue,
 		bufs: sync.Pool{
-			New: func() interface{} { return make([]byte, opts.Size) },
+			New: func() interface{} { return make([]byte, bufsize) },
 		},
 		locks: newLockPool(),
 
diff --git a/database/files/file.go b/database/files/file.go
index 041335a..31107f1 100644
--- a/database/files/file.go
+++ b/database/files/file.go
@@ -26,6 +26,37 @@ type file struct {
 	ref  ref     // for debugging leaks
 }
 
+// checkSize returns an error if no file can be created with the record size
+// and capacity.
+func checkSize(size, cap int) error {
+	// these overflow checks might be too restrictive, but i think it will
+	// go up to 1GB at least, so meh that's probably good enough. we can
+	// revisit making them up to a larger size size later, though the system
+	// will probably struggle with that anyway.
+	if cap <= 0 ||
+		cap+1 < cap ||
+		int(int32(cap)) != cap ||
+		int(int32(size)) != size ||
+		int32(size)*int32(cap)/int32(cap) != int32(size) {
+
+		return Error.New("invalid capacity")
+	}
+
+	// every metadata record has to fit, whatever the times in it are.
+	if max := (&meta.Metadata{
+		Size_: size, Head: -1, Start: -1, End: -1, SmallestEnd: -1,
+	}).Size(); size < recordHeaderSize+max {
+		return Error.New("size too small")
+	}
+
+	// no value could ever be written to a file with larger records.
+	if numRecords(0, size) == 0 {
+		return Error.New("size too large")
+	}
+
+	return nil
+}
+
 // createFile creates a file at the given path with the given record size.
 // the file is allocated with the ability to store cap records without a
 // resize.
@@ -49,29 +80,8 @@ func createFile(ctx context.Context, path string, size, cap int) (
 	fd := int(fh.Fd())
 	hook("created", path)
 
-	// these overflow checks might be too restrictive, but i think it will
-	// go up to 1GB at least, so meh that's probably good enough. we can
-	// revisit making them up to a larger size size later, though the system
-	// will probably struggle with that anyway.
-	if cap <= 0 ||
-		cap+1 < cap ||
-		int(int32(cap)) != cap ||
-		int(int32(size)) != size ||
-		int32(size)*int32(cap)/int32(cap) != int32(size) {
-
-		return file{}, Error.New("invalid capacity")
-	}
-
-	// every metadata record has to fit, whatever the times in it are.
-	if max := (&meta.Metadata{
-		Size_: size, Head: -1, Start: -1, End: -1, SmallestEnd: -1,
-	}).Size(); size < recordHeaderSize+max {
-		return file{}, Error.New("size too small")
-	}
-
-	// no value could ever be written to a file with larger records.
-	if numRecords(0, size) == 0 {
-		return file{}, Error.New("size too large")
+	if err := checkSize(size, cap); err != nil {
+		return file{}, err
 	}
 
 	len := size * (cap + 1)
diff --git a/database/files/register.go b/database/files/register.go
index 9861c25..1d9577d 100644
--- a/database/files/register.go
+++ b/database/files/register.go
@@ -29,7 +29,23 @@ func init() {
 			if err := a.Err(); err != nil {
 				return nil, err
 			}
+			if err := opts.check(); err != nil {
+				return nil, err
+			}
 
 			return New(dir, opts), nil
 		}))
 }
+
+// check returns an error if no database can work with the options.
+func (o Options) check() error {
+	if err := checkSize(o.Size, o.Cap); err != nil {
+		return err
+	}
+	if o.Files < 0 || o.Tuning.Buffer < 0 || o.Tuning.Workers < 0 ||
+		o.Tuning.Handles < 0 {
+
+		return Error.New("files and tuning must not be negative")
+	}
+	return nil
+}
-- 
2.43.0


From 238a0555db5dac5ab1bb1ed964a5cef989f76d2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:28 +0000
Subject: [PATCH 47/55] fix: refuse compressions that drop every observation

---
 dist/tdigest/register.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dist/tdigest/register.go b/dist/tdigest/register.go
index 25d823b..23eeda2 100644
--- a/dist/tdigest/register.go
+++ b/dist/tdigest/register.go
@@ -8,6 +8,7 @@ import (
 	"github.com/vivint/rothko/dist"
 	"github.com/vivint/rothko/internal/typeassert"
 	"github.com/vivint/rothko/registry"
+	"github.com/zeebo/errs"
 )
 
 func init() {
@@ -24,6 +25,10 @@ func init() {
 			if err := a.Err(); err != nil {
 				return nil, err
 			}
+			if !validCompression(params.Compression) {
+				return nil, errs.New("invalid compression: %v",
+					params.Compression)
+			}
 
 			return params, nil
 		}))
-- 
2.43.0


From 09b78fbf0d630c6454fca887a46d611cecf3be51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:43:32 +0000
Subject: [PATCH 48/55] fix: list the working directory for an empty directory

---
 database/files/db.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/database/files/db.go b/database/files/db.go
index b2e89de..5e84d8f 100644
--- a/database/files/db.go
+++ b/database/files/db.go
@@ -115,6 +115,11 @@ type queuedValue struct {
 // New constructs a database with directory rooted at dir and the provided
 // options.
 func New(dir string, opts Options) *DB {
+	// an empty directory is the working directory, and not the root.
+	if dir == "" {
+		dir = "."
+	}
+
 	// set up the number of workers
 	if opts.Tuning.Workers <= 0 {
 		opts.Tuning.Workers = runtime.GOMAXPROCS(-1) - 1
-- 
2.43.0


From f73c8e270fe2825921f90ff0774a5c0a79929004 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:41:35 +0000
Subject: [PATCH 49/55] fix: keep accepting connections after temporary errors

---
 listener/graphite/listener.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/listener/graphite/listener.go b/listener/graphite/listener.go
index 2c3a849..cea63a2 100644
--- a/listener/graphite/listener.go
+++ b/listener/graphite/listener.go
@@ -10,6 +10,7 @@ import (
 	"net"
 	"strconv"
 	"sync"
+	"time"
 
 	"github.com/vivint/rothko/data"
 	"github.com/vivint/rothko/external"
@@ -71,6 +72,15 @@ func handleListener(ctx context.Context, w *data.Writer, lis net.Listener) (
 
 	for {
 		conn, err := lis.Accept()
+		if ne, ok := err.(net.Error); ok && ne.Temporary() {
+			// running out of descriptors, for example, passes once some other
+			// connection is closed, and must not end everything.
+			external.Errorw("graphite accept error",
+				"err", err.Error(),
+			)
+			time.Sleep(10 * time.Millisecond)
+			continue
+		}
 		if err != nil {
 			return err
 		}
-- 
2.43.0


From 263c95255b96523a4c3edb9df36d908d460bdd64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:46 +0000
Subject: [PATCH 50/55] fix: refuse values that go back in time when the first
 record is damaged

---
 database/files/metric.go | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/database/files/metric.go b/database/files/metric.go
index 005dad9..8f7f182 100644
--- a/database/files/metric.go
+++ b/database/files/metric.go
@@ -302,12 +302,10 @@ func (m *metric) Write(ctx context.Context, start, end int64, data []byte) (
 	// point head at the first valid record (or out of bounds at the capacity)
 	head++
 
-	// if the last file has a record, ensure monotonicity with it.
-	if f.HasRecord(ctx, head) {
-		last_end, ok := m.latestEnd(ctx, f, head)
-		if ok && last_end >= end {
-			return false, nil
-		}
+	// if there is a value that can be read, ensure monotonicity with it.
+	last_end, has_last := m.latestEnd(ctx, f, head)
+	if has_last && last_end >= end {
+		return false, nil
 	}
 
 	// ensure we have capacity to write the value in the last file and create
-- 
2.43.0


From e7c2ebaf26793c105fa5dfb2254f0b745190d4a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:12:08 +0000
Subject: [PATCH 51/55] hook: latest value queries

---
 database/files/db_read.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/database/files/db_read.go b/database/files/db_read.go
index 08cfcdd..b1a30f5 100644
--- a/database/files/db_read.go
+++ b/database/files/db_read.go
@@ -46,6 +46,7 @@ func (db *DB) QueryLatest(ctx context.Context, metric string, buf []byte) (
 	if err != nil {
 		return 0, 0, nil, err
 	}
+	hook("query", metric)
 
 	return met.ReadLast(ctx, buf)
 }
-- 
2.43.0


From 831e2c7e67ebf78b917c7b5506c689a02a496199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:14:24 +0000
Subject: [PATCH 52/55] fix: signals have no effect after a context bound to
 them was canceled

The handler was only removed when a signal ended the context. When it was
canceled, or its parent was, the process ignored the signal from then on: a
server that shuts down because a service failed could not be interrupted.
---
 internal/junk/signal.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/internal/junk/signal.go b/internal/junk/signal.go
index fe769e5..9cf3b55 100644
--- a/internal/junk/signal.go
+++ b/internal/junk/signal.go
@@ -19,6 +19,8 @@ func WithSignal(ctx context.Context, sigs ...os.Signal) (
 	signal.Notify(ch, sigs...)
 
 	go func() {
+		defer signal.Stop(ch)
+
 		select {
 		case <-ctx.Done():
 		case sig := <-ch:
@@ -26,7 +28,6 @@ func WithSignal(ctx context.Context, sigs ...os.Signal) (
 				"signal", sig.String(),
 			)
 			cancel()
-			signal.Stop(ch)
 		}
 	}()
 
-- 
2.43.0


From a688c37ba3ee0f2696fd3a7f686282ceee3eb533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:10 +0000
Subject: [PATCH 53/55] fix: with many data files the process ran out of
 mappings and crashed

The limit of the cached handles follows the limit of open files, which is
often far above the 65530 mappings a process can have by default. The
descriptors are closed right away, and the mappings are what is kept.
---
 database/files/db.go | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/database/files/db.go b/database/files/db.go
index 5e84d8f..2fb93f1 100644
--- a/database/files/db.go
+++ b/database/files/db.go
@@ -67,6 +67,11 @@ type Tuning struct {
 	Workers int
 }
 
+// maxHandles bounds the number of handles in the cache, whatever the limit of
+// open files is. Each of them is a mapping, and a process can only have 65530
+// of those by default. It crashes if it has no more left.
+const maxHandles = 50000
+
 // DB is a database implementing database.Sink and database.Source using a file
 // on disk for each metric.
 type DB struct {
@@ -142,6 +147,9 @@ func New(dir string, opts Options) *DB {
 	if opts.Tuning.Handles < 0 {
 		opts.Tuning.Handles = 0
 	}
+	if opts.Tuning.Handles > maxHandles {
+		opts.Tuning.Handles = maxHandles
+	}
 
 	// set up the size of the buffer
 	if opts.Tuning.Buffer < 0 {
-- 
2.43.0


From 8291279e09b2bdacb95ed6461e9cc3e5cc7a96c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:40:36 +0000
Subject: [PATCH 54/55] fix: log the status that failed requests are answered
 with

---
 api/server.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/api/server.go b/api/server.go
index 5b20755..2289a73 100644
--- a/api/server.go
+++ b/api/server.go
@@ -81,11 +81,11 @@ func (s *Server) ServeHTTP(w http.ResponseWriter, req *http.Request) {
 
 	w.Header().Set("Access-Control-Allow-Origin", s.opts.Origin)
 
-	tracker := &respTracker{ResponseWriter: w, wrote: false, code: 0}
+	tracker := &respTracker{ResponseWriter: w, wrote: false, code: http.StatusOK}
 	if err := s.serveHTTP(req.Context(), tracker, req); err != nil {
 		if !tracker.wrote {
-			w.WriteHeader(getStatusCode(err))
-			fmt.Fprintf(w, "%+v\n", err)
+			tracker.WriteHeader(getStatusCode(err))
+			fmt.Fprintf(tracker, "%+v\n", err)
 		}
 	}
 
-- 
2.43.0


From ca8dac9460c7eb767cb22895afbc2c658ce3549e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:16:30 +0000
Subject: [PATCH 55/55] fix: records whose lengths overflow are refused instead
 of panicking

---
 data/record.pb.go                       | 19 +++++++++++++++++--
 database/files/internal/meta/meta.pb.go |  7 +++++--
 2 files changed, 22 insertions(+), 4 deletions(-)

diff --git a/data/record.pb.go b/data/record.pb.go
index 4e021e9..999e435 100644
--- a/data/record.pb.go
+++ b/data/record.pb.go
@@ -289,6 +289,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -321,6 +324,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + intStringLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -371,6 +377,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -402,6 +411,9 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 				return ErrInvalidLengthRecord
 			}
 			postIndex := iNdEx + byteLen
+			if postIndex < 0 {
+				return ErrInvalidLengthRecord
+			}
 			if postIndex > l {
 				return io.ErrUnexpectedEOF
 			}
@@ -435,7 +447,7 @@ func (m *Record) Unmarshal(dAtA []byte) error {
 			if err != nil {
 				return err
 			}
-			if skippy < 0 {
+			if skippy < 0 || (iNdEx+skippy) < 0 {
 				return ErrInvalidLengthRecord
 			}
 			if (iNdEx + skippy) > l {
@@ -505,7 +517,7 @@ func skipRecord(dAtA []byte) (n int, err error) {
 				}
 			}
 			iNdEx += length
-			if length < 0 {
+			if length < 0 || iNdEx < 0 {
 				return 0, ErrInvalidLengthRecord
 			}
 			return iNdEx, nil
@@ -536,6 +548,9 @@ func skipRecord(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if iNdEx < 0 {
+					return 0, ErrInvalidLengthRecord
+				}
 			}
 			return iNdEx, nil
 		case 4:
diff --git a/database/files/internal/meta/meta.pb.go b/database/files/internal/meta/meta.pb.go
index 06a94ae..770a595 100644
--- a/database/files/internal/meta/meta.pb.go
+++ b/database/files/internal/meta/meta.pb.go
@@ -249,7 +249,7 @@ func (m *Metadata) Unmarshal(dAtA []byte) error {
 			if err != nil {
 				return err
 			}
-			if skippy < 0 {
+			if skippy < 0 || (iNdEx+skippy) < 0 {
 				return ErrInvalidLengthMeta
 			}
 			if (iNdEx + skippy) > l {
@@ -319,7 +319,7 @@ func skipMeta(dAtA []byte) (n int, err error) {
 				}
 			}
 			iNdEx += length
-			if length < 0 {
+			if length < 0 || iNdEx < 0 {
 				return 0, ErrInvalidLengthMeta
 			}
 			return iNdEx, nil
@@ -350,6 +350,9 @@ func skipMeta(dAtA []byte) (n int, err error) {
 					return 0, err
 				}
 				iNdEx = start + next
+				if iNdEx < 0 {
+					return 0, ErrInvalidLengthMeta
+				}
 			}
 			return iNdEx, nil
 		case 4:
-- 
2.43.0

