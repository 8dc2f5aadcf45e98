From 48f83357645b60b183b25c3950b5800f66aaf73f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:18 +0000
Subject: [PATCH 01/41] fix: B+ tree lookups and iteration skip the rest of the
 tree when the probe falls between two leaves

The first call of TraversalIterator.Next reported the end of the tree when
the probe was greater than every key of the leaf it was routed to, although
later leaves may hold matching entries.
---
 pkg/bptree/bptree.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 51325cd..a09e6c5 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -111,9 +111,12 @@ func (p *TraversalIterator) incr(i, delta int) bool {
 
 func (p *TraversalIterator) Next() bool {
 	if p.records == nil {
-		res := p.init()
-
-		return res && (p.records[0].index != p.records[0].node.NumPointers())
+		if !p.init() {
+			return false
+		}
+		// the first entry may be in the next leaf, so step back and let incr
+		// roll over if necessary
+		p.records[0].index--
 	}
 	return p.incr(0, 1)
 }
-- 
2.43.0


From c1a97c5293ef2b8673fbf37121b2524583a18af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:39 +0000
Subject: [PATCH 02/41] fix: BPTree.Contains reports an empty value as present
 when nothing is found

---
 pkg/bptree/bptree.go | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index a09e6c5..07d6081 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -152,12 +152,15 @@ func (t *BPTree) Find(key pointer.ReferencedValue) (pointer.ReferencedValue, poi
 }
 
 func (t *BPTree) Contains(key pointer.ReferencedValue) (bool, error) {
-	k, _, err := t.Find(key)
+	p, err := t.Iter(key)
 	if err != nil {
 		return false, err
 	}
+	if !p.Next() {
+		return false, p.Err()
+	}
 
-	return bytes.Equal(k.Value, key.Value), nil
+	return bytes.Equal(p.Key().Value, key.Value), nil
 }
 
 func (t *BPTree) readNode(ptr pointer.MemoryPointer) (*BPTreeNode, error) {
-- 
2.43.0


From 9c28cee329dc56b6120a935ff4aaf93ac1df3aaa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:02 +0000
Subject: [PATCH 03/41] fix: a failure to read the root pointer is treated as
 an empty tree

Lookups then silently report nothing and an insert replaces the whole tree.
---
 pkg/bptree/bptree.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 07d6081..5725d92 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -23,7 +23,10 @@ type BPTree struct {
 
 func (t *BPTree) root() (*BPTreeNode, pointer.MemoryPointer, error) {
 	mp, err := t.MetaPage.Root()
-	if err != nil || mp.Length == 0 {
+	if err != nil {
+		return nil, mp, err
+	}
+	if mp.Length == 0 {
 		return nil, mp, nil
 	}
 	root, err := t.readNode(mp)
-- 
2.43.0


From 3db3e9dce6fdefb398a8991c37f49594e85d20ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:42 +0000
Subject: [PATCH 04/41] fix: vectors read back from a b-tree node are not the
 stored vectors

The bit pattern of each element was converted as an integer.
---
 pkg/btree/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/btree/node.go b/pkg/btree/node.go
index 18c6bf5..21a522e 100644
--- a/pkg/btree/node.go
+++ b/pkg/btree/node.go
@@ -141,7 +141,7 @@ func (n *BTreeNode) UnmarshalBinary(buf []byte) error {
 		vector := make(hnsw.Point, vecdim)
 
 		for vi := range vector {
-			vector[vi] = float32(binary.LittleEndian.Uint32(buf[m:]))
+			vector[vi] = math.Float32frombits(binary.LittleEndian.Uint32(buf[m:]))
 			m += 4
 		}
 
-- 
2.43.0


From 917dcab13a645a40f18c71610bfbf5502749ec6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:43 +0000
Subject: [PATCH 05/41] fix: the free page list panics once its ring buffer
 wraps around

---
 pkg/pagefile/pagefile.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/pagefile/pagefile.go b/pkg/pagefile/pagefile.go
index dbf9ba2..1c42c4e 100644
--- a/pkg/pagefile/pagefile.go
+++ b/pkg/pagefile/pagefile.go
@@ -100,7 +100,7 @@ func (pf *PageFile) writeFreePageIndices() error {
 	buf := make([]byte, len(pf.freePageIndexes)*8)
 	tail := (pf.freePageHead - pf.freePageCount + len(pf.freePageIndexes)) % len(pf.freePageIndexes)
 	for i := 0; i < pf.freePageCount; i++ {
-		offset := pf.freePageIndexes[tail+i]
+		offset := pf.freePageIndexes[(tail+i)%len(pf.freePageIndexes)]
 		binary.LittleEndian.PutUint64(buf[i*8:(i+1)*8], uint64(offset))
 	}
 	if _, err := pf.ReadWriteSeeker.Seek(0, io.SeekStart); err != nil {
-- 
2.43.0


From f413be230641b69ff1a0dc0962af96ddcfda7b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 06/41] fix: reading slot metadata of 255 bytes panics

1+length overflowed the byte.
---
 pkg/linkedpage/linkedpage.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/linkedpage/linkedpage.go b/pkg/linkedpage/linkedpage.go
index d11bfc0..e56c482 100644
--- a/pkg/linkedpage/linkedpage.go
+++ b/pkg/linkedpage/linkedpage.go
@@ -132,7 +132,7 @@ func (m *LinkedPage) Metadata() ([]byte, error) {
 	}
 	// the first byte represents the length
 	length := buf[0]
-	return buf[1 : 1+length], nil
+	return buf[1 : 1+int(length)], nil
 }
 
 func (m *LinkedPage) UnmarshalMetadata(bu encoding.BinaryUnmarshaler) error {
-- 
2.43.0


From 5f83a6ed3b387bd58abc2a8c5f4b4c936ea50cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:44 +0000
Subject: [PATCH 07/41] fix: IsEmpty reports the opposite

---
 pkg/appendable/index_file.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index 263568b..bc7a415 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -110,7 +110,7 @@ func (i *IndexFile) IsEmpty() (bool, error) {
 	if err != nil && !errors.Is(err, io.EOF) {
 		return false, fmt.Errorf("failed to get next meta page: %w", err)
 	}
-	return n != nil, nil
+	return n == nil, nil
 }
 
 func (i *IndexFile) IndexFieldNames() ([]string, error) {
-- 
2.43.0


From 0a2c3e50a092d973ac3c256ee6e550eacaa475c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:45 +0000
Subject: [PATCH 08/41] fix: decoding truncated index metadata panics

---
 pkg/appendable/appendable.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pkg/appendable/appendable.go b/pkg/appendable/appendable.go
index 02f76d4..bcc86f0 100644
--- a/pkg/appendable/appendable.go
+++ b/pkg/appendable/appendable.go
@@ -160,13 +160,13 @@ func (m *IndexMeta) MarshalBinary() ([]byte, error) {
 }
 
 func (m *IndexMeta) UnmarshalBinary(buf []byte) error {
-	if len(buf) < 4 {
+	if len(buf) < 6 {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldType = FieldType(binary.LittleEndian.Uint16(buf[0:]))
 	m.Width = binary.LittleEndian.Uint16(buf[2:])
-	nameLength := binary.LittleEndian.Uint16(buf[4:])
-	if len(buf) < 4+int(nameLength) {
+	nameLength := int(binary.LittleEndian.Uint16(buf[4:]))
+	if len(buf) < 6+nameLength {
 		return fmt.Errorf("invalid metadata size: %d", len(buf))
 	}
 	m.FieldName = string(buf[6 : 6+nameLength])
-- 
2.43.0


From 0c06150b8218d07df7429239e0b75e30b287ffaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:08 +0000
Subject: [PATCH 09/41] fix: growing a memory mapped file reports the file size
 as the number of bytes written

The position after Write then pointed past the end and the next Read panicked.
---
 pkg/mmap/mmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 3c0d219..b3102d0 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -150,11 +150,11 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 			}
 			return len(b), nil
 		}
-		b, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
+		mapped, err := mremap(m.bytes, int(m.file.Fd()), int(fi.Size()), m.prot, m.flags)
 		if err != nil {
 			return 0, fmt.Errorf("mmap: %v", err)
 		}
-		m.bytes = b
+		m.bytes = mapped
 		return len(b), nil
 	}
 	// write the data
-- 
2.43.0


From 59926a77d8e1b3dba3f6212af3a220c4d92636b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:00 +0000
Subject: [PATCH 10/41] fix: positioned reads and writes of a memory mapped
 file panic on out of range positions

---
 pkg/mmap/mmap.go | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index b3102d0..c5e3ebb 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -114,6 +114,12 @@ func (m *MemoryMappedFile) Read(b []byte) (int, error) {
 
 // ReadAt reads len(b) bytes from the file starting at byte offset off.
 func (m *MemoryMappedFile) ReadAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative position")
+	}
+	if off > int64(len(m.bytes)) {
+		return 0, io.EOF
+	}
 	n := copy(b, m.bytes[off:])
 	if n < len(b) {
 		return n, io.EOF
@@ -133,6 +139,9 @@ func (m *MemoryMappedFile) Write(b []byte) (int, error) {
 
 // WriteAt writes len(b) bytes to the file starting at byte offset off.
 func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
+	if off < 0 {
+		return 0, fmt.Errorf("mmap: negative position")
+	}
 	// check if the file needs to be remapped
 	if off+int64(len(b)) > int64(len(m.bytes)) {
 		// write the data and remap the file
-- 
2.43.0


From a04bdc7d023dc3449e8aa8bf2e852fcc9dfee9e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:49 +0000
Subject: [PATCH 11/41] fix: updating a distance in a cloned heap changes the
 original heap

---
 pkg/hnsw/heap.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index 5dcff52..0b580d4 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -211,7 +211,8 @@ func (d *DistHeap) Insert(id Id, dist float32) {
 		return
 	}
 
-	d.items[index].dist = dist
+	// clones share items, so replace the item instead of modifying it
+	d.items[index] = &Item{id: id, dist: dist}
 	d.Fix(index)
 }
 
-- 
2.43.0


From f8026e9dcd56bf58125f65f91b671bd596cd7a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 12/41] fix: updating a distance can leave the heap out of
 order

---
 pkg/hnsw/heap.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/pkg/hnsw/heap.go b/pkg/hnsw/heap.go
index 0b580d4..7243363 100644
--- a/pkg/hnsw/heap.go
+++ b/pkg/hnsw/heap.go
@@ -217,9 +217,10 @@ func (d *DistHeap) Insert(id Id, dist float32) {
 }
 
 func (d *DistHeap) Fix(i int) {
-	if !d.down(i, d.Len()) {
-		d.up(i)
-	}
+	// the changed item may have to move up again from wherever it ended up
+	id := d.items[i].id
+	d.down(i, d.Len())
+	d.up(d.visited[id])
 }
 
 func (d DistHeap) IsEmpty() bool      { return len(d.items) == 0 }
-- 
2.43.0


From ee7d8f0c9462d515b83cfca29b4aa61ee4336b89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:25 +0000
Subject: [PATCH 13/41] fix: searching for a point of the wrong dimension
 panics or ignores coordinates

---
 pkg/hnsw/hnsw.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index ff9cf6b..6a160c2 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -260,6 +260,10 @@ func (h *Hnsw) isValidPoint(point Point) bool {
 }
 
 func (h *Hnsw) KnnSearch(q Point, numNeighborsToReturn int) (*DistHeap, error) {
+	if !h.isValidPoint(q) {
+		return nil, fmt.Errorf("invalid vector dimensionality")
+	}
+
 	entryPoint := h.points[h.entryPointId]
 
 	entryPointFriends, ok := h.friends[h.entryPointId]
-- 
2.43.0


From 65576cfa4f930a4df4c66f8ddacffb7f4015fa2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:26 +0000
Subject: [PATCH 14/41] fix: adding a vector fails when its neighbors equal
 those of an earlier vector

---
 pkg/vectorpage/manager.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/pkg/vectorpage/manager.go b/pkg/vectorpage/manager.go
index 5e2541c..105ae12 100644
--- a/pkg/vectorpage/manager.go
+++ b/pkg/vectorpage/manager.go
@@ -53,7 +53,8 @@ func (vp *VectorPageManager) AddNode(x hnsw.Point) error {
 		return err
 	}
 
-	if err := vp.bptree.Insert(pointer.ReferencedValue{Value: xfriendsBuf}, pointer.MemoryPointer{}); err != nil {
+	// different points may have the same neighbors, so the id disambiguates the key
+	if err := vp.bptree.Insert(pointer.ReferencedValue{DataPointer: pointer.MemoryPointer{Offset: uint64(xId)}, Value: xfriendsBuf}, pointer.MemoryPointer{}); err != nil {
 		return fmt.Errorf("failed to insert buf: %v", err)
 	}
 
-- 
2.43.0


From c43c3a08744e956bd3f9251cf5347764a8a35277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:41 +0000
Subject: [PATCH 15/41] fix: a point inserted above level 0 becomes its own
 nearest neighbor

---
 pkg/hnsw/hnsw.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/pkg/hnsw/hnsw.go b/pkg/hnsw/hnsw.go
index 6a160c2..869ae17 100644
--- a/pkg/hnsw/hnsw.go
+++ b/pkg/hnsw/hnsw.go
@@ -112,6 +112,11 @@ func (h *Hnsw) searchLevel(q *Point, entryItem *Item, numNearestToQToReturn, lev
 				}
 
 				ccFriendPoint := h.points[ccFriendId]
+				if ccFriendPoint == q {
+					// q is being inserted and is already linked at this level
+					// through the level above, it is not its own neighbor
+					continue
+				}
 
 				// if distance(ccFriend, q) < distance(f, q)
 				ccFriendDistToQ := EuclidDistance(*ccFriendPoint, *q)
-- 
2.43.0


From 1a6235f65fa37843578185876d5cab68372b4502 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:38 +0000
Subject: [PATCH 16/41] fix: JSONL key pointers are wrong when there is white
 space around the colon

---
 pkg/handlers/jsonl.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 56875f9..536d699 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -141,7 +141,11 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 		if key, ok := key.(string); !ok {
 			return fmt.Errorf("expected string key, got '%v'", key)
 		} else {
-			fieldOffset := dec.InputOffset() + 1 // skip the :
+			// skip the : and any white space around it
+			fieldOffset := dec.InputOffset()
+			for fieldOffset < int64(data.Length) && bytes.IndexByte([]byte(": \t\r"), r[data.Offset+uint64(fieldOffset)]) != -1 {
+				fieldOffset++
+			}
 
 			value, err := dec.Token()
 			if err != nil {
-- 
2.43.0


From 88acde2eb7d4107735ae272354156cc5273c6e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:39 +0000
Subject: [PATCH 17/41] fix: a non-string value in a searchable field makes
 synchronization fail

---
 pkg/handlers/jsonl.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 536d699..4e36a3d 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -155,7 +155,7 @@ func (j JSONLHandler) handleJSONLObject(f *appendable.IndexFile, r []byte, dec *
 			name := strings.Join(append(path, key), ".")
 
 			fts := jsonTypeToFieldType(value)
-			if f.IsSearch(name) {
+			if _, ok := value.(string); ok && f.IsSearch(name) {
 				fts = append(fts, appendable.FieldTypeUnigram, appendable.FieldTypeBigram, appendable.FieldTypeTrigram)
 			}
 
-- 
2.43.0


From f7889b9c429e6af29cfd81c75d5b40ada0e17e8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:18 +0000
Subject: [PATCH 18/41] fix: an invalid JSONL row leaves entries behind that
 make every later synchronization fail

---
 pkg/handlers/jsonl.go | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 4e36a3d..3e267ad 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -4,6 +4,7 @@ import (
 	"bytes"
 	"encoding/binary"
 	"encoding/json"
+	"errors"
 	"fmt"
 	"github.com/kevmo314/appendable/pkg/ngram"
 	"github.com/kevmo314/appendable/pkg/pointer"
@@ -24,12 +25,39 @@ func (j JSONLHandler) Format() appendable.Format {
 	return appendable.FormatJSONL
 }
 
+// validateRow returns an error if the line is not exactly one JSON object.
+func (j JSONLHandler) validateRow(line []byte) error {
+	var row map[string]any
+	if err := json.Unmarshal(line, &row); err != nil {
+		return err
+	}
+	if row == nil {
+		return errors.New("only json objects are supported at the root")
+	}
+	return nil
+}
+
 func (j JSONLHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	// read until the next newline
 	metadata, err := f.Metadata()
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("data file has %d bytes, but %d are already indexed", len(df), metadata.ReadOffset)
+	}
+	// validate all new rows before indexing any: an invalid row must not leave
+	// entries behind that are not covered by the read offset.
+	for offset := metadata.ReadOffset; ; {
+		i := bytes.IndexByte(df[offset:], '\n')
+		if i == -1 {
+			break
+		}
+		if err := j.validateRow(df[offset : offset+uint64(i)]); err != nil {
+			return fmt.Errorf("invalid row at offset %d: %w", offset, err)
+		}
+		offset += uint64(i) + 1
+	}
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
-- 
2.43.0


From de726b26cc38c525ad41a5a661f04aae58ba11cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:19 +0000
Subject: [PATCH 19/41] fix: a field name that is too long makes the index file
 unusable

---
 pkg/appendable/appendable.go |  5 +++++
 pkg/appendable/index_file.go |  3 +++
 pkg/handlers/jsonl.go        | 15 +++++++++++++++
 3 files changed, 23 insertions(+)

diff --git a/pkg/appendable/appendable.go b/pkg/appendable/appendable.go
index bcc86f0..459e0e6 100644
--- a/pkg/appendable/appendable.go
+++ b/pkg/appendable/appendable.go
@@ -94,6 +94,11 @@ func (t FieldType) TypescriptType() string {
 	return strings.Join(components, " | ")
 }
 
+// MaxFieldNameLength is the length of the longest field name whose metadata
+// fits an index slot: the slot holds a name with its type, width and length (2
+// bytes each) and its total field value length (up to 10 bytes) in 252 bytes.
+const MaxFieldNameLength = 252 - 6 - 10
+
 type FileMeta struct {
 	Version
 	Format
diff --git a/pkg/appendable/index_file.go b/pkg/appendable/index_file.go
index bc7a415..f8df5ca 100644
--- a/pkg/appendable/index_file.go
+++ b/pkg/appendable/index_file.go
@@ -170,6 +170,9 @@ func (i *IndexFile) FindOrCreateIndex(name string, fieldType FieldType) (*linked
 		mp = next
 	}
 	// we haven't found the index, so we need to create it
+	if len(name) > MaxFieldNameLength {
+		return nil, nil, fmt.Errorf("field name '%s' is too long", name)
+	}
 	next, err := mp.AddNext()
 	if err != nil {
 		return nil, nil, fmt.Errorf("failed to add next meta page: %w", err)
diff --git a/pkg/handlers/jsonl.go b/pkg/handlers/jsonl.go
index 3e267ad..8178a8f 100644
--- a/pkg/handlers/jsonl.go
+++ b/pkg/handlers/jsonl.go
@@ -34,6 +34,21 @@ func (j JSONLHandler) validateRow(line []byte) error {
 	if row == nil {
 		return errors.New("only json objects are supported at the root")
 	}
+	return j.validateFieldNames(row, []string{})
+}
+
+// validateFieldNames returns an error if a field name does not fit an index slot.
+func (j JSONLHandler) validateFieldNames(row map[string]any, path []string) error {
+	for key, value := range row {
+		if name := strings.Join(append(path, key), "."); len(name) > appendable.MaxFieldNameLength {
+			return fmt.Errorf("field name '%s' is too long", name)
+		}
+		if object, ok := value.(map[string]any); ok {
+			if err := j.validateFieldNames(object, append(path, key)); err != nil {
+				return err
+			}
+		}
+	}
 	return nil
 }
 
-- 
2.43.0


From 689fb0a357f2f0c65754e18fb9ed5085c10e80e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:42 +0000
Subject: [PATCH 20/41] fix: CSV columns are mixed up when the header is not
 followed by a full row in the first synchronization

---
 pkg/handlers/csv.go | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 8e0b1c2..9c22954 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -30,18 +30,23 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	slog.Debug("Starting CSV synchronization")
 
 	var headers []string
-	var err error
 
 	metadata, err := f.Metadata()
 	if err != nil {
 		return fmt.Errorf("failed to read metadata: %w", err)
 	}
 
-	fieldNames, err := f.IndexFieldNames()
-	if err != nil {
-		return fmt.Errorf("failed to retrieve index field names: %w", err)
+	if metadata.ReadOffset > uint64(len(df)) {
+		return fmt.Errorf("data file has %d bytes, but %d are already indexed", len(df), metadata.ReadOffset)
+	}
+
+	if metadata.ReadOffset > 0 {
+		// the header has been read already, it is the first line of the data file.
+		headers, err = csv.NewReader(bytes.NewReader(df[:metadata.ReadOffset])).Read()
+		if err != nil {
+			return fmt.Errorf("failed to parse CSV header: %w", err)
+		}
 	}
-	headers = fieldNames
 
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
-- 
2.43.0


From 55c3b1e0c3d320f106979d76507c85bdf6e05854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:43 +0000
Subject: [PATCH 21/41] fix: an invalid CSV row leaves entries behind that make
 every later synchronization fail

---
 pkg/handlers/csv.go | 32 ++++++++++++++++++++++++++++++++
 1 file changed, 32 insertions(+)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 9c22954..4a4e3f4 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -26,6 +26,34 @@ func (c CSVHandler) Format() appendable.Format {
 	return appendable.FormatCSV
 }
 
+// validateRows returns an error if any of the complete rows from offset on cannot be
+// indexed: an invalid row must not leave entries behind that are not covered by the
+// read offset.
+func (c CSVHandler) validateRows(df []byte, offset uint64, headers []string) error {
+	for {
+		i := bytes.IndexByte(df[offset:], '\n')
+		if i == -1 {
+			return nil
+		}
+		record, err := csv.NewReader(bytes.NewReader(df[offset : offset+uint64(i)])).Read()
+		if err != nil {
+			return fmt.Errorf("failed to read CSV record at offset %d: %w", offset, err)
+		}
+		if len(headers) == 0 {
+			headers = record
+			for _, header := range headers {
+				if len(header) > appendable.MaxFieldNameLength {
+					return fmt.Errorf("field name '%s' is too long", header)
+				}
+			}
+		}
+		if len(record) > len(headers) {
+			return fmt.Errorf("CSV record at offset %d has more fields than the header", offset)
+		}
+		offset += uint64(i) + 1
+	}
+}
+
 func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 	slog.Debug("Starting CSV synchronization")
 
@@ -48,6 +76,10 @@ func (c CSVHandler) Synchronize(f *appendable.IndexFile, df []byte) error {
 		}
 	}
 
+	if err := c.validateRows(df, metadata.ReadOffset, headers); err != nil {
+		return err
+	}
+
 	for {
 		i := bytes.IndexByte(df[metadata.ReadOffset:], '\n')
 		if i == -1 {
-- 
2.43.0


From 32598de1d1ca7729210327de6ada7961a4d445e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:43 +0000
Subject: [PATCH 22/41] fix: jsonl2json replaced every .jsonl in the path and
 could overwrite its input

---
 scripts/jsonl2json/src/main.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/scripts/jsonl2json/src/main.rs b/scripts/jsonl2json/src/main.rs
index 1d3a5d1..7fa30d6 100644
--- a/scripts/jsonl2json/src/main.rs
+++ b/scripts/jsonl2json/src/main.rs
@@ -1,7 +1,8 @@
 use std::fs::File;
 use std::io::{BufRead, BufReader};
+use std::path::Path;
 use clap::Parser;
-use anyhow::{Context, Result};
+use anyhow::{bail, Context, Result};
 use serde_json::Value;
 
 #[derive(Parser, Debug)]
@@ -25,12 +26,17 @@ fn main() -> Result<()>{
         array.push(json);
     }
 
-    let output_path = file_path.replace(".jsonl", ".json").to_owned();
+    // only the extension is replaced: the name or a directory may contain ".jsonl" too
+    let output_path = Path::new(&file_path).with_extension("json");
+    if output_path == Path::new(&file_path) {
+        bail!("Refusing to overwrite the input file: {}", file_path);
+    }
+
     let json_string = serde_json::to_string_pretty(&array)
         .with_context(|| "Failed to serialize JSON data")?;
 
     std::fs::write(&output_path, json_string.as_bytes())
-        .with_context(|| format!("Failed to write to file: {}", output_path))?;
+        .with_context(|| format!("Failed to write to file: {}", output_path.display()))?;
 
     return Ok(())
 }
-- 
2.43.0


From 8b652f79d1c23b33793d95fa283d6e929c50ec0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:10 +0000
Subject: [PATCH 23/41] fix: client varints of 2^31 and above were decoded and
 encoded with 32-bit arithmetic

---
 src/util/uvarint.ts | 15 ++++++++-------
 1 file changed, 8 insertions(+), 7 deletions(-)

diff --git a/src/util/uvarint.ts b/src/util/uvarint.ts
index 5dbbaa7..a662a81 100644
--- a/src/util/uvarint.ts
+++ b/src/util/uvarint.ts
@@ -11,18 +11,19 @@ export function encodeUvarint(n: number): ArrayBuffer {
   let ibuf = new Uint8Array(MAX_VARINT_64);
 
   while (n >= 0x80) {
-    ibuf[i++] = (n & 0xff) | 0x80;
-    n >>= 7;
+    // bitwise operators would truncate n to 32 bits
+    ibuf[i++] = n % 0x80 | 0x80;
+    n = Math.floor(n / 0x80);
   }
 
-  ibuf[i] = n & 0xff;
+  ibuf[i] = n;
 
   return ibuf.buffer.slice(0, i + 1);
 }
 
 export function decodeUvarint(buf: ArrayBuffer): UvarintResponse {
   let x: number = 0;
-  let s: number = 0;
+  let scale: number = 1;
 
   const view = new Uint8Array(buf);
 
@@ -38,12 +39,12 @@ export function decodeUvarint(buf: ArrayBuffer): UvarintResponse {
         return { value: 0, bytesRead: -(idx + 1) };
       }
 
-      let value = x | (b << s);
+      let value = x + b * scale;
       return { value, bytesRead: idx + 1 };
     }
 
-    x |= (b & 0x7f) << s;
-    s += 7;
+    x += (b & 0x7f) * scale;
+    scale *= 0x80;
   }
 
   return { value: 0, bytesRead: 0 };
-- 
2.43.0


From e08e6f3fc80e218eddc1a75a1cc430c6d9b23625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:38 +0000
Subject: [PATCH 24/41] fix: caching resolver dropped the last byte of
 contained ranges, all but the first range, and kept failures

---
 src/resolver/cache.ts | 71 ++++++++++++++++++++++++++++---------------
 1 file changed, 46 insertions(+), 25 deletions(-)

diff --git a/src/resolver/cache.ts b/src/resolver/cache.ts
index 6615163..953c58f 100644
--- a/src/resolver/cache.ts
+++ b/src/resolver/cache.ts
@@ -1,35 +1,56 @@
-import { RangeResolver } from "./resolver";
+import { LengthIntegrityError, RangeResolver } from "./resolver";
 
 export function cache(resolver: RangeResolver): RangeResolver {
   const cache: [
     [number, number],
-    Promise<{ data: ArrayBuffer; totalLength: number }[]>,
+    Promise<{ data: ArrayBuffer; totalLength: number }>,
   ][] = [];
 
-  return async ([{ start, end }]): Promise<
-    { data: ArrayBuffer; totalLength: number }[]
-  > => {
-    // check if start-end is contained in any of the cached ranges
-    const cached = cache.find(([[s, e]]) => s <= start && end <= e);
-    if (cached) {
-      return cached[1].then((cachedData) => {
-        const data = cachedData[0].data.slice(
-          start - cached[0][0],
-          end - cached[0][0],
-        );
-        return [
-          {
-            data,
-            totalLength: cachedData[0].totalLength,
-          },
-        ];
-      });
-    }
+  return async (
+    ranges,
+  ): Promise<{ data: ArrayBuffer; totalLength: number }[]> => {
+    const missing: { start: number; end: number }[] = [];
+    let fetched: ReturnType<RangeResolver> | undefined;
+    const fetch = () => (fetched ??= resolver(missing));
+
+    const entries = ranges.map(({ start, end }) => {
+      // check if start-end is contained in any of the cached ranges
+      const cached = cache.find(([[s, e]]) => s <= start && end <= e);
+      if (cached) {
+        return cached;
+      }
 
-    // TODO: check if start-end overlaps with any of the cached ranges
+      // TODO: check if start-end overlaps with any of the cached ranges
+
+      const idx = missing.push({ start, end }) - 1;
+      const entry: (typeof cache)[number] = [
+        [start, end],
+        Promise.resolve().then(async () => (await fetch())[idx]),
+      ];
+      // a failed request must not be served from the cache
+      entry[1].catch(() => {
+        const i = cache.indexOf(entry);
+        if (i !== -1) {
+          cache.splice(i, 1);
+        }
+      });
+      cache.push(entry);
+      return entry;
+    });
 
-    const promise = resolver([{ start, end }]);
-    cache.push([[start, end], promise]);
-    return promise;
+    return await Promise.all(
+      ranges.map(async ({ start, end, expectedLength }, idx) => {
+        const [[cachedStart], promise] = entries[idx];
+        const { data, totalLength } = await promise;
+        if (expectedLength && totalLength !== expectedLength) {
+          throw new LengthIntegrityError();
+        }
+        return {
+          // ranges are inclusive
+          data: data.slice(start - cachedStart, end - cachedStart + 1),
+          totalLength,
+        };
+      }),
+    );
   };
 }
-- 
2.43.0


From af45e23bb7f4ef800706f0aa87909d1104879f95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:04 +0000
Subject: [PATCH 25/41] fix: multipart parser read a truncated body forever

---
 src/resolver/multipart.ts | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index eb1edd9..9cf4095 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -16,16 +16,17 @@ function getReader(stream: ReadableStream) {
           if (residual.length === 0) {
             residual = null;
           }
-          return {
-            done: readDone && residual === null,
-            value: buf.subarray(0, n),
-          };
+          // the end of the stream is reported once there is no data left
+          return { done: false, value: buf.subarray(0, n) };
         }
         const result = await reader.read();
         if (result.value) {
           residual = result.value;
         }
         readDone ||= result.done;
+        if (readDone && residual === null) {
+          return { done: true, value: undefined };
+        }
       }
     }
   };
-- 
2.43.0


From 9bb6abd314e94bf22f8414621741e33c57d4313a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:07 +0000
Subject: [PATCH 26/41] fix: multipart bodies with leading line breaks, quoted
 boundaries or other header spellings were refused, truncated ones accepted

---
 src/resolver/multipart.ts | 42 +++++++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 13 deletions(-)

diff --git a/src/resolver/multipart.ts b/src/resolver/multipart.ts
index 9cf4095..09c5d7a 100644
--- a/src/resolver/multipart.ts
+++ b/src/resolver/multipart.ts
@@ -54,10 +54,12 @@ export default async function* parseMultipartBody(
   if (tokens[0] !== "multipart/byteranges") {
     throw new Error("Not a multipart/byteranges body");
   }
-  const boundaryToken = tokens
-    .map((s) => s.trim())
-    .find((s) => s.startsWith("boundary="))
-    ?.split("=", 2)?.[1];
+  // the boundary may be quoted, and may then contain any of ;="
+  const boundaryMatch = contentType.match(
+    /;\s*boundary=(?:"((?:[^"\\]|\\.)*)"|([^;\s]+))/i,
+  );
+  const boundaryToken =
+    boundaryMatch?.[1]?.replace(/\\(.)/g, "$1") ?? boundaryMatch?.[2];
   if (!boundaryToken) {
     throw new Error("No boundary found");
   }
@@ -85,16 +87,29 @@ export default async function* parseMultipartBody(
     return false;
   };
 
+  // line breaks may precede the first boundary
+  while (true) {
+    while (length === 0) {
+      if (await extend()) {
+        throw new Error("Unexpected end of multipart body");
+      }
+    }
+    if (buf[ptr] !== "\r".charCodeAt(0) && buf[ptr] !== "\n".charCodeAt(0)) {
+      break;
+    }
+    ptr = (ptr + 1) % buf.length;
+    length--;
+  }
+
   while (true) {
     // read boundary
     for (let i = 0; i < boundary.length; i++) {
       while (length === 0) {
         if (await extend()) {
-          return;
+          throw new Error("Unexpected end of multipart body");
         }
       }
       if (buf[ptr] !== boundary.charCodeAt(i)) {
-        console.log("boundary.charCode", buf[ptr], boundary.charCodeAt(i), i);
         throw new Error("Invalid boundary");
       }
       ptr = (ptr + 1) % buf.length;
@@ -105,7 +120,7 @@ export default async function* parseMultipartBody(
     for (const c of ["\r", "\n"]) {
       while (length === 0) {
         if (await extend()) {
-          return;
+          throw new Error("Unexpected end of multipart body");
         }
       }
       if (buf[ptr] === c.charCodeAt(0)) {
@@ -126,7 +141,7 @@ export default async function* parseMultipartBody(
     while (true) {
       while (length === 0) {
         if (await extend()) {
-          return;
+          throw new Error("Unexpected end of multipart body");
         }
       }
       const byte = buf[ptr];
@@ -144,7 +159,8 @@ export default async function* parseMultipartBody(
             throw new Error(`Invalid header: ${decoded}`);
           }
           const [key, value] = tokens;
-          headers[key.trim()] = value.trim();
+          // header names are case insensitive
+          headers[key.trim().toLowerCase()] = value.trim();
           header.length = 0;
         }
       } else {
@@ -155,12 +171,12 @@ export default async function* parseMultipartBody(
 
     // read body
     // read the Content-Range header
-    if (!headers["Content-Range"]) {
+    if (!headers["content-range"]) {
       // TODO: read until the next boundary
       throw new Error("Missing Content-Range header");
     }
     const [unit, start, end] = parseContentRangeHeader(
-      headers["Content-Range"],
+      headers["content-range"],
     );
     if (unit !== "bytes") {
       throw new Error("Invalid Content-Range header");
@@ -170,7 +186,7 @@ export default async function* parseMultipartBody(
     for (let i = 0; i < contentLength; i++) {
       while (length === 0) {
         if (await extend()) {
-          return;
+          throw new Error("Unexpected end of multipart body");
         }
       }
       data[i] = buf[ptr];
@@ -184,7 +200,7 @@ export default async function* parseMultipartBody(
     for (const c of ["\r", "\n"]) {
       while (length === 0) {
         if (await extend()) {
-          return;
+          throw new Error("Unexpected end of multipart body");
         }
       }
       if (buf[ptr] === c.charCodeAt(0)) {
-- 
2.43.0


From 86416d4c2a6cf2543c85ba69fb50c0891728860e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:27 +0000
Subject: [PATCH 27/41] fix: range responses that do not match the request were
 returned as data, and multipart parts had total length 0

---
 src/resolver/range-request.ts | 68 ++++++++++++++++++++++++++---------
 1 file changed, 51 insertions(+), 17 deletions(-)

diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index a471ca2..8b6ddc2 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -2,6 +2,28 @@ import { Config } from "../index";
 import parseMultipartBody from "./multipart";
 import { LengthIntegrityError } from "./resolver";
 
+// checkRange throws unless a response with the given Content-Range header and
+// number of bytes is a complete answer to the requested range, and returns the
+// total length otherwise. A range that reaches past the end is cut off there.
+function checkRange(
+  { start, end }: { start: number; end: number },
+  contentRange: string | null | undefined,
+  byteLength: number,
+): number {
+  const match = contentRange?.match(/^bytes (\d+)-(\d+)\/(\d+)$/);
+  if (!match) {
+    throw new Error(`Unexpected Content-Range: ${contentRange}`);
+  }
+  const [from, to, totalLength] = match.slice(1).map(Number);
+  if (from !== start || to !== Math.min(end, totalLength - 1)) {
+    throw new Error(`Requested ${start}-${end}, got ${contentRange}`);
+  }
+  if (byteLength !== to - from + 1) {
+    throw new Error(`Got ${byteLength} bytes for ${contentRange}`);
+  }
+  return totalLength;
+}
+
 async function resolveIndividualPromises(
   url: string,
   ranges: { start: number; end: number; expectedLength?: number }[],
@@ -14,16 +36,19 @@ async function resolveIndividualPromises(
         headers: { Range: `bytes=${rangeHeader}` },
       });
 
-      const totalLength = Number(
-        res.headers.get("Content-Range")!.split("/")[1],
+      if (res.status !== 206) {
+        throw new Error(`Expected 206 response, got ${res.status}`);
+      }
+      const data = await res.arrayBuffer();
+      const totalLength = checkRange(
+        { start, end },
+        res.headers.get("Content-Range"),
+        data.byteLength,
       );
       if (expectedLength && totalLength !== expectedLength) {
         throw new LengthIntegrityError();
       }
-      return {
-        data: await res.arrayBuffer(),
-        totalLength: totalLength,
-      };
+      return { data, totalLength };
     },
   );
   return await Promise.all(individualRangePromises);
@@ -83,21 +108,30 @@ export async function requestRanges(
           chunks.push(chunk);
         }
 
-        // the last element is null since the final boundary marker is followed by another delim.
-        if (chunks[chunks.length - 1].data === undefined) {
-          chunks.pop();
+        if (chunks.length !== ranges.length) {
+          throw new Error(
+            `Requested ${ranges.length} ranges, got ${chunks.length}`,
+          );
         }
 
-        return chunks.map(({ data, headers }) => {
-          const totalLengthStr = headers["content-range"]?.split("/")[1];
-          const totalLength = totalLengthStr ? parseInt(totalLengthStr, 10) : 0;
-
-          return { data, totalLength };
-        });
+        return chunks.map(({ data, headers }, idx) => ({
+          data,
+          totalLength: checkRange(
+            ranges[idx],
+            headers["content-range"],
+            data.byteLength,
+          ),
+        }));
       } else if (response.headers.has("Content-Range")) {
+        if (ranges.length !== 1) {
+          // the server only supports one range per request
+          return await resolveIndividualPromises(url, ranges);
+        }
         const abuf = await response.arrayBuffer();
-        const totalLength = Number(
-          response.headers.get("Content-Range")!.split("/")[1],
+        const totalLength = checkRange(
+          ranges[0],
+          response.headers.get("Content-Range"),
+          abuf.byteLength,
         );
         return [
           {
-- 
2.43.0


From 3a5e684dc02a80de98deb074695e37007e55c858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:53 +0000
Subject: [PATCH 28/41] fix: client queries fail on a tree with a single leaf
 and miss rows when the first match starts a leaf

---
 src/bptree/bptree.ts    |  6 ++----
 src/bptree/traversal.ts | 13 ++++++++++---
 2 files changed, 12 insertions(+), 7 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 71bd6bc..33db1a9 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -105,7 +105,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(rootNode.pointer(0));
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(0);
@@ -121,9 +121,7 @@ export class BPTree {
       throw new Error("unable to get root node");
     }
 
-    let currNode = await this.readNode(
-      rootNode.pointer(rootNode.numPointers() - 1),
-    );
+    let currNode = rootNode;
 
     while (!currNode.leaf()) {
       const childPointer = currNode.pointer(currNode.numPointers() - 1);
diff --git a/src/bptree/traversal.ts b/src/bptree/traversal.ts
index f7a5a2e..1929cea 100644
--- a/src/bptree/traversal.ts
+++ b/src/bptree/traversal.ts
@@ -76,10 +76,17 @@ export class TraversalIterator {
   async next(): Promise<boolean> {
     if (this.records.length === 0) {
       const res = await this.init();
+      if (!res) {
+        return false;
+      }
 
-      return (
-        res && this.records[0].index !== this.records[0].node.numPointers()
-      );
+      if (this.records[0].index === this.records[0].node.numPointers()) {
+        // every key of this leaf is smaller, continue with the next leaf
+        this.records[0].index--;
+        return this.increment(0, 1);
+      }
+
+      return true;
     }
 
     return this.increment(0, 1);
-- 
2.43.0


From e2fad45d70c47a2e0d0bde036832ddbd18b019f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:56 +0000
Subject: [PATCH 29/41] fix: descending > and >= queries skip the largest row
 and > includes equal rows

---
 src/db/database.ts | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 07592fc..6571a08 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -242,13 +242,19 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            // start just past the last key, so that prev() reaches it first
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
 
               if (
-                ReferencedValue.compareBytes(currentKey.value, valueBuf) < 0
+                ReferencedValue.compareBytes(currentKey.value, valueBuf) <= 0
               ) {
                 break;
               }
@@ -287,7 +293,13 @@ export class Database<T extends Schema> {
             }
           } else {
             const lastKey = await btree.last();
-            const iter = btree.iter(lastKey);
+            // start just past the last key, so that prev() reaches it first
+            const iter = btree.iter(
+              new ReferencedValue(
+                { offset: maxUint64, length: 0 },
+                lastKey.value,
+              ),
+            );
 
             while (await iter.prev()) {
               const currentKey = iter.getKey();
-- 
2.43.0


From eade921db193a436723feecd06fb1e5d2de98c69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:00 +0000
Subject: [PATCH 30/41] fix: the limit of a query is ignored

---
 src/db/database.ts | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/src/db/database.ts b/src/db/database.ts
index 6571a08..cbc2a9a 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -99,7 +99,22 @@ export class Database<T extends Schema> {
     return this.indexHeadersPromise;
   }
 
-  async *query(query: Query<T>) {
+  async *query(query: Query<T>): AsyncGenerator<any> {
+    if (query.limit !== undefined) {
+      const { limit, ...unlimited } = query;
+      let remaining = limit;
+      if (remaining <= 0) {
+        return;
+      }
+      for await (const row of this.query(unlimited)) {
+        yield row;
+        if (--remaining <= 0) {
+          return;
+        }
+      }
+      return;
+    }
+
     if (new Set((query.where ?? []).map((where) => where.key)).size > 1) {
       throw new Error("composite indexes not supported... yet");
     }
-- 
2.43.0


From 3443c4b4278214e1ad3656fe06274a55b7e2d7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:24 +0000
Subject: [PATCH 31/41] fix: searches return rows once per token, including
 rows of earlier tokens, with wrong scores

---
 src/bptree/bptree.ts | 26 ++++++++++++++++----------
 src/db/database.ts   |  2 ++
 2 files changed, 18 insertions(+), 10 deletions(-)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 33db1a9..03f1ce3 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -27,10 +27,7 @@ export class BPTree {
   // insight attributes below
 
   private readonly entries: number;
-  private readonly tfMap: Map<DataPointer, number> = new Map<
-    DataPointer,
-    number
-  >();
+  private readonly dataPointers: Map<string, DataPointer>;
 
   constructor(
     tree: RangeResolver,
@@ -40,6 +37,7 @@ export class BPTree {
     pageFieldType: FieldType,
     pageFieldWidth: number,
     entries: number,
+    dataPointers: Map<string, DataPointer> = new Map<string, DataPointer>(),
   ) {
     this.tree = tree;
     this.meta = meta;
@@ -48,6 +46,7 @@ export class BPTree {
     this.pageFieldType = pageFieldType;
     this.pageFieldWidth = pageFieldWidth;
     this.entries = entries;
+    this.dataPointers = dataPointers;
   }
 
   async root(): Promise<RootResponse> {
@@ -172,6 +171,7 @@ export class BPTree {
 
   // these traverse through the iterator
   public async termFrequency(key: ReferencedValue) {
+    const tfMap = new Map<DataPointer, number>();
     const p = await this.iter(key);
 
     while (await p.next()) {
@@ -182,15 +182,21 @@ export class BPTree {
       }
       const mp = p.getPointer();
 
-      const dp: DataPointer = {
-        start: Number(mp.offset),
-        end: Number(mp.offset) + mp.length - 1,
-      };
+      // maps compare objects by identity, so use one object per row
+      const id = `${mp.offset}:${mp.length}`;
+      let dp = this.dataPointers.get(id);
+      if (!dp) {
+        dp = {
+          start: Number(mp.offset),
+          end: Number(mp.offset) + mp.length - 1,
+        };
+        this.dataPointers.set(id, dp);
+      }
 
-      this.tfMap.set(dp, (this.tfMap.get(dp) ?? 0) + 1);
+      tfMap.set(dp, (tfMap.get(dp) ?? 0) + 1);
     }
 
-    return this.tfMap;
+    return tfMap;
   }
 }
 
diff --git a/src/db/database.ts b/src/db/database.ts
index cbc2a9a..a0457aa 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -139,6 +139,7 @@ export class Database<T extends Schema> {
       const metaPageCache = new Map<FieldType, LinkedMetaPage>();
 
       const btreeMap = new Map<FieldType, BPTree>();
+      const dataPointers = new Map<string, DataPointer>();
 
       for (const token of likeToks) {
         const { type: fieldType, valueBuf } = token;
@@ -171,6 +172,7 @@ export class Database<T extends Schema> {
             mpFieldType,
             mpFieldWidth,
             entries,
+            dataPointers,
           );
           btreeMap.set(fieldType, btree);
         }
-- 
2.43.0


From 1617bb7b8109cb8139310fce5aced31e5c8b38da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:27 +0000
Subject: [PATCH 32/41] fix: n-grams of a phrase are wrong after a character
 outside of the basic plane

---
 src/ngram/tokenizer.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/ngram/tokenizer.ts b/src/ngram/tokenizer.ts
index b8eaf37..e7aa631 100644
--- a/src/ngram/tokenizer.ts
+++ b/src/ngram/tokenizer.ts
@@ -29,7 +29,8 @@ export class NgramTokenizer {
     let wordOffsets: number[][] = [];
     let currentWordOffsets: number[] = [];
 
-    Array.from(phrase).forEach((c, idx) => {
+    const chars = Array.from(phrase);
+    chars.forEach((c, idx) => {
       if (/[a-zA-Z0-9]/.test(c)) {
         currentWordOffsets.push(idx);
       } else if (/\s/.test(c)) {
@@ -56,7 +57,7 @@ export class NgramTokenizer {
           let str = "";
 
           for (let jdx = idx; jdx <= idx + N - 1; jdx++) {
-            str += phrase[word[jdx]];
+            str += chars[word[jdx]];
           }
 
           let value = str.toLowerCase();
-- 
2.43.0


From f54908511e90280e69f94f9529d751d458ae17b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:29 +0000
Subject: [PATCH 33/41] fix: selecting a field named like an inherited property
 returns values that are not in the row

---
 src/db/query-lang.ts | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/db/query-lang.ts b/src/db/query-lang.ts
index b06b077..aef53d6 100644
--- a/src/db/query-lang.ts
+++ b/src/db/query-lang.ts
@@ -79,15 +79,11 @@ export function processWhere<T>(value: T[keyof T]): QueryWhere | null {
 export function handleSelect<T>(data: string, select?: (keyof T)[]) {
   let jData = JSON.parse(data);
   if (select && select.length > 0) {
-    return select.reduce(
-      (acc, field) => {
-        if (field in jData) {
-          acc[field] = jData[field];
-        }
-        return acc;
-      },
-      {} as Pick<T, keyof T>,
-    );
+    return Object.fromEntries(
+      select
+        .filter((field) => Object.prototype.hasOwnProperty.call(jData, field))
+        .map((field) => [field, jData[field]]),
+    ) as Pick<T, keyof T>;
   }
 
   return jData;
-- 
2.43.0


From 3a9cab32304cd2242fc6f59848f2bad7aba3df91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:31 +0000
Subject: [PATCH 34/41] fix: fields of an empty index fail, and a byte order
 mark in a field name is dropped

---
 src/file/index-file.ts | 3 ++-
 src/file/meta.ts       | 4 +++-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/file/index-file.ts b/src/file/index-file.ts
index 3145e24..500ea28 100644
--- a/src/file/index-file.ts
+++ b/src/file/index-file.ts
@@ -113,7 +113,8 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
     let currMp = await tree.next();
 
     if (!currMp) {
-      throw new Error(`failed to fetch meta pages`);
+      // nothing has been indexed yet
+      return;
     }
 
     while (true) {
diff --git a/src/file/meta.ts b/src/file/meta.ts
index 333f786..e3ece49 100644
--- a/src/file/meta.ts
+++ b/src/file/meta.ts
@@ -67,7 +67,9 @@ export function readIndexMeta(buffer: ArrayBuffer): IndexMeta {
   }
 
   const fieldNameBuffer = buffer.slice(6, 6 + nameLength);
-  const fieldName = new TextDecoder("utf-8").decode(fieldNameBuffer);
+  const fieldName = new TextDecoder("utf-8", { ignoreBOM: true }).decode(
+    fieldNameBuffer,
+  );
 
   const { value: totalFieldValueLength } = decodeUvarint(
     buffer.slice(6 + nameLength),
-- 
2.43.0


From 53f3dfdbccfe78c09d3fcebfc72fc4bf4c58d5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:33 +0000
Subject: [PATCH 35/41] fix: keys of CSV rows with quoted fields point at the
 wrong text

---
 pkg/handlers/csv.go | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/pkg/handlers/csv.go b/pkg/handlers/csv.go
index 4a4e3f4..9af132f 100644
--- a/pkg/handlers/csv.go
+++ b/pkg/handlers/csv.go
@@ -164,7 +164,12 @@ func InferCSVField(fieldValue string) (interface{}, appendable.FieldType) {
 }
 
 func (c CSVHandler) Parse(value []byte) []byte {
-	parsed, fieldType := InferCSVField(string(value))
+	field := string(value)
+	if len(field) > 1 && field[0] == '"' {
+		field = strings.ReplaceAll(field[1:len(field)-1], `""`, `"`)
+	}
+
+	parsed, fieldType := InferCSVField(field)
 
 	switch fieldType {
 	case appendable.FieldTypeFloat64:
@@ -207,7 +212,12 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 		name := strings.Join(append(path, fieldName), ".")
 
 		fieldOffset := data.Offset + cumulativeLength
-		fieldLength := uint32(len(fieldValue))
+		fieldText := fieldValue
+		if df[fieldOffset] == '"' {
+			// the text of a quoted field includes its quotes.
+			fieldText = `"` + strings.ReplaceAll(fieldValue, `"`, `""`) + `"`
+		}
+		fieldLength := uint32(len(fieldText))
 
 		_, fieldType := InferCSVField(fieldValue)
 		page, _, err := f.FindOrCreateIndex(name, fieldType)
@@ -221,7 +231,7 @@ func (c CSVHandler) handleCSVLine(f *appendable.IndexFile, df []byte, dec *csv.R
 			Length: fieldLength,
 		}
 
-		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse([]byte(fieldValue)), DataPointer: mp}, data); err != nil {
+		if err := page.BPTree(&bptree.BPTree{Data: df, DataParser: CSVHandler{}, Width: uint16(0)}).Insert(pointer.ReferencedValue{Value: c.Parse([]byte(fieldText)), DataPointer: mp}, data); err != nil {
 			return fmt.Errorf("failed to insert into b+tree: %w", err)
 		}
 
-- 
2.43.0


From 602320581359119ed031ccda97250c1d94d2cf89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:42 +0000
Subject: [PATCH 36/41] fix: reading the index headers twice at once lists
 every field type twice

---
 src/file/index-file.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/file/index-file.ts b/src/file/index-file.ts
index 500ea28..4e91757 100644
--- a/src/file/index-file.ts
+++ b/src/file/index-file.ts
@@ -117,8 +117,11 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       return;
     }
 
+    // collected aside, so that two calls at once do not list each page twice
+    const linkedMetaPages: LinkedMetaPage[] = [];
+
     while (true) {
-      this.linkedMetaPages.push(currMp);
+      linkedMetaPages.push(currMp);
 
       const nextMp = await currMp.next();
       if (!nextMp) {
@@ -126,6 +129,8 @@ export class IndexFileV1<T> implements VersionedIndexFile<T> {
       }
       currMp = nextMp;
     }
+
+    this.linkedMetaPages = linkedMetaPages;
   }
 
   async indexHeaders(): Promise<IndexHeader[]> {
-- 
2.43.0


From 1021a19b9268039cc8a4563ac31e0fad3bfe1988 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:05 +0000
Subject: [PATCH 37/41] fix: a resource that changed its length goes unnoticed
 in multipart and single responses

---
 src/resolver/range-request.ts | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/src/resolver/range-request.ts b/src/resolver/range-request.ts
index 8b6ddc2..905fae0 100644
--- a/src/resolver/range-request.ts
+++ b/src/resolver/range-request.ts
@@ -114,14 +114,18 @@ export async function requestRanges(
           );
         }
 
-        return chunks.map(({ data, headers }, idx) => ({
-          data,
-          totalLength: checkRange(
+        return chunks.map(({ data, headers }, idx) => {
+          const totalLength = checkRange(
             ranges[idx],
             headers["content-range"],
             data.byteLength,
-          ),
-        }));
+          );
+          const { expectedLength } = ranges[idx];
+          if (expectedLength && totalLength !== expectedLength) {
+            throw new LengthIntegrityError();
+          }
+          return { data, totalLength };
+        });
       } else if (response.headers.has("Content-Range")) {
         if (ranges.length !== 1) {
           // the server only supports one range per request
@@ -133,6 +137,10 @@ export async function requestRanges(
           response.headers.get("Content-Range"),
           abuf.byteLength,
         );
+        const { expectedLength } = ranges[0];
+        if (expectedLength && totalLength !== expectedLength) {
+          throw new LengthIntegrityError();
+        }
         return [
           {
             data: abuf,
-- 
2.43.0


From b3e1b123abe3635c7a4b173647e0bd788e55db21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:29:53 +0000
Subject: [PATCH 38/41] fix: writing to a file mapped for reading crashes the
 process

---
 pkg/mmap/mmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index c5e3ebb..38ecc04 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -142,6 +142,9 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 	if off < 0 {
 		return 0, fmt.Errorf("mmap: negative position")
 	}
+	if m.prot&unix.PROT_WRITE == 0 {
+		return 0, fmt.Errorf("mmap: write to a read-only file: %w", os.ErrPermission)
+	}
 	// check if the file needs to be remapped
 	if off+int64(len(b)) > int64(len(m.bytes)) {
 		// write the data and remap the file
-- 
2.43.0


From b75f4620ed49f30417a35effe822df1022387b8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:21 +0000
Subject: [PATCH 39/41] fix: a database stays unusable after a request has
 failed once

---
 src/bptree/bptree.ts | 5 +++++
 src/bptree/node.ts   | 4 ++++
 src/db/database.ts   | 4 ++++
 src/file/multi.ts    | 4 ++++
 4 files changed, 17 insertions(+)

diff --git a/src/bptree/bptree.ts b/src/bptree/bptree.ts
index 03f1ce3..10fb2c5 100644
--- a/src/bptree/bptree.ts
+++ b/src/bptree/bptree.ts
@@ -55,6 +55,11 @@ export class BPTree {
       this.rootNodeCache = this.rootPointerCache.then((ptr) =>
         this.readNode(ptr),
       );
+      // a failed request is made again the next time
+      this.rootNodeCache.catch(() => {
+        this.rootNodeCache = null;
+        this.rootPointerCache = null;
+      });
     }
 
     const rootNode = await this.rootNodeCache;
diff --git a/src/bptree/node.ts b/src/bptree/node.ts
index 13a4a3c..0596d35 100644
--- a/src/bptree/node.ts
+++ b/src/bptree/node.ts
@@ -83,6 +83,10 @@ export class BPTreeNode {
 
         return node;
       });
+      // a failed request is made again the next time
+      this.childrenCache[index]!!.catch(() => {
+        this.childrenCache[index] = null;
+      });
     }
 
     if (!this.childrenCache[index]) {
diff --git a/src/db/database.ts b/src/db/database.ts
index a0457aa..ee8b018 100644
--- a/src/db/database.ts
+++ b/src/db/database.ts
@@ -94,6 +94,10 @@ export class Database<T extends Schema> {
   async fields() {
     if (!this.indexHeadersPromise) {
       this.indexHeadersPromise = this.indexFile.indexHeaders();
+      // a failed request is made again the next time
+      this.indexHeadersPromise.catch(() => {
+        this.indexHeadersPromise = undefined;
+      });
     }
 
     return this.indexHeadersPromise;
diff --git a/src/file/multi.ts b/src/file/multi.ts
index a1ab846..1cfc163 100644
--- a/src/file/multi.ts
+++ b/src/file/multi.ts
@@ -64,6 +64,10 @@ export class LinkedMetaPage {
           end: Number(this.offset) + PAGE_SIZE_BYTES - 1,
         },
       ]);
+      // a failed request is made again the next time
+      this.metaPageDataPromise.catch(() => {
+        this.metaPageDataPromise = undefined;
+      });
     }
 
     const res = await this.metaPageDataPromise;
-- 
2.43.0


From 594821af4be46c99dcfcb185c4f6314f8f0d8a61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:45:31 +0000
Subject: [PATCH 40/41] fix: a write at a position near the largest one crashes
 instead of failing

---
 pkg/mmap/mmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/pkg/mmap/mmap.go b/pkg/mmap/mmap.go
index 38ecc04..b0b540e 100644
--- a/pkg/mmap/mmap.go
+++ b/pkg/mmap/mmap.go
@@ -4,6 +4,7 @@ package mmap
 import (
 	"fmt"
 	"io"
+	"math"
 	"os"
 
 	"golang.org/x/sys/unix"
@@ -145,6 +146,9 @@ func (m *MemoryMappedFile) WriteAt(b []byte, off int64) (int, error) {
 	if m.prot&unix.PROT_WRITE == 0 {
 		return 0, fmt.Errorf("mmap: write to a read-only file: %w", os.ErrPermission)
 	}
+	if off > math.MaxInt64-int64(len(b)) {
+		return 0, fmt.Errorf("mmap: position out of bounds")
+	}
 	// check if the file needs to be remapped
 	if off+int64(len(b)) > int64(len(m.bytes)) {
 		// write the data and remap the file
-- 
2.43.0


From 2d440cfbae333df187f9c2b7fd596ea776ee8342 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:23:47 +0000
Subject: [PATCH 41/41] fix: a key 65536 bytes too long passes the width check
 of a tree

The length was cut to 16 bits before it was compared, so such a key was
accepted into a tree of fixed width and overran a page or was only refused
after pages were written.
---
 pkg/bptree/bptree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pkg/bptree/bptree.go b/pkg/bptree/bptree.go
index 5725d92..568a0f6 100644
--- a/pkg/bptree/bptree.go
+++ b/pkg/bptree/bptree.go
@@ -261,7 +261,7 @@ func (t *BPTree) traverse(key pointer.ReferencedValue, node *BPTreeNode, ptr poi
 func (t *BPTree) Insert(key pointer.ReferencedValue, value pointer.MemoryPointer) error {
 
 	if t.Width != uint16(0) {
-		if uint16(len(key.Value)) != t.Width-1 {
+		if len(key.Value) != int(t.Width)-1 {
 			return fmt.Errorf("key |%v| to insert does not match with BPTree width. Expected width: %v, got: %v", string(key.Value), t.Width-1, len(key.Value))
 		}
 	}
-- 
2.43.0

