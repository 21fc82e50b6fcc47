From e30459ffeaf40f238b108372754b7d0eea18414f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 01/47] fix: clearing a clear bit no longer changes its
 neighbours

---
 common/bitset/bitset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index c1faa37..40dacbe 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -115,7 +115,7 @@ func (b *Bitset) Unset(x uint64) *Bitset {
 	if offset >= len(b.data) {
 		return b
 	}
-	b.data[offset] = b.data[offset] - (1 << (x % wordSize))
+	b.data[offset] &^= 1 << (x % wordSize)
 	return b
 }
 
-- 
2.43.0


From 86e94190d69536446da28e05290a367da2880327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 02/47] fix: bits past 2^63 are out of bounds instead of a
 panic

---
 common/bitset/bitset.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 40dacbe..4f01df4 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -56,7 +56,7 @@ func (b *Bitset) Count() int {
 // Get returns true if the specified index has been previously set and never subsequently unset.
 // Safely false if the specified index is out of bounds.
 func (b *Bitset) Get(x uint64) bool {
-	if int(x)/wordSize >= len(b.data) {
+	if x/wordSize >= uint64(len(b.data)) {
 		return false
 	}
 	return b.data[x/wordSize]&(1<<(x%wordSize)) != 0
@@ -111,8 +111,8 @@ func (b *Bitset) Full() bool {
 // Unset sets the specified index to False. If the specified index is out of bounds, nothing
 // happens. Does not cause size to shrink. Returns itself
 func (b *Bitset) Unset(x uint64) *Bitset {
-	offset := int(x) / wordSize
-	if offset >= len(b.data) {
+	offset := x / wordSize
+	if offset >= uint64(len(b.data)) {
 		return b
 	}
 	b.data[offset] &^= 1 << (x % wordSize)
-- 
2.43.0


From fe8a647ff726bf7f097cde885c8d1a66d282f6d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 03/47] fix: unions and intersections of bitsets keep their
 size

---
 common/bitset/bitset.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 4f01df4..53dcc47 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -132,7 +132,7 @@ func (b *Bitset) Union(a *Bitset) *Bitset {
 	copy(remainder, longer.data[len(shorter.data):])
 
 	result = append(result, remainder...)
-	return &Bitset{data: result}
+	return &Bitset{data: result, size: max(a.size, b.size)}
 }
 
 // Intersect returns the intersect between any two bitsets
@@ -144,7 +144,7 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 		result[i] = x & longer.data[i]
 	}
 
-	return &Bitset{data: result}
+	return &Bitset{data: result, size: min(a.size, b.size)}
 }
 
 // Overlap takes a sorted  list of ranges ([]uint16 of even length) where each consecutive pair of
@@ -290,6 +290,13 @@ func shorterFirst(a, b *Bitset) (*Bitset, *Bitset) {
 	return b, a
 }
 
+func min(a, b int) int {
+	if a < b {
+		return a
+	}
+	return b
+}
+
 func max(a, b int) int {
 	if a > b {
 		return a
-- 
2.43.0


From cc4246ac509478293af1545fdc858b409ed87d7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 04/47] fix: an odd number of range bounds no longer panics

---
 common/bitset/bitset.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 53dcc47..2d4f66c 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -152,7 +152,7 @@ func (b *Bitset) Intersect(a *Bitset) *Bitset {
 // non-overallping ranges that are set to 'on' within the underlying bitset
 func (b *Bitset) Overlap(ranges []uint16) []uint16 {
 	result := make([]uint16, 0, len(ranges))
-	for i := 0; i < len(ranges); i += 2 {
+	for i := 0; i+1 < len(ranges); i += 2 {
 		start, end := ranges[i], ranges[i+1]
 		result = append(result, b.filledRanges(int(start), int(end))...)
 	}
-- 
2.43.0


From c214893814288ee9479eb4ea8c5afcb1835fe727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:05 +0000
Subject: [PATCH 05/47] fix: refuse bitset data that no bitset could have
 produced

---
 common/bitset/bitset.go | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/common/bitset/bitset.go b/common/bitset/bitset.go
index 2d4f66c..e383c8f 100644
--- a/common/bitset/bitset.go
+++ b/common/bitset/bitset.go
@@ -254,6 +254,9 @@ func (b *Bitset) Serialize() []byte {
 
 // Deserialize converts a previously-serialized bitset into a realized bitset.
 func Deserialize(data []byte) (*Bitset, error) {
+	if len(data) < 8 {
+		return nil, fmt.Errorf("bitset data must start with an 8-byte size. Got %d bytes", len(data))
+	}
 	size := int(binary.BigEndian.Uint64(data[:8]))
 
 	if l := len(data[8:]); l%8 != 0 {
@@ -266,6 +269,17 @@ func Deserialize(data []byte) (*Bitset, error) {
 		setData[i] = binary.BigEndian.Uint64(data[byteIndex : byteIndex+8])
 	}
 
+	wordCount := size / wordSize
+	if size%wordSize != 0 {
+		wordCount++
+	}
+	if size < 0 || wordCount != len(setData) {
+		return nil, fmt.Errorf("bitset of size %d cannot have %d words", size, len(setData))
+	}
+	if spare := size % wordSize; spare != 0 && setData[wordCount-1]>>spare != 0 {
+		return nil, fmt.Errorf("bitset of size %d has bits set past its end", size)
+	}
+
 	return &Bitset{
 		data: setData,
 		size: size,
-- 
2.43.0


From c07b1107d2b92257b18069ef4096d9f7dedabda0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:48 +0000
Subject: [PATCH 06/47] fix: incomplete messages are refused instead of
 crashing the parser

---
 flu/messages/parse.go |  7 ++++++-
 flu/messages/utils.go | 29 +++++++++++------------------
 2 files changed, 17 insertions(+), 19 deletions(-)

diff --git a/flu/messages/parse.go b/flu/messages/parse.go
index 3329ac9..5846759 100644
--- a/flu/messages/parse.go
+++ b/flu/messages/parse.go
@@ -5,6 +5,11 @@ import "fmt"
 // Parse attempts to parse a serialized message into a flu messages.Message
 func Parse(data []byte) (msg Message, err error) {
 	reader := byteReader{Data: data}
+	defer func() {
+		if reader.short {
+			msg, err = nil, fmt.Errorf("Incomplete message discarded: %d bytes", len(data))
+		}
+	}()
 	msgType := reader.readByte()
 
 	switch msgType {
@@ -42,7 +47,7 @@ func Parse(data []byte) (msg Message, err error) {
 		reqID := reader.readUint16()
 		entryCount := reader.readUint16()
 		entries := make([]ListFilesEntry, entryCount)
-		for i := 0; i < int(entryCount); i++ {
+		for i := 0; i < int(entryCount) && !reader.short; i++ {
 			entries[i] = ListFilesEntry{
 				SizeInBytes:      reader.readUint64(),
 				ChunkCount:       reader.readUint32(),
diff --git a/flu/messages/utils.go b/flu/messages/utils.go
index 4c58135..9571700 100644
--- a/flu/messages/utils.go
+++ b/flu/messages/utils.go
@@ -12,42 +12,37 @@ import (
 type byteReader struct {
 	Data  []byte
 	index int
+	short bool // set once more data was requested than was available
 }
 
 func (b *byteReader) readByte() uint8 {
-	result := b.Data[b.index]
-	b.index++
-	return result
+	return b.readBytes(1)[0]
 }
 
 func (b *byteReader) readBytes(count int) []byte {
+	if count > len(b.Data)-b.index {
+		b.short = true
+		return make([]byte, count)
+	}
 	result := b.Data[b.index : b.index+count]
 	b.index += count
 	return result
 }
 
 func (b *byteReader) readSha1Hash() *common.Sha1Hash {
-	hashData := b.Data[b.index : b.index+20]
-	b.index += 20
-	return (&common.Sha1Hash{}).FromSlice(hashData)
+	return (&common.Sha1Hash{}).FromSlice(b.readBytes(20))
 }
 
 func (b *byteReader) readUint16() uint16 {
-	result := binary.BigEndian.Uint16(b.Data[b.index : b.index+2])
-	b.index += 2
-	return result
+	return binary.BigEndian.Uint16(b.readBytes(2))
 }
 
 func (b *byteReader) readUint32() uint32 {
-	result := binary.BigEndian.Uint32(b.Data[b.index : b.index+4])
-	b.index += 4
-	return result
+	return binary.BigEndian.Uint32(b.readBytes(4))
 }
 
 func (b *byteReader) readUint64() uint64 {
-	result := binary.BigEndian.Uint64(b.Data[b.index : b.index+8])
-	b.index += 8
-	return result
+	return binary.BigEndian.Uint64(b.readBytes(8))
 }
 
 func (b *byteReader) readSliceUint16() []uint16 {
@@ -61,9 +56,7 @@ func (b *byteReader) readSliceUint16() []uint16 {
 
 func (b *byteReader) readString256() string {
 	length := int(b.readByte())
-	result := string(b.Data[b.index : b.index+length])
-	b.index += length
-	return result
+	return string(b.readBytes(length))
 }
 
 // Serialization utilities
-- 
2.43.0


From 497559ec00b5ddf2976d181977844d7c1b3eab64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:49 +0000
Subject: [PATCH 07/47] fix: long lists of chunk ranges are clipped instead of
 corrupting the message

---
 flu/messages/msgDiscoverHosts.go | 14 ++++++++------
 flu/messages/utils.go            |  8 ++++++++
 2 files changed, 16 insertions(+), 6 deletions(-)

diff --git a/flu/messages/msgDiscoverHosts.go b/flu/messages/msgDiscoverHosts.go
index 5613e21..e302797 100644
--- a/flu/messages/msgDiscoverHosts.go
+++ b/flu/messages/msgDiscoverHosts.go
@@ -35,11 +35,12 @@ func (r *DiscoverHostRequest) Serialize() []byte {
 	copy(result[3:23], r.Sha1Hash.Slice())
 
 	// chunk count
-	result[23] = uint8(len(r.Chunks))
+	chunkBounds := clipChunks(r.Chunks)
+	result[23] = uint8(len(chunkBounds))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(chunkBounds)*2)
+	for i, chunkVal := range chunkBounds {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
@@ -83,11 +84,12 @@ func (r *DiscoverHostResponse) Serialize() []byte {
 	binary.BigEndian.PutUint16(result[7:9], r.Port)
 
 	// chunk count
-	result[9] = uint8(len(r.Chunks))
+	chunkBounds := clipChunks(r.Chunks)
+	result[9] = uint8(len(chunkBounds))
 
 	// chunks
-	chunks := make([]byte, len(r.Chunks)*2)
-	for i, chunkVal := range r.Chunks {
+	chunks := make([]byte, len(chunkBounds)*2)
+	for i, chunkVal := range chunkBounds {
 		index := i * 2
 		binary.BigEndian.PutUint16(chunks[index:index+2], chunkVal)
 	}
diff --git a/flu/messages/utils.go b/flu/messages/utils.go
index 9571700..1bd7fe2 100644
--- a/flu/messages/utils.go
+++ b/flu/messages/utils.go
@@ -61,6 +61,14 @@ func (b *byteReader) readString256() string {
 
 // Serialization utilities
 
+// clipChunks limits a list of chunk ranges to the 127 whole ranges that a one-byte count can carry
+func clipChunks(chunks []uint16) []uint16 {
+	if len(chunks) > 254 {
+		return chunks[:254]
+	}
+	return chunks
+}
+
 // SerializeString255 serializaes the first 255 bytes of a string. Later bytes are ignored.
 func SerializeString255(s string) []byte {
 	strLen := len(s)
-- 
2.43.0


From 0815a9d826262e4922c21877cfa302ff92e3aae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:28:50 +0000
Subject: [PATCH 08/47] fix: a chunk that cannot be read no longer hangs the
 chunk reader

---
 common/chunkReader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/common/chunkReader.go b/common/chunkReader.go
index 64b2e30..b0c7f74 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -73,8 +73,8 @@ func NewChunkReader(reader *io.SectionReader) *ChunkReader {
 			}
 		}
 
-		if err == io.EOF {
-			break
+		if err != nil {
+			break // if this is not io.EOF, reading again will return the same error
 		}
 	}
 
-- 
2.43.0


From 8704e8a6d41b06f2d62f69a94771cafba0844c14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:03 +0000
Subject: [PATCH 09/47] fix: index and progress files are replaced in one step,
 so a crash or full disk cannot tear them

---
 catalogue/indexFile.go    | 18 +++++++++++++-----
 catalogue/progressFile.go |  8 +-------
 2 files changed, 14 insertions(+), 12 deletions(-)

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index c29d583..77540a9 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -80,13 +80,21 @@ func (ind *indexFile) save() error {
 		return err
 	}
 
-	indexFilePath := filepath.Join(ind.dataDir, indexFileName)
-	err = os.WriteFile(indexFilePath, data, 0664)
+	return replaceFile(filepath.Join(ind.dataDir, indexFileName), data)
+}
+
+// replaceFile replaces the contents of a file in a single step, so that neither an error nor the
+// end of the process can leave a partially-written file behind.
+func replaceFile(path string, data []byte) error {
+	tempPath := path + ".tmp"
+	err := os.WriteFile(tempPath, data, 0664)
+	if err == nil {
+		err = os.Rename(tempPath, path)
+	}
 	if err != nil {
-		return err
+		os.Remove(tempPath)
 	}
-
-	return nil
+	return err
 }
 
 // AddIndexRecord adds an indexRecord to the underlying file, and reloads the in-memory
diff --git a/catalogue/progressFile.go b/catalogue/progressFile.go
index ba14d80..cde883e 100644
--- a/catalogue/progressFile.go
+++ b/catalogue/progressFile.go
@@ -91,13 +91,7 @@ func newProgressFile(record *indexRecord, dataDir string) *progressFile {
 
 func (p *progressFile) save() error {
 	data := p.progress.Serialize()
-	progressFilePath := filepath.Join(p.filePath)
-	err := os.WriteFile(progressFilePath, data, 0664)
-	if err != nil {
-		return err
-	}
-
-	return nil
+	return replaceFile(p.filePath, data)
 }
 
 func (p *progressFile) delete() error {
-- 
2.43.0


From af3df97300f4f733431af41285075ce579ffeabb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:04 +0000
Subject: [PATCH 10/47] fix: a crash or failed write while sharing or unsharing
 leaves the index and progress files in step

---
 catalogue/catalogue.go | 22 ++++------------------
 catalogue/indexFile.go | 19 +++++++++++++++++--
 2 files changed, 21 insertions(+), 20 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index ac718a7..30b908c 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -69,14 +69,9 @@ func (c *Cat) ShareFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
-	err = c.indexFile.AddIndexRecord(record)
-	if err != nil {
-		return nil, err
-	}
-
 	record.ProgressFile = newProgressFile(record, c.DataDir)
 	record.ProgressFile.progress.Fill()
-	err = record.ProgressFile.save()
+	err = c.indexFile.AddIndexRecord(record)
 	if err != nil {
 		return nil, err
 	}
@@ -95,17 +90,13 @@ func (c *Cat) UnshareFile(hash *common.Sha1Hash) error {
 		return err
 	}
 
-	err = rec.ProgressFile.delete()
-	if err != nil {
-		return err
-	}
-
+	// the index on disk must stop naming the record before its progress is deleted
 	err = c.indexFile.RemoveIndexRecord(rec)
 	if err != nil {
 		return err
 	}
 
-	return nil
+	return rec.ProgressFile.delete()
 }
 
 // RegisterDownload creates a record of the download in flu's index. This is identical to
@@ -128,13 +119,8 @@ func (c *Cat) RegisterDownload(
 		ChunkSize:    int(chunkSizeInBytes),
 	}
 
-	err := c.indexFile.AddIndexRecord(&indexRecord)
-	if err != nil {
-		return nil, err
-	}
-
 	indexRecord.ProgressFile = newProgressFile(&indexRecord, c.DataDir)
-	indexRecord.ProgressFile.save()
+	err := c.indexFile.AddIndexRecord(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 77540a9..5d0bd1d 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -104,15 +104,30 @@ func (ind *indexFile) AddIndexRecord(record *indexRecord) error {
 	if extantRecord, exists := ind.index[record.Sha1Hash]; exists {
 		return fmt.Errorf("identical file already shared: %s", extantRecord.FilePath)
 	}
+
+	// the progress must be on disk before the index on disk names the record
+	err := record.ProgressFile.save()
+	if err != nil {
+		return err
+	}
+
 	ind.index[record.Sha1Hash] = record
-	return ind.save()
+	err = ind.save()
+	if err != nil {
+		delete(ind.index, record.Sha1Hash)
+	}
+	return err
 }
 
 // RemoveIndexRecord removes an indexRecord from the underlying file, and reloads the in-memory
 // representation of the data so that change is reflected.
 func (ind *indexFile) RemoveIndexRecord(record *indexRecord) error {
 	delete(ind.index, record.Sha1Hash)
-	return ind.save()
+	err := ind.save()
+	if err != nil {
+		ind.index[record.Sha1Hash] = record
+	}
+	return err
 }
 
 // MarshalJSON conforms to the Marshaler interface
-- 
2.43.0


From adabe39ab38362f51a98443a89afe0f24bcaaa71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 11/47] fix: a catalogue that was moved is updated where it is,
 not where it was

---
 catalogue/indexFile.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/catalogue/indexFile.go b/catalogue/indexFile.go
index 5d0bd1d..c874217 100644
--- a/catalogue/indexFile.go
+++ b/catalogue/indexFile.go
@@ -70,6 +70,7 @@ func (ind *indexFile) Init(dataDir string) error {
 	}
 
 	err = ind.UnmarshalJSON(data)
+	ind.dataDir = dataDir // the catalogue may have been moved since it was saved
 	// TODO: assert ownership
 	return err
 }
-- 
2.43.0


From 9f63ffb864856a001c00880b34105e6edbc027bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:05 +0000
Subject: [PATCH 12/47] fix: refuse to share pipes and devices, which would
 block the catalogue forever

---
 catalogue/indexRecord.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 0b114b8..26010f3 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -98,6 +98,10 @@ func generateIndexRecordForFile(path string) (*indexRecord, error) {
 		return nil, err
 	}
 
+	if !fileStats.Mode().IsRegular() {
+		return nil, fmt.Errorf("not a regular file: %s", cleanPath)
+	}
+
 	hash, err := common.HashFile(cleanPath)
 	if err != nil {
 		return nil, err
-- 
2.43.0


From 398be176bae025614273cd6c980c225153404c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:06 +0000
Subject: [PATCH 13/47] fix: refuse to save chunks that do not fit the file

---
 catalogue/indexRecord.go | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 26010f3..93d8af1 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -50,12 +50,19 @@ func (ir *indexRecord) export() *IndexRecordExport {
 }
 
 func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
+	start := chunk * int64(ir.ChunkSize)
+	if chunk >= int64(ir.ProgressFile.Size()) {
+		return fmt.Errorf("chunk %d is past the end of the file", chunk)
+	}
+	if size := ir.chunkSizeAt(start); int64(len(data)) != size {
+		return fmt.Errorf("chunk %d has %d bytes instead of %d", chunk, len(data), size)
+	}
+
 	fd, err := os.OpenFile(ir.FilePath, os.O_RDWR|os.O_CREATE, 0777)
 	if err != nil {
 		return err
 	}
 	defer fd.Close()
-	start := chunk * int64(ir.ChunkSize)
 	wrote, err := fd.WriteAt(data, start)
 	if err != nil {
 		return err
@@ -66,6 +73,14 @@ func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
 	return nil
 }
 
+// chunkSizeAt returns the number of bytes in the chunk that starts at the given offset
+func (ir *indexRecord) chunkSizeAt(start int64) int64 {
+	if rest := ir.SizeInBytes - start; rest < int64(ir.ChunkSize) {
+		return rest
+	}
+	return int64(ir.ChunkSize)
+}
+
 // getChunkReader returns a ChunkReader. It should be called via the catalogue so we know it is
 // done safely. It is the caller's responsibility to ensure the ChunkReader is eventually closed.
 func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error) {
-- 
2.43.0


From 3a3481289809e6a1afcf5c660f812c3000d9dc28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 14/47] fix: create the downloads folder when the first chunk
 is saved

---
 catalogue/indexRecord.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 93d8af1..4ad6b59 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -58,6 +58,11 @@ func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
 		return fmt.Errorf("chunk %d has %d bytes instead of %d", chunk, len(data), size)
 	}
 
+	err := os.MkdirAll(filepath.Dir(ir.FilePath), os.ModePerm)
+	if err != nil {
+		return err
+	}
+
 	fd, err := os.OpenFile(ir.FilePath, os.O_RDWR|os.O_CREATE, 0777)
 	if err != nil {
 		return err
-- 
2.43.0


From 2196dd259dd109779ad09cd403af944359e6b9e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 15/47] fix: a download over a longer file ends up with the
 right size

---
 catalogue/indexRecord.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 4ad6b59..d737617 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -68,6 +68,19 @@ func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
 		return err
 	}
 	defer fd.Close()
+
+	// the path may already hold something longer than the file being downloaded
+	stats, err := fd.Stat()
+	if err != nil {
+		return err
+	}
+	if stats.Size() > ir.SizeInBytes {
+		err = fd.Truncate(ir.SizeInBytes)
+		if err != nil {
+			return err
+		}
+	}
+
 	wrote, err := fd.WriteAt(data, start)
 	if err != nil {
 		return err
-- 
2.43.0


From 32dc65e3e50f47ffd0697cf4ab6b96fb46ee73ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:08 +0000
Subject: [PATCH 16/47] fix: saving a chunk of a removed file or with failing
 progress is an error and changes nothing

---
 catalogue/catalogue.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 30b908c..7bbc634 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -212,7 +212,7 @@ func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error
 	defer c.lock.Unlock()
 	ir, err := c.getIndexRecord(hash)
 	if err != nil {
-		panic(err)
+		return err
 	}
 
 	err = ir.saveChunk(int64(chunk), data)
@@ -220,8 +220,13 @@ func (c *Cat) SaveChunk(hash *common.Sha1Hash, chunk uint16, data []byte) error
 		return err
 	}
 
+	held := ir.ProgressFile.progress.Get(uint64(chunk))
 	ir.ProgressFile.Set(uint64(chunk))
-	return ir.ProgressFile.save()
+	err = ir.ProgressFile.save()
+	if err != nil && !held {
+		ir.ProgressFile.progress.Unset(uint64(chunk))
+	}
+	return err
 }
 
 func (c *Cat) GetChunkReader(hash *common.Sha1Hash, chunk int64) (*common.ChunkReader, error) {
-- 
2.43.0


From 04a13834c8b29d1ae91b59e116805ac7e67b2256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:09 +0000
Subject: [PATCH 17/47] fix: looking a file up takes the catalogue lock, and
 rehashing an unknown file returns the blank hash

---
 catalogue/catalogue.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 7bbc634..6b54db1 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -154,9 +154,9 @@ func (c *Cat) ListFiles() ([]IndexRecordExport, error) {
 // Rehash attempts to recalculate the hash for a given indexRecord. If it fails, a blank hash and an
 // error are returned.
 func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
-	rec, err := c.getIndexRecord(hash)
+	rec, err := c.Contains(hash)
 	if err != nil {
-		return nil, err
+		return (&common.Sha1Hash{}).Blank(), err
 	}
 	currentHash, err := common.HashFile(rec.FilePath)
 	if err != nil {
@@ -168,6 +168,8 @@ func (c *Cat) Rehash(hash *common.Sha1Hash) (*common.Sha1Hash, error) {
 // Contains returns the IndexRecordExport of the file specified by the hash, or an error if the file
 // cannot be accessed for any reason.
 func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
 	record, err := c.getIndexRecord(hash)
 	if err != nil {
 		return nil, err
@@ -177,8 +179,6 @@ func (c *Cat) Contains(hash *common.Sha1Hash) (*IndexRecordExport, error) {
 
 // Get is the same as contains, except that if the record does not exist it will panic.
 func (c *Cat) Get(hash *common.Sha1Hash) *IndexRecordExport {
-	c.lock.Lock()
-	defer c.lock.Unlock()
 	result, err := c.Contains(hash)
 	if err != nil {
 		panic(err)
-- 
2.43.0


From 3fd931f866a6085950cc91c6a2ad4317efdfccf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:10 +0000
Subject: [PATCH 18/47] fix: refuse downloads whose description makes no sense
 or whose name leaves the downloads folder

---
 catalogue/catalogue.go   | 42 +++++++++++++++++++++++++++++++++++++++-
 catalogue/indexRecord.go |  2 ++
 2 files changed, 43 insertions(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 6b54db1..1a423c0 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -3,6 +3,7 @@ package catalogue
 import (
 	"fmt"
 	"path/filepath"
+	"strings"
 	"sync"
 
 	"github.com/flu-network/client/common"
@@ -111,6 +112,11 @@ func (c *Cat) RegisterDownload(
 	c.lock.Lock()
 	defer c.lock.Unlock()
 
+	err := validateMetaData(sizeInBytes, chunkCount, chunkSizeInBytes, filename)
+	if err != nil {
+		return nil, err
+	}
+
 	indexRecord := indexRecord{
 		FilePath:     filepath.Join(c.DefaultDownloadsDir, filename),
 		SizeInBytes:  int64(sizeInBytes),
@@ -119,8 +125,14 @@ func (c *Cat) RegisterDownload(
 		ChunkSize:    int(chunkSizeInBytes),
 	}
 
+	for _, rec := range c.indexFile.index {
+		if rec.FilePath == indexRecord.FilePath && rec.Sha1Hash != indexRecord.Sha1Hash {
+			return nil, fmt.Errorf("another indexed file is already at %s", rec.FilePath)
+		}
+	}
+
 	indexRecord.ProgressFile = newProgressFile(&indexRecord, c.DataDir)
-	err := c.indexFile.AddIndexRecord(&indexRecord)
+	err = c.indexFile.AddIndexRecord(&indexRecord)
 	if err != nil {
 		return nil, err
 	}
@@ -128,6 +140,34 @@ func (c *Cat) RegisterDownload(
 	return indexRecord.export(), nil
 }
 
+// validateMetaData returns an error if the description of a file (which usually comes from a peer)
+// contradicts itself, exceeds what the protocol can express, or has a name that is not simply the
+// name of a file in the downloads folder.
+func validateMetaData(
+	sizeInBytes uint64,
+	chunkCount uint32,
+	chunkSizeInBytes uint32,
+	filename string,
+) error {
+	if chunkSizeInBytes == 0 || chunkSizeInBytes > maxChunkSize {
+		return fmt.Errorf("invalid chunk size %d", chunkSizeInBytes)
+	}
+
+	wantedCount := sizeInBytes / uint64(chunkSizeInBytes)
+	if sizeInBytes%uint64(chunkSizeInBytes) != 0 {
+		wantedCount++
+	}
+	if uint64(chunkCount) != wantedCount || wantedCount > maxChunkCount {
+		return fmt.Errorf("invalid chunk count %d for %d bytes", chunkCount, sizeInBytes)
+	}
+
+	if filename == "" || filename == "." || filename == ".." ||
+		strings.ContainsAny(filename, string(filepath.Separator)+"\x00") {
+		return fmt.Errorf("invalid file name %q", filename)
+	}
+	return nil
+}
+
 // ListFiles lists the files that exist in the catalogue. Not all indexed files have been downloaded
 // in their entirety. The result is a deep copy of the underlying catalogue data, so mutating it is
 // okay.
diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index d737617..085110e 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -11,6 +11,8 @@ import (
 )
 
 const defaultChunkSize = int(1 << 22) // 4mb in bytes
+const maxChunkSize = 1 << 26          // larger chunks are refused: they are assembled in memory
+const maxChunkCount = 1 << 16         // chunks are identified by 16-bit numbers
 
 // indexRecord describes a file that is 'known' by the flu client. The existence of an indexRecord
 // does not imply that the file exists locally. To find out which chunks of the file are
-- 
2.43.0


From 8fdef2035e06d52d25e79afb3ed1b6fcda9c1857 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:32 +0000
Subject: [PATCH 19/47] fix: paths that are not valid UTF-8 survive a restart

---
 catalogue/indexRecord.go | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 085110e..8745461 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -5,6 +5,7 @@ import (
 	"io"
 	"os"
 	"path/filepath"
+	"unicode/utf8"
 
 	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/common/bitset"
@@ -154,12 +155,16 @@ func generateIndexRecordForFile(path string) (*indexRecord, error) {
 
 // toJSON returns an indexRecordJSON, which can natively be marshalled into JSON
 func (ir *indexRecord) toJSON() *indexRecordJSON {
-	return &indexRecordJSON{
+	result := indexRecordJSON{
 		FilePath:    ir.FilePath,
 		SizeInBytes: ir.SizeInBytes,
 		Sha1Hash:    ir.Sha1Hash.String(),
 		ChunkSize:   ir.ChunkSize,
 	}
+	if !utf8.ValidString(ir.FilePath) {
+		result.RawFilePath = []byte(ir.FilePath)
+	}
+	return &result
 }
 
 // UnmarshalJSON conforms to the Marshaler interface
@@ -172,6 +177,10 @@ func (irj *indexRecordJSON) fromJSON() (*indexRecord, error) {
 		ChunkSize:    irj.ChunkSize,
 	}
 
+	if irj.RawFilePath != nil {
+		result.FilePath = string(irj.RawFilePath)
+	}
+
 	err := result.Sha1Hash.FromStringSafe(irj.Sha1Hash)
 	if err != nil {
 		return nil, err
@@ -186,4 +195,5 @@ type indexRecordJSON struct {
 	SizeInBytes int64
 	Sha1Hash    string
 	ChunkSize   int
+	RawFilePath []byte `json:",omitempty"` // only set if FilePath cannot be stored as JSON text
 }
-- 
2.43.0


From a0bbf4bc499bb47337dffff5c2a21c955ca1692b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:10 +0000
Subject: [PATCH 20/47] fix: the daemon parses exactly the bytes of a datagram,
 whatever its size

---
 main.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/main.go b/main.go
index 9da2737..401918e 100644
--- a/main.go
+++ b/main.go
@@ -87,12 +87,13 @@ func startDaemon() {
 		defer c1.Close()
 		fmt.Printf("UDP Interface available at: %s:%d\n", fluServer.LocalIP().String(), udpPort)
 
+		buffer := make([]byte, 65535) // the largest datagram
 		for {
-			buffer := make([]byte, 1024)
-			_, returnAddress, err := c1.ReadFromUDP(buffer)
+			n, returnAddress, err := c1.ReadFromUDP(buffer)
 			failHard(err)
+			message := append([]byte(nil), buffer[:n]...)
 			go func() {
-				err := fluServer.HandleMessage(buffer, c1, returnAddress)
+				err := fluServer.HandleMessage(message, c1, returnAddress)
 				if err != nil {
 					fmt.Println(err)
 				}
-- 
2.43.0


From e61b983baa89e2a02eaff0a7ac59a988e48c852b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 21/47] fix: file listings of more than a dozen files can be
 received

---
 flu/serverListFilesOnHost.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 8095805..f709632 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -37,12 +37,12 @@ func (s *Server) ListFilesOnHost(
 			errorChan <- err
 		} else {
 			conn.Write(req.Serialize())
-			rawResponseBuffer := make([]byte, 1024)
-			_, err = conn.Read(rawResponseBuffer)
+			rawResponseBuffer := make([]byte, 65535) // the largest datagram
+			n, err := conn.Read(rawResponseBuffer)
 			if err != nil {
 				errorChan <- err
 			} else {
-				responseChan <- rawResponseBuffer
+				responseChan <- rawResponseBuffer[:n]
 			}
 		}
 	}()
-- 
2.43.0


From e32ddbf2735384c149d7ee3d5a8331fb8d965858 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:11 +0000
Subject: [PATCH 22/47] fix: a peer asking about an unknown file no longer ends
 the daemon

---
 flu/serverListFilesOnHost.go | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index f709632..4d707a4 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"path"
 	"time"
@@ -75,14 +74,10 @@ func (s *Server) RespondToListFilesOnHost(
 	if req.Sha1Hash.IsBlank() {
 		files, err = s.cat.ListFiles()
 		if err != nil {
-			log.Fatal(err)
+			return err
 		}
-	} else {
-		file, err := s.cat.Contains(req.Sha1Hash)
-		if err != nil {
-			log.Fatal(err)
-		}
-		files = append(files, *file)
+	} else if file, err := s.cat.Contains(req.Sha1Hash); err == nil {
+		files = append(files, *file) // else we know nothing about it, and say so with an empty list
 	}
 
 	resp := messages.ListFilesResponse{
-- 
2.43.0


From cfdbd9366d3a0e56a8e7caae01599ee3e7ccded3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:12 +0000
Subject: [PATCH 23/47] fix: hosts with more files than fit a datagram answer
 listings with those that do

---
 flu/server.go                |  3 +++
 flu/serverListFilesOnHost.go | 10 +++++++++-
 2 files changed, 12 insertions(+), 1 deletion(-)

diff --git a/flu/server.go b/flu/server.go
index 8582be7..cf4d544 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -13,6 +13,9 @@ import (
 
 const maxRequestID = int(1 << 16)
 
+// maxDatagramSize is the largest payload of a UDP datagram over IPV4
+const maxDatagramSize = 65507
+
 // Server dispatches and responds to flu messages. It contains enough internal state to map an
 // incoming UDP message to a previous outgoing message, thereby providing a request/response
 // paradigm when needed. Every request/response is tagged with a monotonically-increasing requestID
diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 4d707a4..56ae6ec 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -97,6 +97,14 @@ func (s *Server) RespondToListFilesOnHost(
 		}
 	}
 
-	_, err = conn.WriteToUDP(resp.Serialize(), returnAddr)
+	rawResponse := resp.Serialize()
+	for len(rawResponse) > maxDatagramSize {
+		// list as many files as fit; an entry takes at most 296 bytes
+		surplus := (len(rawResponse) - maxDatagramSize + 295) / 296
+		resp.Files = resp.Files[:len(resp.Files)-surplus]
+		rawResponse = resp.Serialize()
+	}
+
+	_, err = conn.WriteToUDP(rawResponse, returnAddr)
 	return err
 }
-- 
2.43.0


From c6e55052df8a6b04e73b52f2bae88b6d4597aea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 24/47] fix: a host without a network keeps running and reports
 errors

---
 cli/cliMethodsChims.go       |  5 ++++-
 flu/ipv4.go                  | 15 +++++----------
 flu/server.go                |  7 -------
 flu/serverDiscoverHosts.go   | 26 +++++++++++++++++---------
 flu/serverListFilesOnHost.go |  4 +++-
 flu/serverStartDownload.go   | 20 +++++++++++++++-----
 main.go                      |  6 +++++-
 7 files changed, 49 insertions(+), 34 deletions(-)

diff --git a/cli/cliMethodsChims.go b/cli/cliMethodsChims.go
index 2499ee2..3c2c7ed 100644
--- a/cli/cliMethodsChims.go
+++ b/cli/cliMethodsChims.go
@@ -51,7 +51,10 @@ func (c *ChimResponseList) Sprintf() string {
 // Chims lists available hosts on the network. If a sha1 is provided, only hosts that have at least
 // some of that file will respond, and their responses will be scoped to that one file.
 func (m *Methods) Chims(req *ChimRequest, resp *ChimResponseList) error {
-	r := m.fluServer.DiscoverHosts(req.Sha1Hash, []uint16{})
+	r, err := m.fluServer.DiscoverHosts(req.Sha1Hash, []uint16{})
+	if err != nil {
+		return err
+	}
 	resp.Responses = make([]ChimResponse, len(r))
 	for i, peer := range r {
 		resp.Responses[i] = ChimResponse{
diff --git a/flu/ipv4.go b/flu/ipv4.go
index c3dfde8..26190ea 100644
--- a/flu/ipv4.go
+++ b/flu/ipv4.go
@@ -8,20 +8,15 @@ import (
 type ipv4 [4]byte
 
 func newIpv4(netIP *net.IP) (ipv4, error) {
-	converted := netIP.To4()
 	result := [4]byte{}
+	if netIP == nil {
+		return result, fmt.Errorf("this host is not connected to an IPV4 network")
+	}
+	converted := netIP.To4()
 	if converted == nil {
 		return result, fmt.Errorf("provided IP address is not an IPV4 address")
 	}
 
-	switch cap(*netIP) {
-	case 4:
-		copy(result[:], (*netIP)[0:4])
-	case 16:
-		copy(result[:], (*netIP)[12:16])
-	default:
-		panic(fmt.Errorf("unknown net.IP %v", netIP))
-	}
-
+	copy(result[:], converted)
 	return result, nil
 }
diff --git a/flu/server.go b/flu/server.go
index cf4d544..8810e10 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -2,7 +2,6 @@ package flu
 
 import (
 	"fmt"
-	"log"
 	"net"
 	"sync"
 
@@ -176,9 +175,3 @@ func (s *Server) LocalIP() *net.IP {
 
 	return nil
 }
-
-func check(e error) {
-	if e != nil {
-		log.Fatal(e)
-	}
-}
diff --git a/flu/serverDiscoverHosts.go b/flu/serverDiscoverHosts.go
index 9c47701..d126f92 100644
--- a/flu/serverDiscoverHosts.go
+++ b/flu/serverDiscoverHosts.go
@@ -10,11 +10,11 @@ import (
 
 // DiscoverHosts broadcasts a DiscoverHostRequest on the local network, collects responses for
 // a few seconds, and returns the collected results. Both arguments are optional and serve as
-// filters.
+// filters. It returns an error if the request cannot be sent, e.g. because there is no network.
 func (s *Server) DiscoverHosts(
 	hash *common.Sha1Hash,
 	chunks []uint16,
-) []messages.DiscoverHostResponse {
+) ([]messages.DiscoverHostResponse, error) {
 	// construct a request
 	req := messages.DiscoverHostRequest{
 		Sha1Hash:  *hash,
@@ -24,6 +24,7 @@ func (s *Server) DiscoverHosts(
 
 	// add a response harness for it
 	responseChan := s.registerResponseChan(req.RequestID, req.ResponseType())
+	defer s.unregisterResponseChan(req.RequestID, req.ResponseType())
 
 	// send it into the ether
 	var broadcastAddress = net.UDPAddr{
@@ -32,9 +33,14 @@ func (s *Server) DiscoverHosts(
 	}
 
 	conn, err := net.DialUDP("udp", nil, &broadcastAddress)
-	check(err)
+	if err != nil {
+		return nil, err
+	}
 	defer conn.Close()
-	conn.Write(req.Serialize())
+	_, err = conn.Write(req.Serialize())
+	if err != nil {
+		return nil, err
+	}
 
 	// set a timeout and wait for the response
 	waitChan := time.After(2 * time.Second)
@@ -43,9 +49,8 @@ func (s *Server) DiscoverHosts(
 	for {
 		select {
 		case <-waitChan:
-			// if timed out, clean up
-			s.unregisterResponseChan(req.RequestID, req.ResponseType())
-			return result
+			// if timed out, we are done
+			return result, nil
 		case res := <-responseChan:
 			// else cast response into desired type
 			parsedResponse := res.(*messages.DiscoverHostResponse)
@@ -58,9 +63,12 @@ func (s *Server) RespondToDiscoverHosts(
 	req *messages.DiscoverHostRequest,
 	returnAddr *net.UDPAddr,
 ) error {
-	ip := s.LocalIP()
+	ip, err := newIpv4(s.LocalIP())
+	if err != nil {
+		return err
+	}
 	resp := messages.DiscoverHostResponse{
-		Address:   [4]byte{(*ip)[0], (*ip)[1], (*ip)[2], (*ip)[3]},
+		Address:   ip,
 		Port:      uint16(s.port),
 		RequestID: req.RequestID,
 		Chunks:    []uint16{},
diff --git a/flu/serverListFilesOnHost.go b/flu/serverListFilesOnHost.go
index 56ae6ec..29f45fc 100644
--- a/flu/serverListFilesOnHost.go
+++ b/flu/serverListFilesOnHost.go
@@ -22,7 +22,9 @@ func (s *Server) ListFilesOnHost(
 	req := messages.ListFilesRequest{RequestID: s.generateRequestID(), Sha1Hash: hash}
 	targetAddr := net.UDPAddr{IP: ipv4[:], Port: int(port)}
 	conn, err := net.DialUDP("udp", nil, &targetAddr)
-	check(err)
+	if err != nil {
+		return nil, err
+	}
 	defer conn.Close()
 
 	// setup response harness. Buffered so we don't deadlock
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 60a2b28..b0b0ac0 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -22,7 +22,10 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 	}
 
 	// list hosts that know of this file
-	goodHosts := s.getGoodHosts(hash, []uint16{}, ownIPV4)
+	goodHosts, err := s.getGoodHosts(hash, []uint16{}, ownIPV4)
+	if err != nil {
+		return err
+	}
 	if len(goodHosts) == 0 {
 		return fmt.Errorf("no good hosts found for hash %v", hash)
 	}
@@ -54,7 +57,11 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 			// getting the next wanted chunk. This runs the entire download serially!
 			// Find the least-known chunk from each host and download them
 			c := wantedChunks[0]
-			goodHosts = s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
+			goodHosts, err := s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
+			if err != nil {
+				time.Sleep(time.Second * 2) // the network may come back
+				continue
+			}
 
 			// we should really make a slice of host,chunk pairs.
 			for _, hostResponse := range goodHosts {
@@ -148,8 +155,11 @@ func (s *Server) getGoodHosts(
 	hash *common.Sha1Hash,
 	chunks []uint16,
 	ownIP [4]byte,
-) []*messages.DiscoverHostResponse {
-	resps := s.DiscoverHosts(hash, make([]uint16, 0))
+) ([]*messages.DiscoverHostResponse, error) {
+	resps, err := s.DiscoverHosts(hash, make([]uint16, 0))
+	if err != nil {
+		return nil, err
+	}
 	result := make([]*messages.DiscoverHostResponse, 0, len(resps))
 	for i := 0; i < len(resps); i++ {
 		// skip hosts that know nothing about the file we want
@@ -157,5 +167,5 @@ func (s *Server) getGoodHosts(
 			result = append(result, &resps[i])
 		}
 	}
-	return result
+	return result, nil
 }
diff --git a/main.go b/main.go
index 401918e..2b39b73 100644
--- a/main.go
+++ b/main.go
@@ -85,7 +85,11 @@ func startDaemon() {
 		c1, err := net.ListenUDP("udp", &addr)
 		failHard(err)
 		defer c1.Close()
-		fmt.Printf("UDP Interface available at: %s:%d\n", fluServer.LocalIP().String(), udpPort)
+		if ip := fluServer.LocalIP(); ip != nil {
+			fmt.Printf("UDP Interface available at: %s:%d\n", ip.String(), udpPort)
+		} else {
+			fmt.Printf("UDP Interface available at port %d. No network yet\n", udpPort)
+		}
 
 		buffer := make([]byte, 65535) // the largest datagram
 		for {
-- 
2.43.0


From d65bce4806df17ff3853540c588bed28abbf45e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:00 +0000
Subject: [PATCH 25/47] fix: a response that arrives as a discovery ends no
 longer blocks the daemon

---
 flu/server.go | 34 ++++++++++++++++++++++++----------
 1 file changed, 24 insertions(+), 10 deletions(-)

diff --git a/flu/server.go b/flu/server.go
index 8810e10..ecc0697 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -32,7 +32,7 @@ type Server struct {
 	// resMap and resMapLock are responsible for mapping outgoing requests to incoming responses.
 	// They map an outgoing requestID and response type to an incoming message and deliver the
 	// response to the Message chan stored in the map.
-	resMap     map[requestKey]chan messages.Message
+	resMap     map[requestKey]*responseChan
 	resMapLock sync.Mutex
 
 	// transfer lock, downloads and uploads ensures safe access to the download and upload maps.
@@ -49,6 +49,13 @@ type requestKey struct {
 	messageType uint8
 }
 
+// responseChan carries responses to the goroutine that requested them, until that goroutine stops
+// waiting for responses and closes done.
+type responseChan struct {
+	messages chan messages.Message
+	done     chan struct{}
+}
+
 type downloadKey struct {
 	hash       common.Sha1Hash
 	remoteHost ipv4
@@ -66,7 +73,7 @@ func NewServer(port int, cat *catalogue.Cat) *Server {
 		cat:          cat,
 		reqID:        0,
 		reqIDLock:    sync.Mutex{},
-		resMap:       make(map[requestKey](chan messages.Message)),
+		resMap:       make(map[requestKey]*responseChan),
 		resMapLock:   sync.Mutex{},
 		transferLock: sync.Mutex{},
 		downloads:    make(map[downloadKey]struct{}),
@@ -86,26 +93,33 @@ func (s *Server) registerResponseChan(reqID uint16, msgType uint8) chan messages
 	key := requestKey{reqID: reqID, messageType: msgType}
 	s.resMapLock.Lock()
 	defer s.resMapLock.Unlock()
-	responseChan := make(chan messages.Message, 1)
-	s.resMap[key] = responseChan
-	return responseChan
+	result := &responseChan{messages: make(chan messages.Message, 1), done: make(chan struct{})}
+	s.resMap[key] = result
+	return result.messages
 }
 
 func (s *Server) unregisterResponseChan(reqID uint16, msgType uint8) {
 	key := requestKey{reqID: reqID, messageType: msgType}
 	s.resMapLock.Lock()
 	defer s.resMapLock.Unlock()
-	delete(s.resMap, key)
+	if responseChan, ok := s.resMap[key]; ok {
+		close(responseChan.done)
+		delete(s.resMap, key)
+	}
 }
 
 // deliverResponse delivers a response message to the goRoutine that originally sent the request
 func (s *Server) deliverResponse(reqID uint16, msg messages.Message) error {
 	key := requestKey{reqID: reqID, messageType: msg.Type()}
 	s.resMapLock.Lock()
-	defer s.resMapLock.Unlock()
-	if responseChan, ok := s.resMap[key]; ok {
-		responseChan <- msg
-		return nil
+	responseChan, ok := s.resMap[key]
+	s.resMapLock.Unlock() // or nobody could stop waiting while we are delivering
+	if ok {
+		select {
+		case responseChan.messages <- msg:
+			return nil
+		case <-responseChan.done:
+		}
 	}
 	return fmt.Errorf("ResponseChan {%d:%d} expired", reqID, msg)
 }
-- 
2.43.0


From 0f263c30b5534bc9f3bcfe5e02dcf90a45a6a885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:20 +0000
Subject: [PATCH 26/47] fix: chunks are saved only if they arrived whole and
 intact, and bad packets do no harm

---
 flu/messages/msgDataPacket.go |  15 +++--
 flu/recvConnection.go         | 111 +++++++++++++++++++++++++---------
 flu/serverStartDownload.go    |  86 +++++++++++++-------------
 3 files changed, 139 insertions(+), 73 deletions(-)

diff --git a/flu/messages/msgDataPacket.go b/flu/messages/msgDataPacket.go
index fa36434..4145a82 100644
--- a/flu/messages/msgDataPacket.go
+++ b/flu/messages/msgDataPacket.go
@@ -43,8 +43,12 @@ func (r *DataPacket) Serialize() []byte {
 
 // Split interprets the DataPacket as the first message with a zero offset and returns the
 // the individual components of that message, namely: a hash of its contents, the size of the
-// overall data being transmitted in this connection, and the raw data itself
+// overall data being transmitted in this connection, and the raw data itself. The hash is nil if
+// the packet is too short to have those components.
 func (r *DataPacket) Split() (*common.Sha1Hash, uint32, []byte) {
+	if len(r.Data) < 24 {
+		return nil, 0, nil
+	}
 	hash := common.Sha1Hash{Data: [20]byte{}}
 	copy(hash.Data[:], r.Data[0:20]) // copy hash
 	chunkSize := binary.BigEndian.Uint32(r.Data[20:24])
@@ -52,10 +56,13 @@ func (r *DataPacket) Split() (*common.Sha1Hash, uint32, []byte) {
 	return &hash, chunkSize, data
 }
 
-// ParseAsDataPacket takes raw bytes from the wire and parses them as a DataPacket. It skips over
-// the first byte since that's used to indicate what type the message is, and this function assumes
-// the caller already has good reason to know this is a DataPacket and not something else.
+// ParseAsDataPacket takes raw bytes from the wire and parses them as a DataPacket. This
+// function assumes the caller already has good reason to know this is a DataPacket and not something
+// else. It returns nil if that turns out to be wrong.
 func ParseAsDataPacket(data []byte) *DataPacket {
+	if len(data) < 5 || data[0] != dataPacket {
+		return nil
+	}
 	return &DataPacket{
 		Offset: binary.BigEndian.Uint32(data[1:5]),
 		Data:   data[5:],
diff --git a/flu/recvConnection.go b/flu/recvConnection.go
index 67e7f86..f5da7c5 100644
--- a/flu/recvConnection.go
+++ b/flu/recvConnection.go
@@ -1,6 +1,7 @@
 package flu
 
 import (
+	"crypto/sha1"
 	"fmt"
 	"net"
 	"time"
@@ -9,13 +10,17 @@ import (
 	"github.com/flu-network/client/flu/messages"
 )
 
+// recvTimeout is how long a peer may go without sending anything new
+const recvTimeout = time.Second * 5
+
 type RecvConnection struct {
 	conn          *net.UDPConn
-	hash          *common.Sha1Hash
-	bytesReceived int
+	hash          *common.Sha1Hash // announced by the peer. nil until it does
+	bytesReceived int64
 	buffer        []byte
 	windowCap     int
-	outChan       chan *messages.DataPacket
+	offsets       map[uint32]struct{} // of the packets in the buffer
+	deadline      time.Time
 }
 
 func (r *RecvConnection) Ack(offset uint32) {
@@ -25,15 +30,76 @@ func (r *RecvConnection) Ack(offset uint32) {
 	r.conn.Write(ack.Serialize())
 }
 
-func (r *RecvConnection) Read() (*messages.DataPacket, bool) {
-	result := <-r.outChan
-	if result == nil {
-		return result, false
+// Read returns the next packet, or an error once the peer has sent nothing new for too long
+func (r *RecvConnection) Read() (*messages.DataPacket, error) {
+	for {
+		buffer := make([]byte, 1029) // NOT 1024: the serialization overhead is 5 bytes
+		r.conn.SetReadDeadline(r.deadline)
+		n, _, err := r.conn.ReadFromUDP(buffer)
+		if err != nil {
+			return nil, err
+		}
+		if packet := messages.ParseAsDataPacket(buffer[:n]); packet != nil {
+			return packet, nil
+		}
+	}
+}
+
+// Accept puts the packet's data into the buffer. It returns false if the packet does not belong to
+// the chunk being received, and an error if the peer describes a different chunk.
+func (r *RecvConnection) Accept(packet *messages.DataPacket) (bool, error) {
+	data := packet.Data
+	if packet.Offset == 0 {
+		// By convention the 0-offset packet contains the hash and chunk size
+		hash, size, firstData := packet.Split()
+		if hash == nil {
+			return false, nil
+		}
+		if int64(size) != int64(len(r.buffer)) {
+			return false, fmt.Errorf("chunk has %d bytes instead of %d", size, len(r.buffer))
+		}
+		if r.hash == nil {
+			r.hash = hash
+			r.deadline = time.Now().Add(recvTimeout)
+		}
+		data = firstData
+	}
+
+	if int64(packet.Offset)+int64(len(data)) > int64(len(r.buffer)) {
+		return false, nil
+	}
+	if _, ok := r.offsets[packet.Offset]; !ok && len(data) > 0 {
+		r.offsets[packet.Offset] = struct{}{}
+		copy(r.buffer[packet.Offset:], data)
+		r.bytesReceived += int64(len(data))
+		r.deadline = time.Now().Add(recvTimeout)
 	}
-	return result, true
+	return true, nil
 }
 
-func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*RecvConnection, error) {
+// Complete returns true once all data and the hash have been received
+func (r *RecvConnection) Complete() bool {
+	return r.hash != nil && r.bytesReceived >= int64(len(r.buffer))
+}
+
+// Intact returns true if the hash of the data matches the hash announced by the peer
+func (r *RecvConnection) Intact() bool {
+	return sha1.Sum(r.buffer) == r.hash.Data
+}
+
+// Close must be called when the connection is no longer needed
+func (r *RecvConnection) Close() {
+	r.conn.Close()
+}
+
+// DialPeer asks a peer for a chunk that is known to have the given size
+func DialPeer(
+	ip [4]byte,
+	port uint16,
+	hash *common.Sha1Hash,
+	chunk uint16,
+	size int64,
+) (*RecvConnection, error) {
 	conn, err := net.DialUDP("udp", nil, &net.UDPAddr{IP: ip[:], Port: int(port)})
 	if err != nil {
 		return nil, err
@@ -43,29 +109,18 @@ func DialPeer(ip [4]byte, port uint16, hash *common.Sha1Hash, chunk uint16) (*Re
 		conn:          conn,
 		hash:          nil,
 		bytesReceived: 0,
-		buffer:        nil,
+		buffer:        make([]byte, size),
 		windowCap:     1024,
-		outChan:       make(chan *messages.DataPacket, 10),
+		offsets:       make(map[uint32]struct{}),
+		deadline:      time.Now().Add(recvTimeout),
 	}
 
 	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: 1024}
-	result.conn.Write(kickstartMsg.Serialize())
-
-	go func() {
-		for {
-			buffer := make([]byte, 1029) // NOT 1024: the serialization overhead is 5 bytes
-			result.conn.SetReadDeadline(time.Now().Add(time.Second * 5))
-			n, _, err := result.conn.ReadFromUDP(buffer)
-			if err != nil {
-				result.conn.Close()
-				result.outChan <- nil
-				fmt.Printf("Connection closed: %v-%d:%v\n", hash, chunk, err)
-				break
-			} else {
-				result.outChan <- messages.ParseAsDataPacket(buffer[:n])
-			}
-		}
-	}()
+	_, err = result.conn.Write(kickstartMsg.Serialize())
+	if err != nil {
+		conn.Close()
+		return nil, err
+	}
 
 	return &result, nil
 }
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index b0b0ac0..a743910 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -1,7 +1,6 @@
 package flu
 
 import (
-	"crypto/sha1"
 	"fmt"
 	"time"
 
@@ -73,7 +72,11 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 				if _, ok := s.downloads[key]; !ok {
 					fmt.Printf("Getting chunk: %v\n", c.Start)
 					s.downloads[key] = struct{}{}
-					s.downloadChunk(ip, port, hash, c.Start) // TODO: make concurrent
+					err := s.downloadChunk(ip, port, hash, c.Start) // TODO: make concurrent
+					if err != nil {
+						fmt.Printf("Chunk %d failed: %v. Retrying.\n", c.Start, err)
+					}
+					delete(s.downloads, key)
 				}
 				s.transferLock.Unlock()
 			}
@@ -101,54 +104,55 @@ func (s *Server) downloadMetaData(
 	return &fileMeta, nil
 }
 
-func (s *Server) downloadChunk(ip [4]byte, port uint16, sha1Hash *common.Sha1Hash, chunk uint16) {
-	conn, err := DialPeer(ip, port, sha1Hash, chunk)
+// downloadChunk returns nil if the chunk was downloaded and saved
+func (s *Server) downloadChunk(
+	ip [4]byte,
+	port uint16,
+	sha1Hash *common.Sha1Hash,
+	chunk uint16,
+) error {
+	record, err := s.cat.Contains(sha1Hash)
 	if err != nil {
-		panic(err) // TODO: log somewhere and move on...
+		return err
+	}
+	size := record.SizeInBytes - int64(chunk)*int64(record.ChunkSize)
+	if size > int64(record.ChunkSize) {
+		size = int64(record.ChunkSize)
 	}
 
+	conn, err := DialPeer(ip, port, sha1Hash, chunk, size)
+	if err != nil {
+		return err
+	}
+	defer conn.Close()
+
 	start := time.Now()
 
-	for { // returns false when done or errored
-		packet, ok := conn.Read() // blocks execution
-		if !ok {
-			break
+	for !conn.Complete() {
+		packet, err := conn.Read() // blocks execution
+		if err != nil {
+			return err
 		}
-
-		if packet.Offset == 0 {
-			// By convention the 0-offset packet contains the hash and chunk size
-			hash, size, data := packet.Split()
-			conn.hash = hash
-			conn.buffer = make([]byte, size)
-			copy(conn.buffer, data) // start at zero offset
-			conn.bytesReceived += len(data)
-		} else {
-			conn.bytesReceived += len(packet.Data)
-			if len(packet.Data) > 0 {
-				copy(conn.buffer[packet.Offset:], packet.Data)
-			} else {
-				// empty packet == download complete
-				hash := sha1.New()
-				hash.Write(conn.buffer)
-				finalHash := (&common.Sha1Hash{}).FromSlice(hash.Sum(nil))
-				if finalHash.Data != conn.hash.Data {
-					// TODO: Handle this a little more gracefully...
-					fmt.Println("Sha1 hashes did not match. Download was corrupted. Retrying.")
-				}
-				err = s.cat.SaveChunk(sha1Hash, chunk, conn.buffer)
-				if err != nil {
-					panic(err)
-				}
-				downloadTime := float64(time.Since(start).Seconds())
-				speed := 4.0 / downloadTime
-				fmt.Printf("Chunk %d complete at %.2f mbps\n", chunk, speed)
-				break
-			}
+		ok, err := conn.Accept(packet)
+		if err != nil {
+			return err
+		}
+		if ok {
+			conn.Ack(packet.Offset)
 		}
-		conn.Ack(packet.Offset)
 	}
 
-	delete(s.downloads, downloadKey{hash: *sha1Hash, remoteHost: ip})
+	if !conn.Intact() {
+		return fmt.Errorf("sha1 hashes did not match. Download was corrupted")
+	}
+	err = s.cat.SaveChunk(sha1Hash, chunk, conn.buffer)
+	if err != nil {
+		return err
+	}
+	downloadTime := float64(time.Since(start).Seconds())
+	speed := 4.0 / downloadTime
+	fmt.Printf("Chunk %d complete at %.2f mbps\n", chunk, speed)
+	return nil
 }
 
 func (s *Server) getGoodHosts(
-- 
2.43.0


From c9a82684fcfa2a5265b35b1ab027e38d2f022201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:21 +0000
Subject: [PATCH 27/47] fix: downloads of removed files stop, and a downloaded
 chunk is not requested from other hosts

---
 flu/serverStartDownload.go | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index a743910..b2f5cad 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -49,12 +49,20 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 	}
 
 	go func() { // TODO: make interruptiple with a channel
-		for !s.cat.FileComplete(hash) {
+		for {
+			record, err := s.cat.Contains(hash)
+			if err != nil {
+				fmt.Println("Download stopped: the file is no longer in the catalogue")
+				return
+			}
 
 			// MARK: MASSIVE HACK. Fix this first!
-			wantedChunks := s.cat.MissingChunks(hash, 1) // TOOD: something much better than just
+			wantedChunks := record.Progress.UnfilledRanges() // TOOD: something much better than just
 			// getting the next wanted chunk. This runs the entire download serially!
 			// Find the least-known chunk from each host and download them
+			if len(wantedChunks) == 0 {
+				break
+			}
 			c := wantedChunks[0]
 			goodHosts, err := s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
 			if err != nil {
@@ -69,16 +77,23 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 
 				// start downloading from this host if not doing that already
 				s.transferLock.Lock()
-				if _, ok := s.downloads[key]; !ok {
-					fmt.Printf("Getting chunk: %v\n", c.Start)
-					s.downloads[key] = struct{}{}
-					err := s.downloadChunk(ip, port, hash, c.Start) // TODO: make concurrent
-					if err != nil {
-						fmt.Printf("Chunk %d failed: %v. Retrying.\n", c.Start, err)
-					}
-					delete(s.downloads, key)
+				_, busy := s.downloads[key]
+				s.downloads[key] = struct{}{}
+				s.transferLock.Unlock()
+				if busy {
+					continue
 				}
+
+				fmt.Printf("Getting chunk: %v\n", c.Start)
+				err := s.downloadChunk(ip, port, hash, c.Start) // TODO: make concurrent
+
+				s.transferLock.Lock()
+				delete(s.downloads, key)
 				s.transferLock.Unlock()
+				if err == nil {
+					break // the other hosts need not send it too
+				}
+				fmt.Printf("Chunk %d failed: %v. Retrying.\n", c.Start, err)
 			}
 		}
 		fmt.Println("Download complete")
-- 
2.43.0


From 2d192c243970006b8367dd828dbec6ab906db57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:22 +0000
Subject: [PATCH 28/47] fix: a completed download with the wrong content is not
 kept in the index

---
 flu/serverStartDownload.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index b2f5cad..9c8dcfc 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -48,6 +48,10 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 		}
 	}
 
+	if extantRecord.Progress.Full() {
+		return nil // nothing is left to download
+	}
+
 	go func() { // TODO: make interruptiple with a channel
 		for {
 			record, err := s.cat.Contains(hash)
@@ -96,6 +100,14 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 				fmt.Printf("Chunk %d failed: %v. Retrying.\n", c.Start, err)
 			}
 		}
+
+		// the peers vouch for each chunk, but only the hash of the whole file vouches for the file
+		currentHash, err := s.cat.Rehash(hash)
+		if err == nil && *currentHash != *hash {
+			fmt.Println("Download failed: the peers sent a different file. Removed from index")
+			s.cat.UnshareFile(hash)
+			return
+		}
 		fmt.Println("Download complete")
 	}()
 
-- 
2.43.0


From be902f52761617b6235bdf4c91f09dc2b11fdb14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:24 +0000
Subject: [PATCH 29/47] fix: a peer cannot describe any file as empty and
 thereby complete

---
 catalogue/catalogue.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 1a423c0..740d3d3 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -149,6 +149,10 @@ func validateMetaData(
 	chunkSizeInBytes uint32,
 	filename string,
 ) error {
+	if sizeInBytes == 0 {
+		return fmt.Errorf("an empty file cannot be downloaded")
+	}
+
 	if chunkSizeInBytes == 0 || chunkSizeInBytes > maxChunkSize {
 		return fmt.Errorf("invalid chunk size %d", chunkSizeInBytes)
 	}
-- 
2.43.0


From 6c9b2a1c2d4d2ef894d7c7e8378b17cc8255a4c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:25 +0000
Subject: [PATCH 30/47] fix: uploads end when the chunk is sent or the peer
 goes silent, and release what they used

---
 catalogue/indexRecord.go    |   4 +-
 common/chunkReader.go       |   9 +++
 flu/senderConnection.go     | 110 +++++++++++++++++++++++++++---------
 flu/server.go               |   3 +-
 flu/serverContinueUpload.go |   5 +-
 flu/serverStartUpload.go    |  29 +++++++---
 6 files changed, 120 insertions(+), 40 deletions(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 8745461..2c14a25 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -120,7 +120,9 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		return nil, err
 	}
 
-	return common.NewChunkReader(secReader), nil
+	result := common.NewChunkReader(secReader)
+	result.Closer = fd
+	return result, nil
 }
 
 func generateIndexRecordForFile(path string) (*indexRecord, error) {
diff --git a/common/chunkReader.go b/common/chunkReader.go
index b0c7f74..b968a4a 100644
--- a/common/chunkReader.go
+++ b/common/chunkReader.go
@@ -13,6 +13,15 @@ type ChunkReader struct {
 	Reader io.SectionReader
 	Hash   Sha1Hash
 	Size   int64
+	Closer io.Closer // closes the file underlying the io.SectionReader, if any
+}
+
+// Close releases the underlying file. The ChunkReader cannot be used afterwards.
+func (cr *ChunkReader) Close() error {
+	if cr.Closer == nil {
+		return nil
+	}
+	return cr.Closer.Close()
 }
 
 func (cr *ChunkReader) Offset() uint32 {
diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index e618dcb..7a1e79d 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -4,11 +4,16 @@ import (
 	"encoding/binary"
 	"io"
 	"net"
+	"sync"
+	"time"
 
 	"github.com/flu-network/client/common"
 	"github.com/flu-network/client/flu/messages"
 )
 
+// uploadTimeout is how long a peer may go without acknowledging anything
+const uploadTimeout = time.Second * 10
+
 type SenderConnection struct {
 	reader     *common.ChunkReader
 	windowSize uint16
@@ -16,7 +21,9 @@ type SenderConnection struct {
 	conn       *net.UDPConn
 	addr       *net.UDPAddr
 	packetChan chan messages.DataPacketAck
-	cancelChan chan struct{}
+	cancelChan chan struct{} // closed to ask the worker to stop
+	cancelOnce sync.Once
+	doneChan   chan struct{} // closed once nothing more will be sent
 }
 
 func NewSenderConnection(reader *common.ChunkReader,
@@ -24,6 +31,9 @@ func NewSenderConnection(reader *common.ChunkReader,
 	conn *net.UDPConn,
 	addr *net.UDPAddr,
 ) *SenderConnection {
+	if windowCap == 0 {
+		windowCap = 1 // the least that gets anything across
+	}
 	return &SenderConnection{
 		reader:     reader,
 		windowSize: 0,
@@ -31,17 +41,54 @@ func NewSenderConnection(reader *common.ChunkReader,
 		conn:       conn,
 		addr:       addr,
 		packetChan: make(chan messages.DataPacketAck, windowCap),
-		cancelChan: make(chan struct{}, 1),
+		cancelChan: make(chan struct{}),
+		doneChan:   make(chan struct{}),
 	}
 }
 
 // kickstart sends a message to the client telling it about the data to expect so it can set up
 // its own connection harnessing. It spawns a 'worker' routine to handle this connection. The main
-// routine then sends acks to the worker via the SenderConnection's packetChan.
+// routine then sends acks to the worker via the SenderConnection's packetChan. The worker calls
+// onDone when it is done, i.e. when the entire chunk was sent or the peer went silent.
 func (sc *SenderConnection) kickstart(
 	hash *common.Sha1Hash,
 	size int64,
+	onDone func(),
 ) error {
+	err := sc.sendFirstPacket(hash, size)
+	if err != nil {
+		sc.finish(onDone)
+		return err
+	}
+
+	go func() {
+		defer sc.finish(onDone)
+		ticker := time.NewTicker(uploadTimeout)
+		defer ticker.Stop()
+		idle := false
+		for {
+			select {
+			case ack := <-sc.packetChan:
+				idle = false
+				done, err := sc.kick(ack)
+				if done || err != nil {
+					return // if something went wrong, the peer will notice and ask again
+				}
+			case <-ticker.C:
+				if idle {
+					return
+				}
+				idle = true
+			case <-sc.cancelChan:
+				return
+			}
+		}
+	}()
+
+	return nil
+}
+
+func (sc *SenderConnection) sendFirstPacket(hash *common.Sha1Hash, size int64) error {
 	sc.reader.Reset()
 
 	firstPacket := messages.DataPacket{
@@ -69,32 +116,37 @@ func (sc *SenderConnection) kickstart(
 	}
 
 	sc.windowSize++
-
-	go func() {
-		for {
-			select {
-			case ack := <-sc.packetChan:
-				err := sc.kick(ack)
-				if err != nil {
-					panic(err) // TODO: Do something with these errors
-				}
-			case <-sc.cancelChan:
-				return
-			}
-		}
-	}()
-
 	return nil
 }
 
+func (sc *SenderConnection) finish(onDone func()) {
+	sc.reader.Close()
+	close(sc.doneChan)
+	onDone()
+}
+
+// terminate stops the worker and waits until nothing more will be sent
 func (sc *SenderConnection) terminate() {
-	sc.cancelChan <- struct{}{}
+	sc.cancelOnce.Do(func() { close(sc.cancelChan) })
+	<-sc.doneChan
+}
+
+// deliver passes an ack to the worker. It returns false if the worker is done.
+func (sc *SenderConnection) deliver(ack messages.DataPacketAck) bool {
+	select {
+	case sc.packetChan <- ack:
+		return true
+	case <-sc.doneChan:
+		return false
+	}
 }
 
 // kick receives an ack from the client and responds accordingly. Passed by value because acks are
-// << 64 bits
-func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
-	sc.windowSize--
+// << 64 bits. It returns true once the entire chunk has been sent.
+func (sc *SenderConnection) kick(ack messages.DataPacketAck) (bool, error) {
+	if sc.windowSize > 0 { // peers may send more acks than we sent packets
+		sc.windowSize--
+	}
 
 	packet := messages.DataPacket{Offset: 0, Data: nil}
 	packetBuffer := make([]byte, 1024)
@@ -103,10 +155,8 @@ func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
 
 		byteCount, offset, err := sc.reader.Read(packetBuffer)
 
-		if err == io.EOF {
-			defer sc.terminate() // make this the last message
-		} else if err != nil {
-			return err
+		if err != nil && err != io.EOF {
+			return false, err
 		}
 
 		packet.Data = packetBuffer[:byteCount] // clip to number of bytes read
@@ -114,11 +164,15 @@ func (sc *SenderConnection) kick(ack messages.DataPacketAck) error {
 
 		_, err = sc.conn.WriteTo(packet.Serialize(), sc.addr)
 		if err != nil {
-			return err
+			return false, err
+		}
+
+		if byteCount == 0 { // an empty packet is the last message
+			return true, nil
 		}
 
 		sc.windowSize++
 	}
 
-	return nil
+	return false, nil
 }
diff --git a/flu/server.go b/flu/server.go
index ecc0697..7d2c847 100644
--- a/flu/server.go
+++ b/flu/server.go
@@ -35,10 +35,11 @@ type Server struct {
 	resMap     map[requestKey]*responseChan
 	resMapLock sync.Mutex
 
-	// transfer lock, downloads and uploads ensures safe access to the download and upload maps.
+	// the locks ensure safe access to the download and upload maps.
 	// These maps are used to keep track on ongoing transfers, irrespective of their state.
 	transferLock sync.Mutex
 	downloads    map[downloadKey]struct{} // corresponds to a single chunk from a single host
+	uploadLock   sync.Mutex
 	uploads      map[uploadKey]*SenderConnection
 }
 
diff --git a/flu/serverContinueUpload.go b/flu/serverContinueUpload.go
index a29395f..0765567 100644
--- a/flu/serverContinueUpload.go
+++ b/flu/serverContinueUpload.go
@@ -22,11 +22,12 @@ func (s *Server) ContinueUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
+	s.uploadLock.Lock()
 	sc, ok := s.uploads[key]
-	if !ok {
+	s.uploadLock.Unlock()
+	if !ok || !sc.deliver(*ack) {
 		return fmt.Errorf("no upload corresponds to %v:%d", key.remoteHost, key.remotePort)
 	}
 
-	sc.packetChan <- *ack
 	return nil
 }
diff --git a/flu/serverStartUpload.go b/flu/serverStartUpload.go
index 2b2b013..7a9cdea 100644
--- a/flu/serverStartUpload.go
+++ b/flu/serverStartUpload.go
@@ -19,18 +19,19 @@ func (s *Server) StartUpload(
 		return err
 	}
 
-	reader, err := s.cat.GetChunkReader(&ir.Sha1Hash, int64(msg.Chunk))
+	remoteHostIP, err := newIpv4(&returnAddr.IP)
 	if err != nil {
 		return err
 	}
 
-	if reader.Size > math.MaxUint32 {
-		err = fmt.Errorf("chunk size (%d) exceeds max 32-bit int (%d)", reader.Size, math.MaxInt32)
+	reader, err := s.cat.GetChunkReader(&ir.Sha1Hash, int64(msg.Chunk))
+	if err != nil {
 		return err
 	}
 
-	remoteHostIP, err := newIpv4(&returnAddr.IP)
-	if err != nil {
+	if reader.Size > math.MaxUint32 {
+		err = fmt.Errorf("chunk size (%d) exceeds max 32-bit int (%d)", reader.Size, math.MaxInt32)
+		reader.Close()
 		return err
 	}
 
@@ -39,9 +40,21 @@ func (s *Server) StartUpload(
 		remotePort: uint16(returnAddr.Port),
 	}
 
-	if _, ok := s.uploads[key]; !ok {
-		s.uploads[key] = NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+	// a new request from the same address replaces the previous one
+	sc := NewSenderConnection(reader, msg.WindowCap, conn, returnAddr)
+	s.uploadLock.Lock()
+	previous := s.uploads[key]
+	s.uploads[key] = sc
+	s.uploadLock.Unlock()
+	if previous != nil {
+		previous.terminate()
 	}
 
-	return s.uploads[key].kickstart(&reader.Hash, int64(reader.Size))
+	return sc.kickstart(&reader.Hash, int64(reader.Size), func() {
+		s.uploadLock.Lock()
+		defer s.uploadLock.Unlock()
+		if s.uploads[key] == sc {
+			delete(s.uploads, key)
+		}
+	})
 }
-- 
2.43.0


From 381bf4ea4ba88dff13466cf89dc7dfd9dc4b7c77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 31/47] fix: empty files can be printed

---
 cli/cliMethodsShare.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/cli/cliMethodsShare.go b/cli/cliMethodsShare.go
index 9c7482f..2772e88 100644
--- a/cli/cliMethodsShare.go
+++ b/cli/cliMethodsShare.go
@@ -35,7 +35,7 @@ func (li *ListItem) Sprintf() string {
 		fmt.Sprintf("	Chunk Count: %d\n", li.ChunkCount),
 		fmt.Sprintf("	Chunks Downloaded: %d\n", li.ChunksDownloaded),
 		fmt.Sprintf("	Chunk Size: %d\n", li.ChunkSizeInBytes),
-		fmt.Sprintf("	Integrity: %d%%\n", (li.ChunksDownloaded*100/li.ChunkCount*100)/100),
+		fmt.Sprintf("	Integrity: %d%%\n", li.integrity()),
 	}
 
 	var b strings.Builder
@@ -45,6 +45,14 @@ func (li *ListItem) Sprintf() string {
 	return b.String()
 }
 
+// integrity returns the percentage of chunks that are downloaded. An empty file has none to download.
+func (li *ListItem) integrity() int {
+	if li.ChunkCount == 0 {
+		return 100
+	}
+	return li.ChunksDownloaded * 100 / li.ChunkCount
+}
+
 // Share attempts to add the specified file to flu's index, making it available to anyone on your
 // local area network. If an identical file has already been added (even if has a different name),
 // flu will refuse to index it twice and return an error telling you which file it was. Sharing a
-- 
2.43.0


From 3c9cd6f0ecc94bf4e80665dbc8fdf8cc1252a435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:58 +0000
Subject: [PATCH 32/47] fix: IPV6 addresses and absent hashes are refused
 instead of ending the daemon

---
 cli/cliMethodsChims.go | 3 +++
 cli/cliMethodsGet.go   | 9 ++++++++-
 cli/cliMethodsList.go  | 7 +++++++
 3 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/cli/cliMethodsChims.go b/cli/cliMethodsChims.go
index 3c2c7ed..f27814a 100644
--- a/cli/cliMethodsChims.go
+++ b/cli/cliMethodsChims.go
@@ -51,6 +51,9 @@ func (c *ChimResponseList) Sprintf() string {
 // Chims lists available hosts on the network. If a sha1 is provided, only hosts that have at least
 // some of that file will respond, and their responses will be scoped to that one file.
 func (m *Methods) Chims(req *ChimRequest, resp *ChimResponseList) error {
+	if req.Sha1Hash == nil {
+		return fmt.Errorf("no hash supplied")
+	}
 	r, err := m.fluServer.DiscoverHosts(req.Sha1Hash, []uint16{})
 	if err != nil {
 		return err
diff --git a/cli/cliMethodsGet.go b/cli/cliMethodsGet.go
index f0a3a33..3380381 100644
--- a/cli/cliMethodsGet.go
+++ b/cli/cliMethodsGet.go
@@ -1,6 +1,10 @@
 package cli
 
-import "github.com/flu-network/client/common"
+import (
+	"fmt"
+
+	"github.com/flu-network/client/common"
+)
 
 // GetRequest contains the information necessary to initiate a flu transfer to get a file
 type GetRequest struct {
@@ -17,5 +21,8 @@ func (res *GetResponse) Sprintf() string {
 
 // Get initiates a flu transfer for the specified file
 func (m *Methods) Get(req *GetRequest, res *GetResponse) error {
+	if req.Sha1Hash == nil {
+		return fmt.Errorf("no hash supplied")
+	}
 	return m.fluServer.StartDownload(req.Sha1Hash)
 }
diff --git a/cli/cliMethodsList.go b/cli/cliMethodsList.go
index 80c9e8a..3444be4 100644
--- a/cli/cliMethodsList.go
+++ b/cli/cliMethodsList.go
@@ -1,6 +1,7 @@
 package cli
 
 import (
+	"fmt"
 	"net"
 	"strings"
 
@@ -52,6 +53,12 @@ func (m *Methods) List(req *ListRequest, resp *ListResponse) error {
 		}
 	} else {
 		addr := req.IP.To4()
+		if addr == nil {
+			return fmt.Errorf("not an IPV4 address: %s", req.IP)
+		}
+		if req.Sha1Hash == nil {
+			return fmt.Errorf("no hash supplied")
+		}
 		ip := [4]byte{addr[0], addr[1], addr[2], addr[3]}
 		r, err := m.fluServer.ListFilesOnHost(ip, uint16(m.fluServer.Port()), req.Sha1Hash)
 		if err != nil {
-- 
2.43.0


From 9fb4e0517ba29a9b780f0c3603ac9d4dc9acb115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 33/47] fix: an odd number of range bounds in a peer's answer
 can be printed

---
 cli/cliMethodsChims.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cliMethodsChims.go b/cli/cliMethodsChims.go
index f27814a..5f44d31 100644
--- a/cli/cliMethodsChims.go
+++ b/cli/cliMethodsChims.go
@@ -28,7 +28,7 @@ func (c *ChimResponse) Sprintf() string {
 	var b strings.Builder
 	b.WriteString(fmt.Sprintf("IP: %d.%d.%d.%d:%d\n",
 		c.HostIP[0], c.HostIP[1], c.HostIP[2], c.HostIP[3], c.HostPort))
-	for i := 0; i < len(c.Chunks); i += 2 {
+	for i := 0; i+1 < len(c.Chunks); i += 2 {
 		b.WriteString(fmt.Sprintf("  %d:%d\n", c.Chunks[i], c.Chunks[i+1]))
 	}
 	return b.String()
-- 
2.43.0


From 948edb13ecf2aa8880874c9521a80dabb37f717b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:59 +0000
Subject: [PATCH 34/47] fix: the command line explains that the daemon is not
 running

---
 cli/cliClient.go | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 08f99eb..634e82a 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -32,7 +32,10 @@ func (c *Client) Run(cmdArgs []string) {
 	}
 
 	client, err := rpc.Dial("unix", c.sockaddr)
-	verify(err)
+	if err != nil {
+		prettyPrintError(fmt.Errorf("cannot reach the flu daemon. Is it running? %v", err))
+		os.Exit(1)
+	}
 
 	cmd := cmdArgs[0]
 	args := cmdArgs[1:]
@@ -150,12 +153,6 @@ func validate(err error) {
 	}
 }
 
-func verify(err error) {
-	if err != nil {
-		panic(err)
-	}
-}
-
 func prettyPrintError(err error) {
 	if err == nil {
 		panic("Cannot format a nil error")
-- 
2.43.0


From ab5d85b3ed7899e43c91c1da3b65770c3cc0b842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:00 +0000
Subject: [PATCH 35/47] fix: get without a hash explains itself

---
 cli/cliClient.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 634e82a..0ff1cb3 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -101,9 +101,9 @@ func (c *Client) Run(cmdArgs []string) {
 			Sha1Hash: &common.Sha1Hash{},
 		}
 		res := GetResponse{}
+		validateArgCount("Get", GetRequest{}, args)
 		err := req.Sha1Hash.FromStringSafe(args[0])
 		validate(err)
-		validateArgCount("Clean", GetRequest{}, args)
 		callClientMethodAndPrintResponse(client, "Methods.Get", &req, &res)
 
 	// Chims lists available hosts on the LAN, including the local daemon. If gives hosts a few
-- 
2.43.0


From 1c524dadedc0e20542b7ce8b4da5303ae28bd865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 36/47] fix: relative paths are shared relative to where the
 user is

---
 cli/cliClient.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/cli/cliClient.go b/cli/cliClient.go
index 0ff1cb3..65bb460 100644
--- a/cli/cliClient.go
+++ b/cli/cliClient.go
@@ -5,6 +5,7 @@ import (
 	"net"
 	"net/rpc"
 	"os"
+	"path/filepath"
 	"reflect"
 
 	"github.com/flu-network/client/common"
@@ -48,7 +49,10 @@ func (c *Client) Run(cmdArgs []string) {
 	// 	- flu list ~/Desktop/path-to-file.mkv
 	case "share":
 		validateArgCount("Share", ShareRequest{}, args)
-		req := ShareRequest{Filepath: args[0]}
+		// the daemon runs in another directory
+		filePath, err := filepath.Abs(args[0])
+		validate(err)
+		req := ShareRequest{Filepath: filePath}
 		res := ListItem{}
 		callClientMethodAndPrintResponse(client, "Methods.Share", &req, &res)
 
-- 
2.43.0


From ed62435c50baf6a73f90bbd6c66b9fccd1a1d3a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:01 +0000
Subject: [PATCH 37/47] fix: cleaning copes with files that are removed at the
 same time

---
 cli/cliMethodsClean.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cli/cliMethodsClean.go b/cli/cliMethodsClean.go
index 57dd780..4ded48a 100644
--- a/cli/cliMethodsClean.go
+++ b/cli/cliMethodsClean.go
@@ -67,6 +67,9 @@ func (m *Methods) Clean(req *CleanRequest, resp *CleanResponse) error {
 		}
 
 		if execErr != nil {
+			if _, err := m.cat.Contains(&f.Sha1Hash); err != nil {
+				continue // someone else removed it in the meantime
+			}
 			return execErr
 		}
 
-- 
2.43.0


From d0525e83635936ca9ab0973562dc4505492f00ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:21 +0000
Subject: [PATCH 38/47] fix: chunks that arrived in the meantime are not
 requested again

---
 flu/serverStartDownload.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 9c8dcfc..2177035 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -142,6 +142,9 @@ func (s *Server) downloadChunk(
 	if err != nil {
 		return err
 	}
+	if record.Progress.Get(uint64(chunk)) {
+		return nil // it arrived in the meantime
+	}
 	size := record.SizeInBytes - int64(chunk)*int64(record.ChunkSize)
 	if size > int64(record.ChunkSize) {
 		size = int64(record.ChunkSize)
-- 
2.43.0


From 2909212e98ea7f861f9d216141db3b09ae8964c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:59:11 +0000
Subject: [PATCH 39/47] fix: chunks are requested with a window that fits the
 receive buffer

---
 flu/recvConnection.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flu/recvConnection.go b/flu/recvConnection.go
index f5da7c5..8d62d7d 100644
--- a/flu/recvConnection.go
+++ b/flu/recvConnection.go
@@ -13,6 +13,11 @@ import (
 // recvTimeout is how long a peer may go without sending anything new
 const recvTimeout = time.Second * 5
 
+// recvWindow is how many packets a peer may send before they are acknowledged. They must fit the
+// receive buffer of a UDP socket, or those that do not are lost and so is the chunk. A default
+// buffer on Linux has room for some 90.
+const recvWindow = 64
+
 type RecvConnection struct {
 	conn          *net.UDPConn
 	hash          *common.Sha1Hash // announced by the peer. nil until it does
@@ -110,12 +115,12 @@ func DialPeer(
 		hash:          nil,
 		bytesReceived: 0,
 		buffer:        make([]byte, size),
-		windowCap:     1024,
+		windowCap:     recvWindow,
 		offsets:       make(map[uint32]struct{}),
 		deadline:      time.Now().Add(recvTimeout),
 	}
 
-	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: 1024}
+	kickstartMsg := messages.OpenConnectionRequest{Sha1Hash: hash, Chunk: chunk, WindowCap: recvWindow}
 	_, err = result.conn.Write(kickstartMsg.Serialize())
 	if err != nil {
 		conn.Close()
-- 
2.43.0


From 7e63394cc93cea2b3e7b61788a9c47e63ea991eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:32 +0000
Subject: [PATCH 40/47] fix: refuse to read a chunk whose bytes cannot all be
 read

---
 catalogue/indexRecord.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 2c14a25..d215276 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -122,6 +122,10 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 
 	result := common.NewChunkReader(secReader)
 	result.Closer = fd
+	if size := ir.chunkSizeAt(start); result.Size != size {
+		fd.Close()
+		return nil, fmt.Errorf("only %d of the %d bytes of chunk %d can be read", result.Size, size, chunk)
+	}
 	return result, nil
 }
 
-- 
2.43.0


From 42c89c1e327c3e27d751f7834357f07f2b8b6bcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:24:18 +0000
Subject: [PATCH 41/47] fix: cleaning never removes a file that was repaired or
 shared again in the meantime

---
 catalogue/catalogue.go     | 26 +++++++++++++++++++++++++-
 cli/cliMethodsClean.go     | 12 +++++++-----
 flu/serverStartDownload.go |  5 +++--
 3 files changed, 35 insertions(+), 8 deletions(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 740d3d3..4912b78 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -90,9 +90,12 @@ func (c *Cat) UnshareFile(hash *common.Sha1Hash) error {
 	if err != nil {
 		return err
 	}
+	return c.unshare(rec)
+}
 
+func (c *Cat) unshare(rec *indexRecord) error {
 	// the index on disk must stop naming the record before its progress is deleted
-	err = c.indexFile.RemoveIndexRecord(rec)
+	err := c.indexFile.RemoveIndexRecord(rec)
 	if err != nil {
 		return err
 	}
@@ -100,6 +103,27 @@ func (c *Cat) UnshareFile(hash *common.Sha1Hash) error {
 	return rec.ProgressFile.delete()
 }
 
+// UnshareBroken removes the file from the index, but only if it cannot be read or if it is complete
+// and no longer has the given hash. Returns whether it did.
+func (c *Cat) UnshareBroken(hash *common.Sha1Hash) (bool, error) {
+	c.lock.Lock()
+	defer c.lock.Unlock()
+
+	if _, found := c.indexFile.index[*hash]; !found {
+		return false, nil
+	}
+	rec, err := c.getIndexRecord(hash)
+	if err != nil {
+		return false, err
+	}
+
+	currentHash, err := common.HashFile(rec.FilePath)
+	if err == nil && (*currentHash == *hash || !rec.ProgressFile.Full()) {
+		return false, nil
+	}
+	return true, c.unshare(rec)
+}
+
 // RegisterDownload creates a record of the download in flu's index. This is identical to
 // c.ShareFile except that the progress file will register an empty bitset.
 func (c *Cat) RegisterDownload(
diff --git a/cli/cliMethodsClean.go b/cli/cliMethodsClean.go
index 4ded48a..af5dfa7 100644
--- a/cli/cliMethodsClean.go
+++ b/cli/cliMethodsClean.go
@@ -45,6 +45,7 @@ func (m *Methods) Clean(req *CleanRequest, resp *CleanResponse) error {
 
 	for _, f := range files {
 		var execErr error // set non-nill if something prevented us from cleaning properly
+		removed := true   // unset if the file turned out to be fine after all
 		currentHash, err := m.cat.Rehash(&f.Sha1Hash)
 
 		var actionTaken strings.Builder
@@ -52,13 +53,13 @@ func (m *Methods) Clean(req *CleanRequest, resp *CleanResponse) error {
 
 		switch {
 		case err != nil:
-			execErr = m.cat.UnshareFile(&f.Sha1Hash)
+			removed, execErr = m.cat.UnshareBroken(&f.Sha1Hash)
 			actionTaken.WriteString("  - File is missing. Removed from index\n")
 			actionTaken.WriteString(fmt.Sprintf("  - %v\n", err))
 		case !f.Progress.Full():
 			actionTaken.WriteString("  - Download in progress. Ignored\n")
 		case *currentHash != f.Sha1Hash:
-			execErr = m.cat.UnshareFile(&f.Sha1Hash)
+			removed, execErr = m.cat.UnshareBroken(&f.Sha1Hash)
 			actionTaken.WriteString("  - File has changed since indexing. Removed from Index\n")
 			actionTaken.WriteString(fmt.Sprintf("    Indexed Hash: %s\n", f.Sha1Hash.String()))
 			actionTaken.WriteString(fmt.Sprintf("    Current Hash: %s\n", currentHash.String()))
@@ -67,12 +68,13 @@ func (m *Methods) Clean(req *CleanRequest, resp *CleanResponse) error {
 		}
 
 		if execErr != nil {
-			if _, err := m.cat.Contains(&f.Sha1Hash); err != nil {
-				continue // someone else removed it in the meantime
-			}
 			return execErr
 		}
 
+		if !removed {
+			continue // someone else repaired or removed it in the meantime
+		}
+
 		resp.Items = append(resp.Items, CleanResponseItem{
 			FilePath:        f.FilePath,
 			IndexedSha1Hash: f.Sha1Hash.Data,
diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 2177035..33f3e9f 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -104,8 +104,9 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 		// the peers vouch for each chunk, but only the hash of the whole file vouches for the file
 		currentHash, err := s.cat.Rehash(hash)
 		if err == nil && *currentHash != *hash {
-			fmt.Println("Download failed: the peers sent a different file. Removed from index")
-			s.cat.UnshareFile(hash)
+			if removed, err := s.cat.UnshareBroken(hash); removed && err == nil {
+				fmt.Println("Download failed: the peers sent a different file. Removed from index")
+			}
 			return
 		}
 		fmt.Println("Download complete")
-- 
2.43.0


From d0e0f86557d8a58c21965d13f68130170fc8c149 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:26:36 +0000
Subject: [PATCH 42/47] fix: an acknowledgement repeated by the network or the
 peer made room for one more packet, until they overran the peer's buffer and
 the chunk was lost every time

---
 flu/senderConnection.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/flu/senderConnection.go b/flu/senderConnection.go
index 7a1e79d..7ddedfa 100644
--- a/flu/senderConnection.go
+++ b/flu/senderConnection.go
@@ -18,6 +18,7 @@ type SenderConnection struct {
 	reader     *common.ChunkReader
 	windowSize uint16
 	windowCap  uint16
+	inFlight   map[uint32]struct{} // offsets of the packets that were not acknowledged yet
 	conn       *net.UDPConn
 	addr       *net.UDPAddr
 	packetChan chan messages.DataPacketAck
@@ -38,6 +39,7 @@ func NewSenderConnection(reader *common.ChunkReader,
 		reader:     reader,
 		windowSize: 0,
 		windowCap:  windowCap,
+		inFlight:   make(map[uint32]struct{}),
 		conn:       conn,
 		addr:       addr,
 		packetChan: make(chan messages.DataPacketAck, windowCap),
@@ -116,6 +118,7 @@ func (sc *SenderConnection) sendFirstPacket(hash *common.Sha1Hash, size int64) e
 	}
 
 	sc.windowSize++
+	sc.inFlight[0] = struct{}{}
 	return nil
 }
 
@@ -144,7 +147,9 @@ func (sc *SenderConnection) deliver(ack messages.DataPacketAck) bool {
 // kick receives an ack from the client and responds accordingly. Passed by value because acks are
 // << 64 bits. It returns true once the entire chunk has been sent.
 func (sc *SenderConnection) kick(ack messages.DataPacketAck) (bool, error) {
-	if sc.windowSize > 0 { // peers may send more acks than we sent packets
+	// each packet makes room for one more: peers and the network may repeat acks
+	if _, ok := sc.inFlight[ack.Offset]; ok {
+		delete(sc.inFlight, ack.Offset)
 		sc.windowSize--
 	}
 
@@ -172,6 +177,7 @@ func (sc *SenderConnection) kick(ack messages.DataPacketAck) (bool, error) {
 		}
 
 		sc.windowSize++
+		sc.inFlight[offset] = struct{}{}
 	}
 
 	return false, nil
-- 
2.43.0


From 09bb6aa51418658b8dc8d49d2274bba605441d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:43:47 +0000
Subject: [PATCH 43/47] fix: a listing of more files than can be counted
 carries the first 65535

---
 flu/messages/msgListFiles.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/flu/messages/msgListFiles.go b/flu/messages/msgListFiles.go
index d7daf7a..fcd54bb 100644
--- a/flu/messages/msgListFiles.go
+++ b/flu/messages/msgListFiles.go
@@ -2,6 +2,7 @@ package messages
 
 import (
 	"encoding/binary"
+	"math"
 
 	"github.com/flu-network/client/common"
 )
@@ -80,6 +81,10 @@ func (r *ListFilesResponse) Type() byte {
 // Serialize converts its subject into a []byte for transmission over the wire
 func (r *ListFilesResponse) Serialize() []byte {
 	result := make([]byte, 5)
+	files := r.Files
+	if len(files) > math.MaxUint16 {
+		files = files[:math.MaxUint16]
+	}
 
 	// message type
 	result[0] = listFilesResponse
@@ -88,9 +93,9 @@ func (r *ListFilesResponse) Serialize() []byte {
 	binary.BigEndian.PutUint16(result[1:3], r.RequestID)
 
 	// number of entries. Implicit: you cannot store more than ~65k files
-	binary.BigEndian.PutUint16(result[3:5], uint16(len(r.Files)))
+	binary.BigEndian.PutUint16(result[3:5], uint16(len(files)))
 
-	for _, entry := range r.Files {
+	for _, entry := range files {
 		result = append(result, entry.Serialize()...)
 	}
 
-- 
2.43.0


From 41545971813645a3e33c3ac7594bc7f639cee75b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:45 +0000
Subject: [PATCH 44/47] fix: do not wait for the writer of a named pipe that
 took the place of an indexed file

---
 catalogue/indexRecord.go |  2 +-
 common/utils.go          | 15 ++++++++++++++-
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index d215276..25ecaaf 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -109,7 +109,7 @@ func (ir *indexRecord) getChunkReader(chunk int64) (*common.ChunkReader, error)
 		return nil, fmt.Errorf("missing requested chunk %d", chunk)
 	}
 
-	fd, err := os.Open(ir.FilePath)
+	fd, err := common.OpenRegular(ir.FilePath)
 	if err != nil {
 		return nil, err
 	}
diff --git a/common/utils.go b/common/utils.go
index 8d1f3e7..6e47753 100644
--- a/common/utils.go
+++ b/common/utils.go
@@ -7,11 +7,24 @@ import (
 	"os"
 )
 
+// OpenRegular opens a regular file for reading. Anything else is refused, because merely opening a
+// named pipe can take forever.
+func OpenRegular(path string) (*os.File, error) {
+	stats, err := os.Stat(path)
+	if err != nil {
+		return nil, err
+	}
+	if !stats.Mode().IsRegular() {
+		return nil, fmt.Errorf("not a regular file: %s", path)
+	}
+	return os.Open(path)
+}
+
 // HashFile returns a 20-byte slice representing the sha1 hash of the file's contents or an error.
 // TODO: come up with some sort of async/progress-bar method because at 500mbps of disk throughput
 // this could take 10 seconds for a 5GB file, and 1.5 minutes for a 50GB file.
 func HashFile(path string) (*Sha1Hash, error) {
-	f, err := os.Open(path)
+	f, err := OpenRegular(path)
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From 541b20185d83ea155cb94a87dd2de97ced1ca0fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:15:25 +0000
Subject: [PATCH 45/47] fix: do not register a download where a link leads
 elsewhere

---
 catalogue/catalogue.go | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/catalogue/catalogue.go b/catalogue/catalogue.go
index 4912b78..e71f9b5 100644
--- a/catalogue/catalogue.go
+++ b/catalogue/catalogue.go
@@ -2,6 +2,7 @@ package catalogue
 
 import (
 	"fmt"
+	"os"
 	"path/filepath"
 	"strings"
 	"sync"
@@ -149,8 +150,18 @@ func (c *Cat) RegisterDownload(
 		ChunkSize:    int(chunkSizeInBytes),
 	}
 
+	// what is already there must not lead out of the downloads folder or to another indexed file
+	there, _ := os.Lstat(indexRecord.FilePath)
+	if there != nil && !there.Mode().IsRegular() {
+		return nil, fmt.Errorf("not a regular file: %s", indexRecord.FilePath)
+	}
+
 	for _, rec := range c.indexFile.index {
-		if rec.FilePath == indexRecord.FilePath && rec.Sha1Hash != indexRecord.Sha1Hash {
+		same := rec.FilePath == indexRecord.FilePath
+		if stats, err := os.Stat(rec.FilePath); err == nil && there != nil {
+			same = same || os.SameFile(stats, there)
+		}
+		if same && rec.Sha1Hash != indexRecord.Sha1Hash {
 			return nil, fmt.Errorf("another indexed file is already at %s", rec.FilePath)
 		}
 	}
-- 
2.43.0


From a553d97720f34f735df0341277381eb8d29f0bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:33:59 +0000
Subject: [PATCH 46/47] fix: report a chunk that could not be written when its
 file is closed

---
 catalogue/indexRecord.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/catalogue/indexRecord.go b/catalogue/indexRecord.go
index 25ecaaf..3be8988 100644
--- a/catalogue/indexRecord.go
+++ b/catalogue/indexRecord.go
@@ -91,7 +91,7 @@ func (ir *indexRecord) saveChunk(chunk int64, data []byte) error {
 	if wrote != len(data) {
 		return fmt.Errorf("wrote only %d of %d bytes", wrote, len(data))
 	}
-	return nil
+	return fd.Close() // some file systems say only now that they could not write
 }
 
 // chunkSizeAt returns the number of bytes in the chunk that starts at the given offset
-- 
2.43.0


From a002db9fbbd4b808c16c442bffd24024969b0dc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:35:25 +0000
Subject: [PATCH 47/47] fix: a download does not ask its own host for chunks
 after the host's address changed

---
 flu/serverStartDownload.go | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/flu/serverStartDownload.go b/flu/serverStartDownload.go
index 33f3e9f..7b4a1e4 100644
--- a/flu/serverStartDownload.go
+++ b/flu/serverStartDownload.go
@@ -14,14 +14,8 @@ import (
 func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 	extantRecord, _ := s.cat.Contains(hash)
 
-	ownIP := s.LocalIP()
-	ownIPV4, err := newIpv4(ownIP)
-	if err != nil {
-		return err
-	}
-
 	// list hosts that know of this file
-	goodHosts, err := s.getGoodHosts(hash, []uint16{}, ownIPV4)
+	goodHosts, err := s.getGoodHosts(hash, []uint16{})
 	if err != nil {
 		return err
 	}
@@ -68,7 +62,7 @@ func (s *Server) StartDownload(hash *common.Sha1Hash) error {
 				break
 			}
 			c := wantedChunks[0]
-			goodHosts, err := s.getGoodHosts(hash, []uint16{c.Start, c.End}, ownIPV4)
+			goodHosts, err := s.getGoodHosts(hash, []uint16{c.Start, c.End})
 			if err != nil {
 				time.Sleep(time.Second * 2) // the network may come back
 				continue
@@ -189,12 +183,15 @@ func (s *Server) downloadChunk(
 func (s *Server) getGoodHosts(
 	hash *common.Sha1Hash,
 	chunks []uint16,
-	ownIP [4]byte,
 ) ([]*messages.DiscoverHostResponse, error) {
 	resps, err := s.DiscoverHosts(hash, make([]uint16, 0))
 	if err != nil {
 		return nil, err
 	}
+	ownIP, err := newIpv4(s.LocalIP()) // it may have changed since the download began
+	if err != nil {
+		return nil, err
+	}
 	result := make([]*messages.DiscoverHostResponse, 0, len(resps))
 	for i := 0; i < len(resps); i++ {
 		// skip hosts that know nothing about the file we want
-- 
2.43.0

