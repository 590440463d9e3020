From c403a88e481d082307878b0e71dae193d0003807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:57 +0000
Subject: [PATCH 01/17] fix: do not decode matches from a stale view of the
 sliding window

Window.LookupSlice returns a slice that aliases the window, and writing
the match back to the window may shift the window's contents.  Copy the
bytes of the match before writing them, so that streams which decompress
to more than twice the window size are no longer corrupted.
---
 huffman.go | 2 ++
 reader.go  | 5 +++++
 2 files changed, 7 insertions(+)

diff --git a/huffman.go b/huffman.go
index e920bc7..90bd675 100644
--- a/huffman.go
+++ b/huffman.go
@@ -14,6 +14,8 @@ const (
 	physicalNumLLCodes = 288
 	physicalNumDCodes  = 32
 	physicalNumXCodes  = 19
+
+	maxMatchLength = 258
 )
 
 var scramble = [physicalNumXCodes]byte{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
diff --git a/reader.go b/reader.go
index 52b638c..7f8ba8b 100644
--- a/reader.go
+++ b/reader.go
@@ -814,6 +814,10 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 	hLL := fr.hLL
 	hD := fr.hD
 
+	// window.LookupSlice returns a view into the window, which is
+	// invalidated as soon as the window is written to.
+	var scratch [maxMatchLength]byte
+
 	for {
 		symbol, ok := fr.readSymbol(hLL)
 		if !ok {
@@ -853,6 +857,7 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
 			return false
 		}
+		p = scratch[:copy(scratch[:], p)]
 		fr.decodeBufferWrite(p)
 		length -= uint(len(p))
 
-- 
2.43.0


From 7efb2253849daa72ff363f7fed3947f8ec7b2bee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:00 +0000
Subject: [PATCH 02/17] fix: split incompressible data into stored blocks of at
 most 65535 bytes

compressTokens could hand up to 128 KiB of data to writeStoredBlock,
which panics if the length doesn't fit into the 16-bit LEN field.
---
 writer.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/writer.go b/writer.go
index c268002..175e334 100644
--- a/writer.go
+++ b/writer.go
@@ -1010,6 +1010,12 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 
 	storedLength := (uint64(len(data)) << 3) + 35
 	if storedLength < dynamicCounter.length() {
+		for len(data) > math.MaxUint16 {
+			if !writeStoredBlock(bw, data[:math.MaxUint16], false) {
+				return false
+			}
+			data = data[math.MaxUint16:]
+		}
 		return writeStoredBlock(bw, data, isFinal)
 	}
 	if staticCounter.length() <= dynamicCounter.length() {
-- 
2.43.0


From 0721f9a9bc6e05584c4bfeb76c56a8cdcaf1645f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:02 +0000
Subject: [PATCH 03/17] fix: do not drop concatenated streams which are already
 buffered

The underlying io.Reader may report EOF while inputBuffer still holds
further concatenated streams.
---
 reader.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 7f8ba8b..69a1d2b 100644
--- a/reader.go
+++ b/reader.go
@@ -328,7 +328,7 @@ func (fr *Reader) readThread() {
 	fr.mu1.Lock()
 
 	fr.numStreams = 0
-	for fr.inputError == nil {
+	for fr.inputError == nil || !fr.inputBuffer.IsEmpty() {
 		if !fr.readHeader() {
 			break
 		}
-- 
2.43.0


From 623fd507a10e94e6a469683708ef2678326cdf6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:04 +0000
Subject: [PATCH 04/17] fix: Reader.Reset deadlocks if the read thread is
 running

stopReadThreadLocked acquires mu2 itself, and the read thread needs mu2
in order to terminate.
---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 69a1d2b..2d10825 100644
--- a/reader.go
+++ b/reader.go
@@ -199,11 +199,11 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.mu1.Lock()
 	defer fr.mu1.Unlock()
 
+	fr.stopReadThreadLocked()
+
 	fr.mu2.Lock()
 	defer fr.mu2.Unlock()
 
-	fr.stopReadThreadLocked()
-
 	fr.r = r
 	fr.inputError = nil
 	fr.readThreadWasStarted = false
-- 
2.43.0


From d510bca30e65a57ada40a839bdd0042757ea6074 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:07 +0000
Subject: [PATCH 05/17] fix: accept pre-set dictionaries which contain only
 zero bytes

Whether or not a dictionary was supplied cannot be decided by checking
if the sliding window contains only zeroes.
---
 reader.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/reader.go b/reader.go
index 2d10825..cf31a91 100644
--- a/reader.go
+++ b/reader.go
@@ -514,7 +514,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 
-		if fr.window.IsZero() {
+		if fr.dict == nil {
 			fr.corruptf("zlib stream was compressed with a pre-set dictionary -- Adler-32 checksum of the dictionary required to decompress this stream is %#08x", expectedAdler32)
 			return false
 		}
@@ -525,7 +525,7 @@ func (fr *Reader) readHeaderZlib() bool {
 			return false
 		}
 	} else {
-		if !fr.window.IsZero() {
+		if fr.dict != nil {
 			computedAdler32 := adler32.Checksum(fr.dict)
 			fr.corruptf("zlib stream was not compressed with a pre-set dictionary -- Adler-32 checksum of the supplied dictionary is %#08x", computedAdler32)
 			return false
-- 
2.43.0


From 6681fb3ffcc8a4d7dec494e0ba04bb7e0a3ed3e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:09 +0000
Subject: [PATCH 06/17] fix: FixedStrategy must not produce dynamic Huffman
 blocks

---
 writer.go | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/writer.go b/writer.go
index 175e334..b12ad13 100644
--- a/writer.go
+++ b/writer.go
@@ -990,10 +990,10 @@ func compressSlow(fw *Writer, consumeAll bool, good, lazy, nice, chain uint) boo
 
 	data := bb.Bytes()
 	*tokens = append(*tokens, makeStopToken())
-	return compressTokens(fw, data, *tokens, false)
+	return compressTokens(fw, fw.strategy, data, *tokens, false)
 }
 
-func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) bool {
+func compressTokens(bw bitwriter, strategy Strategy, data []byte, tokens []token, isFinal bool) bool {
 	freqLL, freqD := studyFrequenciesLLD(tokens)
 
 	var hLL huffman.Encoder
@@ -1008,8 +1008,15 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 	var staticCounter bitcounter
 	writeStaticBlock(&staticCounter, tokens, isFinal)
 
+	compressedLength := dynamicCounter.length()
+	useStatic := (staticCounter.length() <= compressedLength)
+	if useStatic || strategy == FixedStrategy {
+		compressedLength = staticCounter.length()
+		useStatic = true
+	}
+
 	storedLength := (uint64(len(data)) << 3) + 35
-	if storedLength < dynamicCounter.length() {
+	if storedLength < compressedLength {
 		for len(data) > math.MaxUint16 {
 			if !writeStoredBlock(bw, data[:math.MaxUint16], false) {
 				return false
@@ -1018,7 +1025,7 @@ func compressTokens(bw bitwriter, data []byte, tokens []token, isFinal bool) boo
 		}
 		return writeStoredBlock(bw, data, isFinal)
 	}
-	if staticCounter.length() <= dynamicCounter.length() {
+	if useStatic {
 		return writeStaticBlock(bw, tokens, isFinal)
 	}
 	return writeDynamicBlock(bw, &hLL, &hD, tokens, isFinal)
-- 
2.43.0


From ea0859661c7d4ffabe9cd3aabe2038b92d84381b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:12 +0000
Subject: [PATCH 07/17] fix: ExtraData.Parse panics on a truncated record

The gzip FEXTRA field is attacker-controlled input, and a record length
that exceeds the remaining bytes crashed the read thread.
---
 header.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/header.go b/header.go
index cc12f7b..97442ea 100644
--- a/header.go
+++ b/header.go
@@ -41,6 +41,9 @@ func (xd *ExtraData) Parse(raw []byte) {
 		rec.ID[1] = raw[index+1]
 		recLen := uint(binary.LittleEndian.Uint16(raw[index+2 : index+4]))
 		index += 4
+		if recLen > length-index {
+			break
+		}
 		rec.Bytes = raw[index : index+recLen]
 		index += recLen
 		xd.Records = append(xd.Records, rec)
-- 
2.43.0


From 55fd3b72ea6e43e01fa5ab02313ead296897afc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:00 +0000
Subject: [PATCH 08/17] fix: reject back-references to before the start of the
 stream

A match whose distance exceeds the data decoded so far (plus the pre-set
dictionary) used to decode silently as zero bytes.
---
 reader.go | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/reader.go b/reader.go
index cf31a91..d57a3b7 100644
--- a/reader.go
+++ b/reader.go
@@ -53,6 +53,7 @@ type Reader struct {
 	inputBuffer          buffer.Buffer
 	decodeBuffer         buffer.Buffer
 	window               buffer.Window
+	historyLen           uint
 	inputBytesTotal      uint64
 	inputBytesStream     uint64
 	outputBytesTotal     uint64
@@ -214,6 +215,7 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.inputBuffer.Clear()
 	fr.decodeBuffer.Clear()
 	fr.window.Clear()
+	fr.historyLen = 0
 
 	fr.outputError = nil
 	fr.outputBuffer.Clear()
@@ -372,8 +374,10 @@ func (fr *Reader) readHeader() bool {
 	fr.numStreams++
 
 	fr.window.Clear()
+	fr.historyLen = 0
 	if fr.dict != nil {
 		_, _ = fr.window.Write(fr.dict)
+		fr.historyGrow(uint(len(fr.dict)))
 	}
 
 	fr.actualFormat = DefaultFormat
@@ -852,6 +856,11 @@ func (fr *Reader) decodeHuffmanBlock(blockType BlockType, isFinal bool) bool {
 		length := uint(t.literalOrLength)
 		distance := uint(t.distance)
 
+		if distance > fr.historyLen {
+			fr.corruptf("distance %d > %d bytes of available history", distance, fr.historyLen)
+			return false
+		}
+
 		p, err := fr.window.LookupSlice(distance, length)
 		if err != nil {
 			fr.corruptf("distance %d > window.Size %d", distance, fr.window.Size())
@@ -1290,6 +1299,7 @@ func (fr *Reader) decodeBufferWrite(p []byte) bool {
 		fr.decodeBufferTryFlush()
 		nn, _ := fr.decodeBuffer.Write(p)
 		_, _ = fr.window.Write(p[:nn])
+		fr.historyGrow(uint(nn))
 		p = p[nn:]
 		length -= uint(nn)
 	}
@@ -1301,10 +1311,18 @@ func (fr *Reader) decodeBufferWriteByte(ch byte) bool {
 	err := fr.decodeBuffer.WriteByte(ch)
 	if err == nil {
 		_ = fr.window.WriteByte(ch)
+		fr.historyGrow(1)
 	}
 	return (err == nil)
 }
 
+func (fr *Reader) historyGrow(n uint) {
+	fr.historyLen += n
+	if size := fr.window.Size(); fr.historyLen > size {
+		fr.historyLen = size
+	}
+}
+
 func (fr *Reader) decodeBufferTryFlush() {
 	if fr.decodeBuffer.IsFull() {
 		fr.decodeBufferMustFlush()
-- 
2.43.0


From 69c682a516347379a7e1ab62cac409022768fe0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:02 +0000
Subject: [PATCH 09/17] fix: report truncated input and read errors inside of
 Huffman symbols

Running out of input in the middle of a Huffman symbol was reported as
"degenerate Huffman code" instead of as io.ErrUnexpectedEOF or the error
of the underlying io.Reader.
---
 reader.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/reader.go b/reader.go
index d57a3b7..9f6bbf4 100644
--- a/reader.go
+++ b/reader.go
@@ -1140,6 +1140,7 @@ func (fr *Reader) readSymbol(hdec *huffman.Decoder) (symbol huffman.Symbol, ok b
 	numBits := min
 	for numBits <= max {
 		if ok := fr.inputBitsFill(numBits); !ok {
+			fr.propagateError(true)
 			return huffman.InvalidSymbol, false
 		}
 
-- 
2.43.0


From 82a859186acd0f842fcf5dcf9268aa3aec937474 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:04 +0000
Subject: [PATCH 10/17] fix: stop decoding at the first error, after delivering
 the valid prefix

The read thread carried on with the stream footer and with further
streams after a block failed to decode, and it set outputError before
the data decoded so far was available to Read, so that a concurrent Read
could return the error first and more data afterwards.
---
 reader.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index 9f6bbf4..f96cf75 100644
--- a/reader.go
+++ b/reader.go
@@ -344,7 +344,7 @@ func (fr *Reader) readThread() {
 
 		fr.decodeBufferMustFlush()
 
-		if !fr.readFooter() {
+		if fr.outputErrorWasSet || !fr.readFooter() {
 			break
 		}
 	}
@@ -1398,6 +1398,13 @@ func (fr *Reader) closeWithError(err error) {
 		return
 	}
 
+	// Data that was decoded before the error goes first.  This may
+	// release mu1, so check again that nobody else set an error.
+	fr.decodeBufferMustFlush()
+	if fr.outputErrorWasSet {
+		return
+	}
+
 	fr.mu2.Lock()
 	fr.outputError = err
 	fr.cv1.Broadcast()
-- 
2.43.0


From 13543c88d426b982851e8c74bb528b429eb59c0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:06 +0000
Subject: [PATCH 11/17] fix: stop decoding a dynamic block if HLIT or HDIST is
 out of range

---
 reader.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/reader.go b/reader.go
index f96cf75..8a06baf 100644
--- a/reader.go
+++ b/reader.go
@@ -990,9 +990,11 @@ func (fr *Reader) readDynamicTrees(isFinal bool) bool {
 
 	if numLL > logicalNumLLCodes {
 		fr.corruptf("HLIT %d > %d", numLL, logicalNumLLCodes)
+		return false
 	}
 	if numD > logicalNumDCodes {
 		fr.corruptf("HDIST %d > %d", numD, logicalNumDCodes)
+		return false
 	}
 
 	const numCodes = 19
-- 
2.43.0


From 28895139607bf6b4819c8b5653effccfdcc7f313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:08 +0000
Subject: [PATCH 12/17] fix: autodetect the format if the header straddles two
 buffer fills

If only the first byte of a concatenated stream was buffered, then the
stream was assumed to be in RawFormat.
---
 reader.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/reader.go b/reader.go
index 8a06baf..efffb08 100644
--- a/reader.go
+++ b/reader.go
@@ -455,6 +455,10 @@ func (fr *Reader) readFooter() bool {
 
 func (fr *Reader) readHeaderAuto() bool {
 	p := fr.inputBuffer.PrepareBulkRead(2)
+	if len(p) < 2 {
+		fr.inputBufferFill()
+		p = fr.inputBuffer.PrepareBulkRead(2)
+	}
 	if len(p) < 2 {
 		return fr.readHeaderRaw()
 	}
-- 
2.43.0


From ad25473354a08b7e5b0dca8aabdeecedd06133e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:10 +0000
Subject: [PATCH 13/17] fix: data race between Reader.UnderlyingReader and
 Reader.Reset

---
 reader.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/reader.go b/reader.go
index efffb08..3ee7738 100644
--- a/reader.go
+++ b/reader.go
@@ -186,7 +186,10 @@ func (fr *Reader) Tracers() []Tracer {
 
 // UnderlyingReader returns the io.Reader which this Reader uses.
 func (fr *Reader) UnderlyingReader() io.Reader {
-	return fr.r
+	fr.mu1.Lock()
+	r := fr.r
+	fr.mu1.Unlock()
+	return r
 }
 
 // Reset re-initializes this Reader with the given io.Reader and options.  Any
-- 
2.43.0


From 8f28bdf6b8d15d13dba651d91d370ac03b8d9866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:12 +0000
Subject: [PATCH 14/17] fix: PartialFlush must write the bits of the current
 block

Up to 63 bits remained in obBlock after a PartialFlush, so that the data
written so far could not be decompressed yet.
---
 writer.go | 25 +++++++++++++++++++++++++
 1 file changed, 25 insertions(+)

diff --git a/writer.go b/writer.go
index b12ad13..4f63f48 100644
--- a/writer.go
+++ b/writer.go
@@ -529,6 +529,9 @@ func (fw *Writer) flushGuts(flushType FlushType) bool {
 		if !writeStaticBlock(fw, tokens, false) {
 			return false
 		}
+		if !fw.outputBitsFlushWholeBytes() {
+			return false
+		}
 
 	case SyncFlush:
 		if !writeStoredBlock(fw, nil, false) {
@@ -912,6 +915,28 @@ func (fw *Writer) outputBitsFlush() bool {
 	return fw.outputBufferWrite(tmp[:n])
 }
 
+// outputBitsFlushWholeBytes is like outputBitsFlush, but an incomplete final
+// byte is retained instead of padded.
+func (fw *Writer) outputBitsFlushWholeBytes() bool {
+	n := (fw.obLen / bitsPerByte)
+	if n == 0 {
+		return true
+	}
+
+	var tmp [bytesPerBlock]byte
+	bytesFromBlock(binary.LittleEndian, tmp[:], fw.obBlock)
+	restBlock := (fw.obBlock >> (n * bitsPerByte))
+	restLen := (fw.obLen % bitsPerByte)
+	fw.obLen = 0
+	fw.obBlock = 0
+	if !fw.outputBufferWrite(tmp[:n]) {
+		return false
+	}
+	fw.obLen = restLen
+	fw.obBlock = restBlock
+	return true
+}
+
 func (fw *Writer) sendEvent(event Event) {
 	event.InputBytesTotal = fw.inputBytesTotal
 	event.InputBytesStream = fw.inputBytesStream
-- 
2.43.0


From 258cee6c9df7663853fc4d207429f714c0f9db3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:14 +0000
Subject: [PATCH 15/17] fix: Reset must discard pending bits and restart the
 byte counters

Bits which were left over after an aborted stream leaked into the next
stream, and the totals in Events and in CorruptInputErrors kept counting
across Reset.
---
 reader.go | 7 +++++++
 writer.go | 8 ++++++++
 2 files changed, 15 insertions(+)

diff --git a/reader.go b/reader.go
index 3ee7738..b13a2e2 100644
--- a/reader.go
+++ b/reader.go
@@ -216,10 +216,17 @@ func (fr *Reader) Reset(r io.Reader, opts ...Option) {
 	fr.stopIsForced = false
 
 	fr.inputBuffer.Clear()
+	fr.inputBitsDiscard()
 	fr.decodeBuffer.Clear()
 	fr.window.Clear()
 	fr.historyLen = 0
 
+	fr.inputBytesTotal = 0
+	fr.inputBytesStream = 0
+	fr.outputBytesTotal = 0
+	fr.outputBytesStream = 0
+	fr.numStreams = 0
+
 	fr.outputError = nil
 	fr.outputBuffer.Clear()
 
diff --git a/writer.go b/writer.go
index 4f63f48..720efcf 100644
--- a/writer.go
+++ b/writer.go
@@ -240,6 +240,14 @@ func (fw *Writer) Reset(w io.Writer, opts ...Option) {
 
 	fw.hybrid.Clear()
 	fw.output.Clear()
+	fw.obBlock = 0
+	fw.obLen = 0
+
+	fw.inputBytesTotal = 0
+	fw.inputBytesStream = 0
+	fw.outputBytesTotal = 0
+	fw.outputBytesStream = 0
+	fw.numStreams = 0
 
 	if len(opts) == 0 {
 		return
-- 
2.43.0


From dbd67bf828c538ace47762d1a67455da6be85c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:16 +0000
Subject: [PATCH 16/17] fix: autodetect the DataType of each stream

The DataType autodetected for the first stream was stored in the header
template, and was thus reused for all later streams.
---
 writer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/writer.go b/writer.go
index 720efcf..eb0c866 100644
--- a/writer.go
+++ b/writer.go
@@ -576,6 +576,10 @@ func (fw *Writer) writeHeader() bool {
 		Type: StreamBeginEvent,
 	})
 
+	// The values filled in below apply to this stream only.
+	origHeader := fw.header
+	defer func() { fw.header = origHeader }()
+
 	if fw.header.DataType == UnknownData {
 		fw.header.DataType = BinaryData
 		if buf := fw.hybrid.PrepareBulkRead(4096); isText(buf) {
-- 
2.43.0


From 52c3f43dbef22812cda7d6886037089afee2ca64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:18 +0000
Subject: [PATCH 17/17] fix: limit the lengths of dynamic Huffman codes

Skewed symbol frequencies resulted in literal/length and distance codes
longer than 15 bits (panic) or in code length codes longer than 7 bits
(corrupt output), neither of which can be represented in DEFLATE.
---
 huffman.go | 16 ++++++++++++++++
 writer.go  |  6 +++---
 2 files changed, 19 insertions(+), 3 deletions(-)

diff --git a/huffman.go b/huffman.go
index 90bd675..2c2a21f 100644
--- a/huffman.go
+++ b/huffman.go
@@ -16,6 +16,9 @@ const (
 	physicalNumXCodes  = 19
 
 	maxMatchLength = 258
+
+	maxBitsPerLLDCode = 15
+	maxBitsPerXCode   = 7
 )
 
 var scramble = [physicalNumXCodes]byte{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}
@@ -61,6 +64,19 @@ func init() {
 	}
 }
 
+// initHuffmanEncoder initializes the given Encoder such that no code is longer
+// than maxBits.  Modifies freq if necessary.
+func initHuffmanEncoder(h *huffman.Encoder, numSymbols int, freq []uint32, maxBits byte) {
+	h.Init(numSymbols, freq)
+	for h.MaxSize() > maxBits {
+		// Flatten the distribution until the code is short enough.
+		for i, n := range freq {
+			freq[i] = (n + 1) / 2
+		}
+		h.Init(numSymbols, freq)
+	}
+}
+
 func getFixedHuffDecoders() (*huffman.Decoder, *huffman.Decoder) {
 	return &gFixedHuffmanDecoderLL, &gFixedHuffmanDecoderD
 }
diff --git a/writer.go b/writer.go
index eb0c866..6081aaf 100644
--- a/writer.go
+++ b/writer.go
@@ -1034,10 +1034,10 @@ func compressTokens(bw bitwriter, strategy Strategy, data []byte, tokens []token
 	freqLL, freqD := studyFrequenciesLLD(tokens)
 
 	var hLL huffman.Encoder
-	hLL.Init(physicalNumLLCodes, freqLL)
+	initHuffmanEncoder(&hLL, physicalNumLLCodes, freqLL, maxBitsPerLLDCode)
 
 	var hD huffman.Encoder
-	hD.Init(physicalNumDCodes, freqD)
+	initHuffmanEncoder(&hD, physicalNumDCodes, freqD, maxBitsPerLLDCode)
 
 	var dynamicCounter bitcounter
 	writeDynamicBlock(&dynamicCounter, &hLL, &hD, tokens, isFinal)
@@ -1206,7 +1206,7 @@ func writeDynamicBlock(bw bitwriter, hLL *huffman.Encoder, hD *huffman.Encoder,
 	freqX := studyFrequenciesX(*xtokens)
 
 	var hX huffman.Encoder
-	hX.Init(physicalNumXCodes, freqX)
+	initHuffmanEncoder(&hX, physicalNumXCodes, freqX, maxBitsPerXCode)
 
 	sX := hX.SizeBySymbol()
 	numX := uint(physicalNumXCodes)
-- 
2.43.0

