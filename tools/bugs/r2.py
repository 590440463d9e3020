HEAD='''
package flate

import (
	"bytes"
	cflate "compress/flate"
	"compress/gzip"
	"compress/zlib"
	"encoding/binary"
	"errors"
	"hash/adler32"
	"io"
	"io/ioutil"
	"testing"
)

var _ = bytes.NewReader
var _ = errors.New
var _ = gzip.NewReader
var _ = zlib.NewReader
var _ = cflate.NewReader
var _ = adler32.Checksum
var _ = binary.BigEndian
var _ io.Reader
var _ = ioutil.ReadAll

func must(t *testing.T, err error) {
	t.Helper()
	if err != nil {
		t.Fatal(err)
	}
}

func put(t *testing.T, w *Writer, s string) {
	t.Helper()
	_, err := w.Write([]byte(s))
	must(t, err)
}

'''
def T(body,extra=''): return HEAD+extra+'\nfunc TestDemo(t *testing.T) {\n'+body+'}\n'
BUGS=[
dict(id='C04-length-of-all-streams-written',prop='C04',edits=[('writer.go','uint32(fw.inputBytesStream))','uint32(fw.inputBytesTotal))')],
demo=T('''	var b bytes.Buffer
	w := NewWriter(&b, WithFormat(GZIPFormat))
	put(t, w, "first")
	must(t, w.Flush(FinishFlush))
	put(t, w, "second")
	must(t, w.Close())
	r, err := gzip.NewReader(&b)
	must(t, err)
	p, err := ioutil.ReadAll(r)
	must(t, err)
	if string(p) != "firstsecond" {
		t.Fatal(string(p))
	}
'''),needs='two gzip streams written by one Writer',breaks='the length in the trailer of the second stream counts the first one too'),
dict(id='C04-checksum-survives-full-flush',prop='C04',edits=[('writer.go','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
''','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.Clear()
		fw.inputBytesAdler32.Reset()
''')],
demo=T('''	var b bytes.Buffer
	w := NewWriter(&b, WithFormat(ZlibFormat))
	put(t, w, "first")
	must(t, w.Flush(FullFlush))
	put(t, w, "second")
	must(t, w.Close())
	r, err := zlib.NewReader(&b)
	must(t, err)
	_, err = ioutil.ReadAll(r)
	must(t, err)
'''),needs='a full flush inside of a zlib stream',breaks='the Adler-32 covers only the data after the last full flush'),
dict(id='C12-buffered-data-survives',prop='C12',edits=[('writer.go','	fw.hybrid.Clear()\n	fw.output.Clear()','	fw.hybrid.WindowClear()\n	fw.output.Clear()')],
demo=T('''	w := NewWriter(&broken{}, WithFormat(GZIPFormat), WithMemoryLevel(SmallestMemory))
	for i := 0; i < 1000; i++ {
		if _, err := w.Write(bytes.Repeat([]byte{byte(i), byte(i * 7), byte(i >> 3)}, 100)); err != nil {
			break
		}
	}
	var b bytes.Buffer
	w.Reset(&b)
	put(t, w, "fresh")
	must(t, w.Close())
	p, err := ioutil.ReadAll(NewReader(&b, WithFormat(GZIPFormat)))
	must(t, err)
	if string(p) != "fresh" {
		t.Fatalf("%d bytes of the earlier use came out", len(p))
	}
''','''type broken struct{}

func (broken) Write([]byte) (int, error) { return 0, errors.New("broken") }
'''),needs='Reset after the underlying writer failed while input was buffered',breaks='data written before Reset appears in the output after it'),
dict(id='C13-reset-forgets-level',prop='C13',edits=[('writer.go','	o.clevel = fw.clevel\n','	o.clevel = DefaultCompression\n')],
demo=T('''	w := NewWriter(ioutil.Discard, WithCompressLevel(9))
	w.Reset(ioutil.Discard, WithFormat(GZIPFormat))
	if w.CompressLevel() != 9 {
		t.Fatal(w.CompressLevel())
	}
'''),needs='Reset with another option after a level was chosen',breaks='Reset does not keep the compression level'),
dict(id='C13-dict-handed-out',prop='C13',edits=[('writer.go','''		dict = make([]byte, len(fw.dict))
		copy(dict, fw.dict)
''','''		dict = fw.dict[:len(fw.dict):len(fw.dict)]
''')],
demo=T('''	w := NewWriter(ioutil.Discard, WithDictionary([]byte("dictionary")))
	w.Dict()[0] = 'X'
	if string(w.Dict()) != "dictionary" {
		t.Fatal(string(w.Dict()))
	}
'''),needs='a caller that changes the slice returned by Dict',breaks='the dictionary of the Writer is handed out, not a copy'),
dict(id='C15-comment-before-name',prop='C15',edits=[('writer.go','	ok = ok && func2(fw)\n	ok = ok && func3(fw)\n','	ok = ok && func3(fw)\n	ok = ok && func2(fw)\n')],
demo=T('''	var b bytes.Buffer
	w := NewWriter(&b, WithFormat(GZIPFormat))
	must(t, w.SetHeader(Header{FileName: "name", Comment: "comment"}))
	must(t, w.Close())
	r, err := gzip.NewReader(&b)
	must(t, err)
	if r.Name != "name" || r.Comment != "comment" {
		t.Fatal(r.Name, r.Comment)
	}
'''),needs='a header with both a file name and a comment, read by another implementation',breaks='the comment is written before the file name'),
dict(id='C15-extra-record-length',prop='C15',edits=[('header.go','		binary.LittleEndian.PutUint16(tmp[:], uint16(len(rec.Bytes)))\n','		binary.BigEndian.PutUint16(tmp[:], uint16(len(rec.Bytes)))\n')],
demo=T('''	var xd ExtraData
	xd.Records = []ExtraDataRecord{{ID: [2]byte{'A', 'B'}, Bytes: []byte("xyz")}}
	if got := xd.AsBytes(); string(got) != "AB\\x03\\x00xyz" {
		t.Fatalf("%q", got)
	}
'''),needs='a header with extra data',breaks='the length of an extra-field record is written big-endian'),
dict(id='C17-dictionary-first-stream-only',prop='C17',edits=[('reader.go','	if fr.dict != nil {\n		_, _ = fr.window','	if fr.dict != nil && fr.numStreams == 1 {\n		_, _ = fr.window')],
demo=T('''	dict := []byte("a dictionary with some text")
	var b bytes.Buffer
	for i := 0; i < 2; i++ {
		w, err := zlib.NewWriterLevelDict(&b, 9, dict)
		must(t, err)
		_, err = w.Write(dict)
		must(t, err)
		must(t, w.Close())
	}
	p, err := ioutil.ReadAll(NewReader(&b, WithFormat(ZlibFormat), WithDictionary(dict)))
	must(t, err)
	if string(p) != string(dict)+string(dict) {
		t.Fatalf("%q", p)
	}
'''),needs='two concatenated streams that refer to the preset dictionary',breaks='the dictionary is in the window of the first stream only'),
dict(id='C17-window-repeats-tail',prop='C17',edits=[('reader.go','		_, _ = fr.window.Write(p[:nn])\n','		_, _ = fr.window.Write(p)\n')],
demo=T('''	// stored blocks of a length that does not divide the buffer, each followed by a match of the history
	var src bytes.Buffer
	x := uint32(1)
	for i := 0; i < 40; i++ {
		start := src.Len()
		for j := 0; j < 3001; j++ {
			x = x*1664525 + 1013904223
			src.WriteByte(byte(x >> 24))
		}
		p := append([]byte(nil), src.Bytes()[start:]...)
		src.Write(p)
	}
	var b bytes.Buffer
	w, err := cflate.NewWriter(&b, 9)
	must(t, err)
	_, err = w.Write(src.Bytes())
	must(t, err)
	must(t, w.Close())
	p, err := ioutil.ReadAll(NewReader(&b, WithFormat(RawFormat)))
	must(t, err)
	if !bytes.Equal(p, src.Bytes()) {
		t.Fatal("wrong data")
	}
'''),needs='a chunk that straddles the end of the decode buffer, then a match that refers back across it',breaks='part of the decoded bytes enters the window twice'),
dict(id='C18-rle-distance',prop='C18',edits=[('writer.go','		defaultOpts.MaxMatchDistance = 1\n','		defaultOpts.MaxMatchDistance = 2\n')],
demo=T('''	var b bytes.Buffer
	w := NewWriter(&b, WithFormat(RawFormat), WithStrategy(HuffmanRLEStrategy))
	for i := 0; i < 2000; i++ {
		put(t, w, "ab")
	}
	must(t, w.Close())
	if b.Len() < 450 {
		t.Fatalf("%d bytes: a match of distance 2 was used", b.Len())
	}
'''),needs='the run-length strategy with data of period 2',breaks='matches of distance 2 are used'),
dict(id='C18-level0-huffman-only',prop='C18',edits=[('writer.go','''	case fw.clevel == 0:
		return compressConfigs[2]
	case fw.strategy == HuffmanOnlyStrategy:
		return compressConfigs[1]
''','''	case fw.strategy == HuffmanOnlyStrategy:
		return compressConfigs[1]
	case fw.clevel == 0:
		return compressConfigs[2]
''')],
demo=T('''	var b bytes.Buffer
	w := NewWriter(&b, WithFormat(RawFormat), WithStrategy(HuffmanOnlyStrategy), WithCompressLevel(NoCompression))
	put(t, w, "aaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaaa")
	must(t, w.Close())
	if b.Bytes()[0]&6 != 0 {
		t.Fatal("level 0 wrote a compressed block")
	}
'''),needs='level 0 together with the Huffman-only strategy',breaks='level 0 writes compressed blocks'),
]
