HEAD='''
package flate

import (
	"bytes"
	"errors"
	"io"
	"testing"
)

var _ = bytes.NewReader
var _ = errors.New
var _ io.Reader

'''
BUGS=[
dict(id='C06-sync-error-not-sticky',prop='C06',edits=[('writer.go','''		if err := x.Sync(); err != nil && !isIgnoredSyncError(err) {
			fw.state = errorWriterState
			fw.err = err
''','''		if err := x.Sync(); err != nil && !isIgnoredSyncError(err) {
			if fw.state != closedStreamWriterState {
				fw.state = errorWriterState
			}
			fw.err = err
''')],demo=HEAD+'''
type syncFail struct{ bytes.Buffer }

func (*syncFail) Sync() error { return errors.New("disk full") }

func TestDemo(t *testing.T) {
	w := NewWriter(&syncFail{}, WithFormat(GZIPFormat))
	w.Write([]byte("hello"))
	if err := w.Flush(FinishFlush); err == nil {
		t.Fatal("Flush succeeded")
	}
	if _, err := w.Write([]byte("more")); err == nil {
		t.Fatal("Write succeeds after a failed Sync")
	}
}
''',needs='Sync of the underlying writer fails during a FinishFlush, followed by another operation',breaks='the failure of Sync is forgotten after the flush that reported it'),
dict(id='C06-close-forgets-error',prop='C06',edits=[('writer.go','''	if fw.state == errorWriterState {
		return helper()
	}

	if !fw.flushImpl(FinishFlush) {
		return helper()
	}
''','''	if fw.state == errorWriterState {
		return helper()
	}

	if fw.state != closedStreamWriterState || !fw.hybrid.IsEmpty() {
		fw.flushImpl(FinishFlush)
		if fw.state == errorWriterState && fw.output.IsEmpty() {
			return helper()
		}
	}
''')],demo=HEAD+'''
type failAt struct {
	n   int
	bad int
}

func (f *failAt) Write(p []byte) (int, error) {
	f.n++
	if f.n == f.bad {
		return 0, errors.New("disk full")
	}
	return len(p), nil
}

func TestDemo(t *testing.T) {
	for i := 1; i < 40; i++ {
		f := &failAt{bad: i}
		w := NewWriter(f, WithFormat(ZlibFormat))
		w.Write([]byte("hello"))
		err := w.Close()
		if f.n >= i && err == nil {
			t.Fatalf("the failure of write %d is not reported by Close", i)
		}
	}
}
''',needs='the write that fails leaves bytes in the output buffer and happens inside Close',breaks='Close reports success although the output was not written'),
dict(id='C07-finish-after-partial',prop='C07',edits=[('writer.go','''	case PartialFlush:
		tokens := []token{makeStopToken()}
''','''	case PartialFlush:
		if fw.numStreams > 1 {
			fw.state = closingStreamWriterState
		}
		tokens := []token{makeStopToken()}
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	w := NewWriter(&buf, WithFormat(GZIPFormat))
	w.Write([]byte("first"))
	w.Flush(FinishFlush)
	w.Write([]byte("second"))
	w.Flush(PartialFlush)
	w.Write([]byte("third"))
	w.Close()
	b, err := io.ReadAll(NewReader(&buf, WithFormat(GZIPFormat)))
	if err != nil || string(b) != "firstsecondthird" {
		t.Fatalf("%q %v", b, err)
	}
}
''',needs='a partial flush in the second stream of a Writer',breaks='a trailer is written although no final block was'),
dict(id='C07-empty-second-close',prop='C07',edits=[('writer.go','''	if flushType == FinishFlush && fw.state == noStreamWriterState {''','''	if flushType == FinishFlush && fw.state == noStreamWriterState && fw.outputBytesTotal == 0 && fw.header.FileName == "" {''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	w := NewWriter(&buf, WithFormat(GZIPFormat))
	w.SetHeader(Header{FileName: "empty.txt"})
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	if buf.Len() < 18 {
		t.Fatalf("%d bytes written", buf.Len())
	}
}
''',needs='a Writer that is closed without data but with a file name in its header',breaks='no empty stream is written'),
dict(id='C16-partial-pending-bits',prop='C16',edits=[('writer.go','''	case SyncFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
''','''	case SyncFlush:
		if fw.obLen == 0 && fw.output.IsEmpty() && fw.inputBytesStream == 0 {
			return true
		}
		if fw.clevel == NoCompression && fw.obLen != 0 && fw.obLen < 3 {
			break
		}
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	for n := 0; n < 3000; n++ {
		var buf bytes.Buffer
		w := NewWriter(&buf, WithFormat(RawFormat), WithCompressLevel(NoCompression))
		w.Write(bytes.Repeat([]byte("a"), n%7))
		for i := 0; i < n%11; i++ {
			w.Flush(PartialFlush)
		}
		if n%7 == 0 && n%11 == 0 {
			continue
		}
		w.Flush(SyncFlush)
		if w.obLen != 0 {
			t.Fatalf("%d bits left after a sync flush", w.obLen)
		}
	}
}
''',needs='a sync flush after a number of partial flushes that leaves one or two bits pending, at level 0',breaks='the output is not byte-aligned after a sync flush'),
dict(id='C16-full-flush-window',prop='C16',edits=[('writer.go','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		fw.hybrid.WindowClear()
''','''	case FullFlush:
		if !writeStoredBlock(fw, nil, false) {
			return false
		}
		if fw.dict == nil {
			fw.hybrid.WindowClear()
		}
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	var buf bytes.Buffer
	dict := []byte("the quick brown fox jumps over the lazy dog, again and again")
	w := NewWriter(&buf, WithFormat(RawFormat), WithDictionary(dict))
	w.Write([]byte("something else that is said at the start"))
	w.Flush(FullFlush)
	n := buf.Len()
	w.Write([]byte("something else that is said at the start"))
	w.Close()
	b, err := io.ReadAll(NewReader(bytes.NewReader(buf.Bytes()[n:]), WithFormat(RawFormat)))
	if err != nil || string(b) != "something else that is said at the start" {
		t.Fatalf("%q %v", b, err)
	}
}
''',needs='a full flush by a Writer with a preset dictionary',breaks='data after a full flush refers to data before it'),
]
