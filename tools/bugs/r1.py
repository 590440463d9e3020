HEAD='''
package flate

import (
	"bytes"
	"errors"
	"io"
	"io/ioutil"
	"sync"
	"testing"
	"time"
)

var _ = bytes.NewReader
var _ = errors.New
var _ io.Reader
var _ = ioutil.ReadAll
var _ sync.Mutex
var _ time.Time

func mk(t *testing.T, data string, opts ...Option) []byte {
	var b bytes.Buffer
	w := NewWriter(&b, opts...)
	if _, err := w.Write([]byte(data)); err != nil {
		t.Fatal(err)
	}
	if err := w.Close(); err != nil {
		t.Fatal(err)
	}
	return b.Bytes()
}

type recorder struct{ events []Event }

func (r *recorder) OnEvent(e Event) { r.events = append(r.events, e) }

'''
BUGS=[
dict(id='C03-length-of-all-streams',prop='C03',edits=[('reader.go','''	if contentLen != uint32(fr.outputBytesStream) {
''','''	if contentLen > uint32(fr.outputBytesStream) {
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := mk(t, "hello, world", WithFormat(GZIPFormat))
	z[len(z)-4]--
	if _, err := ioutil.ReadAll(NewReader(bytes.NewReader(z), WithFormat(GZIPFormat))); err == nil {
		t.Fatal("a gzip stream with a wrong length is accepted")
	}
}
''',needs='a gzip trailer whose length is smaller than the data',breaks='the length in the gzip trailer is no longer verified exactly'),
dict(id='C03-checksum-not-reset',prop='C03',edits=[('reader.go','''		fr.outputBytesAdler32.Reset()
		fr.outputBytesCRC32.Reset()

		for fr.readFlateBlock() {
''','''		if fr.actualFormat == GZIPFormat {
			fr.outputBytesCRC32.Reset()
		} else {
			fr.outputBytesAdler32.Reset()
		}

		for fr.readFlateBlock() {
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := mk(t, "hello, world", WithFormat(GZIPFormat))
	r := &recorder{}
	both := append(append([]byte(nil), z...), z...)
	fr := NewReader(bytes.NewReader(both), WithFormat(GZIPFormat), WithTracers(r))
	if _, err := ioutil.ReadAll(fr); err != nil {
		t.Fatal(err)
	}
	fr.Close()
	var sums []Checksum32
	for _, e := range r.events {
		if e.Type == StreamEndEvent {
			sums = append(sums, e.Footer.Adler32)
		}
	}
	if len(sums) != 2 || sums[0] != sums[1] {
		t.Fatalf("different checksums for the same data: %v", sums)
	}
}
''',needs='two concatenated gzip streams and a tracer',breaks='the Adler-32 that is computed does not cover exactly the data of the stream'),
dict(id='C03-reserved-flag',prop='C03',edits=[('reader.go','''	if (p[3] & 0xe0) != 0 {
''','''	if (p[3] & 0xc0) != 0 {
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := mk(t, "hello, world", WithFormat(GZIPFormat))
	z[3] = 0x20
	if z[10] != 0 {
		z[3] |= 0
	}
	z2 := append([]byte{0x1f, 0x8b, 8, 0x20, 0, 0, 0, 0, 0, 255}, mk(t, "x", WithFormat(RawFormat))...)
	_, err := ioutil.ReadAll(NewReader(bytes.NewReader(z2), WithFormat(GZIPFormat)))
	if _, ok := err.(CorruptInputError); !ok {
		t.Fatalf("a reserved flag is accepted: %v", err)
	}
}
''',needs='a gzip header with the reserved flag 0x20',breaks='a header with a reserved flag is accepted'),
dict(id='C05-truncated-length',prop='C05',edits=[('reader.go','''	contentLen, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(true)
''','''	contentLen, ok := fr.inputBufferReadU32(binary.LittleEndian)
	if !ok {
		fr.propagateError(false)
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := mk(t, "hello, world", WithFormat(GZIPFormat))
	_, err := ioutil.ReadAll(NewReader(bytes.NewReader(z[:len(z)-2]), WithFormat(GZIPFormat)))
	if err != io.ErrUnexpectedEOF {
		t.Fatalf("truncated gzip stream: %v", err)
	}
}
''',needs='input that ends inside the last four bytes of a gzip stream',breaks='a truncated stream is reported as a clean end'),
dict(id='C05-data-after-close',prop='C05',edits=[('reader.go','''		fr.mu1.Lock()

		if fr.stopIsForced {
			fr.decodeBuffer.Clear()
			return
		}

		p :=''','''		fr.mu1.Lock()

		p :=''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := mk(t, string(make([]byte, 1<<22)), WithFormat(GZIPFormat))
	fr := NewReader(bytes.NewReader(z), WithFormat(GZIPFormat))
	fr.Read(make([]byte, 1))
	time.Sleep(300 * time.Millisecond) // the decoder waits for room
	fr.Close()
	if n, err := fr.Read(make([]byte, 10)); n != 0 || err == nil {
		t.Fatalf("Read after Close: %d, %v", n, err)
	}
}
''',needs='Close while the background decoder waits for room in the output buffer',breaks='data is delivered after the Reader was closed and its error was set'),
dict(id='C08-window-limit',prop='C08',edits=[('reader.go','''	if fr.header.WindowBits > fr.wbits {
''','''	if fr.header.WindowBits > fr.wbits && fr.wbits < MaxWindowBits-1 {
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := mk(t, "hello, world", WithFormat(ZlibFormat), WithWindowBits(15))
	_, err := ioutil.ReadAll(NewReader(bytes.NewReader(z), WithFormat(ZlibFormat), WithWindowBits(14)))
	if err == nil {
		t.Fatal("a stream with a window of 2**15 bytes is accepted by a Reader limited to 2**14")
	}
}
''',needs='a Reader with WithWindowBits(14) and a zlib stream with a window of 32 KiB',breaks='the limit on the window size is not enforced'),
dict(id='C08-format-of-first-stream',prop='C08',edits=[('reader.go','''	fr.actualFormat = DefaultFormat

	fr.sendEvent(''','''	format := fr.format
	if format == DefaultFormat && fr.numStreams > 1 {
		format = fr.actualFormat
	}
	fr.actualFormat = DefaultFormat

	fr.sendEvent('''),('reader.go','''	var ok bool
	switch fr.format {
	case DefaultFormat:
''','''	var ok bool
	switch format {
	case DefaultFormat:
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	a := mk(t, "hello, ", WithFormat(GZIPFormat))
	b := mk(t, "world", WithFormat(ZlibFormat))
	p, err := ioutil.ReadAll(NewReader(bytes.NewReader(append(a, b...))))
	if err != nil || string(p) != "hello, world" {
		t.Fatalf("%q %v", p, err)
	}
}
''',needs='a concatenation of a gzip and a zlib stream read with autodetection',breaks='only the first stream of a concatenation is recognised'),
dict(id='C09-close-unverified',prop='C09',edits=[('reader.go','''	if !ok {
		return false
	}

	fr.sendEvent(Event{
		Type: StreamCloseEvent,
	})

	return true
''','''	fr.sendEvent(Event{
		Type: StreamCloseEvent,
	})

	return ok
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := mk(t, "hello, world", WithFormat(GZIPFormat))
	z[len(z)-1]++
	r := &recorder{}
	fr := NewReader(bytes.NewReader(z), WithFormat(GZIPFormat), WithTracers(r))
	ioutil.ReadAll(fr)
	fr.Close()
	for _, e := range r.events {
		if e.Type == StreamCloseEvent {
			t.Fatal("StreamCloseEvent for a corrupt stream")
		}
	}
}
''',needs='a tracer and a stream with a wrong trailer',breaks='StreamCloseEvent is sent for a stream that was not completed successfully'),
dict(id='C09-block-end-finality',prop='C09',edits=[('reader.go','''	case StoredBlock:
		isOK = fr.readFlateBlockStored()
''','''	case StoredBlock:
		isOK = fr.readFlateBlockStored()
		isFinal = isFinal || fr.inputError != nil && fr.inputBuffer.IsEmpty()
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	// a stored block that is not final, then the input ends
	z := []byte{0, 1, 0, 0xfe, 0xff, 'x'}
	r := &recorder{}
	fr := NewReader(bytes.NewReader(z), WithFormat(RawFormat), WithTracers(r))
	ioutil.ReadAll(fr)
	fr.Close()
	for _, e := range r.events {
		if e.Type == BlockEndEvent && e.Block.IsFinal {
			t.Fatal("the end of a block that is not final is reported as final")
		}
	}
}
''',needs='input that ends after a stored block that is not final, and a tracer',breaks='the finality in the block-end event differs from the block-begin event'),
dict(id='C10-dict-unlocked',prop='C10',race=True,edits=[('reader.go','''	if len(fr.dict) != 0 {
		dict = make([]byte, len(fr.dict))
		copy(dict, fr.dict)
	}
	fr.mu1.Unlock()
	return dict
''','''	src := fr.dict
	fr.mu1.Unlock()
	if len(src) != 0 {
		dict = make([]byte, len(src))
		copy(dict, fr.dict)
	}
	return dict
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	fr := NewReader(bytes.NewReader(nil), WithFormat(ZlibFormat), WithDictionary([]byte("abc")))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			fr.Dict()
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			fr.Reset(bytes.NewReader(nil), WithDictionary([]byte("abcd")))
		}
	}()
	wg.Wait()
}
''',needs='Dict and Reset called concurrently',breaks='a field is read without the lock'),
dict(id='C10-writer-format-unlocked',prop='C10',race=True,edits=[('writer.go','''	fw.mu.Lock()
	mlevel := fw.mlevel
	fw.mu.Unlock()
	return mlevel
''','''	return fw.mlevel
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	fw := NewWriter(ioutil.Discard, WithFormat(ZlibFormat))
	var wg sync.WaitGroup
	wg.Add(2)
	go func() {
		defer wg.Done()
		for i := 0; i < 1000; i++ {
			fw.MemoryLevel()
		}
	}()
	go func() {
		defer wg.Done()
		for i := 0; i < 100; i++ {
			fw.Reset(ioutil.Discard, WithMemoryLevel(MemoryLevel(1 + i%2)))
		}
	}()
	wg.Wait()
}
''',needs='MemoryLevel and Reset called concurrently',breaks='a field is read without the lock'),
dict(id='C11-decoder-not-woken',prop='C11',edits=[('reader.go','''		fr.cv1.Broadcast()
		fr.cv2.Broadcast()
		fr.mu2.Unlock()
''','''		fr.cv1.Broadcast()
		fr.mu2.Unlock()
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := mk(t, string(make([]byte, 1<<22)), WithFormat(GZIPFormat))
	fr := NewReader(bytes.NewReader(z), WithFormat(GZIPFormat))
	fr.Read(make([]byte, 1))
	time.Sleep(300 * time.Millisecond) // the decoder waits for room
	done := make(chan bool)
	go func() { fr.Close(); close(done) }()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		t.Fatal("Close does not return")
	}
}
''',needs='Close while the background decoder waits for room in the output buffer',breaks='the decoder is not woken, so that Close waits forever'),
dict(id='C11-second-reader-not-woken',prop='C11',edits=[('reader.go','''	fr.outputError = err
	fr.cv1.Broadcast()
''','''	fr.outputError = err
	fr.cv1.Signal()
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := mk(t, string(make([]byte, 1<<20)), WithFormat(GZIPFormat))
	done := make(chan bool)
	for k := 0; k < 100; k++ {
		fr := NewReader(bytes.NewReader(z), WithFormat(GZIPFormat))
		for i := 0; i < 8; i++ {
			go func() { io.Copy(ioutil.Discard, fr); done <- true }()
		}
		for i := 0; i < 8; i++ {
			select {
			case <-done:
			case <-time.After(10 * time.Second):
				t.Fatal("a Read is not woken by the error")
			}
		}
	}
}
''',needs='two Reads blocked at the same time when the decoder stops',breaks='only one of several blocked Reads is woken'),
dict(id='C15-signed-mtime',prop='C15',edits=[('reader.go','''		fr.header.LastModified = time.Unix(int64(mtime), 0)
''','''		fr.header.LastModified = time.Unix(int64(int32(mtime)), 0)
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0x90, 0, 255}
	z = append(z, mk(t, "x", WithFormat(RawFormat))...)
	r := &recorder{}
	fr := NewReader(bytes.NewReader(z), WithFormat(GZIPFormat), WithTracers(r))
	ioutil.ReadAll(fr)
	fr.Close()
	for _, e := range r.events {
		if e.Type == StreamHeaderEvent && e.Header.LastModified.Unix() != 0x90000000 {
			t.Fatal("wrong time", e.Header.LastModified)
		}
	}
}
''',needs='a gzip header with a time after 2038',breaks='the time is read as a signed number'),
dict(id='C15-crc-before-comment',prop='C15',edits=[('reader.go','''	ok = ok && fr.readHeaderGZIPFileName(bitFNAME, &fr.header)
	ok = ok && fr.readHeaderGZIPComment(bitFCOMMENT, &fr.header)
''','''	if bitFEXTRA {
		ok = ok && fr.readHeaderGZIPComment(bitFCOMMENT, &fr.header)
		ok = ok && fr.readHeaderGZIPFileName(bitFNAME, &fr.header)
	} else {
		ok = ok && fr.readHeaderGZIPFileName(bitFNAME, &fr.header)
		ok = ok && fr.readHeaderGZIPComment(bitFCOMMENT, &fr.header)
	}
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := []byte{0x1f, 0x8b, 8, 0x1c, 0, 0, 0, 0, 0, 255, 0, 0, 'n', 0, 'c', 0}
	z = append(z, mk(t, "x", WithFormat(RawFormat))...)
	r := &recorder{}
	fr := NewReader(bytes.NewReader(z), WithFormat(GZIPFormat), WithTracers(r))
	ioutil.ReadAll(fr)
	fr.Close()
	for _, e := range r.events {
		if e.Type == StreamHeaderEvent && (e.Header.FileName != "n" || e.Header.Comment != "c") {
			t.Fatalf("wrong header %+v", e.Header)
		}
	}
}
''',needs='a gzip header with extra data, name and comment',breaks='name and comment are confused when extra data is present'),
dict(id='C01-length-258',prop='C01',edits=[],demo=HEAD,needs='',breaks=''),
dict(id='C14-os-code-swapped',prop='C14',edits=[('enum_ostype.go','''	0x0c: OSTypeQDOS,
	0x0d: OSTypeAcornRISCOS,
''','''	0x0c: OSTypeAcornRISCOS,
	0x0d: OSTypeQDOS,
''')],demo=HEAD+'''
func TestDemo(t *testing.T) {
	z := []byte{0x1f, 0x8b, 8, 0, 0, 0, 0, 0, 0, 0x0d}
	z = append(z, mk(t, "x", WithFormat(RawFormat))...)
	r := &recorder{}
	fr := NewReader(bytes.NewReader(z), WithFormat(GZIPFormat), WithTracers(r))
	ioutil.ReadAll(fr)
	fr.Close()
	for _, e := range r.events {
		if e.Type == StreamHeaderEvent && e.Header.OSType != OSTypeAcornRISCOS {
			t.Fatal("wrong OS", e.Header.OSType)
		}
	}
}
''',needs='a gzip header with OS code 12 or 13',breaks='the mapping of OS codes does not agree with RFC 1952'),
]
BUGS=[b for b in BUGS if b['edits']]
