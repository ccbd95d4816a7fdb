package main

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"syscall"

	"github.com/zerosnake0/jzon"
)

// chunkReader delivers data in adversarial pieces
type chunkReader struct {
	data    []byte
	pos     int
	sizes   []int // sizes of the reads, cycled; 0 means (0, nil)
	i       int
	eofWith bool // return the error together with the last data
	err     error
	rest    []byte // delivered when the error has been returned once
	onRead  func()
	reads   int
	zeros   int
}

func (r *chunkReader) Read(p []byte) (int, error) {
	r.reads++
	if r.onRead != nil {
		r.onRead()
	}
	if r.pos >= len(r.data) {
		return 0, r.endErr()
	}
	n := len(r.data) - r.pos
	if len(r.sizes) > 0 {
		n = r.sizes[r.i%len(r.sizes)]
		r.i++
		if n == 0 {
			r.zeros++
			if r.zeros < 50 {
				return 0, nil
			}
			n = 1
		}
	}
	if n > len(r.data)-r.pos {
		n = len(r.data) - r.pos
	}
	if n > len(p) {
		n = len(p)
	}
	copy(p, r.data[r.pos:r.pos+n])
	// a reader may use all of p as scratch space
	for i := n; i < len(p) && i < n+3; i++ {
		p[i] = 'Z'
	}
	r.pos += n
	if r.eofWith && r.pos >= len(r.data) {
		return n, r.endErr()
	}
	return n, nil
}

func (r *chunkReader) endErr() error {
	if r.err != nil {
		err := r.err
		if r.rest != nil {
			r.data, r.pos, r.rest, r.err = r.rest, 0, nil, nil
		}
		return err
	}
	return io.EOF
}

func (r *chunkReader) String() string {
	return fmt.Sprintf("reader{sizes %v, error with data %v}", r.sizes, r.eofWith)
}

// genReader picks a partition of data
func genReader(r *Rand, data []byte) *chunkReader {
	cr := &chunkReader{data: data, eofWith: r.P(30)}
	switch r.Intn(9) {
	case 0:
		cr.sizes = []int{1}
	case 1:
		cr.sizes = []int{r.Range(1, 8)}
	case 2:
		cr.sizes = nil
	case 3: // one cut at any position
		cr.sizes = []int{r.Range(1, len(data)+1), 1 << 20}
	case 4: // two cuts
		cr.sizes = []int{r.Range(1, len(data)+1), r.Range(1, 5), 1 << 20}
	case 5:
		for i := 0; i < 13; i++ {
			cr.sizes = append(cr.sizes, r.Range(0, 5))
		}
	case 6:
		for i := 0; i < 7; i++ {
			cr.sizes = append(cr.sizes, r.Range(1, 70))
		}
	case 7:
		cr.sizes = []int{1, 0, 0, 2, 0}
	case 8:
		cr.sizes = []int{r.Range(60, 68), r.Range(1, 3), r.Range(440, 520)}
	}
	ok := false
	for _, s := range cr.sizes {
		ok = ok || s > 0
	}
	if !ok {
		cr.sizes = nil
	}
	return cr
}

var errInjected = errors.New("injected-io-fault-7f3a")

type netErr struct{ text string }

func (e *netErr) Error() string   { return e.text }
func (e *netErr) Timeout() bool   { return true }
func (e *netErr) Temporary() bool { return true }

// ioFaults are errors which readers and writers return in practice
var ioFaults = []error{
	errInjected, &netErr{"i/o timeout 2b"}, io.ErrUnexpectedEOF, io.ErrNoProgress, io.ErrClosedPipe,
	io.ErrShortWrite, io.ErrShortBuffer, syscall.EINTR, syscall.EAGAIN, os.ErrDeadlineExceeded,
	os.ErrClosed, context.Canceled, context.DeadlineExceeded, jzon.ErrDataRemained, bufio.ErrTooLong,
}

// ioFault gives the error of an injected fault
func ioFault(r *Rand) error {
	if r.Bool() {
		return errInjected
	}
	return ioFaults[r.Intn(len(ioFaults))]
}

// faultWriter fails or writes short at planned points
type faultWriter struct {
	got   bytes.Buffer
	plan  []wfault // one per Write call; missing means accept
	calls int
	after func()
}

type wfault struct {
	accept int // -1: everything
	err    error
}

func (w *faultWriter) Write(p []byte) (int, error) {
	i := w.calls
	w.calls++
	if w.after != nil {
		w.after()
	}
	if i < len(w.plan) {
		f := w.plan[i]
		n := f.accept
		if n < 0 || n > len(p) {
			n = len(p)
		}
		w.got.Write(p[:n])
		return n, f.err
	}
	return w.got.Write(p)
}
