package vt

import (
	"context"
	"errors"
	"fmt"
	"io"
	"os"
	"runtime"
	"syscall"
	"time"

	"pgregory.net/rapid"
)

// ErrFault is the injected failure.
var ErrFault = errors.New("vt: injected I/O fault")

// Fault draws a failure an I/O source or sink can have.
func Fault(t *rapid.T) error {
	all := []error{ErrFault, io.ErrUnexpectedEOF, io.ErrClosedPipe, os.ErrClosed, os.ErrDeadlineExceeded, context.Canceled, io.ErrNoProgress, io.ErrShortBuffer, syscall.EINTR, syscall.EIO,
		&os.PathError{Op: "read", Path: "x", Err: os.ErrNotExist}, fmt.Errorf("cut: %w", io.ErrUnexpectedEOF)}
	if Bool(t, "plainFault") {
		return ErrFault
	}
	return all[N(t, 0, len(all)-1, "fault")]
}

// Chunked delivers data in the planned chunk sizes (repeating), optionally returning
// io.EOF together with the last bytes.
type Chunked struct {
	Data  []byte
	Plan  []int // cycled; nil = whole buffer at a time
	EOFIn bool  // return the last chunk together with io.EOF
	Err   error // returned instead of io.EOF once Data is exhausted

	pos, i    int
	Reads     int
	AfterEnd  int
	CloseCall int
}

// Read implements io.Reader.
func (r *Chunked) Read(p []byte) (int, error) {
	r.Reads++
	end := io.EOF
	if r.Err != nil {
		end = r.Err
	}
	if r.pos >= len(r.Data) {
		r.AfterEnd++
		return 0, end
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if len(r.Plan) > 0 {
		if c := r.Plan[r.i%len(r.Plan)]; c < n {
			n = c
		}
		r.i++
	}
	if n > len(r.Data)-r.pos {
		n = len(r.Data) - r.pos
	}
	copy(p, r.Data[r.pos:r.pos+n])
	r.pos += n
	if r.EOFIn && r.pos == len(r.Data) {
		return n, end
	}
	return n, nil
}

// Close implements io.Closer.
func (r *Chunked) Close() error { r.CloseCall++; return nil }

// Chunks draws a chunk plan and returns a reader over data.
func Chunks(c *C, data []byte) *Chunked {
	r := &Chunked{Data: data}
	switch N(c.T, 0, 4, "chunkKind") {
	case 0:
	case 1:
		r.Plan = []int{1}
		if len(data) > 20000 {
			r.Plan = []int{1021}
		}
	case 2:
		r.Plan = []int{N(c.T, 1, 5000, "chunk")}
		if len(data) > 20000 && r.Plan[0] < 64 {
			r.Plan[0] += 64
		}
	default:
		n := N(c.T, 1, 5, "nchunks")
		for i := 0; i < n; i++ {
			r.Plan = append(r.Plan, N(c.T, 1, 40, "chunk"))
		}
		if len(data) > 20000 {
			r.Plan = append(r.Plan, 4096, 1, 4096)
		}
	}
	r.EOFIn = Bool(c.T, "eofIn")
	return r
}

// FaultWriter accepts Limit bytes, then fails every write (or, if Once, only the first
// that crosses the limit, silently accepting later ones).
type FaultWriter struct {
	Limit int
	Once  bool
	Short bool // accept the part below the limit before failing

	Buf    []byte
	Failed int
}

// Write implements io.Writer.
func (w *FaultWriter) Write(p []byte) (int, error) {
	if len(w.Buf)+len(p) <= w.Limit || (w.Once && w.Failed > 0) {
		w.Buf = append(w.Buf, p...)
		return len(p), nil
	}
	w.Failed++
	n := 0
	if w.Short {
		n = w.Limit - len(w.Buf)
		if n < 0 {
			n = 0
		}
		w.Buf = append(w.Buf, p[:n]...)
	}
	return n, ErrFault
}

// Settled fails the case if more goroutines run than before, once what was
// left running has had time to end.
func (c *C) Settled(before int, what string) {
	end := time.Now().Add(10 * time.Second)
	for i := 0; ; i++ {
		if runtime.NumGoroutine() <= before {
			return
		}
		if time.Now().After(end) {
			break
		}
		if i < 20 {
			runtime.Gosched()
		} else {
			time.Sleep(200 * time.Microsecond)
		}
	}
	c.Fatalf("%s left %d goroutines running", what, runtime.NumGoroutine()-before)
}
