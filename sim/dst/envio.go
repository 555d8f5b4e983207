package dst

import (
	"bufio"
	"bytes"
	"context"
	"errors"
	"fmt"
	"io"
	"io/fs"
	"net"
	"strconv"
	"syscall"

	"dashsim/simrt"
)

var eof = io.EOF
var errDisk = errors.New("simulated I/O error")
var errReset = errors.New("simulated connection reset")

// readErrors are what real sources report when they break: plain, wrapped, typed, and
// some that look like the end of the input without being it.
var readErrors = []error{
	errReset, errReset,
	io.ErrUnexpectedEOF,
	fmt.Errorf("body: %w", io.EOF),
	&fs.PathError{Op: "read", Path: "x.mpd", Err: syscall.EIO},
	io.ErrClosedPipe,
	fmt.Errorf("stream: %w", io.ErrUnexpectedEOF),
	&net.OpError{Op: "read", Net: "tcp", Err: syscall.ECONNRESET},
	errors.Join(errDisk, io.EOF),
	io.ErrNoProgress,
	context.Canceled,
}

// drawReadError picks how a source breaks.
func drawReadError(r *Run) error {
	i := flt(len(readErrors))
	r.note("err" + strconv.Itoa(i))
	return readErrors[i]
}

// writeErrors are what real destinations report when they fail; some of them are
// values that mean something harmless elsewhere.
var writeErrors = []error{
	errDisk, errDisk,
	&fs.PathError{Op: "write", Path: "out.mpd", Err: syscall.ENOSPC},
	io.ErrClosedPipe,
	io.EOF,
	io.ErrShortWrite,
	&net.OpError{Op: "write", Net: "tcp", Err: syscall.EPIPE},
	fmt.Errorf("response: %w", io.EOF),
	context.Canceled,
	io.ErrUnexpectedEOF,
	syscall.EINTR,
	syscall.EAGAIN,
	fs.ErrClosed,
	io.ErrNoProgress,
	bufio.ErrBufferFull,
	context.DeadlineExceeded,
}

// drawWriteError picks how a destination breaks.
func drawWriteError(r *Run) error {
	i := flt(len(writeErrors))
	r.note("werr" + strconv.Itoa(i))
	return writeErrors[i]
}

// hook is something a destination or source does at its n-th call: use the library
// itself, or hold the call until another task is done.
type hook struct {
	at   int
	f    func()
	wait int
}

func (h *hook) fire(n int) {
	if h == nil || n != h.at {
		return
	}
	if h.f != nil {
		h.f()
	}
	if h.wait > 0 {
		simrt.WaitFlag(h.wait)
	}
}

// ---- writers ----

type wMode int

const (
	wOK      wMode = iota
	wFailAt        // accepts bytes up to an offset, then n<len with an error
	wShort         // accepts fewer bytes than offered and reports no error
	wPanic         // panics at an offset
	wErrFull       // accepts everything offered by the crossing write but reports an error
	wModes
)

var wModeNames = []string{"none", "write-error", "short-write", "write-panic", "write-error-after-full"}

// simWriter is a destination with a drawn failure.
type simWriter struct {
	r       *Run
	buf     []byte
	mode    wMode
	at      int // offset of the failure
	failed  bool
	err     error // error reported by the failing call (nil for short writes)
	calls   int
	after   int // calls after the first failure
	closed  bool
	late    int // calls after the owner closed it
	retain  [][2][]byte
	keep    bool
	site    uint32
	fired   bool
	maxCall int
	stall   int   // extra scheduling points per write
	polite  bool  // short writes come with io.ErrShortWrite, as io.Writer demands
	errv    error // what a failing write reports (nil: errDisk)
	hk      *hook
}

func (w *simWriter) Write(p []byte) (int, error) {
	for i := 0; i <= w.stall; i++ {
		simrt.Point(100)
	}
	w.calls++
	w.hk.fire(w.calls)
	if w.closed {
		w.late++
		return len(p), nil
	}
	errv := w.errv
	if errv == nil {
		errv = errDisk
	}
	if w.failed {
		w.after++
		return 0, errv
	}
	if w.mode != wOK && len(w.buf)+len(p) > w.at {
		k := w.at - len(w.buf)
		w.failed, w.fired = true, true
		switch w.mode {
		case wFailAt:
			w.buf = append(w.buf, p[:k]...)
			w.err = errv
			return k, errv
		case wShort:
			w.buf = append(w.buf, p[:k]...)
			if w.polite {
				w.err = io.ErrShortWrite
				return k, w.err
			}
			return k, nil
		case wPanic:
			w.buf = append(w.buf, p[:k]...)
			panic(&envPanic{"writer"})
		case wErrFull:
			w.buf = append(w.buf, p...)
			w.err = errv
			return len(p), errv
		}
	}
	w.buf = append(w.buf, p...)
	if w.keep {
		w.retain = append(w.retain, [2][]byte{p, append([]byte(nil), p...)})
	}
	return len(p), nil
}

// ---- readers ----

// simReader delivers data in drawn pieces and ends it in a drawn way.
type simReader struct {
	data    []byte
	off     int
	max     int  // largest piece (0: whatever is asked)
	empties bool // sometimes deliver nothing with no error
	eofWith bool // report the end together with the last bytes
	end     error
	nEmpty  int
	pieces  int
	scrib   bool // scribble over the rest of the buffer
	ended   int
}

func (s *simReader) Read(p []byte) (int, error) {
	simrt.Point(101)
	if len(p) == 0 {
		return 0, nil
	}
	if s.empties && s.nEmpty < 40 && style(4) == 3 {
		s.nEmpty++
		return 0, nil
	}
	rem := len(s.data) - s.off
	if rem == 0 {
		s.ended++
		return 0, s.end
	}
	n := len(p)
	if s.max > 0 {
		if m := 1 + style(s.max); m < n {
			n = m
		}
	}
	if n > rem {
		n = rem
	}
	copy(p, s.data[s.off:s.off+n])
	s.off += n
	s.pieces++
	if s.scrib { // an io.Reader may use all of p as scratch space
		for i := n; i < len(p); i++ {
			p[i] = 0xDB
		}
	}
	if s.eofWith && s.off == len(s.data) {
		s.ended++
		return n, s.end
	}
	return n, nil
}

// byteReader also offers ReadByte, like bufio.Reader.
type byteReader struct{ simReader }

func (s *byteReader) ReadByte() (byte, error) {
	simrt.Point(102)
	if s.off == len(s.data) {
		s.ended++
		return 0, s.end
	}
	b := s.data[s.off]
	s.off++
	return b, nil
}

// delivery draws how data is delivered; kind 0 is a plain bytes.Reader.
type delivery struct {
	kind int
	name string
}

var deliveryNames = []string{"bytes.Reader", "one-byte", "small-pieces", "pieces+empties", "eof-with-data", "io.ByteReader", "scribbling", "strings+bufio-size"}

func drawDelivery(r *Run) int { return style(len(deliveryNames)) }

func deliver(r *Run, kind int, data []byte, end error) io.Reader {
	if end == nil {
		end = io.EOF
	}
	s := simReader{data: data, end: end}
	switch kind {
	case 0:
		if end == io.EOF {
			return bytes.NewReader(data)
		}
	case 1:
		s.max = 1
		r.fault("byte-at-a-time")
	case 2:
		s.max = 1 + style(9)
		r.fault("split-read")
	case 3:
		s.max = 1 + style(30)
		s.empties = true
		r.fault("empty-read")
	case 4:
		s.eofWith = true
		s.max = style(3) * 7
		r.fault("eof-with-data")
	case 5:
		b := &byteReader{s}
		r.fault("byte-reader")
		return b
	case 6:
		s.scrib = true
		s.max = 1 + style(50)
		r.fault("scribbled-buffer")
	case 7:
		s.max = 4096
	}
	return &s
}
