package simrt

import (
	"errors"
	"io"
	"io/fs"
	"os"
	"syscall"
)

// FileFault describes how the simulated disk behaves for one opened file.
type FileFault struct {
	OpenErr  error // returned by open
	ReadErr  error // returned instead of data from offset ErrAt on (nil: never)
	ErrAt    int64
	MaxChunk func() int // largest number of bytes one read returns (nil: no limit)
	Fired    *int64
}

// FileHook, if set, is asked for the behaviour of each file opened.
var FileHook func(name string) *FileFault

// File wraps an os.File whose reads can fail or come up short.
type File struct {
	*os.File
	ff  *FileFault
	off int64
}

func Open(name string) (*File, error) { return OpenFile(name, os.O_RDONLY, 0) }

func OpenFile(name string, flag int, perm fs.FileMode) (*File, error) {
	var ff *FileFault
	if FileHook != nil {
		ff = FileHook(name)
	}
	if ff != nil && ff.OpenErr != nil {
		if ff.Fired != nil {
			*ff.Fired++
		}
		return nil, &fs.PathError{Op: "open", Path: name, Err: ff.OpenErr}
	}
	f, err := os.OpenFile(name, flag, perm)
	if err != nil {
		return nil, err
	}
	return &File{File: f, ff: ff}, nil
}

func (f *File) Read(p []byte) (int, error) {
	if f.ff != nil {
		if f.ff.ReadErr != nil && f.off >= f.ff.ErrAt {
			if f.ff.Fired != nil {
				*f.ff.Fired++
			}
			return 0, &fs.PathError{Op: "read", Path: f.Name(), Err: f.ff.ReadErr}
		}
		if f.ff.ReadErr != nil && int64(len(p)) > f.ff.ErrAt-f.off {
			p = p[:f.ff.ErrAt-f.off]
		}
		if f.ff.MaxChunk != nil {
			if m := f.ff.MaxChunk(); m > 0 && m < len(p) {
				p = p[:m]
			}
		}
	}
	n, err := f.File.Read(p)
	f.off += int64(n)
	return n, err
}

func (f *File) ReadAt(p []byte, off int64) (int, error) {
	if f.ff != nil && f.ff.ReadErr != nil && off+int64(len(p)) > f.ff.ErrAt {
		if f.ff.Fired != nil {
			*f.ff.Fired++
		}
		n := 0
		if off < f.ff.ErrAt {
			n, _ = f.File.ReadAt(p[:f.ff.ErrAt-off], off)
		}
		return n, &fs.PathError{Op: "read", Path: f.Name(), Err: f.ff.ReadErr}
	}
	return f.File.ReadAt(p, off)
}

// WriteTo hides os.File's fast path so that reads stay under control.
func (f *File) WriteTo(w io.Writer) (int64, error) {
	return io.Copy(w, onlyReader{f})
}

type onlyReader struct{ r io.Reader }

func (o onlyReader) Read(p []byte) (int, error) { return o.r.Read(p) }

// ReadFile is os.ReadFile on the simulated disk.
func ReadFile(name string) ([]byte, error) {
	f, err := Open(name)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	data := make([]byte, 0, 512)
	for {
		if len(data) == cap(data) {
			nd := make([]byte, len(data), 2*cap(data))
			copy(nd, data)
			data = nd
		}
		n, err := f.Read(data[len(data):cap(data)])
		data = data[:len(data)+n]
		if err != nil {
			if errors.Is(err, io.EOF) {
				err = nil
			}
			return data, err
		}
	}
}

var _ = syscall.EIO
