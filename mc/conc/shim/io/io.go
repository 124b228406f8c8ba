//go:build go1.23

// Package io stands in for the standard package in rewritten code: pipes are
// those of the scheduler.
package io

import (
	stdio "io"

	"github.com/superisaac/jlib/zzverif/vrt"
)

type (
	ByteReader      = stdio.ByteReader
	ByteScanner     = stdio.ByteScanner
	ByteWriter      = stdio.ByteWriter
	Closer          = stdio.Closer
	LimitedReader   = stdio.LimitedReader
	OffsetWriter    = stdio.OffsetWriter
	ReadCloser      = stdio.ReadCloser
	ReadSeekCloser  = stdio.ReadSeekCloser
	ReadSeeker      = stdio.ReadSeeker
	ReadWriteCloser = stdio.ReadWriteCloser
	ReadWriteSeeker = stdio.ReadWriteSeeker
	ReadWriter      = stdio.ReadWriter
	Reader          = stdio.Reader
	ReaderAt        = stdio.ReaderAt
	ReaderFrom      = stdio.ReaderFrom
	RuneReader      = stdio.RuneReader
	RuneScanner     = stdio.RuneScanner
	SectionReader   = stdio.SectionReader
	Seeker          = stdio.Seeker
	StringWriter    = stdio.StringWriter
	WriteCloser     = stdio.WriteCloser
	WriteSeeker     = stdio.WriteSeeker
	Writer          = stdio.Writer
	WriterAt        = stdio.WriterAt
	WriterTo        = stdio.WriterTo
)

const (
	SeekStart   = stdio.SeekStart
	SeekCurrent = stdio.SeekCurrent
	SeekEnd     = stdio.SeekEnd
)

var (
	EOF              = stdio.EOF
	ErrClosedPipe    = stdio.ErrClosedPipe
	ErrNoProgress    = stdio.ErrNoProgress
	ErrShortBuffer   = stdio.ErrShortBuffer
	ErrShortWrite    = stdio.ErrShortWrite
	ErrUnexpectedEOF = stdio.ErrUnexpectedEOF
	Discard          = stdio.Discard
)

func Copy(dst Writer, src Reader) (int64, error) { return stdio.Copy(dst, src) }
func CopyBuffer(dst Writer, src Reader, buf []byte) (int64, error) {
	return stdio.CopyBuffer(dst, src, buf)
}
func CopyN(dst Writer, src Reader, n int64) (int64, error)   { return stdio.CopyN(dst, src, n) }
func ReadAll(r Reader) ([]byte, error)                       { return stdio.ReadAll(r) }
func ReadAtLeast(r Reader, buf []byte, min int) (int, error) { return stdio.ReadAtLeast(r, buf, min) }
func ReadFull(r Reader, buf []byte) (int, error)             { return stdio.ReadFull(r, buf) }
func WriteString(w Writer, s string) (int, error)            { return stdio.WriteString(w, s) }
func NewOffsetWriter(w WriterAt, off int64) *OffsetWriter    { return stdio.NewOffsetWriter(w, off) }
func NopCloser(r Reader) ReadCloser                          { return stdio.NopCloser(r) }
func LimitReader(r Reader, n int64) Reader                   { return stdio.LimitReader(r, n) }
func MultiReader(readers ...Reader) Reader                   { return stdio.MultiReader(readers...) }
func MultiWriter(writers ...Writer) Writer                   { return stdio.MultiWriter(writers...) }
func TeeReader(r Reader, w Writer) Reader                    { return stdio.TeeReader(r, w) }
func NewSectionReader(r ReaderAt, off int64, n int64) *SectionReader {
	return stdio.NewSectionReader(r, off, n)
}

type pipe struct {
	o    vrt.Obj
	buf  []byte
	full bool // a write is waiting to be read
	busy bool // a writer is in
	werr error
	rerr error
}

type PipeReader struct{ p *pipe }
type PipeWriter struct{ p *pipe }

func Pipe() (*PipeReader, *PipeWriter) {
	p := &pipe{}
	return &PipeReader{p}, &PipeWriter{p}
}

func (r *PipeReader) Read(b []byte) (int, error) {
	p := r.p
	if vrt.Pass() {
		return 0, ErrClosedPipe
	}
	vrt.Await(&p.o, "pipe read", func() bool { return p.full || p.werr != nil || p.rerr != nil })
	if p.rerr != nil {
		return 0, ErrClosedPipe
	}
	if p.full {
		n := copy(b, p.buf)
		p.buf = p.buf[n:]
		if len(p.buf) == 0 {
			p.full = false
		}
		return n, nil
	}
	return 0, p.werr
}

func (r *PipeReader) Close() error { return r.CloseWithError(nil) }
func (r *PipeReader) CloseWithError(err error) error {
	if err == nil {
		err = ErrClosedPipe
	}
	if !vrt.Pass() {
		vrt.Step(&r.p.o, "pipe close")
	}
	if r.p.rerr == nil {
		r.p.rerr = err
	}
	return nil
}

func (w *PipeWriter) Write(b []byte) (int, error) {
	p := w.p
	if vrt.Pass() {
		return 0, ErrClosedPipe
	}
	vrt.Await(&p.o, "pipe write", func() bool { return !p.busy || p.werr != nil || p.rerr != nil })
	if p.rerr != nil {
		return 0, p.rerr
	}
	if p.werr != nil {
		return 0, ErrClosedPipe
	}
	if len(b) == 0 {
		return 0, nil
	}
	p.busy = true
	p.buf, p.full = append([]byte(nil), b...), true
	vrt.Await(&p.o, "pipe write", func() bool { return !p.full || p.rerr != nil || p.werr != nil })
	p.busy = false
	if !p.full {
		return len(b), nil
	}
	p.full = false
	n := len(b) - len(p.buf)
	if p.rerr != nil {
		return n, p.rerr
	}
	return n, ErrClosedPipe
}

func (w *PipeWriter) Close() error { return w.CloseWithError(nil) }
func (w *PipeWriter) CloseWithError(err error) error {
	if err == nil {
		err = EOF
	}
	if !vrt.Pass() {
		vrt.Step(&w.p.o, "pipe close")
	}
	if w.p.werr == nil {
		w.p.werr = err
	}
	return nil
}
