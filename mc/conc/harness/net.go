//go:build go1.23

package main

import (
	"bufio"
	"bytes"
	"context"
	"crypto/sha1"
	"encoding/base64"
	"encoding/binary"
	"errors"
	"io"
	"net"
	"net/http"
	"os"
	"strings"
	"time"

	"github.com/superisaac/jlib/zzverif/vrt"
)

var errConnClosed = errors.New("use of closed network connection")

// memConn is the end of a connection given to the code under test; the peer is
// the scenario, which looks at what was written and supplies what is read.
type memConn struct {
	o       vrt.Obj
	in      []byte
	inErr   error // read once in is empty
	out     []byte
	closed  bool
	closes  int
	writing int
	gate    func() bool
	wErr    error          // writes fail
	onWrite func(b []byte) // runs with the write
	rdl     deadline
	wdl     deadline
}

// deadline of reads or writes.
type deadline struct {
	timer *vrt.Timer
	over  bool
}

func (d *deadline) set(c *memConn, t time.Time) error {
	if vrt.Pass() {
		return nil
	}
	if d.timer == nil && !d.over && t.IsZero() {
		return nil
	}
	vrt.Step(&c.o, "set deadline")
	if d.timer != nil {
		d.timer.Stop()
	}
	d.timer, d.over = nil, false
	if t.IsZero() || c.closed {
		return nil
	}
	now := vrt.Epoch.Add(vrt.Now())
	if t.Before(vrt.Epoch) {
		now = time.Now() // of a library
		t = now.Add(t.Sub(now).Round(time.Second))
	}
	if !t.After(now) {
		d.over = true
		return nil
	}
	d.timer = vrt.StartTimer(t.Sub(now), &c.o, func() { d.timer, d.over = nil, true })
	return nil
}

func (c *memConn) Read(b []byte) (int, error) {
	if vrt.Pass() {
		return 0, errConnClosed
	}
	vrt.Await(&c.o, "conn read", func() bool { return len(c.in) > 0 || c.inErr != nil || c.closed || c.rdl.over })
	if c.closed {
		return 0, errConnClosed
	}
	if c.rdl.over {
		return 0, os.ErrDeadlineExceeded
	}
	if len(c.in) > 0 {
		n := copy(b, c.in)
		c.in = c.in[n:]
		return n, nil
	}
	return 0, c.inErr
}

func (c *memConn) Write(b []byte) (int, error) {
	if vrt.Pass() {
		return 0, errConnClosed
	}
	c.writing++
	defer func() { c.writing-- }()
	vrt.Await(&c.o, "conn write", func() bool { return c.gate == nil || c.gate() || c.closed || c.wErr != nil || c.wdl.over })
	if c.closed {
		return 0, errConnClosed
	}
	if c.wErr != nil {
		return 0, c.wErr
	}
	if c.wdl.over {
		return 0, os.ErrDeadlineExceeded
	}
	c.out = append(c.out, b...)
	if c.onWrite != nil {
		c.onWrite(b)
	}
	return len(b), nil
}

func (c *memConn) Close() error {
	if vrt.Pass() {
		return nil
	}
	vrt.Step(&c.o, "conn close")
	c.closed = true
	c.closes++
	for _, d := range []*deadline{&c.rdl, &c.wdl} {
		if d.timer != nil {
			d.timer.Stop()
		}
		d.timer = nil
	}
	return nil
}

// feed supplies bytes from the peer.
func (c *memConn) feed(b []byte) {
	vrt.Step(&c.o, "peer sends")
	c.in = append(c.in, b...)
}

func (c *memConn) drop(err error) {
	vrt.Step(&c.o, "peer is gone")
	c.inErr = err
}

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem:1" }

func (c *memConn) LocalAddr() net.Addr                { return memAddr{} }
func (c *memConn) RemoteAddr() net.Addr               { return memAddr{} }
func (c *memConn) SetReadDeadline(t time.Time) error  { return c.rdl.set(c, t) }
func (c *memConn) SetWriteDeadline(t time.Time) error { return c.wdl.set(c, t) }
func (c *memConn) SetDeadline(t time.Time) error {
	c.rdl.set(c, t)
	return c.wdl.set(c, t)
}

// ---------------------------------------------------------------- websocket frames

const (
	opText   = 1
	opBinary = 2
	opClose  = 8
	opPing   = 9
)

type frame struct {
	op   int
	fin  bool
	data []byte
}

func encodeFrame(op int, data []byte, masked bool) []byte {
	b := []byte{byte(0x80 | op)}
	m := byte(0)
	if masked {
		m = 0x80
	}
	switch {
	case len(data) < 126:
		b = append(b, m|byte(len(data)))
	case len(data) < 65536:
		b = append(b, m|126, byte(len(data)>>8), byte(len(data)))
	default:
		b = append(b, m|127)
		b = binary.BigEndian.AppendUint64(b, uint64(len(data)))
	}
	if masked {
		b = append(b, 0, 0, 0, 0)
	}
	return append(b, data...)
}

// decodeFrame takes one frame off the front of b; ok is false if there is none yet.
func decodeFrame(b []byte) (f frame, rest []byte, ok bool, err error) {
	if len(b) < 2 {
		return f, b, false, nil
	}
	f.op, f.fin = int(b[0]&15), b[0]&0x80 != 0
	if b[0]&0x70 != 0 || f.op >= opClose && !f.fin {
		return f, b, false, errors.New("bad frame header")
	}
	n := int(b[1] & 127)
	p := 2
	switch n {
	case 126:
		if len(b) < 4 {
			return f, b, false, nil
		}
		n = int(binary.BigEndian.Uint16(b[2:]))
		p = 4
	case 127:
		if len(b) < 10 {
			return f, b, false, nil
		}
		n = int(binary.BigEndian.Uint64(b[2:]))
		p = 10
	}
	var key []byte
	if b[1]&0x80 != 0 {
		if len(b) < p+4 {
			return f, b, false, nil
		}
		key = b[p : p+4]
		p += 4
	}
	if len(b) < p+n {
		return f, b, false, nil
	}
	f.data = append([]byte(nil), b[p:p+n]...)
	if key != nil {
		for i := range f.data {
			f.data[i] ^= key[i&3]
		}
	}
	return f, b[p+n:], true, nil
}

// decodeMessages takes whole messages and control frames off the front of b,
// putting together messages that come in several frames.
func decodeMessages(b []byte) (l []frame, rest []byte, err error) {
	for {
		var ctl []frame
		var m *frame
		p := b
		for {
			f, r, ok, err := decodeFrame(p)
			if err != nil || !ok {
				return l, b, err
			}
			p = r
			if f.op >= opClose {
				ctl = append(ctl, f)
			} else if (f.op == 0) != (m != nil) {
				return l, b, errors.New("a message within another")
			} else if m == nil {
				m = &f
			} else {
				m.data, m.fin = append(m.data, f.data...), f.fin
			}
			if m == nil || m.fin {
				break
			}
		}
		l = append(l, ctl...)
		if m != nil {
			l = append(l, *m)
		}
		b = p
	}
}

func acceptKey(k string) string {
	h := sha1.Sum([]byte(k + "258EAFA5-E914-47DA-95CA-C5AB0DC85B11"))
	return base64.StdEncoding.EncodeToString(h[:])
}

// upgradeResponse answers the opening handshake of a websocket client.
func upgradeResponse(req []byte) []byte {
	r, err := http.ReadRequest(bufio.NewReader(bytes.NewReader(req)))
	if err != nil {
		return []byte("HTTP/1.1 400 Bad Request\r\nContent-Length: 0\r\n\r\n")
	}
	return []byte("HTTP/1.1 101 Switching Protocols\r\nUpgrade: websocket\r\nConnection: Upgrade\r\nSec-WebSocket-Accept: " +
		acceptKey(r.Header.Get("Sec-Websocket-Key")) + "\r\n\r\n")
}

// ---------------------------------------------------------------- http fakes

// hijackWriter is what a websocket handler gets.
type hijackWriter struct {
	h http.Header
	c *memConn
}

func (w *hijackWriter) Header() http.Header         { return w.h }
func (w *hijackWriter) Write(b []byte) (int, error) { return len(b), nil }
func (w *hijackWriter) WriteHeader(int)             {}
func (w *hijackWriter) Hijack() (net.Conn, *bufio.ReadWriter, error) {
	return w.c, bufio.NewReadWriter(bufio.NewReader(w.c), bufio.NewWriter(w.c)), nil
}

// streamWriter is what an HTTP/2 handler gets.
type streamWriter struct {
	h        http.Header
	c        *memConn
	code     int
	returned bool
	inside   int
	buf      []byte
	ctx      context.Context
}

func (w *streamWriter) enter(what string) {
	if w.returned {
		fail("V01 V02", "write-after-return", "the response writer is used (%s) after the HTTP handler returned", what)
	}
	w.inside++
	if w.inside > 1 {
		fail("V01 V02", "overlapping-writes", "the response writer is used by two goroutines at the same time")
	}
}

func (w *streamWriter) Header() http.Header { return w.h }
func (w *streamWriter) WriteHeader(code int) {
	w.enter("WriteHeader")
	defer func() { w.inside-- }()
	w.code = code
}

func (w *streamWriter) Write(b []byte) (int, error) {
	if vrt.Pass() {
		return 0, errConnClosed
	}
	w.enter("Write")
	defer func() { w.inside-- }()
	vrt.Await(&w.c.o, "stream write", func() bool {
		return w.c.gate == nil || w.c.gate() || w.c.closed || w.c.wErr != nil || w.c.wdl.over || w.ctx.Err() != nil
	})
	vrt.CtxLook()
	if w.returned {
		fail("V01 V02", "write-after-return", "the response writer is in use when the HTTP handler returns")
	}
	if w.c.closed || w.c.wdl.over || w.ctx.Err() != nil {
		return 0, errors.New("http2: stream closed")
	}
	if w.c.wErr != nil {
		return 0, w.c.wErr
	}
	w.buf = append(w.buf, b...)
	return len(b), nil
}

// The stream of net/http and x/net has deadlines too; one that passes resets
// the stream.
func (w *streamWriter) SetWriteDeadline(t time.Time) error { return w.c.wdl.set(w.c, t) }
func (w *streamWriter) SetReadDeadline(t time.Time) error  { return w.c.rdl.set(w.c, t) }
func (w *streamWriter) FlushError() error                  { w.Flush(); return nil }

func (w *streamWriter) Flush() {
	if vrt.Pass() {
		return
	}
	w.enter("Flush")
	defer func() { w.inside-- }()
	vrt.Step(&w.c.o, "stream flush")
	if w.returned {
		fail("V01 V02", "write-after-return", "the response writer is in use when the HTTP handler returns")
	}
	w.c.out = append(w.c.out, w.buf...)
	b := w.buf
	w.buf = nil
	if w.c.onWrite != nil && len(b) > 0 {
		w.c.onWrite(b)
	}
}

// streamBody is the body of an HTTP/2 request.
type streamBody struct {
	c   *memConn
	ctx context.Context
}

func (r *streamBody) Read(b []byte) (int, error) {
	if vrt.Pass() {
		return 0, errConnClosed
	}
	c := r.c
	vrt.Await(&c.o, "body read", func() bool {
		return len(c.in) > 0 || c.inErr != nil || c.closed || c.rdl.over || c.wdl.over || r.ctx.Err() != nil
	})
	vrt.CtxLook()
	if c.rdl.over || c.wdl.over {
		return 0, os.ErrDeadlineExceeded
	}
	if c.closed {
		return 0, http.ErrBodyReadAfterClose
	}
	if len(c.in) > 0 {
		n := copy(b, c.in)
		c.in = c.in[n:]
		return n, nil
	}
	if c.inErr != nil {
		return 0, c.inErr
	}
	return 0, r.ctx.Err()
}

func (r *streamBody) Close() error { return r.c.Close() }

var _ io.ReadCloser = &streamBody{}

func isUpgrade(b []byte) bool {
	return strings.HasPrefix(string(b), "GET ") && bytes.HasSuffix(b, []byte("\r\n\r\n"))
}
