//go:build go1.23

package main

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/url"
	"strings"
	"time"

	"github.com/gorilla/websocket"
	"github.com/superisaac/jlib"
	jlibhttp "github.com/superisaac/jlib/http"
	"github.com/superisaac/jlib/zzverif/vrt"
)

// peerConn is one connection as the peer sees it.
type peerConn struct {
	*memConn
	w      *cWorld
	kind   string
	parsed int // bytes of out already looked at
	shaken bool
	got    []string // messages from the client
	pongs  int
	closed bool // the client ended the connection
	header http.Header
	method string
	resp   *clientBody
	status int
	eof    bool // the request body has ended
}

// cWorld is a client with its own transport and scripted peers.
type cWorld struct {
	*kWorld
	kind    string
	conns   []*peerConn
	dials   int
	dialing int
	onDial  func(n int) string // "", "refuse", "status", "garbage"
	onMsg   func(p *peerConn, s string)
	prep    func(p *peerConn)
	onOpen  func(p *peerConn)
	hooked  bool
	cl      interface{}
	// of websocket clients
	handshake time.Duration
	silent    []*peerConn
}

func newC(kind string) *cWorld {
	w := &cWorld{kWorld: &kWorld{t: &fakeT{}}, kind: kind}
	w.ctx, w.cancel = freshCtx()
	if kind == "ws" {
		u, _ := url.Parse("ws://127.0.0.1:1/")
		c := jlibhttp.NewWSClient(u)
		w.kWorld.c = &c.StreamingClient
		w.cl = c
		w.hookDialer()
	} else {
		u, _ := url.Parse("h2c://127.0.0.1:1/")
		c := jlibhttp.NewH2Client(u)
		w.kWorld.c = &c.StreamingClient
		w.cl = c
		c.HTTPClient().Transport = rt{w}
	}
	return w
}

// hookDialer lets websocket clients reach the peers of this world.
func (w *cWorld) hookDialer() {
	websocket.DefaultDialer.NetDial = func(network, addr string) (net.Conn, error) {
		p, err := w.dial()
		if err != nil {
			return nil, err
		}
		return p, nil
	}
	websocket.DefaultDialer.Proxy = nil
	websocket.DefaultDialer.HandshakeTimeout = w.handshake
}

func (w *cWorld) dial() (*peerConn, error) {
	w.hooked = true
	if w.dialing > 0 {
		fail("K05", "overlapping-dials", "two connections are being opened at the same time")
	}
	for _, p := range w.conns {
		if !p.gone() {
			fail("K03 K05", "dial-while-connected", "a connection is opened while one is open")
		}
	}
	w.dialing++
	w.dials++
	how := ""
	if w.onDial != nil {
		how = w.onDial(w.dials)
	}
	vrt.Step(&w.t.o, "dial")
	w.dialing--
	if how == "refuse" {
		return nil, &net.OpError{Op: "dial", Err: errors.New("refused")}
	}
	p := &peerConn{memConn: &memConn{}, w: w, kind: w.kind}
	p.onWrite = func(b []byte) { p.look() }
	switch how {
	case "status":
		p.status = 503
	case "garbage":
		p.status = -1
	case "silent":
		p.status = -2
		w.silent = append(w.silent, p)
	default:
		w.conns = append(w.conns, p)
	}
	if w.prep != nil {
		w.prep(p)
	}
	return p, nil
}

// gone says whether the client let go of the connection.
func (p *peerConn) gone() bool {
	if p.kind == "ws" {
		return p.memConn.closed
	}
	return p.resp != nil && p.resp.closed
}

func (w *cWorld) last() *peerConn {
	if len(w.conns) == 0 {
		return nil
	}
	return w.conns[len(w.conns)-1]
}

// look takes what the client wrote.
func (p *peerConn) look() {
	b := p.out[p.parsed:]
	if p.kind == "ws" {
		if !p.shaken {
			i := bytes.Index(b, []byte("\r\n\r\n"))
			if i < 0 {
				return
			}
			switch p.status {
			case 0:
				p.in = append(p.in, upgradeResponse(b[:i+4])...)
			case -2:
				return // it takes everything and says nothing
			case -1:
				p.in = append(p.in, "what?\r\n\r\n"...)
			default:
				p.in = append(p.in, "HTTP/1.1 503 Service Unavailable\r\nContent-Length: 0\r\n\r\n"...)
			}
			p.shaken = true
			p.parsed += i + 4
			b = b[i+4:]
			if p.status == 0 {
				p.welcome()
			}
		}
		l, rest, err := decodeMessages(b)
		p.parsed += len(b) - len(rest)
		for _, f := range l {
			switch f.op {
			case opText:
				p.message(string(f.data))
			case opClose:
				p.closed = true
			case opPing:
				p.in = append(p.in, encodeFrame(10, f.data, false)...)
			case 10:
				p.pongs++
			}
		}
		if err != nil {
			fail("K04", "garbled", "the peer got something that is no frame (%v): %.200q", err, rest)
		}
		return
	}
	for {
		i := bytes.IndexByte(b, '\n')
		if i < 0 {
			return
		}
		l := string(b[:i])
		b = b[i+1:]
		p.parsed += i + 1
		p.message(l)
	}
}

func (p *peerConn) welcome() {
	if p.w.onOpen != nil {
		p.w.onOpen(p)
	}
}

func (p *peerConn) message(s string) {
	if !json.Valid([]byte(s)) {
		fail("K04", "garbled", "the peer got something that is no message: %q", s)
	}
	p.got = append(p.got, s)
	if p.w.onMsg != nil {
		p.w.onMsg(p, s)
	}
}

// frames encodes messages of the peer.
func (p *peerConn) frames(texts ...string) []byte {
	var b []byte
	for _, t := range texts {
		if p.kind == "ws" {
			b = append(b, encodeFrame(opText, []byte(t), false)...)
		} else {
			b = append(append(b, t...), '\n')
		}
	}
	return b
}

// say lets the peer send within a write of the client.
func (p *peerConn) say(texts ...string) { p.in = append(p.in, p.frames(texts...)...) }

// tell lets the peer send from a thread of its own.
func (p *peerConn) tell(texts ...string) { p.feed(p.frames(texts...)) }

func (p *peerConn) end(how string) {
	switch how {
	case "eof":
		p.drop(io.EOF)
	case "reset":
		p.drop(errLost)
	case "goodbye":
		if p.kind == "ws" {
			p.feed(encodeFrame(opClose, []byte{3, 232}, false))
		}
		p.drop(io.EOF)
	case "malformed":
		if p.kind == "ws" {
			p.tell(`{"jsonrpc":"2.0","id":5`)
		} else {
			p.tell(`{"jsonrpc":"2.0",}`)
		}
	case "write":
		vrt.Step(&p.o, "writes fail from now on")
		p.wErr = errWrite
	}
}

// answerText is the response to a request as text, or nothing.
func answerText(s string) string {
	m, err := jlib.ParseBytes([]byte(s))
	if err != nil || !m.IsRequest() {
		return ""
	}
	return wire(answer(write{msg: m}).msg)
}

func cEcho(p *peerConn, s string) {
	if a := answerText(s); a != "" {
		p.say(a)
	}
}

// cHold answers once n requests are there, in the given order.
func cHold(n int, perm []int) func(p *peerConn, s string) {
	var got []string
	return func(p *peerConn, s string) {
		a := answerText(s)
		if a == "" {
			return
		}
		if got = append(got, a); len(got) == n {
			for _, k := range perm {
				p.say(got[k])
			}
			got = nil
		}
	}
}

// ---------------------------------------------------------------- HTTP/2

type rt struct{ w *cWorld }

// clientBody is the body of the response of an HTTP/2 stream.
type clientBody struct {
	p      *peerConn
	req    io.ReadCloser
	closed bool
}

func (b *clientBody) Read(d []byte) (int, error) {
	if b.closed {
		return 0, errors.New("http2: response body closed")
	}
	return b.p.memConn.Read(d)
}

func (b *clientBody) Close() error {
	if vrt.Pass() {
		return nil
	}
	b.p.memConn.Close()
	b.closed = true
	if b.req != nil {
		b.req.Close()
	}
	return nil
}

func (t rt) RoundTrip(r *http.Request) (*http.Response, error) {
	p, err := t.w.dial()
	if err != nil {
		if r.Body != nil {
			r.Body.Close()
		}
		return nil, err
	}
	p.header, p.method = r.Header, r.Method
	body := &clientBody{p: p, req: r.Body}
	p.resp = body
	p.onWrite = nil
	if p.status == -2 {
		vrt.Await(&p.o, "no answer to the request", func() bool { return r.Context().Err() != nil })
		body.Close()
		return nil, r.Context().Err()
	}
	if p.status != 0 {
		body.p.drop(io.EOF)
		if r.Body != nil {
			r.Body.Close()
		}
		return &http.Response{StatusCode: 503, Status: "503 Service Unavailable", ProtoMajor: 2, Proto: "HTTP/2.0", Header: http.Header{}, Body: body, Request: r}, nil
	}
	p.shaken = true
	p.welcome()
	if r.Body != nil {
		// the transport takes the body of the request
		vrt.GoName("body", func() {
			buf := make([]byte, 4096)
			for {
				n, err := r.Body.Read(buf)
				if vrt.Unwinding() {
					return
				}
				if n > 0 {
					vrt.Await(&p.o, "stream takes data", func() bool {
						return p.gate == nil || p.gate() || p.memConn.closed || p.wErr != nil || p.inErr != nil
					})
					if p.memConn.closed || p.wErr != nil || p.inErr != nil && len(p.in) == 0 {
						// the stream is gone, in both directions
						if p.inErr == nil {
							p.inErr = errLost
							vrt.Touch(&p.o)
						}
						r.Body.Close()
						return
					}
					p.out = append(p.out, buf[:n]...)
					p.look()
				}
				if err != nil {
					vrt.Step(&p.o, "request body ended")
					p.eof = true
					return
				}
			}
		})
	}
	return &http.Response{StatusCode: 200, Status: "200 OK", ProtoMajor: 2, Proto: "HTTP/2.0", Header: http.Header{}, Body: body, Request: r}, nil
}

// ---------------------------------------------------------------- helpers

func (w *cWorld) reopened() {
	n := len(w.conns)
	w.kWorld.c.Close()
	for _, p := range w.conns {
		if !p.gone() {
			fail("K03", "transport-open", "the connection is open after it ended for the client")
		}
	}
	if w.kWorld.c.Connected() {
		fail("K03", "still-connected", "the client says it is connected after the connection ended")
	}
	vrt.Await(&w.t.o, "loops gone", nil)
	w.freshContext()
	w.onMsg, w.onDial, w.prep, w.onOpen = cEcho, nil, nil, nil
	c := w.call("again", "again")
	w.want(c, "answer")
	if c.outcome() != "answer" {
		fail("K03", "not-reopened", "a call after the connection ended gave %s (%v)", c.outcome(), c.err)
	}
	if len(w.conns) != n+1 {
		fail("K03", "not-reopened", "%d connections opened for the next call", len(w.conns)-n)
	}
}

func (w *cWorld) texts(p *peerConn) []string {
	var out []string
	for _, s := range p.got {
		out = append(out, brief(s))
	}
	return out
}

func big(n int, s string) *jlib.NotifyMessage {
	return jlib.NewNotifyMessage(fmt.Sprintf("n%d", n), []interface{}{strings.Repeat(s, 300)})
}
