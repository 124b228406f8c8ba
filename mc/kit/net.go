//go:build go1.22

package kit

import (
	"fmt"
	"net"
	"net/http"
	"net/http/httptest"
	"os"
	"sync"
	"sync/atomic"
	"time"
)

var lastAddress = int64(os.Getpid()) * 7919

// Listen opens a listener on an address of its own. It is none of 127.0.0.1
// and its port is below those the system gives to clients: thousands of
// servers come and go, and neither they nor the finished connections, which
// the system keeps for a minute, must ever leave a client or server without
// a port.
func Listen() net.Listener {
	var err error
	for try := 0; try < 100000; try++ {
		n := atomic.AddInt64(&lastAddress, 1)
		var l net.Listener
		if l, err = net.Listen("tcp", fmt.Sprintf("127.0.1.%d:%d", 1+n%200, 10000+n/200%20000)); err == nil {
			return l
		}
	}
	panic(fmt.Sprintf("kit: %v", err))
}

// NewServer is httptest.NewUnstartedServer on such a listener.
func NewServer(h http.Handler) *httptest.Server {
	return &httptest.Server{Listener: &sweeping{Listener: Listen(), open: map[net.Conn]bool{}}, Config: &http.Server{Handler: h}}
}

// ServerIPs are for the certificates of such servers.
var ServerIPs = func() []net.IP {
	ips := []net.IP{net.IPv4(127, 0, 0, 1)}
	for i := 1; i <= 200; i++ {
		ips = append(ips, net.IPv4(127, 0, 1, byte(i)))
	}
	return ips
}()

// sweeping is a listener that does not leave its connections behind: what is
// open a while after the listener was closed - the server does not know of
// connections that were taken over from it - is closed.
type sweeping struct {
	net.Listener
	mu   sync.Mutex
	open map[net.Conn]bool
	once sync.Once
}

type swept struct {
	net.Conn
	of *sweeping
}

func (l *sweeping) Accept() (net.Conn, error) {
	c, err := l.Listener.Accept()
	if err != nil {
		return nil, err
	}
	s := &swept{c, l}
	l.mu.Lock()
	defer l.mu.Unlock()
	l.open[s] = true
	return s, nil
}

func (s *swept) Close() error {
	s.of.mu.Lock()
	delete(s.of.open, s)
	s.of.mu.Unlock()
	return s.Conn.Close()
}

func (l *sweeping) Close() error {
	l.once.Do(func() {
		time.AfterFunc(300*time.Millisecond, func() {
			l.mu.Lock()
			defer l.mu.Unlock()
			for c := range l.open {
				c.(*swept).Conn.Close()
				delete(l.open, c)
			}
		})
	})
	return l.Listener.Close()
}
