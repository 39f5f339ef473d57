package h

import (
	"context"
	"errors"
	"net"
	"net/http"
	"sync"
)

// MemListener is an in-memory network endpoint.
type MemListener struct {
	ch     chan net.Conn
	closed chan struct{}
	once   sync.Once
	// Dialed is called with every address dialed.
	Dialed func(network, addr string)
	// Wrap may replace the server's end of a connection.
	Wrap func(net.Conn) net.Conn
}

// NewMemListener creates an endpoint.
func NewMemListener() *MemListener {
	return &MemListener{ch: make(chan net.Conn), closed: make(chan struct{})}
}

// Accept implements net.Listener.
func (l *MemListener) Accept() (net.Conn, error) {
	select {
	case c := <-l.ch:
		return c, nil
	case <-l.closed:
		return nil, net.ErrClosed
	}
}

// Close implements net.Listener.
func (l *MemListener) Close() error {
	l.once.Do(func() { close(l.closed) })
	return nil
}

type memAddr struct{}

func (memAddr) Network() string { return "mem" }
func (memAddr) String() string  { return "mem:0" }

// Addr implements net.Listener.
func (l *MemListener) Addr() net.Addr { return memAddr{} }

// Dial connects to the endpoint.
func (l *MemListener) Dial(ctx context.Context, network, addr string) (net.Conn, error) {
	if l.Dialed != nil {
		l.Dialed(network, addr)
	}
	a, b := net.Pipe()
	var s net.Conn = b
	if l.Wrap != nil {
		s = l.Wrap(b)
	}
	select {
	case l.ch <- s:
		return a, nil
	case <-l.closed:
		return nil, errors.New("connection refused")
	case <-ctx.Done():
		return nil, ctx.Err()
	}
}

// MemServer serves a handler on an in-memory endpoint.
type MemServer struct {
	*MemListener
	S    *http.Server
	done chan struct{}
}

// NewMemServer starts a server.
func NewMemServer(hd http.Handler) *MemServer {
	m := &MemServer{MemListener: NewMemListener(), S: &http.Server{Handler: hd}, done: make(chan struct{})}
	go func() {
		defer close(m.done)
		m.S.Serve(m.MemListener)
	}()
	return m
}

// Stop closes the server and all its connections.
func (m *MemServer) Stop() {
	m.S.Close()
	m.Close()
	<-m.done
}

// Redirect makes clients created from now on connect to the endpoint, whatever
// address they are given: new clients inherit the default transport.
func (l *MemListener) Redirect() {
	t := http.DefaultTransport.(*http.Transport)
	t.DialContext = l.Dial
	t.Proxy = nil
}
