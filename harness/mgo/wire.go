package mgo

import (
	"context"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"net"
	"sync"
	"time"

	"go.mongodb.org/mongo-driver/bson"
	"go.mongodb.org/mongo-driver/x/mongo/driver/topology"
)

// Server answers connections on behalf of a deployment.
type Server struct {
	D *Deployment
	// Sched is called before a command is executed.
	Sched func()
	// inject decides what goes wrong with a command.
	inject func(name string, cmd bson.D) *Fault
	// Executed is told about every command and its reply.
	Executed func(cmd, reply bson.D)

	mu    sync.Mutex
	conns map[net.Conn]bool
	down  bool
	wg    sync.WaitGroup
}

var (
	registry   sync.Map
	setup      sync.Once
	errRefused = errors.New("connection refused")
)

type dialer struct{}

func (dialer) DialContext(ctx context.Context, network, addr string) (net.Conn, error) {
	v, ok := registry.Load(addr)
	if !ok {
		return nil, &net.OpError{Op: "dial", Net: network, Err: errRefused}
	}
	return v.(*Server).dial()
}

// Serve makes a deployment reachable under an address.
func Serve(d *Deployment, addr string) *Server {
	setup.Do(func() { topology.DefaultDialer = dialer{} })
	s := &Server{D: d, conns: map[net.Conn]bool{}}
	registry.Store(addr, s)
	return s
}

// ServeTCP makes a deployment reachable for other processes.
func ServeTCP(d *Deployment) (s *Server, addr string, stop func(), err error) {
	l, err := net.Listen("tcp", "127.0.0.1:0")
	if err != nil {
		return nil, "", nil, err
	}
	s = &Server{D: d, conns: map[net.Conn]bool{}}
	go func() {
		for {
			c, err := l.Accept()
			if err != nil {
				return
			}
			s.mu.Lock()
			if s.down {
				s.mu.Unlock()
				c.Close()
				continue
			}
			s.accept(c)
			s.mu.Unlock()
		}
	}()
	return s, l.Addr().String(), func() {
		l.Close()
		s.Down(true)
		s.wg.Wait()
	}, nil
}

// accept answers on a connection; the lock is held.
func (s *Server) accept(b net.Conn) {
	s.conns[b] = true
	s.wg.Add(1)
	go func() {
		defer s.wg.Done()
		defer b.Close()
		s.serve(b)
		s.mu.Lock()
		delete(s.conns, b)
		s.mu.Unlock()
	}()
}

// Down cuts all connections and refuses new ones, or accepts them again.
func (s *Server) Down(v bool) {
	s.mu.Lock()
	s.down = v
	l := s.conns
	if v {
		s.conns = map[net.Conn]bool{}
	}
	s.mu.Unlock()
	if v {
		for c := range l {
			c.Close()
		}
	}
}

// Stop ends the server.
func (s *Server) Stop(addr string) {
	registry.Delete(addr)
	s.Down(true)
	s.wg.Wait()
}

// Inject sets what decides what goes wrong with a command.
func (s *Server) Inject(f func(name string, cmd bson.D) *Fault) {
	s.mu.Lock()
	s.inject = f
	s.mu.Unlock()
}

// With runs a function on the deployment while no command is executed.
func (s *Server) With(f func(d *Deployment)) {
	s.mu.Lock()
	defer s.mu.Unlock()
	f(s.D)
}

func (s *Server) dial() (net.Conn, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.down {
		return nil, &net.OpError{Op: "dial", Net: "tcp", Err: errRefused}
	}
	a, b := net.Pipe()
	s.accept(b)
	return a, nil
}

const (
	opReply = 1
	opQuery = 2004
	opMsg   = 2013
)

func (s *Server) serve(c net.Conn) {
	hdr := make([]byte, 16)
	for {
		if _, err := io.ReadFull(c, hdr); err != nil {
			return
		}
		n := binary.LittleEndian.Uint32(hdr)
		id := binary.LittleEndian.Uint32(hdr[4:])
		code := binary.LittleEndian.Uint32(hdr[12:])
		if n < 16 || n > 64<<20 {
			return
		}
		body := make([]byte, n-16)
		if _, err := io.ReadFull(c, body); err != nil {
			return
		}
		var cmd bson.D
		var err error
		more := false
		switch code {
		case opQuery:
			// flags, collection name, skip, limit, query
			k := 4
			for body[k] != 0 {
				k++
			}
			err = bson.Unmarshal(body[k+9:], &cmd)
		case opMsg:
			more = binary.LittleEndian.Uint32(body)&2 != 0
			cmd, err = sections(body[4:], binary.LittleEndian.Uint32(body)&1 != 0)
		default:
			err = fmt.Errorf("opcode %d", code)
		}
		if err != nil {
			panic("emulated deployment: " + err.Error())
		}
		reply, drop := s.command(cmd)
		if drop {
			return
		}
		if more {
			continue
		}
		b, err := bson.Marshal(reply)
		if err != nil {
			panic(err)
		}
		var out []byte
		if code == opQuery {
			out = make([]byte, 36, 36+len(b))
			binary.LittleEndian.PutUint32(out[12:], opReply)
			binary.LittleEndian.PutUint32(out[16:], 8)
			binary.LittleEndian.PutUint32(out[32:], 1)
		} else {
			out = make([]byte, 21, 21+len(b))
			binary.LittleEndian.PutUint32(out[12:], opMsg)
		}
		out = append(out, b...)
		binary.LittleEndian.PutUint32(out, uint32(len(out)))
		binary.LittleEndian.PutUint32(out[4:], 7)
		binary.LittleEndian.PutUint32(out[8:], id)
		if _, err := c.Write(out); err != nil {
			return
		}
	}
}

// sections assembles a command from the parts of a message.
func sections(b []byte, checksum bool) (bson.D, error) {
	if checksum {
		b = b[:len(b)-4]
	}
	var cmd bson.D
	var seqs bson.D
	for len(b) > 0 {
		kind := b[0]
		n := int(binary.LittleEndian.Uint32(b[1:]))
		part := b[1 : 1+n]
		b = b[1+n:]
		if kind == 0 {
			if err := bson.Unmarshal(part, &cmd); err != nil {
				return nil, err
			}
			continue
		}
		p := part[4:]
		k := 0
		for p[k] != 0 {
			k++
		}
		name := string(p[:k])
		p = p[k+1:]
		docs := bson.A{}
		for len(p) > 0 {
			m := int(binary.LittleEndian.Uint32(p))
			var d bson.D
			if err := bson.Unmarshal(p[:m], &d); err != nil {
				return nil, err
			}
			docs = append(docs, d)
			p = p[m:]
		}
		seqs = append(seqs, bson.E{Key: name, Value: docs})
	}
	return append(cmd, seqs...), nil
}

// command executes one command; drop means the connection is lost instead.
func (s *Server) command(cmd bson.D) (reply bson.D, drop bool) {
	name := cmd[0].Key
	internal := name == "hello" || name == "isMaster" || name == "ismaster" || name == "endSessions"
	if s.Sched != nil && !internal {
		s.Sched()
	}
	var fault *Fault
	if !internal {
		s.mu.Lock()
		if s.inject != nil {
			fault = s.inject(name, cmd)
		}
		s.mu.Unlock()
	}
	if fault != nil {
		if fault.Delay > 0 {
			time.Sleep(fault.Delay)
		}
		if fault.Drop == "before" {
			return nil, true
		}
		if fault.Err != nil {
			return s.failure(fault.Err), false
		}
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	// A retried write is not executed again.
	key := ""
	if v, ok := get(cmd, "txnNumber"); ok {
		key = fmt.Sprint(getD(cmd, "lsid"), v)
		if r, ok := s.D.retried[key]; ok {
			return r, false
		}
	}
	reply, err := func() (r bson.D, err error) {
		defer func() {
			if x := recover(); x != nil {
				err = fmt.Errorf("%v", x)
			}
		}()
		return s.D.execute(getS(cmd, "$db"), cmd, fault)
	}()
	if err != nil {
		var f *Failure
		if !errors.As(err, &f) {
			s.D.Unknown = append(s.D.Unknown, err.Error())
			f = fail(59, "CommandNotFound", "%v", err)
		}
		reply = s.failure(f)
	}
	if key != "" {
		s.D.retried[key] = reply
	}
	if s.Executed != nil && !internal {
		s.Executed(cmd, reply)
	}
	return reply, fault != nil && fault.Drop == "after"
}

func (s *Server) failure(f *Failure) bson.D {
	r := bson.D{{Key: "ok", Value: 0.0}, {Key: "errmsg", Value: f.Msg}, {Key: "code", Value: f.Code}, {Key: "codeName", Value: f.Name}}
	if len(f.Labels) > 0 {
		l := bson.A{}
		for _, x := range f.Labels {
			l = append(l, x)
		}
		r = append(r, bson.E{Key: "errorLabels", Value: l})
	}
	return r
}
