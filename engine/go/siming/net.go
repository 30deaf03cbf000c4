package siming

import (
	"context"
	"errors"
	"io"
	"sync"
	"time"

	"github.com/filecoin-project/storetheindex/internal/verifmc/mcrt"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/protocol"
)

// Net connects hosts with streams in memory.
type Net struct {
	hosts map[peer.ID]*Host
	// Fault decides about a new stream.
	Fault func(proto protocol.ID) error
	// Points makes every write a scheduling point.
	Points bool
	// Streams opened so far.
	Streams []*Stream
	// Crash is called when a stream handler panics.
	Crash func(v interface{})
}

// NewNet connects the hosts.
func NewNet(hs ...*Host) *Net {
	n := &Net{hosts: map[peer.ID]*Host{}}
	for _, h := range hs {
		n.hosts[h.ID()] = h
		h.Net = n
	}
	return n
}

type pipe struct {
	mu    sync.Mutex
	c     *sync.Cond
	buf   []byte
	eof   bool
	reset bool
}

func newPipe() *pipe {
	p := &pipe{}
	p.c = sync.NewCond(&p.mu)
	return p
}

func (p *pipe) read(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	for {
		switch {
		case p.reset:
			return 0, network.ErrReset
		case len(p.buf) > 0:
			n := copy(b, p.buf)
			p.buf = p.buf[n:]
			return n, nil
		case p.eof:
			return 0, io.EOF
		}
		p.c.Wait()
	}
}

func (p *pipe) write(b []byte) (int, error) {
	p.mu.Lock()
	defer p.mu.Unlock()
	if p.reset {
		return 0, network.ErrReset
	}
	if p.eof {
		return 0, errors.New("write to closed stream")
	}
	p.buf = append(p.buf, b...)
	p.c.Broadcast()
	return len(b), nil
}

func (p *pipe) end(reset bool) {
	p.mu.Lock()
	if reset {
		p.reset = true
	} else {
		p.eof = true
	}
	p.c.Broadcast()
	p.mu.Unlock()
}

// Stream is one end of a stream.
type Stream struct {
	network.Stream
	in, out       *pipe
	local, remote peer.ID
	proto         protocol.ID
	net           *Net
}

// Read implements network.Stream.
func (s *Stream) Read(b []byte) (int, error) { return s.in.read(b) }

// Write implements network.Stream.
func (s *Stream) Write(b []byte) (int, error) {
	if s.net.Points {
		mcrt.Point()
	}
	return s.out.write(b)
}

// Close implements network.Stream.
func (s *Stream) Close() error { s.out.end(false); return nil }

// CloseWrite implements network.Stream.
func (s *Stream) CloseWrite() error { return s.Close() }

// CloseRead implements network.Stream.
func (s *Stream) CloseRead() error { return nil }

// Reset implements network.Stream.
func (s *Stream) Reset() error { s.out.end(true); s.in.end(true); return nil }

// SetDeadline implements network.Stream.
func (s *Stream) SetDeadline(time.Time) error { return nil }

// SetReadDeadline implements network.Stream.
func (s *Stream) SetReadDeadline(time.Time) error { return nil }

// SetWriteDeadline implements network.Stream.
func (s *Stream) SetWriteDeadline(time.Time) error { return nil }

// ID implements network.Stream.
func (s *Stream) ID() string { return "s" }

// Protocol implements network.Stream.
func (s *Stream) Protocol() protocol.ID { return s.proto }

// Conn implements network.Stream.
func (s *Stream) Conn() network.Conn { return &conn{s: s} }

type conn struct {
	network.Conn
	s *Stream
}

// RemotePeer implements network.Conn.
func (c *conn) RemotePeer() peer.ID { return c.s.remote }

// LocalPeer implements network.Conn.
func (c *conn) LocalPeer() peer.ID { return c.s.local }

func (n *Net) open(ctx context.Context, from *Host, to peer.ID, proto protocol.ID) (network.Stream, error) {
	if err := ctx.Err(); err != nil {
		return nil, err
	}
	if n.Fault != nil {
		if err := n.Fault(proto); err != nil {
			return nil, err
		}
	}
	h := n.hosts[to]
	if h == nil {
		return nil, errors.New("no such peer")
	}
	f := h.Handlers[proto]
	if f == nil {
		return nil, errors.New("protocol not supported")
	}
	a, b := newPipe(), newPipe()
	l := &Stream{in: a, out: b, local: from.ID(), remote: to, proto: proto, net: n}
	r := &Stream{in: b, out: a, local: to, remote: from.ID(), proto: proto, net: n}
	n.Streams = append(n.Streams, l)
	go func() {
		defer func() {
			if v := recover(); v != nil {
				if n.Crash == nil {
					panic(v)
				}
				r.Reset()
				n.Crash(v)
			}
		}()
		f(r)
	}()
	return l, nil
}
