// Package siming is the simulated environment of the ingestion harnesses: a
// libp2p host without network, publishers behind HTTP, and the index.
package siming

import (
	"context"
	"errors"
	"time"

	"github.com/libp2p/go-eventbus"
	"github.com/libp2p/go-libp2p-core/connmgr"
	"github.com/libp2p/go-libp2p-core/event"
	"github.com/libp2p/go-libp2p-core/host"
	"github.com/libp2p/go-libp2p-core/network"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/libp2p/go-libp2p-core/peerstore"
	"github.com/libp2p/go-libp2p-core/protocol"
	"github.com/libp2p/go-libp2p-peerstore/pstoremem"
	"github.com/multiformats/go-multiaddr"

	"github.com/filecoin-project/storetheindex/internal/verifmc/sim"
)

// Host is a host with no connections.
type Host struct {
	host.Host
	id       *sim.Peer
	ps       peerstore.Peerstore
	bus      event.Bus
	net      *noNet
	Handlers map[protocol.ID]network.StreamHandler
	Net      *Net
	// Connects are the peers that connections were asked for.
	Connects []peer.ID
	// Where are the addresses given for them.
	Where map[peer.ID][]multiaddr.Multiaddr
	// Slow is how long the connection manager takes.
	Slow time.Duration
}

// NewHost makes a host.
func NewHost(p *sim.Peer) *Host {
	ps, err := pstoremem.NewPeerstore()
	if err != nil {
		panic(err)
	}
	if err = ps.AddPrivKey(p.ID, p.Priv); err != nil {
		panic(err)
	}
	if err = ps.AddPubKey(p.ID, p.Priv.GetPublic()); err != nil {
		panic(err)
	}
	h := &Host{id: p, ps: ps, bus: eventbus.NewBus(), Handlers: map[protocol.ID]network.StreamHandler{}, Where: map[peer.ID][]multiaddr.Multiaddr{}}
	h.net = &noNet{h: h}
	return h
}

var errNoNet = errors.New("no libp2p network in this world")

// ID implements host.Host.
func (h *Host) ID() peer.ID { return h.id.ID }

// Peerstore implements host.Host.
func (h *Host) Peerstore() peerstore.Peerstore { return h.ps }

// Addrs implements host.Host.
func (h *Host) Addrs() []multiaddr.Multiaddr { return nil }

// Network implements host.Host.
func (h *Host) Network() network.Network { return h.net }

// Connect implements host.Host.
func (h *Host) Connect(_ context.Context, p peer.AddrInfo) error {
	h.Connects = append(h.Connects, p.ID)
	h.Where[p.ID] = append(h.Where[p.ID], p.Addrs...)
	if h.Net != nil && h.Net.hosts[p.ID] != nil {
		return nil
	}
	return errNoNet
}

// SetStreamHandler implements host.Host.
func (h *Host) SetStreamHandler(p protocol.ID, f network.StreamHandler) { h.Handlers[p] = f }

// SetStreamHandlerMatch implements host.Host.
func (h *Host) SetStreamHandlerMatch(p protocol.ID, _ func(string) bool, f network.StreamHandler) {
	h.Handlers[p] = f
}

// RemoveStreamHandler implements host.Host.
func (h *Host) RemoveStreamHandler(p protocol.ID) { delete(h.Handlers, p) }

// NewStream implements host.Host.
func (h *Host) NewStream(ctx context.Context, p peer.ID, protos ...protocol.ID) (network.Stream, error) {
	if h.Net != nil {
		return h.Net.open(ctx, h, p, protos[0])
	}
	return nil, errNoNet
}

// Close implements host.Host.
func (h *Host) Close() error { return nil }

// ConnManager implements host.Host.
func (h *Host) ConnManager() connmgr.ConnManager {
	if h.Slow != 0 {
		time.Sleep(h.Slow)
	}
	return connmgr.NullConnMgr{}
}

// EventBus implements host.Host.
func (h *Host) EventBus() event.Bus { return h.bus }

type noNet struct {
	network.Network
	h *Host
}

func (n *noNet) Peerstore() peerstore.Peerstore              { return n.h.ps }
func (n *noNet) LocalPeer() peer.ID                          { return n.h.ID() }
func (n *noNet) Notify(network.Notifiee)                     {}
func (n *noNet) StopNotify(network.Notifiee)                 {}
func (n *noNet) Peers() []peer.ID                            { return nil }
func (n *noNet) Conns() []network.Conn                       { return nil }
func (n *noNet) ConnsToPeer(peer.ID) []network.Conn          { return nil }
func (n *noNet) Connectedness(peer.ID) network.Connectedness { return network.NotConnected }
func (n *noNet) ClosePeer(peer.ID) error                     { return nil }
func (n *noNet) ListenAddresses() []multiaddr.Multiaddr      { return nil }
func (n *noNet) DialPeer(context.Context, peer.ID) (network.Conn, error) {
	return nil, errNoNet
}
func (n *noNet) NewStream(context.Context, peer.ID) (network.Stream, error) { return nil, errNoNet }
func (n *noNet) Close() error                                               { return nil }
