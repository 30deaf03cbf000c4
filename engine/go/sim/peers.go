package sim

import (
	"crypto/sha256"
	"fmt"
	"strings"

	"github.com/ipfs/go-cid"
	"github.com/libp2p/go-libp2p-core/crypto"
	"github.com/libp2p/go-libp2p-core/peer"
	"github.com/multiformats/go-multiaddr"
	"github.com/multiformats/go-multihash"
)

// Peer is an identity with a fixed key.
type Peer struct {
	Name string
	ID   peer.ID
	Priv crypto.PrivKey
}

type detReader struct {
	seed [32]byte
	n    int
	buf  []byte
}

func (r *detReader) Read(p []byte) (int, error) {
	for i := range p {
		if len(r.buf) == 0 {
			h := sha256.Sum256(append(r.seed[:], byte(r.n), byte(r.n>>8)))
			r.n++
			r.buf = h[:]
		}
		p[i] = r.buf[0]
		r.buf = r.buf[1:]
	}
	return len(p), nil
}

// NewPeer makes the identity of a name.
func NewPeer(name string) *Peer {
	r := &detReader{seed: sha256.Sum256([]byte("verif-peer-" + name))}
	priv, _, err := crypto.GenerateEd25519Key(r)
	if err != nil {
		panic(err)
	}
	id, err := peer.IDFromPrivateKey(priv)
	if err != nil {
		panic(err)
	}
	return &Peer{Name: name, ID: id, Priv: priv}
}

// Addr makes a multiaddr from an http port number.
func Addr(n int) multiaddr.Multiaddr {
	return MA(fmt.Sprintf("/ip4/127.0.0.%d/tcp/%d", 1+n%200, 3000+n))
}

// MA parses a multiaddr.
func MA(s string) multiaddr.Multiaddr {
	m, err := multiaddr.NewMultiaddr(s)
	if err != nil {
		panic(err)
	}
	return m
}

// MH is the multihash of a string.
func MH(s string) multihash.Multihash {
	code := uint64(multihash.SHA2_256)
	switch {
	case strings.HasPrefix(s, "id-"): // other hash functions
		code, s = multihash.IDENTITY, s[3:]
	case strings.HasPrefix(s, "s5-"):
		code = multihash.SHA2_512
	}
	m, err := multihash.Sum([]byte(s), code, -1)
	if err != nil {
		panic(err)
	}
	return m
}

// CID is a raw CID of a string.
func CID(s string) cid.Cid { return cid.NewCidV1(cid.Raw, MH(s)) }
