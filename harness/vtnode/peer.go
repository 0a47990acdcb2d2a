package vtnode

import (
	"net"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtpay"
)

// Reply is what a stand-in node does with a request.
type Reply struct {
	Msg   *fcrmessages.FCRMessage // sent if not nil
	Raw   []byte                  // sent instead if not nil
	Close bool                    // close the connection afterwards
}

// Fake is a stand-in for a gateway or provider, as seen by another node.
type Fake struct {
	ID     *nodeid.NodeID
	Key    *fcrcrypto.KeyPair
	Ver    *fcrcrypto.KeyVersion
	Wallet *vtpay.Wallet
	Addr   string

	mu    sync.Mutex
	l     net.Listener
	conns map[net.Conn]bool
	on    func(*fcrmessages.FCRMessage) Reply
	reqs  []*fcrmessages.FCRMessage
	drops int
}

// NewFake starts a stand-in.
func NewFake(id *nodeid.NodeID, key *fcrcrypto.KeyPair, w *vtpay.Wallet, on func(*fcrmessages.FCRMessage) Reply) *Fake {
	// a port that no other stand-in had before: nodes remember addresses
	var l net.Listener
	var err error
	for i := 0; i < 20; i++ {
		if l, err = net.Listen("tcp", "127.0.0.1:"+vt.Port()); err == nil {
			break
		}
	}
	if err != nil {
		vt.Infra("%v", err)
	}
	f := &Fake{ID: id, Key: key, Ver: vt.Ver(1), Wallet: w, Addr: l.Addr().String(), l: l, conns: map[net.Conn]bool{}, on: on}
	go f.accept()
	return f
}

// On changes the stand-in's behaviour.
func (f *Fake) On(on func(*fcrmessages.FCRMessage) Reply) {
	f.mu.Lock()
	defer f.mu.Unlock()
	f.on = on
}

func (f *Fake) accept() {
	for {
		c, err := f.l.Accept()
		if err != nil {
			return
		}
		f.mu.Lock()
		f.conns[c] = true
		f.mu.Unlock()
		go f.serve(c)
	}
}

func (f *Fake) serve(c net.Conn) {
	defer func() {
		c.Close()
		f.mu.Lock()
		delete(f.conns, c)
		f.drops++
		f.mu.Unlock()
	}()
	for {
		m, err := ReadFrame(c)
		if err != nil {
			return
		}
		f.mu.Lock()
		f.reqs = append(f.reqs, m)
		on := f.on
		f.mu.Unlock()
		if on == nil {
			continue
		}
		r := on(m)
		c.SetWriteDeadline(time.Now().Add(vt.Hang))
		if r.Raw != nil {
			if _, err := c.Write(r.Raw); err != nil {
				return
			}
		} else if r.Msg != nil {
			if _, err := c.Write(Frame(r.Msg)); err != nil {
				return
			}
		}
		if r.Close {
			return
		}
	}
}

// Requests the stand-in received.
func (f *Fake) Requests() []*fcrmessages.FCRMessage {
	f.mu.Lock()
	defer f.mu.Unlock()
	return append([]*fcrmessages.FCRMessage{}, f.reqs...)
}

// Drops is the number of connections that have ended.
func (f *Fake) Drops() int {
	f.mu.Lock()
	defer f.mu.Unlock()
	return f.drops
}

// Close ends the stand-in; its port refuses connections from then on.
func (f *Fake) Close() {
	f.l.Close()
	f.mu.Lock()
	defer f.mu.Unlock()
	for c := range f.conns {
		c.Close()
	}
}

// Sign signs a message as the stand-in.
func (f *Fake) Sign(m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	if err != nil {
		panic(err)
	}
	if err := m.Sign(f.Key, f.Ver); err != nil {
		panic(err)
	}
	return m
}

func (f *Fake) address() string {
	if f.Wallet == nil {
		return "f0"
	}
	return f.Wallet.Addr.String()
}

// Gateway is the stand-in's register entry as a gateway.
func (f *Fake) Gateway() register.GatewayRegister {
	return register.GatewayRegister{NodeID: f.ID.ToString(), Address: f.address(), RootSigningKey: vt.PubHex(f.Key), SigningKey: vt.PubHex(f.Key), RegionCode: "AU",
		NetworkInfoGateway: f.Addr, NetworkInfoProvider: f.Addr, NetworkInfoClient: f.Addr, NetworkInfoAdmin: f.Addr}
}

// Provider is the stand-in's register entry as a provider.
func (f *Fake) Provider() register.ProviderRegister {
	return register.ProviderRegister{NodeID: f.ID.ToString(), Address: f.address(), RootSigningKey: vt.PubHex(f.Key), SigningKey: vt.PubHex(f.Key), RegionCode: "AU",
		NetworkInfoGateway: f.Addr, NetworkInfoClient: f.Addr, NetworkInfoAdmin: f.Addr}
}
