// Package client checks the retrieval client library against scripted gateways and providers.
package client

import (
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtpay"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

type body map[string]interface{}

// handler answers a message; nil bytes drop the connection.
type handler func(m *fcrmessages.FCRMessage) (int, []byte)

// desk is a scripted client access point of a node.
type desk struct {
	srv *httptest.Server
	mu  sync.Mutex
	on  handler
	got []*fcrmessages.FCRMessage
	bad string
}

func newDesk() *desk {
	d := &desk{}
	d.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, err := io.ReadAll(r.Body)
		var m fcrmessages.FCRMessage
		if err == nil {
			err = json.Unmarshal(b, &m)
		}
		d.mu.Lock()
		if err != nil {
			d.bad = fmt.Sprintf("the request is no message: %v: %s", err, b)
		}
		d.got = append(d.got, &m)
		on := d.on
		d.mu.Unlock()
		st, rb := 500, []byte("x")
		if on != nil {
			st, rb = on(&m)
		}
		if rb == nil {
			if c, _, err := w.(http.Hijacker).Hijack(); err == nil {
				c.Close()
			}
			return
		}
		w.WriteHeader(st)
		w.Write(rb)
	}))
	return d
}

func (d *desk) addr() string { return d.srv.Listener.Addr().String() }

func (d *desk) script(on handler) {
	d.mu.Lock()
	d.on, d.got, d.bad = on, nil, ""
	d.mu.Unlock()
}

// requests of these kinds received since the last script (all when no kind is given).
func (d *desk) requests(kinds ...int32) []*fcrmessages.FCRMessage {
	d.mu.Lock()
	defer d.mu.Unlock()
	var r []*fcrmessages.FCRMessage
	for _, m := range d.got {
		ok := len(kinds) == 0
		for _, k := range kinds {
			ok = ok || k == m.GetMessageType()
		}
		if ok {
			r = append(r, m)
		}
	}
	return r
}

// party is a gateway or provider.
type party struct {
	id  *nodeid.NodeID
	key *fcrcrypto.KeyPair
	ver *fcrcrypto.KeyVersion
	reg string // registered, unregistered, or what is wrong with the registration
}

func (p *party) known() bool { return p.reg == "registered" }

// parties makes n of them with different ids.
func parties(rt *rapid.T, what string, n, firstKey int) []*party {
	var r []*party
	for i, b := range rapid.SliceOfNDistinct(vt.ID32(), n, n, func(b []byte) string { return string(b) }).Draw(rt, what) {
		r = append(r, &party{id: vt.Node(b), key: vt.Key(firstKey + i), ver: vt.Ver(uint32(i)), reg: "registered"})
	}
	return r
}

func damagedKey(rt *rapid.T, good string) string {
	return rapid.SampledFrom([]string{"", "00", "zz", good[:len(good)-2], "zz" + good[2:], good + "00"}).Draw(rt, "bad key")
}

// gatewayEntry is the registration of a gateway, damaged as p.reg says.
func gatewayEntry(rt *rapid.T, p *party, wallet *vtpay.Wallet, at string) register.GatewayRegister {
	g := register.GatewayRegister{NodeID: p.id.ToString(), Address: wallet.Addr.String(), RootSigningKey: vt.PubHex(vt.Key(90)), SigningKey: vt.PubHex(p.key), RegionCode: "AU",
		NetworkInfoGateway: "127.0.0.1:1", NetworkInfoProvider: "127.0.0.1:1", NetworkInfoClient: at, NetworkInfoAdmin: "127.0.0.1:1"}
	switch p.reg {
	case "address":
		g.Address = ""
	case "root key":
		g.RootSigningKey = damagedKey(rt, g.RootSigningKey)
	case "key":
		g.SigningKey = damagedKey(rt, g.SigningKey)
	case "region":
		g.RegionCode = ""
	case "gateway":
		g.NetworkInfoGateway = ""
	case "provider":
		g.NetworkInfoProvider = ""
	case "client":
		g.NetworkInfoClient = ""
	case "admin":
		g.NetworkInfoAdmin = ""
	}
	return g
}

func providerEntry(rt *rapid.T, p *party, at string) register.ProviderRegister {
	g := register.ProviderRegister{NodeID: p.id.ToString(), Address: "f0", RootSigningKey: vt.PubHex(vt.Key(91)), SigningKey: vt.PubHex(p.key), RegionCode: "AU",
		NetworkInfoGateway: "127.0.0.1:1", NetworkInfoClient: at, NetworkInfoAdmin: "127.0.0.1:1"}
	switch p.reg {
	case "address":
		g.Address = ""
	case "root key":
		g.RootSigningKey = damagedKey(rt, g.RootSigningKey)
	case "key":
		g.SigningKey = damagedKey(rt, g.SigningKey)
	case "region":
		g.RegionCode = ""
	case "gateway":
		g.NetworkInfoGateway = ""
	case "client":
		g.NetworkInfoClient = ""
	case "admin":
		g.NetworkInfoAdmin = ""
	}
	return g
}

var gatewayFaults = []string{"address", "root key", "key", "region", "gateway", "provider", "client", "admin"}
var providerFaults = []string{"address", "root key", "key", "region", "gateway", "client", "admin"}

// newManager starts a register manager on a register. It is not shut down: that empties the register.
func newManager(reg *vtreg.Server) *fcrregistermgr.FCRRegisterMgr {
	m := fcrregistermgr.NewFCRRegisterMgr(reg.URL(), true, true, time.Hour)
	if err := m.Start(); err != nil {
		panic(err)
	}
	m.Refresh()
	return m
}

type prices struct{ search, offer, topUp *big.Int }

// newClient makes a client library instance.
func newClient(mgr *fcrregistermgr.FCRRegisterMgr, w *vtpay.Wallet, l *vtpay.Lotus, p *prices, ttl int64) *fcrclient.FilecoinRetrievalClient {
	b := fcrclient.CreateSettings()
	b.SetLogging("disabled", "STDOUT", "client")
	b.SetEstablishmentTTL(ttl)
	b.SetBlockchainPrivateKey(vt.Key(1))
	b.SetRetrievalPrivateKey(vt.Key(2), vt.Ver(1))
	if l != nil {
		b.SetWalletPrivateKey(w.Priv)
		b.SetLotusAP(l.URL())
		b.SetLotusAuthToken("t")
	}
	if p != nil {
		b.SetSearchPrice(p.search)
		b.SetOfferPrice(p.offer)
		b.SetTopUpAmount(p.topUp)
	}
	c, err := fcrclient.NewFilecoinRetrievalClient(*b.Build(), mgr)
	if err != nil {
		panic(err)
	}
	return c
}

func js(v interface{}) []byte {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return b
}

// message is a signed message.
func message(kind int32, b []byte, k *fcrcrypto.KeyPair, v *fcrcrypto.KeyVersion) *fcrmessages.FCRMessage {
	m := fcrmessages.CreateFCRMessage(kind, b)
	if err := m.Sign(k, v); err != nil {
		panic(err)
	}
	return m
}

func enc(m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	if err != nil {
		panic(err)
	}
	return m
}

// sealings are the ways an answer's envelope can be wrong.
var sealings = []string{"unsigned", "another key", "altered", "other kind", "broken body"}

// spoil holds the numbers a flaw needs, drawn in advance.
type spoil struct{ at, by int }

func drawSpoil(rt *rapid.T) spoil {
	return spoil{rapid.IntRange(0, 1<<20).Draw(rt, "at"), rapid.IntRange(1, 255).Draw(rt, "by")}
}

// seal signs an answer of the party, spoiling it as the flaw says.
func seal(flaw string, s spoil, p *party, kind int32, b []byte) *fcrmessages.FCRMessage {
	switch flaw {
	case "unsigned":
		return fcrmessages.CreateFCRMessage(kind, b)
	case "another key":
		return message(kind, b, vt.Key(99), p.ver)
	case "altered":
		o := append([]byte{}, b...)
		i := s.at % len(o)
		// another version of the answer was signed: change a byte that keeps the text well formed if there is one near
		for j := 0; j < len(o); j++ {
			k := (i + j) % len(o)
			if o[k] >= '0' && o[k] <= '8' {
				o[k]++
				break
			}
		}
		if string(o) == string(b) {
			o[i] ^= byte(s.by)
		}
		sig := message(kind, o, p.key, p.ver).GetSignature()
		return vtnode.WithSignature(fcrmessages.CreateFCRMessage(kind, b), sig)
	case "other kind":
		ks := []int32{fcrmessages.ClientEstablishmentResponseType, fcrmessages.ClientStandardDiscoverResponseType, fcrmessages.ClientDHTDiscoverResponseType, fcrmessages.ClientStandardDiscoverResponseV2Type, fcrmessages.ClientDHTDiscoverResponseV2Type,
			fcrmessages.ClientStandardDiscoverOfferResponseType, fcrmessages.ClientDHTDiscoverOfferResponseType, fcrmessages.GatewayDHTDiscoverResponseType, fcrmessages.GatewayDHTDiscoverResponseV2Type, fcrmessages.GatewayDHTDiscoverOfferResponseType,
			fcrmessages.ClientDHTOfferAckResponseType, fcrmessages.ProviderPublishDHTOfferRequestType, fcrmessages.ProviderPublishDHTOfferResponseType, fcrmessages.ProtocolChangeRequestType, fcrmessages.InvalidMessageResponseType}
		k := ks[s.at%len(ks)]
		if k == kind {
			k = ks[(s.at+1)%len(ks)]
		}
		return message(k, b, p.key, p.ver)
	case "broken body":
		return message(kind, b[:s.at%len(b)], p.key, p.ver)
	}
	return message(kind, b, p.key, p.ver)
}

// transports are the ways an answer can fail to arrive.
var transports = []string{"status 500", "no message", "closed", "cut"}

func deliver(flaw string, s spoil, m *fcrmessages.FCRMessage) (int, []byte) {
	b := js(m)
	switch flaw {
	case "status 500":
		return 500, b
	case "no message":
		l := []string{"null", "{}", "[]", "true", "hello", "{\"", "{\"message_type\":1}", ""}
		return 200, []byte(l[s.at%len(l)])
	case "closed":
		return 200, nil
	case "cut":
		return 200, b[:s.at%len(b)]
	}
	return 200, b
}

// welcome answers an establishment request genuinely.
func welcome(m *fcrmessages.FCRMessage, p *party) (int, []byte) {
	_, ch, _, err := fcrmessages.DecodeClientEstablishmentRequest(m)
	if err != nil {
		return 400, []byte("bad")
	}
	return 200, js(message(fcrmessages.ClientEstablishmentResponseType, enc(fcrmessages.EncodeClientEstablishmentResponse(p.id, ch)).GetMessageBody(), p.key, p.ver))
}

// numbers of a request.
func nonceOf(m *fcrmessages.FCRMessage) int64 {
	var v struct {
		Nonce int64 `json:"nonce"`
	}
	json.Unmarshal(m.GetMessageBody(), &v)
	return v.Nonce
}

func pieceOf(m *fcrmessages.FCRMessage) string {
	var v struct {
		Piece string `json:"piece_cid"`
	}
	json.Unmarshal(m.GetMessageBody(), &v)
	return strings.ToLower(v.Piece)
}

type registered struct {
	p  *party
	at string
}

func nodes(ps ...*party) []*nodeid.NodeID {
	var r []*nodeid.NodeID
	for _, p := range ps {
		r = append(r, p.id)
	}
	return r
}

// setRegister lists the nodes.
func setRegister(rt *rapid.T, gws []registered, provs []*party, provAt string) {
	var gl []register.GatewayRegister
	for _, g := range gws {
		if g.p.reg != "unregistered" {
			gl = append(gl, gatewayEntry(rt, g.p, gWallet, g.at))
		}
	}
	var pl []register.ProviderRegister
	for _, p := range provs {
		if p.reg != "unregistered" {
			pl = append(pl, providerEntry(rt, p, provAt))
		}
	}
	clientReg.SetGateways(gl...)
	clientReg.SetProviders(pl...)
}
