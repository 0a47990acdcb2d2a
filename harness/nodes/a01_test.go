package nodes

import (
	"encoding/hex"
	"encoding/json"
	"math/big"
	"os"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	ga "github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/api/adminapi"
	pa "github.com/ConsenSys/fc-retrieval/provider-admin/pkg/api/adminapi"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtpay"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

// admWorld is a node started without an identity.
type admWorld struct {
	*vtnode.Node
	reg      *vtreg.Server
	lotus    *vtpay.Lotus
	rich     *vtpay.Wallet
	wallets  []*vtpay.Wallet
	lanes    uint64
	purses   map[int]*vtpay.Purse
	gw, pv   []*vtnode.Fake
	entry    register.GatewayRegister // the node's, as registered
	nonce    int64
	wallet   int // -1: none
	gapi     ga.AdminApi
	papi     pa.AdminApi
	adm      *fcrcrypto.KeyPair
	av       *fcrcrypto.KeyVersion
	seen     map[*vtnode.Fake]int
	isGW     bool
	accepted int
}

func blank(kind string, providers int) *admWorld {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	w := &admWorld{reg: vtreg.New(), rich: vtpay.NewWallet(1), wallet: -1, isGW: kind == "gateway", purses: map[int]*vtpay.Purse{}, seen: map[*vtnode.Fake]int{}, gapi: ga.NewAdminApi(), papi: pa.NewAdminApi(),
		adm: vt.Key(40 + shard), av: vt.Ver(uint32(shard))}
	w.lotus = vtpay.NewLotus(w.rich)
	for i := 0; i < 3; i++ {
		w.wallets = append(w.wallets, vtpay.NewWallet(5+i))
		w.lotus.Know(w.wallets[i])
	}
	for i := 0; i < 2; i++ {
		f := vtnode.NewFake(vt.Node(unique(byte(100*i))), vt.Key(510+i), nil, nil)
		f.On(func(m *fcrmessages.FCRMessage) vtnode.Reply { return w.gatewaySays(f, m) })
		w.gw = append(w.gw, f)
	}
	for i := 0; i < providers; i++ {
		p := vtnode.NewFake(vt.Node(unique(byte(100*i+50))), vt.Key(520+i), nil, nil)
		p.On(func(m *fcrmessages.FCRMessage) vtnode.Reply { return vtnode.Reply{Close: true} })
		w.pv = append(w.pv, p)
	}
	w.relist()
	w.Node = vtnode.Start(kind, w.reg, vtnode.Config{SearchPrice: 3, OfferPrice: 5, Topup: 100})
	return w
}

func (w *admWorld) close() {
	w.Stop()
	for _, f := range append(append([]*vtnode.Fake{}, w.gw...), w.pv...) {
		f.Close()
	}
	w.lotus.Close()
	w.reg.Close()
}

// gatewaySays acknowledges the publications of the provider under administration.
func (w *admWorld) gatewaySays(f *vtnode.Fake, m *fcrmessages.FCRMessage) vtnode.Reply {
	var nonce int64
	var dig string
	sig, err := fcrcrypto.SignMessage(f.Key, f.Ver, m.GetMessageBody())
	if err != nil {
		panic(err)
	}
	switch m.GetMessageType() {
	case fcrmessages.ProviderPublishDHTOfferRequestType:
		_, nonce, _, _ = fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
		return vtnode.Reply{Msg: f.Sign(fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig))}
	case fcrmessages.ProviderPublishGroupOfferRequestType:
		_, _, o, err := fcrmessages.DecodeProviderPublishGroupOfferRequest(m)
		if err != nil {
			return vtnode.Reply{Close: true}
		}
		dig = digest(o)
		return vtnode.Reply{Msg: f.Sign(fcrmessages.EncodeProviderPublishGroupOfferResponse(*f.ID, dig))}
	}
	return vtnode.Reply{Close: true}
}

// fresh returns the next message of a kind that a stand-in receives.
func (w *admWorld) fresh(t vtnode.T, f *vtnode.Fake, kind int32) *fcrmessages.FCRMessage {
	deadline := time.Now().Add(vt.Hang)
	for {
		l := f.Requests()
		for w.seen[f] < len(l) {
			m := l[w.seen[f]]
			w.seen[f]++
			if m.GetMessageType() == kind {
				return m
			}
		}
		if time.Now().After(deadline) {
			t.Fatalf("no message of type %d is sent to node %s\n%s", kind, f.ID.ToString(), w.Tail())
		}
		w.Alive(t)
		time.Sleep(2 * time.Millisecond)
	}
}

// skip ignores what the stand-ins received so far.
func (w *admWorld) skip() {
	for _, f := range append(append([]*vtnode.Fake{}, w.gw...), w.pv...) {
		w.seen[f] = len(f.Requests())
	}
}

// registrar is the register entry an administrator uses for the node.
func (w *admWorld) registrar(id *nodeid.NodeID, key *fcrcrypto.KeyPair) (*register.GatewayRegister, *register.ProviderRegister) {
	g := &register.GatewayRegister{NodeID: id.ToString(), Address: "f0", RootSigningKey: vt.PubHex(key), SigningKey: vt.PubHex(key), RegionCode: "AU",
		NetworkInfoGateway: "127.0.0.1:" + w.Peer, NetworkInfoProvider: "127.0.0.1:" + w.Prov, NetworkInfoClient: "127.0.0.1:" + w.Client, NetworkInfoAdmin: "127.0.0.1:" + w.Admin}
	p := &register.ProviderRegister{NodeID: g.NodeID, Address: "f0", RootSigningKey: g.SigningKey, SigningKey: g.SigningKey, RegionCode: "AU",
		NetworkInfoGateway: g.NetworkInfoGateway, NetworkInfoClient: g.NetworkInfoClient, NetworkInfoAdmin: g.NetworkInfoAdmin}
	return g, p
}

// want wants a message to be signed with the node's key, and the signature to carry the key's version.
func (w *admWorld) want(t vtnode.T, m *fcrmessages.FCRMessage, what string) {
	if err := m.Verify(vt.Pub(w.Key)); err != nil {
		t.Fatalf("%s is not signed with the key of the last initialisation: %v", what, err)
	}
	v, err := fcrcrypto.ExtractKeyVersionFromMessage(m.GetSignature())
	if err != nil || v.EncodeKeyVersion() != w.Ver.EncodeKeyVersion() {
		t.Fatalf("%s is signed with key version %v (%v), the last initialisation gave %d", what, v, err, w.Ver.EncodeKeyVersion())
	}
}

// requests of every kind that a node without identity has to refuse
func (w *admWorld) request(rt *rapid.T) (string, string, *fcrmessages.FCRMessage, bool) {
	p := vt.CID(vt.ID32().Draw(rt, "piece"))
	mk := func(port, name string, m *fcrmessages.FCRMessage, err error) (string, string, *fcrmessages.FCRMessage, bool) {
		if err != nil {
			panic(err)
		}
		return port, name, m, false
	}
	g, pv := w.gw[rapid.IntRange(0, 1).Draw(rt, "gateway")], w.pv[rapid.IntRange(0, 1).Draw(rt, "provider")]
	if !w.isGW {
		switch rapid.IntRange(0, 7).Draw(rt, "request") {
		case 0:
			m, err := fcrmessages.EncodeClientDHTOfferAckRequest(p, g.ID)
			return mk(w.Client, "evidence", m, err)
		case 1:
			m, err := fcrmessages.EncodeProviderAdminGetPublishedOfferRequest([]nodeid.NodeID{*g.ID})
			return mk(w.Admin, "listing", m, err)
		case 2:
			m, err := fcrmessages.EncodeProviderAdminPublishDHTOfferRequest([]cid.ContentID{*p}, []uint64{1}, []int64{ttl()}, []uint64{1})
			return mk(w.Admin, "publish", m, err)
		case 3:
			m, err := fcrmessages.EncodeProviderAdminPublishGroupOfferRequest([]cid.ContentID{*p, *vt.CID(unique())}, 1, ttl(), 1)
			return mk(w.Admin, "publish group", m, err)
		case 4:
			m, err := fcrmessages.EncodeProviderAdminForceRefreshRequest(true)
			return mk(w.Admin, "refresh", m, err)
		case 5, 6:
			m := g.Sign(fcrmessages.EncodeGatewayListDHTOfferRequest(g.ID, vt.CID(make([]byte, 32)), p, "b", "t", "r", someProof))
			return w.Peer, "list", m, true
		default:
			m := g.Sign(fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(g.ID, true))
			return w.Peer, "notify", m, true
		}
	}
	ch, v := "", ""
	if rapid.Bool().Draw(rt, "with payment") {
		w.lanes++
		ch, v = w.purse(0).Lane(w.lanes).Pay(big.NewInt(1000))
	}
	switch rapid.IntRange(0, 16).Draw(rt, "request") {
	case 0:
		m, err := fcrmessages.EncodeClientEstablishmentRequest(vt.Node(unique()), "challenge", ttl())
		return mk(w.Client, "establishment", m, err)
	case 1:
		m, err := fcrmessages.EncodeClientStandardDiscoverRequest(p, 1, ttl(), ch, v)
		return mk(w.Client, "search", m, err)
	case 2:
		m, err := fcrmessages.EncodeClientStandardDiscoverRequestV2(p, 1, ttl(), ch, v)
		return mk(w.Client, "paid search", m, err)
	case 3:
		m, err := fcrmessages.EncodeClientStandardDiscoverOfferRequest(p, 1, ttl(), []string{strings.Repeat("ab", 32)}, ch, v)
		return mk(w.Client, "purchase", m, err)
	case 4:
		m, err := fcrmessages.EncodeClientDHTDiscoverRequest(p, 1, ttl(), int64(rapid.IntRange(0, 3).Draw(rt, "number")), false, ch, v)
		return mk(w.Client, "DHT search", m, err)
	case 5:
		m, err := fcrmessages.EncodeClientDHTDiscoverRequestV2(p, 1, ttl(), int64(rapid.IntRange(0, 3).Draw(rt, "number")), false, ch, v)
		return mk(w.Client, "paid DHT search", m, err)
	case 6:
		m, err := fcrmessages.EncodeClientDHTDiscoverOfferRequest(p, 1, [][]string{{strings.Repeat("ab", 32)}}, []nodeid.NodeID{*g.ID}, ch, v)
		return mk(w.Client, "DHT purchase", m, err)
	case 7:
		m, err := fcrmessages.EncodeGatewayAdminGetReputationRequest(vt.Node(unique()))
		return mk(w.Admin, "get reputation", m, err)
	case 8:
		m, err := fcrmessages.EncodeGatewayAdminSetReputationRequest(vt.Node(unique()), 5)
		return mk(w.Admin, "set reputation", m, err)
	case 9:
		m, err := fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)
		return mk(w.Admin, "refresh", m, err)
	case 10:
		m, err := fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)
		return mk(w.Admin, "list", m, err)
	case 11:
		m, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(vt.Node(unique()), []nodeid.NodeID{*pv.ID})
		return mk(w.Admin, "group offers", m, err)
	case 12:
		return w.Peer, "peer search", g.Sign(fcrmessages.EncodeGatewayDHTDiscoverRequest(g.ID, p, 1, ttl(), ch, v)), true
	case 13:
		return w.Peer, "paid peer search", g.Sign(fcrmessages.EncodeGatewayDHTDiscoverRequestV2(g.ID, p, 1, ttl(), ch, v)), true
	case 14:
		return w.Peer, "peer purchase", g.Sign(fcrmessages.EncodeGatewayDHTDiscoverOfferRequest(p, 1, []string{strings.Repeat("ab", 32)}, ch, v)), true
	case 15:
		o := vt.Offer(pv.Key, pv.Ver, pv.ID, []cid.ContentID{*p}, 1, ttl(), 1)
		return w.Prov, "publication", pv.Sign(fcrmessages.EncodeProviderPublishDHTOfferRequest(pv.ID, 1, []cidoffer.CIDOffer{*o})), true
	default:
		o := vt.Offer(pv.Key, pv.Ver, pv.ID, []cid.ContentID{*p, *vt.CID(unique())}, 1, ttl(), 1)
		return w.Prov, "group publication", pv.Sign(fcrmessages.EncodeProviderPublishGroupOfferRequest(pv.ID, 1, o)), true
	}
}

// refuse sends a request to a node without identity.
func (w *admWorld) refuse(rt *rapid.T) string {
	port, name, m, peer := w.request(rt)
	if peer {
		if r := w.Ask(rt, port, m); r != nil && !vtnode.IsInvalid(r) {
			rt.Fatalf("a %s that was never initialised answers a %s request: type %d: %s", w.Kind, name, r.GetMessageType(), r.GetMessageBody())
		}
	} else if r, st := w.Post(rt, port, m); st < 400 {
		s := "nothing"
		if r != nil {
			s = string(r.GetMessageBody())
		}
		rt.Fatalf("a %s that was never initialised answers a %s request with status %d: %s", w.Kind, name, st, s)
	} else if st >= 500 { // a refusal, not a crash
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		sane(rt, w.Node, port, b)
	}
	time.Sleep(2 * time.Millisecond)
	w.Alive(rt)
	return name
}

func (w *admWorld) purse(i int) *vtpay.Purse {
	if w.purses[i] == nil {
		w.purses[i] = vtpay.NewPurse(w.lotus, w.rich, w.wallets[i])
	}
	return w.purses[i]
}

// initialise tries to give the node an identity; how it can fail is generated.
func (w *admWorld) initialise(rt *rapid.T, c *vt.Case, id *nodeid.NodeID, good bool) {
	key, ver := vt.Key(rapid.IntRange(50, 58).Draw(rt, "key")), vt.Ver(rapid.Uint32().Draw(rt, "key version"))
	g, p := w.registrar(id, key)
	v2 := rapid.Bool().Draw(rt, "with wallet")
	wi := rapid.IntRange(0, len(w.wallets)-1).Draw(rt, "wallet")
	wal, ap := w.wallets[wi].Priv, w.lotus.URL()
	vtnode.Secrets(key, w.wallets[wi])
	if !good {
		// a message that no library would send, or a wallet that cannot be used
		var m *fcrmessages.FCRMessage
		var err error
		kinds := []string{"key", "short key", "no key", "id", "long id", "json"}
		if v2 {
			kinds = append(kinds, "wallet", "long wallet", "access point")
		}
		bad := rapid.SampledFrom(kinds).Draw(rt, "what is wrong")
		switch bad {
		case "wallet":
			wal = rapid.SampledFrom([]string{"zz", wal + "0", "nothex!" + wal}).Draw(rt, "bad wallet")
		case "long wallet":
			wal = wal + "00"
		case "access point":
			ap = rapid.SampledFrom([]string{"", "nonsense", "ftp://127.0.0.1:1"}).Draw(rt, "bad access point")
		}
		switch {
		case w.isGW && v2:
			m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(id, key, ver, wal, ap, vtnode.Token)
		case w.isGW:
			m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(id, key, ver)
		case v2:
			m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(id, key, ver, wal, ap, vtnode.Token)
		default:
			m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequest(id, key, ver)
		}
		if err != nil {
			panic(err)
		}
		b := string(m.GetMessageBody())
		repl := func(old, new string) {
			if !strings.Contains(b, `"`+old+`"`) {
				panic("no " + old + " in " + b)
			}
			b = strings.Replace(b, `"`+old+`"`, `"`+new+`"`, 1)
		}
		k := key.EncodePrivateKey()
		switch bad {
		case "key":
			repl(k, "01"+strings.Repeat(rapid.SampledFrom([]string{"00", "ff"}).Draw(rt, "scalar"), 32))
		case "short key":
			repl(k, k[:rapid.IntRange(0, len(k)-1).Draw(rt, "key length")])
		case "no key":
			repl(k, "")
		case "id":
			repl(id.ToString(), "zz")
		case "long id":
			repl(id.ToString(), id.ToString()+strings.Repeat("00", 33))
		case "json":
			b = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "length")]
		}
		r, st := w.Post(rt, w.Admin, fcrmessages.CreateFCRMessage(m.GetMessageType(), []byte(b)))
		if st < 400 || r != nil {
			// nothing says that a wallet must be checked at once; what is accepted must be in use
			if bad != "wallet" && bad != "long wallet" && bad != "access point" {
				rt.Fatalf("an initialisation with a bad %s gives status %d", bad, st)
			}
			w.Ver, w.Key, w.ID, w.wallet = ver, key, id, -1
			c.Class("accepted: " + bad)
		} else {
			c.Class("refused: " + bad)
		}
		c.Addf("bad %s;", bad)
		return
	}
	var err error
	switch {
	case w.isGW && v2:
		err = w.gapi.RequestInitialiseKeyV2(g, key, ver, w.adm, w.av, wal, ap, vtnode.Token)
	case w.isGW:
		err = w.gapi.RequestInitialiseKey(g, key, ver, w.adm, w.av)
	case v2:
		err = w.papi.RequestInitialiseKeyV2(p, key, ver, w.adm, w.av, wal, ap, vtnode.Token)
	default:
		err = w.papi.RequestInitialiseKey(p, key, ver, w.adm, w.av)
	}
	if err != nil {
		rt.Fatalf("initialisation fails: %v\n%s", err, w.Tail())
	}
	first := w.ID == nil
	w.ID, w.Key, w.Ver = id, key, ver
	if first { // its first look at the register may not be over yet
		w.Refresh(rt)
	}
	if v2 {
		w.wallet = wi
	}
	c.Addf("init %v;", v2)
	c.Class(map[bool]string{true: "initialised with wallet", false: "initialised"}[v2])
	if w.isGW {
		w.entry = *g
		w.relist()
	}
}

// relist puts the nodes' present entries into the register.
func (w *admWorld) relist() {
	gs := []register.GatewayRegister{w.gw[0].Gateway(), w.gw[1].Gateway()}
	if w.isGW && w.entry.NodeID != "" {
		gs = append(gs, w.entry)
	}
	w.reg.SetGateways(gs...)
	var ps []register.ProviderRegister
	for _, p := range w.pv {
		ps = append(ps, p.Provider())
	}
	w.reg.SetProviders(ps...)
}

// rekeyed gives a peer a new key in the register; refresh makes the node read the register, and
// from then on the node takes the peer's new key and no longer the old one.
func (w *admWorld) rekeyed(rt *rapid.T, f *vtnode.Fake, refresh func(), port string, ask func() *fcrmessages.FCRMessage) {
	old := f.Key
	f.Key = vt.Key(600 + rapid.IntRange(0, 5).Draw(rt, "new key"))
	if vt.PubHex(f.Key) == vt.PubHex(old) {
		f.Key = vt.Key(606)
	}
	w.relist()
	refresh()
	if r := w.Ask(rt, port, ask()); vtnode.IsInvalid(r) {
		rt.Fatalf("after a forced refresh, the new key of %s is not known", f.ID.ToString())
	}
	now := f.Key
	f.Key = old
	m := ask()
	f.Key = now
	if r := w.Ask(rt, port, m); !vtnode.IsInvalid(r) {
		rt.Fatalf("after a forced refresh, the former key of %s still counts", f.ID.ToString())
	}
}

// probe wants the node to behave as the identity of its last initialisation in one respect.
func (w *admWorld) probe(rt *rapid.T, c *vt.Case) {
	g, p := w.registrar(w.ID, w.Key)
	og, op := w.registrar(w.ID, vt.Key(59))
	me := w.ID.ToString()
	w.skip()
	if !w.isGW {
		switch k := rapid.IntRange(0, 4).Draw(rt, "probe"); k {
		case 0:
			c.Class("refresh")
			f := w.gw[rapid.IntRange(0, 1).Draw(rt, "peer")]
			w.rekeyed(rt, f, func() {
				if err := w.papi.RequestForceRefresh(p, w.adm, w.av); err != nil {
					rt.Fatalf("refresh fails: %v", err)
				}
			}, w.Peer, func() *fcrmessages.FCRMessage {
				return f.Sign(fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(f.ID, true))
			})
			if err := w.papi.RequestForceRefresh(op, w.adm, w.av); err == nil {
				rt.Fatalf("a refresh of a node with another key is reported successful")
			}
			m, err := fcrmessages.EncodeProviderAdminForceRefreshRequest(false)
			r := w.Signed(rt, w.Admin, m, err)
			w.want(rt, r, "the refresh response")
			if done, err := fcrmessages.DecodeProviderAdminForceRefreshResponse(r); err != nil || done {
				rt.Fatalf("a request not to refresh is answered %v %v", done, err)
			}
		case 1, 2:
			x := vt.CID(freshID(rt, "piece"))
			price, qos, exp := vt.Uint64().Draw(rt, "price"), vt.Uint64().Draw(rt, "qos"), ttl()
			var os []cidoffer.CIDOffer
			kind := fcrmessages.ProviderPublishDHTOfferRequestType
			var err error
			if group := k == 2; group {
				c.Class("publish group")
				kind = fcrmessages.ProviderPublishGroupOfferRequestType
				// both stand-ins take group offers
				for _, f := range w.gw {
					w.Ask(rt, w.Peer, f.Sign(fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(f.ID, true)))
				}
				err = w.papi.RequestPublishGroupOffer(p, []cid.ContentID{*x, *vt.CID(unique())}, price, exp, qos, w.adm, w.av)
			} else {
				c.Class("publish")
				err = w.papi.RequestPublishDHTOffer(p, []cid.ContentID{*x}, []uint64{price}, []int64{exp}, []uint64{qos}, w.adm, w.av)
			}
			if err != nil {
				rt.Fatalf("publication fails: %v\n%s", err, w.Tail())
			}
			for _, f := range w.gw {
				m := w.fresh(rt, f, int32(kind))
				w.want(rt, m, "a publication")
				var id *nodeid.NodeID
				if k == 2 {
					var o *cidoffer.CIDOffer
					id, _, o, err = fcrmessages.DecodeProviderPublishGroupOfferRequest(m)
					if err == nil {
						os = []cidoffer.CIDOffer{*o}
					}
				} else {
					id, _, os, err = fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
				}
				if err != nil || len(os) != 1 {
					rt.Fatalf("the publication cannot be read: %v", err)
				}
				o := &os[0]
				if id.ToString() != me || o.GetProviderID().ToString() != me {
					rt.Fatalf("a publication of provider %s names %s and %s", me, id.ToString(), o.GetProviderID().ToString())
				}
				if err := o.Verify(vt.Pub(w.Key)); err != nil {
					rt.Fatalf("a published offer is not signed with the provider's key: %v", err)
				}
				if o.GetPrice() != price || o.GetQoS() != qos || o.GetExpiry() != exp || o.GetCIDs()[0].ToString() != x.ToString() {
					rt.Fatalf("asked to publish %s %d %d %d, published %s", x.ToString(), price, exp, qos, offerTerms(o, x))
				}
			}
			// what is published is listed once it is acknowledged
			deadline := time.Now().Add(vt.Hang)
			for {
				found, l, err := w.papi.RequestGetPublishedOffer(p, nil, w.adm, w.av)
				if err != nil {
					rt.Fatalf("the listing fails: %v", err)
				}
				if found != (len(l) > 0) {
					rt.Fatalf("found is %v with %d offers", found, len(l))
				}
				has := false
				for i := range l {
					has = has || digest(&l[i]) == digest(&os[0])
				}
				if has {
					break
				}
				if time.Now().After(deadline) {
					rt.Fatalf("the acknowledged offer is not among the %d listed", len(l))
				}
				time.Sleep(5 * time.Millisecond)
			}
		case 3:
			c.Class("evidence")
			m, err := fcrmessages.EncodeClientDHTOfferAckRequest(vt.CID(unique()), w.gw[0].ID)
			w.want(rt, w.Signed(rt, w.Client, m, err), "the evidence response")
		default:
			c.Class("list")
			r := w.Ask(rt, w.Peer, w.gw[0].Sign(fcrmessages.EncodeGatewayListDHTOfferRequest(w.gw[0].ID, vt.CID(make([]byte, 32)), vt.CID(unique(255)), "b", "t", "r", someProof)))
			if vtnode.IsInvalid(r) {
				rt.Fatalf("a registered gateway's list request is refused")
			}
			w.want(rt, r, "the list of publications")
		}
		return
	}
	switch rapid.IntRange(0, 8).Draw(rt, "probe") {
	case 0:
		c.Class("refresh")
		refresh := func() {
			if err := w.gapi.RequestForceRefresh(g, w.adm, w.av); err != nil {
				rt.Fatalf("refresh fails: %v", err)
			}
		}
		if f := w.gw[rapid.IntRange(0, 1).Draw(rt, "peer")]; rapid.Bool().Draw(rt, "gateway") {
			w.rekeyed(rt, f, refresh, w.Peer, func() *fcrmessages.FCRMessage {
				return f.Sign(fcrmessages.EncodeGatewayDHTDiscoverRequest(f.ID, vt.CID(unique()), 1, ttl(), "", ""))
			})
		} else {
			f := w.pv[rapid.IntRange(0, 1).Draw(rt, "provider")]
			w.rekeyed(rt, f, refresh, w.Prov, func() *fcrmessages.FCRMessage {
				o := vt.Offer(f.Key, f.Ver, f.ID, []cid.ContentID{*vt.CID(unique())}, 1, ttl(), 1)
				return f.Sign(fcrmessages.EncodeProviderPublishDHTOfferRequest(f.ID, 1, []cidoffer.CIDOffer{*o}))
			})
		}
		if err := w.gapi.RequestForceRefresh(og, w.adm, w.av); err == nil {
			rt.Fatalf("a refresh of a node with another key is reported successful")
		}
		m, err := fcrmessages.EncodeGatewayAdminForceRefreshRequest(false)
		r := w.Signed(rt, w.Admin, m, err)
		w.want(rt, r, "the refresh response")
		if done, err := fcrmessages.DecodeGatewayAdminForceRefreshResponse(r); err != nil || done {
			rt.Fatalf("a request not to refresh is answered %v %v", done, err)
		}
	case 1:
		c.Class("establishment")
		ch := hex.EncodeToString(unique())
		m, err := fcrmessages.EncodeClientEstablishmentRequest(vt.Node(unique()), ch, ttl())
		r := w.Signed(rt, w.Client, m, err)
		w.want(rt, r, "the establishment response")
		id, got, err := fcrmessages.DecodeClientEstablishmentResponse(r)
		if err != nil || id.ToString() != me || got != ch {
			rt.Fatalf("the establishment response of gateway %s to %s: %v %s %v", me, ch, id, got, err)
		}
	case 2:
		c.Class("group offers")
		var ids []nodeid.NodeID
		for _, f := range w.pv {
			ids = append(ids, *f.ID)
		}
		if err := w.gapi.SetGroupCIDOfferSupportedForProviders(g, ids, w.adm, w.av); err != nil {
			rt.Fatalf("group offer support fails: %v", err)
		}
		for _, f := range w.pv {
			m := w.fresh(rt, f, fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType)
			w.want(rt, m, "the notification of a provider")
			id, yes, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportRequest(m)
			if err != nil || id.ToString() != me || !yes {
				rt.Fatalf("provider %s is notified that gateway %v takes group offers: %v %v, by gateway %s", f.ID.ToString(), id, yes, err, me)
			}
		}
	case 3:
		c.Class("list offers")
		if err := w.gapi.RequestForceRefresh(g, w.adm, w.av); err != nil {
			rt.Fatalf("refresh fails: %v", err)
		}
		if err := w.gapi.RequestListDHTOffer(g, w.adm, w.av); err != nil {
			rt.Fatalf("list offers fails: %v", err)
		}
		for _, f := range w.pv {
			m := w.fresh(rt, f, fcrmessages.GatewayListDHTOfferRequestType)
			w.want(rt, m, "the list request to a provider")
			id, _, _, _, _, _, _, err := fcrmessages.DecodeGatewayListDHTOfferRequest(m)
			if err != nil || id.ToString() != me {
				rt.Fatalf("gateway %s asks for offers as %v (%v)", me, id, err)
			}
		}
	case 4:
		c.Class("publication")
		f := w.pv[rapid.IntRange(0, 1).Draw(rt, "provider")]
		o := vt.Offer(f.Key, f.Ver, f.ID, []cid.ContentID{*vt.CID(unique())}, 1, ttl(), 1)
		m := f.Sign(fcrmessages.EncodeProviderPublishDHTOfferRequest(f.ID, 1, []cidoffer.CIDOffer{*o}))
		r := w.Ask(rt, w.Prov, m)
		if vtnode.IsInvalid(r) {
			rt.Fatalf("an authentic publication is refused\n%s", w.Tail())
		}
		w.want(rt, r, "the acknowledgement")
		_, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(r)
		if err != nil {
			rt.Fatalf("the acknowledgement cannot be read: %v", err)
		}
		if ok, err := fcrcrypto.VerifyMessage(vt.Pub(w.Key), sig, m.GetMessageBody()); err != nil || !ok {
			rt.Fatalf("the acknowledgement does not sign the publication with the gateway's key: %v %v", ok, err)
		}
	case 5:
		c.Class("peer search")
		f := w.gw[rapid.IntRange(0, 1).Draw(rt, "peer")]
		r := w.Ask(rt, w.Peer, f.Sign(fcrmessages.EncodeGatewayDHTDiscoverRequest(f.ID, vt.CID(unique()), 1, ttl(), "", "")))
		if vtnode.IsInvalid(r) {
			rt.Fatalf("a registered gateway's search is refused")
		}
		w.want(rt, r, "the answer to a gateway")
	case 6:
		c.Class("reputation")
		x := vt.Node(unique())
		rep := vt.Int64().Draw(rt, "reputation")
		if v, err := w.gapi.RequestGetReputation(g, x, w.adm, w.av); err == nil {
			rt.Fatalf("the reputation of an unknown client is reported as %d", v)
		}
		if ok, err := w.gapi.RequestSetReputation(g, x, rep, w.adm, w.av); err == nil || ok {
			rt.Fatalf("setting the reputation of an unknown client is reported successful")
		}
		if v, err := w.gapi.RequestGetReputation(g, x, w.adm, w.av); err == nil {
			rt.Fatalf("a client becomes known by a refused setting, with %d", v)
		}
	default:
		if w.wallet < 0 {
			return
		}
		c.Class("payment")
		w.lanes++
		ch, v := w.purse(w.wallet).Lane(w.lanes).Pay(big.NewInt(w.Config.SearchPrice))
		for _, mine := range []bool{true, false} {
			if !mine {
				w.lanes++
				ch, v = w.purse((w.wallet + 1) % len(w.wallets)).Lane(w.lanes).Pay(big.NewInt(w.Config.SearchPrice))
			}
			m, err := fcrmessages.EncodeClientStandardDiscoverRequestV2(vt.CID(unique()), 1, ttl(), ch, v)
			r := w.Signed(rt, w.Client, m, err)
			_, _, _, _, _, required, _, err := fcrmessages.DecodeClientStandardDiscoverResponseV2(r)
			if err != nil || required == mine {
				rt.Fatalf("a payment to wallet %s (the gateway's is %s): payment required %v, %v", ch, w.wallets[w.wallet].Addr, required, err)
			}
		}
	}
}

func adminRun(t *testing.T, kind string) {
	vt.Check(t, 100, func(rt *rapid.T, c *vt.Case) {
		w := blank(kind, rapid.SampledFrom([]int{2, 2, 2, 3, 5, 12, 20}).Draw(rt, "providers"))
		defer w.close()
		for i := rapid.IntRange(0, 6).Draw(rt, "requests before"); i > 0; i-- {
			switch rapid.IntRange(0, 4).Draw(rt, "before") {
			case 0:
				w.initialise(rt, c, vt.Node(freshID(rt, "identity")), false)
			default:
				if w.ID == nil {
					c.Addf("%s;", w.refuse(rt))
					c.Class("refused before initialisation")
				}
			}
		}
		inits := 0
		for i := rapid.IntRange(1, 14).Draw(rt, "steps"); i > 0; i-- {
			k := rapid.IntRange(0, 9).Draw(rt, "step")
			switch {
			case inits == 0 || k == 0:
				w.initialise(rt, c, vt.Node(freshID(rt, "identity")), true)
				inits++
			case k == 1:
				w.initialise(rt, c, vt.Node(freshID(rt, "identity")), false)
			default:
				w.probe(rt, c)
			}
		}
		for i := 0; i < 4; i++ {
			w.probe(rt, c)
		}
		w.Alive(rt)
		c.NonTrivial(map[bool]string{true: "initialised repeatedly", false: "initialised once"}[inits > 1])
	})
}

func TestA01_Gateway(t *testing.T)  { adminRun(t, "gateway") }
func TestA01_Provider(t *testing.T) { adminRun(t, "provider") }

// someProof fills the place of a proof that nobody reads.
var someProof = func() *fcrmerkletree.FCRMerkleProof {
	_, p, err := mustTree(vt.Offer(vt.Key(1), vt.Ver(1), vt.Node(make([]byte, 32)), []cid.ContentID{*vt.CID(unique()), *vt.CID(unique())}, 1, 1, 1))
	if err != nil {
		panic(err)
	}
	return p
}()
