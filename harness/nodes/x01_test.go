package nodes

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"math/big"
	"os"
	"reflect"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtpay"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

var codec = map[string]vt.Codec{}

func init() {
	for _, k := range vt.Codecs {
		codec[k.Name] = k
	}
}

// sender is somebody who sends hostile messages.
type sender struct {
	id  *nodeid.NodeID
	key *fcrcrypto.KeyPair
	ver *fcrcrypto.KeyVersion
}

// enemy knows what hostile messages are made of: identities, pieces and texts that mean something to the node under attack.
type enemy struct {
	mu     sync.Mutex
	ids    []*nodeid.NodeID
	pieces []*cid.ContentID
	texts  []string
	seed   int64
	count  int64
}

// about returns the replacement of message fields by ones that mean something.
func (e *enemy) about(t *rapid.T, s *sender, p *cid.ContentID, nonce int64) func(reflect.Value) reflect.Value {
	e.mu.Lock()
	ids, pieces, texts := e.ids, e.pieces, e.texts
	e.mu.Unlock()
	often := func() bool { return rapid.IntRange(0, 3).Draw(t, "fitting") > 0 }
	id := func() *nodeid.NodeID {
		if s != nil && often() {
			return s.id
		}
		return ids[rapid.IntRange(0, len(ids)-1).Draw(t, "id")]
	}
	offer := func() *cidoffer.CIDOffer {
		var cs []cid.ContentID
		for i := rapid.IntRange(1, 3).Draw(t, "pieces"); i > 0; i-- {
			cs = append(cs, *vt.CID(vt.ID32().Draw(t, "piece")))
		}
		return vt.Offer(s.key, s.ver, s.id, cs, vt.Uint64().Draw(t, "price"), vt.FarExpiry().Draw(t, "expiry"), 1)
	}
	var subst func(reflect.Value) reflect.Value
	subst = func(v reflect.Value) reflect.Value {
		switch v.Interface().(type) {
		case *nodeid.NodeID:
			if often() {
				return reflect.ValueOf(id())
			}
		case nodeid.NodeID:
			if often() {
				return reflect.ValueOf(*id())
			}
		case *cid.ContentID:
			if p != nil && often() {
				return reflect.ValueOf(p)
			}
			if often() {
				return reflect.ValueOf(pieces[rapid.IntRange(0, len(pieces)-1).Draw(t, "known piece")])
			}
		case string:
			if often() {
				return reflect.ValueOf(texts[rapid.IntRange(0, len(texts)-1).Draw(t, "text")])
			}
		case int64:
			if often() {
				return reflect.ValueOf([]int64{nonce, ttl(), 1, 3, 1 << 40}[rapid.IntRange(0, 4).Draw(t, "number")])
			}
		case *cidoffer.CIDOffer:
			if s != nil && often() {
				return reflect.ValueOf(offer())
			}
		case []cidoffer.CIDOffer:
			for i := 0; i < v.Len(); i++ {
				v.Index(i).Set(reflect.ValueOf(*offerOf(t, s)))
			}
		case []fcrmessages.FCRMessage:
			n := rapid.IntRange(0, 3).Draw(t, "messages")
			l := []fcrmessages.FCRMessage{}
			for i := 0; i < n; i++ {
				l = append(l, *e.message(t, []string{"ProviderPublishDHTOfferRequest", "ProviderPublishDHTOfferResponse", "GatewayDHTDiscoverResponse"}[rapid.IntRange(0, 2).Draw(t, "inner")], s, p, nonce))
			}
			return reflect.ValueOf(l)
		case []nodeid.NodeID:
			for i := 0; i < v.Len(); i++ {
				v.Index(i).Set(subst(v.Index(i)))
			}
		case []string:
			for i := 0; i < v.Len(); i++ {
				v.Index(i).Set(subst(v.Index(i)))
			}
		}
		return v
	}
	return subst
}

// offerOf makes a sender's own single-piece offer.
func offerOf(t *rapid.T, s *sender) *cidoffer.CIDOffer {
	if s == nil {
		return vt.SomeOffer(1, 1).Draw(t, "offer")
	}
	return vt.Offer(s.key, s.ver, s.id, []cid.ContentID{*vt.CID(vt.ID32().Draw(t, "piece"))}, vt.Uint64().Draw(t, "price"), vt.FarExpiry().Draw(t, "expiry"), 1)
}

// message makes a hostile message of a kind, mostly signed by its sender.
func (e *enemy) message(t *rapid.T, kind string, s *sender, p *cid.ContentID, nonce int64) *fcrmessages.FCRMessage {
	k := codec[kind]
	m, _ := vt.BuildMessage(t, k, e.about(t, s, p, nonce))
	body := m.GetMessageBody()
	switch n := rapid.IntRange(0, 9).Draw(t, "body"); {
	case n < 3: // as it is
	case n < 8:
		body = vt.HostileJSON(t, body)
	case n == 8:
		body = rapid.SampledFrom([][]byte{nil, []byte("{}"), []byte("null"), []byte("[]"), []byte("0"), []byte(`""`), []byte("{")}).Draw(t, "empty body")
	default:
		body = vt.Mutate(t, body)
	}
	m = fcrmessages.CreateFCRMessage(m.GetMessageType(), body)
	if s != nil && rapid.IntRange(0, 7).Draw(t, "signed") > 0 {
		if err := m.Sign(s.key, s.ver); err != nil {
			panic(err)
		}
	}
	return m
}

// wire is a message as bytes, now and then damaged.
func wire(t *rapid.T, m *fcrmessages.FCRMessage) []byte {
	b, err := m.FCRMsgToBytes()
	if err != nil {
		panic(err)
	}
	switch rapid.IntRange(0, 11).Draw(t, "wire") {
	case 0:
		return vt.HostileJSON(t, b)
	case 1:
		return vt.Mutate(t, b)
	case 2:
		return rapid.SliceOfN(rapid.Byte(), 0, 80).Draw(t, "noise")
	}
	return b
}

// framed puts bytes in a frame, now and then a wrong one.
func framed(t *rapid.T, b []byte) []byte {
	n := uint32(len(b))
	switch rapid.IntRange(0, 11).Draw(t, "frame") {
	case 0:
		n = rapid.SampledFrom([]uint32{0, 1, n + 1, n / 2, 1 << 31, 1<<32 - 1}).Draw(t, "length")
	case 1:
		return b
	}
	return append(binary.BigEndian.AppendUint32(nil, n), b...)
}

// replies are the kinds of answer to what a node asks others.
var replies = map[int32]string{
	fcrmessages.GatewayDHTDiscoverRequestType:                          "GatewayDHTDiscoverResponse",
	fcrmessages.GatewayDHTDiscoverRequestV2Type:                        "GatewayDHTDiscoverResponseV2",
	fcrmessages.GatewayDHTDiscoverOfferRequestType:                     "GatewayDHTDiscoverOfferResponse",
	fcrmessages.GatewayListDHTOfferRequestType:                         "GatewayListDHTOfferResponse",
	fcrmessages.ProviderPublishDHTOfferRequestType:                     "ProviderPublishDHTOfferResponse",
	fcrmessages.ProviderPublishGroupOfferRequestType:                   "ProviderPublishGroupOfferResponse",
	fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType: "GatewayNotifyProviderGroupCIDOfferSupportResponse",
}

// answer is a hostile node's answer to a request.
func (e *enemy) answer(s *sender, m *fcrmessages.FCRMessage) vtnode.Reply {
	kind := replies[m.GetMessageType()]
	p, nonce, _ := pieceOf(m)
	if m.GetMessageType() == fcrmessages.ProviderPublishDHTOfferRequestType {
		_, nonce, _, _ = fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
	}
	return rapid.Custom(func(t *rapid.T) vtnode.Reply {
		if kind == "" || rapid.IntRange(0, 15).Draw(t, "any kind") == 0 {
			kind = vt.Codecs[rapid.IntRange(0, len(vt.Codecs)-1).Draw(t, "kind")].Name
		}
		b := framed(t, wire(t, e.message(t, kind, s, p, nonce)))
		switch rapid.IntRange(0, 15).Draw(t, "end") {
		case 0:
			return vtnode.Reply{Close: true}
		case 1: // silence, mostly not for long
			return vtnode.Reply{Close: rapid.IntRange(0, 7).Draw(t, "silence") > 0}
		case 2:
			return vtnode.Reply{Raw: b[:len(b)/2], Close: true}
		case 3:
			return vtnode.Reply{Raw: append(b, b...), Close: true}
		}
		whole := len(b) > 3 && int(binary.BigEndian.Uint32(b)) == len(b)-4
		return vtnode.Reply{Raw: b, Close: !whole || rapid.Bool().Draw(t, "close")}
	}).Example(int(atomic.LoadInt64(&e.seed) + atomic.AddInt64(&e.count, 1)%64))
}

// reset prepares for a case.
func (e *enemy) reset(rt *rapid.T, ids []*nodeid.NodeID, pieces []*cid.ContentID, texts []string) {
	e.mu.Lock()
	defer e.mu.Unlock()
	e.ids, e.pieces, e.texts = ids, pieces, texts
	atomic.StoreInt64(&e.seed, int64(rapid.Uint32().Draw(rt, "answers")))
	atomic.StoreInt64(&e.count, 0)
}

func (e *enemy) fake(id []byte, key int, w *vtpay.Wallet) (*vtnode.Fake, *sender) {
	s := &sender{vt.Node(id), vt.Key(key), vt.Ver(1)}
	return vtnode.NewFake(s.id, s.key, w, func(m *fcrmessages.FCRMessage) vtnode.Reply { return e.answer(s, m) }), s
}

// parley asks a provider for offers as a registered gateway rightly does, and acknowledges them wrongly.
func (e *enemy) parley(rt *rapid.T, n *vtnode.Node, s *sender, proof *fcrmerkletree.FCRMerkleProof) (string, func(vtnode.T)) {
	min, max := vt.CID(make([]byte, 32)), vt.CID(bytes.Repeat([]byte{255}, 32))
	switch rapid.IntRange(0, 3).Draw(rt, "range") {
	case 0:
		max = min
	case 1:
		min = e.pieces[rapid.IntRange(0, len(e.pieces)-1).Draw(rt, "piece")]
		max = min
	}
	m, err := fcrmessages.EncodeGatewayListDHTOfferRequest(s.id, min, max, "", "", "", proof)
	if err == nil {
		err = m.Sign(s.key, s.ver)
	}
	if err != nil {
		rt.Fatalf("list: %v", err)
	}
	var ways []int
	for i := rapid.IntRange(0, 4).Draw(rt, "acks"); i > 0; i-- {
		ways = append(ways, rapid.IntRange(0, 7).Draw(rt, "ack"))
	}
	stray := e.message(rt, "ProviderPublishDHTOfferResponse", s, nil, 1)
	noise := vt.SigOf(s.key, s.ver, rapid.SliceOfN(rapid.Byte(), 0, 9).Draw(rt, "about"))
	return "parley", func(t vtnode.T) {
		c := n.Dial(t, n.Peer)
		defer c.Close()
		c.Send(t, m)
		var msgs []fcrmessages.FCRMessage
		if r := c.Peek(2 * time.Second); r != nil {
			msgs, _ = fcrmessages.DecodeGatewayListDHTOfferResponse(r)
		}
		acks := []fcrmessages.FCRMessage{}
		for i, w := range ways {
			sig := noise
			if i < len(msgs) && w != 1 {
				sig = vt.SigOf(s.key, s.ver, msgs[i].GetMessageBody())
			}
			switch w {
			case 2:
				sig = ""
			case 3:
				sig = sig[:len(sig)/2]
			}
			a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(1, sig)
			if err == nil && w != 4 {
				err = a.Sign(s.key, s.ver)
			}
			if w == 5 {
				a = stray
			}
			if err == nil {
				acks = append(acks, *a)
			}
		}
		a, err := fcrmessages.EncodeGatewayListDHTOfferAck(acks)
		if err == nil {
			err = a.Sign(s.key, s.ver)
		}
		if err != nil {
			t.Fatalf("acks: %v", err)
		}
		c.Send(t, a)
		c.Peek(20 * time.Millisecond)
	}
}

// damaged damages the register's answer.
func damaged(t *rapid.T, entries interface{}) string {
	b, err := json.Marshal(entries)
	if err != nil {
		panic(err)
	}
	if rapid.IntRange(0, 2).Draw(t, "whole") > 0 { // some entries lose their key, the addresses or the wallet
		var l []map[string]interface{}
		if err := json.Unmarshal(b, &l); err != nil {
			panic(err)
		}
		fields := rapid.SampledFrom([][]string{{"signingKey"}, {"networkInfoGateway", "networkInfoProvider"}, {"address"}, {"signingKey", "nodeId"}}).Draw(t, "fields")
		val := rapid.SampledFrom([]string{"", "zz", "00", "01", "0", "127.0.0.1", ":", "01" + strings.Repeat("00", 65)}).Draw(t, "text")
		for _, x := range l {
			if rapid.Bool().Draw(t, "damage") {
				for _, f := range fields {
					if _, ok := x[f]; !ok {
						continue
					}
					x[f] = val
				}
			}
		}
		if b, err = json.Marshal(l); err != nil {
			panic(err)
		}
		return string(b)
	}
	if s := string(vt.HostileJSON(t, b)); s != "" {
		return s
	}
	return "null"
}

// sane wants a REST answer to be an answer and not the trace of a crash.
func sane(t vtnode.T, n *vtnode.Node, port string, body []byte) {
	st, b := n.Raw(t, port, body)
	if s := string(b); len(s) > 700 {
		b = b[:700]
	}
	if s := string(b); st >= 500 && (strings.Contains(s, "runtime error") || strings.Contains(s, "goroutine ")) {
		t.Fatalf("the %s crashes over the request %q: %s", n.Kind, body, s)
	}
}

// isInit tells whether a request would rightly give a node another identity.
func isInit(b []byte) bool {
	m, err := fcrmessages.FCRMsgFromBytes(b)
	if err != nil {
		return false
	}
	switch m.GetMessageType() {
	case fcrmessages.GatewayAdminInitialiseKeyRequestType, fcrmessages.GatewayAdminInitialiseKeyRequestV2Type, fcrmessages.ProviderAdminInitialiseKeyRequestType, fcrmessages.ProviderAdminInitialiseKeyRequestV2Type:
		return true
	}
	return false
}

type foeGW struct {
	*gwWorld
	e       *enemy
	gws     []*vtnode.Fake
	provs2  []*vtnode.Fake
	senders []*sender // gateways first
	peer    *prov
	cases   int
}

var theFoeGW *foeGW

func foeGateway(t vtnode.T) *foeGW {
	if theFoeGW != nil && (theFoeGW.Dead() || theFoeGW.cases >= 60) {
		theFoeGW.close()
	}
	if theFoeGW == nil {
		peerTimeout = "3s"
		w := &foeGW{gwWorld: newGW(t, 0), e: &enemy{}}
		peerTimeout = ""
		for i := 0; i < 2; i++ {
			f, s := w.e.fake(unique(byte(100*i+20)), 430+i, vtpay.NewWallet(5+i))
			w.lotus.Know(f.Wallet)
			w.gws, w.senders = append(w.gws, f), append(w.senders, s)
		}
		for i := 0; i < 2; i++ {
			f, s := w.e.fake(unique(byte(100*i+60)), 440+i, nil)
			w.provs2, w.senders = append(w.provs2, f), append(w.senders, s)
		}
		w.peer = &prov{vt.Node(unique(200)), vt.Key(450), vt.Ver(3)}
		w.list()
		w.Refresh(t)
		theFoeGW = w
	}
	theFoeGW.cases++
	return theFoeGW
}

func (w *foeGW) close() {
	for _, f := range append(w.gws, w.provs2...) {
		f.Close()
	}
	w.Stop()
	w.lotus.Close()
	w.reg.Close()
	theFoeGW = nil
}

func (w *foeGW) list() {
	var gs []register.GatewayRegister
	for _, f := range w.gws {
		gs = append(gs, f.Gateway())
	}
	w.register(append(gs, peerEntry(w.peer))...)
	ps := w.reg.Providers()
	for _, f := range w.provs2 {
		ps = append(ps, f.Provider())
	}
	w.reg.SetProviders(ps...)
}

var (
	clientKinds = []string{"ClientEstablishmentRequest", "ClientDHTDiscoverRequest", "ClientDHTDiscoverRequestV2", "ClientDHTDiscoverOfferRequest", "ClientStandardDiscoverRequest", "ClientStandardDiscoverRequestV2", "ClientStandardDiscoverOfferRequest"}
	gwAdmin     = []string{"GatewayAdminGetReputationRequest", "GatewayAdminSetReputationRequest", "GatewayAdminForceRefreshRequest", "GatewayAdminListDHTOfferRequest", "UpdateGatewayGroupCIDOfferSupportRequest", "GatewayAdminListDHTOfferRequest", "UpdateGatewayGroupCIDOfferSupportRequest"}
	peerKinds   = []string{"GatewayDHTDiscoverRequest", "GatewayDHTDiscoverRequestV2", "GatewayDHTDiscoverOfferRequest"}
	pubKinds    = []string{"ProviderPublishDHTOfferRequest", "ProviderPublishGroupOfferRequest"}
	provAdmin   = []string{"ProviderAdminGetPublishedOfferRequest", "ProviderAdminPublishDHTOfferRequest", "ProviderAdminPublishGroupOfferRequest", "ProviderAdminForceRefreshRequest"}
	listKinds   = []string{"GatewayListDHTOfferRequest", "GatewayNotifyProviderGroupCIDOfferSupportRequest", "GatewayListDHTOfferRequest"}
)

// kindOf chooses a kind of message: mostly one meant for the access point.
func kindOf(t *rapid.T, l []string) string {
	if rapid.IntRange(0, 9).Draw(t, "misplaced") == 0 {
		return vt.Codecs[rapid.IntRange(0, len(vt.Codecs)-1).Draw(t, "kind")].Name
	}
	return l[rapid.IntRange(0, len(l)-1).Draw(t, "kind")]
}

// post makes a hostile request to a REST port.
func (e *enemy) post(rt *rapid.T, n *vtnode.Node, port string, kinds []string) (string, func(vtnode.T)) {
	k := kindOf(rt, kinds)
	b := wire(rt, e.message(rt, k, nil, nil, 7))
	if port == n.Admin && isInit(b) {
		return "", func(vtnode.T) {}
	}
	return k, func(t vtnode.T) { sane(t, n, port, b) }
}

// send makes hostile messages on a connection to another access point, and perhaps answers to what comes back.
func (e *enemy) send(rt *rapid.T, n *vtnode.Node, port string, kinds []string, s *sender) (string, func(vtnode.T)) {
	var ks []string
	var bs [][]byte
	for i := rapid.IntRange(1, 3).Draw(rt, "messages"); i > 0; i-- {
		k := kindOf(rt, kinds)
		ks = append(ks, k)
		bs = append(bs, framed(rt, wire(rt, e.message(rt, k, s, nil, 7))))
		if k == "GatewayListDHTOfferRequest" && rapid.IntRange(0, 4).Draw(rt, "acks") > 0 {
			ks = append(ks, "acks")
			bs = append(bs, framed(rt, wire(rt, e.message(rt, "GatewayListDHTOfferAck", s, nil, 1))))
		}
	}
	wait := rapid.Bool().Draw(rt, "wait")
	return strings.Join(ks, "+"), func(t vtnode.T) {
		c := n.Dial(t, port)
		defer c.Close()
		for _, b := range bs {
			c.Write(b)
			if wait {
				c.Peek(150 * time.Millisecond)
			}
		}
	}
}

func TestX01_Gateway(t *testing.T) {
	vt.Check(t, 30, func(rt *rapid.T, c *vt.Case) {
		w := foeGateway(rt)
		s := newShelf()
		ps := pieces(rt, 1, 3)
		p := w.provs[rapid.IntRange(0, len(w.provs)-1).Draw(rt, "provider")]
		w.stock(rt, c, s, ps, 2, false)
		price := new(big.Int).Add(w.search(16), w.offers(16))
		var ids []*nodeid.NodeID
		for _, x := range w.senders {
			ids = append(ids, x.id)
		}
		ids = append(ids, w.ID, w.peer.id, p.id)
		texts := []string{w.purse.Ch.Addr.String(), "", w.gws[0].Wallet.Addr.String()}
		for i := 0; i < 3; i++ {
			ch, v := w.lane().Pay(price)
			texts = append(texts, ch, v)
		}
		for _, x := range ps {
			for d := range s.byPiece[x.ToString()] {
				texts = append(texts, d)
			}
		}
		texts = sorted(texts)
		w.e.reset(rt, ids, ps, texts)
		var plan []func(vtnode.T)
		var lawless []string
		for i := rapid.IntRange(1, 8).Draw(rt, "attacks"); i > 0; i-- {
			var k string
			var f func(vtnode.T)
			where := rapid.SampledFrom([]string{"client", "client", "admin", "peer", "peer", "provider", "provider", "search", "search", "collect", "register"}).Draw(rt, "where")
			switch where {
			case "client":
				k, f = w.e.post(rt, w.Node, w.Client, clientKinds)
			case "admin":
				k, f = w.e.post(rt, w.Node, w.Admin, gwAdmin)
			case "peer":
				k, f = w.e.send(rt, w.Node, w.Peer, peerKinds, w.senders[rapid.IntRange(0, 1).Draw(rt, "sender")])
			case "provider":
				k, f = w.e.send(rt, w.Node, w.Prov, pubKinds, w.senders[rapid.IntRange(2, 3).Draw(rt, "sender")])
			case "search": // honest requests that make the gateway ask hostile ones
				x := ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "piece")]
				ch, v := w.lane().Pay(price)
				var m *fcrmessages.FCRMessage
				var err error
				switch rapid.IntRange(0, 2).Draw(rt, "search") {
				case 0:
					k = "free"
					m, err = fcrmessages.EncodeClientDHTDiscoverRequest(x, 5, ttl(), 4, false, "", "")
				case 1:
					k = "paid"
					m, err = fcrmessages.EncodeClientDHTDiscoverRequestV2(x, 5, ttl(), 4, false, ch, v)
				default:
					k = "offers"
					ds := [][]string{}
					for i := rapid.SampledFrom([]int{2, 2, 2, 2, 0, 1, 3}).Draw(rt, "lists"); i > 0; i-- {
						ds = append(ds, []string{})
					}
					for i := range ds {
						for j := rapid.IntRange(1, 2).Draw(rt, "digests"); j > 0; j-- {
							ds[i] = append(ds[i], rapid.SampledFrom(texts).Draw(rt, "digest"))
						}
					}
					m, err = fcrmessages.EncodeClientDHTDiscoverOfferRequest(x, 5, ds, []nodeid.NodeID{*w.senders[0].id, *w.senders[1].id}, ch, v)
				}
				if err != nil {
					rt.Fatalf("search: %v", err)
				}
				b, err := json.Marshal(m)
				if err != nil {
					rt.Fatalf("search: %v", err)
				}
				f = func(t vtnode.T) { sane(t, w.Node, w.Client, b) }
			case "collect": // the gateway collects offers from, or announces itself to, hostile providers
				m, err := fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)
				k = "list"
				if rapid.IntRange(0, 2).Draw(rt, "announce") == 0 {
					k = "announce"
					m, err = fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(w.ID, []nodeid.NodeID{*w.senders[2].id, *w.senders[3].id})
				}
				f = func(t vtnode.T) {
					if err != nil {
						t.Fatalf("%v", err)
					}
					w.Post(t, w.Admin, m)
					time.Sleep(20 * time.Millisecond)
				}
			default:
				kind := rapid.SampledFrom([]string{"gateway", "provider"}).Draw(rt, "register")
				var text string
				if kind == "gateway" {
					text = damaged(rt, w.reg.Gateways())
				} else {
					text = damaged(rt, w.reg.Providers())
				}
				k = kind
				_, f1 := w.e.send(rt, w.Node, w.Peer, peerKinds, w.senders[0])
				_, f2 := w.e.send(rt, w.Node, w.Prov, pubKinds, w.senders[2])
				f = func(t vtnode.T) {
					w.reg.SetRaw(kind, text)
					defer w.reg.SetRaw(kind, "")
					m, err := fcrmessages.EncodeGatewayAdminForceRefreshRequest(true)
					if err != nil {
						t.Fatalf("refresh: %v", err)
					}
					w.Post(t, w.Admin, m)
					f1(t)
					f2(t)
				}
			}
			if k == "" {
				continue
			}
			c.Addf("%s:%s", where, k)
			c.Class(where)
			lawless = append(lawless, where)
			plan = append(plan, f)
		}
		run(rt, c, w.Node, plan)
		time.Sleep(10 * time.Millisecond)
		w.Alive(rt)
		w.Refresh(rt)
		// honest business on every access point
		fresh := pieces(rt, 1, 1)
		w.publish(rt, s, p, false, []cidoffer.CIDOffer{*vt.Offer(p.key, p.ver, p.id, []cid.ContentID{*fresh[0]}, 3, ttl(), 1)})
		vt.Within(vt.Hang, "honest requests after the attacks", func() {
			w.honest(rt, s, append(ps, fresh...))
		})
		w.Alive(rt)
		if len(lawless) > 0 {
			c.NonTrivial("attacked")
		}
	})
}

// honest is an honest client's, peer's and administrator's business.
func (w *foeGW) honest(t vtnode.T, s *shelf, ps []*cid.ContentID) {
	w.held(t, s, ps)
	x := ps[len(ps)-1]
	at := time.Now().Unix()
	ch, v := w.lane().Pay(w.search(1))
	m, err := fcrmessages.EncodeClientStandardDiscoverRequestV2(x, 11, ttl(), ch, v)
	r := w.Signed(t, w.Client, m, err)
	_, _, found, ds, _, required, _, err := fcrmessages.DecodeClientStandardDiscoverResponseV2(r)
	if err != nil || required {
		t.Fatalf("a paid search is answered with %v %v", required, err)
	}
	s.checkDigests(t, x, at, ds, found)
	m, err = fcrmessages.EncodeGatewayDHTDiscoverRequest(w.peer.id, x, 12, ttl(), "", "")
	if err == nil {
		err = m.Sign(w.peer.key, w.peer.ver)
	}
	if err != nil {
		t.Fatalf("query: %v", err)
	}
	r = w.Ask(t, w.Peer, m)
	if vtnode.IsInvalid(r) {
		t.Fatalf("a registered gateway's authentic query is refused")
	}
	w.Mine(t, r)
	_, _, found, subs, funded, err := fcrmessages.DecodeGatewayDHTDiscoverResponse(r)
	if err != nil {
		t.Fatalf("query: %v", err)
	}
	s.checkSubs(t, x, at, subs, funded, found)
	m, err = fcrmessages.EncodeClientEstablishmentRequest(vt.Node(unique()), "0123456789abcdef", ttl())
	r = w.Signed(t, w.Client, m, err)
	if id, ch, err := fcrmessages.DecodeClientEstablishmentResponse(r); err != nil || id.ToString() != w.ID.ToString() || ch != "0123456789abcdef" {
		t.Fatalf("an establishment is answered with %v %q %v", id, ch, err)
	}
	m, err = fcrmessages.EncodeGatewayAdminGetReputationRequest(vt.Node(unique()))
	r = w.Signed(t, w.Admin, m, err)
	if _, rep, ok, err := fcrmessages.DecodeGatewayAdminGetReputationResponse(r); err != nil || ok || rep != 0 {
		t.Fatalf("the reputation of an unknown client is read as %d %v %v", rep, ok, err)
	}
}

type foeProv struct {
	*vtnode.Node
	reg     *vtreg.Server
	e       *enemy
	gws     []*vtnode.Fake
	senders []*sender
	good    *pubGW
	world   *provWorld
	proof   *fcrmerkletree.FCRMerkleProof
	cases   int
}

var (
	theFoeProv *foeProv
	foeNo      int
)

func foeProvider(t vtnode.T) *foeProv {
	if theFoeProv != nil && (theFoeProv.Dead() || theFoeProv.cases >= 40) {
		theFoeProv.close()
	}
	if theFoeProv == nil {
		shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
		k := shard + foeNo
		foeNo++
		w := &foeProv{reg: vtreg.New(), e: &enemy{}}
		w.Node = vtnode.Start("provider", w.reg, vtnode.Config{Timeout: "3s"})
		w.Init(t, vt.Node(unique(byte(37*k+90))), vt.Key(70+k%5), vt.Ver(uint32(k)), nil, nil)
		for i := 0; i < 2; i++ {
			f, s := w.e.fake(unique(byte(100*i+20)), 430+i, nil)
			w.gws, w.senders = append(w.gws, f), append(w.senders, s)
		}
		w.world = &provWorld{Node: w.Node, reg: w.reg, genuine: map[string]bool{}}
		w.good = w.world.add(unique(160), true)
		_, p, err := mustTree(vt.Offer(vt.Key(1), vt.Ver(1), w.ID, []cid.ContentID{*vt.CID(unique()), *vt.CID(unique())}, 1, 1, 1))
		if err != nil {
			panic(err)
		}
		w.proof = p
		w.list()
		w.Refresh(t)
		theFoeProv = w
	}
	theFoeProv.cases++
	return theFoeProv
}

func (w *foeProv) close() {
	for _, f := range w.gws {
		f.Close()
	}
	w.good.Close()
	w.Stop()
	w.reg.Close()
	theFoeProv = nil
}

func (w *foeProv) list() {
	w.world.list()
	gs := w.reg.Gateways()
	for _, f := range w.gws {
		gs = append(gs, f.Gateway())
	}
	w.reg.SetGateways(gs...)
}

func TestX01_Provider(t *testing.T) {
	vt.Check(t, 30, func(rt *rapid.T, c *vt.Case) {
		w := foeProvider(rt)
		ps := pieces(rt, 1, 3)
		o := &order{}
		for _, p := range ps {
			o.cids, o.expiry, o.price, o.qos = append(o.cids, *p), append(o.expiry, ttl()), append(o.price, 5), append(o.qos, 6)
		}
		way := func(x *order) {
			w.good.mu.Lock()
			w.good.way[x.cids[0].ToString()] = "honest"
			w.good.mu.Unlock()
		}
		way(o)
		ids := []*nodeid.NodeID{w.ID, w.good.ID}
		for _, x := range w.senders {
			ids = append(ids, x.id)
		}
		w.e.reset(rt, ids, ps, []string{"", "t01", "0", "00000001"})
		w.world.place(rt, o)
		var plan []func(vtnode.T)
		attacks := 0
		for i := rapid.IntRange(1, 8).Draw(rt, "attacks"); i > 0; i-- {
			var k string
			var f func(vtnode.T)
			where := rapid.SampledFrom([]string{"client", "admin", "admin", "peer", "peer", "acks", "acks", "publish", "publish", "register"}).Draw(rt, "where")
			switch where {
			case "acks":
				k, f = w.e.parley(rt, w.Node, w.senders[rapid.IntRange(0, 1).Draw(rt, "sender")], w.proof)
			case "client":
				k, f = w.e.post(rt, w.Node, w.Client, []string{"ClientDHTOfferAckRequest"})
			case "admin":
				k, f = w.e.post(rt, w.Node, w.Admin, provAdmin)
			case "peer":
				k, f = w.e.send(rt, w.Node, w.Peer, listKinds, w.senders[rapid.IntRange(0, 1).Draw(rt, "sender")])
			case "publish":
				x := &order{group: rapid.Bool().Draw(rt, "group")}
				for j := rapid.IntRange(1, 3).Draw(rt, "pieces"); j > 0; j-- {
					x.cids, x.expiry, x.price, x.qos = append(x.cids, *vt.CID(unique())), append(x.expiry, ttl()), append(x.price, 5), append(x.qos, 6)
				}
				if x.group && len(x.cids) == 1 {
					x.group = false
				}
				way(x)
				k = "to all"
				f = func(t vtnode.T) { w.world.place(t, x) }
			default:
				text := damaged(rt, w.reg.Gateways())
				k = "gateways"
				_, f1 := w.e.send(rt, w.Node, w.Peer, listKinds, w.senders[0])
				f = func(t vtnode.T) {
					w.reg.SetRaw("gateway", text)
					defer w.reg.SetRaw("gateway", "")
					m, err := fcrmessages.EncodeProviderAdminForceRefreshRequest(true)
					if err != nil {
						t.Fatalf("refresh: %v", err)
					}
					w.Post(t, w.Admin, m)
					f1(t)
				}
			}
			if k == "" {
				continue
			}
			attacks++
			c.Addf("%s:%s", where, k)
			c.Class(where)
			plan = append(plan, f)
		}
		run(rt, c, w.Node, plan)
		time.Sleep(10 * time.Millisecond)
		w.Alive(rt)
		w.Refresh(rt)
		vt.Within(vt.Hang, "honest requests after the attacks", func() { w.honest(rt, o, way) })
		w.Alive(rt)
		if attacks > 0 {
			c.NonTrivial("attacked")
		}
	})
}

// honest is an honest administrator's, gateway's and client's business.
func (w *foeProv) honest(t vtnode.T, before *order, way func(*order)) {
	for i := range before.cids { // only the nearest gateways get an offer, here all there are
		w.world.recorded(t, &before.cids[i], w.good)
	}
	x := vt.CID(unique())
	o := &order{cids: []cid.ContentID{*x}, expiry: []int64{ttl()}, price: []uint64{1}, qos: []uint64{2}}
	way(o)
	w.world.place(t, o)
	if found, _, _ := w.world.evidence(t, x, w.good.ID); !found {
		t.Fatalf("an offer published and acknowledged after the attacks has no evidence")
	}
	m, err := fcrmessages.EncodeGatewayListDHTOfferRequest(w.good.ID, x, x, "a", "b", "c", w.proof)
	m = w.good.Sign(m, err)
	conn := w.Dial(t, w.Peer)
	defer conn.Close()
	conn.Send(t, m)
	r := conn.Read(t)
	if vtnode.IsInvalid(r) {
		t.Fatalf("a registered gateway's authentic request for offers is refused")
	}
	w.Mine(t, r)
	msgs, err := fcrmessages.DecodeGatewayListDHTOfferResponse(r)
	if err != nil || len(msgs) != 1 {
		t.Fatalf("the offers of one piece are listed in %d publications: %v", len(msgs), err)
	}
	_, _, os, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[0])
	if err != nil || len(os) != 1 || os[0].GetCIDs()[0].ToString() != x.ToString() {
		t.Fatalf("the offer of one piece is listed as %d offers: %v", len(os), err)
	}
	am, err := fcrmessages.EncodeProviderAdminGetPublishedOfferRequest([]nodeid.NodeID{*w.good.ID})
	r = w.Signed(t, w.Admin, am, err)
	if ok, _, err := fcrmessages.DecodeProviderAdminGetPublishedOfferResponse(r); err != nil || !ok {
		t.Fatalf("the published offers are listed with %v %v", ok, err)
	}
}

// TestX01_Fresh attacks nodes that have just been started: with or without an identity, a wallet and a filled register.
func TestX01_Fresh(t *testing.T) {
	vt.Check(t, 20, func(rt *rapid.T, c *vt.Case) {
		kind := rapid.SampledFrom([]string{"gateway", "provider"}).Draw(rt, "node")
		init := rapid.SampledFrom([]string{"none", "plain", "wallet"}).Draw(rt, "init")
		filled := rapid.SampledFrom([]string{"empty", "itself", "enemies", "damaged"}).Draw(rt, "register")
		reg, e := vtreg.New(), &enemy{}
		defer reg.Close()
		n := vtnode.Start(kind, reg, vtnode.Config{SearchPrice: 1, OfferPrice: 1, Topup: 10, Timeout: "3s"})
		defer n.Stop()
		id, key, ver := vt.Node(unique(90)), vt.Key(50), vt.Ver(1)
		wallet, payer := vtpay.NewWallet(0), vtpay.NewWallet(1)
		lotus := vtpay.NewLotus(wallet, payer)
		defer lotus.Close()
		switch init {
		case "plain":
			n.Init(rt, id, key, ver, nil, nil)
		case "wallet":
			n.Init(rt, id, key, ver, wallet, lotus)
		}
		var fakes []*vtnode.Fake
		var senders []*sender
		for i := 0; i < 4; i++ {
			f, s := e.fake(unique(byte(40*i+20)), 430+i, nil)
			defer f.Close()
			fakes, senders = append(fakes, f), append(senders, s)
		}
		var gs []register.GatewayRegister
		var ps []register.ProviderRegister
		if filled != "empty" && kind == "gateway" && n.ID != nil {
			gs = append(gs, n.Gateway())
		}
		if filled == "enemies" || filled == "damaged" {
			gs = append(gs, fakes[0].Gateway(), fakes[1].Gateway())
		}
		if filled != "itself" { // the gateways of nobody
			ps = append(ps, fakes[2].Provider(), fakes[3].Provider())
		}
		reg.SetGateways(gs...)
		reg.SetProviders(ps...)
		if filled == "damaged" {
			reg.SetRaw("gateway", damaged(rt, gs))
			reg.SetRaw("provider", damaged(rt, ps))
		}
		if n.ID != nil {
			n.Refresh(rt)
		}
		pcs := pieces(rt, 1, 2)
		purse := vtpay.NewPurse(lotus, payer, wallet)
		ch, v := purse.Pay(big.NewInt(16))
		e.reset(rt, []*nodeid.NodeID{id, senders[0].id, senders[1].id, senders[2].id}, pcs, []string{ch, v, "", "t01"})
		c.Addf("%s %s %s", kind, init, filled)
		c.Class(kind + ", " + init)
		c.Class("register: " + filled)
		_, proof, err := mustTree(vt.Offer(vt.Key(1), vt.Ver(1), id, []cid.ContentID{*vt.CID(unique()), *vt.CID(unique())}, 1, 1, 1))
		if err != nil {
			panic(err)
		}
		var plan []func(vtnode.T)
		say := func(port string, m *fcrmessages.FCRMessage, err error) func(vtnode.T) {
			if err != nil {
				rt.Fatalf("%v", err)
			}
			b, err := json.Marshal(m)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			return func(t vtnode.T) { sane(t, n, port, b) }
		}
		for i := rapid.IntRange(1, 10).Draw(rt, "attacks"); i > 0; i-- {
			var k string
			var f func(vtnode.T)
			s := senders[rapid.IntRange(0, 3).Draw(rt, "sender")]
			x := pcs[0]
			if kind == "gateway" {
				switch rapid.IntRange(0, 8).Draw(rt, "where") {
				case 0, 1:
					k, f = e.post(rt, n, n.Client, clientKinds)
				case 2:
					k, f = e.post(rt, n, n.Admin, gwAdmin)
				case 3:
					k, f = e.send(rt, n, n.Peer, peerKinds, s)
				case 4:
					k, f = e.send(rt, n, n.Prov, pubKinds, s)
				case 5:
					m, err := fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)
					k, f = "list", say(n.Admin, m, err)
				case 6:
					m, err := fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportRequest(id, []nodeid.NodeID{*senders[2].id})
					k, f = "announce", say(n.Admin, m, err)
				case 7:
					m, err := fcrmessages.EncodeClientDHTDiscoverRequestV2(x, 5, ttl(), 4, false, ch, v)
					k, f = "paid search", say(n.Client, m, err)
				default:
					m, err := fcrmessages.EncodeClientDHTDiscoverRequest(x, 5, ttl(), 4, false, "", "")
					k, f = "search", say(n.Client, m, err)
				}
			} else {
				switch rapid.IntRange(0, 6).Draw(rt, "where") {
				case 0:
					k, f = e.post(rt, n, n.Client, []string{"ClientDHTOfferAckRequest"})
				case 1, 2:
					k, f = e.post(rt, n, n.Admin, provAdmin)
				case 3:
					k, f = e.send(rt, n, n.Peer, listKinds, s)
				case 4:
					k, f = e.parley(rt, n, s, proof)
				case 5:
					m, err := fcrmessages.EncodeProviderAdminPublishDHTOfferRequest([]cid.ContentID{*x}, []uint64{1}, []int64{ttl()}, []uint64{1})
					k, f = "publish", say(n.Admin, m, err)
				default:
					m, err := fcrmessages.EncodeProviderAdminPublishGroupOfferRequest([]cid.ContentID{*x, *vt.CID(unique())}, 1, ttl(), 1)
					k, f = "publish a group", say(n.Admin, m, err)
				}
			}
			if k == "" {
				continue
			}
			c.Addf("%s", k)
			plan = append(plan, f)
		}
		run(rt, c, n, plan)
		time.Sleep(30 * time.Millisecond)
		n.Alive(rt)
		reg.SetRaw("gateway", "")
		reg.SetRaw("provider", "")
		vt.Within(vt.Hang, "honest requests after the attacks", func() {
			if n.ID == nil {
				n.Init(rt, id, key, ver, nil, nil)
			}
			if kind == "gateway" {
				m, err := fcrmessages.EncodeClientEstablishmentRequest(vt.Node(unique()), "0123456789abcdef", ttl())
				r := n.Signed(rt, n.Client, m, err)
				if got, ch, err := fcrmessages.DecodeClientEstablishmentResponse(r); err != nil || got.ToString() != id.ToString() || ch != "0123456789abcdef" {
					rt.Fatalf("an establishment is answered with %v %q %v", got, ch, err)
				}
				return
			}
			m, err := fcrmessages.EncodeClientDHTOfferAckRequest(vt.CID(unique()), vt.Node(unique()))
			r := n.Signed(rt, n.Client, m, err)
			if _, _, found, _, _, err := fcrmessages.DecodeClientDHTOfferAckResponse(r); err != nil || found {
				rt.Fatalf("evidence that is not there is given: %v %v", found, err)
			}
		})
		n.Alive(rt)
		if len(plan) > 0 {
			c.NonTrivial("attacked when fresh")
		}
	})
}
