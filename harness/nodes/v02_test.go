package nodes

import (
	"math/big"
	"os"
	"strconv"
	"sync"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

// lister is a registered gateway without a server: it joins and asks for offers.
type lister struct {
	id  *nodeid.NodeID
	key *fcrcrypto.KeyPair
}

type listWorld struct {
	*vtnode.Node
	reg     *vtreg.Server
	who     []*lister
	proof   *fcrmerkletree.FCRMerkleProof
	offers  map[string]int64          // every single-piece offer published -> expiry
	piece   map[string]*cid.ContentID // by offer
	pieces  []*cid.ContentID          // all of them
	ring    map[string]bool
	records map[string]*record // piece|gateway
	cases   int
}

// record is what the provider should know of a gateway's acknowledgement of a piece.
type record struct {
	must bool
	cand [][2]*fcrmessages.FCRMessage
}

var (
	theList *listWorld
	listNo  int
)

func listing(t vtnode.T) *listWorld {
	if theList != nil && (theList.Dead() || theList.cases >= 6) {
		theList.Stop()
		theList.reg.Close()
		theList = nil
	}
	if theList == nil {
		shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
		k := listNo + shard
		listNo++
		w := &listWorld{reg: vtreg.New(), offers: map[string]int64{}, piece: map[string]*cid.ContentID{}, ring: map[string]bool{}, records: map[string]*record{}}
		w.Node = vtnode.Start("provider", w.reg, vtnode.Config{})
		w.Init(t, vt.Node(unique(byte(37*k+90))), vt.Key(70+k%5), vt.Ver(uint32(k)), nil, nil)
		for i := 0; i < 3; i++ {
			w.who = append(w.who, &lister{vt.Node(unique(byte(80 * i))), vt.Key(610 + i)})
		}
		w.rekey()
		w.Refresh(t)
		o := vt.Offer(vt.Key(1), vt.Ver(1), w.ID, []cid.ContentID{*vt.CID(unique()), *vt.CID(unique())}, 1, 1, 1)
		_, p, err := mustTree(o)
		if err != nil {
			panic(err)
		}
		w.proof = p
		theList = w
	}
	theList.cases++
	return theList
}

func mustTree(o *cidoffer.CIDOffer) (string, *fcrmerkletree.FCRMerkleProof, error) {
	s, err := o.GenerateSubCIDOffer(&o.GetCIDs()[0])
	if err != nil {
		return "", nil, err
	}
	p := s.GetMerkleProof()
	return s.GetMerkleRoot(), p, nil
}

// rekey lists the joining gateways with their present keys.
func (w *listWorld) rekey() {
	var l []register.GatewayRegister
	for _, g := range w.who {
		n := vtnode.Node{Kind: "gateway", ID: g.id, Key: g.key, Peer: "1", Prov: "1", Client: "1", Admin: "1"}
		l = append(l, n.Gateway())
	}
	w.reg.SetGateways(l...)
}

// publish adds offers to the provider's store; nobody acknowledges them.
func (w *listWorld) publish(t vtnode.T, o *order) {
	m, err := o.message()
	r := w.Signed(t, w.Admin, m, err)
	if ok, err := fcrmessages.DecodeProviderAdminPublishDHTOfferResponse(r); err != nil || !ok {
		t.Fatalf("a publication is not carried out: %v %v", ok, err)
	}
}

func (w *listWorld) know(o *order) {
	for i := range o.cids {
		k := o.key(i)
		w.offers[k] = o.expiry[i]
		w.piece[k] = &o.cids[i]
		if s := o.cids[i].ToString(); !w.ring[s] {
			w.ring[s] = true
			w.pieces = append(w.pieces, &o.cids[i])
		}
	}
}

// gen makes a publication, most pieces being close to an anchor.
func (w *listWorld) gen(rt *rapid.T, anchor []byte, n int) *order {
	o := &order{}
	for i := 0; i < n; i++ {
		var c *cid.ContentID
		switch k := rapid.IntRange(0, 9).Draw(rt, "piece"); {
		case k == 0 && len(w.pieces) > 0:
			c = w.pieces[rapid.IntRange(0, len(w.pieces)-1).Draw(rt, "again")]
		case k <= 2:
			c = vt.CID(freshID(rt, "piece"))
		default:
			b := append([]byte{}, anchor...)
			b[31] = byte(rapid.IntRange(0, 255).Draw(rt, "low"))
			if n > 20 {
				b[30] = byte(i)
				b[29] = byte(i >> 8)
			}
			c = vt.CID(b)
		}
		e, _ := expiry(rt, false)
		o.cids = append(o.cids, *c)
		o.expiry = append(o.expiry, e)
		o.price = append(o.price, vt.Uint64().Draw(rt, "price"))
		o.qos = append(o.qos, uint64(i))
	}
	return o
}

// span generates a range.
func (w *listWorld) span(rt *rapid.T, anchor []byte) (*cid.ContentID, *cid.ContentID) {
	end := func(label string) []byte {
		var b []byte
		switch k := rapid.IntRange(0, 6).Draw(rt, label); {
		case k == 0:
			return vt.ID32().Draw(rt, label+" id")
		case k == 1 && len(w.pieces) > 0:
			b = append(b, w.pieces[rapid.IntRange(0, len(w.pieces)-1).Draw(rt, label+" at")].ToBytes()...)
		default:
			b = append(b, anchor...)
			b[31] = byte(rapid.IntRange(0, 255).Draw(rt, label+" low"))
			b[30] = byte(rapid.IntRange(0, 3).Draw(rt, label+" lower"))
		}
		v := new(big.Int).SetBytes(b)
		v.Add(v, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(rt, label+" off"))))
		v.Mod(v, vt.Two256)
		return v.FillBytes(make([]byte, 32))
	}
	switch rapid.IntRange(0, 7).Draw(rt, "range") {
	case 0:
		z, f := make([]byte, 32), make([]byte, 32)
		for i := range f {
			f[i] = 0xff
		}
		return vt.CID(z), vt.CID(f)
	case 1:
		e := end("both")
		return vt.CID(e), vt.CID(e)
	case 2, 3: // around the anchor
		lo, hi := append([]byte{}, anchor...), append([]byte{}, anchor...)
		lo[31], lo[30], lo[29], hi[31], hi[30], hi[29] = 0, 0, 0, 0xff, 0xff, 0xff
		return vt.CID(lo), vt.CID(hi)
	}
	return vt.CID(end("from")), vt.CID(end("to"))
}

func inRange(x, lo, hi *cid.ContentID) bool {
	a, b, c := lo.ToString(), x.ToString(), hi.ToString()
	if a <= c {
		return a <= b && b <= c
	}
	return b >= a || b <= c
}

// request makes a joining gateway's request.
func (w *listWorld) request(g *lister, lo, hi *cid.ContentID) *fcrmessages.FCRMessage {
	m, err := fcrmessages.EncodeGatewayListDHTOfferRequest(g.id, lo, hi, "block", "receipt", "root", w.proof)
	if err != nil {
		panic(err)
	}
	if err := m.Sign(g.key, vt.Ver(1)); err != nil {
		panic(err)
	}
	return m
}

// checkList checks the answer to a request; offers of the second model may be missing or there.
func (w *listWorld) checkList(t vtnode.T, r *fcrmessages.FCRMessage, lo, hi *cid.ContentID, maybe map[string]*cid.ContentID) []fcrmessages.FCRMessage {
	if r == nil || vtnode.IsInvalid(r) {
		t.Fatalf("an authentic request for offers is refused")
	}
	w.Mine(t, r)
	msgs, err := fcrmessages.DecodeGatewayListDHTOfferResponse(r)
	if err != nil {
		t.Fatalf("list of offers: %v", err)
	}
	pub := vt.Pub(w.Key)
	got := map[string]bool{}
	for i := range msgs {
		m := &msgs[i]
		if m.Verify(pub) != nil {
			t.Fatalf("publication %d of %d in the list is not signed by the provider", i, len(msgs))
		}
		id, _, os, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
		if err != nil {
			t.Fatalf("publication %d of %d in the list: %v", i, len(msgs), err)
		}
		if id.ToString() != w.ID.ToString() {
			t.Fatalf("publication %d of %d in the list names provider %s", i, len(msgs), id.ToString())
		}
		for j := range os {
			o := &os[j]
			k := offerKey(false, o)
			if len(o.GetCIDs()) != 1 || o.GetProviderID().ToString() != w.ID.ToString() || o.Verify(pub) != nil {
				t.Fatalf("the list has an offer that is not the provider's: %s", k)
			}
			if got[k] {
				t.Fatalf("the offer %s is in the list twice", k)
			}
			got[k] = true
			e, known := w.offers[k]
			if !known && maybe[k] == nil {
				t.Fatalf("the list has the offer %s, which was never published", k)
			}
			if !inRange(&o.GetCIDs()[0], lo, hi) {
				t.Fatalf("the list for %s to %s has an offer for piece %s", lo.ToString(), hi.ToString(), o.GetCIDs()[0].ToString())
			}
			if known && e < 4000000000 {
				t.Fatalf("the list has an expired offer: %s", k)
			}
		}
	}
	n := 0
	for k, e := range w.offers {
		if e > 4000000000 && inRange(w.piece[k], lo, hi) {
			n++
			if len(got) < 500 && !got[k] {
				t.Fatalf("the list for %s to %s lacks the offer %s; it has %d", lo.ToString(), hi.ToString(), k, len(got))
			}
		}
	}
	if n > 500 {
		n = 500
	}
	if len(got) < n {
		t.Fatalf("the list has %d offers, want %d", len(got), n)
	}
	if len(got) > 500 {
		t.Fatalf("the list has %d offers, more than the protocol's maximum", len(got))
	}
	return msgs
}

var listAcks = []string{"honest", "honest", "honest", "honest", "another key", "unsigned", "altered", "too few", "too many", "bad one", "unsigned one", "foreign one", "wrong kind", "noise", "none"}

// acks answers a list. It returns what may be sent, and which publications are then acknowledged: all before the first false one
// may be, and if there is no false one all must be.
func (g *lister) acks(w *listWorld, msgs []fcrmessages.FCRMessage, way string, at int) (reply *fcrmessages.FCRMessage, each []fcrmessages.FCRMessage, good int, all bool) {
	all, good = true, len(msgs)
	spoilt := len(msgs) > 0
	if spoilt {
		at %= len(msgs)
	}
	for i := range msgs {
		_, nonce, _, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[i])
		if err != nil {
			panic(err)
		}
		key, outer, body := g.key, g.key, msgs[i].GetMessageBody()
		if i == at && way == "bad one" {
			body = append([]byte(" "), body...)
		}
		if i == at && way == "foreign one" {
			key, outer = vt.Key(598), vt.Key(598)
		}
		sig, err := fcrcrypto.SignMessage(key, vt.Ver(1), body)
		if err != nil {
			panic(err)
		}
		a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)
		if err != nil {
			panic(err)
		}
		if !(i == at && way == "unsigned one") {
			if err := a.Sign(outer, vt.Ver(1)); err != nil {
				panic(err)
			}
		}
		each = append(each, *a)
	}
	switch way {
	case "bad one", "foreign one", "unsigned one":
		if spoilt {
			good, all = at, false
		}
	case "too few":
		if spoilt {
			each = append(each[:at:at], each[at+1:]...)
			good, all = 0, false
		}
	case "too many":
		a, err := fcrmessages.EncodeProviderPublishDHTOfferResponse(1, "")
		if err != nil {
			panic(err)
		}
		each = append(each, *a)
		good, all = 0, false
	}
	m, err := fcrmessages.EncodeGatewayListDHTOfferAck(each)
	if err != nil {
		panic(err)
	}
	if way == "wrong kind" {
		m = fcrmessages.CreateFCRMessage(fcrmessages.GatewayListDHTOfferResponseType, m.GetMessageBody())
		good, all = 0, false
	}
	if err := m.Sign(g.key, vt.Ver(1)); err != nil {
		panic(err)
	}
	switch way {
	case "another key":
		if err := m.Sign(vt.Key(599), vt.Ver(1)); err != nil {
			panic(err)
		}
		good, all = 0, false
	case "unsigned":
		m = fcrmessages.CreateFCRMessage(m.GetMessageType(), m.GetMessageBody())
		good, all = 0, false
	case "altered":
		m = vtnode.WithSignature(fcrmessages.CreateFCRMessage(m.GetMessageType(), append([]byte(" "), m.GetMessageBody()...)), m.GetSignature())
		good, all = 0, false
	case "noise", "none":
		good, all = 0, false
	}
	return m, each, good, all
}

// join makes a gateway ask for a range and acknowledge what it gets. It returns how to note what is then recorded.
func (w *listWorld) join(t vtnode.T, g *lister, lo, hi *cid.ContentID, way string, at int, maybe map[string]*cid.ContentID) (int, func()) {
	c := w.Dial(t, w.Peer)
	defer c.Close()
	c.Send(t, w.request(g, lo, hi))
	msgs := w.checkList(t, c.Read(t), lo, hi, maybe)
	reply, each, good, all := g.acks(w, msgs, way, at)
	switch way {
	case "none":
	case "noise":
		c.Write([]byte{0, 0, 0, 3, 'a', 'b', 'c'})
		c.Read(t)
	default:
		c.Send(t, reply)
		// once the next request is answered, or the connection closed, the acknowledgements have been dealt with
		c.Send(t, w.request(g, lo, lo))
		if r := c.Read(t); r == nil && all {
			t.Fatalf("the connection is closed after good acknowledgements of %d publications", len(msgs))
		}
	}
	return len(msgs), func() {
		for i := 0; i < good; i++ {
			_, _, os, _ := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[i])
			for j := range os {
				k := os[j].GetCIDs()[0].ToString() + "|" + g.id.ToString()
				r := w.records[k]
				if r == nil {
					r = &record{}
					w.records[k] = r
				}
				if all {
					// a piece may be in several publications of the list
					first := true
					for x := 0; x < i; x++ {
						_, _, before, _ := fcrmessages.DecodeProviderPublishDHTOfferRequest(&msgs[x])
						for y := range before {
							first = first && before[y].GetCIDs()[0].ToString() != os[j].GetCIDs()[0].ToString()
						}
					}
					r.must = true
					if first {
						r.cand = nil
					}
				}
				r.cand = append(r.cand, [2]*fcrmessages.FCRMessage{&msgs[i], &each[i]})
			}
		}
	}
}

// evidence compares what the provider says about a gateway and a piece with what happened.
func (w *listWorld) evidence(t vtnode.T, p *cid.ContentID, id *nodeid.NodeID) {
	pw := &provWorld{Node: w.Node}
	found, msg, ack := pw.evidence(t, p, id)
	r := w.records[p.ToString()+"|"+id.ToString()]
	if r == nil {
		r = &record{}
	}
	if !found {
		if r.must {
			t.Fatalf("gateway %s acknowledged piece %s in a list, but this is not recorded", id.ToString(), p.ToString())
		}
		return
	}
	for _, c := range r.cand {
		if same(c[0], msg) && same(c[1], ack) {
			return
		}
	}
	t.Fatalf("the evidence that gateway %s acknowledged piece %s is none of its %d acknowledgements", id.ToString(), p.ToString(), len(r.cand))
}

func TestV02_List(t *testing.T) {
	vt.Check(t, 40, func(rt *rapid.T, c *vt.Case) {
		w := listing(rt)
		anchor := freshID(rt, "anchor")
		nt := false
		for s := rapid.IntRange(2, 8).Draw(rt, "steps"); s > 0; s-- {
			switch k := rapid.IntRange(0, 12).Draw(rt, "step"); {
			case k < 3:
				n := rapid.IntRange(1, 6).Draw(rt, "offers")
				if rapid.IntRange(0, 9).Draw(rt, "bulk") == 0 {
					n = rapid.IntRange(51, 300).Draw(rt, "many")
					c.Class("bulk")
				}
				o := w.gen(rt, anchor, n)
				w.publish(rt, o)
				w.know(o)
				c.Addf("pub%d", n)
			case k < 8:
				g := w.who[rapid.IntRange(0, len(w.who)-1).Draw(rt, "gateway")]
				lo, hi := w.span(rt, anchor)
				way := rapid.SampledFrom(listAcks).Draw(rt, "acks")
				n, note := w.join(rt, g, lo, hi, way, rapid.IntRange(0, 5).Draw(rt, "at"), nil)
				note()
				c.Addf("list%d:%s", n, way)
				if n > 0 {
					nt = true
					c.Class("acknowledged: " + way)
				}
				if n > 1 {
					c.Class("several publications in a list")
				}
				if n == 10 {
					c.Class("as many as there may be")
				}
			case k == 8: // together, while something is published
				var fs []func()
				var notes []func()
				var mu sync.Mutex
				o := w.gen(rt, anchor, rapid.IntRange(1, 4).Draw(rt, "offers"))
				maybe := map[string]*cid.ContentID{}
				for i := range o.cids {
					maybe[o.key(i)] = &o.cids[i]
				}
				fs = append(fs, func() { w.publish(pt{}, o) })
				for i, g := range w.who {
					if i == 0 || rapid.Bool().Draw(rt, "joins") {
						g := g
						lo, hi := w.span(rt, anchor)
						fs = append(fs, func() {
							_, note := w.join(pt{}, g, lo, hi, "honest", 0, maybe)
							mu.Lock()
							notes = append(notes, note)
							mu.Unlock()
						})
					}
				}
				if f := vt.Parallel("lists", fs...); len(f) > 0 {
					rt.Fatalf("%s", f[0])
				}
				for _, n := range notes {
					n()
				}
				w.know(o)
				c.Class("concurrent")
			case k < 11: // a request that is not authentic
				g := w.who[rapid.IntRange(0, len(w.who)-1).Draw(rt, "gateway")]
				lo, hi := w.span(rt, anchor)
				m := w.request(g, lo, hi)
				flaw := rapid.SampledFrom([]string{"unregistered", "another key", "another gateway's key", "unsigned", "altered", "malformed"}).Draw(rt, "flaw")
				switch flaw {
				case "unregistered":
					m = w.request(&lister{vt.Node(unique()), g.key}, lo, hi)
				case "another key":
					m = w.request(&lister{g.id, vt.Key(599)}, lo, hi)
				case "another gateway's key":
					m = w.request(&lister{g.id, w.other(g).key}, lo, hi)
				case "unsigned":
					m = fcrmessages.CreateFCRMessage(m.GetMessageType(), m.GetMessageBody())
				case "altered":
					m = vtnode.WithSignature(w.request(g, hi, lo), m.GetSignature())
					if lo.ToString() == hi.ToString() {
						m = vtnode.WithSignature(w.request(g, lo, vt.CID(unique())), m.GetSignature())
					}
				case "malformed":
					b := m.GetMessageBody()
					m = fcrmessages.CreateFCRMessage(m.GetMessageType(), b[:len(b)-rapid.IntRange(1, len(b)).Draw(rt, "cut")])
					if err := m.Sign(g.key, vt.Ver(1)); err != nil {
						panic(err)
					}
				}
				if r := w.Ask(rt, w.Peer, m); !vtnode.IsInvalid(r) {
					rt.Fatalf("a request for offers with the flaw %q is answered with type %d", flaw, r.GetMessageType())
				}
				c.Class("forged: " + flaw)
				c.Addf("%s", flaw)
			case k == 11: // a gateway's registered key changes
				g := w.who[rapid.IntRange(0, len(w.who)-1).Draw(rt, "gateway")]
				g.key = vt.Key(610 + rapid.IntRange(0, 30).Draw(rt, "key"))
				w.rekey()
				w.Refresh(rt)
				c.Class("key changed")
			default:
				if len(w.pieces) > 0 {
					for i := 0; i < 3; i++ {
						w.evidence(rt, w.pieces[rapid.IntRange(0, len(w.pieces)-1).Draw(rt, "piece")], w.who[rapid.IntRange(0, len(w.who)-1).Draw(rt, "gateway")].id)
					}
				}
			}
		}
		// evidence for the latest pieces
		for i := len(w.pieces) - 1; i >= 0 && i >= len(w.pieces)-12; i-- {
			for _, g := range w.who {
				w.evidence(rt, w.pieces[i], g.id)
			}
		}
		w.evidence(rt, vt.CID(unique()), w.who[0].id)
		if len(w.pieces) > 0 {
			w.evidence(rt, w.pieces[0], vt.Node(unique()))
		}
		w.Alive(rt)
		if nt {
			c.NonTrivial("listed")
		}
	})
}

// other is a gateway with another key.
func (w *listWorld) other(g *lister) *lister {
	for _, o := range w.who {
		if o != g && vt.PubHex(o.key) != vt.PubHex(g.key) {
			return o
		}
	}
	return &lister{g.id, vt.Key(597)}
}

func TestV02_Many(t *testing.T) {
	vt.Check(t, 4, func(rt *rapid.T, c *vt.Case) {
		w := listing(rt)
		anchor := freshID(rt, "anchor")
		total := rapid.IntRange(400, 640).Draw(rt, "total")
		if rapid.Bool().Draw(rt, "at the edge") {
			total = rapid.SampledFrom([]int{449, 450, 451, 499, 500, 501, 550}).Draw(rt, "edge")
		}
		past := rapid.IntRange(0, 60).Draw(rt, "expired ones")
		o := &order{}
		for i := 0; i < total+past; i++ {
			b := append([]byte{}, anchor...)
			b[30], b[31] = byte(i>>8), byte(i)
			e := int64(4102444800 + i)
			if i%11 == 3 && past > 0 {
				e = int64(i)
				past--
				total--
			}
			o.cids = append(o.cids, *vt.CID(b))
			o.price, o.expiry, o.qos = append(o.price, uint64(i)), append(o.expiry, e), append(o.qos, 1)
		}
		for at := 0; at < len(o.cids); {
			n := rapid.IntRange(100, 400).Draw(rt, "at once")
			if n > len(o.cids)-at {
				n = len(o.cids) - at
			}
			p := &order{false, o.cids[at : at+n], o.price[at : at+n], o.expiry[at : at+n], o.qos[at : at+n]}
			w.publish(rt, p)
			w.know(p)
			at += n
		}
		g := w.who[rapid.IntRange(0, 2).Draw(rt, "gateway")]
		lo, hi := append([]byte{}, anchor...), append([]byte{}, anchor...)
		lo[30], lo[31], hi[30], hi[31] = 0, 0, 0xff, 0xff
		if rapid.Bool().Draw(rt, "the other way round") { // everything but the middle
			lo, hi = hi, lo
		}
		n, note := w.join(rt, g, vt.CID(lo), vt.CID(hi), "honest", 0, nil)
		note()
		for i := 0; i < 10; i++ {
			w.evidence(rt, &o.cids[rapid.IntRange(0, len(o.cids)-1).Draw(rt, "piece")], g.id)
		}
		c.Addf("%d of %d", n, len(o.cids))
		if n > 0 {
			c.NonTrivial("many offers")
		}
		w.Alive(rt)
	})
}
