package nodes

import (
	"encoding/base64"
	"fmt"
	"math/big"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtpay"
	"github.com/filecoin-project/lotus/lib/sigs"
	"pgregory.net/rapid"
)

func circ(a, b *big.Int) *big.Int {
	x := new(big.Int).Sub(a, b)
	x.Mod(x, vt.Two256)
	y := new(big.Int).Sub(vt.Two256, x)
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}

// nearest tells what is wrong with a choice of the n peers nearest to a target.
func nearest(all [][]byte, target []byte, n int, res []string) string {
	t := new(big.Int).SetBytes(target)
	cand := map[string]*big.Int{}
	for _, m := range all {
		cand[vt.Hex(m)] = new(big.Int).SetBytes(m)
	}
	if n > 16 {
		n = 16
	}
	if n > len(cand) {
		n = len(cand)
	}
	if len(res) != n {
		return fmt.Sprintf("%d peers are accounted for, want %d of %d", len(res), n, len(cand))
	}
	in := map[string]bool{}
	far := new(big.Int)
	for _, r := range res {
		if in[r] {
			return "peer " + r + " is accounted for twice"
		}
		in[r] = true
		if cand[r] == nil {
			return "peer " + r + " is not a registered one"
		}
		if d := circ(t, cand[r]); d.Cmp(far) > 0 {
			far = d
		}
	}
	for k, v := range cand {
		if !in[k] && circ(t, v).Cmp(far) < 0 {
			return "the nearer peer " + k + " is left out"
		}
	}
	return ""
}

// what a peer does with a request
var (
	goodWays = []string{"honest", "honest", "honest", "honest", "slow", "other piece", "other kind"}
	badWays  = []string{"another key", "unsigned", "altered", "refusal", "noise", "close", "half"}
)

type dhtPeer struct {
	*vtnode.Fake
	raw   []byte
	alive bool
	mu    sync.Mutex
	way   map[string]string                    // piece -> behaviour
	sent  map[string][]*fcrmessages.FCRMessage // piece -> answers
	got   map[string][]*fcrmessages.FCRMessage // piece -> requests
	due   *big.Int                             // what this peer's vouchers add up to
}

type dhtWorld struct {
	*gwWorld
	peers []*dhtPeer
	cases int
}

var theDHT *dhtWorld

func (p *dhtPeer) ok(piece string) bool {
	if !p.alive {
		return false
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	for _, g := range goodWays {
		if p.way[piece] == g {
			return true
		}
	}
	return false
}

// pieceOf returns the piece a request is about.
func pieceOf(m *fcrmessages.FCRMessage) (p *cid.ContentID, nonce int64, err error) {
	switch m.GetMessageType() {
	case fcrmessages.GatewayDHTDiscoverRequestType:
		_, p, nonce, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverRequest(m)
	case fcrmessages.GatewayDHTDiscoverRequestV2Type:
		_, p, nonce, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverRequestV2(m)
	case fcrmessages.GatewayDHTDiscoverOfferRequestType:
		p, nonce, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(m)
	default:
		err = fmt.Errorf("type %d", m.GetMessageType())
	}
	return
}

// deadline returns the time until which a request is valid.
func deadline(m *fcrmessages.FCRMessage) (till int64) {
	till = 1<<63 - 1
	switch m.GetMessageType() {
	case fcrmessages.GatewayDHTDiscoverRequestType:
		_, _, _, till, _, _, _ = fcrmessages.DecodeGatewayDHTDiscoverRequest(m)
	case fcrmessages.GatewayDHTDiscoverRequestV2Type:
		_, _, _, till, _, _, _ = fcrmessages.DecodeGatewayDHTDiscoverRequestV2(m)
	}
	return
}

func (p *dhtPeer) answer(m *fcrmessages.FCRMessage, prov *prov) vtnode.Reply {
	piece, nonce, err := pieceOf(m)
	if err != nil {
		p.mu.Lock()
		p.got["?"] = append(p.got["?"], m)
		p.mu.Unlock()
		return vtnode.Reply{Close: true}
	}
	k := piece.ToString()
	p.mu.Lock()
	if till := deadline(m); till < time.Now().Unix() {
		p.got["?"] = append(p.got["?"], m)
	}
	way := p.way[k]
	p.got[k] = append(p.got[k], m)
	n := len(p.got[k])
	p.mu.Unlock()
	about := piece
	if way == "other piece" {
		about = vt.CID(p.raw)
	}
	o := vt.Offer(prov.key, prov.ver, prov.id, []cid.ContentID{*about}, uint64(n), 4102444800, 7)
	sub, err := o.GenerateSubCIDOffer(about)
	if err != nil {
		panic(err)
	}
	var r *fcrmessages.FCRMessage
	t := m.GetMessageType()
	if way == "other kind" {
		t = fcrmessages.GatewayDHTDiscoverRequestV2Type + fcrmessages.GatewayDHTDiscoverRequestType - t
	}
	switch t {
	case fcrmessages.GatewayDHTDiscoverRequestV2Type:
		r, err = fcrmessages.EncodeGatewayDHTDiscoverResponseV2(about, nonce, true, []string{digest(o)}, []bool{false}, false, "")
	case fcrmessages.GatewayDHTDiscoverRequestType:
		r, err = fcrmessages.EncodeGatewayDHTDiscoverResponse(about, nonce, true, []cidoffer.SubCIDOffer{*sub}, []bool{false})
	default:
		r, err = fcrmessages.EncodeGatewayDHTDiscoverOfferResponse(about, nonce, true, []cidoffer.SubCIDOffer{*sub}, []bool{false}, false, "")
	}
	r = p.Sign(r, err)
	rep := vtnode.Reply{Msg: r}
	if way == "slow" {
		time.Sleep(30 * time.Millisecond)
	}
	switch way {
	case "another key":
		if err := r.Sign(vt.Key(599), p.Ver); err != nil {
			panic(err)
		}
	case "unsigned":
		rep.Msg = fcrmessages.CreateFCRMessage(r.GetMessageType(), r.GetMessageBody())
	case "altered":
		b := append([]byte(" "), r.GetMessageBody()...)
		rep.Msg = vtnode.WithSignature(fcrmessages.CreateFCRMessage(r.GetMessageType(), b), r.GetSignature())
	case "refusal":
		x, err := fcrmessages.EncodeInvalidMessageResponse()
		if err != nil {
			panic(err)
		}
		rep.Msg = x
	case "noise":
		rep.Msg, rep.Raw = nil, []byte{0, 0, 0, 3, 'a', 'b', 'c'}
	case "close":
		rep.Msg, rep.Close = nil, true
	case "half":
		f := vtnode.Frame(r)
		rep.Msg, rep.Raw, rep.Close = nil, f[:len(f)/2], true
	default:
		p.mu.Lock()
		p.sent[k] = append(p.sent[k], r)
		p.mu.Unlock()
	}
	return rep
}

func dht(t vtnode.T, rt *rapid.T) *dhtWorld {
	if theDHT != nil && (theDHT.Dead() || theDHT.cases >= 12) {
		theDHT.close()
	}
	if theDHT == nil {
		theDHT = &dhtWorld{gwWorld: newGW(t, 0)}
	}
	theDHT.cases++
	return theDHT
}

func (w *dhtWorld) close() {
	for _, p := range w.peers {
		p.Close()
	}
	w.Stop()
	w.lotus.Close()
	w.reg.Close()
	theDHT = nil
}

func (w *dhtWorld) addPeer(id []byte, alive bool) {
	i := len(w.peers)
	p := &dhtPeer{raw: id, alive: alive, way: map[string]string{}, sent: map[string][]*fcrmessages.FCRMessage{}, got: map[string][]*fcrmessages.FCRMessage{}, due: new(big.Int)}
	wal := vtpay.NewWallet(200 + i)
	w.lotus.Know(wal)
	prov := w.provs[i%len(w.provs)]
	p.Fake = vtnode.NewFake(vt.Node(id), vt.Key(500+i%40), wal, func(m *fcrmessages.FCRMessage) vtnode.Reply { return p.answer(m, prov) })
	if !alive {
		p.Close()
	}
	w.peers = append(w.peers, p)
}

func (w *dhtWorld) publish() {
	var l []register.GatewayRegister
	for _, p := range w.peers {
		g := p.Gateway()
		if !p.alive {
			g.NetworkInfoGateway = "127.0.0.1:1"
		}
		l = append(l, g)
	}
	w.register(l...)
}

func (w *dhtWorld) byID(id string) *dhtPeer {
	for _, p := range w.peers {
		if p.ID.ToString() == id {
			return p
		}
	}
	return nil
}

// voucher checks a payment made to a peer and returns the sum of that peer's payments.
func (w *dhtWorld) voucher(t vtnode.T, p *dhtPeer, ch, v string) *big.Int {
	sv, err := vtpay.Read(v)
	if err != nil {
		t.Fatalf("a peer is paid with no voucher: %v", err)
	}
	if sv.ChannelAddr.String() != ch {
		t.Fatalf("a peer gets a voucher for channel %s with the address %s", sv.ChannelAddr, ch)
	}
	var funds *big.Int
	for _, c := range w.lotus.Between(w.me, p.Wallet) {
		if c.Addr == sv.ChannelAddr {
			w.lotus.With(func() { funds = new(big.Int).Set(c.Balance) })
		}
	}
	if funds == nil {
		t.Fatalf("a peer is paid through channel %s, which is not the gateway's to that peer", ch)
	}
	b, err := sv.SigningBytes()
	if err != nil {
		t.Fatalf("voucher: %v", err)
	}
	if err := sigs.Verify(sv.Signature, w.me.Addr, b); err != nil {
		t.Fatalf("a peer is paid with a voucher that is not signed by the gateway: %v", err)
	}
	if sv.Amount.Int.Cmp(funds) > 0 {
		t.Fatalf("a peer is paid %s out of a channel holding %s", sv.Amount, funds)
	}
	return sv.Amount.Int
}

// chain is what the gateway has put into channels.
func (w *dhtWorld) chain() string {
	s := new(big.Int)
	n := 0
	w.lotus.With(func() {
		for _, c := range w.lotus.Channels {
			if c.From == w.me.ID {
				n++
				s.Add(s, c.Balance)
			}
		}
	})
	return fmt.Sprint(n, " channels holding ", s)
}

func TestG06_Search(t *testing.T) {
	vt.Check(t, 40, func(rt *rapid.T, c *vt.Case) {
		w := dht(rt, rt)
		max := 40 - len(w.peers)
		if max > 8 {
			max = 8
		}
		start := 0
		if len(w.peers) == 0 {
			start = 1
		}
		if max > start {
			for i := rapid.IntRange(start, max).Draw(rt, "new peers"); i > 0; i-- {
				w.addPeer(freshID(rt, "peer"), rapid.IntRange(0, 5).Draw(rt, "dead") > 0)
			}
		}
		w.publish()
		w.Refresh(rt)
		var all [][]byte
		for _, p := range w.peers {
			all = append(all, p.raw)
		}
		var mu sync.Mutex
		type search struct {
			kind   string
			piece  string
			listed []*dhtPeer
			each   map[*dhtPeer]*big.Int // due to each
		}
		var done []search
		var plan []func(t vtnode.T)
		paidFor, faults, unpaid := 0, 0, 0
		ways := map[string]string{}
		n := rapid.IntRange(1, 4).Draw(rt, "searches")
		together := n > 1 && rapid.Bool().Draw(rt, "together")
		for i := 0; i < n; i++ {
			raw := freshID(rt, "piece")
			if rapid.IntRange(0, 2).Draw(rt, "near a peer") == 0 {
				raw = unique(w.peers[rapid.IntRange(0, len(w.peers)-1).Draw(rt, "peer")].raw[:rapid.IntRange(1, 24).Draw(rt, "bytes")]...)
			}
			p := vt.CID(raw)
			piece := p.ToString()
			common := rapid.SampledFrom([]string{"", "", "honest", "bad"}).Draw(rt, "ways")
			for _, q := range w.peers {
				way := common
				if way == "" {
					way = "honest"
					if rapid.IntRange(0, 1).Draw(rt, "odd") == 1 {
						way = rapid.SampledFrom(append(append([]string{}, goodWays...), badWays...)).Draw(rt, "way")
					}
				} else if way == "bad" {
					way = rapid.SampledFrom(badWays).Draw(rt, "way")
				}
				q.mu.Lock()
				q.way[piece] = way
				q.mu.Unlock()
				ways[q.ID.ToString()+piece] = way
				if !q.ok(piece) {
					faults++
				}
			}
			nonce := vt.Int64().Draw(rt, "nonce")
			till := rapid.SampledFrom([]int64{ttl(), ttl() + 1000000, 1<<63 - 1}).Draw(rt, "ttl")
			kind := rapid.SampledFrom([]string{"free", "free", "paid", "paid", "offers", "offers", "late", "bad", "none"}).Draw(rt, "search")
			num := rapid.SampledFrom([]int64{1, 2, 3, 4, 5, 7, 15, 16, 17, 30, 1000}).Draw(rt, "peers asked")
			c.Class(kind)
			c.Addf("%s %d of %d", kind, num, len(w.peers))
			// accounts checks what the response says
			accounts := func(t vtnode.T, contacted []nodeid.NodeID, resp []fcrmessages.FCRMessage, un []nodeid.NodeID) (ids []string, listed []*dhtPeer) {
				if len(contacted) != len(resp) {
					t.Fatalf("%d peers contacted with %d answers", len(contacted), len(resp))
				}
				for i := range contacted {
					id := contacted[i].ToString()
					q := w.byID(id)
					if q == nil {
						t.Fatalf("%s, which is no peer, is contacted", id)
					}
					if !q.ok(piece) {
						t.Fatalf("peer %s (alive: %v, way %q) is said to be contacted", id, q.alive, ways[id+piece])
					}
					q.mu.Lock()
					sent := q.sent[piece]
					q.mu.Unlock()
					if len(sent) != 1 {
						t.Fatalf("peer %s is said to be contacted, having sent %d answers", id, len(sent))
					}
					if string(sent[0].GetMessageBody()) != string(resp[i].GetMessageBody()) || sent[0].GetMessageType() != resp[i].GetMessageType() || sent[0].GetSignature() != resp[i].GetSignature() {
						t.Fatalf("peer %s's answer is passed on as %d %s, it was %d %s", id, resp[i].GetMessageType(), resp[i].GetMessageBody(), sent[0].GetMessageType(), sent[0].GetMessageBody())
					}
					if err := resp[i].Verify(vt.Pub(q.Key)); err != nil {
						t.Fatalf("peer %s's answer does not verify: %v", id, err)
					}
					ids = append(ids, id)
					listed = append(listed, q)
				}
				for i := range un {
					id := un[i].ToString()
					q := w.byID(id)
					if q == nil {
						t.Fatalf("%s, which is no peer, is uncontactable", id)
					}
					if q.ok(piece) {
						t.Fatalf("peer %s (way %q) is said to be uncontactable", id, ways[id+piece])
					}
					ids = append(ids, id)
					listed = append(listed, q)
				}
				return
			}
			same := func(listed []*dhtPeer, price *big.Int) map[*dhtPeer]*big.Int {
				m := map[*dhtPeer]*big.Int{}
				for _, q := range listed {
					m[q] = price
				}
				return m
			}
			record := func(s search) {
				mu.Lock()
				done = append(done, s)
				mu.Unlock()
			}
			switch kind {
			case "free":
				m, err := fcrmessages.EncodeClientDHTDiscoverRequest(p, nonce, till, num, rapid.Bool().Draw(rt, "incremental"), "", "")
				plan = append(plan, func(t vtnode.T) {
					r := w.Signed(t, w.Client, m, err)
					contacted, resp, un, rn, _, _, err := fcrmessages.DecodeClientDHTDiscoverResponse(r)
					if err != nil {
						t.Fatalf("response: %v", err)
					}
					if rn != nonce {
						t.Fatalf("search %d is answered as %d", nonce, rn)
					}
					ids, listed := accounts(t, contacted, resp, un)
					if e := nearest(all, raw, int(num), ids); e != "" {
						t.Fatalf("search for %s among %d: %s", piece, len(all), e)
					}
					record(search{kind, piece, listed, same(listed, nil)})
				})
			case "none": // nobody to ask
				m, err := fcrmessages.EncodeClientDHTDiscoverRequest(p, nonce, till, rapid.SampledFrom([]int64{0, -1, -1 << 63}).Draw(rt, "nobody"), false, "", "")
				if err != nil {
					rt.Fatalf("%v", err)
				}
				plan = append(plan, func(t vtnode.T) {
					if r, _ := w.Post(t, w.Client, m); r != nil {
						w.Mine(t, r)
						contacted, _, un, rn, _, _, err := fcrmessages.DecodeClientDHTDiscoverResponse(r)
						if err != nil || rn != nonce || len(contacted)+len(un) > 0 {
							t.Fatalf("a search of nobody is answered with %d and %d peers, nonce %d: %v", len(contacted), len(un), rn, err)
						}
					}
					record(search{kind, piece, nil, nil})
				})
			case "late", "bad":
				var m *fcrmessages.FCRMessage
				var err error
				v2 := rapid.Bool().Draw(rt, "v2")
				if kind == "late" {
					till = rapid.SampledFrom([]int64{time.Now().Unix() - 2, 0, -1, -1 << 63}).Draw(rt, "late")
				}
				if v2 {
					ch, v := w.lane().Pay(w.search(int(num)))
					m, err = fcrmessages.EncodeClientDHTDiscoverRequestV2(p, nonce, till, num, false, ch, v)
				} else {
					m, err = fcrmessages.EncodeClientDHTDiscoverRequest(p, nonce, till, num, false, "", "")
				}
				if err != nil {
					rt.Fatalf("%v", err)
				}
				if kind == "bad" {
					m = spoil(rt, m)
				}
				plan = append(plan, func(t vtnode.T) {
					if r, st := w.Post(t, w.Client, m); r != nil || kind == "bad" && st < 400 {
						t.Fatalf("a search (%s) is answered with status %d", kind, st)
					}
					record(search{kind, piece, nil, nil})
				})
			case "paid":
				pay := w.pay(rt, w.search(int(num)), "payment")
				c.Class("paid: " + pay.kind)
				m, err := fcrmessages.EncodeClientDHTDiscoverRequestV2(p, nonce, till, num, rapid.Bool().Draw(rt, "incremental"), pay.ch, pay.voucher)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				if pay.enough {
					paidFor++
				} else {
					unpaid++
				}
				plan = append(plan, func(t vtnode.T) {
					if !pay.enough {
						before := w.chain()
						if r, st := w.Post(t, w.Client, m); r != nil || st < 400 {
							t.Fatalf("a search with a payment of kind %q is answered with status %d", pay.kind, st)
						}
						if after := w.chain(); !together && after != before {
							t.Fatalf("a search with a payment of kind %q makes the gateway spend: %s, was %s", pay.kind, after, before)
						}
						record(search{kind, piece, nil, nil})
						return
					}
					r := w.Signed(t, w.Client, m, nil)
					contacted, resp, un, rn, _, _, err := fcrmessages.DecodeClientDHTDiscoverResponseV2(r)
					if err != nil {
						t.Fatalf("response: %v", err)
					}
					if rn != nonce {
						t.Fatalf("search %d is answered as %d", nonce, rn)
					}
					ids, listed := accounts(t, contacted, resp, un)
					if e := nearest(all, raw, int(num), ids); e != "" {
						t.Fatalf("search for %s among %d: %s", piece, len(all), e)
					}
					record(search{kind, piece, listed, same(listed, w.search(1))})
				})
			case "offers":
				var targets []nodeid.NodeID
				var digests [][]string
				var known []*dhtPeer
				each := map[*dhtPeer]*big.Int{}
				wantAsked := map[*dhtPeer][]string{}
				total := 0
				most := int(w.Config.Topup / w.Config.OfferPrice)
				if most > 4 {
					most = 4
				}
				used := map[int]bool{}
				for j := rapid.IntRange(1, 5).Draw(rt, "targets"); j > 0; j-- {
					var ds []string
					for k := rapid.IntRange(1, most).Draw(rt, "digests"); k > 0; k-- {
						ds = append(ds, base64.StdEncoding.EncodeToString(unique(byte(k))))
					}
					at := rapid.IntRange(-1, len(w.peers)-1).Draw(rt, "target")
					if used[at] {
						continue
					}
					if at < 0 {
						targets = append(targets, *vt.Node(unique(3)))
						c.Class("unknown target")
					} else {
						used[at] = true
						q := w.peers[at]
						targets = append(targets, *q.ID)
						known = append(known, q)
						each[q] = w.offers(len(ds))
						wantAsked[q] = ds
					}
					digests = append(digests, ds)
					total += len(ds)
				}
				pay := w.pay(rt, w.offers(total), "payment")
				c.Class("offers: " + pay.kind)
				m, err := fcrmessages.EncodeClientDHTDiscoverOfferRequest(p, nonce, digests, targets, pay.ch, pay.voucher)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				if pay.enough {
					paidFor++
				} else {
					unpaid++
				}
				plan = append(plan, func(t vtnode.T) {
					if !pay.enough {
						before := w.chain()
						if r, st := w.Post(t, w.Client, m); r != nil || st < 400 {
							t.Fatalf("a purchase with a payment of kind %q is answered with status %d", pay.kind, st)
						}
						if after := w.chain(); !together && after != before {
							t.Fatalf("a purchase with a payment of kind %q makes the gateway spend: %s, was %s", pay.kind, after, before)
						}
						record(search{kind, piece, nil, nil})
						return
					}
					r := w.Signed(t, w.Client, m, nil)
					rp, rn, contacted, resp, _, _, err := fcrmessages.DecodeClientDHTDiscoverOfferResponse(r)
					if err != nil {
						t.Fatalf("response: %v", err)
					}
					if rn != nonce || rp.ToString() != piece {
						t.Fatalf("purchase of %s (%d) is answered as %s (%d)", piece, nonce, rp.ToString(), rn)
					}
					ids, _ := accounts(t, contacted, resp, nil)
					var want []string
					for _, q := range known {
						if q.ok(piece) {
							want = append(want, q.ID.ToString())
						}
					}
					if fmt.Sprint(sorted(ids)) != fmt.Sprint(sorted(want)) {
						t.Fatalf("offers are bought from %v, want %v", ids, want)
					}
					for _, q := range known {
						q.mu.Lock()
						reqs := q.got[piece]
						q.mu.Unlock()
						for _, m := range reqs {
							_, rn, ds, _, _, err := fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(m)
							if err != nil || rn != nonce || fmt.Sprint(ds) != fmt.Sprint(wantAsked[q]) {
								t.Fatalf("peer %s is asked for %v (%d), want %v (%d): %v", q.ID.ToString(), ds, rn, wantAsked[q], nonce, err)
							}
						}
					}
					record(search{kind, piece, known, each})
				})
			}
		}
		if together {
			c.Class("concurrent")
			var fns []func()
			for _, f := range plan {
				f := f
				fns = append(fns, func() { f(pt{}) })
			}
			if fails := vt.Parallel("searches", fns...); len(fails) > 0 {
				rt.Fatalf("%s", fails[0])
			}
		} else {
			for _, f := range plan {
				f(rt)
			}
		}
		w.Alive(rt)
		// who was asked, and paid what
		due := map[*dhtPeer][]*big.Int{}
		for _, s := range done {
			listed := map[*dhtPeer]bool{}
			for _, q := range s.listed {
				listed[q] = true
				if x := s.each[q]; x != nil {
					due[q] = append(due[q], x)
				}
			}
			for _, q := range w.peers {
				q.mu.Lock()
				reqs := q.got[s.piece]
				if len(q.got["?"]) > 0 {
					q.mu.Unlock()
					rt.Fatalf("a peer gets an expired or foreign message: %d %s", q.got["?"][0].GetMessageType(), q.got["?"][0].GetMessageBody())
				}
				q.mu.Unlock()
				want := 0
				if listed[q] && q.alive {
					want = 1
				}
				if len(reqs) != want {
					rt.Fatalf("peer %s gets %d requests for a search of kind %q, want %d (way %q)", q.ID.ToString(), len(reqs), s.kind, want, ways[q.ID.ToString()+s.piece])
				}
				for _, m := range reqs {
					w.Mine(rt, m)
					var by *nodeid.NodeID
					var err error
					switch s.kind {
					case "free":
						by, _, _, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverRequest(m)
					case "paid":
						by, _, _, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverRequestV2(m)
					case "offers":
						_, _, _, _, _, err = fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(m)
						by = w.ID
					}
					if err != nil {
						rt.Fatalf("a peer gets a request of the wrong kind in a search of kind %q: %v", s.kind, err)
					}
					if by.ToString() != w.ID.ToString() {
						rt.Fatalf("a peer is asked in the name of %s", by.ToString())
					}
				}
			}
		}
		for _, q := range w.peers {
			ds := due[q]
			if len(ds) == 0 {
				continue
			}
			if !q.alive {
				for _, x := range ds {
					q.due.Add(q.due, x)
				}
				continue
			}
			var sums []*big.Int
			for _, s := range done {
				q.mu.Lock()
				reqs := q.got[s.piece]
				q.mu.Unlock()
				for _, m := range reqs {
					var ch, v string
					switch s.kind {
					case "paid":
						_, _, _, _, ch, v, _ = fcrmessages.DecodeGatewayDHTDiscoverRequestV2(m)
					case "offers":
						_, _, _, ch, v, _ = fcrmessages.DecodeGatewayDHTDiscoverOfferRequest(m)
					default:
						continue
					}
					sums = append(sums, w.voucher(rt, q, ch, v))
				}
			}
			sort.Slice(sums, func(i, j int) bool { return sums[i].Cmp(sums[j]) < 0 })
			var steps, want []string
			last := new(big.Int).Set(q.due)
			for _, s := range sums {
				steps = append(steps, new(big.Int).Sub(s, last).String())
				last = s
			}
			for _, x := range ds {
				want = append(want, x.String())
				q.due.Add(q.due, x)
			}
			if fmt.Sprint(sorted(steps)) != fmt.Sprint(sorted(want)) {
				rt.Fatalf("peer %s is paid %v, the price is %v", q.ID.ToString(), steps, want)
			}
		}
		if paidFor > 0 {
			c.NonTrivial("paid search")
		} else if faults > 0 {
			c.NonTrivial("search with failing peers")
		} else if unpaid > 0 {
			c.NonTrivial("unpaid search")
		}
	})
	if theDHT != nil {
		theDHT.close()
	}
}
