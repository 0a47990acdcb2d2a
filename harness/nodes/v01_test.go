package nodes

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

// how a gateway takes a publication
var (
	ackWays   = []string{"honest", "honest", "honest", "honest", "slow", "other nonce"}
	noAckWays = []string{"another key", "unsigned", "altered", "of another", "signed by another", "wrong type", "empty", "refusal", "noise", "close", "half"}
)

// pubGW is a stand-in gateway that publications are sent to.
type pubGW struct {
	*vtnode.Fake
	raw   []byte
	alive bool
	mu    sync.Mutex
	ways  []string // how it takes the publications of the case, by their first piece
	way   map[string]string
	got   []taken
	other [][]byte // bodies of other publications
}

// taken is a publication a gateway got, and its answer if that was a good acknowledgement.
type taken struct {
	group  bool
	msg    *fcrmessages.FCRMessage
	offers []cidoffer.CIDOffer
	ack    *fcrmessages.FCRMessage
	bad    string // what is wrong with the message
	batch  int    // the step it belongs to
}

// provWorld is a running provider among stand-in gateways.
type provWorld struct {
	*vtnode.Node
	reg   *vtreg.Server
	gws   []*pubGW
	cases int
	k     int

	genuine map[string]bool // offers seen before
	batch   int64           // publications of one step are in no particular order
}

var (
	theProv *provWorld
	provNo  int
)

func provider(t vtnode.T) *provWorld {
	if theProv != nil && (theProv.Dead() || theProv.cases >= 15) {
		theProv.close()
	}
	if theProv == nil {
		shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
		w := &provWorld{reg: vtreg.New(), k: provNo + shard, genuine: map[string]bool{}}
		provNo++
		w.Node = vtnode.Start("provider", w.reg, vtnode.Config{})
		w.Init(t, vt.Node(unique(byte(37*w.k+90))), vt.Key(70+w.k%5), vt.Ver(uint32(w.k)), nil, nil)
		theProv = w
	}
	theProv.cases++
	return theProv
}

func (w *provWorld) close() {
	for _, g := range w.gws {
		g.Close()
	}
	w.Stop()
	w.reg.Close()
	theProv = nil
}

func (w *provWorld) add(id []byte, alive bool) *pubGW {
	g := &pubGW{raw: id, alive: alive, way: map[string]string{}}
	g.Fake = vtnode.NewFake(vt.Node(id), vt.Key(500+len(w.gws)%40), nil, func(m *fcrmessages.FCRMessage) vtnode.Reply { return g.take(w, m) })
	if !alive {
		g.Close()
	}
	w.gws = append(w.gws, g)
	return g
}

func (w *provWorld) list() {
	var l []register.GatewayRegister
	for _, g := range w.gws {
		e := g.Gateway()
		if !g.alive {
			e.NetworkInfoGateway, e.NetworkInfoProvider = "127.0.0.1:1", "127.0.0.1:1"
		}
		e.NetworkInfoGateway = "127.0.0.1:1" // publications go to the access point for providers
		l = append(l, e)
	}
	w.reg.SetGateways(l...)
}

// take is a gateway's handling of what the provider sends.
func (g *pubGW) take(w *provWorld, m *fcrmessages.FCRMessage) vtnode.Reply {
	k := taken{msg: m, batch: int(atomic.LoadInt64(&w.batch))}
	var nonce int64
	var id *nodeid.NodeID
	var err error
	switch m.GetMessageType() {
	case fcrmessages.ProviderPublishDHTOfferRequestType:
		id, nonce, k.offers, err = fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
	case fcrmessages.ProviderPublishGroupOfferRequestType:
		var o *cidoffer.CIDOffer
		k.group = true
		id, nonce, o, err = fcrmessages.DecodeProviderPublishGroupOfferRequest(m)
		if err == nil {
			k.offers = []cidoffer.CIDOffer{*o}
		}
	default:
		err = fmt.Errorf("message of type %d", m.GetMessageType())
	}
	pub := vt.Pub(w.Key)
	switch {
	case err != nil:
		k.bad = err.Error()
	case len(k.offers) == 0:
		k.bad = "no offers"
	case id.ToString() != w.ID.ToString():
		k.bad = "it names provider " + id.ToString()
	case m.Verify(pub) != nil:
		k.bad = "it is not signed by the provider"
	}
	for i := range k.offers {
		o := &k.offers[i]
		if o.Verify(pub) != nil {
			k.bad = "its offer is not signed by the provider"
		}
		if o.GetProviderID().ToString() != w.ID.ToString() {
			k.bad = "its offer names provider " + o.GetProviderID().ToString()
		}
	}
	way := "honest"
	g.mu.Lock()
	if k.bad == "" {
		way = g.way[k.offers[0].GetCIDs()[0].ToString()]
	}
	at := len(g.got)
	g.got = append(g.got, k)
	var other []byte
	if len(g.other) > 0 {
		other = g.other[0]
	}
	g.other = append(g.other[:0:0], m.GetMessageBody())
	g.mu.Unlock()
	if k.bad != "" {
		return vtnode.Reply{Close: true}
	}
	body := m.GetMessageBody()
	key, inner := g.Key, g.Key
	dig := digest(&k.offers[0])
	switch way {
	case "of another":
		if other == nil || string(other) == string(body) {
			other = append([]byte(" "), body...)
		}
		body = other
		d := [cidoffer.CIDOfferDigestSize]byte{1}
		dig = cidoffer.EncodeMessageDigest(d)
	case "signed by another":
		inner = vt.Key(598)
		key = map[bool]*fcrcrypto.KeyPair{true: inner, false: key}[k.group]
	case "empty":
		dig = ""
	case "other nonce":
		nonce += 5
	}
	sig, err := fcrcrypto.SignMessage(inner, g.Ver, body)
	if err != nil {
		panic(err)
	}
	if way == "empty" {
		sig = ""
	}
	var r *fcrmessages.FCRMessage
	if k.group == (way != "wrong type") {
		r, err = fcrmessages.EncodeProviderPublishGroupOfferResponse(*g.ID, dig)
	} else {
		r, err = fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)
	}
	if err != nil {
		panic(err)
	}
	if err := r.Sign(key, g.Ver); err != nil {
		panic(err)
	}
	rep := vtnode.Reply{Msg: r}
	switch way {
	case "slow":
		time.Sleep(25 * time.Millisecond)
	case "another key":
		if err := r.Sign(vt.Key(599), g.Ver); err != nil {
			panic(err)
		}
	case "unsigned":
		rep.Msg = fcrmessages.CreateFCRMessage(r.GetMessageType(), r.GetMessageBody())
	case "altered":
		rep.Msg = vtnode.WithSignature(fcrmessages.CreateFCRMessage(r.GetMessageType(), append([]byte(" "), r.GetMessageBody()...)), r.GetSignature())
	case "refusal":
		x, err := fcrmessages.EncodeInvalidMessageResponse()
		if err != nil {
			panic(err)
		}
		rep.Msg = x
	case "noise":
		rep.Msg, rep.Raw = nil, []byte{0, 0, 0, 3, 'a', 'b', 'c'}
	case "close":
		rep.Msg, rep.Close = nil, true
	case "half":
		f := vtnode.Frame(r)
		rep.Msg, rep.Raw, rep.Close = nil, f[:len(f)/2], true
	}
	if has(ackWays, way) {
		g.mu.Lock()
		g.got[at].ack = r
		g.mu.Unlock()
	}
	return rep
}

func has(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// since returns what a gateway got from a position on.
func (g *pubGW) since(n int) []taken {
	g.mu.Lock()
	defer g.mu.Unlock()
	return append([]taken{}, g.got[n:]...)
}

func (g *pubGW) count() int { g.mu.Lock(); defer g.mu.Unlock(); return len(g.got) }

// near tells which gateways must get a piece's offer, and which may, when two are as near.
func (w *provWorld) near(p *cid.ContentID) (must, may map[*pubGW]bool) {
	must, may = map[*pubGW]bool{}, map[*pubGW]bool{}
	t := new(big.Int).SetBytes(p.ToBytes())
	ds := make([]*big.Int, len(w.gws))
	for i, g := range w.gws {
		ds[i] = circ(t, new(big.Int).SetBytes(g.raw))
	}
	for i, g := range w.gws {
		less, same := 0, 0
		for j := range ds {
			switch c := ds[j].Cmp(ds[i]); {
			case c < 0:
				less++
			case c == 0 && j != i:
				same++
			}
		}
		if less < 16 {
			may[g] = true
		}
		if less+same < 16 {
			must[g] = true
		}
	}
	return
}

// An order is a publication asked for by the administrator.
type order struct {
	group  bool
	cids   []cid.ContentID
	price  []uint64
	expiry []int64
	qos    []uint64
}

func (o *order) key(i int) string {
	if o.group {
		s := fmt.Sprint("group|", o.price[0], "|", o.expiry[0], "|", o.qos[0])
		for _, c := range o.cids {
			s += "|" + c.ToString()
		}
		return s
	}
	return fmt.Sprint(o.cids[i].ToString(), "|", o.price[i], "|", o.expiry[i], "|", o.qos[i])
}

func (o *order) keys() []string {
	if o.group {
		return []string{o.key(0)}
	}
	var r []string
	for i := range o.cids {
		r = append(r, o.key(i))
	}
	return r
}

func offerKey(group bool, f *cidoffer.CIDOffer) string {
	o := order{group, f.GetCIDs(), []uint64{f.GetPrice()}, []int64{f.GetExpiry()}, []uint64{f.GetQoS()}}
	return o.key(0)
}

func (o *order) message() (*fcrmessages.FCRMessage, error) {
	if o.group {
		return fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(o.cids, o.price[0], o.expiry[0], o.qos[0])
	}
	return fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(o.cids, o.price, o.expiry, o.qos)
}

// place asks the provider to publish.
func (w *provWorld) place(t vtnode.T, o *order) {
	m, err := o.message()
	r := w.Signed(t, w.Admin, m, err)
	var ok bool
	if o.group {
		ok, err = fcrmessages.DecodeProviderAdminPublishGroupOfferResponse(r)
	} else {
		ok, err = fcrmessages.DecodeProviderAdminPublishDHTOfferResponse(r)
	}
	if err != nil || !ok {
		t.Fatalf("a publication is not carried out: %v %v", ok, err)
	}
}

// orders generates a publication of pieces that no earlier case used.
func (w *provWorld) order(rt *rapid.T, before []*order) *order {
	o := &order{group: rapid.IntRange(0, 2).Draw(rt, "group") == 0}
	n := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 1, 2, 3, 4, 2, 3, 4, 1, 2, 3, 4, 5, 1, 2, 3, 4, 5, 1, 2, 3, 4, 2, 3, 4, 1, 2, 3, 99}).Draw(rt, "offers")
	if o.group {
		n = n%10 + 1
	} else if n == 99 {
		n = rapid.IntRange(17, 20).Draw(rt, "many offers")
	}
	for i := 0; i < n; i++ {
		var c *cid.ContentID
		switch k := rapid.IntRange(0, 7).Draw(rt, "piece kind"); {
		case k == 0 && len(w.gws) > 0: // right beside a gateway
			b := append([]byte{}, w.gws[rapid.IntRange(0, len(w.gws)-1).Draw(rt, "beside")].raw...)
			copy(b[28:], unique()[28:])
			c = vt.CID(b)
		case k == 1 && len(before) > 0: // published before
			p := before[rapid.IntRange(0, len(before)-1).Draw(rt, "again")]
			c = &p.cids[rapid.IntRange(0, len(p.cids)-1).Draw(rt, "again piece")]
		case k == 2 && i > 0 && !o.group: // twice in one publication
			c = &o.cids[rapid.IntRange(0, i-1).Draw(rt, "twice")]
		default:
			c = vt.CID(freshID(rt, "piece"))
		}
		if o.group { // pieces of a group are different
			for _, x := range o.cids {
				if x.ToString() == c.ToString() {
					c = vt.CID(unique())
				}
			}
		}
		o.cids = append(o.cids, *c)
		if i == 0 || !o.group {
			e, _ := expiry(rt, false)
			o.expiry = append(o.expiry, e)
			o.price = append(o.price, vt.Uint64().Draw(rt, "price"))
			o.qos = append(o.qos, vt.Uint64().Draw(rt, "qos"))
		}
	}
	return o
}

// behave chooses how the gateways take a publication.
func (w *provWorld) behave(rt *rapid.T, o *order) (bad int) {
	mood := rapid.IntRange(0, 3).Draw(rt, "mood")
	for _, g := range w.gws {
		way := "honest"
		if mood > 0 {
			l := ackWays
			if rapid.IntRange(0, mood).Draw(rt, "bad") > 0 {
				l = noAckWays
				bad++
			}
			way = rapid.SampledFrom(l).Draw(rt, "way")
		}
		g.mu.Lock()
		g.way[o.cids[0].ToString()] = way
		g.mu.Unlock()
	}
	return
}

// grow adds gateways.
func (w *provWorld) grow(rt *rapid.T, most int) {
	max := 40 - len(w.gws)
	if max > most {
		max = most
	}
	start := 0
	if len(w.gws) == 0 {
		start = 1
	}
	if max > start {
		for i := rapid.IntRange(start, max).Draw(rt, "new gateways"); i > 0; i-- {
			w.add(freshID(rt, "gateway"), rapid.IntRange(0, 5).Draw(rt, "dead") > 0)
		}
	}
	w.list()
	w.Refresh(rt)
}

// listed asks for the published offers.
func (w *provWorld) listed(t vtnode.T, ids []nodeid.NodeID) (map[string]bool, error) {
	m, err := fcrmessages.EncodeProviderAdminGetPublishedOfferRequest(ids)
	r := w.Signed(t, w.Admin, m, err)
	found, os, err := fcrmessages.DecodeProviderAdminGetPublishedOfferResponse(r)
	if err != nil {
		t.Fatalf("published offers: %v", err)
	}
	if found != (len(os) > 0) {
		t.Fatalf("published offers: found is %v with %d offers", found, len(os))
	}
	l := map[string]bool{}
	for i := range os {
		o := &os[i]
		x := offerKey(true, o) + "|" + o.GetProviderID().ToString() + "|" + o.GetSignature()
		if !w.genuine[x] {
			if o.Verify(vt.Pub(w.Key)) != nil || o.GetProviderID().ToString() != w.ID.ToString() {
				t.Fatalf("a published offer is listed that is not the provider's: %s", offerKey(len(o.GetCIDs()) > 1, o))
			}
			w.genuine[x] = true
		}
		l[offerKey(len(o.GetCIDs()) > 1, o)] = true
	}
	return l, nil
}

func setText(m map[string]bool) string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return fmt.Sprint(len(l), l)
}

// checkListing compares the listing of some gateways' offers (none: all of them) with what they acknowledged.
func (w *provWorld) checkListing(rt *rapid.T, which []*pubGW, strangers int) {
	want := map[string]bool{}
	var ids []nodeid.NodeID
	for _, g := range which {
		ids = append(ids, *g.ID)
	}
	for i := 0; i < strangers; i++ {
		ids = append(ids, *vt.Node(unique()))
	}
	if len(ids) == 0 {
		which = w.gws
	}
	for _, g := range which {
		for _, k := range g.since(0) {
			if k.ack == nil {
				continue
			}
			for i := range k.offers {
				want[offerKey(k.group, &k.offers[i])] = true
			}
		}
	}
	got, _ := w.listed(rt, ids)
	if setText(got) != setText(want) {
		for k := range got {
			if !want[k] {
				rt.Fatalf("offer %s is listed as published to %d gateways, none of which acknowledged it", k, len(which))
			}
		}
		for k := range want {
			if !got[k] {
				rt.Fatalf("offer %s, acknowledged by one of %d gateways, is not listed as published", k, len(which))
			}
		}
	}
}

// delivered checks who got what of some publications.
func (w *provWorld) delivered(rt *rapid.T, os []*order, from map[*pubGW]int) {
	asked := map[string]bool{}
	for _, o := range os {
		for _, k := range o.keys() {
			asked[k] = true
		}
	}
	for _, g := range w.gws {
		if !g.alive {
			continue
		}
		got := map[string]bool{}
		for _, k := range g.since(from[g]) {
			if k.bad != "" {
				rt.Fatalf("gateway %s gets a wrong publication: %s", g.ID.ToString(), k.bad)
			}
			for i := range k.offers {
				x := offerKey(k.group, &k.offers[i])
				if !asked[x] {
					rt.Fatalf("gateway %s gets the offer %s, which nobody asked to publish", g.ID.ToString(), x)
				}
				got[x] = true
			}
		}
		may := map[string]bool{}
		for _, o := range os {
			for i, k := range o.keys() {
				if o.group {
					may[k] = true
					if !got[k] {
						rt.Fatalf("gateway %s does not get the group offer %s", g.ID.ToString(), k)
					}
					continue
				}
				must, can := w.near(&o.cids[i])
				if must[g] && !got[k] {
					rt.Fatalf("gateway %s, one of the 16 nearest of %d, does not get the offer %s", g.ID.ToString(), len(w.gws), k)
				}
				if can[g] { // it gets the whole publication
					for _, k2 := range o.keys() {
						may[k2] = true
					}
				}
			}
		}
		for k := range got {
			if !may[k] {
				rt.Fatalf("gateway %s gets the offer %s although 16 of %d gateways are nearer to each of the publication's pieces", g.ID.ToString(), k, len(w.gws))
			}
		}
	}
}

// evidence asks whether a gateway acknowledged a piece.
func (w *provWorld) evidence(t vtnode.T, p *cid.ContentID, id *nodeid.NodeID) (bool, *fcrmessages.FCRMessage, *fcrmessages.FCRMessage) {
	m, err := fcrmessages.EncodeClientDHTOfferAckRequest(p, id)
	r := w.Signed(t, w.Client, m, err)
	rp, rid, found, msg, ack, err := fcrmessages.DecodeClientDHTOfferAckResponse(r)
	if err != nil {
		t.Fatalf("evidence: %v", err)
	}
	if rp.ToString() != p.ToString() || rid.ToString() != id.ToString() {
		t.Fatalf("the evidence for piece %s and gateway %s is about piece %s and gateway %s", p.ToString(), id.ToString(), rp.ToString(), rid.ToString())
	}
	return found, msg, ack
}

func same(a, b *fcrmessages.FCRMessage) bool {
	x, err := a.FCRMsgToBytes()
	y, err2 := b.FCRMsgToBytes()
	return err == nil && err2 == nil && string(x) == string(y)
}

// recorded compares the evidence for a piece with a gateway's own record; each of the last step's may be the latest.
func (w *provWorld) recorded(t vtnode.T, p *cid.ContentID, g *pubGW) {
	var cand []taken
	for _, k := range g.since(0) {
		if k.ack == nil || k.group {
			continue
		}
		for j := range k.offers {
			if k.offers[j].GetCIDs()[0].ToString() == p.ToString() {
				if len(cand) > 0 && cand[0].batch != k.batch {
					cand = cand[:0]
				}
				cand = append(cand, k)
				break
			}
		}
	}
	found, msg, ack := w.evidence(t, p, g.ID)
	if found != (len(cand) > 0) {
		t.Fatalf("whether gateway %s acknowledged piece %s is answered with %v; it sent %d good acknowledgements", g.ID.ToString(), p.ToString(), found, len(cand))
	}
	if !found {
		return
	}
	for _, k := range cand {
		if same(msg, k.msg) && same(ack, k.ack) {
			return
		}
	}
	t.Fatalf("the evidence that gateway %s acknowledged piece %s is not the publication it got and its answer", g.ID.ToString(), p.ToString())
}

func TestV01_Publish(t *testing.T) {
	vt.Check(t, 40, func(rt *rapid.T, c *vt.Case) {
		w := provider(rt)
		w.grow(rt, 8)
		var before []*order
		nt := false
		for s := rapid.IntRange(1, 3).Draw(rt, "steps"); s > 0; s-- {
			from := map[*pubGW]int{}
			for _, g := range w.gws {
				from[g] = g.count()
			}
			atomic.AddInt64(&w.batch, 1)
			n := 1
			if rapid.IntRange(0, 2).Draw(rt, "concurrent") == 0 {
				n = rapid.IntRange(2, 3).Draw(rt, "publications")
			}
			var os []*order
			bad := 0
			for i := 0; i < n; i++ {
				o := w.order(rt, before)
				bad += w.behave(rt, o)
				os = append(os, o)
				c.Addf("%v:%d", o.group, len(o.cids))
			}
			before = append(before, os...)
			if n == 1 {
				w.place(rt, os[0])
			} else {
				var fs []func()
				for _, o := range os {
					o := o
					fs = append(fs, func() { w.place(pt{}, o) })
				}
				if f := vt.Parallel("publications", fs...); len(f) > 0 {
					rt.Fatalf("%s", f[0])
				}
				c.Class("concurrent")
			}
			w.Alive(rt)
			w.delivered(rt, os, from)
			live := 0
			for _, g := range w.gws {
				if g.alive {
					live++
				}
			}
			nt = nt || live > 0
			if bad > 0 {
				c.Class("with false acknowledgements")
			}
			// what is recorded
			for _, o := range os {
				if o.group {
					continue
				}
				for i := 0; i < 1+len(o.cids)/8; i++ {
					p := &o.cids[rapid.IntRange(0, len(o.cids)-1).Draw(rt, "asked piece")]
					for _, g := range w.gws {
						w.recorded(rt, p, g)
					}
				}
			}
			if rapid.Bool().Draw(rt, "malformed order") {
				w.misorder(rt, os[0])
			}
			if rapid.IntRange(0, 3).Draw(rt, "more gateways") == 0 {
				w.grow(rt, 4)
			}
			w.checkListing(rt, nil, 0)
			var some []*pubGW
			for _, g := range w.gws {
				if rapid.IntRange(0, 3).Draw(rt, "listed") == 0 {
					some = append(some, g)
				}
			}
			w.checkListing(rt, some, rapid.IntRange(0, 1).Draw(rt, "strangers"))
		}
		c.Addf("among %d", len(w.gws))
		if nt {
			c.NonTrivial("published")
		}
		if len(w.gws) > 16 {
			c.Class("more than 16 gateways")
		}
	})
}

// misorder asks for a publication that makes no sense: it is refused and nobody gets anything.
func (w *provWorld) misorder(rt *rapid.T, like *order) {
	before := map[*pubGW]int{}
	for _, g := range w.gws {
		before[g] = g.count()
	}
	c := []cid.ContentID{*vt.CID(unique())}
	var m *fcrmessages.FCRMessage
	var err error
	switch rapid.IntRange(0, 4).Draw(rt, "malformed") {
	case 0:
		m, err = fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(nil, nil, nil, nil)
	case 1:
		m, err = fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(c, []uint64{1, 2}, []int64{4102444800}, []uint64{1})
	case 2:
		m, err = fcrmessages.EncodeProviderAdminPublishDHTOfferRequest(append(c, c...), []uint64{1, 2}, []int64{4102444800}, []uint64{1, 2})
	case 3:
		m, err = fcrmessages.EncodeProviderAdminPublishGroupOfferRequest(nil, 1, 4102444800, 1)
	default:
		m, err = like.message()
		if err == nil {
			b := m.GetMessageBody()
			m = fcrmessages.CreateFCRMessage(m.GetMessageType(), b[:len(b)-rapid.IntRange(1, len(b)).Draw(rt, "cut")])
		}
	}
	if err != nil {
		return
	}
	if r, st := w.Post(rt, w.Admin, m); r != nil && st == 200 {
		rt.Fatalf("a malformed publication is answered with type %d", r.GetMessageType())
	}
	for _, g := range w.gws {
		if g.count() != before[g] {
			rt.Fatalf("a malformed publication is sent to gateways")
		}
	}
}
