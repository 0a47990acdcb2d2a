package client

import (
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtpay"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

// dealt is one offer as a gateway gives it to the client.
type dealt struct {
	js   json.RawMessage
	kind string
	ok   bool
}

var offerFlaws = []string{"forged key", "other provider's key", "other provider's name", "unregistered provider", "invalid provider", "price", "expiry", "qos", "root", "root and proof",
	"foreign piece", "relabelled", "proof of another piece", "signature altered", "signature cut", "no signature"}

// market is the set of providers, and the offers they made.
type market struct {
	provs []*party // the first ones are registered; the last is unregistered, the one before has an invalid registration
	made  int
}

func text(o *cidoffer.SubCIDOffer) string {
	b, err := o.MarshalJSON()
	if err != nil {
		return "?" + err.Error()
	}
	return string(b)
}

func flip(hexText string, at int) string {
	b := []byte(hexText)
	v := map[byte]byte{'0': '1', '1': '2', '2': '3', '3': '4', '4': '5', '5': '6', '6': '7', '7': '8', '8': '9', '9': 'a', 'a': 'b', 'b': 'c', 'c': 'd', 'd': 'e', 'e': 'f', 'f': '0'}
	i := at % len(b)
	if n, ok := v[b[i]]; ok {
		b[i] = n
	} else {
		b[i] = '0'
	}
	return string(b)
}

// deal makes an offer for piece x; an altered one may come along with the genuine one, before or after it.
func (k *market) deal(rt *rapid.T, x *cid.ContentID) []dealt {
	d, twin := k.one(rt, x)
	if twin == nil {
		return []dealt{d}
	}
	switch rapid.IntRange(0, 3).Draw(rt, "twin") {
	case 1:
		return []dealt{*twin, d}
	case 2:
		return []dealt{d, *twin}
	}
	return []dealt{d}
}

// one makes an offer for piece x, and the genuine one it was made of, if any.
func (k *market) one(rt *rapid.T, x *cid.ContentID) (dealt, *dealt) {
	kind := "genuine"
	if rapid.SampledFrom([]bool{true, true, false, false, false}).Draw(rt, "doubtful") {
		kind = rapid.SampledFrom(offerFlaws).Draw(rt, "flaw")
	}
	n := len(k.provs)
	i := rapid.SampledFrom([]int{0, 1, 2}).Draw(rt, "provider")
	p, other := k.provs[i], k.provs[(i+1)%(n-2)]
	switch kind {
	case "unregistered provider":
		p = k.provs[n-1]
	case "invalid provider":
		p = k.provs[n-2]
	}
	min := 0
	if kind == "relabelled" || kind == "proof of another piece" {
		min = 1
	}
	others := rapid.SliceOfNDistinct(vt.ID32(), min, 4, func(b []byte) string { return string(b) }).Draw(rt, "other pieces")
	at := rapid.IntRange(0, len(others)).Draw(rt, "position")
	var cs []cid.ContentID
	for j, b := range others {
		c := vt.CID(b)
		if c.ToString() == x.ToString() { // keep the pieces different
			b = append([]byte{}, b...)
			b[5] ^= 0x5a
			c = vt.CID(b)
		}
		if j == at {
			cs = append(cs, *x)
		}
		cs = append(cs, *c)
	}
	if at == len(others) {
		cs = append(cs, *x)
	}
	seen := map[string]bool{}
	for j := range cs {
		if seen[cs[j].ToString()] {
			vt.Skip("repeated piece")
		}
		seen[cs[j].ToString()] = true
	}
	y := &cs[(at+1)%len(cs)] // another piece, if there is one
	k.made++
	price, expiry, qos := vt.Uint64().Draw(rt, "price"), vt.FarExpiry().Draw(rt, "expiry"), uint64(k.made)
	signer := p.key
	switch kind {
	case "forged key":
		signer = vt.Key(98)
	case "other provider's key":
		signer = other.key
	case "foreign piece":
		for j := range cs { // the same, without x
			if cs[j].ToString() == x.ToString() {
				b, _ := hex.DecodeString(x.ToString())
				b = append(make([]byte, 32-len(b)), b...)
				b[rapid.IntRange(0, 31).Draw(rt, "byte")] ^= byte(rapid.IntRange(1, 255).Draw(rt, "by"))
				cs[j] = *vt.CID(b)
				y = &cs[j]
			}
		}
	}
	o := vt.Offer(signer, p.ver, p.id, cs, price, expiry, qos)
	sub := func(c *cid.ContentID) map[string]interface{} {
		s, err := o.GenerateSubCIDOffer(c)
		if err != nil {
			panic(err)
		}
		b, err := s.MarshalJSON()
		if err != nil {
			panic(err)
		}
		var m map[string]interface{}
		d := json.NewDecoder(newReader(b))
		d.UseNumber()
		if err := d.Decode(&m); err != nil {
			panic(err)
		}
		return m
	}
	if kind == "genuine" {
		s, err := o.GenerateSubCIDOffer(x)
		if err != nil {
			panic(err)
		}
		return dealt{js: json.RawMessage(text(s)), kind: kind, ok: true}, nil
	}
	var twin *dealt
	switch kind {
	case "unregistered provider", "invalid provider", "forged key", "other provider's key", "foreign piece":
	default:
		s, err := o.GenerateSubCIDOffer(x)
		if err != nil {
			panic(err)
		}
		twin = &dealt{js: json.RawMessage(text(s)), kind: "genuine, of an altered one", ok: true}
	}
	var m map[string]interface{}
	switch kind {
	case "foreign piece":
		m = sub(y)
	case "relabelled":
		m = sub(y)
		m["sub_cid"] = x.ToString()
	case "proof of another piece":
		m = sub(x)
		m["merkle_proof"] = sub(y)["merkle_proof"]
	default:
		m = sub(x)
	}
	sig := m["signature"].(string)
	switch kind {
	case "other provider's name":
		m["provider_id"] = other.id.ToString()
	case "price":
		m["price"] = price + 1
	case "expiry":
		m["expiry"] = expiry - 1
	case "qos":
		m["qos"] = qos + 1<<20
	case "root":
		m["merkle_root"] = flip(m["merkle_root"].(string), rapid.IntRange(0, 63).Draw(rt, "digit"))
	case "root and proof":
		o2 := vt.Offer(signer, p.ver, p.id, append(append([]cid.ContentID{}, cs...), *vt.CID(append([]byte{1, 2, 3}, make([]byte, 29)...))), price, expiry, qos)
		s, err := o2.GenerateSubCIDOffer(x)
		if err != nil {
			panic(err)
		}
		json.Unmarshal([]byte(text(s)), &m)
		m["price"], m["expiry"], m["qos"] = price, expiry, qos // keep the numbers exact
		m["signature"] = sig
	case "signature altered":
		m["signature"] = sig[:8] + flip(sig[8:136], rapid.IntRange(0, 127).Draw(rt, "digit")) + sig[136:]
	case "signature cut":
		m["signature"] = sig[:rapid.IntRange(1, 135).Draw(rt, "length")]
	case "no signature":
		m["signature"] = ""
	}
	return dealt{js: js(m), kind: kind}, twin
}

func newReader(b []byte) *reader { return &reader{b} }

type reader struct{ b []byte }

func (r *reader) Read(p []byte) (int, error) {
	if len(r.b) == 0 {
		return 0, fmt.Errorf("EOF")
	}
	n := copy(p, r.b)
	r.b = r.b[n:]
	return n, nil
}

// hand is what one gateway delivers.
type hand struct {
	p       *party
	offers  []dealt
	digests []string
	flaw    string // of the answer (empty: none)
	sp      spoil
	signer  *party // for an answer of another gateway
	dropped bool
}

func (h *hand) valid() map[string]bool {
	r := map[string]bool{}
	for _, o := range h.offers {
		if o.ok {
			r[string(o.js)] = true
		}
	}
	return r
}

func (k *market) hand(rt *rapid.T, p *party, x *cid.ContentID, max int) *hand {
	h := &hand{p: p, sp: drawSpoil(rt)}
	for i := count(rt, "offers", max); i > 0; i-- {
		h.offers = append(h.offers, k.deal(rt, x)...)
	}
	for i := count(rt, "digests", max); i > 0; i-- {
		b := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "digest")
		h.digests = append(h.digests, hex.EncodeToString(b))
	}
	return h
}

// count is spread over the range (the generator prefers the first ones), and rarely 0.
func count(rt *rapid.T, what string, max int) int {
	l := []int{1}
	for i := 2; i <= max; i++ {
		l = append(l, i, i, max+1-i)
	}
	l = append(l, 0)
	return rapid.SampledFrom(l).Draw(rt, what)
}

func list(os []dealt, sp spoil, flaw string) (r []json.RawMessage, funded []bool) {
	r, funded = []json.RawMessage{}, []bool{}
	for _, o := range os {
		r = append(r, o.js)
		funded = append(funded, false)
	}
	if flaw == "bad element" {
		bad := []string{"null", "{}", "[]", "5", `""`, `{"provider_id":"zz"}`, `{"provider_id":"00","sub_cid":"zz"}`, `{"merkle_proof":null}`, `{"price":-1}`, `{"provider_id":null,"sub_cid":null,"merkle_proof":{"path":null}}`}
		i := sp.at % (len(r) + 1)
		r = append(r[:i:i], append([]json.RawMessage{json.RawMessage(bad[sp.by%len(bad)])}, r[i:]...)...)
		funded = append(funded, false)
	}
	return
}

// offersBody of any of the offer carrying answers.
func (h *hand) offersBody(piece string, nonce int64) []byte {
	l, f := list(h.offers, h.sp, h.flaw)
	return js(body{"piece_cid": piece, "nonce": nonce, "found": len(l) > 0, "sub_cid_offers": l, "funded_payment_channel": f, "payment_required": h.flaw == "payment required", "payment_channel": ""})
}

// digestsBody of either of the digest carrying answers.
func (h *hand) digestsBody(piece string, nonce int64, member string) []byte {
	d := h.digests
	if d == nil {
		d = []string{}
	}
	return js(body{"piece_cid": piece, "nonce": nonce, "found": len(d) > 0, member: d, "funded_payment_channel": make([]bool, len(d)), "payment_required": h.flaw == "payment required", "payment_channel": ""})
}

var clientReg *vtreg.Server
var clientChain *vtpay.Lotus
var clientDesk *desk

type world struct {
	market
	x     *cid.ContentID
	other *cid.ContentID
	entry *party
	gws   []*party // the last is unregistered, the one before has an invalid registration
	api   *fcrclient.FilecoinRetrievalClient
}

var aWallet, gWallet = vtpay.NewWallet(1), vtpay.NewWallet(2)

func initGlobals() {
	if clientReg == nil {
		clientReg, clientDesk, clientChain = vtreg.New(), newDesk(), vtpay.NewLotus(aWallet, gWallet)
	}
}

// newWorld makes registered and other nodes, and a client with the entry gateway active.
func newWorld(rt *rapid.T) *world {
	initGlobals()
	w := &world{x: vt.CID(vt.ID32().Draw(rt, "piece")), other: vt.CID(vt.ID32().Draw(rt, "another piece"))}
	if w.other.ToString() == w.x.ToString() {
		vt.Skip("same piece")
	}
	w.provs = parties(rt, "providers", 5, 200)
	all := parties(rt, "gateways", 6, 300)
	w.entry, w.gws = all[0], all[1:]
	w.provs[4].reg, w.gws[4].reg = "unregistered", "unregistered"
	w.provs[3].reg = rapid.SampledFrom(providerFaults).Draw(rt, "wrong with the provider")
	w.gws[3].reg = rapid.SampledFrom(gatewayFaults).Draw(rt, "wrong with the gateway")
	gs := []registered{{w.entry, clientDesk.addr()}}
	for _, g := range w.gws[:4] {
		gs = append(gs, registered{g, "127.0.0.1:1"})
	}
	setRegister(rt, gs, w.provs[:4], "127.0.0.1:1")
	clientDesk.script(func(m *fcrmessages.FCRMessage) (int, []byte) { return welcome(m, w.entry) })
	mgr := newManager(clientReg)
	w.api = newClient(mgr, aWallet, clientChain, &prices{big.NewInt(3), big.NewInt(5), big.NewInt(1000)}, 100)
	if n := w.api.AddGatewaysToUse(nodes(w.entry)); n != 1 {
		rt.Fatalf("a registered gateway is not usable")
	}
	if n := w.api.AddActiveGateways(nodes(w.entry)); n != 1 {
		rt.Fatalf("a genuine gateway is not activated")
	}
	return w
}

func sortedKeys(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// outers are the ways the entry gateway's answer can be wrong.
func outers(extra ...string) []string {
	return append(append(append([]string{}, sealings...), transports...), extra...)
}

func maybe(rt *rapid.T, name string, outOf int, from []string) string {
	l := make([]bool, outOf)
	l[outOf-1] = true
	if !rapid.SampledFrom(l).Draw(rt, name) {
		return ""
	}
	return rapid.SampledFrom(from).Draw(rt, name+" kind")
}

// compare what was returned with what was validly delivered.
func compare(rt *rapid.T, where string, got []cidoffer.SubCIDOffer, valid map[string]bool, all bool, atMost int) int {
	seen := map[string]bool{}
	for i := range got {
		s := text(&got[i])
		if !valid[s] {
			rt.Fatalf("%s: returned an offer that is not a valid one delivered there: %s", where, s)
		}
		if seen[s] {
			rt.Fatalf("%s: returned twice: %s", where, s)
		}
		seen[s] = true
	}
	if atMost >= 0 && len(got) > atMost {
		rt.Fatalf("%s: %d offers returned, at most %d asked for", where, len(got), atMost)
	}
	if all && len(seen) != len(valid) {
		rt.Fatalf("%s: %d of %d valid offers returned", where, len(seen), len(valid))
	}
	return len(got)
}

func guarded(rt *rapid.T, what string, fn func()) {
	var s string
	vt.Within(90*time.Second, what, func() { s = vt.NoPanic(fn) })
	if s != "" {
		rt.Fatalf("%s crashes: %s", what, s)
	}
}

func handClass(c *vt.Case, pre string, h *hand) {
	if h.flaw != "" {
		c.Class(pre + " " + h.flaw)
	}
	for _, o := range h.offers {
		c.Class("offer: " + o.kind)
	}
}

func TestC01_Standard(t *testing.T) {
	vt.Check(t, 600, func(rt *rapid.T, c *vt.Case) {
		w := newWorld(rt)
		h := w.hand(rt, w.entry, w.x, 5)
		h.flaw = maybe(rt, "flaw", 3, outers("other piece", "other nonce", "bad element"))
		c.Addf("%d offers, flaw %q: %s", len(h.offers), h.flaw, describe(h))
		clientDesk.script(func(m *fcrmessages.FCRMessage) (int, []byte) {
			x, n := w.x, nonceOf(m)
			if h.flaw == "other piece" {
				x = w.other
			}
			if h.flaw == "other nonce" {
				n += int64(h.sp.by)
			}
			return deliver(h.flaw, h.sp, seal(h.flaw, h.sp, w.entry, fcrmessages.ClientStandardDiscoverResponseType, h.offersBody(x.ToString(), n)))
		})
		var got []cidoffer.SubCIDOffer
		var err error
		guarded(rt, "standard discovery", func() { got, err = w.api.FindOffersStandardDiscovery(w.x, w.entry.id) })
		asked := clientDesk.requests()
		if len(asked) == 0 || pieceOf(asked[0]) != w.x.ToString() {
			rt.Fatalf("%d requests, not for the piece", len(asked))
		}
		judge(rt, "standard discovery", h, got, err, -1)
		handClass(c, "answer", h)
		c.NonTrivial(fmt.Sprintf("%d returned", len(got)))
	})
}

func describe(h *hand) string {
	s := ""
	for _, o := range h.offers {
		s += o.kind + "; "
	}
	return s
}

// judge a single answer of the entry gateway.
func judge(rt *rapid.T, what string, h *hand, got []cidoffer.SubCIDOffer, err error, atMost int) {
	switch h.flaw {
	case "":
		if err != nil {
			rt.Fatalf("%s fails on a genuine answer: %v", what, err)
		}
		v := h.valid()
		compare(rt, what, got, v, atMost < 0 || len(v) <= atMost, atMost)
		if atMost >= 0 && len(v) > atMost && len(got) != atMost {
			rt.Fatalf("%s: %d offers returned of %d valid ones, %d asked for", what, len(got), len(v), atMost)
		}
	case "bad element":
		if err != nil && len(got) > 0 {
			rt.Fatalf("%s: offers with an error", what)
		}
		compare(rt, what, got, h.valid(), false, atMost)
	default:
		if err == nil || len(got) > 0 {
			rt.Fatalf("%s: %d offers and error %v on an answer that is: %s", what, len(got), err, h.flaw)
		}
	}
}

func TestC01_PaidStandard(t *testing.T) {
	vt.Check(t, 500, func(rt *rapid.T, c *vt.Case) {
		w := newWorld(rt)
		h := w.hand(rt, w.entry, w.x, 5)
		h.flaw = maybe(rt, "flaw", 3, outers("other piece", "other nonce", "bad element", "payment required"))
		f1 := maybe(rt, "flaw of the list", 5, outers("other piece", "other nonce"))
		sp1 := drawSpoil(rt)
		max := count(rt, "maximum", 6)
		c.Addf("%d digests, %d offers, at most %d, flaws %q %q: %s", len(h.digests), len(h.offers), max, f1, h.flaw, describe(h))
		clientDesk.script(func(m *fcrmessages.FCRMessage) (int, []byte) {
			x, n, f, sp := w.x, nonceOf(m), f1, sp1
			first := m.GetMessageType() == fcrmessages.ClientStandardDiscoverRequestV2Type
			if !first {
				f, sp = h.flaw, h.sp
			}
			if f == "other piece" {
				x = w.other
			}
			if f == "other nonce" {
				n += int64(sp.by)
			}
			if first {
				d := &hand{digests: h.digests}
				return deliver(f, sp, seal(f, sp, w.entry, fcrmessages.ClientStandardDiscoverResponseV2Type, d.digestsBody(x.ToString(), n, "sub_cid_offer_digests")))
			}
			return deliver(f, sp, seal(f, sp, w.entry, fcrmessages.ClientStandardDiscoverOfferResponseType, h.offersBody(x.ToString(), n)))
		})
		var got []cidoffer.SubCIDOffer
		var err error
		guarded(rt, "paid standard discovery", func() { got, err = w.api.FindOffersStandardDiscoveryV2(w.x, w.entry.id, max) })
		asked := clientDesk.requests(fcrmessages.ClientStandardDiscoverOfferRequestType)
		want := len(h.digests)
		if want > max {
			want = max
		}
		if f1 != "" {
			if err == nil || len(got) > 0 || len(asked) > 0 {
				rt.Fatalf("%d offers, error %v and %d purchases after a list that is: %s", len(got), err, len(asked), f1)
			}
			c.NonTrivial("refused list")
			c.Class("list " + f1)
			return
		}
		if want == 0 {
			if err != nil || len(got) > 0 || len(asked) > 0 {
				rt.Fatalf("%d offers, error %v and %d purchases though nothing is listed or wanted", len(got), err, len(asked))
			}
			c.Class("nothing to buy")
			return
		}
		for _, m := range asked {
			x, _, _, ds, _, _, err := fcrmessages.DecodeClientStandardDiscoverOfferRequest(m)
			if err != nil || x.ToString() != w.x.ToString() {
				rt.Fatalf("bad purchase: %v", err)
			}
			within(rt, "the purchase", ds, h.digests)
			if len(ds) != want {
				rt.Fatalf("%d digests requested; %d listed, %d wanted", len(ds), len(h.digests), max)
			}
		}
		if len(asked) == 0 {
			rt.Fatalf("no purchase though %d digests are listed: %v", len(h.digests), err)
		}
		judge(rt, "paid standard discovery", h, got, err, max)
		handClass(c, "answer", h)
		c.NonTrivial(fmt.Sprintf("%d bought", len(got)))
	})
}

// within checks that a is part of b, counting repetitions.
func within(rt *rapid.T, what string, a, b []string) {
	n := map[string]int{}
	for _, s := range b {
		n[s]++
	}
	for _, s := range a {
		if n[s]--; n[s] < 0 {
			rt.Fatalf("%s: digest %s was not listed", what, s)
		}
	}
}

// subs draws the gateways that an entry gateway contacted.
func (w *world) subs(rt *rapid.T, extra ...string) []*hand {
	var r []*hand
	all := []int{0, 1, 2, 3, 4}
	for _, i := range rapid.Permutation(all).Draw(rt, "contacted")[:count(rt, "contacted number", len(w.gws))] {
		p := w.gws[i]
		h := w.hand(rt, p, w.x, 3)
		h.flaw = maybe(rt, "flaw", 3, append(append([]string{"of another gateway"}, sealings...), extra...))
		h.signer = p
		if h.flaw == "of another gateway" {
			h.signer = w.gws[(i+1)%len(w.gws)]
		}
		r = append(r, h)
	}
	return r
}

// good tells whether the gateway's own answer must be believed.
func (h *hand) good() bool { return h.flaw == "" && h.p.known() }

func TestC01_DHT(t *testing.T) {
	vt.Check(t, 400, func(rt *rapid.T, c *vt.Case) {
		w := newWorld(rt)
		subs := w.subs(rt, "bad element")
		outer := maybe(rt, "outer flaw", 5, outers("other nonce", "length", "payment required"))
		sp := drawSpoil(rt)
		num := rapid.Int64Range(1, 16).Draw(rt, "wanted")
		c.Addf("outer %q", outer)
		for _, h := range subs {
			c.Addf("gateway %s %q: %s", h.p.reg, h.flaw, describe(h))
		}
		clientDesk.script(func(m *fcrmessages.FCRMessage) (int, []byte) {
			n := nonceOf(m)
			var rs []*fcrmessages.FCRMessage
			ids := []string{}
			for _, h := range subs {
				ids = append(ids, h.p.id.ToString())
				rs = append(rs, seal(h.flaw, h.sp, h.signer, fcrmessages.GatewayDHTDiscoverResponseType, h.offersBody(w.x.ToString(), n)))
			}
			return w.dhtAnswer(m, outer, sp, fcrmessages.ClientDHTDiscoverResponseType, ids, rs)
		})
		var got map[string]*[]cidoffer.SubCIDOffer
		var err error
		guarded(rt, "DHT discovery", func() { got, err = w.api.FindOffersDHTDiscovery(w.x, w.entry.id, num) })
		asked := clientDesk.requests()
		if len(asked) == 0 {
			rt.Fatalf("no request")
		}
		if x, _, _, k, _, _, _, e := fcrmessages.DecodeClientDHTDiscoverRequest(asked[0]); e != nil || x.ToString() != w.x.ToString() || k != num {
			rt.Fatalf("asked for %d gateways, %d requested (%v)", num, k, e)
		}
		if outer != "" {
			if err == nil || len(got) > 0 {
				rt.Fatalf("%d gateways' offers and error %v from an answer that is: %s", len(got), err, outer)
			}
			c.NonTrivial("refused")
			c.Class("outer " + outer)
			return
		}
		if err != nil {
			rt.Fatalf("DHT discovery fails on a genuine answer: %v", err)
		}
		total := w.byGateway(rt, got, subs, true, -1, c)
		c.NonTrivial(fmt.Sprintf("%d returned", total))
	})
}

// dhtAnswer is the entry gateway's answer with the other gateways' answers.
func (w *world) dhtAnswer(m *fcrmessages.FCRMessage, flaw string, sp spoil, kind int32, ids []string, rs []*fcrmessages.FCRMessage) (int, []byte) {
	if rs == nil {
		rs = []*fcrmessages.FCRMessage{}
	}
	n, x := nonceOf(m), w.x
	if flaw == "other nonce" {
		n += int64(sp.by)
	}
	if flaw == "other piece" {
		x = w.other
	}
	if flaw == "length" {
		if len(ids) > 0 && sp.by%2 == 0 {
			ids = ids[1:]
		} else {
			ids = append(ids, w.gws[0].id.ToString())
		}
	}
	b := body{"nonce": n, "response": rs, "payment_required": flaw == "payment required", "payment_channel": ""}
	if kind == fcrmessages.ClientDHTDiscoverOfferResponseType {
		b["piece_cid"], b["gateway_ids"] = x.ToString(), ids
	} else {
		b["contacted_gateways"], b["uncontactable_gateways"] = ids, []string{}
	}
	return deliver(flaw, sp, seal(flaw, sp, w.entry, kind, js(b)))
}

// byGateway checks the offers returned under each gateway.
func (w *world) byGateway(rt *rapid.T, got map[string]*[]cidoffer.SubCIDOffer, subs []*hand, all bool, atMost int, c *vt.Case) int {
	total := 0
	seen := map[string]bool{}
	for _, h := range subs {
		id := h.p.id.ToString()
		seen[id] = true
		var l []cidoffer.SubCIDOffer
		if p := got[id]; p != nil {
			l = *p
		}
		where := "gateway " + id
		handClass(c, "sub-answer", h)
		if !h.p.known() {
			c.Class("gateway with a wrong registration")
		}
		switch {
		case h.good() && !h.dropped:
			total += compare(rt, where, l, h.valid(), all, -1)
		case h.flaw == "bad element" && h.p.known() && !h.dropped:
			total += compare(rt, where, l, h.valid(), false, -1)
		default:
			if len(l) > 0 {
				rt.Fatalf("offers returned under a gateway (%s) whose answer is %q", h.p.reg, h.flaw)
			}
		}
	}
	for id, l := range got {
		if !seen[id] && l != nil && len(*l) > 0 {
			rt.Fatalf("offers under a gateway that gave none: %s", id)
		}
	}
	if atMost >= 0 && total > atMost {
		rt.Fatalf("%d offers returned, at most %d asked for", total, atMost)
	}
	return total
}

func TestC01_PaidDHT(t *testing.T) {
	vt.Check(t, 400, func(rt *rapid.T, c *vt.Case) {
		w := newWorld(rt)
		subs := w.subs(rt, "other piece", "payment required")
		outer := maybe(rt, "outer flaw", 6, outers("other nonce", "length"))
		sp := drawSpoil(rt)
		num := rapid.Int64Range(1, 16).Draw(rt, "wanted")
		limit := count(rt, "limit", 10)
		// second answers
		seconds := map[string]*hand{}
		var order []*hand
		for _, h := range subs {
			s := w.hand(rt, h.p, w.x, 3)
			s.flaw = maybe(rt, "second flaw", 3, append([]string{"of another gateway", "bad element", "other piece", "other nonce", "payment required"}, sealings...))
			s.signer = h.p
			if s.flaw == "of another gateway" {
				s.signer = w.gws[rapid.IntRange(0, 4).Draw(rt, "signer")]
				if s.signer == h.p {
					s.flaw = ""
				}
			}
			s.dropped = rapid.IntRange(0, 9).Draw(rt, "dropped") == 0
			seconds[h.p.id.ToString()] = s
			order = append(order, s)
		}
		reversed := rapid.Bool().Draw(rt, "reversed")
		outer2 := maybe(rt, "second outer flaw", 6, outers("other piece", "other nonce", "length", "payment required"))
		sp2 := drawSpoil(rt)
		c.Addf("outer %q %q, %d gateways, limit %d", outer, outer2, num, limit)
		listed := 0
		for i, h := range subs {
			if h.good() {
				listed += len(h.digests)
			}
			c.Addf("gateway %s %q %d, %q: %s", h.p.reg, h.flaw, len(h.digests), order[i].flaw, describe(order[i]))
		}
		clientDesk.script(func(m *fcrmessages.FCRMessage) (int, []byte) {
			n := nonceOf(m)
			var rs []*fcrmessages.FCRMessage
			ids := []string{}
			if m.GetMessageType() == fcrmessages.ClientDHTDiscoverRequestV2Type {
				for _, h := range subs {
					x := w.x
					if h.flaw == "other piece" {
						x = w.other
					}
					ids = append(ids, h.p.id.ToString())
					rs = append(rs, seal(h.flaw, h.sp, h.signer, fcrmessages.GatewayDHTDiscoverResponseV2Type, h.digestsBody(x.ToString(), n, "sub_cid_offer_digest")))
				}
				return w.dhtAnswer(m, outer, sp, fcrmessages.ClientDHTDiscoverResponseV2Type, ids, rs)
			}
			_, _, _, gs, _, _, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(m)
			if err != nil {
				return 400, []byte("bad")
			}
			for i := range gs {
				g := gs[i]
				if reversed {
					g = gs[len(gs)-1-i]
				}
				h := seconds[g.ToString()]
				if h == nil || h.dropped {
					continue
				}
				x, n := w.x, n
				if h.flaw == "other piece" {
					x = w.other
				}
				if h.flaw == "other nonce" {
					n += int64(h.sp.by)
				}
				ids = append(ids, g.ToString())
				rs = append(rs, seal(h.flaw, h.sp, h.signer, fcrmessages.GatewayDHTDiscoverOfferResponseType, h.offersBody(x.ToString(), n)))
			}
			return w.dhtAnswer(m, outer2, sp2, fcrmessages.ClientDHTDiscoverOfferResponseType, ids, rs)
		})
		var got map[string]*[]cidoffer.SubCIDOffer
		var err error
		guarded(rt, "paid DHT discovery", func() { got, err = w.api.FindOffersDHTDiscoveryV2(w.x, w.entry.id, num, limit) })
		asked := clientDesk.requests(fcrmessages.ClientDHTDiscoverOfferRequestType)
		if outer != "" {
			if err == nil || len(got) > 0 || len(asked) > 0 {
				rt.Fatalf("%d gateways' offers, error %v and %d purchases after an answer that is: %s", len(got), err, len(asked), outer)
			}
			c.NonTrivial("refused list")
			c.Class("outer " + outer)
			return
		}
		want := listed
		if want > limit {
			want = limit
		}
		if want == 0 {
			if err != nil || len(got) > 0 || len(asked) > 0 {
				rt.Fatalf("%d gateways' offers, error %v and %d purchases though nothing is listed or wanted", len(got), err, len(asked))
			}
			c.Class("nothing to buy")
			return
		}
		if len(asked) == 0 {
			rt.Fatalf("no purchase though %d digests are listed: %v", listed, err)
		}
		wanted := map[string]bool{}
		for _, m := range asked {
			x, _, ds, gs, _, _, err := fcrmessages.DecodeClientDHTDiscoverOfferRequest(m)
			if err != nil || x.ToString() != w.x.ToString() || len(ds) != len(gs) {
				rt.Fatalf("bad purchase: %v, %d lists of digests for %d gateways", err, len(ds), len(gs))
			}
			n := 0
			for i := range gs {
				var from *hand
				for _, h := range subs {
					if h.p.id.ToString() == gs[i].ToString() && h.good() {
						from = h
					}
				}
				if from == nil {
					rt.Fatalf("offers requested from a gateway that listed none: %s", gs[i].ToString())
				}
				within(rt, "the purchase from "+gs[i].ToString(), ds[i], from.digests)
				n += len(ds[i])
				wanted[gs[i].ToString()] = true
			}
			if n != want {
				rt.Fatalf("%d digests requested; %d listed, limit %d", n, listed, limit)
			}
		}
		if outer2 != "" {
			if err == nil || len(got) > 0 {
				rt.Fatalf("%d gateways' offers and error %v from an answer that is: %s", len(got), err, outer2)
			}
			c.NonTrivial("refused offers")
			c.Class("second outer " + outer2)
			return
		}
		if err != nil && !hasBad(order) {
			rt.Fatalf("paid DHT discovery fails on a genuine answer: %v", err)
		}
		valid, open := 0, 0
		for _, h := range order {
			if !wanted[h.p.id.ToString()] {
				h.dropped = true
			}
			if h.good() && !h.dropped {
				valid += len(h.valid())
			}
			if h.flaw == "bad element" && h.p.known() && !h.dropped {
				open += len(h.valid())
			}
		}
		total := w.byGateway(rt, got, order, valid+open <= limit, limit, c)
		if min := valid; true {
			if min > limit {
				min = limit
			}
			if total < min {
				rt.Fatalf("%d offers returned, %d valid ones were delivered, limit %d", total, valid, limit)
			}
		}
		c.NonTrivial(fmt.Sprintf("%d bought", total))
	})
}

func hasBad(l []*hand) bool {
	for _, h := range l {
		if h.flaw == "bad element" {
			return true
		}
	}
	return false
}
