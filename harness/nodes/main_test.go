package nodes

import (
	"crypto/sha256"
	"encoding/binary"
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtpay"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

var serial uint64

// unique returns 32 bytes never returned before, starting with the given bytes.
func unique(prefix ...byte) []byte {
	serial++
	h := sha256.Sum256(binary.BigEndian.AppendUint64([]byte("verif"+strconv.Itoa(os.Getpid())), serial))
	copy(h[:24], prefix)
	return h[:]
}

// freshID generates 32 bytes with a generated beginning that no earlier case used.
func freshID(rt *rapid.T, label string) []byte {
	n := rapid.IntRange(0, 24).Draw(rt, label+" prefix")
	return unique(vt.ID32().Draw(rt, label)[:n]...)
}

// pt is a T for concurrent requests: failures travel as panics to vt.Parallel.
type pt struct{}

func (pt) Fatalf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }

// prov is a registered provider without a server.
type prov struct {
	id  *nodeid.NodeID
	key *fcrcrypto.KeyPair
	ver *fcrcrypto.KeyVersion
}

func (p *prov) entry() register.ProviderRegister {
	return register.ProviderRegister{NodeID: p.id.ToString(), Address: "f0", RootSigningKey: vt.PubHex(p.key), SigningKey: vt.PubHex(p.key), RegionCode: "AU",
		NetworkInfoGateway: "127.0.0.1:1", NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: "127.0.0.1:1"}
}

// gwWorld is a running gateway with its surroundings; it serves many cases.
type gwWorld struct {
	*vtnode.Node
	reg   *vtreg.Server
	lotus *vtpay.Lotus
	me    *vtpay.Wallet
	rich  *vtpay.Wallet // pays the gateway
	thief *vtpay.Wallet
	purse *vtpay.Purse
	away  *vtpay.Purse // of a channel to somebody else
	poor  *vtpay.Purse
	lanes uint64
	provs []*prov
	uses  int
}

var (
	peerTimeout string // of the gateways started; empty: the usual one
	theGW       *gwWorld
	worlds      int
)

// gateway returns the world, a new one now and then and after the process died.
func gateway(t vtnode.T) *gwWorld {
	if theGW != nil && (theGW.Dead() || theGW.uses >= 150) {
		theGW.Stop()
		theGW.lotus.Close()
		theGW.reg.Close()
		theGW = nil
	}
	if theGW == nil {
		theGW = newGW(t, 0)
	}
	theGW.uses++
	return theGW
}

func newGW(t vtnode.T, wallet int) *gwWorld {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	k := worlds + shard
	worlds++
	w := &gwWorld{reg: vtreg.New(), me: vtpay.NewWallet(wallet), rich: vtpay.NewWallet(1), thief: vtpay.NewWallet(2)}
	w.lotus = vtpay.NewLotus(w.me, w.rich, w.thief)
	for i := 0; i < 4; i++ {
		w.provs = append(w.provs, &prov{vt.Node(unique(byte(60 * i))), vt.Key(100 + i), vt.Ver(uint32(i))})
	}
	w.register()
	cfgs := []vtnode.Config{{SearchPrice: 7, OfferPrice: 11, Topup: 1000}, {SearchPrice: 1, OfferPrice: 3, Topup: 50}, {SearchPrice: 5000000000, OfferPrice: 2, Topup: 9000000000}, {SearchPrice: 40, OfferPrice: 40, Topup: 45}}
	cfg := cfgs[k%len(cfgs)]
	cfg.Timeout = peerTimeout
	w.Node = vtnode.Start("gateway", w.reg, cfg)
	id := unique(byte(37*k + 90))
	w.Init(t, vt.Node(id), vt.Key(50+k%5), vt.Ver(uint32(k)), w.me, w.lotus)
	w.purse = vtpay.NewPurse(w.lotus, w.rich, w.me)
	w.away = vtpay.NewPurse(w.lotus, w.rich, w.thief)
	w.poor = &vtpay.Purse{}
	return w
}

// register lists the world's providers, and the given gateways.
func (w *gwWorld) register(gws ...register.GatewayRegister) {
	var ps []register.ProviderRegister
	for _, p := range w.provs {
		ps = append(ps, p.entry())
	}
	w.reg.SetProviders(ps...)
	if w.Node != nil && w.ID != nil {
		gws = append([]register.GatewayRegister{w.Gateway()}, gws...)
	}
	w.reg.SetGateways(gws...)
}

// search, offers: the configured prices.
func (w *gwWorld) search(n int) *big.Int { return big.NewInt(w.Config.SearchPrice * int64(n)) }
func (w *gwWorld) offers(n int) *big.Int { return big.NewInt(w.Config.OfferPrice * int64(n)) }

// lane returns an unused lane of the purse.
func (w *gwWorld) lane() *vtpay.Purse { w.lanes++; return w.purse.Lane(w.lanes) }

// A payment enclosed in a request.
type payment struct {
	kind        string
	ch, voucher string
	ok          bool // the voucher is good
	enough      bool // and covers the price
}

var payKinds = []string{"exact", "exact", "more", "short", "one", "garbage", "empty", "replay", "stolen", "elsewhere", "swapped", "over", "stale", "later nonce"}

// pay makes a payment of a generated kind for something that costs price.
func (w *gwWorld) pay(rt *rapid.T, price *big.Int, label string) payment {
	k := rapid.SampledFrom(payKinds).Draw(rt, label)
	p := payment{kind: k}
	one := big.NewInt(1)
	l := w.lane()
	switch k {
	case "exact":
		p.ch, p.voucher = l.Pay(price)
		p.ok, p.enough = true, true
	case "more":
		p.ch, p.voucher = l.Pay(new(big.Int).Add(price, big.NewInt(int64(rapid.IntRange(1, 1000).Draw(rt, "extra")))))
		p.ok, p.enough = true, true
	case "short":
		v := new(big.Int).Sub(price, one)
		p.ch, p.voucher = l.Pay(v)
		p.ok = v.Sign() > 0
	case "one":
		p.ch, p.voucher = l.Pay(one)
		p.ok, p.enough = true, one.Cmp(price) >= 0
	case "garbage":
		p.ch, p.voucher = l.Ch.Addr.String(), rapid.StringMatching("[A-Za-z0-9_-]{0,80}").Draw(rt, "voucher")
	case "empty":
	case "replay":
		p.ch, p.voucher = l.Pay(new(big.Int).Add(price, one))
		w.spend(p.ch, p.voucher)
	case "stolen": // signed by somebody who does not own the channel
		p.ch, p.voucher = l.Ch.Addr.String(), vtpay.Voucher(w.thief, l.Ch.Addr, w.lanes, 0, price)
	case "elsewhere": // a channel to somebody else
		p.ch, p.voucher = w.away.Lane(w.lanes).Pay(price)
	case "swapped": // a voucher of one channel presented for another
		_, p.voucher = w.away.Lane(w.lanes).Pay(price)
		p.ch = l.Ch.Addr.String()
	case "over": // more than the channel holds
		c := w.lotus.Open(w.rich, w.me, new(big.Int).Sub(price, one))
		p.ch, p.voucher = c.Addr.String(), vtpay.Voucher(w.rich, c.Addr, 0, 0, price)
	case "stale": // a voucher that adds nothing to the one before
		l.Pay(price)
		_, v := l.Pay(new(big.Int))
		p.ch, p.voucher = l.Ch.Addr.String(), v
		w.spend(p.ch, vtpay.Voucher(w.rich, l.Ch.Addr, w.lanes, 0, price))
	case "later nonce": // the lane's second voucher, worth little more than the first, which was spent
		ch, v := l.Pay(price)
		w.spend(ch, v)
		p.ch, p.voucher = l.Pay(new(big.Int).Sub(price, one))
		p.ok = price.Cmp(one) > 0
	}
	return p
}

// spend gives the gateway a voucher in a search for something it does not have.
func (w *gwWorld) spend(ch, v string) {
	m, err := fcrmessages.EncodeClientStandardDiscoverRequestV2(vt.CID(unique()), 1, ttl(), ch, v)
	if err == nil {
		w.Post(pt{}, w.Client, m)
	}
}

func ttl() int64 { return time.Now().Unix() + 3600 }

// terms is an offer's identity as seen by a client.
func terms(provider *nodeid.NodeID, root string, price uint64, expiry int64, qos uint64, sig string) string {
	return fmt.Sprint(provider.ToString(), "|", root, "|", price, "|", expiry, "|", qos, "|", sig)
}

func offerTerms(o *cidoffer.CIDOffer, sub *cid.ContentID) string {
	s, err := o.GenerateSubCIDOffer(sub)
	if err != nil {
		panic(err)
	}
	return subTerms(s)
}

func subTerms(s *cidoffer.SubCIDOffer) string {
	return terms(s.GetProviderID(), s.GetMerkleRoot(), s.GetPrice(), s.GetExpiry(), s.GetQoS(), s.GetSignature())
}

func digest(o *cidoffer.CIDOffer) string { return cidoffer.EncodeMessageDigest(o.GetMessageDigest()) }

// shelf is the model of the offers held for pieces.
type shelf struct {
	byPiece map[string]map[string]*cidoffer.CIDOffer // piece -> digest -> offer
	key     map[string]*fcrcrypto.KeyPair            // provider -> key
}

func newShelf() *shelf {
	return &shelf{map[string]map[string]*cidoffer.CIDOffer{}, map[string]*fcrcrypto.KeyPair{}}
}

func (s *shelf) add(o *cidoffer.CIDOffer, key *fcrcrypto.KeyPair) {
	for _, c := range o.GetCIDs() {
		k := c.ToString()
		if s.byPiece[k] == nil {
			s.byPiece[k] = map[string]*cidoffer.CIDOffer{}
		}
		s.byPiece[k][digest(o)] = o
	}
	s.key[o.GetProviderID().ToString()] = key
}

// live returns the offers of a piece that must be (sure) and may be listed between two times.
func (s *shelf) live(c *cid.ContentID, from, to int64) (sure, may map[string]*cidoffer.CIDOffer) {
	sure, may = map[string]*cidoffer.CIDOffer{}, map[string]*cidoffer.CIDOffer{}
	for d, o := range s.byPiece[c.ToString()] {
		if o.GetExpiry() > to+1 {
			sure[d] = o
		}
		if o.GetExpiry() >= from-1 {
			may[d] = o
		}
	}
	return
}

// checkDigests compares a list of digests with what is held.
func (s *shelf) checkDigests(t vtnode.T, c *cid.ContentID, from int64, got []string, found bool) {
	sure, may := s.live(c, from, time.Now().Unix())
	if found != (len(got) > 0) {
		t.Fatalf("found is %v, with %d offers", found, len(got))
	}
	seen := map[string]bool{}
	for _, d := range got {
		if seen[d] {
			t.Fatalf("digest %s is listed twice", d)
		}
		seen[d] = true
		if may[d] == nil {
			t.Fatalf("digest %s is listed for piece %s, of which no unexpired offer has it", d, c.ToString())
		}
	}
	for d := range sure {
		if !seen[d] {
			t.Fatalf("the held offer %s for piece %s is not listed (%d of %d)", d, c.ToString(), len(got), len(sure))
		}
	}
}

// checkSubs compares a list of sub-offers with what is held.
func (s *shelf) checkSubs(t vtnode.T, c *cid.ContentID, from int64, got []cidoffer.SubCIDOffer, funded []bool, found bool) {
	byTerms := map[string]string{}
	_, may := s.live(c, from, time.Now().Unix())
	for d, o := range may {
		byTerms[offerTerms(o, c)] = d
	}
	if len(funded) != len(got) {
		t.Fatalf("%d offers with %d payment channel flags", len(got), len(funded))
	}
	var ds []string
	for i := range got {
		o := &got[i]
		d, ok := byTerms[subTerms(o)]
		if !ok {
			t.Fatalf("offer %s is listed for piece %s but not held for it", subTerms(o), c.ToString())
		}
		s.genuine(t, c, o)
		ds = append(ds, d)
	}
	s.checkDigests(t, c, from, ds, found)
}

// genuine wants a sub-offer to be signed by its provider and to prove the piece.
func (s *shelf) genuine(t vtnode.T, c *cid.ContentID, o *cidoffer.SubCIDOffer) {
	if o.GetSubCID().ToString() != c.ToString() {
		t.Fatalf("the offer is for piece %s instead of %s", o.GetSubCID().ToString(), c.ToString())
	}
	if err := o.VerifyMerkleProof(); err != nil {
		t.Fatalf("the offer does not prove its piece: %v", err)
	}
	k := s.key[o.GetProviderID().ToString()]
	if k == nil {
		t.Fatalf("the offer names provider %s", o.GetProviderID().ToString())
	}
	if err := o.Verify(vt.Pub(k)); err != nil {
		t.Fatalf("the offer is not signed by its provider: %v", err)
	}
}

// pieces generates n pieces no case had before, some of them close to each other.
func pieces(rt *rapid.T, min, max int) []*cid.ContentID {
	var r []*cid.ContentID
	for i := rapid.IntRange(min, max).Draw(rt, "pieces"); i > 0; i-- {
		r = append(r, vt.CID(freshID(rt, "piece")))
	}
	return r
}

// expiry generates expiry times: mostly far ahead, some past, some about now.
func expiry(rt *rapid.T, near bool) (int64, string) {
	switch k := rapid.IntRange(0, 9).Draw(rt, "expiry kind"); {
	case k < 6:
		return vt.FarExpiry().Draw(rt, "expiry"), "future"
	case k < 8 || !near:
		return vt.PastExpiry().Draw(rt, "expiry"), "past"
	default:
		return time.Now().Unix() + int64(rapid.IntRange(-2, 2).Draw(rt, "expiry")), "about now"
	}
}

// publication builds one: a list of single-piece offers, or a group offer.
func publication(rt *rapid.T, p *prov, ps []*cid.ContentID, near bool) (group bool, offers []cidoffer.CIDOffer) {
	group = rapid.Bool().Draw(rt, "group")
	pick := func() cid.ContentID { return *ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "which piece")] }
	mk := func(cs []cid.ContentID) {
		e, _ := expiry(rt, near)
		offers = append(offers, *vt.Offer(p.key, p.ver, p.id, cs, vt.Uint64().Draw(rt, "price"), e, vt.Uint64().Draw(rt, "qos")))
	}
	if group {
		n := rapid.IntRange(1, 5).Draw(rt, "group size")
		var cs []cid.ContentID
		at := rapid.IntRange(0, n-1).Draw(rt, "at")
		for i := 0; i < n; i++ {
			if i == at {
				cs = append(cs, pick())
				continue
			}
			c := vt.CID(unique(rapid.Byte().Draw(rt, "other piece")))
			cs = append(cs, *c)
		}
		if len(ps) > 1 && rapid.Bool().Draw(rt, "two of them") {
			if o := pick(); o.ToString() != cs[at].ToString() {
				cs = append(cs, o)
			}
		}
		mk(cs)
		return
	}
	n := rapid.SampledFrom([]int{1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 3, 4, 1, 2, 33}).Draw(rt, "offers")
	if n == 33 { // a large one, mostly of one piece
		p := pick()
		for n = rapid.IntRange(17, 45).Draw(rt, "many offers"); n > 0; n-- {
			mk([]cid.ContentID{p})
		}
	}
	for ; n > 0; n-- {
		mk([]cid.ContentID{pick()})
	}
	return
}

// message makes the publication's message, signed by key.
func pubMessage(p *prov, key *fcrcrypto.KeyPair, group bool, nonce int64, offers []cidoffer.CIDOffer) *fcrmessages.FCRMessage {
	var m *fcrmessages.FCRMessage
	var err error
	if group {
		m, err = fcrmessages.EncodeProviderPublishGroupOfferRequest(p.id, nonce, &offers[0])
	} else {
		m, err = fcrmessages.EncodeProviderPublishDHTOfferRequest(p.id, nonce, offers)
	}
	if err != nil {
		panic(err)
	}
	if err := m.Sign(key, p.ver); err != nil {
		panic(err)
	}
	return m
}

// publish sends an honest publication and wants it acknowledged.
func (w *gwWorld) publish(t vtnode.T, s *shelf, p *prov, group bool, offers []cidoffer.CIDOffer) {
	r := w.Ask(t, w.Prov, pubMessage(p, p.key, group, 1, offers))
	if r == nil || vtnode.IsInvalid(r) {
		t.Fatalf("an authentic publication is refused")
	}
	for i := range offers {
		s.add(&offers[i], p.key)
	}
}

// stock publishes some offers for the pieces.
func (w *gwWorld) stock(rt *rapid.T, c *vt.Case, s *shelf, ps []*cid.ContentID, max int, near bool) {
	type sent struct {
		p  *prov
		g  bool
		os []cidoffer.CIDOffer
	}
	var all []sent
	for i := rapid.IntRange(0, max).Draw(rt, "publications"); i > 0; i-- {
		if len(all) > 0 && rapid.IntRange(0, 7).Draw(rt, "again") == 0 {
			a := all[rapid.IntRange(0, len(all)-1).Draw(rt, "which")]
			w.publish(rt, s, a.p, a.g, a.os)
			c.Class("published again")
			continue
		}
		p := w.provs[rapid.IntRange(0, len(w.provs)-1).Draw(rt, "provider")]
		g, os := publication(rt, p, ps, near)
		w.publish(rt, s, p, g, os)
		all = append(all, sent{p, g, os})
		c.Addf("%v:%d", g, len(os))
	}
}

func sorted(l []string) []string {
	r := append([]string{}, l...)
	sort.Strings(r)
	return r
}
