package nodes

import (
	"fmt"
	"math/big"
	"os"
	"sort"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtpay"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

// stall is a running gateway with the model of what it holds.
type stall struct {
	*vtnode.Node
	raw  []byte
	dead bool
	held map[string]map[string]int64 // piece -> offer -> expiry
}

// netWorld is a network of running gateways and providers.
type netWorld struct {
	reg     *vtreg.Server
	lotus   *vtpay.Lotus
	gws     []*stall
	provs   []*vtnode.Node
	users   []*user
	acked   map[string]bool // provider, gateway and piece
	cases   int
	seats   int
	salt    int
	retired bool
}

// user is a client with the model of its accounts.
type user struct {
	*fcrclient.FilecoinRetrievalClient
	wallet                *vtpay.Wallet
	search, offer, topUp  *big.Int
	balance, spent        map[*stall]*big.Int
	topUps, paid, queries int
}

var (
	theNet *netWorld
	nets   int
)

func network(t vtnode.T) *netWorld {
	if theNet != nil && (theNet.broken() || theNet.cases >= 40) {
		theNet.close()
	}
	if theNet == nil {
		theNet = newNet(t)
	}
	theNet.cases++
	return theNet
}

func (w *netWorld) broken() bool {
	for _, g := range w.gws {
		if !g.dead && g.Dead() {
			return true
		}
	}
	for _, p := range w.provs {
		if p.Dead() {
			return true
		}
	}
	return w.retired
}

func (w *netWorld) close() {
	for _, g := range w.gws {
		if !g.dead {
			g.Stop()
		}
	}
	for _, p := range w.provs {
		p.Stop()
	}
	w.lotus.Close()
	w.reg.Close()
	theNet = nil
}

func newNet(t vtnode.T) *netWorld {
	shard, _ := strconv.Atoi(os.Getenv("VERIF_SHARD"))
	k := nets + shard
	nets++
	w := &netWorld{reg: vtreg.New(), lotus: vtpay.NewLotus(), acked: map[string]bool{}, salt: k}
	first, most := 3, 5
	if n, err := strconv.Atoi(os.Getenv("E01_GATEWAYS")); err == nil {
		first, most = n, n+2
	}
	w.seats = most
	cfg := w.config()
	for i := 0; i < first; i++ {
		w.open(t, i)
	}
	if k%2 == 1 { // a gateway that is registered, but down
		g := &stall{Node: &vtnode.Node{ID: vt.Node(unique(byte(k))), Key: vt.Key(49), Ver: vt.Ver(1), Wallet: vtpay.NewWallet(399), Client: vt.Port(), Admin: vt.Port(), Peer: vt.Port(), Prov: vt.Port()}, dead: true, held: map[string]map[string]int64{}}
		g.raw = g.ID.ToBytes()
		w.lotus.Know(g.Wallet)
		w.gws = append(w.gws, g)
	}
	for i := 0; i < 2; i++ {
		p := vtnode.Start("provider", w.reg, cfg)
		p.Init(t, vt.Node(unique(byte(29*k+100*i))), vt.Key(80+(k+i)%5), vt.Ver(uint32(k+i)), nil, nil)
		w.provs = append(w.provs, p)
	}
	w.list(t)
	for i := 0; i < 2; i++ {
		u := &user{wallet: vtpay.NewWallet(400 + i), search: big.NewInt(cfg.SearchPrice), offer: big.NewInt(cfg.OfferPrice), balance: map[*stall]*big.Int{}, spent: map[*stall]*big.Int{}}
		w.lotus.Know(u.wallet)
		u.topUp = new(big.Int).Mul(big.NewInt(int64(20+21*i)), new(big.Int).Add(u.search, u.offer))
		b := fcrclient.CreateSettings()
		b.SetLogging("disabled", "STDOUT", "client")
		b.SetEstablishmentTTL(3600)
		b.SetBlockchainPrivateKey(vt.Key(1))
		b.SetRetrievalPrivateKey(vt.Key(2), vt.Ver(1))
		b.SetWalletPrivateKey(u.wallet.Priv)
		b.SetLotusAP(w.lotus.URL())
		b.SetLotusAuthToken("t")
		b.SetSearchPrice(u.search)
		b.SetOfferPrice(u.offer)
		b.SetTopUpAmount(u.topUp)
		m := fcrregistermgr.NewFCRRegisterMgr(w.reg.URL(), true, true, time.Hour)
		if err := m.Start(); err != nil {
			vt.Infra("register manager: %v", err)
		}
		m.Refresh()
		c, err := fcrclient.NewFilecoinRetrievalClient(*b.Build(), m)
		if err != nil {
			vt.Infra("client: %v", err)
		}
		u.FilecoinRetrievalClient = c
		w.users = append(w.users, u)
		w.meet(t, u, w.gws...)
	}
	return w
}

func (w *netWorld) config() vtnode.Config {
	cfgs := []vtnode.Config{{SearchPrice: 7, OfferPrice: 11, Topup: 1000}, {SearchPrice: 5, OfferPrice: 3, Topup: 60}, {SearchPrice: 5000000000, OfferPrice: 2, Topup: 9000000000}, {SearchPrice: 1, OfferPrice: 1, Topup: 40}}
	return cfgs[w.salt%len(cfgs)]
}

// open starts a gateway.
func (w *netWorld) open(t vtnode.T, i int) *stall {
	g := &stall{Node: vtnode.Start("gateway", w.reg, w.config()), raw: unique(byte(37*w.salt + 61*i)), held: map[string]map[string]int64{}}
	wallet := vtpay.NewWallet(300 + i)
	w.lotus.Know(wallet)
	g.Init(t, vt.Node(g.raw), vt.Key(50+(w.salt+i)%30), vt.Ver(uint32(w.salt+i)), wallet, w.lotus)
	w.gws = append(w.gws, g)
	return g
}

// list registers all nodes, and lets them know of each other.
func (w *netWorld) list(t vtnode.T) {
	var gs []register.GatewayRegister
	var ps []register.ProviderRegister
	for _, g := range w.gws {
		gs = append(gs, g.Gateway())
	}
	for _, p := range w.provs {
		ps = append(ps, p.Provider())
	}
	w.reg.SetGateways(gs...)
	w.reg.SetProviders(ps...)
	for _, g := range w.gws {
		if !g.dead {
			g.Refresh(t)
		}
	}
	for _, p := range w.provs {
		p.Refresh(t)
	}
}

// meet lets a client use gateways.
func (w *netWorld) meet(t vtnode.T, u *user, gs ...*stall) {
	for _, g := range gs {
		u.AddGatewaysToUse([]*nodeid.NodeID{g.ID})
		if n := u.AddActiveGateways([]*nodeid.NodeID{g.ID}); (n == 1) == g.dead {
			t.Fatalf("%d gateways are activated, of one that is down: %v", n, g.dead)
		}
		u.balance[g], u.spent[g] = new(big.Int), new(big.Int)
	}
}

// take records the offers a gateway gets.
func (g *stall) take(p *vtnode.Node, o *order) {
	put := func(f *cidoffer.CIDOffer) {
		k := plain(f.GetProviderID(), rootOf(f), f.GetPrice(), f.GetExpiry(), f.GetQoS())
		for _, c := range f.GetCIDs() {
			if g.held[c.ToString()] == nil {
				g.held[c.ToString()] = map[string]int64{}
			}
			g.held[c.ToString()][k] = f.GetExpiry()
		}
	}
	if o.group {
		put(vt.Offer(p.Key, p.Ver, p.ID, o.cids, o.price[0], o.expiry[0], o.qos[0]))
		return
	}
	for i := range o.cids {
		put(vt.Offer(p.Key, p.Ver, p.ID, o.cids[i:i+1], o.price[i], o.expiry[i], o.qos[i]))
	}
	return
}

func rootOf(f *cidoffer.CIDOffer) string {
	cs := f.GetCIDs()
	s, err := f.GenerateSubCIDOffer(&cs[0])
	if err != nil {
		panic(err)
	}
	return s.GetMerkleRoot()
}

// plain is an offer's identity without its signature.
func plain(p *nodeid.NodeID, root string, price uint64, expiry int64, qos uint64) string {
	return fmt.Sprint(p.ToString(), "|", root, "|", price, "|", expiry, "|", qos)
}

// ranked returns the gateways by their distance to a piece.
func (w *netWorld) ranked(c *cid.ContentID) []*stall {
	t := new(big.Int).SetBytes(c.ToBytes())
	r := append([]*stall{}, w.gws...)
	d := func(g *stall) *big.Int { return circ(t, new(big.Int).SetBytes(g.raw)) }
	sort.Slice(r, func(i, j int) bool { return d(r[i]).Cmp(d(r[j])) < 0 })
	return r
}

func cutTo(l []*stall, n int) []*stall {
	if n > 16 {
		n = 16
	}
	if len(l) > n {
		l = l[:n]
	}
	return l
}

// ask carries out the administrator's publication.
func (w *netWorld) ask(t vtnode.T, p *vtnode.Node, o *order) {
	m, err := o.message()
	r := p.Signed(t, p.Admin, m, err)
	var ok bool
	if o.group {
		ok, err = fcrmessages.DecodeProviderAdminPublishGroupOfferResponse(r)
	} else {
		ok, err = fcrmessages.DecodeProviderAdminPublishDHTOfferResponse(r)
	}
	if err != nil || !ok {
		t.Fatalf("a publication is not carried out: %v %v", ok, err)
	}
}

// know records a publication carried out.
func (w *netWorld) know(p *vtnode.Node, o *order) {
	if o.group {
		for _, g := range w.gws {
			if !g.dead {
				g.take(p, o)
			}
		}
		return
	}
	for i := range o.cids {
		for _, g := range cutTo(w.ranked(&o.cids[i]), 16) {
			if !g.dead {
				g.take(p, &order{false, o.cids[i : i+1], o.price[i : i+1], o.expiry[i : i+1], o.qos[i : i+1]})
				w.acked[p.ID.ToString()+g.ID.ToString()+o.cids[i].ToString()] = true
			}
		}
	}
}

// live returns the unexpired offers a gateway holds of a piece.
func (g *stall) live(c *cid.ContentID) map[string]bool {
	r := map[string]bool{}
	for k, e := range g.held[c.ToString()] {
		if e > time.Now().Unix() {
			r[k] = true
		}
	}
	return r
}

// sound returns the identities of offers found, each of which has to prove itself.
func (w *netWorld) sound(t vtnode.T, c *cid.ContentID, got []cidoffer.SubCIDOffer) map[string]bool {
	r := map[string]bool{}
	for i := range got {
		o := &got[i]
		if o.GetSubCID().ToString() != c.ToString() {
			t.Fatalf("an offer for piece %s is returned for piece %s", o.GetSubCID().ToString(), c.ToString())
		}
		if err := o.VerifyMerkleProof(); err != nil {
			t.Fatalf("an offer returned does not prove its piece: %v", err)
		}
		var by *vtnode.Node
		for _, p := range w.provs {
			if p.ID.ToString() == o.GetProviderID().ToString() {
				by = p
			}
		}
		if by == nil {
			t.Fatalf("an offer returned names provider %s", o.GetProviderID().ToString())
		}
		if err := o.Verify(vt.Pub(by.Key)); err != nil {
			t.Fatalf("an offer returned is not signed by its provider: %v", err)
		}
		k := plain(o.GetProviderID(), o.GetMerkleRoot(), o.GetPrice(), o.GetExpiry(), o.GetQoS())
		if r[k] {
			t.Fatalf("offer %s is returned twice", k)
		}
		r[k] = true
	}
	return r
}

// between wants what is found to lie between two sets.
func between(t vtnode.T, what string, lo, got, hi map[string]bool) {
	for k := range got {
		if !hi[k] {
			t.Fatalf("%s: offer %s is found, which is not held", what, k)
		}
	}
	for k := range lo {
		if !got[k] {
			t.Fatalf("%s: offer %s is not found (%d of %d are)", what, k, len(got), len(lo))
		}
	}
}

// peers returns the gateways a search through g asks.
func (w *netWorld) peers(g *stall, c *cid.ContentID, num int64) []*stall {
	var l []*stall
	for _, x := range w.ranked(c) {
		if x != g {
			l = append(l, x)
		}
	}
	return cutTo(l, int(num))
}

// pay models a payment by a client.
func (u *user) pay(g *stall, amount *big.Int) {
	u.spent[g] = new(big.Int).Add(u.spent[g], amount)
	for u.balance[g].Cmp(u.spent[g]) < 0 {
		u.balance[g] = new(big.Int).Add(u.balance[g], u.topUp)
		u.topUps++
	}
	u.paid++
}

func times(p *big.Int, n int) *big.Int { return new(big.Int).Mul(p, big.NewInt(int64(n))) }

// find searches in one of the ways and returns what was found, by gateway.
func (w *netWorld) find(t vtnode.T, u *user, g *stall, c *cid.ContentID, way string, num int64, limit int) map[*stall]map[string]bool {
	r := map[*stall]map[string]bool{}
	var m map[string]*[]cidoffer.SubCIDOffer
	var l []cidoffer.SubCIDOffer
	var err error
	switch way {
	case "standard":
		l, err = u.FindOffersStandardDiscovery(c, g.ID)
	case "paid standard":
		l, err = u.FindOffersStandardDiscoveryV2(c, g.ID, limit)
	case "dht":
		m, err = u.FindOffersDHTDiscovery(c, g.ID, num)
	case "paid dht":
		m, err = u.FindOffersDHTDiscoveryV2(c, g.ID, num, limit)
	}
	if err != nil {
		t.Fatalf("%s search through %s: %v", way, g.ID.ToString(), err)
	}
	if !strings.Contains(way, "dht") {
		r[g] = w.sound(t, c, l)
		return r
	}
	for id, l := range m {
		var at *stall
		for _, x := range w.gws {
			if x.ID.ToString() == id {
				at = x
			}
		}
		if at == nil || l == nil {
			t.Fatalf("%s search: the result names gateway %s", way, id)
		}
		r[at] = w.sound(t, c, *l)
	}
	return r
}

// check compares the outcome of a search with the model.
func (w *netWorld) check(t vtnode.T, u *user, g *stall, c *cid.ContentID, way string, num int64, limit int) int {
	asked := w.peers(g, c, num)
	if !strings.Contains(way, "dht") {
		asked = []*stall{g}
	}
	sum := 0
	for _, x := range asked {
		sum += len(x.live(c))
	}
	paid := strings.Contains(way, "paid")
	if paid {
		n := 1
		if way == "paid dht" {
			n = int(num)
		}
		u.pay(g, times(u.search, n))
		if sum > limit {
			sum = limit
		}
		if sum > 0 {
			u.pay(g, times(u.offer, sum))
		}
	}
	got := w.find(t, u, g, c, way, num, limit)
	u.queries++
	n := 0
	for x, l := range got {
		in := false
		for _, y := range asked {
			in = in || x == y
		}
		if !in || x.dead {
			t.Fatalf("%s search: offers of gateway %s are returned, which is not among those to ask", way, x.ID.ToString())
		}
		lo := x.live(c)
		if paid {
			lo = nil
		}
		between(t, way+" search", lo, l, x.live(c))
		n += len(l)
	}
	for _, x := range asked {
		if _, ok := got[x]; !ok && !x.dead && !paid {
			t.Fatalf("%s search: nothing is returned from gateway %s", way, x.ID.ToString())
		}
	}
	if n != sum {
		t.Fatalf("%s search for at most %d offers: %d are returned of %d", way, limit, n, sum)
	}
	return n
}

// settled compares a client's accounts with the chain and with the vouchers.
func (w *netWorld) settled(t vtnode.T, u *user) {
	for _, g := range w.gws {
		chain, n := new(big.Int), 0
		chs := w.lotus.Between(u.wallet, g.Wallet)
		w.lotus.With(func() {
			for _, c := range chs {
				n++
				chain.Add(chain, c.Balance)
			}
		})
		if chain.Cmp(u.balance[g]) != 0 || n > 1 {
			t.Fatalf("the client holds %d channels to a gateway, with %s instead of %s", n, chain, u.balance[g])
		}
		if n == 0 || chain.Cmp(u.spent[g]) == 0 {
			continue
		}
		_, v, need, err := u.PaymentMgr().Pay(g.Wallet.Addr.String(), 0, big.NewInt(1))
		if err != nil || need {
			t.Fatalf("a payment of 1 out of %s, of which %s are spent: %v %v", chain, u.spent[g], need, err)
		}
		u.spent[g] = new(big.Int).Add(u.spent[g], big.NewInt(1))
		sv, err := vtpay.Read(v)
		if err != nil {
			t.Fatalf("voucher: %v", err)
		}
		if sv.Amount.Int.Cmp(u.spent[g]) != 0 {
			t.Fatalf("the client's vouchers for a gateway add up to %s, its searches cost %s", sv.Amount, u.spent[g])
		}
	}
	if p := w.lotus.Problems; len(p) > 0 {
		t.Fatalf("the chain got a bad message: %v", p[0])
	}
}

// gen generates a publication of the case's pieces.
func (w *netWorld) gen(rt *rapid.T, ps []*cid.ContentID) *order {
	o := &order{group: rapid.IntRange(0, 2).Draw(rt, "group") == 0}
	n := rapid.IntRange(1, 4).Draw(rt, "offers")
	if o.group {
		n++
	} else if len(w.gws) > 16 {
		n = 1 // whether a gateway may be sent more of a publication than its part is open
	}
	perm := rapid.Permutation(ps).Draw(rt, "which pieces")
	for i := 0; i < n; i++ {
		var c *cid.ContentID
		switch {
		case o.group && i < len(perm) && i < n-1:
			c = perm[i]
		case o.group:
			c = vt.CID(unique(rapid.Byte().Draw(rt, "another piece")))
		default:
			c = ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "piece")]
		}
		o.cids = append(o.cids, *c)
		if i == 0 || !o.group {
			e, _ := expiry(rt, false)
			o.expiry = append(o.expiry, e)
			o.price = append(o.price, vt.Uint64().Draw(rt, "price"))
			o.qos = append(o.qos, vt.Uint64().Draw(rt, "qos"))
		}
	}
	if o.group {
		l := rapid.Permutation(o.cids).Draw(rt, "order")
		o.cids = l
	}
	return o
}

// evidence compares the evidence a client gets with what was published.
func (w *netWorld) evidence(t vtnode.T, u *user, p *vtnode.Node, g *stall, c *cid.ContentID) bool {
	ok, err := u.FindDHTOfferAck(c, g.ID, p.ID)
	want := w.acked[p.ID.ToString()+g.ID.ToString()+c.ToString()]
	if ok != want || err != nil {
		t.Fatalf("evidence that gateway %s got piece %s: %v, want %v (%v)", g.ID.ToString(), c.ToString(), ok, want, err)
	}
	return ok
}

// join starts a gateway, which gets the offers near it from the providers.
func (w *netWorld) join(t vtnode.T, ps []*cid.ContentID) *stall {
	g := w.open(t, len(w.gws))
	w.list(t)
	for _, u := range w.users {
		w.meet(t, u, g)
	}
	m, err := fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)
	r := g.Signed(t, g.Admin, m, err)
	if ok, err := fcrmessages.DecodeGatewayAdminListDHTOfferResponse(r); err != nil || !ok {
		t.Fatalf("the gateway does not ask for offers: %v %v", ok, err)
	}
	return g
}

var searches = []string{"standard", "dht", "paid standard", "paid dht"}

func TestE01_Network(t *testing.T) {
	vt.Check(t, 30, func(rt *rapid.T, c *vt.Case) {
		w := network(rt)
		ps := pieces(rt, 1, 4)
		up := w.up()
		found, bought, proven := 0, 0, 0
		defer func() {
			if rt.Failed() {
				w.retired = true
			}
		}()
		for i := rapid.IntRange(3, 9).Draw(rt, "steps"); i > 0; i-- {
			u := w.users[rapid.IntRange(0, len(w.users)-1).Draw(rt, "client")]
			g := up[rapid.IntRange(0, len(up)-1).Draw(rt, "gateway")]
			x := ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "about")]
			p := w.provs[rapid.IntRange(0, len(w.provs)-1).Draw(rt, "provider")]
			switch k := rapid.IntRange(0, 9).Draw(rt, "step"); {
			case k < 4:
				o := w.gen(rt, ps)
				c.Addf("publish %v %d", o.group, len(o.cids))
				w.ask(rt, p, o)
				w.know(p, o)
			case k < 9:
				way := rapid.SampledFrom(searches).Draw(rt, "way")
				num := int64(rapid.IntRange(1, len(w.gws)+1).Draw(rt, "number"))
				if num > 16 {
					num = 16
				}
				limit := rapid.IntRange(0, 9).Draw(rt, "limit")
				if limit > 4 {
					limit = 30
				}
				c.Addf("%s %d %d", way, num, limit)
				n := w.check(rt, u, g, x, way, num, limit)
				found += n
				if n > 0 {
					c.Class("found by " + way + " search")
					if strings.Contains(way, "paid") {
						bought += n
					}
				}
			default:
				y := w.gws[rapid.IntRange(0, len(w.gws)-1).Draw(rt, "whose")]
				c.Addf("evidence")
				if w.evidence(rt, u, p, y, x) {
					proven++
				}
			}
		}
		// in the end everything agrees
		for _, x := range ps {
			for _, g := range up {
				found += w.check(rt, w.users[0], g, x, "standard", 1, 30)
			}
		}
		for _, x := range ps {
			for _, g := range w.gws {
				for _, p := range w.provs {
					if len(w.gws) < 10 && w.evidence(rt, w.users[1], p, g, x) {
						proven++
					}
				}
			}
		}
		for _, u := range w.users {
			w.settled(rt, u)
		}
		w.alive(rt)
		if found > 0 && proven > 0 {
			c.NonTrivial("found and proven")
		}
		if bought > 0 {
			c.NonTrivial("bought")
		}
	})
}

func (w *netWorld) up() (r []*stall) {
	for _, g := range w.gws {
		if !g.dead {
			r = append(r, g)
		}
	}
	return
}

func (w *netWorld) alive(t vtnode.T) {
	for _, g := range w.up() {
		g.Alive(t)
	}
	for _, p := range w.provs {
		p.Alive(t)
	}
}

// TestE01_Join: a gateway that joins gets the offers nearest to it.
func TestE01_Join(t *testing.T) {
	vt.Check(t, 3, func(rt *rapid.T, c *vt.Case) {
		w := network(rt)
		defer func() {
			if rt.Failed() {
				w.retired = true
			}
		}()
		if len(w.gws) >= w.seats+1 {
			w.close()
			w = network(rt)
		}
		next := unique() // pieces on both sides of where it will be
		copy(next, unique(byte(37*w.salt + 61*len(w.gws)))[:1])
		ps := pieces(rt, 1, 4)
		for i := rapid.IntRange(1, 6).Draw(rt, "near"); i > 0; i-- {
			ps = append(ps, vt.CID(unique(next[0], rapid.Byte().Draw(rt, "about"))))
		}
		for i := rapid.IntRange(1, 6).Draw(rt, "publications"); i > 0; i-- {
			o := w.gen(rt, ps)
			p := w.provs[rapid.IntRange(0, 1).Draw(rt, "provider")]
			c.Addf("publish %v %d", o.group, len(o.cids))
			w.ask(rt, p, o)
			w.know(p, o)
		}
		g := w.join(rt, ps)
		got := w.inherit(rt, g, ps)
		c.Addf("join with %d of %d", got, len(ps))
		w.alive(rt)
		if got > 0 {
			c.NonTrivial("joined with offers")
		}
	})
}

// inherit waits for the joined gateway's offers and takes them into the model.
func (w *netWorld) inherit(t vtnode.T, g *stall, ps []*cid.ContentID) int {
	u := w.users[0]
	// what anybody has of single-piece offers is what a provider can hand out
	old := map[string]map[string]int64{}
	single := map[string]bool{}
	for k := range w.acked {
		single[k[len(k)-64:]] = true
	}
	for _, x := range w.up() {
		for p, l := range x.held {
			if old[p] == nil {
				old[p] = map[string]int64{}
			}
			for k, e := range l {
				old[p][k] = e
			}
		}
	}
	var must []*cid.ContentID
	for _, c := range ps {
		if single[c.ToString()] && w.ranked(c)[0] == g {
			must = append(must, c)
		}
	}
	roots := map[string]bool{}
	for _, c := range ps {
		o := vt.Offer(w.provs[0].Key, w.provs[0].Ver, w.provs[0].ID, []cid.ContentID{*c}, 1, 1, 1)
		roots[rootOf(o)] = true
	}
	root := func(k string) bool { return roots[strings.Split(k, "|")[1]] }
	total := 0
	deadline := time.Now().Add(60 * time.Second)
	for {
		missing := ""
		total = 0
		for _, c := range ps {
			got := w.find(t, u, g, c, "standard", 1, 0)[g]
			for k := range got {
				if e, ok := old[c.ToString()][k]; !ok || e <= time.Now().Unix() {
					t.Fatalf("the joined gateway offers %s for piece %s, which nobody published", k, c.ToString())
				}
			}
			for _, m := range must {
				if m.ToString() != c.ToString() {
					continue
				}
				for k, e := range old[c.ToString()] {
					if root(k) && e > time.Now().Unix() {
						if got[k] {
							total++
						} else {
							missing = k
						}
					}
				}
			}
		}
		if missing == "" {
			break
		}
		if time.Now().After(deadline) {
			t.Fatalf("the joined gateway does not offer %s, to which it is the nearest gateway", missing)
		}
		time.Sleep(20 * time.Millisecond)
	}
	// from now on the world has another gateway, holding an unknown part of the rest: start afresh
	w.retired = true
	return total
}

// TestE01_Together: searches see what was published before them, and nothing that was not, while others publish.
func TestE01_Together(t *testing.T) {
	vt.Check(t, 10, func(rt *rapid.T, c *vt.Case) {
		w := network(rt)
		defer func() {
			if rt.Failed() {
				w.retired = true
			}
		}()
		ps := pieces(rt, 1, 3)
		up := w.up()
		type pub struct {
			p *vtnode.Node
			o *order
		}
		type look struct {
			u   *user
			g   *stall
			c   *cid.ContentID
			way string
		}
		var pubs [2][]pub
		for i := range pubs {
			for j := rapid.IntRange(1, 4).Draw(rt, "publications"); j > 0; j-- {
				pubs[i] = append(pubs[i], pub{w.provs[(i+rapid.IntRange(0, 3).Draw(rt, "provider")/3)%2], w.gen(rt, ps)})
			}
		}
		var looks [2][]look
		for i := range looks {
			for j := rapid.IntRange(2, 8).Draw(rt, "searches"); j > 0; j-- {
				looks[i] = append(looks[i], look{w.users[i], up[rapid.IntRange(0, len(up)-1).Draw(rt, "gateway")], ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "about")], []string{"standard", "dht"}[rapid.IntRange(0, 2).Draw(rt, "way")/2]})
			}
		}
		// what each gateway will have in the end
		all := map[*stall]*stall{}
		for _, g := range w.gws {
			all[g] = &stall{held: map[string]map[string]int64{}, dead: g.dead}
		}
		end := func(p pub) {
			for i := range p.o.cids {
				for _, g := range cutTo(w.ranked(&p.o.cids[i]), 16) {
					if p.o.group {
						break
					}
					all[g].take(p.p, &order{false, p.o.cids[i : i+1], p.o.price[i : i+1], p.o.expiry[i : i+1], p.o.qos[i : i+1]})
				}
			}
			for _, g := range w.gws {
				if p.o.group {
					all[g].take(p.p, p.o)
				}
			}
		}
		for _, l := range pubs {
			for _, p := range l {
				end(p)
			}
		}
		var mu sync.Mutex // guards the model
		copyOf := func(g *stall, x *cid.ContentID) map[string]bool {
			mu.Lock()
			defer mu.Unlock()
			return g.live(x)
		}
		seen := 0
		var fns []func()
		for i := range pubs {
			l := pubs[i]
			fns = append(fns, func() {
				for _, p := range l {
					w.ask(pt{}, p.p, p.o)
					mu.Lock()
					w.know(p.p, p.o)
					mu.Unlock()
				}
			})
		}
		for i := range looks {
			l := looks[i]
			fns = append(fns, func() {
				for _, k := range l {
					asked := []*stall{k.g}
					if k.way == "dht" {
						asked = w.peers(k.g, k.c, 3)
					}
					lo := map[*stall]map[string]bool{}
					for _, x := range asked {
						lo[x] = copyOf(x, k.c)
					}
					got := w.find(pt{}, k.u, k.g, k.c, k.way, 3, 0)
					for _, x := range asked {
						l, ok := got[x]
						if ok == x.dead {
							pt{}.Fatalf("%s search: an answer of gateway %s: %v", k.way, x.ID.ToString(), ok)
						}
						between(pt{}, k.way+" search while offers are published", lo[x], l, all[x].live(k.c))
						mu.Lock()
						if n := len(copyOfNoLock(x, k.c)); n > 0 {
							seen++
						}
						mu.Unlock()
					}
				}
			})
		}
		if fails := vt.Parallel("the network", fns...); len(fails) > 0 {
			rt.Fatalf("%s", fails[0])
		}
		c.Addf("%d+%d publications, %d+%d searches", len(pubs[0]), len(pubs[1]), len(looks[0]), len(looks[1]))
		n := 0
		for _, x := range ps {
			for _, g := range up {
				n += w.check(rt, w.users[0], g, x, "standard", 1, 30)
				w.evidence(rt, w.users[1], w.provs[0], g, x)
				w.evidence(rt, w.users[1], w.provs[1], g, x)
			}
		}
		w.alive(rt)
		if seen > 0 && n > 0 {
			c.NonTrivial("searched while publishing")
		}
	})
}

func copyOfNoLock(g *stall, x *cid.ContentID) map[string]bool { return g.live(x) }
