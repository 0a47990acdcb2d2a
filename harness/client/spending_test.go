package client

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtpay"
	"pgregory.net/rapid"
)

var spendWallets = []*vtpay.Wallet{vtpay.NewWallet(2), vtpay.NewWallet(3), vtpay.NewWallet(4)}

// payment as it reaches a gateway.
type payment struct {
	at      int // gateway
	list    bool
	channel string
	voucher string
	units   int64 // gateways or offers asked for
}

// account is what the client should have done with a channel.
type account struct {
	open    bool
	balance *big.Int
	spent   *big.Int
	nonce   uint64
}

type till struct {
	*party
	wallet int
	desk   *desk
}

type spendWorld struct {
	tills  []*till
	chain  *vtpay.Lotus
	api    *fcrclient.FilecoinRetrievalClient
	p      *prices
	x      *cid.ContentID
	mu     sync.Mutex
	got    []payment
	bad    string
	faults map[int]string // of the pushes
	pushes int
	acc    map[int]*account // by wallet
	tried  int              // pushes expected so far
	topups int
}

func amount(rt *rapid.T, name string) *big.Int {
	switch rapid.SampledFrom([]int{0, 1, 2, 3}).Draw(rt, name+" size") {
	case 0:
		return big.NewInt(rapid.Int64Range(0, 12).Draw(rt, name))
	case 1:
		return big.NewInt(rapid.Int64Range(1, 1000).Draw(rt, name))
	case 2:
		return big.NewInt(rapid.Int64Range(1, 1<<62).Draw(rt, name))
	}
	b := rapid.SliceOfN(rapid.Byte(), 9, 11).Draw(rt, name)
	return new(big.Int).SetBytes(b)
}

func newSpendWorld(rt *rapid.T) *spendWorld {
	initGlobals()
	w := &spendWorld{faults: map[int]string{}, acc: map[int]*account{}, chain: vtpay.NewLotus(append([]*vtpay.Wallet{aWallet}, spendWallets...)...)}
	w.chain.Fault = func(method string) string {
		if method != "MpoolPush" {
			return ""
		}
		w.mu.Lock()
		defer w.mu.Unlock()
		w.pushes++
		return w.faults[w.pushes]
	}
	w.x = vt.CID(vt.ID32().Draw(rt, "piece"))
	var l []register.GatewayRegister
	for i, p := range parties(rt, "gateways", 3, 300) {
		for len(setDesks) <= i {
			setDesks = append(setDesks, newDesk())
		}
		t := &till{party: p, wallet: rapid.IntRange(0, 2).Draw(rt, "wallet"), desk: setDesks[i]}
		t.desk.script(func(m *fcrmessages.FCRMessage) (int, []byte) { return welcome(m, t.party) })
		w.tills = append(w.tills, t)
		l = append(l, gatewayEntry(rt, p, spendWallets[t.wallet], t.desk.addr()))
		w.acc[t.wallet] = &account{balance: new(big.Int), spent: new(big.Int)}
	}
	clientReg.SetGateways(l...)
	clientReg.SetProviders()
	w.p = &prices{amount(rt, "search price"), amount(rt, "offer price"), amount(rt, "top up")}
	if rapid.Bool().Draw(rt, "ample") { // enough for a few payments
		w.p.topUp = new(big.Int).Add(new(big.Int).Mul(w.p.search, big.NewInt(rapid.Int64Range(0, 40).Draw(rt, "searches"))), new(big.Int).Mul(w.p.offer, big.NewInt(rapid.Int64Range(0, 20).Draw(rt, "offers"))))
		if d := rapid.Int64Range(-1, 1).Draw(rt, "about"); w.p.topUp.Sign() > 0 {
			w.p.topUp.Add(w.p.topUp, big.NewInt(d))
		}
	}
	w.api = newClient(newManager(clientReg), aWallet, w.chain, w.p, 100)
	for _, t := range w.tills {
		if w.api.AddGatewaysToUse(nodes(t.party)) != 1 || w.api.AddActiveGateways(nodes(t.party)) != 1 {
			rt.Fatalf("a genuine gateway is not activated")
		}
	}
	return w
}

// topUp models one top-up; false when the chain refuses it.
func (w *spendWorld) topUp(a *account) bool {
	w.tried++
	if w.faults[w.tried] != "" {
		return false
	}
	a.open = true
	a.balance.Add(a.balance, w.p.topUp)
	w.topups++
	return true
}

// pay models one payment.
func (w *spendWorld) pay(a *account, amount *big.Int, first bool) bool {
	try := func() bool {
		if !a.open || a.balance.Cmp(new(big.Int).Add(a.spent, amount)) < 0 {
			return false
		}
		a.spent.Add(a.spent, amount)
		a.nonce++
		return true
	}
	if first {
		if !w.topUp(a) {
			return false
		}
	} else if try() {
		return true
	} else if !w.topUp(a) {
		return false
	}
	if try() {
		return true
	}
	return w.topUp(a) && try()
}

// search is one planned search.
type search struct {
	dht       bool
	at        int
	num       int64
	limit     int
	digests   [3][]string // by gateway; the first only, for a standard search
	mood      string      // of the first list
	offerMood string
}

func (s *search) String() string {
	k := "standard"
	if s.dht {
		k = fmt.Sprintf("DHT of %d", s.num)
	}
	return fmt.Sprintf("%s at %d: %d/%d/%d listed, limit %d, %q %q;", k, s.at, len(s.digests[0]), len(s.digests[1]), len(s.digests[2]), s.limit, s.mood, s.offerMood)
}

func drawSearch(rt *rapid.T) *search {
	s := &search{dht: rapid.Bool().Draw(rt, "DHT"), at: rapid.IntRange(0, 2).Draw(rt, "gateway"), num: rapid.Int64Range(1, 16).Draw(rt, "gateways to ask"), limit: count(rt, "limit", 6)}
	n := 1
	if s.dht {
		n = 3
	}
	for i := 0; i < n; i++ {
		for j := count(rt, "digests", 4); j > 0; j-- {
			s.digests[i] = append(s.digests[i], hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "digest")))
		}
	}
	s.mood = rapid.SampledFrom([]string{"", "", "", "required", "twice", "fail"}).Draw(rt, "list mood")
	s.offerMood = rapid.SampledFrom([]string{"", "", "", "required", "fail"}).Draw(rt, "offer mood")
	return s
}

// answer a request of a search at a gateway.
func (w *spendWorld) answer(t *till, i int, s *search, m *fcrmessages.FCRMessage, again bool) (int, []byte) {
	n := nonceOf(m)
	x := w.x.ToString()
	list := func(kind int32, ds []string, member string, required bool) *fcrmessages.FCRMessage {
		h := &hand{digests: ds}
		if required {
			h.flaw = "payment required"
		}
		return message(kind, h.digestsBody(x, n, member), t.key, t.ver)
	}
	required := s.mood == "required" && !again || s.mood == "twice"
	switch m.GetMessageType() {
	case fcrmessages.ClientStandardDiscoverRequestV2Type:
		if s.mood == "fail" {
			return 500, []byte("x")
		}
		ds := s.digests[0]
		if required {
			ds = nil
		}
		return 200, js(list(fcrmessages.ClientStandardDiscoverResponseV2Type, ds, "sub_cid_offer_digests", required))
	case fcrmessages.ClientDHTDiscoverRequestV2Type:
		if s.mood == "fail" {
			return 500, []byte("x")
		}
		ids, rs := []string{}, []*fcrmessages.FCRMessage{}
		for j, g := range w.tills {
			if !required {
				ids = append(ids, g.id.ToString())
				h := &hand{digests: s.digests[j]}
				rs = append(rs, message(fcrmessages.GatewayDHTDiscoverResponseV2Type, h.digestsBody(x, n, "sub_cid_offer_digest"), g.key, g.ver))
			}
		}
		return 200, js(message(fcrmessages.ClientDHTDiscoverResponseV2Type, js(body{"nonce": n, "response": rs, "payment_required": required, "payment_channel": "", "contacted_gateways": ids, "uncontactable_gateways": []string{}}), t.key, t.ver))
	}
	if s.offerMood == "fail" {
		return 500, []byte("x")
	}
	need := s.offerMood == "required"
	if m.GetMessageType() == fcrmessages.ClientStandardDiscoverOfferRequestType {
		h := &hand{}
		if need {
			h.flaw = "payment required"
		}
		return 200, js(message(fcrmessages.ClientStandardDiscoverOfferResponseType, h.offersBody(x, n), t.key, t.ver))
	}
	return 200, js(message(fcrmessages.ClientDHTDiscoverOfferResponseType, js(body{"nonce": n, "piece_cid": x, "response": []int{}, "gateway_ids": []string{}, "payment_required": need, "payment_channel": ""}), t.key, t.ver))
}

// note the payment in a request.
func (w *spendWorld) note(i int, m *fcrmessages.FCRMessage) {
	p := payment{at: i}
	var err error
	var x *cid.ContentID
	switch m.GetMessageType() {
	case fcrmessages.ClientStandardDiscoverRequestV2Type:
		x, _, _, p.channel, p.voucher, err = fcrmessages.DecodeClientStandardDiscoverRequestV2(m)
		p.list, p.units = true, 1
	case fcrmessages.ClientDHTDiscoverRequestV2Type:
		x, _, _, p.units, _, p.channel, p.voucher, err = fcrmessages.DecodeClientDHTDiscoverRequestV2(m)
		p.list = true
	case fcrmessages.ClientStandardDiscoverOfferRequestType:
		var ds []string
		x, _, _, ds, p.channel, p.voucher, err = fcrmessages.DecodeClientStandardDiscoverOfferRequest(m)
		p.units = int64(len(ds))
	case fcrmessages.ClientDHTDiscoverOfferRequestType:
		var dss [][]string
		var gs []nodeid.NodeID
		x, _, dss, gs, p.channel, p.voucher, err = fcrmessages.DecodeClientDHTDiscoverOfferRequest(m)
		for _, ds := range dss {
			p.units += int64(len(ds))
		}
		if len(gs) != len(dss) {
			err = fmt.Errorf("%d gateways, %d lists", len(gs), len(dss))
		}
	default:
		err = fmt.Errorf("kind %d", m.GetMessageType())
	}
	if err == nil && x.ToString() != w.x.ToString() {
		err = fmt.Errorf("about piece %s", x.ToString())
	}
	w.mu.Lock()
	w.got = append(w.got, p)
	if err != nil {
		w.bad = err.Error()
	}
	w.mu.Unlock()
}

func (w *spendWorld) run(s *search) (err error) {
	g := w.tills[s.at]
	if s.dht {
		_, err = w.api.FindOffersDHTDiscoveryV2(w.x, g.id, s.num, s.limit)
	} else {
		_, err = w.api.FindOffersStandardDiscoveryV2(w.x, g.id, s.limit)
	}
	return
}

func (s *search) wanted() int {
	n := 0
	for _, l := range s.digests {
		n += len(l)
	}
	if n > s.limit {
		n = s.limit
	}
	return n
}

func (w *spendWorld) searchCost(s *search) *big.Int {
	if s.dht {
		return new(big.Int).Mul(w.p.search, big.NewInt(s.num))
	}
	return w.p.search
}

func TestC02_Spending(t *testing.T) {
	vt.Check(t, 250, func(rt *rapid.T, c *vt.Case) {
		w := newSpendWorld(rt)
		defer w.chain.Close()
		for i := rapid.SampledFrom([]int{0, 0, 1, 2}).Draw(rt, "chain faults"); i > 0; i-- {
			w.faults[rapid.IntRange(1, 8).Draw(rt, "push")] = rapid.SampledFrom([]string{"error", "exit", "http", "drop"}).Draw(rt, "fault")
		}
		c.Addf("prices %v %v, top up %v, wallets %d %d %d, faults %v:", w.p.search, w.p.offer, w.p.topUp, w.tills[0].wallet, w.tills[1].wallet, w.tills[2].wallet, w.faults)
		for i := rapid.IntRange(1, 8).Draw(rt, "searches"); i > 0; i-- {
			s := drawSearch(rt)
			c.Addf("%v", s)
			lists := 0
			for i, t := range w.tills {
				i, t := i, t
				t.desk.script(func(m *fcrmessages.FCRMessage) (int, []byte) {
					w.note(i, m)
					again := lists > 0
					if k := m.GetMessageType(); k == fcrmessages.ClientStandardDiscoverRequestV2Type || k == fcrmessages.ClientDHTDiscoverRequestV2Type {
						lists++
					}
					return w.answer(t, i, s, m, again)
				})
			}
			// what should happen
			type due struct {
				list  bool
				units int64
				total *big.Int
				nonce uint64
			}
			var plan []due
			a := w.acc[w.tills[s.at].wallet]
			fails := false
			step := func(list bool, units int64, cost *big.Int, first bool) bool {
				if !w.pay(a, cost, first) {
					fails = true
					return false
				}
				plan = append(plan, due{list, units, new(big.Int).Set(a.spent), a.nonce - 1})
				return true
			}
			units := int64(1)
			if s.dht {
				units = s.num
			}
			func() {
				if !step(true, units, w.searchCost(s), false) {
					return
				}
				if s.mood == "fail" {
					fails = true
					return
				}
				if s.mood != "" {
					if !step(true, units, w.searchCost(s), true) || s.mood == "twice" {
						return
					}
				}
				n := s.wanted()
				if n == 0 {
					return
				}
				if step(false, int64(n), new(big.Int).Mul(w.p.offer, big.NewInt(int64(n))), false) && s.offerMood != "" {
					fails = true
				}
			}()
			w.got, w.bad = nil, ""
			var err error
			guarded(rt, "a paid search", func() { err = w.run(s) })
			if w.bad != "" {
				rt.Fatalf("a bad request: %s", w.bad)
			}
			if fails != (err != nil) && s.mood != "twice" {
				rt.Fatalf("%v: error %v, failing %v", s, err, fails)
			}
			if len(w.got) != len(plan) {
				rt.Fatalf("%v: %d paid requests, not %d", s, len(w.got), len(plan))
			}
			ch := w.chain.Between(aWallet, spendWallets[w.tills[s.at].wallet])
			if len(ch) > 1 {
				rt.Fatalf("%d channels to one recipient", len(ch))
			}
			for j, p := range w.got {
				d := plan[j]
				v, err := vtpay.Read(p.voucher)
				if err != nil {
					rt.Fatalf("no voucher: %v", err)
				}
				if p.at != s.at || p.list != d.list || p.units != d.units || len(ch) != 1 || p.channel != ch[0].Addr.String() || v.ChannelAddr != ch[0].Addr {
					rt.Fatalf("%v: request %+v, not %+v", s, p, d)
				}
				if v.Lane != 0 || v.Nonce != d.nonce || v.Amount.Int.Cmp(d.total) != 0 {
					rt.Fatalf("%v: payment %d brings the total of lane %d to %v with nonce %d, not %v with nonce %d", s, j, v.Lane, v.Amount, v.Nonce, d.total, d.nonce)
				}
			}
			w.balances(rt)
			if len(plan) > 0 {
				c.NonTrivial(fmt.Sprintf("%d payments", len(plan)))
			} else {
				c.Class("no payment possible")
			}
			if s.mood != "" {
				c.Class("list " + s.mood)
			}
		}
		if w.topups > 1 {
			c.NonTrivial("several top-ups")
		}
	})
}

// balances compares the chain with the model.
func (w *spendWorld) balances(rt *rapid.T) {
	w.mu.Lock()
	defer w.mu.Unlock()
	for i, a := range w.acc {
		b := new(big.Int)
		n := 0
		for _, ch := range w.chain.Between(aWallet, spendWallets[i]) {
			b.Add(b, ch.Balance)
			n++
		}
		if b.Cmp(a.balance) != 0 || (n == 1) != a.open {
			rt.Fatalf("%v in %d channels to wallet %d, not %v", b, n, i, a.balance)
		}
	}
	if w.pushes != w.tried {
		rt.Fatalf("%d top-ups tried, not %d", w.pushes, w.tried)
	}
	if len(w.chain.Problems) > 0 {
		rt.Fatalf("%v", w.chain.Problems)
	}
}

// Paid searches at the same time.
func TestC02_SpendingTogether(t *testing.T) {
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		w := newSpendWorld(rt)
		defer w.chain.Close()
		// every payment is distinguishable by its amount and possible after two top-ups
		w.p.search.SetInt64(rapid.Int64Range(1, 1000).Draw(rt, "small search price"))
		w.p.offer.SetInt64(rapid.Int64Range(1, 1000).Draw(rt, "small offer price"))
		w.p.topUp.SetInt64(rapid.Int64Range(100000, 200000).Draw(rt, "large top up"))
		n := rapid.IntRange(2, 5).Draw(rt, "threads")
		at := rapid.IntRange(0, 2).Draw(rt, "gateway")
		var plans [][]*search
		payments := 0
		total := new(big.Int)
		for i := 0; i < n; i++ {
			var p []*search
			for j := rapid.IntRange(1, 4).Draw(rt, "searches"); j > 0; j-- {
				s := drawSearch(rt)
				s.at, s.mood, s.offerMood = at, "", ""
				p = append(p, s)
				total.Add(total, w.searchCost(s))
				payments++
				if k := s.wanted(); k > 0 {
					payments++
					total.Add(total, new(big.Int).Mul(w.p.offer, big.NewInt(int64(k))))
				}
			}
			plans = append(plans, p)
		}
		c.Addf("%d threads, %d payments", n, payments)
		// the answer depends on the search, recognised by its piece
		pieces := map[string]*search{}
		for i, p := range plans {
			for j, s := range p {
				pieces[vt.CID([]byte{byte(i + 1), byte(j + 1), 31: 1}).ToString()] = s
			}
		}
		w.tills[at].desk.script(func(m *fcrmessages.FCRMessage) (int, []byte) {
			x, err := cid.NewContentIDFromHexString(pieceOf(m))
			if err != nil || pieces[x.ToString()] == nil {
				return 400, []byte("bad")
			}
			v := &spendWorld{tills: w.tills, x: x}
			v.note(at, m)
			w.mu.Lock()
			w.got = append(w.got, v.got...)
			if v.bad != "" {
				w.bad = v.bad
			}
			w.mu.Unlock()
			return v.answer(w.tills[at], at, pieces[x.ToString()], m, false)
		})
		var wg sync.WaitGroup
		errs := make(chan error, 100)
		for i, p := range plans {
			i, p := i, p
			wg.Add(1)
			go func() {
				defer wg.Done()
				for j, s := range p {
					v := &spendWorld{tills: w.tills, api: w.api, x: vt.CID([]byte{byte(i + 1), byte(j + 1), 31: 1})}
					if err := v.run(s); err != nil {
						errs <- err
					}
				}
			}()
		}
		vt.Within(120*time.Second, "searches at the same time", wg.Wait)
		if len(errs) > 0 {
			rt.Fatalf("a search fails: %v", <-errs)
		}
		if w.bad != "" {
			rt.Fatalf("a bad request: %s", w.bad)
		}
		if len(w.got) != payments {
			rt.Fatalf("%d paid requests, not %d", len(w.got), payments)
		}
		ch := w.chain.Between(aWallet, spendWallets[w.tills[at].wallet])
		if len(ch) != 1 {
			rt.Fatalf("%d channels", len(ch))
		}
		byNonce := map[uint64]*big.Int{}
		cost := map[uint64]*big.Int{}
		for _, p := range w.got {
			v, err := vtpay.Read(p.voucher)
			if err != nil || v.ChannelAddr != ch[0].Addr || p.channel != ch[0].Addr.String() || v.Lane != 0 {
				rt.Fatalf("not a voucher of the channel: %v", err)
			}
			if byNonce[v.Nonce] != nil {
				rt.Fatalf("two vouchers have nonce %d", v.Nonce)
			}
			byNonce[v.Nonce] = v.Amount.Int
			cost[v.Nonce] = new(big.Int).Mul(w.p.offer, big.NewInt(p.units))
			if p.list {
				cost[v.Nonce].Mul(w.p.search, big.NewInt(p.units))
			}
		}
		sum := new(big.Int)
		for i := uint64(0); i < uint64(payments); i++ {
			if byNonce[i] == nil {
				rt.Fatalf("no voucher has nonce %d", i)
			}
			if sum.Add(sum, cost[i]); sum.Cmp(byNonce[i]) != 0 {
				rt.Fatalf("voucher %d is worth %v in all, not %v", i, byNonce[i], sum)
			}
		}
		if sum.Cmp(total) != 0 {
			rt.Fatalf("%v paid, not %v", sum, total)
		}
		b := ch[0].Balance
		if b.Cmp(sum) < 0 || new(big.Int).Mod(b, w.p.topUp).Sign() != 0 {
			rt.Fatalf("%v is in the channel, %v paid, top-ups of %v", b, sum, w.p.topUp)
		}
		c.NonTrivial("concurrent")
	})
}
