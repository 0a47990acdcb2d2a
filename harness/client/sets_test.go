package client

import (
	"encoding/base64"
	"fmt"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

// moods are the ways a gateway answers an establishment request.
var moods = append(append([]string{"genuine", "genuine", "genuine", "genuine", "genuine", "genuine", "stale", "other gateway's name", "impersonated", "altered challenge", "empty challenge", "challenge and more"}, sealings...), transports...)

type setGW struct {
	*party
	desk   *desk
	region string
	mu     sync.Mutex
	mood   string
	sp     spoil
	last   string // an earlier challenge
	hold   chan struct{}
	seen   chan struct{}
}

var challenges = struct {
	sync.Mutex
	m map[string]bool
}{m: map[string]bool{}}

var setDesks []*desk

type setWorld struct {
	gws      []*setGW
	mgr      *fcrregistermgr.FCRRegisterMgr
	api      *fcrclient.FilecoinRetrievalClient
	ttl      int64
	mu       sync.Mutex
	problems []string
}

func (w *setWorld) problem(format string, args ...interface{}) {
	w.mu.Lock()
	w.problems = append(w.problems, fmt.Sprintf(format, args...))
	w.mu.Unlock()
}

// answer an establishment request in the gateway's mood.
func (w *setWorld) answer(g *setGW, m *fcrmessages.FCRMessage) (int, []byte) {
	g.mu.Lock()
	mood, sp, last, hold, seen := g.mood, g.sp, g.last, g.hold, g.seen
	g.mu.Unlock()
	if m.GetMessageType() == fcrmessages.ClientStandardDiscoverRequestType {
		return 200, js(message(fcrmessages.ClientStandardDiscoverResponseType, js(body{"piece_cid": pieceOf(m), "nonce": nonceOf(m), "found": false, "sub_cid_offers": []int{}, "funded_payment_channel": []bool{}}), g.key, g.ver))
	}
	client, ch, ttl, err := fcrmessages.DecodeClientEstablishmentRequest(m)
	if err != nil {
		w.problem("a request that is neither: kind %d: %v", m.GetMessageType(), err)
		return 400, []byte("bad")
	}
	raw, err := base64.StdEncoding.DecodeString(ch)
	if err != nil || len(raw) != 32 {
		w.problem("the challenge %q is not 32 bytes", ch)
	}
	challenges.Lock()
	if challenges.m[ch] {
		w.problem("the challenge %q is not fresh", ch)
	}
	challenges.m[ch] = true
	challenges.Unlock()
	if now := time.Now().Unix(); ttl > now+w.ttl || ttl < now+w.ttl-60 {
		w.problem("the request is valid until %d, it is %d now and %d was set", ttl, now, w.ttl)
	}
	if client.ToString() != w.api.Settings.ClientID().ToString() {
		w.problem("the request is of client %s", client.ToString())
	}
	if seen != nil {
		seen <- struct{}{}
	}
	if hold != nil {
		<-hold
	}
	by := g
	id, c := g.id, ch
	switch mood {
	case "stale":
		c = last
		if c == "" {
			b := make([]byte, 32)
			b[sp.at%32] = byte(sp.by)
			c = base64.StdEncoding.EncodeToString(b)
		}
	case "other gateway's name":
		id = w.next(g).id
	case "impersonated":
		by = w.next(g)
	case "altered challenge":
		b := append([]byte{}, raw...)
		if len(b) > 0 {
			b[sp.at%len(b)] ^= byte(sp.by)
		}
		c = base64.StdEncoding.EncodeToString(b)
	case "empty challenge":
		c = ""
	case "challenge and more":
		c += string(rune('A' + sp.by%26))
	}
	g.mu.Lock()
	g.last = ch
	g.mu.Unlock()
	return deliver(mood, sp, seal(mood, sp, by.party, fcrmessages.ClientEstablishmentResponseType, enc(fcrmessages.EncodeClientEstablishmentResponse(id, c)).GetMessageBody()))
}

func (w *setWorld) next(g *setGW) *setGW {
	for i := range w.gws {
		if w.gws[i] == g {
			if len(w.gws) > 1 {
				return w.gws[(i+1)%len(w.gws)]
			}
		}
	}
	id := append([]byte{}, []byte(g.id.ToString())[:32]...)
	return &setGW{party: &party{id: vt.Node(id), key: vt.Key(298), ver: g.ver}}
}

func (w *setWorld) publish(rt *rapid.T) {
	var l []register.GatewayRegister
	for _, g := range w.gws {
		if g.reg != "unregistered" {
			e := gatewayEntry(rt, g.party, gWallet, g.desk.addr())
			if e.RegionCode != "" {
				e.RegionCode = g.region
			}
			l = append(l, e)
		}
	}
	clientReg.SetGateways(l...)
	w.mgr.Refresh()
}

var regions = []string{"AU", "FR", "au", "A"}

func newSetWorld(rt *rapid.T, kinds []string) *setWorld {
	initGlobals()
	w := &setWorld{ttl: rapid.Int64Range(1, 1000).Draw(rt, "ttl")}
	for i, p := range parties(rt, "gateways", len(kinds), 300) {
		if len(setDesks) <= i {
			setDesks = append(setDesks, newDesk())
		}
		g := &setGW{party: p, desk: setDesks[i], mood: "genuine", region: rapid.SampledFrom(regions).Draw(rt, "region")}
		g.reg = kinds[i]
		g.desk.script(func(m *fcrmessages.FCRMessage) (int, []byte) { return w.answer(g, m) })
		w.gws = append(w.gws, g)
	}
	clientReg.SetProviders()
	clientReg.SetGateways()
	w.mgr = newManager(clientReg)
	w.publish(rt)
	w.api = newClient(w.mgr, aWallet, clientChain, nil, w.ttl)
	return w
}

func idList(ids []*nodeid.NodeID) string {
	var l []string
	for _, id := range ids {
		l = append(l, id.ToString())
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func setList(m map[*setGW]bool) string {
	var l []string
	for g, in := range m {
		if in {
			l = append(l, g.id.ToString())
		}
	}
	sort.Strings(l)
	return strings.Join(l, " ")
}

func regKind(rt *rapid.T) string {
	k := rapid.SampledFrom([]string{"registered", "registered", "registered", "unregistered", "fault", "fault"}).Draw(rt, "registration")
	if k == "fault" {
		k = rapid.SampledFrom(gatewayFaults).Draw(rt, "wrong with it")
	}
	return k
}

func TestC02_Sets(t *testing.T) {
	vt.Check(t, 400, func(rt *rapid.T, c *vt.Case) {
		n := rapid.SampledFrom([]int{3, 1, 2, 4, 5, 6, 7}).Draw(rt, "gateways")
		var kinds []string
		for i := 0; i < n; i++ {
			kinds = append(kinds, regKind(rt))
		}
		w := newSetWorld(rt, kinds)
		use, active := map[*setGW]bool{}, map[*setGW]bool{}
		usable := func() (k int) { // how many are in use
			for _, in := range use {
				if in {
					k++
				}
			}
			return
		}
		actives := func() (k int) {
			for _, in := range active {
				if in {
					k++
				}
			}
			return
		}
		some := func() (l []*nodeid.NodeID, gs []*setGW) {
			l = []*nodeid.NodeID{}
			for i := rapid.SampledFrom([]int{2, 1, 3, 4, 0, 5, 8}).Draw(rt, "how many"); i > 0; i-- {
				k := rapid.IntRange(-1, 4*n-1).Draw(rt, "which")
				if k < 0 {
					l = append(l, nil)
					continue
				}
				g := w.gws[k%n]
				id, err := nodeid.NewNodeIDFromHexString(g.id.ToString())
				if err != nil {
					panic(err)
				}
				l = append(l, id)
				gs = append(gs, g)
			}
			return
		}
		asked := func() string { // who was sent a discovery
			var l []string
			for _, g := range w.gws {
				for range g.desk.requests(fcrmessages.ClientStandardDiscoverRequestType, fcrmessages.ClientDHTDiscoverRequestType, fcrmessages.ClientStandardDiscoverRequestV2Type, fcrmessages.ClientDHTDiscoverRequestV2Type) {
					l = append(l, g.id.ToString())
				}
			}
			return strings.Join(l, " ")
		}
		c.Addf("gateways %v:", kinds)
		steps := rapid.IntRange(1, 25).Draw(rt, "steps")
		for s := 0; s < steps; s++ {
			for _, g := range w.gws {
				g.desk.script(func(m *fcrmessages.FCRMessage) (int, []byte) { return w.answer(g, m) })
			}
			op := rapid.SampledFrom([]string{"add", "add", "add", "activate", "activate", "activate", "activate", "remove", "deactivate", "remove all", "deactivate all", "find", "discover", "discover", "register"}).Draw(rt, "step")
			c.Addf("%s", op)
			c.Class(op)
			got, want := 0, 0
			switch op {
			case "add":
				ids, gs := some()
				for _, g := range gs {
					if !use[g] && g.known() {
						use[g] = true
						want++
					}
					if !use[g] {
						c.Class("not added: " + g.reg)
					}
				}
				guarded(rt, "adding", func() { got = w.api.AddGatewaysToUse(ids) })
			case "remove":
				ids, gs := some()
				for _, g := range gs {
					if use[g] {
						want++
					}
					use[g], active[g] = false, false
				}
				guarded(rt, "removing", func() { got = w.api.RemoveGatewaysToUse(ids) })
			case "remove all":
				want = usable()
				use, active = map[*setGW]bool{}, map[*setGW]bool{}
				guarded(rt, "removing all", func() { got = w.api.RemoveAllGatewaysToUse() })
			case "activate":
				ids, gs := some()
				for _, g := range w.gws {
					g.mood, g.sp = rapid.SampledFrom(moods).Draw(rt, "mood"), drawSpoil(rt)
				}
				for _, g := range gs {
					if use[g] && !active[g] {
						c.Class("establishment: " + g.mood)
						if g.mood == "genuine" {
							active[g] = true
							want++
						}
					}
				}
				guarded(rt, "activating", func() { got = w.api.AddActiveGateways(ids) })
				for _, g := range w.gws {
					if !use[g] && len(g.desk.requests()) > 0 {
						rt.Fatalf("a gateway that is not in use is sent a request")
					}
				}
				for _, g := range w.gws {
					g.mood = "genuine"
				}
			case "deactivate":
				ids, gs := some()
				for _, g := range gs {
					if active[g] {
						want++
					}
					active[g] = false
				}
				guarded(rt, "deactivating", func() { got = w.api.RemoveActiveGateways(ids) })
			case "deactivate all":
				want = actives()
				active = map[*setGW]bool{}
				guarded(rt, "deactivating all", func() { got = w.api.RemoveAllActiveGateways() })
			case "find":
				w.find(rt, c)
			case "discover":
				g := w.gws[rapid.IntRange(0, n-1).Draw(rt, "through")]
				x := vt.CID(vt.ID32().Draw(rt, "piece"))
				clientChain.With(func() { clientChain.Pushes = 0 })
				err := w.discover(rt, x, g, rapid.IntRange(0, 3).Draw(rt, "kind"), active[g])
				a := asked()
				if !active[g] && (err == nil || a != "") {
					rt.Fatalf("discovery through a gateway that is not active: error %v, requests to %q", err, a)
				}
				if active[g] && (err != nil || a != g.id.ToString()) {
					rt.Fatalf("discovery through the active gateway %s: error %v, requests to %q", g.id.ToString(), err, a)
				}
				clientChain.With(func() {
					if clientChain.Pushes != 0 {
						rt.Fatalf("money is moved for a discovery that is not possible")
					}
				})
				if active[g] {
					c.NonTrivial("discovery through an active gateway")
				} else {
					c.NonTrivial("discovery through another gateway")
				}
			case "register":
				i := rapid.IntRange(0, n-1).Draw(rt, "which")
				g := w.gws[i]
				if k := regKind(rt); !use[g] && (k != "unregistered" || g.reg == "unregistered") {
					g.reg = k
					g.key = vt.Key(300 + i + 8*rapid.IntRange(0, 5).Draw(rt, "new key")) // no two gateways share one
					w.publish(rt)
				}
			}
			if got != want {
				rt.Fatalf("%s returns %d, the sets changed by %d", op, got, want)
			}
			if a, b := idList(w.api.GetGatewaysToUse()), setList(use); a != b {
				rt.Fatalf("after %s the gateways to use are %q, not %q", op, a, b)
			}
			if a, b := idList(w.api.GetActiveGateways()), setList(active); a != b {
				rt.Fatalf("after %s the active gateways are %q, not %q", op, a, b)
			}
			w.mu.Lock()
			if len(w.problems) > 0 {
				rt.Fatalf("%s: %v", op, w.problems)
			}
			w.mu.Unlock()
			if want > 0 {
				c.NonTrivial("a set changes")
			}
		}
	})
}

// discover tries discovery of one of the four kinds (of the free standard kind when it will be answered).
func (w *setWorld) discover(rt *rapid.T, x *cid.ContentID, g *setGW, kind int, active bool) (err error) {
	if active {
		kind = 0
	}
	guarded(rt, "discovery", func() {
		switch kind {
		case 0:
			_, err = w.api.FindOffersStandardDiscovery(x, g.id)
		case 1:
			_, err = w.api.FindOffersDHTDiscovery(x, g.id, 3)
		case 2:
			_, err = w.api.FindOffersStandardDiscoveryV2(x, g.id, 3)
		case 3:
			_, err = w.api.FindOffersDHTDiscoveryV2(x, g.id, 3, 3)
		}
	})
	return
}

// find checks the search by region.
func (w *setWorld) find(rt *rapid.T, c *vt.Case) {
	at := rapid.SampledFrom(append([]string{"nowhere"}, regions...)).Draw(rt, "where")
	max := rapid.IntRange(0, len(w.gws)+1).Draw(rt, "at most")
	sure, all := map[string]bool{}, map[string]bool{}
	for _, g := range w.gws {
		if g.reg != "unregistered" && g.region == at && g.reg != "region" {
			all[g.id.ToString()] = true
			if g.known() {
				sure[g.id.ToString()] = true
			}
		}
	}
	var l []*nodeid.NodeID
	var err error
	guarded(rt, "finding gateways", func() { l, err = w.api.FindGateways(at, max) })
	if err != nil {
		rt.Fatalf("finding gateways fails: %v", err)
	}
	seen := map[string]bool{}
	for _, id := range l {
		if s := id.ToString(); !all[s] || seen[s] {
			rt.Fatalf("found %s, not registered in %q or found before", s, at)
		}
		seen[id.ToString()] = true
	}
	if len(l) > max || len(l) < max && len(l) < len(sure) {
		rt.Fatalf("%d gateways found, at most %d wanted, %d there", len(l), max, len(sure))
	}
	if len(l) > 0 {
		c.NonTrivial("gateways found")
	}
}

// Operations at the same time.
func TestC02_Concurrent(t *testing.T) {
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		n := rapid.IntRange(1, 4).Draw(rt, "gateways")
		kinds := []string{"unregistered"}
		for i := 0; i < n; i++ {
			kinds = append(kinds, "registered")
		}
		w := newSetWorld(rt, kinds)
		bad := rapid.IntRange(0, n).Draw(rt, "a gateway that is not genuine")
		w.gws[bad].mood = "another key"
		type step struct {
			op    string
			which int
		}
		var plans [][]step
		for i := rapid.IntRange(2, 5).Draw(rt, "threads"); i > 0; i-- {
			var p []step
			for j := rapid.IntRange(1, 12).Draw(rt, "steps"); j > 0; j-- {
				p = append(p, step{rapid.SampledFrom([]string{"add", "activate", "activate", "add", "remove", "deactivate", "remove all", "deactivate all", "list", "discover"}).Draw(rt, "step"), rapid.IntRange(0, n).Draw(rt, "which")})
			}
			plans = append(plans, p)
		}
		c.Addf("%d gateways: %v", n, plans)
		var mu sync.Mutex
		inUse, inActive := 0, 0
		x := vt.CID([]byte{7, 31: 1})
		var wg sync.WaitGroup
		for _, p := range plans {
			p := p
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, s := range p {
					ids := nodes(w.gws[s.which].party, w.gws[(s.which+1)%(n+1)].party)
					u, a := 0, 0
					switch s.op {
					case "add":
						u = w.api.AddGatewaysToUse(ids)
					case "activate":
						a = w.api.AddActiveGateways(ids)
					case "remove": // changes the active ones by an unknown number
						u = -w.api.RemoveGatewaysToUse(ids)
					case "deactivate":
						a = -w.api.RemoveActiveGateways(ids)
					case "remove all":
						u = -w.api.RemoveAllGatewaysToUse()
					case "deactivate all":
						a = -w.api.RemoveAllActiveGateways()
					case "list":
						w.api.GetGatewaysToUse()
						w.api.GetActiveGateways()
					case "discover":
						w.api.FindOffersStandardDiscovery(x, ids[0])
					}
					mu.Lock()
					inUse += u
					inActive += a
					mu.Unlock()
				}
			}()
		}
		vt.Within(120*time.Second, "operations at the same time", wg.Wait)
		use, active := w.api.GetGatewaysToUse(), w.api.GetActiveGateways()
		in := map[string]bool{}
		for _, id := range use {
			in[id.ToString()] = true
		}
		if in[w.gws[0].id.ToString()] {
			rt.Fatalf("an unregistered gateway is in use")
		}
		for _, id := range active {
			if !in[id.ToString()] {
				rt.Fatalf("an active gateway is not in use")
			}
			if id.ToString() == w.gws[bad].id.ToString() {
				rt.Fatalf("a gateway that is not genuine is active")
			}
		}
		if len(use) != inUse {
			rt.Fatalf("%d gateways in use, %d according to the counts returned", len(use), inUse)
		}
		if len(active) > inActive {
			rt.Fatalf("%d gateways active, %d according to the counts returned", len(active), inActive)
		}
		removes := false
		for _, p := range plans {
			for _, s := range p {
				removes = removes || s.op == "remove" || s.op == "remove all"
			}
		}
		if !removes && len(active) != inActive {
			rt.Fatalf("%d gateways active, %d according to the counts returned", len(active), inActive)
		}
		if len(w.problems) > 0 {
			rt.Fatalf("%v", w.problems)
		}
		c.NonTrivial("concurrent")
	})
}

// A gateway is removed, or activated again, while its establishment is under way.
func TestC02_Meanwhile(t *testing.T) {
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		w := newSetWorld(rt, []string{"registered", "registered"})
		g, o := w.gws[0], w.gws[1]
		what := rapid.SampledFrom([]string{"remove", "remove all", "twice", "remove and add"}).Draw(rt, "meanwhile")
		c.Addf("%s", what)
		w.api.AddGatewaysToUse(nodes(g.party, o.party))
		g.hold, g.seen = make(chan struct{}), make(chan struct{}, 4)
		got := make(chan int, 2)
		one := func() { got <- w.api.AddActiveGateways(nodes(g.party)) }
		go one()
		total := 1
		vt.Within(60*time.Second, "the establishment request", func() { <-g.seen })
		vt.Within(60*time.Second, what+" during an establishment", func() {
			switch what {
			case "remove":
				w.api.RemoveGatewaysToUse(nodes(g.party))
			case "remove all":
				w.api.RemoveAllGatewaysToUse()
			case "twice":
				go one()
				total++
			case "remove and add":
				w.api.RemoveGatewaysToUse(nodes(g.party))
				w.api.AddGatewaysToUse(nodes(g.party))
			}
		})
		close(g.hold)
		sum := 0
		vt.Within(60*time.Second, "the establishment", func() {
			for i := 0; i < total; i++ {
				sum += <-got
			}
		})
		use, active := idList(w.api.GetGatewaysToUse()), idList(w.api.GetActiveGateways())
		for _, id := range strings.Fields(active) {
			if !strings.Contains(use, id) {
				rt.Fatalf("%s: an active gateway is not in use", what)
			}
		}
		in := strings.Contains(active, g.id.ToString())
		switch what {
		case "twice":
			if !in || sum != 1 {
				rt.Fatalf("%s: active %v, %d added", what, in, sum)
			}
		default:
			if in && sum != 1 || !in && sum != 0 {
				rt.Fatalf("%s: active %v, %d added", what, in, sum)
			}
		}
		c.NonTrivial(what)
	})
}
