package net

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

func cw(from, to *big.Int) *big.Int {
	d := new(big.Int).Sub(to, from)
	return d.Mod(d, vt.Two256)
}

func circ(a, b *big.Int) *big.Int {
	x, y := cw(a, b), cw(b, a)
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}

// spell writes an id as a register might: either letter case, leading zero bytes possibly dropped.
func spell(rt *rapid.T, id []byte) string {
	s := hex.EncodeToString(id)
	switch rapid.IntRange(0, 5).Draw(rt, "spelling") {
	case 0:
		return strings.ToUpper(s)
	case 1:
		for strings.HasPrefix(s, "00") && len(s) > 2 {
			s = s[2:]
		}
	}
	return s
}

func field(rt *rapid.T, l string) string {
	return rapid.SampledFrom([]string{"", "x", "127.0.0.1:80", "AU", "日本", `"quoted\"`, "a b\tc", "0104..", strings.Repeat("k", 300)}).Draw(rt, l)
}

func gatewayEntry(rt *rapid.T, name string) register.GatewayRegister {
	return register.GatewayRegister{NodeID: name, Address: field(rt, "address"), RootSigningKey: field(rt, "root"), SigningKey: field(rt, "key"), RegionCode: field(rt, "region"),
		NetworkInfoGateway: field(rt, "ng"), NetworkInfoProvider: field(rt, "np"), NetworkInfoClient: field(rt, "nc"), NetworkInfoAdmin: field(rt, "na")}
}

func providerEntry(rt *rapid.T, name string) register.ProviderRegister {
	return register.ProviderRegister{NodeID: name, Address: field(rt, "address"), RootSigningKey: field(rt, "root"), SigningKey: field(rt, "key"), RegionCode: field(rt, "region"),
		NetworkInfoGateway: field(rt, "ng"), NetworkInfoClient: field(rt, "nc"), NetworkInfoAdmin: field(rt, "na")}
}

func sameGateway(g register.GatewayRegistrar, w register.GatewayRegister) bool {
	return g != nil && !reflect.ValueOf(g).IsNil() && g.GetNodeID() == w.NodeID && g.GetAddress() == w.Address && g.GetRegionCode() == w.RegionCode && g.GetNetworkInfoGateway() == w.NetworkInfoGateway &&
		g.GetNetworkInfoProvider() == w.NetworkInfoProvider && g.GetNetworkInfoClient() == w.NetworkInfoClient && g.GetNetworkInfoAdmin() == w.NetworkInfoAdmin &&
		g.Serialize().RootSigningKey == w.RootSigningKey && g.Serialize().SigningKey == w.SigningKey
}

func sameProvider(g register.ProviderRegistrar, w register.ProviderRegister) bool {
	return g != nil && !reflect.ValueOf(g).IsNil() && g.GetNodeID() == w.NodeID && g.GetAddress() == w.Address && g.GetRegionCode() == w.RegionCode && g.GetNetworkInfoGateway() == w.NetworkInfoGateway &&
		g.GetNetworkInfoClient() == w.NetworkInfoClient && g.GetNetworkInfoAdmin() == w.NetworkInfoAdmin &&
		g.Serialize().RootSigningKey == w.RootSigningKey && g.Serialize().SigningKey == w.SigningKey
}

type world struct {
	reg  *vtreg.Server
	mgr  *fcrregistermgr.FCRRegisterMgr
	gIDs [][]byte // registered gateways
	pIDs [][]byte
	bad  []register.GatewayRegister // malformed entries listed too
	badP []register.ProviderRegister
	gw   map[string]register.GatewayRegister // by canonical id
	pr   map[string]register.ProviderRegister
}

func (w *world) publish() {
	var gs []register.GatewayRegister
	for i, id := range w.gIDs {
		if i < len(w.bad) {
			gs = append(gs, w.bad[i])
		}
		gs = append(gs, w.gw[vt.Hex(id)])
	}
	var ps []register.ProviderRegister
	for i, id := range w.pIDs {
		if i < len(w.badP) {
			ps = append(ps, w.badP[i])
		}
		ps = append(ps, w.pr[vt.Hex(id)])
	}
	w.reg.SetGateways(gs...)
	w.reg.SetProviders(ps...)
}

// nearCheck decides an answer of GetGatewaysNearCID.
func nearCheck(members [][]byte, target []byte, n int, exclude []byte, res []string) string {
	t := new(big.Int).SetBytes(target)
	cand := map[string]*big.Int{}
	for _, m := range members {
		if exclude == nil || vt.Hex(m) != vt.Hex(exclude) {
			cand[vt.Hex(m)] = new(big.Int).SetBytes(m)
		}
	}
	if n > 16 {
		n = 16
	}
	want := n
	if want > len(cand) {
		want = len(cand)
	}
	if len(res) != want {
		return fmt.Sprintf("%d gateways returned, want %d of %d", len(res), want, len(cand))
	}
	in := map[string]bool{}
	far := new(big.Int)
	for _, r := range res {
		if in[r] {
			return "gateway " + r + " returned twice"
		}
		in[r] = true
		v := cand[r]
		if v == nil {
			return "gateway " + r + " is excluded or not registered"
		}
		if d := circ(t, v); d.Cmp(far) > 0 {
			far = d
		}
	}
	for k, v := range cand {
		if !in[k] && circ(t, v).Cmp(far) < 0 {
			return "nearer gateway " + k + " left out"
		}
	}
	return ""
}

func rangeCheck(members [][]byte, self []byte, min, max []byte) string {
	a := new(big.Int).SetBytes(min)
	span := cw(a, new(big.Int).SetBytes(max))
	var res []string
	for _, m := range members {
		if vt.Hex(m) != vt.Hex(self) && cw(a, new(big.Int).SetBytes(m)).Cmp(span) <= 0 {
			res = append(res, vt.Hex(m))
		}
	}
	isMember := func(x []byte) bool {
		for _, m := range members {
			if vt.Hex(m) == vt.Hex(x) && vt.Hex(m) != vt.Hex(self) {
				return true
			}
		}
		return false
	}
	if !isMember(min) || !isMember(max) {
		return "the ends of the range are not other gateways"
	}
	if e := nearCheck(members, self, 16, self, res); e != "" {
		return "the gateways in the range are not the nearest ones: " + e
	}
	return ""
}

func canon(rt *rapid.T, name string) string {
	id, err := nodeid.NewNodeIDFromHexString(name)
	if err != nil {
		rt.Fatalf("entry with id %q returned", name)
	}
	return id.ToString()
}

func TestD02_Mirror(t *testing.T) {
	vt.Check(t, 100, func(rt *rapid.T, c *vt.Case) {
		w := &world{reg: vtreg.New(), gw: map[string]register.GatewayRegister{}, pr: map[string]register.ProviderRegister{}}
		defer w.reg.Close()
		// the ids the register starts with
		for i, n := 0, rapid.IntRange(0, 30).Draw(rt, "gateways"); i < n; i++ {
			id := vt.ID32().Draw(rt, "gateway")
			if _, dup := w.gw[vt.Hex(id)]; !dup {
				w.gIDs = append(w.gIDs, id)
				w.gw[vt.Hex(id)] = gatewayEntry(rt, spell(rt, id))
			}
		}
		w.publish()
		w.mgr = fcrregistermgr.NewFCRRegisterMgr(w.reg.URL(), true, true, time.Hour)
		if err := w.mgr.Start(); err != nil {
			rt.Fatalf("%v", err)
		}
		defer func() {
			w.reg.SetStatus(0)
			vt.Within(vt.Hang, "Shutdown", w.mgr.Shutdown)
		}()
		refresh := func() { vt.Within(vt.Hang, "Refresh", w.mgr.Refresh) }
		refresh()
		known := map[string]bool{} // gateways in the view for sure
		sync := func() {
			for _, id := range w.gIDs {
				known[vt.Hex(id)] = true
			}
		}
		sync()
		stale, changed, queries := true, false, 0
		stale = false
		steps := rapid.IntRange(1, 20).Draw(rt, "steps")
		for i := 0; i < steps; i++ {
			op := rapid.SampledFrom([]string{"register", "register", "provider", "change", "changeP", "bad", "fail", "refresh", "lookup", "lookup", "unknown", "lookupP", "near", "near", "near", "range", "all"}).Draw(rt, "op")
			c.Addf("%s", op)
			switch op {
			case "register":
				id := vt.ID32().Draw(rt, "gateway")
				if len(w.gIDs) > 0 && rapid.Bool().Draw(rt, "neighbour") {
					o := rapid.SampledFrom(w.gIDs).Draw(rt, "of")
					v := new(big.Int).Add(new(big.Int).SetBytes(o), big.NewInt(int64(rapid.IntRange(-2, 2).Draw(rt, "by"))))
					v.Mod(v, vt.Two256).FillBytes(id)
				}
				if _, dup := w.gw[vt.Hex(id)]; dup {
					continue
				}
				w.gIDs = append(w.gIDs, id)
				w.gw[vt.Hex(id)] = gatewayEntry(rt, spell(rt, id))
				w.publish()
				stale = true
				if rapid.Bool().Draw(rt, "lookup now") {
					g := w.mgr.GetGateway(vt.Node(id))
					if !sameGateway(g, w.gw[vt.Hex(id)]) {
						rt.Fatalf("looking up gateway %x that has just been registered returns %+v, want %+v", id, g, w.gw[vt.Hex(id)])
					}
					c.NonTrivial("just registered gateway found")
					sync() // the look-up may have refreshed the view
				}
			case "provider":
				id := vt.ID32().Draw(rt, "provider")
				if _, dup := w.pr[vt.Hex(id)]; dup {
					continue
				}
				w.pIDs = append(w.pIDs, id)
				w.pr[vt.Hex(id)] = providerEntry(rt, spell(rt, id))
				w.publish()
				stale = true
			case "change":
				if len(w.gIDs) == 0 {
					continue
				}
				k := vt.Hex(rapid.SampledFrom(w.gIDs).Draw(rt, "gateway"))
				w.gw[k] = gatewayEntry(rt, w.gw[k].NodeID)
				w.publish()
				stale, changed = true, true
			case "changeP":
				if len(w.pIDs) == 0 {
					continue
				}
				k := vt.Hex(rapid.SampledFrom(w.pIDs).Draw(rt, "provider"))
				w.pr[k] = providerEntry(rt, w.pr[k].NodeID)
				w.publish()
				stale, changed = true, true
			case "bad":
				id := rapid.SampledFrom([]string{"zz", "0", "0x12", "xyz" + strings.Repeat("0", 61), strings.Repeat("ab", 33), " ", "日本"}).Draw(rt, "bad id")
				w.bad = append(w.bad, gatewayEntry(rt, id))
				w.badP = append(w.badP, providerEntry(rt, id))
				w.publish()
				stale = true
			case "fail":
				if rapid.Bool().Draw(rt, "status") {
					w.reg.SetStatus(rapid.SampledFrom([]int{404, 500, 503}).Draw(rt, "code"))
				} else {
					raw := rapid.SampledFrom([]string{"", " ", "x", "{}", "null", `{"code":1}`, "[", `"a"`, "[null,null]", "[1]"}).Draw(rt, "raw")
					w.reg.SetRaw("gateway", raw)
					w.reg.SetRaw("provider", raw)
				}
				refresh()
				w.reg.SetStatus(0)
				w.reg.SetRaw("gateway", "")
				w.reg.SetRaw("provider", "")
				stale = true
			case "refresh":
				refresh()
				sync()
				stale = false
			case "lookup":
				if len(w.gIDs) == 0 {
					continue
				}
				id := rapid.SampledFrom(w.gIDs).Draw(rt, "gateway")
				fresh := !stale || !known[vt.Hex(id)]
				g := w.mgr.GetGateway(vt.Node(id))
				if g == nil || canon(rt, g.GetNodeID()) != vt.Hex(id) {
					rt.Fatalf("registered gateway %x not found: %+v", id, g)
				}
				if fresh && !sameGateway(g, w.gw[vt.Hex(id)]) {
					rt.Fatalf("gateway %x is %+v, the register lists %+v", id, g, w.gw[vt.Hex(id)])
				}
				if !known[vt.Hex(id)] {
					sync()
				}
				if changed {
					c.NonTrivial("lookup after a change")
				}
			case "unknown":
				id := vt.ID32().Draw(rt, "unknown")
				if _, dup := w.gw[vt.Hex(id)]; dup {
					continue
				}
				var g register.GatewayRegistrar
				vt.Within(vt.Hang, "GetGateway", func() { g = w.mgr.GetGateway(vt.Node(id)) })
				sync()
				if g != nil {
					rt.Fatalf("gateway %x is not registered but found: %+v", id, g)
				}
				if _, dup := w.pr[vt.Hex(id)]; !dup {
					if p := w.mgr.GetProvider(vt.Node(id)); p != nil {
						rt.Fatalf("provider %x is not registered but found: %+v", id, p)
					}
				}
			case "lookupP":
				if len(w.pIDs) == 0 || stale {
					continue
				}
				id := rapid.SampledFrom(w.pIDs).Draw(rt, "provider")
				if p := w.mgr.GetProvider(vt.Node(id)); !sameProvider(p, w.pr[vt.Hex(id)]) {
					rt.Fatalf("provider %x is %+v, the register lists %+v", id, p, w.pr[vt.Hex(id)])
				}
				c.NonTrivial("provider looked up")
			case "near":
				if stale {
					refresh()
					sync()
					stale = false
				}
				target := vt.ID32().Draw(rt, "piece")
				var ex []byte
				if len(w.gIDs) > 0 {
					switch rapid.IntRange(0, 3).Draw(rt, "target") {
					case 0:
						target = rapid.SampledFrom(w.gIDs).Draw(rt, "of")
					case 1:
						o := rapid.SampledFrom(w.gIDs).Draw(rt, "of")
						v := new(big.Int).Add(new(big.Int).SetBytes(o), big.NewInt(int64(rapid.IntRange(-2, 2).Draw(rt, "by"))))
						target = v.Mod(v, vt.Two256).FillBytes(make([]byte, 32))
					}
					if rapid.Bool().Draw(rt, "exclude") {
						ex = rapid.SampledFrom(w.gIDs).Draw(rt, "excluded")
					}
				}
				n := rapid.SampledFrom([]int{1, 2, 3, 4, 5, 15, 16, 17, 40}).Draw(rt, "n")
				var exID *nodeid.NodeID
				if ex != nil {
					exID = vt.Node(ex)
				}
				var got []register.GatewayRegistrar
				var err error
				vt.Within(vt.Hang, "GetGatewaysNearCID", func() { got, err = w.mgr.GetGatewaysNearCID(vt.CID(target), n, exID) })
				if err != nil {
					if len(w.gIDs) == 0 || (len(w.gIDs) == 1 && ex != nil) {
						continue // nobody to return
					}
					rt.Fatalf("GetGatewaysNearCID(%x, %d, %x) among %d gateways: %v", target, n, ex, len(w.gIDs), err)
				}
				var res []string
				for _, g := range got {
					k := canon(rt, g.GetNodeID())
					if e, ok := w.gw[k]; !ok || !sameGateway(g, e) {
						rt.Fatalf("GetGatewaysNearCID returns %+v, the register lists %+v", g, e)
					}
					res = append(res, k)
				}
				if e := nearCheck(w.gIDs, target, n, ex, res); e != "" {
					rt.Fatalf("GetGatewaysNearCID(%x, %d, %x): %s; %v of %x", target, n, ex, e, res, w.gIDs)
				}
				queries++
				if len(w.gIDs) > 2 {
					c.NonTrivial("near query")
				}
			case "range":
				if stale {
					refresh()
					sync()
					stale = false
				}
				if len(w.gIDs) == 0 {
					continue
				}
				self := rapid.SampledFrom(w.gIDs).Draw(rt, "gateway")
				var min, max *cid.ContentID
				var err error
				vt.Within(vt.Hang, "GetGatewayCIDRange", func() { min, max, err = w.mgr.GetGatewayCIDRange(vt.Node(self)) })
				if err != nil {
					if len(w.gIDs) < 3 {
						continue
					}
					rt.Fatalf("GetGatewayCIDRange(%x) among %d gateways: %v", self, len(w.gIDs), err)
				}
				if e := rangeCheck(w.gIDs, self, min.ToBytes(), max.ToBytes()); e != "" {
					rt.Fatalf("the range of gateway %x is %s to %s: %s, gateways %x", self, min.ToString(), max.ToString(), e, w.gIDs)
				}
				c.NonTrivial("range")
			case "all":
				refresh()
				sync()
				stale = false
				seen := map[string]bool{}
				for _, g := range w.mgr.GetAllGateways() {
					k := canon(rt, g.GetNodeID())
					if seen[k] || !sameGateway(g, w.gw[k]) {
						rt.Fatalf("GetAllGateways returns %+v, the register lists %+v", g, w.gw[k])
					}
					seen[k] = true
				}
				if len(seen) != len(w.gIDs) {
					rt.Fatalf("GetAllGateways returns %d of %d registered gateways", len(seen), len(w.gIDs))
				}
				seen = map[string]bool{}
				for _, p := range w.mgr.GetAllProviders() {
					k := canon(rt, p.GetNodeID())
					if seen[k] || !sameProvider(p, w.pr[k]) {
						rt.Fatalf("GetAllProviders returns %+v, the register lists %+v", p, w.pr[k])
					}
					seen[k] = true
				}
				if len(seen) != len(w.pIDs) {
					rt.Fatalf("GetAllProviders returns %d of %d registered providers", len(seen), len(w.pIDs))
				}
				if len(w.gIDs)+len(w.pIDs) > 1 {
					c.NonTrivial("full view")
				}
			}
		}
	})
}

func TestD02_Concurrent(t *testing.T) {
	vt.Check(t, 20, func(rt *rapid.T, c *vt.Case) {
		w := &world{reg: vtreg.New(), gw: map[string]register.GatewayRegister{}, pr: map[string]register.ProviderRegister{}}
		defer w.reg.Close()
		n0 := rapid.IntRange(3, 25).Draw(rt, "gateways")
		var ids [][]byte
		seen := map[string]bool{}
		for len(ids) < n0+12 {
			id := vt.ID32().Draw(rt, "gateway")
			if !seen[vt.Hex(id)] {
				seen[vt.Hex(id)] = true
				ids = append(ids, id)
			}
		}
		entry := func(id []byte, ver int) register.GatewayRegister {
			return register.GatewayRegister{NodeID: vt.Hex(id), Address: fmt.Sprint(ver), NetworkInfoGateway: fmt.Sprint(ver), NetworkInfoClient: fmt.Sprint(ver)}
		}
		var es []register.GatewayRegister
		for _, id := range ids[:n0] {
			es = append(es, entry(id, 0))
		}
		w.reg.SetGateways(es...)
		delays := rapid.SliceOfN(rapid.IntRange(0, 3000), 16, 16).Draw(rt, "delays in us")
		var turn int64
		w.reg.Delay = func(string) {
			time.Sleep(time.Duration(delays[int(atomic.AddInt64(&turn, 1))%len(delays)]) * time.Microsecond)
		}
		period := rapid.SampledFrom([]time.Duration{time.Hour, 2 * time.Millisecond, 20 * time.Millisecond}).Draw(rt, "refresh every")
		w.mgr = fcrregistermgr.NewFCRRegisterMgr(w.reg.URL(), true, true, period)
		if err := w.mgr.Start(); err != nil {
			rt.Fatalf("%v", err)
		}
		vt.Within(vt.Hang, "Refresh", w.mgr.Refresh)
		seed := rapid.Int64().Draw(rt, "order")
		threads := rapid.IntRange(2, 7).Draw(rt, "threads")
		c.Addf("%d gateways, %d threads, period %v, delays %v, order %d", n0, threads, period, delays, seed)
		c.NonTrivial(fmt.Sprintf("%d threads", threads))
		var (
			fmu   sync.Mutex
			fails []string
		)
		fail := func(f string, a ...interface{}) {
			fmu.Lock()
			defer fmu.Unlock()
			fails = append(fails, fmt.Sprintf(f, a...))
		}
		var listMu sync.Mutex
		registerOne := func(id []byte) {
			listMu.Lock()
			defer listMu.Unlock()
			es = append(es, entry(id, 0))
			w.reg.SetGateways(es...)
		}
		var fns []func()
		next := int64(n0) - 1
		for k := 0; k < threads; k++ {
			rnd := rand.New(rand.NewSource(seed + int64(k)))
			fns = append(fns, func() {
				for i := 0; i < 8; i++ {
					switch rnd.Intn(6) {
					case 0, 1:
						j := atomic.AddInt64(&next, 1)
						if j >= int64(len(ids)) {
							continue
						}
						registerOne(ids[j])
						if g := w.mgr.GetGateway(vt.Node(ids[j])); !sameGateway(g, entry(ids[j], 0)) {
							fail("looking up gateway %x that has just been registered returns %+v", ids[j], g)
						}
					case 2:
						id := ids[rnd.Intn(n0)]
						if g := w.mgr.GetGateway(vt.Node(id)); !sameGateway(g, entry(id, 0)) {
							fail("looking up gateway %x returns %+v", id, g)
						}
					case 3:
						target := make([]byte, 32)
						rnd.Read(target)
						n := 1 + rnd.Intn(17)
						got, err := w.mgr.GetGatewaysNearCID(vt.CID(target), n, nil)
						want := n
						if want > 16 {
							want = 16
						}
						if want > n0 {
							want = -1
						}
						if err != nil || (want >= 0 && len(got) != want) || len(got) > n {
							fail("GetGatewaysNearCID(%x, %d) among at least %d gateways: %d, %v", target, n, n0, len(got), err)
						}
						dup := map[string]bool{}
						for _, g := range got {
							if dup[g.GetNodeID()] || !seen[g.GetNodeID()] {
								fail("GetGatewaysNearCID returns %s, repeated or never registered", g.GetNodeID())
							}
							dup[g.GetNodeID()] = true
						}
					case 4:
						if _, _, err := w.mgr.GetGatewayCIDRange(vt.Node(ids[rnd.Intn(n0)])); err != nil {
							fail("GetGatewayCIDRange: %v", err)
						}
					case 5:
						listMu.Lock()
						n := len(es)
						listMu.Unlock()
						w.mgr.Refresh()
						if got := w.mgr.GetAllGateways(); len(got) < n {
							fail("after a refresh %d gateways are known, %d were registered before it", len(got), n)
						}
					}
				}
			})
		}
		fails = append(fails, vt.Parallel("registry lookups and refreshes", fns...)...)
		vt.Within(vt.Hang, "Shutdown", w.mgr.Shutdown)
		if len(fails) > 0 {
			rt.Fatalf("%s", strings.Join(fails, "\n"))
		}
	})
}

// TestD02_Queries: queries answered while a refresh is taking up a batch of new gateways.
func TestD02_Queries(t *testing.T) {
	vt.Check(t, 12, func(rt *rapid.T, c *vt.Case) {
		reg := vtreg.New()
		defer reg.Close()
		n0 := rapid.IntRange(1, 20).Draw(rt, "gateways")
		batches := rapid.SliceOfN(rapid.IntRange(20, 150), 1, 4).Draw(rt, "batches")
		readers := rapid.IntRange(2, 6).Draw(rt, "readers")
		rnd := rand.New(rand.NewSource(rapid.Int64().Draw(rt, "ids")))
		c.Addf("%d gateways, batches of %v, %d readers", n0, batches, readers)
		c.NonTrivial(fmt.Sprintf("%d readers, %d batches", readers, len(batches)))
		listed := map[string]bool{}
		var es []register.GatewayRegister
		add := func(n int) {
			for i := 0; i < n; i++ {
				id := make([]byte, 32)
				rnd.Read(id)
				listed[vt.Hex(id)] = true
				es = append(es, register.GatewayRegister{NodeID: vt.Hex(id), Address: vt.Hex(id)})
			}
		}
		add(n0)
		var lists [][]register.GatewayRegister
		lists = append(lists, append([]register.GatewayRegister(nil), es...))
		for _, b := range batches {
			add(b)
			lists = append(lists, append([]register.GatewayRegister(nil), es...))
		}
		reg.SetGateways(lists[0]...)
		mgr := fcrregistermgr.NewFCRRegisterMgr(reg.URL(), true, true, time.Hour)
		if err := mgr.Start(); err != nil {
			rt.Fatalf("%v", err)
		}
		vt.Within(vt.Hang, "Refresh", mgr.Refresh)
		var stop int32
		var fmu sync.Mutex
		var fails []string
		fail := func(f string, a ...interface{}) {
			fmu.Lock()
			defer fmu.Unlock()
			if len(fails) < 5 {
				fails = append(fails, fmt.Sprintf(f, a...))
			}
		}
		fns := []func(){func() {
			defer atomic.StoreInt32(&stop, 1)
			for _, l := range lists[1:] {
				reg.SetGateways(l...)
				mgr.Refresh()
				if got := mgr.GetAllGateways(); len(got) != len(l) {
					fail("after a refresh %d gateways are known, %d were registered before it", len(got), len(l))
				}
			}
		}}
		for k := 0; k < readers; k++ {
			r := rand.New(rand.NewSource(int64(k)))
			fns = append(fns, func() {
				for atomic.LoadInt32(&stop) == 0 {
					target := make([]byte, 32)
					r.Read(target)
					want := n0
					if want > 16 {
						want = 16
					}
					got, err := mgr.GetGatewaysNearCID(vt.CID(target), 16, nil)
					if err != nil || len(got) < want || len(got) > 16 {
						fail("GetGatewaysNearCID(%x, 16) among at least %d gateways while more are being taken up: %d, %v", target, n0, len(got), err)
					}
					dup := map[string]bool{}
					for _, g := range got {
						if dup[g.GetNodeID()] || !listed[g.GetNodeID()] || g.GetAddress() != g.GetNodeID() {
							fail("GetGatewaysNearCID returns %+v, repeated or never registered", g)
						}
						dup[g.GetNodeID()] = true
					}
				}
			})
		}
		fails = append(fails, vt.Parallel("queries during a refresh", fns...)...)
		vt.Within(vt.Hang, "Shutdown", mgr.Shutdown)
		if len(fails) > 0 {
			rt.Fatalf("%s", strings.Join(fails, "\n"))
		}
	})
}

// TestD02_Periodic: the view follows the register by itself, also after forced refreshes and failures of the register.
func TestD02_Periodic(t *testing.T) {
	const limit = 20 * time.Second
	vt.Check(t, 10, func(rt *rapid.T, c *vt.Case) {
		reg := vtreg.New()
		defer reg.Close()
		period := rapid.SampledFrom([]time.Duration{time.Millisecond, 10 * time.Millisecond, 50 * time.Millisecond}).Draw(rt, "refresh every")
		mgr := fcrregistermgr.NewFCRRegisterMgr(reg.URL(), true, true, period)
		if err := mgr.Start(); err != nil {
			rt.Fatalf("%v", err)
		}
		defer func() {
			reg.SetStatus(0)
			vt.Within(vt.Hang, "Shutdown", mgr.Shutdown)
		}()
		var gs []register.GatewayRegister
		var ps []register.ProviderRegister
		c.Addf("period %v", period)
		steps := rapid.IntRange(2, 8).Draw(rt, "steps")
		forced := false
		for i := 0; i < steps; i++ {
			op := rapid.SampledFrom([]string{"refresh", "fail", "gateway", "provider", "change", "changeP", "lookup"}).Draw(rt, "op")
			c.Addf("%s", op)
			switch op {
			case "refresh":
				vt.Within(vt.Hang, "Refresh", mgr.Refresh)
				forced = true
				continue
			case "lookup":
				vt.Within(vt.Hang, "GetGateway", func() { mgr.GetGateway(vt.Node(vt.ID32().Draw(rt, "unknown"))) })
				forced = true
				continue
			case "fail":
				if rapid.Bool().Draw(rt, "status") {
					reg.SetStatus(rapid.SampledFrom([]int{404, 500, 503}).Draw(rt, "code"))
				} else {
					raw := rapid.SampledFrom([]string{"", "x", "{}", "null", "[", "[null,null]", "[1]"}).Draw(rt, "raw")
					reg.SetRaw("gateway", raw)
					reg.SetRaw("provider", raw)
				}
				time.Sleep(2 * period)
				reg.SetStatus(0)
				reg.SetRaw("gateway", "")
				reg.SetRaw("provider", "")
				continue
			case "gateway":
				gs = append(gs, gatewayEntry(rt, fmt.Sprintf("%064x", len(gs)*7+1)))
			case "provider":
				ps = append(ps, providerEntry(rt, fmt.Sprintf("%064x", len(ps)*7+1)))
			case "change":
				if len(gs) == 0 {
					continue
				}
				j := rapid.IntRange(0, len(gs)-1).Draw(rt, "which")
				gs[j] = gatewayEntry(rt, gs[j].NodeID)
			case "changeP":
				if len(ps) == 0 {
					continue
				}
				j := rapid.IntRange(0, len(ps)-1).Draw(rt, "which")
				ps[j] = providerEntry(rt, ps[j].NodeID)
			}
			reg.SetGateways(gs...)
			reg.SetProviders(ps...)
			upToDate := func() string {
				g, p := mgr.GetAllGateways(), mgr.GetAllProviders()
				if len(g) != len(gs) || len(p) != len(ps) {
					return fmt.Sprintf("%d gateways and %d providers are known, %d and %d are listed", len(g), len(p), len(gs), len(ps))
				}
				for _, x := range g {
					v, _ := new(big.Int).SetString(x.GetNodeID(), 16)
					if e := gs[v.Int64()/7]; !sameGateway(x, e) {
						return fmt.Sprintf("gateway %+v is listed as %+v", x, e)
					}
				}
				for _, x := range p {
					v, _ := new(big.Int).SetString(x.GetNodeID(), 16)
					if e := ps[v.Int64()/7]; !sameProvider(x, e) {
						return fmt.Sprintf("provider %+v is listed as %+v", x, e)
					}
				}
				return ""
			}
			e, end := "", time.Now().Add(limit)
			for e = upToDate(); e != "" && time.Now().Before(end); e = upToDate() {
				time.Sleep(period / 2)
			}
			if e != "" {
				rt.Fatalf("the view is refreshed every %v but %v after a change of the register: %s", period, limit, e)
			}
			if forced {
				c.NonTrivial("followed the register after a forced refresh")
			} else {
				c.NonTrivial("followed the register")
			}
		}
	})
}

// A register with hundreds of nodes is mirrored in full, before and after some of them change.
func TestD02_Large(t *testing.T) {
	vt.Check(t, 12, func(rt *rapid.T, c *vt.Case) {
		ng := rapid.SampledFrom([]int{40, 257, 300, 600, 1100}).Draw(rt, "gateways")
		np := rapid.SampledFrom([]int{257, 300, 600, 1100}).Draw(rt, "providers")
		rng := rand.New(rand.NewSource(rapid.Int64().Draw(rt, "ids")))
		w := &world{reg: vtreg.New(), gw: map[string]register.GatewayRegister{}, pr: map[string]register.ProviderRegister{}}
		defer w.reg.Close()
		id := func() []byte {
			b := make([]byte, 32)
			rng.Read(b)
			return b
		}
		text := func() string { return fmt.Sprintf("%x", rng.Uint64()) }
		gateway := func(name string) register.GatewayRegister {
			return register.GatewayRegister{NodeID: name, Address: text(), RootSigningKey: text(), SigningKey: text(), RegionCode: text(), NetworkInfoGateway: text(), NetworkInfoProvider: text(), NetworkInfoClient: text(), NetworkInfoAdmin: text()}
		}
		provider := func(name string) register.ProviderRegister {
			return register.ProviderRegister{NodeID: name, Address: text(), RootSigningKey: text(), SigningKey: text(), RegionCode: text(), NetworkInfoGateway: text(), NetworkInfoClient: text(), NetworkInfoAdmin: text()}
		}
		for i := 0; i < ng; i++ {
			b := id()
			w.gIDs = append(w.gIDs, b)
			w.gw[vt.Hex(b)] = gateway(vt.Hex(b))
		}
		for i := 0; i < np; i++ {
			b := id()
			w.pIDs = append(w.pIDs, b)
			w.pr[vt.Hex(b)] = provider(vt.Hex(b))
		}
		c.Addf("%d gateways %d providers", ng, np)
		c.NonTrivial("large register")
		w.publish()
		w.mgr = fcrregistermgr.NewFCRRegisterMgr(w.reg.URL(), true, true, time.Hour)
		if err := w.mgr.Start(); err != nil {
			rt.Fatalf("%v", err)
		}
		defer func() { vt.Within(vt.Hang, "Shutdown", w.mgr.Shutdown) }()
		for round := 0; round < 3; round++ {
			vt.Within(vt.Hang, "Refresh", w.mgr.Refresh)
			if a, b := len(w.mgr.GetAllGateways()), len(w.mgr.GetAllProviders()); a != len(w.gIDs) || b != len(w.pIDs) {
				rt.Fatalf("%d gateways and %d providers known of %d and %d", a, b, len(w.gIDs), len(w.pIDs))
			}
			for i, b := range w.gIDs {
				if g := w.mgr.GetGateway(vt.Node(b)); !sameGateway(g, w.gw[vt.Hex(b)]) {
					rt.Fatalf("gateway %d of %d is %+v, the register lists %+v", i, ng, g, w.gw[vt.Hex(b)])
				}
			}
			for i, b := range w.pIDs {
				if p := w.mgr.GetProvider(vt.Node(b)); !sameProvider(p, w.pr[vt.Hex(b)]) {
					rt.Fatalf("provider %d of %d is %+v, the register lists %+v", i, np, p, w.pr[vt.Hex(b)])
				}
			}
			for i := 0; i < 5; i++ {
				target, n := id(), rng.Intn(20)+1
				got, err := w.mgr.GetGatewaysNearCID(vt.CID(target), n, nil)
				if err != nil {
					rt.Fatalf("GetGatewaysNearCID(%x, %d): %v", target, n, err)
				}
				var res []string
				for _, g := range got {
					res = append(res, canon(rt, g.GetNodeID()))
				}
				if e := nearCheck(w.gIDs, target, n, nil, res); e != "" {
					rt.Fatalf("GetGatewaysNearCID(%x, %d): %s", target, n, e)
				}
			}
			// some change, one comes
			for i := 0; i < 10; i++ {
				k := vt.Hex(w.gIDs[rng.Intn(len(w.gIDs))])
				w.gw[k] = gateway(k)
				k = vt.Hex(w.pIDs[rng.Intn(len(w.pIDs))])
				w.pr[k] = provider(k)
			}
			b := id()
			w.gIDs = append(w.gIDs, b)
			w.gw[vt.Hex(b)] = gateway(vt.Hex(b))
			b = id()
			w.pIDs = append(w.pIDs, b)
			w.pr[vt.Hex(b)] = provider(vt.Hex(b))
			w.publish()
		}
	})
}
