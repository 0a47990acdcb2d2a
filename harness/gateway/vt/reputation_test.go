package gateway

import (
	"crypto/sha256"
	"fmt"
	"net"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/api/adminapi"
	handlers "github.com/ConsenSys/fc-retrieval/gateway/internal/api/adminapi"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/core"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/reputation"
	"github.com/ConsenSys/fc-retrieval/gateway/internal/util/settings"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"pgregory.net/rapid"
)

const (
	most  = int64(10000)
	least = int64(-10000)
	first = int64(10)
)

// The score table.
var table = []struct {
	name string
	by   int64
	on   func(*reputation.Reputation, *nodeid.NodeID)
}{
	{"deposit", 1000, (*reputation.Reputation).OnChainDeposit},
	{"standard discovery, offers", 10, (*reputation.Reputation).ClientStdDiscOneCidOffer},
	{"standard discovery, no offers", 1, (*reputation.Reputation).ClientStdDiscNoCidOffers},
	{"standard discovery, late", 1, (*reputation.Reputation).ClientStdDiscLateCidOffers},
	{"standard discovery, unpaid", -100, (*reputation.Reputation).ClientStdDiscNonPayment},
	{"DHT discovery, offers", 10, (*reputation.Reputation).ClientDhtDiscOneCidOffer},
	{"DHT discovery, no offers", 1, (*reputation.Reputation).ClientDhtDiscNoCidOffers},
	{"DHT discovery, late", 1, (*reputation.Reputation).ClientDhtDiscLateCidOffers},
	{"DHT discovery, unpaid", -300, (*reputation.Reputation).ClientDhtDiscNonPayment},
	{"micro payment", 1, (*reputation.Reputation).ClientMicroPayment},
	{"invalid message", -10, (*reputation.Reputation).ClientInvalidMessage},
	{"establishment", -1, func(r *reputation.Reputation, id *nodeid.NodeID) { r.ClientEstablishmentChallenge(id) }},
}

// limited is v+by within the limits, whatever v.
func limited(v, by int64) int64 {
	if v > most+2000 {
		return most
	}
	if v < least-2000 {
		return least
	}
	v += by
	if v > most {
		return most
	}
	if v < least {
		return least
	}
	return v
}

var (
	once  sync.Once
	node  *vtnode.Node // how to talk to the gateway in this process
	names uint64
)

// setUp makes this process a gateway.
func setUp() {
	c := core.GetSingleInstance(&settings.AppSettings{TCPInactivityTimeout: 20 * time.Second, TCPLongInactivityTimeout: 20 * time.Second})
	c.GatewayID, c.GatewayPrivateKey, c.GatewayPrivateKeyVersion = vt.Node([]byte{8}), vt.Key(71), vt.Ver(2)
	port := vt.Port()
	c.RESTServer = fcrrestserver.NewFCRRESTServer([]string{port})
	c.RESTServer.AddHandler(port, fcrmessages.GatewayAdminGetReputationRequestType, handlers.HandleGatewayAdminGetReputationRequest)
	c.RESTServer.AddHandler(port, fcrmessages.GatewayAdminSetReputationRequestType, handlers.HandleGatewayAdminSetReputationRequest)
	if err := c.RESTServer.Start(); err != nil {
		vt.Infra("%v", err)
	}
	// the server says it has started before it listens
	for i := 0; ; i++ {
		cn, err := net.Dial("tcp", "127.0.0.1:"+port)
		if err == nil {
			cn.Close()
			break
		}
		if i > 600 {
			vt.Infra("the server does not listen: %v", err)
		}
		time.Sleep(50 * time.Millisecond)
	}
	node = &vtnode.Node{Kind: "gateway", Admin: port, Peer: "1", Prov: "1", Client: "1", ID: c.GatewayID, Key: c.GatewayPrivateKey}
}

// clients are ids never used before; they may be close to one another.
func clients(rt *rapid.T, n int) []*nodeid.NodeID {
	names++
	base := sha256.Sum256([]byte(fmt.Sprint("reputation", names)))
	p := rapid.IntRange(0, 24).Draw(rt, "prefix")
	copy(base[:24], vt.ID32().Draw(rt, "id")[:p])
	var ids []*nodeid.NodeID
	for i := 0; i < n; i++ {
		b := base
		switch rapid.IntRange(0, 2).Draw(rt, "neighbour") {
		case 0:
			b[31] ^= byte(i)
		case 1:
			b[rapid.IntRange(0, 20).Draw(rt, "byte")] ^= byte(1 + i)
			b[30] ^= byte(i)
		default:
			b = sha256.Sum256(append(b[:], byte(i)))
		}
		ids = append(ids, vt.Node(b[:]))
	}
	return ids
}

// scores are any 64 bit number, often near a limit.
func scores() *rapid.Generator[int64] {
	return rapid.OneOf(
		rapid.Int64Range(-12000, 12000), vt.Int64(),
		rapid.Custom(func(rt *rapid.T) int64 {
			return rapid.SampledFrom([]int64{0, most, least}).Draw(rt, "near") + rapid.Int64Range(-1200, 1200).Draw(rt, "off")
		}),
		rapid.Custom(func(rt *rapid.T) int64 {
			d := rapid.Int64Range(0, 1200).Draw(rt, "from the end")
			if rapid.Bool().Draw(rt, "largest") {
				return 1<<63 - 1 - d
			}
			return -1<<63 + d
		}))
}

func TestG01_History(t *testing.T) {
	once.Do(setUp)
	lib := adminapi.NewAdminApi()
	g := node.Gateway()
	vt.Check(t, 400, func(rt *rapid.T, c *vt.Case) {
		r := reputation.GetSingleInstance()
		ids := clients(rt, rapid.IntRange(1, 4).Draw(rt, "clients"))
		model := make([]*int64, len(ids))
		distinct := map[string]bool{}
		for _, id := range ids {
			distinct[id.ToString()] = true
		}
		if len(distinct) != len(ids) {
			vt.Skip("two clients with one id")
		}
		look := func(i int) {
			v, known := r.GetClientReputation(ids[i])
			if known != (model[i] != nil) || r.ClientExists(ids[i]) != known {
				rt.Fatalf("client %d: known %v (exists: %v), must be %v", i, known, r.ClientExists(ids[i]), model[i] != nil)
			}
			if known && v != *model[i] {
				rt.Fatalf("client %d: score %d, must be %d", i, v, *model[i])
			}
		}
		ask := func(i int) {
			v, err := lib.RequestGetReputation(&g, ids[i], vt.Key(5), vt.Ver(1))
			if (err == nil) != (model[i] != nil) {
				rt.Fatalf("client %d: the administrator is told %d %v, known must be %v", i, v, err, model[i] != nil)
			}
			if err == nil && v != *model[i] {
				rt.Fatalf("client %d: the administrator is told a score of %d, must be %d", i, v, *model[i])
			}
		}
		clamped, assigned, busy := false, false, map[int]bool{}
		n := rapid.IntRange(1, 40).Draw(rt, "steps")
		for k := 0; k < n; k++ {
			i := rapid.IntRange(0, len(ids)-1).Draw(rt, "client")
			switch op := rapid.IntRange(0, 9).Draw(rt, "op"); {
			case op == 0: // establishment
				if model[i] == nil {
					v := first
					model[i] = &v
				}
				*model[i] = limited(*model[i], -1)
				got := r.ClientEstablishmentChallenge(ids[i])
				c.Addf("%d established -> %d", i, got)
				if got != *model[i] {
					rt.Fatalf("client %d: an establishment tells %d, must be %d", i, got, *model[i])
				}
				busy[i] = true
			case op == 1:
				v := scores().Draw(rt, "score")
				r.SetClientReputation(ids[i], v)
				c.Addf("%d assigned %d", i, v)
				model[i] = &v
				assigned = true
			case op == 2:
				v := scores().Draw(rt, "score")
				ok, err := lib.RequestSetReputation(&g, ids[i], v, vt.Key(5), vt.Ver(1))
				c.Addf("%d assigned %d by the administrator: %v %v", i, v, ok, err)
				if ok != (err == nil) || ok != (model[i] != nil) {
					rt.Fatalf("client %d: the administrator assigning %d is told %v %v, known is %v", i, v, ok, err, model[i] != nil)
				}
				if ok {
					model[i] = &v
					assigned = true
				}
			case op == 3:
				ask(i)
			default:
				if model[i] == nil {
					look(i)
					continue
				}
				e := rapid.SampledFrom(table).Draw(rt, "event")
				times := 1
				if rapid.IntRange(0, 3).Draw(rt, "burst") == 0 {
					times = rapid.IntRange(2, 60).Draw(rt, "times")
				}
				c.Addf("%d: %d x %s from %d", i, times, e.name, *model[i])
				for ; times > 0; times-- {
					before := *model[i]
					*model[i] = limited(before, e.by)
					if *model[i] != before+e.by {
						clamped = true
					}
					e.on(r, ids[i])
					look(i)
				}
				busy[i] = true
			}
			look(i)
			if rapid.IntRange(0, 5).Draw(rt, "look at all") == 0 {
				for j := range ids {
					look(j)
				}
			}
		}
		for j := range ids {
			look(j)
			ask(j)
		}
		if clamped {
			c.NonTrivial("a limit is reached")
		}
		if len(busy) > 1 {
			c.NonTrivial("events of several clients")
		}
		if assigned {
			c.NonTrivial("a score is assigned")
		}
	})
}

// Concurrent events all count.
func TestG01_Concurrent(t *testing.T) { concurrent(t) }
func TestS02_Reputation(t *testing.T) { concurrent(t) }

func concurrent(t *testing.T) {
	once.Do(setUp)
	lib := adminapi.NewAdminApi()
	g := node.Gateway()
	vt.Check(t, 40, func(rt *rapid.T, c *vt.Case) {
		r := reputation.GetSingleInstance()
		ids := clients(rt, rapid.IntRange(1, 3).Draw(rt, "clients"))
		rising := rapid.Bool().Draw(rt, "only rising") // then the limit may be reached
		start := make([]*int64, len(ids))
		for i, id := range ids {
			for _, other := range ids[:i] {
				if other.ToString() == id.ToString() {
					vt.Skip("two clients with one id")
				}
			}
			if !rising && rapid.IntRange(0, 2).Draw(rt, "new") == 0 {
				continue
			}
			v := rapid.Int64Range(-50, 50).Draw(rt, "start")
			if rising {
				v = most - rapid.Int64Range(0, 4000).Draw(rt, "below the limit")
			}
			r.SetClientReputation(id, v)
			start[i] = &v
		}
		sum := make([]int64, len(ids))
		up, down := make([]int64, len(ids)), make([]int64, len(ids))
		count := make([]int, len(ids))
		var mu sync.Mutex
		told := make([][]int64, len(ids))
		var fns []func()
		for k := rapid.IntRange(2, 8).Draw(rt, "threads"); k > 0; k-- {
			type step struct{ client, event int }
			var plan []step
			for s := rapid.IntRange(1, 40).Draw(rt, "steps"); s > 0; s-- {
				i := rapid.IntRange(0, len(ids)-1).Draw(rt, "client")
				e := rapid.IntRange(0, len(table)-1).Draw(rt, "event")
				if start[i] == nil {
					e = len(table) - 1 // an establishment, of a client nobody knows yet
				}
				if rising {
					for table[e].by < 0 {
						e = (e + 1) % len(table)
					}
				}
				// whatever the order of the events, the limits must stay out of reach
				if by := table[e].by; by > 0 {
					if !rising && up[i]+by > 9000 {
						continue
					}
					up[i] += by
				} else {
					if down[i]+by < -9000 {
						continue
					}
					down[i] += by
				}
				sum[i] += table[e].by
				count[i]++
				plan = append(plan, step{i, e})
			}
			see := rapid.IntRange(0, 3).Draw(rt, "look") == 0
			fns = append(fns, func() {
				for _, s := range plan {
					if s.event == len(table)-1 {
						v := r.ClientEstablishmentChallenge(ids[s.client])
						mu.Lock()
						told[s.client] = append(told[s.client], v)
						mu.Unlock()
					} else {
						table[s.event].on(r, ids[s.client])
					}
					if v, known := r.GetClientReputation(ids[s.client]); !known || v > most || v < least {
						panic(fmt.Sprintf("client %d: score %d (known: %v) after an event", s.client, v, known))
					}
				}
				if see {
					if v, err := lib.RequestGetReputation(&g, ids[0], vt.Key(5), vt.Ver(1)); err == nil && (v > most || v < least) {
						panic(fmt.Sprintf("the administrator is told %d", v))
					}
				}
			})
		}
		c.Addf("%d threads, %d clients, rising %v, changes %v in %v events", len(fns), len(ids), rising, sum, count)
		if f := vt.Parallel("events", fns...); len(f) > 0 {
			rt.Fatalf("%s", f[0])
		}
		for i, id := range ids {
			v, known := r.GetClientReputation(id)
			if start[i] == nil {
				if known != (count[i] > 0) {
					rt.Fatalf("client %d: known %v after %d establishments", i, known, count[i])
				}
				if !known {
					continue
				}
				// only establishments, each telling another score
				l := told[i]
				sort.Slice(l, func(a, b int) bool { return l[a] > l[b] })
				for k, x := range l {
					if x != first-1-int64(k) {
						rt.Fatalf("client %d: concurrent establishments tell %v", i, l)
					}
				}
				if v != first+sum[i] {
					rt.Fatalf("client %d: %d after %d establishments", i, v, count[i])
				}
				c.Class("concurrent establishment of a new client")
				continue
			}
			want := *start[i] + sum[i]
			if want > most {
				want = most
				c.Class("the limit is reached")
			}
			if !known || v != want {
				rt.Fatalf("client %d: score %d after changes of %d in %d events from %d", i, v, sum[i], count[i], *start[i])
			}
		}
		c.NonTrivial("concurrent events")
	})
}
