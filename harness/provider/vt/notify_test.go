package provider

import (
	"fmt"
	"sort"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/provider/internal/api/gatewayapi"
	"github.com/ConsenSys/fc-retrieval/provider/internal/core"
	"github.com/ConsenSys/fc-retrieval/provider/internal/util/settings"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

type gw struct {
	id  *nodeid.NodeID
	key *fcrcrypto.KeyPair
}

var (
	once sync.Once
	reg  *vtreg.Server
	node *vtnode.Node // how to talk to the provider in this process
	gws  []*gw
	no   int
)

// setUp makes this process a provider.
func setUp() {
	reg = vtreg.New()
	s := settings.AppSettings{TCPInactivityTimeout: 20 * time.Second, TCPLongInactivityTimeout: 20 * time.Second, RegisterAPIURL: reg.URL()}
	c := core.GetSingleInstance(&s)
	c.ProviderID, c.ProviderPrivateKey, c.ProviderPrivateKeyVersion = vt.Node([]byte{9}), vt.Key(70), vt.Ver(3)
	c.RegisterMgr = fcrregistermgr.NewFCRRegisterMgr(reg.URL(), false, true, time.Hour)
	for i := 0; i < 5; i++ {
		gws = append(gws, &gw{vt.Node([]byte{byte(i * 50), 7}), vt.Key(600 + i)})
	}
	list()
	port := vt.Port()
	c.P2PServer = fcrp2pserver.NewFCRP2PServer([]string{port}, c.RegisterMgr, s.TCPInactivityTimeout)
	c.P2PServer.AddHandler(port, fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, gatewayapi.HandleGatewayNotifyProviderGroupCIDOfferSupportRequest)
	if err := c.P2PServer.Start(); err != nil {
		vt.Infra("%v", err)
	}
	if err := c.RegisterMgr.Start(); err != nil {
		vt.Infra("%v", err)
	}
	c.RegisterMgr.Refresh()
	node = &vtnode.Node{Kind: "provider", Peer: port, ID: c.ProviderID, Key: c.ProviderPrivateKey}
}

func list() {
	var l []register.GatewayRegister
	for _, g := range gws {
		n := vtnode.Node{Kind: "gateway", ID: g.id, Key: g.key, Peer: "1", Prov: "1", Client: "1", Admin: "1"}
		l = append(l, n.Gateway())
	}
	reg.SetGateways(l...)
}

// notice makes a gateway's notification.
func notice(id *nodeid.NodeID, key *fcrcrypto.KeyPair, yes bool) *fcrmessages.FCRMessage {
	m, err := fcrmessages.EncodeGatewayNotifyProviderGroupCIDOfferSupportRequest(id, yes)
	if err != nil {
		panic(err)
	}
	if err := m.Sign(key, vt.Ver(1)); err != nil {
		panic(err)
	}
	return m
}

func subscribed() string {
	c := core.GetSingleInstance()
	c.GroupOfferGatewayIDsLock.RLock()
	defer c.GroupOfferGatewayIDsLock.RUnlock()
	var l []string
	for i := range c.GroupOfferGatewayIDs {
		l = append(l, c.GroupOfferGatewayIDs[i].ToString())
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

func want(m map[*gw]bool) string {
	var l []string
	for g, yes := range m {
		if yes {
			l = append(l, g.id.ToString())
		}
	}
	sort.Strings(l)
	return fmt.Sprint(l)
}

// accepted wants a notification to be confirmed.
func accepted(t vtnode.T, r *fcrmessages.FCRMessage) {
	if r == nil || vtnode.IsInvalid(r) {
		t.Fatalf("an authentic notification is refused")
	}
	if err := r.Verify(vt.Pub(node.Key)); err != nil {
		t.Fatalf("the confirmation is not signed by the provider: %v", err)
	}
	if ok, err := fcrmessages.DecodeGatewayNotifyProviderGroupCIDOfferSupportResponse(r); err != nil || !ok {
		t.Fatalf("an authentic notification is answered with %v %v", ok, err)
	}
}

type pt struct{}

func (pt) Fatalf(f string, a ...interface{}) { panic(fmt.Sprintf(f, a...)) }

// the process serves all cases, so its set starts each as the previous left it
var model = map[*gw]bool{}

func TestV03_Subscriptions(t *testing.T) {
	once.Do(setUp)
	c0 := core.GetSingleInstance()
	vt.Check(t, 100, func(rt *rapid.T, c *vt.Case) {
		// start from no subscriptions
		for _, g := range gws {
			node.Ask(rt, node.Peer, notice(g.id, g.key, false))
			delete(model, g)
		}
		if s := subscribed(); s != "[]" {
			rt.Fatalf("after every gateway declined group offers, the set is %s", s)
		}
		var conn *vtnode.Conn
		defer func() {
			if conn != nil {
				conn.Close()
			}
		}()
		changed := false
		for s := rapid.IntRange(1, 14).Draw(rt, "steps"); s > 0; s-- {
			g := gws[rapid.IntRange(0, len(gws)-1).Draw(rt, "gateway")]
			yes := rapid.IntRange(0, 2).Draw(rt, "yes") > 0
			switch k := rapid.IntRange(0, 9).Draw(rt, "step"); {
			case k < 5:
				m := notice(g.id, g.key, yes)
				var r *fcrmessages.FCRMessage
				if rapid.Bool().Draw(rt, "same connection") {
					if conn == nil {
						conn = node.Dial(rt, node.Peer)
					}
					conn.Send(rt, m)
					r = conn.Read(rt)
				} else {
					r = node.Ask(rt, node.Peer, m)
				}
				accepted(rt, r)
				model[g] = yes
				changed = true
				c.Addf("%v", yes)
			case k < 8:
				o := gws[(rapid.IntRange(1, len(gws)-1).Draw(rt, "other")+index(g))%len(gws)]
				flaw := rapid.SampledFrom([]string{"unregistered", "another key", "another gateway's key", "unsigned", "altered", "altered id", "malformed"}).Draw(rt, "flaw")
				var m *fcrmessages.FCRMessage
				switch flaw {
				case "unregistered":
					no++
					m = notice(vt.Node([]byte{byte(no >> 8), byte(no), 200}), g.key, yes)
				case "another key":
					m = notice(g.id, vt.Key(590), yes)
				case "another gateway's key":
					m = notice(g.id, o.key, yes)
					if vt.PubHex(o.key) == vt.PubHex(g.key) {
						m = notice(g.id, vt.Key(591), yes)
					}
				case "unsigned":
					m = notice(g.id, g.key, yes)
					m = fcrmessages.CreateFCRMessage(m.GetMessageType(), m.GetMessageBody())
				case "altered":
					m = vtnode.WithSignature(notice(g.id, g.key, yes), notice(g.id, g.key, !yes).GetSignature())
				case "altered id":
					m = vtnode.WithSignature(notice(o.id, g.key, yes), notice(g.id, g.key, yes).GetSignature())
					if vt.PubHex(o.key) == vt.PubHex(g.key) {
						m = notice(g.id, vt.Key(591), yes)
					}
				default:
					b := notice(g.id, g.key, yes).GetMessageBody()
					m = fcrmessages.CreateFCRMessage(fcrmessages.GatewayNotifyProviderGroupCIDOfferSupportedRequestType, b[:len(b)-rapid.IntRange(1, len(b)).Draw(rt, "cut")])
					if err := m.Sign(g.key, vt.Ver(1)); err != nil {
						panic(err)
					}
				}
				if r := node.Ask(rt, node.Peer, m); !vtnode.IsInvalid(r) {
					rt.Fatalf("a notification with the flaw %q is answered with type %d", flaw, r.GetMessageType())
				}
				c.Class("forged: " + flaw)
				c.Addf("%s", flaw)
			case k == 8: // the key in the register changes
				g.key = vt.Key(600 + rapid.IntRange(0, 20).Draw(rt, "key"))
				list()
				c0.RegisterMgr.Refresh()
				c.Class("key changed")
			default: // several gateways at once, each saying one thing or the other several times
				var fs []func()
				for i := range gws {
					if rapid.Bool().Draw(rt, "takes part") {
						g := gws[i]
						last := rapid.Bool().Draw(rt, "finally")
						n := rapid.IntRange(1, 3).Draw(rt, "times")
						fs = append(fs, func() {
							for j := n - 1; j >= 0; j-- {
								accepted(pt{}, node.Ask(pt{}, node.Peer, notice(g.id, g.key, last == (j%2 == 0))))
							}
						})
						model[g] = last
						changed = true
					}
				}
				if f := vt.Parallel("notifications", fs...); len(f) > 0 {
					rt.Fatalf("%s", f[0])
				}
				c.Class("concurrent")
				c.Addf("par%d", len(fs))
			}
			if got := subscribed(); got != want(model) {
				rt.Fatalf("the gateways taking group offers are %s, want %s", got, want(model))
			}
		}
		if changed {
			c.NonTrivial("notified")
		}
	})
}

func index(g *gw) int {
	for i := range gws {
		if gws[i] == g {
			return i
		}
	}
	return -1
}
