package nodes

import (
	"encoding/json"
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"pgregory.net/rapid"
)

// spoil makes a message whose body its handler cannot understand.
func spoil(rt *rapid.T, m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	b := m.GetMessageBody()
	switch rapid.IntRange(0, 4).Draw(rt, "spoilt") {
	case 0:
		b = b[:len(b)-1-rapid.IntRange(0, len(b)-2).Draw(rt, "cut")]
	case 1:
		b = []byte("[" + string(b) + "]")
	case 2:
		b = rapid.SliceOfN(rapid.ByteRange(65, 90), 1, 20).Draw(rt, "noise")
	case 3: // an identifier of the wrong length or kind
		var v map[string]interface{}
		if json.Unmarshal(b, &v) != nil {
			panic("body is no object")
		}
		for _, k := range []string{"piece_cid", "client_id", "gateway_id"} {
			if _, ok := v[k]; ok {
				v[k] = rapid.SampledFrom([]interface{}{strings.Repeat("Aa", 33), "zz", 5, []int{1}, map[string]int{"a": 1}, "!"}).Draw(rt, "identifier")
			}
		}
		b, _ = json.Marshal(v)
	default:
		b = []byte(`"x"`)
	}
	return fcrmessages.CreateFCRMessage(m.GetMessageType(), b)
}

func TestG02_Discovery(t *testing.T) {
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		w := gateway(rt)
		s := newShelf()
		ps := pieces(rt, 1, 4)
		w.stock(rt, c, s, ps, 6, true)
		var plan []func(t vtnode.T)
		lists, unpaid := 0, 0
		for i := rapid.IntRange(1, 8).Draw(rt, "requests"); i > 0; i-- {
			p := ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "piece")]
			if rapid.IntRange(0, 9).Draw(rt, "unknown") == 0 {
				p = vt.CID(freshID(rt, "unknown piece"))
			}
			nonce := vt.Int64().Draw(rt, "nonce")
			till := rapid.SampledFrom([]int64{ttl(), ttl() + 1000000, 1<<63 - 1}).Draw(rt, "ttl")
			kind := rapid.SampledFrom([]string{"free", "free", "paid", "paid", "paid", "late", "bad", "establish"}).Draw(rt, "request")
			c.Addf("%s", kind)
			c.Class(kind)
			from := time.Now().Unix()
			switch kind {
			case "free":
				m, err := fcrmessages.EncodeClientStandardDiscoverRequest(p, nonce, till, "", "")
				if len(s.byPiece[p.ToString()]) > 0 {
					lists++
				}
				plan = append(plan, func(t vtnode.T) {
					r := w.Signed(t, w.Client, m, err)
					rp, rn, found, subs, funded, err := fcrmessages.DecodeClientStandardDiscoverResponse(r)
					if err != nil {
						t.Fatalf("discovery response: %v", err)
					}
					if rp.ToString() != p.ToString() || rn != nonce {
						t.Fatalf("asked for %s (%d), the response is for %s (%d)", p.ToString(), nonce, rp.ToString(), rn)
					}
					s.checkSubs(t, p, from, subs, funded, found)
				})
			case "paid":
				pay := w.pay(rt, w.search(1), "payment")
				c.Class("paid: " + pay.kind)
				c.Addf("%s", pay.kind)
				m, err := fcrmessages.EncodeClientStandardDiscoverRequestV2(p, nonce, till, pay.ch, pay.voucher)
				if pay.enough && len(s.byPiece[p.ToString()]) > 0 {
					lists++
				} else {
					unpaid++
				}
				plan = append(plan, func(t vtnode.T) {
					r := w.Signed(t, w.Client, m, err)
					rp, rn, found, ds, funded, required, ch, err := fcrmessages.DecodeClientStandardDiscoverResponseV2(r)
					if err != nil {
						t.Fatalf("discovery response: %v", err)
					}
					if rp.ToString() != p.ToString() || rn != nonce {
						t.Fatalf("asked for %s (%d), the response is for %s (%d)", p.ToString(), nonce, rp.ToString(), rn)
					}
					if required != !pay.enough {
						t.Fatalf("payment required: %v, after a payment of kind %q for a price of %d", required, pay.kind, w.Config.SearchPrice)
					}
					if required {
						if len(ds) != 0 {
							t.Fatalf("%d digests given for a payment of kind %q", len(ds), pay.kind)
						}
						if ch != pay.ch {
							t.Fatalf("payment is demanded through channel %q instead of %q", ch, pay.ch)
						}
						return
					}
					if len(funded) != len(ds) {
						t.Fatalf("%d digests with %d payment channel flags", len(ds), len(funded))
					}
					s.checkDigests(t, p, from, ds, found)
				})
			case "late":
				late := rapid.SampledFrom([]int64{time.Now().Unix() - 2, time.Now().Unix() - 100, 0, -1, -1 << 63}).Draw(rt, "late")
				ms := []func() (*fcrmessages.FCRMessage, error){
					func() (*fcrmessages.FCRMessage, error) {
						return fcrmessages.EncodeClientStandardDiscoverRequest(p, nonce, late, "", "")
					},
					func() (*fcrmessages.FCRMessage, error) {
						ch, v := w.lane().Pay(w.search(1))
						return fcrmessages.EncodeClientStandardDiscoverRequestV2(p, nonce, late, ch, v)
					},
					func() (*fcrmessages.FCRMessage, error) {
						return fcrmessages.EncodeClientEstablishmentRequest(vt.Node(unique()), "challenge", late)
					},
				}
				m, err := ms[rapid.IntRange(0, 2).Draw(rt, "late request")]()
				if err != nil {
					rt.Fatalf("request: %v", err)
				}
				plan = append(plan, func(t vtnode.T) {
					if r, _ := w.Post(t, w.Client, m); r != nil {
						t.Fatalf("an expired request (type %d, %d) is answered", m.GetMessageType(), late)
					}
				})
			case "bad":
				ms := []func() (*fcrmessages.FCRMessage, error){
					func() (*fcrmessages.FCRMessage, error) {
						return fcrmessages.EncodeClientStandardDiscoverRequest(p, nonce, till, "", "")
					},
					func() (*fcrmessages.FCRMessage, error) {
						return fcrmessages.EncodeClientStandardDiscoverRequestV2(p, nonce, till, "", "")
					},
					func() (*fcrmessages.FCRMessage, error) {
						return fcrmessages.EncodeClientEstablishmentRequest(vt.Node(unique()), "challenge", till)
					},
				}
				m, err := ms[rapid.IntRange(0, 2).Draw(rt, "bad request")]()
				if err != nil {
					rt.Fatalf("request: %v", err)
				}
				m = spoil(rt, m)
				plan = append(plan, func(t vtnode.T) {
					if r, st := w.Post(t, w.Client, m); r != nil || st < 400 {
						t.Fatalf("a malformed request (type %d: %s) is answered with status %d", m.GetMessageType(), m.GetMessageBody(), st)
					}
				})
			case "establish":
				id, ch := vt.Node(freshID(rt, "client")), vt.Text().Draw(rt, "challenge")
				m, err := fcrmessages.EncodeClientEstablishmentRequest(id, ch, till)
				// what JSON makes of the text
				var want string
				b, _ := json.Marshal(ch)
				json.Unmarshal(b, &want)
				plan = append(plan, func(t vtnode.T) {
					r := w.Signed(t, w.Client, m, err)
					g, got, err := fcrmessages.DecodeClientEstablishmentResponse(r)
					if err != nil {
						t.Fatalf("establishment response: %v", err)
					}
					if g.ToString() != w.ID.ToString() || got != want {
						t.Fatalf("challenge %q is returned as %q by %s", want, got, g.ToString())
					}
				})
			}
		}
		run(rt, c, w.Node, plan)
		if lists > 0 {
			c.NonTrivial("offers held")
		} else if unpaid > 0 {
			c.NonTrivial("unpaid")
		}
	})
}

// run executes requests one after the other or all at once.
func run(rt *rapid.T, c *vt.Case, n *vtnode.Node, plan []func(vtnode.T)) {
	if len(plan) > 1 && rapid.Bool().Draw(rt, "at once") {
		c.Class("concurrent")
		var fns []func()
		for _, f := range plan {
			f := f
			fns = append(fns, func() { f(pt{}) })
		}
		if fails := vt.Parallel("requests", fns...); len(fails) > 0 {
			rt.Fatalf("%s", fails[0])
		}
	} else {
		for _, f := range plan {
			f(rt)
		}
	}
	n.Alive(rt)
}
