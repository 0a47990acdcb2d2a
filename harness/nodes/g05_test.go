package nodes

import (
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"pgregory.net/rapid"
)

// peerEntry is the register entry of a gateway without a server.
func peerEntry(p *prov) register.GatewayRegister {
	n := vtnode.Node{Kind: "gateway", ID: p.id, Key: p.key, Peer: "1", Prov: "1", Client: "1", Admin: "1"}
	return n.Gateway()
}

var queryFlaws = []string{"none", "none", "none", "none", "none", "another key", "unsigned", "altered", "unknown gateway", "provider's identity", "late", "malformed", "old key"}

func TestG05_PeerQueries(t *testing.T) {
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		w := gateway(rt)
		s := newShelf()
		ps := pieces(rt, 1, 4)
		w.stock(rt, c, s, ps, 6, true)
		var peers []*prov
		var list []register.GatewayRegister
		for i := rapid.IntRange(2, 4).Draw(rt, "peers"); i > 0; i-- {
			p := &prov{vt.Node(freshID(rt, "peer")), vt.Key(400 + i), vt.Ver(uint32(i))}
			peers = append(peers, p)
			list = append(list, peerEntry(p))
		}
		w.register(list...)
		w.Refresh(rt)
		oldKeys := map[*prov]int{}
		if rapid.IntRange(0, 2).Draw(rt, "new key") == 0 {
			p := peers[0]
			oldKeys[p] = 1
			p.key = vt.Key(420 + rapid.IntRange(0, 3).Draw(rt, "key"))
			list[0] = peerEntry(p)
			w.register(list...)
			w.Refresh(rt)
			c.Class("key changed")
		}
		shared := rapid.Bool().Draw(rt, "one connection")
		var conn *vtnode.Conn
		var plan []func(t vtnode.T)
		answered, refused := 0, 0
		for i := rapid.IntRange(1, 8).Draw(rt, "queries"); i > 0; i-- {
			p := ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "piece")]
			if rapid.IntRange(0, 9).Draw(rt, "unknown") == 0 {
				p = vt.CID(freshID(rt, "unknown piece"))
			}
			from := peers[rapid.IntRange(0, len(peers)-1).Draw(rt, "from")]
			nonce := vt.Int64().Draw(rt, "nonce")
			till := rapid.SampledFrom([]int64{ttl(), ttl() + 1000000, 1<<63 - 1}).Draw(rt, "ttl")
			flaw := rapid.SampledFrom(queryFlaws).Draw(rt, "flaw")
			if flaw == "old key" && oldKeys[from] == 0 {
				flaw = "another key"
			}
			if flaw == "late" {
				till = rapid.SampledFrom([]int64{time.Now().Unix() - 2, time.Now().Unix() - 100, 0, -1, -1 << 63}).Draw(rt, "late")
			}
			paid := rapid.Bool().Draw(rt, "paid")
			var pay payment
			id := from.id
			key := from.key
			switch flaw {
			case "unknown gateway":
				id = vt.Node(unique())
			case "provider's identity":
				id, key = w.provs[0].id, w.provs[0].key
			case "another key":
				for vt.PubHex(key) == vt.PubHex(from.key) {
					key = vt.Key(400 + rapid.IntRange(1, 9).Draw(rt, "key"))
				}
			case "old key":
				key = vt.Key(400 + len(peers))
			}
			mk := func(id *nodeid.NodeID, p *cid.ContentID, nonce int64) *fcrmessages.FCRMessage {
				var m *fcrmessages.FCRMessage
				var err error
				if paid {
					m, err = fcrmessages.EncodeGatewayDHTDiscoverRequestV2(id, p, nonce, till, pay.ch, pay.voucher)
				} else {
					m, err = fcrmessages.EncodeGatewayDHTDiscoverRequest(id, p, nonce, till, "", "")
				}
				if err == nil {
					err = m.Sign(key, from.ver)
				}
				if err != nil {
					rt.Fatalf("query: %v", err)
				}
				return m
			}
			if paid {
				pay = w.pay(rt, w.search(1), "payment")
				c.Class("paid: " + pay.kind)
			}
			m := mk(id, p, nonce)
			switch flaw {
			case "unsigned":
				m = fcrmessages.CreateFCRMessage(m.GetMessageType(), m.GetMessageBody())
			case "altered":
				switch rapid.IntRange(0, 2).Draw(rt, "altered") {
				case 0:
					m = vtnode.WithSignature(mk(id, p, nonce^1), m.GetSignature())
				case 1:
					m = vtnode.WithSignature(mk(id, vt.CID(unique()), nonce), m.GetSignature())
				default:
					m = vtnode.WithSignature(mk(peers[0].id, p, nonce^2), m.GetSignature())
				}
			case "malformed":
				m = spoil(rt, m)
				if err := m.Sign(key, from.ver); err != nil {
					rt.Fatalf("query: %v", err)
				}
			}
			c.Addf("%s %v %s", flaw, paid, pay.kind)
			c.Class(flaw)
			if flaw != "none" {
				refused++
			} else if len(s.byPiece[p.ToString()]) > 0 {
				answered++
			}
			at := time.Now().Unix()
			plan = append(plan, func(t vtnode.T) {
				var r *fcrmessages.FCRMessage
				if shared {
					if conn == nil {
						conn = w.Dial(t, w.Peer)
					}
					conn.Send(t, m)
					if r = conn.Read(t); r == nil {
						conn.Close()
						conn = nil
					}
				} else {
					r = w.Ask(t, w.Peer, m)
				}
				if flaw != "none" {
					if !vtnode.IsInvalid(r) {
						t.Fatalf("a query (paid: %v) with the flaw %q is answered with type %d: %s", paid, flaw, r.GetMessageType(), r.GetMessageBody())
					}
					return
				}
				if vtnode.IsInvalid(r) {
					if !paid || pay.ok {
						t.Fatalf("an authentic query (paid: %v %s) is refused", paid, pay.kind)
					}
					return
				}
				w.Mine(t, r)
				if !paid {
					rp, rn, found, subs, funded, err := fcrmessages.DecodeGatewayDHTDiscoverResponse(r)
					if err != nil {
						t.Fatalf("answer: %v", err)
					}
					if rp.ToString() != p.ToString() || rn != nonce {
						t.Fatalf("asked for %s (%d), the answer is for %s (%d)", p.ToString(), nonce, rp.ToString(), rn)
					}
					s.checkSubs(t, p, at, subs, funded, found)
					return
				}
				rp, rn, found, ds, funded, required, ch, err := fcrmessages.DecodeGatewayDHTDiscoverResponseV2(r)
				if err != nil {
					t.Fatalf("answer: %v", err)
				}
				if rp.ToString() != p.ToString() || rn != nonce {
					t.Fatalf("asked for %s (%d), the answer is for %s (%d)", p.ToString(), nonce, rp.ToString(), rn)
				}
				if required != !pay.enough {
					t.Fatalf("payment required: %v, after a payment of kind %q for a price of %d", required, pay.kind, w.Config.SearchPrice)
				}
				if required {
					if len(ds) != 0 {
						t.Fatalf("%d digests given for a payment of kind %q", len(ds), pay.kind)
					}
					if ch != pay.ch {
						t.Fatalf("payment is demanded through channel %q instead of %q", ch, pay.ch)
					}
					return
				}
				if len(funded) != len(ds) {
					t.Fatalf("%d digests with %d payment channel flags", len(ds), len(funded))
				}
				s.checkDigests(t, p, at, ds, found)
			})
		}
		if shared {
			for _, f := range plan {
				f(rt)
			}
			if conn != nil {
				conn.Close()
			}
			w.Alive(rt)
		} else {
			run(rt, c, w.Node, plan)
		}
		if answered > 0 {
			c.NonTrivial("answered")
		} else if refused > 0 {
			c.NonTrivial("refused")
		}
	})
}
