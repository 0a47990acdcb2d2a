package nodes

import (
	"encoding/base64"
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"pgregory.net/rapid"
)

// checkBought compares delivered offers with the digests paid for.
func (s *shelf) checkBought(t vtnode.T, p *cid.ContentID, from int64, asked []string, got []cidoffer.SubCIDOffer, funded []bool, found bool) {
	sure, may := s.live(p, from, time.Now().Unix())
	if found != (len(got) > 0) {
		t.Fatalf("found is %v, with %d offers", found, len(got))
	}
	if len(funded) != len(got) {
		t.Fatalf("%d offers with %d payment channel flags", len(got), len(funded))
	}
	want := map[string]string{}
	for _, d := range asked {
		if o := may[d]; o != nil {
			want[offerTerms(o, p)] = d
		}
	}
	have := map[string]bool{}
	for i := range got {
		o := &got[i]
		if o.GetProviderID() == nil || o.GetSubCID() == nil || o.GetMerkleProof() == nil {
			t.Fatalf("an empty offer is delivered")
		}
		d, ok := want[subTerms(o)]
		if !ok {
			t.Fatalf("offer %s is delivered, which was not asked for or is not held for %s", subTerms(o), p.ToString())
		}
		s.genuine(t, p, o)
		have[d] = true
	}
	for _, d := range asked {
		if sure[d] != nil && !have[d] {
			t.Fatalf("the offer %s for piece %s was paid for and is held, but not delivered", d, p.ToString())
		}
	}
}

// basket generates digests to ask for: held for the piece, held for others, unknown, malformed.
func basket(rt *rapid.T, s *shelf, p *cid.ContentID) (ds []string, held int) {
	seen := map[string]bool{}
	add := func(d string) {
		if !seen[d] {
			seen[d] = true
			ds = append(ds, d)
		}
	}
	var own, others []string
	for piece, m := range s.byPiece {
		for d := range m {
			if piece == p.ToString() {
				own = append(own, d)
			} else {
				others = append(others, d)
			}
		}
	}
	own, others = sorted(own), sorted(others)
	for _, d := range own {
		if rapid.IntRange(0, 2).Draw(rt, "take") > 0 {
			add(d)
			held++
		}
	}
	for i := rapid.IntRange(0, 3).Draw(rt, "strays"); i > 0; i-- {
		switch rapid.IntRange(0, 3).Draw(rt, "stray") {
		case 0:
			if len(others) > 0 {
				add(others[rapid.IntRange(0, len(others)-1).Draw(rt, "other")])
			}
		case 1:
			add(base64.StdEncoding.EncodeToString(unique(1)))
		case 2:
			d := rapid.SampledFrom([]string{"AAAA", "%%%", "é", strings.Repeat("A", 100)}).Draw(rt, "malformed")
			add(d)
		case 3:
			add(base64.StdEncoding.EncodeToString(make([]byte, 32)))
		}
	}
	if rapid.SampledFrom([]bool{false, false, false, false, false, false, false, false, false, true}).Draw(rt, "many") {
		for i := rapid.IntRange(200, 300).Draw(rt, "many strays"); i > 0; i-- {
			add(base64.StdEncoding.EncodeToString(unique(3)))
		}
	}
	if len(ds) == 0 {
		add(base64.StdEncoding.EncodeToString(unique(2)))
	}
	if len(ds) > 1 {
		ds = rapid.Permutation(ds).Draw(rt, "order")
	}
	return ds, held
}

func TestG03_Purchase(t *testing.T) {
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		w := gateway(rt)
		s := newShelf()
		ps := pieces(rt, 1, 3)
		w.stock(rt, c, s, ps, 6, true)
		var plan []func(t vtnode.T)
		bought, unpaid := 0, 0
		for i := rapid.IntRange(1, 7).Draw(rt, "requests"); i > 0; i-- {
			p := ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "piece")]
			ds, held := basket(rt, s, p)
			nonce := vt.Int64().Draw(rt, "nonce")
			from := time.Now().Unix()
			pay := w.pay(rt, w.offers(len(ds)), "payment")
			c.Class("payment: " + pay.kind)
			c.Addf("%d/%d %s", held, len(ds), pay.kind)
			if pay.enough && held > 0 {
				bought++
			} else {
				unpaid++
			}
			check := func(t vtnode.T, rp *cid.ContentID, rn int64, found bool, subs []cidoffer.SubCIDOffer, funded []bool, required bool, ch string, err error) {
				if err != nil {
					t.Fatalf("response: %v", err)
				}
				if rp.ToString() != p.ToString() || rn != nonce {
					t.Fatalf("asked for %s (%d), the response is for %s (%d)", p.ToString(), nonce, rp.ToString(), rn)
				}
				if required != !pay.enough {
					t.Fatalf("payment required: %v, after a payment of kind %q for %d offers at %d", required, pay.kind, len(ds), w.Config.OfferPrice)
				}
				if required {
					if len(subs) != 0 || found {
						t.Fatalf("%d offers given (found %v) for a payment of kind %q", len(subs), found, pay.kind)
					}
					if ch != pay.ch {
						t.Fatalf("payment is demanded through channel %q instead of %q", ch, pay.ch)
					}
					return
				}
				s.checkBought(t, p, from, ds, subs, funded, found)
			}
			if rapid.Bool().Draw(rt, "peer") {
				c.Class("from a peer gateway")
				m, err := fcrmessages.EncodeGatewayDHTDiscoverOfferRequest(p, nonce, ds, pay.ch, pay.voucher)
				if err == nil {
					err = m.Sign(vt.Key(7), vt.Ver(1))
				}
				if err != nil {
					rt.Fatalf("request: %v", err)
				}
				plan = append(plan, func(t vtnode.T) {
					r := w.Ask(t, w.Peer, m)
					if vtnode.IsInvalid(r) {
						if pay.ok {
							t.Fatalf("a purchase with a payment of kind %q is refused", pay.kind)
						}
						return
					}
					w.Mine(t, r)
					rp, rn, found, subs, funded, required, ch, err := fcrmessages.DecodeGatewayDHTDiscoverOfferResponse(r)
					check(t, rp, rn, found, subs, funded, required, ch, err)
				})
				continue
			}
			c.Class("from a client")
			m, err := fcrmessages.EncodeClientStandardDiscoverOfferRequest(p, nonce, ttl(), ds, pay.ch, pay.voucher)
			plan = append(plan, func(t vtnode.T) {
				r := w.Signed(t, w.Client, m, err)
				rp, rn, found, subs, funded, required, ch, err := fcrmessages.DecodeClientStandardDiscoverOfferResponse(r)
				check(t, rp, rn, found, subs, funded, required, ch, err)
			})
		}
		run(rt, c, w.Node, plan)
		if bought > 0 {
			c.NonTrivial("bought")
		} else if unpaid > 0 {
			c.NonTrivial("unpaid")
		}
	})
}
