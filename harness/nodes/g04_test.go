package nodes

import (
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"pgregory.net/rapid"
)

var pubFlaws = []string{"none", "none", "none", "none", "another key", "unsigned", "altered", "unknown provider", "offer by another", "another's offer", "a stranger's offer", "offer unsigned", "offer altered", "offer of another message", "malformed"}

// flawed makes a publication message with a flaw ("none": an authentic one).
func flawed(rt *rapid.T, w *gwWorld, flaw string, p *prov, group bool, nonce int64, offers []cidoffer.CIDOffer) *fcrmessages.FCRMessage {
	at := rapid.IntRange(0, len(offers)-1).Draw(rt, "flawed offer")
	other := w.provs[0]
	if other == p {
		other = w.provs[1]
	}
	os := append([]cidoffer.CIDOffer{}, offers...)
	o := &os[at]
	remake := func(price uint64) *cidoffer.CIDOffer {
		n, err := cidoffer.NewCIDOffer(o.GetProviderID(), o.GetCIDs(), price, o.GetExpiry(), o.GetQoS())
		if err != nil {
			panic(err)
		}
		return n
	}
	switch flaw {
	case "another key":
		return pubMessage(p, other.key, group, nonce, os)
	case "unsigned":
		m := pubMessage(p, p.key, group, nonce, os)
		return fcrmessages.CreateFCRMessage(m.GetMessageType(), m.GetMessageBody())
	case "altered":
		m := pubMessage(p, p.key, group, nonce, os)
		m2 := pubMessage(p, p.key, group, nonce+1, os)
		return withSignature(m2, m)
	case "unknown provider":
		return pubMessage(&prov{vt.Node(unique()), p.key, p.ver}, p.key, group, nonce, os)
	case "offer by another":
		n := remake(o.GetPrice())
		if err := n.Sign(other.key, other.ver); err != nil {
			panic(err)
		}
		*o = *n
	case "another's offer": // one that is genuine, but not this provider's
		cs := o.GetCIDs()
		*o = *vt.Offer(other.key, other.ver, other.id, append([]cid.ContentID{}, cs...), o.GetPrice(), o.GetExpiry(), o.GetQoS())
	case "a stranger's offer":
		cs := o.GetCIDs()
		*o = *vt.Offer(vt.Key(377), p.ver, vt.Node(unique()), append([]cid.ContentID{}, cs...), o.GetPrice(), o.GetExpiry(), o.GetQoS())
	case "offer unsigned":
		*o = *remake(o.GetPrice())
	case "offer altered":
		n := remake(o.GetPrice() ^ 1)
		n.SetSignature(o.GetSignature())
		*o = *n
	case "offer of another message":
		// the message's signature is offered as the offer's
		m := pubMessage(p, p.key, group, nonce, os)
		n := remake(o.GetPrice())
		n.SetSignature(m.GetSignature())
		*o = *n
	case "malformed":
		m := pubMessage(p, p.key, group, nonce, os)
		b := m.GetMessageBody()
		m = fcrmessages.CreateFCRMessage(m.GetMessageType(), b[:len(b)-rapid.IntRange(1, len(b)).Draw(rt, "cut")])
		if err := m.Sign(p.key, p.ver); err != nil {
			panic(err)
		}
		return m
	}
	return pubMessage(p, p.key, group, nonce, os)
}

// withSignature is message m carrying the signature of another.
func withSignature(m, from *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	return vtnode.WithSignature(m, from.GetSignature())
}

// acked checks an acknowledgement.
func (w *gwWorld) acked(t vtnode.T, r *fcrmessages.FCRMessage, group bool, nonce int64, req *fcrmessages.FCRMessage, offers []cidoffer.CIDOffer) {
	w.Mine(t, r)
	if group {
		id, d, err := fcrmessages.DecodeProviderPublishGroupOfferResponse(r)
		if err != nil {
			t.Fatalf("acknowledgement: %v", err)
		}
		if id.ToString() != w.ID.ToString() || d != digest(&offers[0]) {
			t.Fatalf("the group offer %s is acknowledged as %s by %s", digest(&offers[0]), d, id.ToString())
		}
		return
	}
	w.binds(t, r, nonce, req)
}

// binds checks that an acknowledgement binds the publication.
func (w *gwWorld) binds(t vtnode.T, r *fcrmessages.FCRMessage, nonce int64, req *fcrmessages.FCRMessage) {
	n, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(r)
	if err != nil {
		t.Fatalf("acknowledgement: %v", err)
	}
	if n != nonce {
		t.Fatalf("publication %d is acknowledged as %d", nonce, n)
	}
	if ok, err := fcrcrypto.VerifyMessage(vt.Pub(w.Key), sig, req.GetMessageBody()); err != nil || !ok {
		t.Fatalf("the acknowledgement's signature is not over the publication: %v", err)
	}
}

// held checks that the gateway holds exactly the shelf's offers for the pieces.
func (w *gwWorld) held(t vtnode.T, s *shelf, ps []*cid.ContentID) {
	for _, p := range ps {
		from := time.Now().Unix()
		m, err := fcrmessages.EncodeClientStandardDiscoverRequest(p, 5, ttl(), "", "")
		r := w.Signed(t, w.Client, m, err)
		_, _, found, subs, funded, err := fcrmessages.DecodeClientStandardDiscoverResponse(r)
		if err != nil {
			t.Fatalf("discovery response: %v", err)
		}
		s.checkSubs(t, p, from, subs, funded, found)
	}
}

// every piece of the offers
func piecesOf(offers []cidoffer.CIDOffer) (r []*cid.ContentID) {
	for i := range offers {
		cs := offers[i].GetCIDs()
		for j := range cs {
			r = append(r, &cs[j])
		}
	}
	return
}

func TestG04_Publications(t *testing.T) {
	vt.Check(t, 70, func(rt *rapid.T, c *vt.Case) {
		w := gateway(rt)
		s := newShelf()
		ps := pieces(rt, 1, 4)
		all := append([]*cid.ContentID{}, ps...)
		var plan []func(t vtnode.T)
		good, bad := 0, 0
		shared := rapid.Bool().Draw(rt, "one connection")
		var conn *vtnode.Conn
		for i := rapid.IntRange(1, 6).Draw(rt, "publications"); i > 0; i-- {
			p := w.provs[rapid.IntRange(0, len(w.provs)-1).Draw(rt, "provider")]
			group, offers := publication(rt, p, ps, true)
			nonce := vt.Int64().Draw(rt, "nonce")
			flaw := rapid.SampledFrom(pubFlaws).Draw(rt, "flaw")
			m := flawed(rt, w, flaw, p, group, nonce, offers)
			c.Class(flaw)
			c.Addf("%s %v %d", flaw, group, len(offers))
			all = append(all, piecesOf(offers)...)
			if flaw == "none" {
				good++
				for i := range offers {
					s.add(&offers[i], p.key)
				}
			} else {
				bad++
			}
			plan = append(plan, func(t vtnode.T) {
				var r *fcrmessages.FCRMessage
				if shared {
					if conn == nil {
						conn = w.Dial(t, w.Prov)
					}
					conn.Send(t, m)
					if r = conn.Read(t); r == nil {
						conn.Close()
						conn = nil
					}
				} else {
					r = w.Ask(t, w.Prov, m)
				}
				if flaw == "none" {
					if vtnode.IsInvalid(r) {
						t.Fatalf("an authentic publication (group: %v, %d offers) is refused", group, len(offers))
					}
					w.acked(t, r, group, nonce, m, offers)
				} else if !vtnode.IsInvalid(r) {
					t.Fatalf("a publication with the flaw %q (group: %v, %d offers) is acknowledged", flaw, group, len(offers))
				}
			})
		}
		if shared {
			for _, f := range plan {
				f(rt)
			}
			if conn != nil {
				conn.Close()
			}
			w.Alive(rt)
		} else {
			run(rt, c, w.Node, plan)
		}
		w.held(rt, s, all)
		if good > 0 && bad > 0 {
			c.NonTrivial("stored and refused")
		} else {
			c.NonTrivial("stored or refused")
		}
	})
}

// A provider's publications are judged by the key it is registered with now.
func TestG04_KeyChange(t *testing.T) {
	vt.Check(t, 12, func(rt *rapid.T, c *vt.Case) {
		w := gateway(rt)
		s := newShelf()
		ps := pieces(rt, 1, 2)
		p := &prov{vt.Node(freshID(rt, "provider")), vt.Key(300), vt.Ver(1)}
		old := w.provs
		defer func() { w.provs = old; w.register(); w.Refresh(rt) }()
		known := false
		all := ps
		for i := rapid.IntRange(2, 5).Draw(rt, "steps"); i > 0; i-- {
			if rapid.IntRange(0, 1).Draw(rt, "registration") == 0 {
				p = &prov{p.id, vt.Key(300 + rapid.IntRange(0, 3).Draw(rt, "key")), p.ver}
				w.provs = append(append([]*prov{}, old...), p)
				known = true
				c.Class("registered")
			}
			w.register()
			w.Refresh(rt)
			for k := 0; k < 4; k++ {
				q := &prov{p.id, vt.Key(300 + k), p.ver}
				group, offers := publication(rt, q, ps, false)
				all = append(all, piecesOf(offers)...)
				m := pubMessage(q, q.key, group, 3, offers)
				r := w.Ask(rt, w.Prov, m)
				ok := known && vt.PubHex(q.key) == vt.PubHex(p.key)
				c.Addf("%v", ok)
				if ok == vtnode.IsInvalid(r) {
					rt.Fatalf("publication signed with key %d refused: %v, want %v", k, vtnode.IsInvalid(r), !ok)
				}
				if ok {
					w.acked(rt, r, group, 3, m, offers)
					for i := range offers {
						s.add(&offers[i], q.key)
					}
				}
			}
		}
		// the key that offers were signed with may have been replaced since: compare what is listed only
		for _, x := range all {
			from := time.Now().Unix()
			m, err := fcrmessages.EncodeClientStandardDiscoverRequest(x, 5, ttl(), "", "")
			_, _, found, subs, _, err := fcrmessages.DecodeClientStandardDiscoverResponse(w.Signed(rt, w.Client, m, err))
			if err != nil {
				rt.Fatalf("discovery response: %v", err)
			}
			var ds []string
			_, may := s.live(x, from, from)
			for i := range subs {
				for d, o := range may {
					if offerTerms(o, x) == subTerms(&subs[i]) {
						ds = append(ds, d)
					}
				}
			}
			if len(ds) != len(subs) {
				rt.Fatalf("%d offers listed for %s, %d of them held", len(subs), x.ToString(), len(ds))
			}
			s.checkDigests(rt, x, from, ds, found)
		}
		c.NonTrivial("key changes")
	})
}

// Publications that the gateway fetches from a provider when it joins.
func TestG04_Listing(t *testing.T) {
	vt.Check(t, 25, func(rt *rapid.T, c *vt.Case) {
		w := gateway(rt)
		s := newShelf()
		ps := pieces(rt, 1, 4)
		all := append([]*cid.ContentID{}, ps...)
		p := &prov{vt.Node(freshID(rt, "provider")), vt.Key(310), vt.Ver(1)}
		f := vtnode.NewFake(p.id, p.key, nil, nil)
		defer f.Close()
		type sub struct {
			m    *fcrmessages.FCRMessage
			n    int64
			good bool
		}
		var subs []sub
		var msgs []fcrmessages.FCRMessage
		var good []sub
		for i := rapid.IntRange(0, 4).Draw(rt, "publications"); i > 0; i-- {
			var offers []cidoffer.CIDOffer
			for j := rapid.IntRange(1, 3).Draw(rt, "offers"); j > 0; j-- {
				e, _ := expiry(rt, false)
				x := ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "piece")]
				offers = append(offers, *vt.Offer(p.key, p.ver, p.id, []cid.ContentID{*x}, vt.Uint64().Draw(rt, "price"), e, vt.Uint64().Draw(rt, "qos")))
			}
			n := vt.Int64().Draw(rt, "nonce")
			flaw := rapid.SampledFrom([]string{"none", "none", "none", "another key", "unsigned", "altered", "offer by another", "another's offer", "a stranger's offer", "offer unsigned", "offer altered", "malformed"}).Draw(rt, "flaw")
			m := flawed(rt, w, flaw, p, false, n, offers)
			c.Class(flaw)
			c.Addf("%s %d", flaw, len(offers))
			sb := sub{m, n, flaw == "none"}
			subs = append(subs, sb)
			msgs = append(msgs, *m)
			if sb.good {
				good = append(good, sb)
				for j := range offers {
					s.add(&offers[j], p.key)
				}
			}
		}
		forged := rapid.SampledFrom([]string{"", "", "", "", "key", "unsigned", "noise", "close", "type"}).Draw(rt, "response")
		c.Addf("response:%s", forged)
		c.Class("response: " + forged)
		f.On(func(m *fcrmessages.FCRMessage) vtnode.Reply {
			if m.GetMessageType() != fcrmessages.GatewayListDHTOfferRequestType {
				return vtnode.Reply{}
			}
			r, err := fcrmessages.EncodeGatewayListDHTOfferResponse(msgs)
			r = f.Sign(r, err)
			switch forged {
			case "key":
				if err := r.Sign(vt.Key(311), vt.Ver(1)); err != nil {
					panic(err)
				}
			case "unsigned":
				r = fcrmessages.CreateFCRMessage(r.GetMessageType(), r.GetMessageBody())
			case "noise":
				return vtnode.Reply{Raw: []byte{0, 0, 0, 3, 'a', 'b', 'c'}}
			case "close":
				return vtnode.Reply{Close: true}
			case "type":
				r = f.Sign(fcrmessages.CreateFCRMessage(fcrmessages.GatewayListDHTOfferRequestType, r.GetMessageBody()), nil)
			}
			return vtnode.Reply{Msg: r}
		})
		others := []register.GatewayRegister{}
		for i := 0; i < 3; i++ {
			g := vtnode.Node{Kind: "gateway", ID: vt.Node(unique(byte(i * 80))), Key: vt.Key(1), Peer: "1", Prov: "1", Client: "1", Admin: "1"}
			others = append(others, g.Gateway())
		}
		w.register(others...)
		w.reg.SetProviders(f.Provider())
		w.Refresh(rt)
		defer func() { // the gateway never forgets a provider: keep it away from ports that others get
			gone := f.Provider()
			gone.NetworkInfoGateway = "127.0.0.1:1"
			w.reg.SetProviders(gone)
			w.Refresh(rt)
			w.register()
			w.Refresh(rt)
		}()
		m, err := fcrmessages.EncodeGatewayAdminListDHTOfferRequest(true)
		r := w.Signed(rt, w.Admin, m, err)
		if ok, err := fcrmessages.DecodeGatewayAdminListDHTOfferResponse(r); err != nil || !ok {
			rt.Fatalf("listing is not started: %v %v", ok, err)
		}
		deadline := time.Now().Add(vt.Hang)
		var acks []*fcrmessages.FCRMessage
		asked := false
		for time.Now().Before(deadline) {
			acks = nil
			for _, q := range f.Requests() {
				switch q.GetMessageType() {
				case fcrmessages.GatewayListDHTOfferRequestType:
					asked = true
					w.Mine(rt, q)
				case fcrmessages.GatewayListDHTOfferAckType:
					acks = append(acks, q)
				default:
					rt.Fatalf("the provider gets a message of type %d", q.GetMessageType())
				}
			}
			if len(acks) > 0 || asked && f.Drops() > 0 {
				break
			}
			w.Alive(rt)
			time.Sleep(3 * time.Millisecond)
		}
		if !asked {
			rt.Fatalf("the provider is never asked for its offers")
		}
		if forged != "" {
			if len(acks) > 0 {
				rt.Fatalf("a list with the flaw %q is acknowledged", forged)
			}
			s = newShelf()
		} else {
			if len(acks) == 0 {
				rt.Fatalf("the list of %d publications is not acknowledged", len(subs))
			}
			w.Mine(rt, acks[0])
			got, err := fcrmessages.DecodeGatewayListDHTOfferAck(acks[0])
			if err != nil {
				rt.Fatalf("acknowledgements: %v", err)
			}
			if len(got) != len(good) {
				rt.Fatalf("%d acknowledgements for %d publications of which %d are good", len(got), len(subs), len(good))
			}
			for i := range got {
				w.Mine(rt, &got[i])
				w.binds(rt, &got[i], good[i].n, good[i].m)
			}
		}
		w.held(rt, s, all)
		if len(subs) > 0 {
			c.NonTrivial("listed")
		}
	})
}
