package nodes

import (
	"sync/atomic"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

// sound wants evidence to stand on its own: the provider's publication of the piece, and the gateway's signature over it.
func (w *provWorld) sound(rt *rapid.T, p *cid.ContentID, g *pubGW) bool {
	found, msg, ack := w.evidence(rt, p, g.ID)
	if !found {
		return false
	}
	if err := msg.Verify(vt.Pub(w.Key)); err != nil {
		rt.Fatalf("the publication in the evidence is not signed by the provider: %v", err)
	}
	_, _, os, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(msg)
	if err != nil {
		rt.Fatalf("the publication in the evidence: %v", err)
	}
	in := false
	for i := range os {
		in = in || os[i].GetCIDs()[0].ToString() == p.ToString()
	}
	if !in {
		rt.Fatalf("the publication in the evidence for piece %s is of other pieces", p.ToString())
	}
	if err := ack.Verify(vt.Pub(g.Key)); err != nil {
		rt.Fatalf("the acknowledgement in the evidence is not signed by the gateway: %v", err)
	}
	_, sig, err := fcrmessages.DecodeProviderPublishDHTOfferResponse(ack)
	if err != nil {
		rt.Fatalf("the acknowledgement in the evidence: %v", err)
	}
	if ok, err := fcrcrypto.VerifyMessage(vt.Pub(g.Key), sig, msg.GetMessageBody()); err != nil || !ok {
		rt.Fatalf("the acknowledgement in the evidence is of another publication: %v", err)
	}
	return true
}

func TestV03_Evidence(t *testing.T) {
	vt.Check(t, 40, func(rt *rapid.T, c *vt.Case) {
		w := provider(rt)
		w.grow(rt, 5)
		var ps []*cid.ContentID
		for i := rapid.IntRange(1, 4).Draw(rt, "pieces"); i > 0; i-- {
			ps = append(ps, vt.CID(freshID(rt, "piece")))
		}
		yes, no := 0, 0
		ask := func() {
			for _, p := range ps {
				for _, g := range w.gws {
					w.recorded(rt, p, g)
				}
			}
			g := w.gws[rapid.IntRange(0, len(w.gws)-1).Draw(rt, "whose")]
			if w.sound(rt, ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "which")], g) {
				yes++
			} else {
				no++
			}
		}
		gen := func() *order {
			o := &order{}
			for i := rapid.IntRange(1, 3).Draw(rt, "offers"); i > 0; i-- {
				o.cids = append(o.cids, *ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "offered")])
				e, _ := expiry(rt, false)
				o.expiry = append(o.expiry, e)
				o.price = append(o.price, vt.Uint64().Draw(rt, "price"))
				o.qos = append(o.qos, uint64(len(o.qos)))
			}
			w.behave(rt, o)
			return o
		}
		for s := rapid.IntRange(1, 5).Draw(rt, "steps"); s > 0; s-- {
			atomic.AddInt64(&w.batch, 1)
			switch rapid.IntRange(0, 5).Draw(rt, "step") {
			case 0, 1, 2:
				o := gen()
				w.place(rt, o)
				c.Addf("pub%d", len(o.cids))
				ask()
			case 3: // publications and questions at the same time
				n := rapid.IntRange(1, 3).Draw(rt, "publications")
				var fs []func()
				for i := 0; i < n; i++ {
					o := gen()
					fs = append(fs, func() { w.place(pt{}, o) })
				}
				for i := 0; i < 3; i++ {
					g := w.gws[rapid.IntRange(0, len(w.gws)-1).Draw(rt, "whose")]
					p := ps[rapid.IntRange(0, len(ps)-1).Draw(rt, "which")]
					fs = append(fs, func() {
						for j := 0; j < 5; j++ {
							w.evidence(pt{}, p, g.ID)
						}
					})
				}
				if f := vt.Parallel("publications and questions", fs...); len(f) > 0 {
					rt.Fatalf("%s", f[0])
				}
				c.Addf("par%d", n)
				c.Class("concurrent")
				ask()
			case 4: // strangers
				if f, _, _ := w.evidence(rt, ps[0], vt.Node(unique())); f {
					rt.Fatalf("a gateway nobody knows is said to have acknowledged a piece")
				}
				if f, _, _ := w.evidence(rt, vt.CID(unique()), w.gws[0].ID); f {
					rt.Fatalf("a gateway is said to have acknowledged a piece never published")
				}
				c.Class("stranger")
			default:
				m, err := fcrmessages.EncodeClientDHTOfferAckRequest(ps[0], w.gws[0].ID)
				if err != nil {
					rt.Fatalf("%v", err)
				}
				b := m.GetMessageBody()
				m = fcrmessages.CreateFCRMessage(m.GetMessageType(), b[:len(b)-rapid.IntRange(1, len(b)).Draw(rt, "cut")])
				if r, st := w.Post(rt, w.Client, m); r != nil && st == 200 {
					rt.Fatalf("a malformed question is answered with type %d", r.GetMessageType())
				}
			}
		}
		w.Alive(rt)
		c.Addf("%d/%d", yes, no)
		if yes > 0 {
			c.NonTrivial("evidence given")
		}
	})
}
