package client

import (
	"fmt"
	"testing"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

// flaws of the evidence that are not of an envelope.
var evidenceFlaws = []string{"nothing found", "other piece", "other gateway", "signed by the gateway", // of the answer
	"publication signed by the gateway", "publication of another provider", "publication of other pieces", "publication of nothing", "publication of a neighbour", "no publication", "publication is no message", // of the publication
	"acknowledgement signed by the provider", "acknowledgement of another gateway", "acknowledgement of another publication", "acknowledgement of the same pieces before", "acknowledged by another gateway", "acknowledged by the provider",
	"acknowledgement altered inside", "acknowledgement cut inside", "acknowledgement empty inside", "acknowledgement of the signature", "no acknowledgement", "acknowledgement is no message", "swapped", "acknowledgement twice", "publication twice"}

func drawFlaw(rt *rapid.T) string {
	switch rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 4}).Draw(rt, "flaw of") {
	case 0:
		return ""
	case 1:
		return "answer " + rapid.SampledFrom(append(append([]string{}, sealings...), transports...)).Draw(rt, "flaw")
	case 2:
		return "publication " + rapid.SampledFrom(sealings).Draw(rt, "flaw")
	case 3:
		return "acknowledgement " + rapid.SampledFrom(sealings).Draw(rt, "flaw")
	}
	return rapid.SampledFrom(evidenceFlaws).Draw(rt, "flaw")
}

func TestC03_Evidence(t *testing.T) {
	vt.Check(t, 1200, func(rt *rapid.T, c *vt.Case) {
		initGlobals()
		x, y := vt.CID(vt.ID32().Draw(rt, "piece")), vt.CID(vt.ID32().Draw(rt, "another piece"))
		if x.ToString() == y.ToString() {
			vt.Skip("same piece")
		}
		ps, gs := parties(rt, "providers", 2, 200), parties(rt, "gateways", 2, 300)
		p, p2, g, g2 := ps[0], ps[1], gs[0], gs[1]
		if rapid.IntRange(0, 7).Draw(rt, "provider not registered") == 7 {
			p.reg = rapid.SampledFrom(append([]string{"unregistered"}, providerFaults...)).Draw(rt, "wrong with the provider")
		}
		if rapid.IntRange(0, 7).Draw(rt, "gateway not registered") == 7 {
			g.reg = rapid.SampledFrom(append([]string{"unregistered"}, gatewayFaults...)).Draw(rt, "wrong with the gateway")
		}
		flaws := map[string]bool{drawFlaw(rt): true}
		if rapid.IntRange(0, 9).Draw(rt, "two flaws") == 9 {
			flaws[drawFlaw(rt)] = true
		}
		delete(flaws, "")
		sp, sp2, sp3 := drawSpoil(rt), drawSpoil(rt), drawSpoil(rt)
		has := func(s string) bool { return flaws[s] }
		sub := func(pre string) string {
			for f := range flaws {
				for _, s := range append(append([]string{}, sealings...), transports...) {
					if f == pre+s {
						return s
					}
				}
			}
			return ""
		}
		c.Addf("provider %s, gateway %s, %v", p.reg, g.reg, flaws)
		// the publication
		n := rapid.SampledFrom([]int{1, 2, 3, 5, 8}).Draw(rt, "offers")
		at := rapid.IntRange(0, n-1).Draw(rt, "position")
		var offers, others []cidoffer.CIDOffer
		for i := 0; i < n; i++ {
			b := rapid.SliceOfN(rapid.Byte(), 32, 32).Draw(rt, "piece")
			z := vt.CID(b)
			if z.ToString() == x.ToString() {
				z = y
			}
			price, expiry := vt.Uint64().Draw(rt, "price"), vt.FarExpiry().Draw(rt, "expiry")
			others = append(others, *vt.Offer(p.key, p.ver, p.id, []cid.ContentID{*z}, price, expiry, uint64(i)))
			if i == at {
				z = x
			}
			offers = append(offers, *vt.Offer(p.key, p.ver, p.id, []cid.ContentID{*z}, price, expiry, uint64(i)))
		}
		nonce := rapid.Int64().Draw(rt, "nonce")
		publisher, of := p, offers
		switch {
		case has("publication of another provider"):
			publisher = p2
		case has("publication signed by the gateway"):
			publisher = g
		}
		switch {
		case has("publication of other pieces"):
			of = others
		case has("publication of nothing"):
			of = []cidoffer.CIDOffer{}
		case has("publication of a neighbour"): // one bit away
			raw := append([]byte{}, vtBytes(x)...)
			raw[sp.at%32] ^= 1 << (sp.by % 8)
			of = []cidoffer.CIDOffer{*vt.Offer(p.key, p.ver, p.id, []cid.ContentID{*vt.CID(raw)}, 1, 1<<40, 1)}
		}
		body1 := enc(fcrmessages.EncodeProviderPublishDHTOfferRequest(publisher.id, nonce, of)).GetMessageBody()
		publication := seal(sub("publication "), sp2, publisher, fcrmessages.ProviderPublishDHTOfferRequestType, body1)
		body1 = publication.GetMessageBody()
		// the acknowledgement
		signed, by := body1, g
		switch {
		case has("acknowledgement of another publication"):
			signed = enc(fcrmessages.EncodeProviderPublishDHTOfferRequest(p.id, nonce, append(append([]cidoffer.CIDOffer{}, others...), offers[0]))).GetMessageBody()
		case has("acknowledgement of the same pieces before"):
			signed = enc(fcrmessages.EncodeProviderPublishDHTOfferRequest(publisher.id, nonce^int64(sp.by), of)).GetMessageBody()
		case has("acknowledgement of the signature"):
			signed = []byte(publication.GetSignature())
		}
		switch {
		case has("acknowledged by another gateway"):
			by = g2
		case has("acknowledged by the provider"):
			by = p
		}
		sig, err := fcrcrypto.SignMessage(by.key, by.ver, signed)
		if err != nil {
			panic(err)
		}
		switch {
		case has("acknowledgement altered inside"):
			sig = sig[:8] + flip(sig[8:136], sp.at) + sig[136:]
		case has("acknowledgement cut inside"):
			sig = sig[:sp.at%136]
		case has("acknowledgement empty inside"):
			sig = ""
		}
		acker := g
		switch {
		case has("acknowledgement signed by the provider"):
			acker = p
		case has("acknowledgement of another gateway"):
			acker = g2
		}
		ack := seal(sub("acknowledgement "), sp3, acker, fcrmessages.ProviderPublishDHTOfferResponseType, enc(fcrmessages.EncodeProviderPublishDHTOfferResponse(nonce, sig)).GetMessageBody())
		// the answer
		cp, ga := x, g.id
		if has("other piece") {
			cp = y
		}
		if has("other gateway") {
			ga = g2.id
		}
		if has("acknowledgement twice") {
			publication = ack
		}
		if has("publication twice") {
			ack = publication
		}
		if has("swapped") {
			publication, ack = ack, publication
		}
		m := body{"piece_cid": cp.ToString(), "gateway_id": ga.ToString(), "found": !has("nothing found"), "publish_dht_offer_request": publication, "publish_dht_offer_response": ack}
		bad := []interface{}{nil, body{}, 5, "x", []int{}, body{"message_type": 1}, body{"message_body": nil}}[sp.at%7]
		switch {
		case has("no publication"):
			delete(m, "publish_dht_offer_request")
		case has("publication is no message"):
			m["publish_dht_offer_request"] = bad
		case has("no acknowledgement"):
			delete(m, "publish_dht_offer_response")
		case has("acknowledgement is no message"):
			m["publish_dht_offer_response"] = bad
		}
		answerer := p
		if has("signed by the gateway") {
			answerer = g
		}
		var rl []register.ProviderRegister
		if p.reg != "unregistered" {
			rl = append(rl, providerEntry(rt, p, clientDesk.addr()))
		}
		clientReg.SetProviders(append(rl, providerEntry(rt, p2, "127.0.0.1:1"))...)
		var gl []register.GatewayRegister
		if g.reg != "unregistered" {
			gl = append(gl, gatewayEntry(rt, g, gWallet, "127.0.0.1:1"))
		}
		clientReg.SetGateways(append(gl, gatewayEntry(rt, g2, gWallet, "127.0.0.1:1"))...)
		f := sub("answer ")
		clientDesk.script(func(q *fcrmessages.FCRMessage) (int, []byte) {
			return deliver(f, sp, seal(f, sp, answerer, fcrmessages.ClientDHTOfferAckResponseType, js(m)))
		})
		api := ackClient()
		var ok bool
		guarded(rt, "asking for an acknowledgement", func() { ok, err = api.FindDHTOfferAck(x, g.id, p.id) })
		genuine := len(flaws) == 0 && p.known() && g.known()
		if ok != genuine {
			rt.Fatalf("convinced: %v (%v) by evidence with flaws %v, provider %s, gateway %s", ok, err, flaws, p.reg, g.reg)
		}
		if ok && err != nil {
			rt.Fatalf("convinced with an error: %v", err)
		}
		asked := clientDesk.requests()
		if p.known() {
			if len(asked) == 0 {
				rt.Fatalf("the provider is not asked")
			}
			xx, gg, err := fcrmessages.DecodeClientDHTOfferAckRequest(asked[0])
			if err != nil || xx.ToString() != x.ToString() || gg.ToString() != g.id.ToString() {
				rt.Fatalf("bad request: %v", err)
			}
		}
		for f := range flaws {
			c.Class(f)
		}
		if p.reg != "registered" {
			c.Class("provider: " + p.reg)
		}
		if g.reg != "registered" {
			c.Class("gateway: " + g.reg)
		}
		if genuine {
			c.NonTrivial("genuine")
		} else {
			c.NonTrivial("not genuine")
		}
	})
}

func vtBytes(x *cid.ContentID) []byte {
	b := make([]byte, 32)
	fmt.Sscanf(x.ToString(), "%64x", &b)
	return b
}

// ackClient is a client with a view of the register as it is now.
func ackClient() *fcrclient.FilecoinRetrievalClient {
	return newClient(newManager(clientReg), aWallet, nil, nil, 100)
}
