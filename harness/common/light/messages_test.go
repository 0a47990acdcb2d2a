package light

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"reflect"
	"strings"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

var _ = fcrcrypto.InitialKeyVersion

// envelope builds a message with chosen protocol versions (only the wire form can carry them).
func envelope(typ, ver int32, supported []int32, body []byte, sig string) *fcrmessages.FCRMessage {
	js, err := json.Marshal(map[string]interface{}{
		"message_type": typ, "protocol_version": ver, "protocol_supported": supported, "message_body": body, "message_signature": sig,
	})
	if err != nil {
		panic(err)
	}
	m, err := fcrmessages.FCRMsgFromBytes(js)
	if err != nil {
		panic(fmt.Sprintf("valid envelope %s refused: %v", js, err))
	}
	return m
}

func someBody() *rapid.Generator[[]byte] {
	return rapid.OneOf(rapid.SliceOfN(rapid.Byte(), 0, 200), rapid.SampledFrom([][]byte{{}, []byte("{}"), []byte("null"), bytes.Repeat([]byte("x"), 5000)}), rapid.Custom(large))
}

func sameEnvelope(rt *rapid.T, what string, a, b *fcrmessages.FCRMessage) {
	rt.Helper()
	if a.GetMessageType() != b.GetMessageType() || a.GetProtocolVersion() != b.GetProtocolVersion() ||
		fmt.Sprint(a.GetProtocolSupported()) != fmt.Sprint(b.GetProtocolSupported()) ||
		!bytes.Equal(a.GetMessageBody(), b.GetMessageBody()) || a.GetSignature() != b.GetSignature() {
		x, _ := a.FCRMsgToBytes()
		y, _ := b.FCRMsgToBytes()
		rt.Fatalf("%s: message changed: %s became %s", what, x, y)
	}
}

func TestM01_Envelope(t *testing.T) {
	vt.Check(t, 700, func(rt *rapid.T, c *vt.Case) {
		typ := rapid.Int32().Draw(rt, "type")
		pv := rapid.Int32().Draw(rt, "ver")
		sup := rapid.SliceOfN(rapid.Int32(), 0, 4).Draw(rt, "sup")
		body := someBody().Draw(rt, "body")
		ki := rapid.IntRange(0, 20).Draw(rt, "key")
		kv := rapid.Uint32().Draw(rt, "kver")
		key, pub := vt.Key(ki), vt.Pub(vt.Key(ki))
		m := envelope(typ, pv, sup, body, "")
		c.Addf("type=%d ver=%d sup=%v body=%s key=%d", typ, pv, sup, brief(body), ki)
		c.NonTrivial("signed envelope")
		if m.GetMessageType() != typ || m.GetProtocolVersion() != pv || !bytes.Equal(m.GetMessageBody(), body) || len(m.GetProtocolSupported()) != len(sup) {
			rt.Fatalf("decoded envelope differs")
		}
		for i := range sup {
			if m.GetProtocolSupported()[i] != sup[i] {
				rt.Fatalf("supported versions %v became %v", sup, m.GetProtocolSupported())
			}
		}
		if rapid.Bool().Draw(rt, "presigned") { // signing replaces an old signature
			if err := m.Sign(vt.Key(ki+1), vt.Ver(9)); err != nil {
				rt.Fatalf("sign: %v", err)
			}
		}
		if err := m.Sign(key, vt.Ver(kv)); err != nil {
			rt.Fatalf("sign: %v", err)
		}
		v, err := fcrcrypto.ExtractKeyVersionFromMessage(m.GetSignature())
		if err != nil || v.EncodeKeyVersion() != kv {
			rt.Fatalf("signature carries key version %v (%v), want %d", v, err, kv)
		}
		ref, err := m.FCRMsgToBytes()
		if err != nil {
			rt.Fatalf("encode: %v", err)
		}
		trips := rapid.IntRange(0, 3).Draw(rt, "trips")
		cur := m
		for i := 0; i < trips; i++ {
			b, err := cur.FCRMsgToBytes()
			if err != nil {
				rt.Fatalf("encode: %v", err)
			}
			d, err := fcrmessages.FCRMsgFromBytes(b)
			if err != nil {
				rt.Fatalf("decode: %v", err)
			}
			sameEnvelope(rt, "transport", cur, d)
			cur = d
		}
		// any sequence of verifications with right and wrong keys gives stable answers and changes nothing
		for i, n := 0, rapid.IntRange(1, 5).Draw(rt, "verifications"); i < n; i++ {
			if rapid.Bool().Draw(rt, "right") {
				if err := cur.Verify(pub); err != nil {
					rt.Fatalf("genuine message refused (verification %d): %v", i, err)
				}
			} else if err := cur.Verify(vt.Pub(vt.Key(ki + 1 + rapid.IntRange(0, 3).Draw(rt, "wrongkey")))); err == nil {
				rt.Fatalf("message verifies under another key")
			}
			b, _ := cur.FCRMsgToBytes()
			if !bytes.Equal(b, ref) {
				rt.Fatalf("verification changed the message from %s to %s", ref, b)
			}
		}
		// alterations
		typ2, pv2, sup2, body2, sig2 := typ, pv, append([]int32{}, sup...), append([]byte{}, body...), m.GetSignature()
		kind := rapid.IntRange(0, 5).Draw(rt, "alteration")
		switch kind {
		case 0:
			typ2 = rapid.Int32().Filter(func(x int32) bool { return x != typ }).Draw(rt, "type2")
		case 1:
			pv2 = rapid.Int32().Filter(func(x int32) bool { return x != pv }).Draw(rt, "ver2")
		case 2:
			if len(sup2) > 0 && rapid.Bool().Draw(rt, "edit") {
				sup2[rapid.IntRange(0, len(sup2)-1).Draw(rt, "suppos")] ^= 1
			} else {
				sup2 = append(sup2, 7)
			}
		case 3:
			body2 = mutate(rt, body2)
			if bytes.Equal(body, body2) {
				body2 = append(body2, 1)
			}
		case 4: // r, s
			s := []byte(sig2)
			p := rapid.IntRange(8, 8+127).Draw(rt, "sigpos")
			if s[p] == '0' {
				s[p] = '1'
			} else {
				s[p] = '0'
			}
			sig2 = string(s)
		case 5:
			sig2 = rapid.SampledFrom([]string{"", "00", "zz", sig2[:20], sig2[8:]}).Draw(rt, "sig2")
		}
		c.Class([]string{"type", "version", "supported", "body", "signature", "broken signature"}[kind])
		var verr error
		if p := vt.NoPanic(func() { verr = envelope(typ2, pv2, sup2, body2, sig2).Verify(pub) }); p != "" {
			rt.Fatalf("verify panics: %s", p)
		}
		if verr == nil {
			rt.Fatalf("altered message (alteration %d) verifies", kind)
		}
	})
}

func TestM01_CreatedMessages(t *testing.T) {
	vt.Check(t, 300, func(rt *rapid.T, c *vt.Case) {
		typ := rapid.Int32().Draw(rt, "type")
		body := someBody().Draw(rt, "body")
		c.Addf("type=%d body=%s", typ, brief(body))
		c.NonTrivial("created")
		m := fcrmessages.CreateFCRMessage(typ, body)
		v, s := fcrmessages.GetCurrentProtocolVersion()
		if m.GetMessageType() != typ || !bytes.Equal(m.GetMessageBody(), body) || m.GetSignature() != "" || m.GetProtocolVersion() != v || fmt.Sprint(m.GetProtocolSupported()) != fmt.Sprint(s) {
			rt.Fatalf("created message differs from its parts")
		}
		b, err := m.FCRMsgToBytes()
		if err != nil {
			rt.Fatalf("encode: %v", err)
		}
		d, err := fcrmessages.FCRMsgFromBytes(b)
		if err != nil {
			rt.Fatalf("decode: %v", err)
		}
		sameEnvelope(rt, "transport", m, d)
		if err := m.Verify(vt.Pub(vt.Key(0))); err == nil {
			rt.Fatalf("unsigned message verifies")
		}
	})
}

func buildMessage(rt *rapid.T, k vt.Codec) (*fcrmessages.FCRMessage, []reflect.Value) {
	return vt.BuildMessage(rt, k, nil)
}

func decode(k vt.Codec, m *fcrmessages.FCRMessage) ([]reflect.Value, error) {
	out := reflect.ValueOf(k.Decode).Call([]reflect.Value{reflect.ValueOf(m)})
	last := out[len(out)-1]
	if !last.IsNil() {
		return nil, last.Interface().(error)
	}
	return out[:len(out)-1], nil
}

func TestM02_RoundTrip(t *testing.T) {
	vt.Check(t, 4000, func(rt *rapid.T, c *vt.Case) {
		k := vt.Codecs[rapid.IntRange(0, len(vt.Codecs)-1).Draw(rt, "kind")]
		m, args := buildMessage(rt, k)
		want := make([]string, len(args))
		for i, a := range args {
			want[i] = vt.Canon(a)
		}
		c.Addf("%s %s", k.Name, strings.Join(want, " "))
		if len(args) > 0 {
			c.NonTrivial(k.Name)
		}
		if m.GetMessageType() != k.Type {
			rt.Fatalf("%s encodes as type %d, want %d", k.Name, m.GetMessageType(), k.Type)
		}
		if rapid.Bool().Draw(rt, "sign") {
			if err := m.Sign(vt.Key(1), vt.Ver(1)); err != nil {
				rt.Fatalf("sign: %v", err)
			}
		}
		for trip := 0; trip < 2; trip++ {
			got, err := decode(k, m)
			if err != nil {
				rt.Fatalf("%s does not decode: %v (body %s)", k.Name, err, m.GetMessageBody())
			}
			if len(got) != len(args) {
				rt.Fatalf("%s decodes into %d fields, was built from %d", k.Name, len(got), len(args))
			}
			for i := range got {
				if s := vt.Canon(got[i]); s != want[i] {
					rt.Fatalf("%s field %d: built from %s, decoded %s", k.Name, i, want[i], s)
				}
				if s := vt.Complete(got[i]); s != "" {
					rt.Fatalf("%s field %d: %s", k.Name, i, s)
				}
			}
			b, err := m.FCRMsgToBytes()
			if err != nil {
				rt.Fatalf("encode: %v", err)
			}
			if m, err = fcrmessages.FCRMsgFromBytes(b); err != nil {
				rt.Fatalf("decode: %v", err)
			}
		}
		// as any other kind it is refused
		j := rapid.IntRange(0, len(vt.Codecs)-1).Draw(rt, "other")
		for n := 0; n < len(vt.Codecs); n++ {
			o := vt.Codecs[(j+n)%len(vt.Codecs)]
			if o.Name == k.Name {
				continue
			}
			if _, err := decode(o, m); err == nil {
				if pingCollision(k.Name, o.Name) {
					vt.Finding("ping-number")
					continue
				}
				rt.Fatalf("a %s is accepted as a %s", k.Name, o.Name)
			}
		}
		// neither is one that carries any other number
		other := rapid.OneOf(rapid.Int32(), rapid.Int32Range(100, 120), rapid.Int32Range(200, 215), rapid.Int32Range(300, 303), rapid.Int32Range(400, 415), rapid.Int32Range(500, 512)).Draw(rt, "num")
		if other != k.Type {
			if _, err := decode(k, fcrmessages.CreateFCRMessage(other, m.GetMessageBody())); err == nil {
				rt.Fatalf("message number %d is accepted as a %s", other, k.Name)
			}
		}
	})
}

// pingCollision: the ping messages carry the same numbers as the group offer notifications (known finding).
func pingCollision(a, b string) bool {
	ping := func(s string) bool { return strings.HasPrefix(s, "GatewayPing") }
	notify := func(s string) bool { return strings.HasPrefix(s, "GatewayNotifyProviderGroupCIDOfferSupport") }
	return ping(a) && notify(b) || notify(a) && ping(b)
}

func TestM02_SinglePieceOnly(t *testing.T) {
	vt.Check(t, 400, func(rt *rapid.T, c *vt.Case) {
		n := rapid.IntRange(1, 6).Draw(rt, "offers")
		badPos := rapid.IntRange(0, n-1).Draw(rt, "pos")
		bad := rapid.IntRange(0, 3).Draw(rt, "mode")
		var offers []cidoffer.CIDOffer
		for i := 0; i < n; i++ {
			if i == badPos && bad > 0 {
				offers = append(offers, *vt.SomeOffer(2, 5).Draw(rt, "group"))
			} else {
				offers = append(offers, *vt.SomeOffer(1, 1).Draw(rt, "single"))
			}
		}
		c.Addf("n=%d pos=%d mode=%d", n, badPos, bad)
		c.NonTrivial(map[bool]string{true: "with a group offer", false: "all single"}[bad > 0])
		m, err := fcrmessages.EncodeProviderPublishDHTOfferRequest(vt.Node(vt.ID32().Draw(rt, "prov")), 1, offers)
		if err != nil {
			if bad > 0 {
				return
			}
			rt.Fatalf("encode: %v", err)
		}
		_, _, got, err := fcrmessages.DecodeProviderPublishDHTOfferRequest(m)
		if bad > 0 && err == nil {
			rt.Fatalf("single-piece publication accepted with an offer of %d pieces at position %d of %d", len(offers[badPos].GetCIDs()), badPos, n)
		}
		if bad == 0 && (err != nil || len(got) != n) {
			rt.Fatalf("single-piece publication refused: %v", err)
		}
	})
}

// ---- M03

func hostileJSON(rt *rapid.T, doc []byte) []byte { return vt.HostileJSON(rt, doc) }

func TestM03_TypedBodies(t *testing.T) {
	vt.Check(t, 6000, func(rt *rapid.T, c *vt.Case) {
		k := vt.Codecs[rapid.IntRange(0, len(vt.Codecs)-1).Draw(rt, "kind")]
		var body []byte
		switch rapid.IntRange(0, 9).Draw(rt, "how") {
		case 0:
			body = rapid.SliceOfN(rapid.Byte(), 0, 60).Draw(rt, "raw")
		case 1:
			body = rapid.SampledFrom([][]byte{nil, {}, []byte("{}"), []byte("null"), []byte("[]"), []byte("0"), []byte(`""`), []byte("{"), []byte("[{}]")}).Draw(rt, "doc")
		case 2:
			m, _ := buildMessage(rt, k)
			body = mutate(rt, m.GetMessageBody())
		case 3: // the body of another kind
			o := vt.Codecs[rapid.IntRange(0, len(vt.Codecs)-1).Draw(rt, "otherkind")]
			m, _ := buildMessage(rt, o)
			body = m.GetMessageBody()
		default:
			m, _ := buildMessage(rt, k)
			body = hostileJSON(rt, m.GetMessageBody())
		}
		c.Addf("%s %q", k.Name, body)
		m := fcrmessages.CreateFCRMessage(k.Type, body)
		var got []reflect.Value
		var err error
		if p := vt.NoPanic(func() { got, err = decode(k, m) }); p != "" {
			rt.Fatalf("decoding %s body %q: %s", k.Name, body, p)
		}
		if err != nil {
			c.NonTrivial("rejected")
			return
		}
		c.NonTrivial("accepted")
		for i := range got {
			var missing string
			if p := vt.NoPanic(func() { missing = vt.Complete(got[i]) }); p != "" {
				rt.Fatalf("using field %d of decoded %s (body %q): %s", i, k.Name, body, p)
			}
			if missing != "" {
				rt.Fatalf("field %d of decoded %s is incomplete: %s (body %q)", i, k.Name, missing, body)
			}
		}
	})
}

func TestM03_Wire(t *testing.T) {
	vt.Check(t, 3000, func(rt *rapid.T, c *vt.Case) {
		var doc []byte
		what := rapid.SampledFrom([]string{"message", "offer", "suboffer", "proof"}).Draw(rt, "what")
		o := vt.SomeOffer(1, 7).Draw(rt, "offer")
		cs := o.GetCIDs()
		sub, err := o.GenerateSubCIDOffer(&cs[0])
		if err != nil {
			rt.Fatalf("sub offer: %v", err)
		}
		var src interface{}
		switch what {
		case "message":
			src = vt.SomeMessage().Draw(rt, "msg")
		case "offer":
			src = o
		case "suboffer":
			src = sub
		case "proof":
			src = sub.GetMerkleProof()
		}
		doc, err = json.Marshal(src)
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}
		switch rapid.IntRange(0, 4).Draw(rt, "how") {
		case 0:
			doc = mutate(rt, doc)
		case 1:
			doc = rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "raw")
		case 2:
			if what == "proof" { // hostile proof contents inside intact base64 framing
				doc = hostileProof(rt)
			} else {
				doc = hostileJSON(rt, doc)
			}
		default:
			doc = hostileJSON(rt, doc)
		}
		c.Addf("%s %q", what, doc)
		if p := vt.NoPanic(func() {
			var v reflect.Value
			var err error
			switch what {
			case "message":
				var m *fcrmessages.FCRMessage
				m, err = fcrmessages.FCRMsgFromBytes(doc)
				v = reflect.ValueOf(m)
			case "offer":
				var x cidoffer.CIDOffer
				err = json.Unmarshal(doc, &x)
				v = reflect.ValueOf(&x)
			case "suboffer":
				var x cidoffer.SubCIDOffer
				err = json.Unmarshal(doc, &x)
				v = reflect.ValueOf(x)
			case "proof":
				var x fcrmerkletree.FCRMerkleProof
				err = json.Unmarshal(doc, &x)
				v = reflect.ValueOf(&x)
			}
			if err != nil {
				c.NonTrivial(what + " rejected")
				return
			}
			c.NonTrivial(what + " accepted")
			var raw []byte
			if what == "proof" && json.Unmarshal(doc, &raw) == nil && badProof(raw) != "" {
				rt.Fatalf("the malformed proof %q (%s) is accepted", raw, badProof(raw))
			}
			if s := vt.Complete(v); s != "" {
				rt.Fatalf("decoded %s is incomplete: %s (%q)", what, s, doc)
			}
			if what == "message" {
				v.Interface().(*fcrmessages.FCRMessage).DumpMessage()
			}
			if what == "proof" {
				v.Interface().(*fcrmerkletree.FCRMerkleProof).VerifyContent(&cs[0], sub.GetMerkleRoot())
			}
		}); p != "" {
			rt.Fatalf("decoding or using %s %q: %s", what, doc, p)
		}
	})
}

func hostileProof(rt *rapid.T) []byte {
	part := func() []byte {
		return []byte(rapid.SampledFrom([]string{"null", "[]", "[null]", `["AA=="]`, `["AA==","AA=="]`, "[1]", "[0]", "[1,0]", "[2,-1,9]", `[1,"0"]`, "[1,null]", "[1,0.5]", "[1,99999999999999999999]", `["AA==",5]`, `["AA==","?"]`, "{}", `"x"`, "", "["}).Draw(rt, "part"))
	}
	frame := func(b []byte) []byte {
		n := uint32(len(b))
		switch rapid.IntRange(0, 7).Draw(rt, "lie") {
		case 0:
			n++
		case 1:
			n = 0xffffffff
		case 2:
			n = 0
		}
		return append([]byte{byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}, b...)
	}
	raw := append(frame(part()), frame(part())...)
	js, _ := json.Marshal(raw)
	return js
}

// TestM01_EveryBit alters each bit of the signed parts of a message.
func TestM01_EveryBit(t *testing.T) {
	vt.Check(t, 30, func(rt *rapid.T, c *vt.Case) {
		typ, pv := rapid.Int32().Draw(rt, "type"), rapid.Int32().Draw(rt, "ver")
		sup := rapid.SliceOfN(rapid.Int32(), 1, 4).Draw(rt, "sup")
		body := rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(rt, "body")
		pub := vt.Pub(vt.Key(4))
		m := envelope(typ, pv, sup, body, "")
		if err := m.Sign(vt.Key(4), vt.Ver(1)); err != nil {
			rt.Fatalf("sign: %v", err)
		}
		sig := m.GetSignature()
		c.Addf("type=%d ver=%d sup=%v body=%s", typ, pv, sup, brief(body))
		c.NonTrivial("every bit")
		if err := envelope(typ, pv, sup, body, sig).Verify(pub); err != nil {
			rt.Fatalf("genuine message refused: %v", err)
		}
		bad := func(what string, i int, m *fcrmessages.FCRMessage) {
			if m.Verify(pub) == nil {
				rt.Fatalf("the message verifies with bit %d of its %s altered", i, what)
			}
		}
		for i := 0; i < 32; i++ {
			bad("type", i, envelope(typ^1<<uint(i), pv, sup, body, sig))
			bad("version", i, envelope(typ, pv^1<<uint(i), sup, body, sig))
			for j := range sup {
				s2 := append([]int32{}, sup...)
				s2[j] ^= 1 << uint(i)
				bad("supported versions", i, envelope(typ, pv, s2, body, sig))
			}
		}
		for i := 0; i < 8*len(body); i++ {
			b2 := append([]byte{}, body...)
			b2[i/8] ^= 1 << uint(i%8)
			bad("body", i, envelope(typ, pv, sup, b2, sig))
		}
		raw, _ := hex.DecodeString(sig)
		for i := 32; i < 32+512; i++ {
			s2 := append([]byte{}, raw...)
			s2[i/8] ^= 1 << uint(i%8)
			bad("signature", i, envelope(typ, pv, sup, body, hex.EncodeToString(s2)))
		}
	})
}
