package light

import (
	"bytes"
	"crypto/sha256"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmerkletree"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/cbergoon/merkletree"
	"pgregory.net/rapid"
)

type terms struct {
	provider []byte
	cids     [][]byte
	price    uint64
	expiry   int64
	qos      uint64
}

func (x terms) String() string {
	return fmt.Sprintf("provider=%x pieces=%x price=%d expiry=%d qos=%d", x.provider, x.cids, x.price, x.expiry, x.qos)
}

func (x terms) clone() terms {
	y := x
	y.provider = append([]byte{}, x.provider...)
	y.cids = nil
	for _, c := range x.cids {
		y.cids = append(y.cids, append([]byte{}, c...))
	}
	return y
}

func (x terms) list() []cid.ContentID {
	var r []cid.ContentID
	for _, c := range x.cids {
		r = append(r, *vt.CID(c))
	}
	return r
}

func (x terms) offer(rt *rapid.T) *cidoffer.CIDOffer {
	o, err := cidoffer.NewCIDOffer(vt.Node(x.provider), x.list(), x.price, x.expiry, x.qos)
	if err != nil {
		rt.Fatalf("offer refused: %v (%v)", err, x)
	}
	return o
}

func someTerms(min, max int) *rapid.Generator[terms] {
	return rapid.Custom(func(t *rapid.T) terms {
		n := rapid.IntRange(min, max).Draw(t, "n")
		return terms{
			provider: vt.ID32().Draw(t, "provider"),
			cids:     rapid.SliceOfNDistinct(vt.ID32(), n, n, func(b []byte) string { return string(b) }).Draw(t, "pieces"),
			price:    vt.Uint64().Draw(t, "price"),
			expiry:   vt.Int64().Draw(t, "expiry"),
			qos:      vt.Uint64().Draw(t, "qos"),
		}
	})
}

func sameTerms(rt *rapid.T, what string, o *cidoffer.CIDOffer, x terms) {
	rt.Helper()
	bad := o.GetProviderID() == nil || !bytes.Equal(o.GetProviderID().ToBytes(), x.provider) || o.GetPrice() != x.price || o.GetExpiry() != x.expiry || o.GetQoS() != x.qos || len(o.GetCIDs()) != len(x.cids)
	if !bad {
		for i, c := range o.GetCIDs() {
			bad = bad || !bytes.Equal(c.ToBytes(), x.cids[i])
		}
	}
	if bad {
		b, _ := json.Marshal(o)
		rt.Fatalf("%s: offer %s does not carry the terms %v", what, b, x)
	}
}

// verifies calls an offer's Verify, which must not panic.
func verifies(rt *rapid.T, o interface {
	Verify(*fcrcrypto.KeyPair) error
}, k *fcrcrypto.KeyPair) bool {
	rt.Helper()
	var err error
	if p := vt.NoPanic(func() { err = o.Verify(k) }); p != "" {
		rt.Fatalf("Verify panics: %s", p)
	}
	return err == nil
}

func otherBytes(t *rapid.T, b []byte) []byte {
	r := append([]byte{}, b...)
	if rapid.Bool().Draw(t, "bitflip") {
		i := rapid.IntRange(0, 255).Draw(t, "bit")
		r[i/8] ^= 1 << (i % 8)
		return r
	}
	n := vt.ID32().Draw(t, "otherid")
	if bytes.Equal(n, b) {
		n[5] ^= 1
	}
	return n
}

func otherU64(t *rapid.T, v uint64) uint64 {
	switch rapid.IntRange(0, 2).Draw(t, "how") {
	case 0:
		return v ^ 1<<uint(rapid.IntRange(0, 63).Draw(t, "bit"))
	case 1:
		return v + 1
	}
	n := vt.Uint64().Draw(t, "other")
	if n == v {
		n++
	}
	return n
}

// alter changes one term and says which.
func alter(t *rapid.T, x terms) (terms, string) {
	y := x.clone()
	kinds := []string{"provider", "piece", "add piece", "price", "expiry", "qos"}
	if len(x.cids) > 1 {
		kinds = append(kinds, "drop piece", "swap pieces", "rotate pieces")
	}
	has := func(b []byte) bool {
		for _, c := range y.cids {
			if bytes.Equal(b, c) {
				return true
			}
		}
		return false
	}
	k := rapid.SampledFrom(kinds).Draw(t, "alteration")
	switch k {
	case "provider":
		y.provider = otherBytes(t, x.provider)
	case "piece":
		i := rapid.IntRange(0, len(y.cids)-1).Draw(t, "which")
		n := otherBytes(t, y.cids[i])
		for has(n) {
			n[7]++
		}
		y.cids[i] = n
	case "add piece":
		n := vt.ID32().Draw(t, "added")
		for has(n) {
			n[7]++
		}
		i := rapid.IntRange(0, len(y.cids)).Draw(t, "where")
		y.cids = append(y.cids[:i], append([][]byte{n}, y.cids[i:]...)...)
	case "drop piece":
		i := rapid.IntRange(0, len(y.cids)-1).Draw(t, "which")
		y.cids = append(y.cids[:i], y.cids[i+1:]...)
	case "swap pieces":
		i := rapid.IntRange(0, len(y.cids)-1).Draw(t, "i")
		j := (i + rapid.IntRange(1, len(y.cids)-1).Draw(t, "by")) % len(y.cids)
		y.cids[i], y.cids[j] = y.cids[j], y.cids[i]
	case "rotate pieces":
		y.cids = append(y.cids[1:], y.cids[0])
	case "price":
		y.price = otherU64(t, x.price)
	case "expiry":
		y.expiry = int64(otherU64(t, uint64(x.expiry)))
	case "qos":
		y.qos = otherU64(t, x.qos)
	}
	return y, k
}

// usedOffers gives variables that hold another offer already.
func usedOffers() (*cidoffer.CIDOffer, *cidoffer.SubCIDOffer) {
	x := terms{provider: bytes.Repeat([]byte{9}, 32), price: 11, expiry: 12, qos: 13}
	for i := 0; i < 5; i++ {
		x.cids = append(x.cids, bytes.Repeat([]byte{byte(200 + i)}, 32))
	}
	o := x.offer(nil)
	if err := o.Sign(vt.Key(3), vt.Ver(3)); err != nil {
		panic(err)
	}
	c := o.GetCIDs()[2]
	s, err := o.GenerateSubCIDOffer(&c)
	if err != nil {
		panic(err)
	}
	return o, s
}

func wire(rt *rapid.T, o *cidoffer.CIDOffer) *cidoffer.CIDOffer {
	b, err := json.Marshal(o)
	if err != nil {
		rt.Fatalf("serialise: %v", err)
	}
	r := new(cidoffer.CIDOffer)
	if rapid.Bool().Draw(rt, "reused") {
		r, _ = usedOffers()
	}
	if err := json.Unmarshal(b, r); err != nil {
		rt.Fatalf("deserialise %s: %v", b, err)
	}
	return r
}

func wireSub(rt *rapid.T, o *cidoffer.SubCIDOffer) *cidoffer.SubCIDOffer {
	b, err := json.Marshal(o)
	if err != nil {
		rt.Fatalf("serialise: %v", err)
	}
	r := new(cidoffer.SubCIDOffer)
	if rapid.Bool().Draw(rt, "reused") {
		_, r = usedOffers()
	}
	if err := json.Unmarshal(b, r); err != nil {
		rt.Fatalf("deserialise %s: %v", b, err)
	}
	return r
}

// reSign alters the value of a hex signature (not its key version prefix nor its recovery byte).
func alterSignature(t *rapid.T, sig string) string {
	b, err := hex.DecodeString(sig)
	if err != nil || len(b) != 69 {
		t.Fatalf("unexpected signature text %q", sig)
	}
	i := 4*8 + rapid.IntRange(0, 64*8-1).Draw(t, "sigbit")
	b[i/8] ^= 1 << (i % 8)
	return hex.EncodeToString(b)
}

func TestO01_SignatureCommits(t *testing.T) {
	vt.Check(t, 400, func(rt *rapid.T, c *vt.Case) {
		x := someTerms(1, 9).Draw(rt, "terms")
		ki := rapid.IntRange(0, 20).Draw(rt, "key")
		key, pub := vt.Key(ki), vt.Pub(vt.Key(ki))
		ver := vt.Ver(rapid.Uint32().Draw(rt, "ver"))
		o := x.offer(rt)
		if o.GetSignature() != "" {
			rt.Fatalf("a new offer carries a signature")
		}
		digest := o.GetMessageDigest()
		if err := o.Sign(key, ver); err != nil {
			rt.Fatalf("sign: %v", err)
		}
		c.Addf("%v key=%d", x, ki)
		for trip := 0; trip < 3; trip++ {
			sameTerms(rt, "after signing", o, x)
			if !verifies(rt, o, pub) || !verifies(rt, o, key) {
				rt.Fatalf("offer does not verify under its provider's key after %d trips", trip)
			}
			if o.GetMessageDigest() != digest || o.GetMessageDigest() != digest {
				rt.Fatalf("the digest changed after %d trips", trip)
			}
			o = wire(rt, o)
		}
		if d := cidoffer.DecodeMessageDigest(cidoffer.EncodeMessageDigest(digest)); d != digest {
			rt.Fatalf("digest %x does not survive its textual encoding: %x", digest, d)
		}
		if d := x.offer(rt).GetMessageDigest(); d != digest {
			rt.Fatalf("two offers with the same terms have different digests")
		}
		if verifies(rt, o, vt.Pub(vt.Key(ki+1))) {
			rt.Fatalf("the offer verifies under another key")
		}
		// sub-offers carry the same terms and verify
		which := rapid.IntRange(0, len(x.cids)-1).Draw(rt, "sub")
		so, err := o.GenerateSubCIDOffer(vt.CID(x.cids[which]))
		if err != nil {
			rt.Fatalf("sub-offer: %v", err)
		}
		for trip := 0; trip < 3; trip++ {
			if !bytes.Equal(so.GetProviderID().ToBytes(), x.provider) || !bytes.Equal(so.GetSubCID().ToBytes(), x.cids[which]) || so.GetPrice() != x.price ||
				so.GetExpiry() != x.expiry || so.GetQoS() != x.qos || so.GetSignature() != o.GetSignature() {
				b, _ := json.Marshal(so)
				rt.Fatalf("sub-offer %s does not carry the terms %v", b, x)
			}
			if !verifies(rt, so, pub) {
				rt.Fatalf("sub-offer does not verify after %d trips", trip)
			}
			if so.HasExpired() != o.HasExpired() {
				rt.Fatalf("sub-offer and offer disagree on expiry")
			}
			so = wireSub(rt, so)
		}
		if verifies(rt, so, vt.Pub(vt.Key(ki+1))) {
			rt.Fatalf("the sub-offer verifies under another key")
		}

		// one altered term under the same signature
		y, kind := alter(rt, x)
		c.NonTrivial(kind)
		c.Addf("%s -> %v", kind, y)
		p := y.offer(rt)
		p.SetSignature(o.GetSignature())
		for trip := 0; trip < 2; trip++ {
			if verifies(rt, p, pub) {
				rt.Fatalf("the signature over %v also verifies for %v (%s)", x, y, kind)
			}
			if p.GetMessageDigest() == digest {
				rt.Fatalf("the offers %v and %v have the same digest", x, y)
			}
			p = wire(rt, p)
		}
		// the altered terms in a sub-offer
		if kind != "piece" && kind != "add piece" && kind != "drop piece" && kind != "swap pieces" && kind != "rotate pieces" {
			ps := cidoffer.NewSubCIDOffer(vt.Node(y.provider), so.GetSubCID(), so.GetMerkleRoot(), so.GetMerkleProof(), y.price, y.expiry, y.qos, so.GetSignature())
			if verifies(rt, ps, pub) || verifies(rt, wireSub(rt, ps), pub) {
				rt.Fatalf("sub-offer verifies with an altered %s", kind)
			}
		} else {
			ps := cidoffer.NewSubCIDOffer(so.GetProviderID(), so.GetSubCID(), rootOf(rt, p), so.GetMerkleProof(), x.price, x.expiry, x.qos, so.GetSignature())
			if verifies(rt, ps, pub) || verifies(rt, wireSub(rt, ps), pub) {
				rt.Fatalf("sub-offer verifies with the merkle root of another group")
			}
		}
		// an altered, missing or foreign signature
		bad := []string{alterSignature(rt, o.GetSignature()), "", o.GetSignature()[:rapid.IntRange(0, len(o.GetSignature())-3).Draw(rt, "cut")], "zz" + o.GetSignature()}
		if err := p.Sign(key, ver); err != nil {
			rt.Fatalf("sign: %v", err)
		}
		bad = append(bad, p.GetSignature())
		q := x.offer(rt)
		if err := q.Sign(vt.Key(ki+1), ver); err != nil {
			rt.Fatalf("sign: %v", err)
		}
		bad = append(bad, q.GetSignature())
		for _, s := range bad {
			o2 := x.offer(rt)
			o2.SetSignature(s)
			if verifies(rt, o2, pub) {
				rt.Fatalf("the offer verifies with signature %q instead of %q", s, o.GetSignature())
			}
			s2 := cidoffer.NewSubCIDOffer(so.GetProviderID(), so.GetSubCID(), so.GetMerkleRoot(), so.GetMerkleProof(), x.price, x.expiry, x.qos, s)
			if verifies(rt, s2, pub) {
				rt.Fatalf("the sub-offer verifies with signature %q instead of %q", s, o.GetSignature())
			}
		}
	})
}

func rootOf(rt *rapid.T, o *cidoffer.CIDOffer) string {
	s, err := o.GenerateSubCIDOffer(&o.GetCIDs()[0])
	if err != nil {
		rt.Fatalf("sub-offer: %v", err)
	}
	return s.GetMerkleRoot()
}

func TestO01_Expiry(t *testing.T) {
	vt.Check(t, 600, func(rt *rapid.T, c *vt.Case) {
		x := someTerms(1, 2).Draw(rt, "terms")
		now := time.Now().Unix()
		x.expiry = rapid.OneOf(rapid.Int64(), rapid.Custom(func(t *rapid.T) int64 {
			return now + rapid.Int64Range(-4, 4).Draw(t, "near")
		}), rapid.Custom(func(t *rapid.T) int64 {
			return now + rapid.Int64Range(-1, 1).Draw(t, "sign")*rapid.SampledFrom([]int64{60, 3600, 14 * 3600, 86400, 1 << 31, 1 << 32, 1 << 53}).Draw(t, "span")
		}), vt.Int64()).Draw(rt, "expiry")
		o := x.offer(rt)
		s, err := o.GenerateSubCIDOffer(&o.GetCIDs()[0])
		if err != nil {
			rt.Fatalf("sub-offer: %v", err)
		}
		before := time.Now()
		e1, e2, e3, e4 := o.HasExpired(), s.HasExpired(), wire(rt, o).HasExpired(), wireSub(rt, s).HasExpired()
		after := time.Now()
		c.Addf("expiry=%d", x.expiry-now)
		for i, e := range []bool{e1, e2, e3, e4} {
			if x.expiry < before.Unix() && !e {
				rt.Fatalf("offer expiring at %d is not expired at %d (form %d)", x.expiry, before.Unix(), i)
			}
			if x.expiry > after.Unix() && e {
				rt.Fatalf("offer expiring at %d is expired at %d (form %d)", x.expiry, after.Unix(), i)
			}
		}
		if e1 {
			c.NonTrivial("expired")
		} else {
			c.NonTrivial("not expired")
		}
	})
}

// levels of the tree over the pieces, leaves first, odd levels completed by their last node.
func levels(pieces [][]byte) [][][]byte {
	var r [][][]byte
	cur := append([][]byte{}, pieces...)
	for first := true; first || len(cur) > 1; first = false {
		if len(cur)%2 == 1 {
			cur = append(cur, cur[len(cur)-1])
		}
		r = append(r, cur)
		var up [][]byte
		for i := 0; i < len(cur); i += 2 {
			h := sha256.Sum256(append(append([]byte{}, cur[i]...), cur[i+1]...))
			up = append(up, h[:])
		}
		cur = up
	}
	return append(r, cur)
}

func mkProof(path [][]byte, index []int64) (*fcrmerkletree.FCRMerkleProof, error) {
	pb, _ := json.Marshal(path)
	ib, _ := json.Marshal(index)
	l := func(n int) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, uint32(n)); return b }
	raw := append(append(append(l(len(pb)), pb...), l(len(ib))...), ib...)
	txt, _ := json.Marshal(raw)
	p := new(fcrmerkletree.FCRMerkleProof)
	var err error
	if pn := vt.NoPanic(func() { err = json.Unmarshal(txt, p) }); pn != "" {
		return nil, fmt.Errorf("VERIF decoding panics: %s", pn)
	}
	return p, err
}

// openProof takes a proof apart through its serialisation.
func openProof(rt *rapid.T, p *fcrmerkletree.FCRMerkleProof) (path [][]byte, index []int64) {
	txt, err := json.Marshal(p)
	if err != nil {
		rt.Fatalf("serialise proof: %v", err)
	}
	var raw []byte
	if err := json.Unmarshal(txt, &raw); err != nil || len(raw) < 8 {
		rt.Fatalf("proof text %s: %v", txt, err)
	}
	n := int(binary.BigEndian.Uint32(raw))
	if err := json.Unmarshal(raw[4:4+n], &path); err != nil {
		rt.Fatalf("proof path: %v", err)
	}
	if err := json.Unmarshal(raw[8+n:], &index); err != nil {
		rt.Fatalf("proof index: %v", err)
	}
	return
}

// An offer over internal tree nodes has the root, and so the signature, of the offer over the leaves.
func TestO01_InternalNodes(t *testing.T) {
	vt.Check(t, 40, func(rt *rapid.T, c *vt.Case) {
		x := someTerms(2, 9).Draw(rt, "terms")
		key := vt.Key(3)
		o := x.offer(rt)
		if err := o.Sign(key, vt.Ver(1)); err != nil {
			rt.Fatalf("sign: %v", err)
		}
		c.Addf("%v", x)
		c.NonTrivial("internal nodes offered as pieces")
		lv := levels(x.cids)
		y := x.clone()
		y.cids = lv[rapid.IntRange(1, len(lv)-1).Draw(rt, "level")]
		p := y.offer(rt)
		p.SetSignature(o.GetSignature())
		if verifies(rt, p, vt.Pub(key)) {
			vt.Finding("internal-node")
		}
	})
}

func content(b []byte) merkletree.Content { return vt.CID(b) }

func holds(rt *rapid.T, p *fcrmerkletree.FCRMerkleProof, piece []byte, root string) bool {
	rt.Helper()
	var ok bool
	if pn := vt.NoPanic(func() { ok = p.VerifyContent(content(piece), root) }); pn != "" {
		rt.Fatalf("verifying a proof panics: %s", pn)
	}
	return ok
}

func TestO02_Proofs(t *testing.T) {
	vt.Check(t, 200, func(rt *rapid.T, c *vt.Case) {
		max := rapid.SampledFrom([]int{3, 9, 20, 70}).Draw(rt, "max")
		x := someTerms(1, max).Draw(rt, "terms")
		dup := rapid.IntRange(0, 4).Draw(rt, "dups") == 0
		if dup { // a group may name a piece twice
			i := rapid.IntRange(0, len(x.cids)-1).Draw(rt, "from")
			j := rapid.IntRange(0, len(x.cids)).Draw(rt, "to")
			x.cids = append(x.cids[:j], append([][]byte{x.cids[i]}, x.cids[j:]...)...)
			c.Class("with a repeated piece")
		}
		c.Addf("n=%d %v", len(x.cids), x)
		if len(x.cids) > 1 {
			c.NonTrivial(fmt.Sprintf("group up to %d", max))
		}
		in := map[string]bool{}
		for _, b := range x.cids {
			in[string(b)] = true
		}
		o := x.offer(rt)
		if err := o.Sign(vt.Key(1), vt.Ver(1)); err != nil {
			rt.Fatalf("sign: %v", err)
		}
		before, _ := json.Marshal(o)
		root := ""
		subs := make([]*cidoffer.SubCIDOffer, len(x.cids))
		for i, b := range x.cids {
			piece := vt.CID(b)
			s, err := o.GenerateSubCIDOffer(piece)
			if err != nil {
				rt.Fatalf("no sub-offer for member %d of %d: %v", i, len(x.cids), err)
			}
			subs[i] = s
			if !bytes.Equal(piece.ToBytes(), b) || !bytes.Equal(s.GetSubCID().ToBytes(), b) {
				rt.Fatalf("sub-offer for %x names piece %s", b, s.GetSubCID().ToString())
			}
			if root == "" {
				root = s.GetMerkleRoot()
			}
			if s.GetMerkleRoot() != root {
				rt.Fatalf("members have different merkle roots")
			}
		}
		after, _ := json.Marshal(o)
		if !bytes.Equal(before, after) {
			rt.Fatalf("generating sub-offers changed the offer from %s to %s", before, after)
		}
		sameTerms(rt, "after generating sub-offers", o, x)
		for i, s := range subs {
			for trip := 0; trip < 2; trip++ {
				var err error
				if pn := vt.NoPanic(func() { err = s.VerifyMerkleProof() }); pn != "" {
					rt.Fatalf("VerifyMerkleProof panics: %s", pn)
				}
				if err != nil || !holds(rt, s.GetMerkleProof(), x.cids[i], root) {
					rt.Fatalf("the proof of member %d of %d does not verify after %d trips: %v", i, len(x.cids), trip, err)
				}
				s = wireSub(rt, s)
			}
		}
		// serialised offers make the same sub-offers
		w := wire(rt, o)
		i := rapid.IntRange(0, len(x.cids)-1).Draw(rt, "member")
		ws, err := w.GenerateSubCIDOffer(vt.CID(x.cids[i]))
		if err != nil || ws.VerifyMerkleProof() != nil || ws.GetMerkleRoot() != root {
			rt.Fatalf("the deserialised offer has other proofs: %v", err)
		}

		s := subs[i]
		path, index := openProof(rt, s.GetMerkleProof())
		// another piece
		out := otherBytes(rt, x.cids[i])
		for in[string(out)] {
			out[9]++
		}
		if holds(rt, s.GetMerkleProof(), out, root) {
			rt.Fatalf("the proof of member %d also holds for %x outside the group", i, out)
		}
		if cidoffer.NewSubCIDOffer(s.GetProviderID(), vt.CID(out), root, s.GetMerkleProof(), x.price, x.expiry, x.qos, s.GetSignature()).VerifyMerkleProof() == nil {
			rt.Fatalf("a sub-offer naming a piece outside the group verifies")
		}
		var gerr error
		var gs *cidoffer.SubCIDOffer
		if pn := vt.NoPanic(func() { gs, gerr = o.GenerateSubCIDOffer(vt.CID(out)) }); pn != "" {
			rt.Fatalf("GenerateSubCIDOffer panics: %s", pn)
		}
		if gerr == nil {
			b, _ := json.Marshal(gs)
			rt.Fatalf("a sub-offer is generated for a piece the offer does not contain: %s", b)
		}
		// another group's root
		y, kind := alter(rt, x)
		if kind == "provider" || kind == "price" || kind == "expiry" || kind == "qos" || dup {
			y = x.clone()
			y.cids = [][]byte{out}
			if len(x.cids) > 1 {
				y.cids = append(y.cids, x.cids[:len(x.cids)-1]...)
			}
		}
		other := rootOf(rt, y.offer(rt))
		if other == root {
			rt.Fatalf("the groups %x and %x have the same root", x.cids, y.cids)
		}
		if holds(rt, s.GetMerkleProof(), x.cids[i], other) {
			rt.Fatalf("the proof holds for the root of another group")
		}
		rb, err := hex.DecodeString(root)
		if err != nil || len(rb) != 32 {
			rt.Fatalf("merkle root %q", root)
		}
		for _, r := range []string{hex.EncodeToString(otherBytes(rt, rb)), "", root[:rapid.IntRange(0, 63).Draw(rt, "cut")], root + "00", "zz"} {
			if holds(rt, s.GetMerkleProof(), x.cids[i], r) {
				rt.Fatalf("the proof holds for root %q instead of %q", r, root)
			}
			if cidoffer.NewSubCIDOffer(s.GetProviderID(), s.GetSubCID(), r, s.GetMerkleProof(), x.price, x.expiry, x.qos, s.GetSignature()).VerifyMerkleProof() == nil {
				rt.Fatalf("a sub-offer with root %q instead of %q passes", r, root)
			}
		}
		// an altered proof
		if len(path) > 0 {
			np := append([][]byte{}, path...)
			ni := append([]int64{}, index...)
			j := rapid.IntRange(0, len(path)-1).Draw(rt, "elem")
			k := rapid.SampledFrom([]string{"hash", "hash length", "drop element", "extra element", "fewer directions", "more directions", "null element"}).Draw(rt, "proof alteration")
			c.Class("proof alteration: " + k)
			switch k {
			case "hash":
				np[j] = otherBytes(rt, np[j])
			case "hash length":
				np[j] = np[j][:rapid.IntRange(0, 31).Draw(rt, "len")]
			case "null element":
				np[j] = nil
			case "drop element":
				np = append(append([][]byte{}, np[:j]...), np[j+1:]...)
				ni = append(append([]int64{}, ni[:j]...), ni[j+1:]...)
			case "extra element":
				np = append(append(append([][]byte{}, np[:j]...), vt.ID32().Draw(rt, "extra")), np[j:]...)
				ni = append(append(append([]int64{}, ni[:j]...), int64(rapid.IntRange(0, 1).Draw(rt, "dir"))), ni[j:]...)
			case "fewer directions":
				ni = ni[:j]
			case "more directions":
				ni = append(ni, int64(rapid.IntRange(-1, 2).Draw(rt, "dir")))
			}
			p, err := mkProof(np, ni)
			if err == nil && holds(rt, p, x.cids[i], root) {
				rt.Fatalf("the proof of member %d of %d holds after an alteration (%s)", i, len(x.cids), k)
			}
		}
		// proofs of any shape for a piece outside the group, and for the nodes of the tree
		rp := rapid.SliceOfN(vt.ID32(), 0, 4).Draw(rt, "rndpath")
		ri := make([]int64, len(rp))
		for k := range ri {
			ri[k] = rapid.Int64Range(-1, 2).Draw(rt, "rnddir")
		}
		if p, err := mkProof(rp, ri); err == nil && holds(rt, p, out, root) {
			rt.Fatalf("a made-up proof holds for a piece outside the group")
		}
		for cut := 1; cut <= len(path); cut++ {
			cur := x.cids[i]
			for k := 0; k < cut; k++ {
				var h [32]byte
				if index[k] == 1 {
					h = sha256.Sum256(append(append([]byte{}, cur...), path[k]...))
				} else {
					h = sha256.Sum256(append(append([]byte{}, path[k]...), cur...))
				}
				cur = h[:]
			}
			if p, err := mkProof(append([][]byte{}, path[cut:]...), append([]int64{}, index[cut:]...)); err == nil && !in[string(cur)] && holds(rt, p, cur, root) {
				vt.Finding("internal-node")
			}
		}
	})
}

// badProof says why the serialised proof (without its outer text form) is malformed, if it is.
func badProof(raw []byte) string {
	part := func() ([]byte, bool) {
		if len(raw) < 4 || uint64(len(raw)-4) < uint64(binary.BigEndian.Uint32(raw)) {
			return nil, false
		}
		n := binary.BigEndian.Uint32(raw)
		p := raw[4 : 4+n]
		raw = raw[4+n:]
		return p, true
	}
	p, ok := part()
	if !ok {
		return "no path"
	}
	i, ok := part()
	if !ok || len(raw) > 0 {
		return "no index"
	}
	var path [][]byte
	var index []int64
	if err := json.Unmarshal(p, &path); err != nil {
		return "path: " + err.Error()
	}
	if err := json.Unmarshal(i, &index); err != nil {
		return "index: " + err.Error()
	}
	if len(path) != len(index) {
		return "path and index differ in length"
	}
	return ""
}

func TestO02_Malformed(t *testing.T) {
	vt.Check(t, 1500, func(rt *rapid.T, c *vt.Case) {
		x := someTerms(1, 6).Draw(rt, "terms")
		o := x.offer(rt)
		s, err := o.GenerateSubCIDOffer(&o.GetCIDs()[0])
		if err != nil {
			rt.Fatalf("sub-offer: %v", err)
		}
		txt, _ := json.Marshal(s.GetMerkleProof())
		var raw []byte
		json.Unmarshal(txt, &raw)
		orig := append([]byte{}, raw...)
		for k := rapid.IntRange(1, 3).Draw(rt, "muts"); k > 0; k-- {
			raw = mutate(rt, raw)
		}
		if rapid.IntRange(0, 3).Draw(rt, "hostile parts") == 0 {
			json.Unmarshal(hostileProof(rt), &raw)
		}
		c.Addf("%s", raw)
		if !bytes.Equal(raw, orig) {
			c.NonTrivial("mutated")
		}
		txt, _ = json.Marshal(raw)
		p := new(fcrmerkletree.FCRMerkleProof)
		if pn := vt.NoPanic(func() { err = json.Unmarshal(txt, p) }); pn != "" {
			rt.Fatalf("decoding the proof %q panics: %s", raw, pn)
		}
		out := append([]byte{}, x.cids[0]...)
		for again := true; again; {
			out[3]++
			again = false
			for _, b := range x.cids {
				again = again || bytes.Equal(b, out)
			}
		}
		if why := badProof(raw); why != "" && err == nil {
			rt.Fatalf("the malformed proof %q (%s) is accepted", raw, why)
		}
		if err == nil {
			holds(rt, p, x.cids[0], s.GetMerkleRoot())
			if holds(rt, p, out, s.GetMerkleRoot()) {
				rt.Fatalf("the proof %q holds for a piece outside the group", raw)
			}
		}
	})
}

// TestO01_EveryBit alters each bit of each signed term of an offer.
func TestO01_EveryBit(t *testing.T) {
	vt.Check(t, 30, func(rt *rapid.T, c *vt.Case) {
		x := someTerms(1, 6).Draw(rt, "terms")
		ki := rapid.IntRange(0, 9).Draw(rt, "key")
		o := x.offer(rt)
		if err := o.Sign(vt.Key(ki), vt.Ver(1)); err != nil {
			rt.Fatalf("sign: %v", err)
		}
		pub := vt.Pub(vt.Key(ki))
		so, err := o.GenerateSubCIDOffer(vt.CID(x.cids[0]))
		if err != nil {
			rt.Fatalf("sub-offer: %v", err)
		}
		digest := o.GetMessageDigest()
		c.Addf("key=%d %v", ki, x)
		c.NonTrivial("every bit")
		piece := rapid.IntRange(0, len(x.cids)-1).Draw(rt, "piece")
		for i := 0; i < 256+3*64+256; i++ {
			y := x.clone()
			switch {
			case i < 256:
				y.provider[i/8] ^= 1 << uint(i%8)
			case i < 320:
				y.price ^= 1 << uint(i-256)
			case i < 384:
				y.qos ^= 1 << uint(i-320)
			case i < 448:
				y.expiry ^= 1 << uint(i-384)
			default:
				y.cids[piece][(i-448)/8] ^= 1 << uint(i%8)
				if dup := map[string]bool{}; i >= 448 {
					for _, p := range y.cids {
						dup[string(p)] = true
					}
					if len(dup) != len(y.cids) {
						continue // a repeated piece
					}
				}
			}
			p := y.offer(rt)
			p.SetSignature(o.GetSignature())
			if verifies(rt, p, pub) {
				rt.Fatalf("the signature over %v also verifies for %v", x, y)
			}
			if p.GetMessageDigest() == digest {
				rt.Fatalf("the offers %v and %v have the same digest", x, y)
			}
			if i < 448 && verifies(rt, cidoffer.NewSubCIDOffer(vt.Node(y.provider), so.GetSubCID(), so.GetMerkleRoot(), so.GetMerkleProof(), y.price, y.expiry, y.qos, so.GetSignature()), pub) {
				rt.Fatalf("the signature of the sub-offer over %v also verifies for %v", x, y)
			}
		}
	})
}
