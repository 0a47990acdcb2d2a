package light

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

func padded(b []byte) []byte {
	r := make([]byte, 32)
	copy(r[32-len(b):], b)
	return r
}

func shortBytes() *rapid.Generator[[]byte] {
	return rapid.OneOf(vt.ID32(), rapid.SliceOfN(rapid.Byte(), 0, 32),
		rapid.Custom(func(t *rapid.T) []byte {
			n := rapid.IntRange(0, 31).Draw(t, "zeros")
			return append(make([]byte, n), rapid.SliceOfN(rapid.Byte(), 0, 32-n).Draw(t, "rest")...)
		}))
}

// id is what the two identifier types have in common.
type id interface {
	ToString() string
	ToBytes() []byte
}

func TestI01_RoundTrips(t *testing.T) {
	vt.Check(t, 4000, func(rt *rapid.T, c *vt.Case) {
		in := shortBytes().Draw(rt, "in")
		want := padded(in)
		c.Addf("in=%x", in)
		if len(in) < 32 {
			c.NonTrivial("short input")
		} else if want[0] == 0 {
			c.NonTrivial("leading zeros")
		} else {
			c.NonTrivial("full width")
		}
		snapshot := append([]byte{}, in...)

		hexIn := hex.EncodeToString(in)
		if rapid.Bool().Draw(rt, "upper") {
			hexIn = strings.ToUpper(hexIn)
		}
		check := func(what string, v id, err error) {
			if err != nil {
				rt.Fatalf("%s refused %x: %v", what, in, err)
			}
			if !bytes.Equal(v.ToBytes(), want) {
				rt.Fatalf("%s(%x).ToBytes() = %x, want %x", what, in, v.ToBytes(), want)
			}
			if s := v.ToString(); s != hex.EncodeToString(want) {
				rt.Fatalf("%s(%x).ToString() = %q", what, in, s)
			}
		}
		c1, err := cid.NewContentIDFromBytes(in)
		check("cid bytes", c1, err)
		c2, err := cid.NewContentIDFromHexString(hexIn)
		check("cid hex", c2, err)
		c3, err := cid.NewContentID(new(big.Int).SetBytes(in))
		check("cid bigint", c3, err)
		c4, err := cid.NewContentIDFromHexString(c1.ToString())
		check("cid string trip", c4, err)
		n1, err := nodeid.NewNodeIDFromBytes(in)
		check("node bytes", n1, err)
		n2, err := nodeid.NewNodeIDFromHexString(hexIn)
		check("node hex", n2, err)
		n3, err := nodeid.NewNodeID(new(big.Int).SetBytes(in))
		check("node bigint", n3, err)
		a := n1.AsBytes32()
		if !bytes.Equal(a[:], want) {
			rt.Fatalf("AsBytes32 = %x want %x", a, want)
		}
		js, err := json.Marshal(c1)
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}
		var c5 cid.ContentID
		check("cid json", &c5, json.Unmarshal(js, &c5))
		held := *vt.CID(bytes.Repeat([]byte{7}, 32)) // a variable that held another id
		copied := held
		check("cid json over another", &held, json.Unmarshal(js, &held))
		if !bytes.Equal(copied.ToBytes(), bytes.Repeat([]byte{7}, 32)) {
			rt.Fatalf("decoding a piece id changed another one, copied from the same variable")
		}
		js, err = json.Marshal(n1)
		if err != nil {
			rt.Fatalf("marshal: %v", err)
		}
		var n4 nodeid.NodeID
		check("node json", &n4, json.Unmarshal(js, &n4))
		heldNode := *vt.Node(bytes.Repeat([]byte{7}, 32))
		copiedNode := heldNode
		check("node json over another", &heldNode, json.Unmarshal(js, &heldNode))
		if !bytes.Equal(copiedNode.ToBytes(), bytes.Repeat([]byte{7}, 32)) {
			rt.Fatalf("decoding a node id changed another one, copied from the same variable")
		}
		h, err := c1.CalculateHash()
		if err != nil {
			rt.Fatalf("hash: %v", err)
		}
		h2, _ := c2.CalculateHash()
		if !bytes.Equal(h, h2) {
			rt.Fatalf("equal ids hash differently: %x %x", h, h2)
		}
		// The identifier does not share memory with its source.
		for i := range in {
			in[i] ^= 0xff
		}
		check("cid after input changed", c1, nil)
		check("node after input changed", n1, nil)
		copy(in, snapshot)
		for i := range js {
			js[i] = 0
		}
		check("node after json changed", &n4, nil)

		// equality and hashing against another identifier
		var other []byte
		switch rapid.IntRange(0, 2).Draw(rt, "otherkind") {
		case 0:
			other = append([]byte{}, want...)
		case 1:
			other = append([]byte{}, want...)
			other[rapid.IntRange(0, 31).Draw(rt, "pos")] ^= 1 << uint(rapid.IntRange(0, 7).Draw(rt, "bit"))
		default:
			other = padded(shortBytes().Draw(rt, "other"))
		}
		o := vt.CID(other)
		eq, err := c1.Equals(o)
		if err != nil || eq != bytes.Equal(want, other) {
			rt.Fatalf("Equals(%x, %x) = %v, %v", want, other, eq, err)
		}
		ho, _ := o.CalculateHash()
		if bytes.Equal(h, ho) != bytes.Equal(want, other) {
			rt.Fatalf("hash equality of %x and %x is wrong", want, other)
		}
	})
}

func TestI01_Refusals(t *testing.T) {
	vt.Check(t, 3000, func(rt *rapid.T, c *vt.Case) {
		switch rapid.IntRange(0, 3).Draw(rt, "kind") {
		case 0: // too long
			in := rapid.SliceOfN(rapid.Byte(), 33, 80).Draw(rt, "in")
			c.Addf("long %x", in)
			c.NonTrivial("too long")
			if v, err := cid.NewContentIDFromBytes(in); err == nil || v != nil {
				rt.Fatalf("cid bytes accepted %d bytes", len(in))
			}
			if v, err := nodeid.NewNodeIDFromBytes(in); err == nil || v != nil {
				rt.Fatalf("node bytes accepted %d bytes", len(in))
			}
			if v, err := cid.NewContentIDFromHexString(hex.EncodeToString(in)); err == nil || v != nil {
				rt.Fatalf("cid hex accepted %d bytes", len(in))
			}
			if v, err := nodeid.NewNodeIDFromHexString(hex.EncodeToString(in)); err == nil || v != nil {
				rt.Fatalf("node hex accepted %d bytes", len(in))
			}
			in[0] |= 1
			if v, err := cid.NewContentID(new(big.Int).SetBytes(in)); err == nil || v != nil {
				rt.Fatalf("cid bigint accepted %d bytes", len(in))
			}
			if v, err := nodeid.NewNodeID(new(big.Int).SetBytes(in)); err == nil || v != nil {
				rt.Fatalf("node bigint accepted %d bytes", len(in))
			}
		case 1: // not hex
			good := []byte(hex.EncodeToString(rapid.SliceOfN(rapid.Byte(), 1, 32).Draw(rt, "in")))
			if rapid.Bool().Draw(rt, "odd") {
				good = good[:len(good)-1]
				c.NonTrivial("odd length hex")
			} else {
				good[rapid.IntRange(0, len(good)-1).Draw(rt, "pos")] = rapid.SampledFrom([]byte("gGxX -_zZ\x00\xff.")).Draw(rt, "bad")
				c.NonTrivial("non-hex digit")
			}
			c.Addf("nothex %q", good)
			if v, err := cid.NewContentIDFromHexString(string(good)); err == nil || v != nil {
				rt.Fatalf("cid hex accepted %q", good)
			}
			if v, err := nodeid.NewNodeIDFromHexString(string(good)); err == nil || v != nil {
				rt.Fatalf("node hex accepted %q", good)
			}
		case 2: // json of another length
			n := rapid.SampledFrom([]int{0, 1, 2, 31, 33, 34, 64, 100}).Draw(rt, "n")
			in := rapid.SliceOfN(rapid.Byte(), n, n).Draw(rt, "in")
			c.Addf("json len %d %x", n, in)
			c.NonTrivial("json of wrong length")
			js := []byte(`"` + base64.StdEncoding.EncodeToString(in) + `"`)
			var v cid.ContentID
			if json.Unmarshal(js, &v) == nil {
				rt.Fatalf("cid json accepted %d bytes", n)
			}
			var w nodeid.NodeID
			if json.Unmarshal(js, &w) == nil {
				rt.Fatalf("node json accepted %d bytes", n)
			}
		default: // arbitrary json
			js := rapid.OneOf(
				rapid.SampledFrom([][]byte{[]byte("null"), []byte("{}"), []byte("[]"), []byte("1"), []byte(`""`), []byte(`"!!"`), []byte("true"), []byte(""), []byte("["), []byte(`[300]`), []byte(`[-1]`)}),
				rapid.SliceOfN(rapid.Byte(), 0, 60)).Draw(rt, "js")
			c.Addf("json %q", js)
			c.NonTrivial("arbitrary json")
			var v cid.ContentID
			if json.Unmarshal(js, &v) == nil && len(v.ToBytes()) != 32 {
				rt.Fatalf("cid from %q has %d bytes", js, len(v.ToBytes()))
			}
			var w nodeid.NodeID
			if json.Unmarshal(js, &w) == nil && len(w.ToBytes()) != 32 {
				rt.Fatalf("node from %q has %d bytes", js, len(w.ToBytes()))
			}
		}
	})
}

func TestI01_Lists(t *testing.T) {
	vt.Check(t, 1500, func(rt *rapid.T, c *vt.Case) {
		raw := rapid.SliceOfN(vt.ID32(), 0, 8).Draw(rt, "ids")
		var cids []cid.ContentID
		var nodes []nodeid.NodeID
		for _, b := range raw {
			cids = append(cids, *vt.CID(b))
			nodes = append(nodes, *vt.Node(b))
			c.Addf("%x", b)
		}
		if len(raw) > 1 {
			c.NonTrivial("list of two or more")
		}
		cs, ns := cid.MapCIDToString(cids), nodeid.MapNodeIDToString(nodes)
		if len(cs) != len(raw) || len(ns) != len(raw) {
			rt.Fatalf("lengths %d %d want %d", len(cs), len(ns), len(raw))
		}
		cb, err := cid.MapStringToCID(cs)
		if err != nil || len(cb) != len(raw) {
			rt.Fatalf("MapStringToCID: %v, %d of %d", err, len(cb), len(raw))
		}
		nb, err := nodeid.MapStringToNodeID(ns)
		if err != nil || len(nb) != len(raw) {
			rt.Fatalf("MapStringToNodeID: %v, %d of %d", err, len(nb), len(raw))
		}
		for i, b := range raw {
			if !bytes.Equal(cb[i].ToBytes(), b) || !bytes.Equal(nb[i].ToBytes(), b) {
				rt.Fatalf("list element %d comes back as %x %x, want %x", i, cb[i].ToBytes(), nb[i].ToBytes(), b)
			}
			if cs[i] != hex.EncodeToString(b) || ns[i] != hex.EncodeToString(b) {
				rt.Fatalf("element %d: %s %s want %x", i, cs[i], ns[i], b)
			}
			if v, err := cid.NewContentIDFromHexString(cs[i]); err != nil || !bytes.Equal(v.ToBytes(), b) {
				rt.Fatalf("element %d does not come back", i)
			}
			if v, err := nodeid.NewNodeIDFromHexString(ns[i]); err != nil || !bytes.Equal(v.ToBytes(), b) {
				rt.Fatalf("element %d does not come back", i)
			}
		}
		// one bad element spoils the list
		if len(cs) > 0 {
			i := rapid.IntRange(0, len(cs)-1).Draw(rt, "badpos")
			bad := append([]string{}, cs...)
			bad[i] = rapid.SampledFrom([]string{"zz", "0", cs[i] + "00", "xyz", " "}).Draw(rt, "bad")
			if _, err := cid.MapStringToCID(bad); err == nil {
				rt.Fatalf("MapStringToCID accepted %q", bad)
			}
			if _, err := nodeid.MapStringToNodeID(bad); err == nil {
				rt.Fatalf("MapStringToNodeID accepted %q", bad)
			}
		}
	})
}

func TestI01_SortClockwise(t *testing.T) {
	vt.Check(t, 2500, func(rt *rapid.T, c *vt.Case) {
		raw := rapid.SliceOfN(vt.ID32(), 0, 14).Draw(rt, "ids")
		start := vt.ID32().Draw(rt, "start")
		if len(raw) > 0 && rapid.IntRange(0, 2).Draw(rt, "startmember") == 0 {
			start = append([]byte{}, raw[rapid.IntRange(0, len(raw)-1).Draw(rt, "which")]...)
		}
		var in []*nodeid.NodeID
		for _, b := range raw {
			in = append(in, vt.Node(b))
		}
		out := nodeid.SortClockwise(vt.Node(start), in)
		c.Addf("start=%x n=%d ids=%x", start, len(raw), raw)

		// reference: sort by clockwise distance from start
		want := make([]*big.Int, len(raw))
		s := new(big.Int).SetBytes(start)
		below, above := 0, 0
		for i, b := range raw {
			v := new(big.Int).SetBytes(b)
			if v.Cmp(s) < 0 {
				below++
			} else {
				above++
			}
			v.Sub(v, s)
			v.Mod(v, vt.Two256)
			want[i] = v
		}
		sort.Slice(want, func(i, j int) bool { return want[i].Cmp(want[j]) < 0 })
		if below > 0 && above > 0 {
			c.NonTrivial("wraps around")
		} else if len(raw) > 1 {
			c.NonTrivial("one side")
		}
		if len(out) != len(raw) {
			rt.Fatalf("got %d ids, want %d", len(out), len(raw))
		}
		for i, v := range out {
			d := new(big.Int).SetBytes(v.ToBytes())
			d.Sub(d, s)
			d.Mod(d, vt.Two256)
			if d.Cmp(want[i]) != 0 {
				rt.Fatalf("position %d of clockwise order from %x is %s", i, start, v.ToString())
			}
		}
	})
}
