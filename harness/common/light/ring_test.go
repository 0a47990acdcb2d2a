package light

import (
	"encoding/hex"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/dhtring"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

// ringModel is the set of members as numbers.
type ringModel map[string]*big.Int

func (m ringModel) sorted() []*big.Int {
	var r []*big.Int
	for _, v := range m {
		r = append(r, v)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].Cmp(r[j]) < 0 })
	return r
}

func cw(from, to *big.Int) *big.Int {
	d := new(big.Int).Sub(to, from)
	return d.Mod(d, vt.Two256)
}

func circ(a, b *big.Int) *big.Int {
	x, y := cw(a, b), cw(b, a)
	if x.Cmp(y) < 0 {
		return x
	}
	return y
}

func num(s string) *big.Int {
	v, ok := new(big.Int).SetString(s, 16)
	if !ok {
		return nil
	}
	return v
}

func key64(v *big.Int) string { return fmt.Sprintf("%064x", v) }

// checkAnswer parses the answer of a query: distinct members of the model.
func checkAnswer(rt *rapid.T, what string, res []string, m ringModel) []*big.Int {
	rt.Helper()
	var r []*big.Int
	seen := map[string]bool{}
	for _, s := range res {
		v := num(s)
		if v == nil || len(s) != 64 || m[key64(v)] == nil {
			rt.Fatalf("%s returns %q, which is not a member of %v", what, s, dump(m))
		}
		if seen[key64(v)] {
			rt.Fatalf("%s returns %q twice: %v", what, s, res)
		}
		seen[key64(v)] = true
		r = append(r, v)
	}
	return r
}

func dump(m ringModel) []string {
	var r []string
	for _, v := range m.sorted() {
		r = append(r, key64(v))
	}
	return r
}

func checkClosest(rt *rapid.T, m ringModel, target *big.Int, n int, exclude *big.Int, res []string) {
	rt.Helper()
	what := fmt.Sprintf("GetClosest(%064x, %d, %v)", target, n, exclude)
	got := checkAnswer(rt, what, res, m)
	var cand []*big.Int
	for _, v := range m.sorted() {
		if exclude == nil || v.Cmp(exclude) != 0 {
			cand = append(cand, v)
		}
	}
	want := n
	if want < 0 {
		want = 0
	}
	if want > len(cand) {
		want = len(cand)
	}
	if len(got) != want {
		rt.Fatalf("%s returns %d of %d members, want %d: %v of %v", what, len(got), len(m), want, res, dump(m))
	}
	in := map[string]bool{}
	far := new(big.Int)
	for _, v := range got {
		if exclude != nil && v.Cmp(exclude) == 0 {
			rt.Fatalf("%s returns the excluded member", what)
		}
		in[key64(v)] = true
		if d := circ(target, v); d.Cmp(far) > 0 {
			far = d
		}
	}
	for _, v := range cand {
		if !in[key64(v)] && circ(target, v).Cmp(far) < 0 {
			rt.Fatalf("%s leaves out %064x, which is nearer than a returned member: %v", what, v, res)
		}
	}
	if len(got) == 0 {
		return
	}
	// clockwise: the walk from the first to the last meets the rest in order, and nothing left out
	prev := new(big.Int)
	for _, v := range got[1:] {
		d := cw(got[0], v)
		if d.Cmp(prev) <= 0 {
			rt.Fatalf("%s is not in clockwise order: %v", what, res)
		}
		prev = d
	}
	for _, v := range cand {
		if !in[key64(v)] && cw(got[0], v).Cmp(prev) < 0 {
			rt.Fatalf("%s: walking clockwise through %v meets %064x, which is not among them", what, res, v)
		}
	}
}

func checkRange(rt *rapid.T, m ringModel, a, b *big.Int, res []string) {
	rt.Helper()
	what := fmt.Sprintf("GetWithinRange(%064x, %064x)", a, b)
	got := checkAnswer(rt, what, res, m)
	length := cw(a, b)
	var want []*big.Int
	for _, v := range m.sorted() {
		if cw(a, v).Cmp(length) <= 0 {
			want = append(want, v)
		}
	}
	sort.Slice(want, func(i, j int) bool { return cw(a, want[i]).Cmp(cw(a, want[j])) < 0 })
	if len(got) != len(want) {
		rt.Fatalf("%s returns %v, want %x, members %v", what, res, want, dump(m))
	}
	for i := range got {
		if got[i].Cmp(want[i]) != 0 {
			rt.Fatalf("%s returns %v, want %x in that order", what, res, want)
		}
	}
}

func spell(t *rapid.T, v *big.Int) string {
	s := key64(v)
	switch rapid.IntRange(0, 5).Draw(t, "case") {
	case 0:
		return strings.ToUpper(s)
	case 1: // mixed
		b := []byte(s)
		for i := range b {
			if i%3 == 0 && b[i] >= 'a' {
				b[i] -= 32
			}
		}
		return string(b)
	}
	return s
}

func TestD01_History(t *testing.T) {
	vt.Check(t, 700, func(rt *rapid.T, c *vt.Case) {
		r := dhtring.CreateRing()
		m := ringModel{}
		steps := rapid.IntRange(1, 40).Draw(rt, "steps")
		grid := rapid.Bool().Draw(rt, "grid")
		pick := func(label string) *big.Int {
			// mostly members and their neighbours
			s := m.sorted()
			k := rapid.IntRange(0, 5).Draw(rt, label)
			if len(s) > 0 && k < 4 {
				v := new(big.Int).Set(s[rapid.IntRange(0, len(s)-1).Draw(rt, "member")])
				switch k {
				case 0, 1:
					return v
				case 2:
					v.Add(v, big.NewInt(int64(rapid.IntRange(-2, 2).Draw(rt, "off"))))
				case 3: // half way to another member, or opposite to it
					w := s[rapid.IntRange(0, len(s)-1).Draw(rt, "other")]
					v.Add(v, w)
					v.Rsh(v, 1)
					if rapid.Bool().Draw(rt, "opposite") {
						v.Add(v, new(big.Int).Lsh(big.NewInt(1), 255))
					}
				}
				return v.Mod(v, vt.Two256)
			}
			if grid {
				b := make([]byte, 32)
				b[0] = byte(rapid.IntRange(0, 15).Draw(rt, "slot")) << 4
				return new(big.Int).SetBytes(b)
			}
			return new(big.Int).SetBytes(vt.ID32().Draw(rt, "new"))
		}
		queries, removals := 0, 0
		step := func(op string, fn func()) {
			vt.Within(vt.Hang, op, func() {
				if p := vt.NoPanic(fn); p != "" {
					rt.Fatalf("%s panics with members %v: %s", op, dump(m), p)
				}
			})
			if r.Size() != len(m) {
				rt.Fatalf("after %s the size is %d, want %d: %v", op, r.Size(), len(m), dump(m))
			}
		}
		all := func() {
			var res []string
			var err error
			step("listing", func() { res, err = r.GetWithinRange(strings.Repeat("0", 64), strings.Repeat("f", 64)) })
			if err != nil {
				rt.Fatalf("listing: %v", err)
			}
			checkRange(rt, m, new(big.Int), new(big.Int).Sub(vt.Two256, big.NewInt(1)), res)
		}
		for i := 0; i < steps; i++ {
			switch rapid.SampledFrom([]string{"insert", "insert", "insert", "remove", "remove", "closest", "closest", "range", "range", "invalid"}).Draw(rt, "op") {
			case "insert":
				v := pick("ins")
				s := spell(rt, v)
				m[key64(v)] = v
				c.Addf("+%s", s)
				step("Insert("+s+")", func() { r.Insert(s) })
			case "remove":
				v := pick("rem")
				s := spell(rt, v)
				if m[key64(v)] != nil {
					removals++
				}
				delete(m, key64(v))
				c.Addf("-%s", s)
				step("Remove("+s+")", func() { r.Remove(s) })
			case "closest":
				v := pick("target")
				n := rapid.SampledFrom([]int{0, 1, 2, 3, len(m) - 1, len(m), len(m) + 1, len(m) + 5, -1}).Draw(rt, "num")
				var ex *big.Int
				exs := ""
				if rapid.Bool().Draw(rt, "exclude") {
					ex = pick("excluded")
					if rapid.IntRange(0, 2).Draw(rt, "self") == 0 {
						ex = v
					}
					exs = spell(rt, ex)
				}
				s := spell(rt, v)
				c.Addf("closest(%s,%d,%s)", s, n, exs)
				var res []string
				var err error
				step("GetClosest("+s+")", func() { res, err = r.GetClosest(s, n, exs) })
				if n >= 0 && err != nil {
					rt.Fatalf("GetClosest(%s, %d, %s): %v", s, n, exs, err)
				}
				checkClosest(rt, m, v, n, ex, res)
				if len(m) > 1 {
					queries++
				}
				all()
			case "range":
				a, b := pick("start"), pick("end")
				if rapid.IntRange(0, 4).Draw(rt, "same") == 0 {
					b = a
				}
				sa, sb := spell(rt, a), spell(rt, b)
				c.Addf("range(%s,%s)", sa, sb)
				var res []string
				var err error
				step("GetWithinRange("+sa+","+sb+")", func() { res, err = r.GetWithinRange(sa, sb) })
				if err != nil {
					rt.Fatalf("GetWithinRange(%s, %s): %v", sa, sb, err)
				}
				checkRange(rt, m, a, b, res)
				if len(m) > 1 {
					queries++
				}
				all()
			case "invalid":
				good := key64(pick("good"))
				bad := rapid.OneOf(rapid.StringMatching("[0-9a-f]{0,63}"), rapid.StringMatching("[0-9a-f]{65,70}"), rapid.StringMatching("[0-9a-g]{63}g"),
					rapid.StringMatching("[+-]0[0-9a-f]{62}"), rapid.StringMatching("0x[0-9a-f]{62}"), rapid.StringMatching("[0-9a-f]{31}_[0-9a-f]{32}"), rapid.String()).Draw(rt, "bad")
				if b, err := hex.DecodeString(bad); err == nil && len(b) == 32 {
					continue
				}
				c.Addf("bad(%q)", bad)
				step("Insert of invalid text", func() { r.Insert(bad) })
				step("Remove of invalid text", func() { r.Remove(bad) })
				var e [4]error
				step("query with invalid text", func() {
					_, e[0] = r.GetClosest(bad, 1, "")
					_, e[1] = r.GetWithinRange(bad, good)
					_, e[2] = r.GetWithinRange(good, bad)
					e[3] = fmt.Errorf("none")
					if bad != "" {
						_, e[3] = r.GetClosest(good, 1, bad)
					}
				})
				for i, err := range e {
					if err == nil {
						rt.Fatalf("query form %d with invalid text %q is not refused", i, bad)
					}
				}
				all()
			}
		}
		all()
		if queries > 0 && removals > 0 {
			c.NonTrivial("removals and queries")
		} else if queries > 0 {
			c.NonTrivial("queries")
		}
	})
}
