package light

import (
	"bytes"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

// readLen favours the sizes around the generator's 32-byte blocks.
func readLen() *rapid.Generator[int] {
	return rapid.OneOf(rapid.IntRange(0, 200), rapid.SampledFrom([]int{0, 1, 31, 32, 33, 63, 64, 65, 96, 97, 128, 1024, 1025}))
}

// checkedRead reads n bytes into the middle of a larger buffer and checks that exactly those are written.
func checkedRead(r fcrcrypto.Random, via int, n int) ([]byte, string) {
	const guard = 40
	backing := bytes.Repeat([]byte{0xA5}, n+2*guard)
	win := backing[guard : guard+n]
	switch via {
	case 0:
		r.ReadBytes(win)
	case 1:
		k, err := r.GetReader().Read(win)
		if err != nil || k != n {
			return nil, "GetReader().Read returned a short count or an error"
		}
	case 2:
		fcrcrypto.GeneratePublicRandomBytes(win)
	default:
		fcrcrypto.GeneratePrivateRandomBytes(win)
	}
	for i, b := range backing {
		if (i < guard || i >= guard+n) && b != 0xA5 {
			return nil, "a read wrote outside the requested buffer"
		}
	}
	return append([]byte{}, win...), ""
}

// chunks16 are the aligned 16-byte pieces of a read; for shorter reads there are none.
func chunks16(b []byte) []string {
	var r []string
	for i := 0; i+16 <= len(b); i += 16 {
		r = append(r, string(b[i:i+16]))
	}
	return r
}

var prngSeen = map[string]bool{}

func record(rt *rapid.T, out []byte) {
	rt.Helper()
	for _, ch := range chunks16(out) {
		if prngSeen[ch] {
			rt.Fatalf("16 random bytes delivered twice: %x", ch)
		}
		prngSeen[ch] = true
	}
}

func untouchedTail(rt *rapid.T, out []byte) {
	rt.Helper()
	// the whole buffer is filled: a run of 12 guard bytes inside has probability below 2^-90
	if n := len(out); n >= 12 {
		run := 0
		for _, b := range out {
			if b == 0xA5 || b == 0 {
				run++
			} else {
				run = 0
			}
			if run >= 12 {
				rt.Fatalf("part of the buffer was not filled: %x", out)
			}
		}
	}
}

func TestK02_History(t *testing.T) {
	vt.Check(t, 500, func(rt *rapid.T, c *vt.Case) {
		var gens []fcrcrypto.Random
		gens = append(gens, fcrcrypto.GetPublicPRNG(), fcrcrypto.GetPrivatePRNG())
		n := rapid.IntRange(1, 25).Draw(rt, "ops")
		reads := 0
		for i := 0; i < n; i++ {
			op := rapid.IntRange(0, 9).Draw(rt, "op")
			g := gens[rapid.IntRange(0, len(gens)-1).Draw(rt, "gen")]
			switch {
			case op < 2: // a new generator; the domain buffer has spare capacity full of guard bytes
				dom := rapid.SliceOfN(rapid.Byte(), 0, 12).Draw(rt, "domain")
				if rapid.Bool().Draw(rt, "samedomain") {
					dom = []byte("domain")
				}
				big := append(append([]byte{}, dom...), bytes.Repeat([]byte{0x5A}, 64)...)
				snap := append([]byte{}, big...)
				if rapid.IntRange(0, 9).Draw(rt, "private") == 0 {
					gens = append(gens, fcrcrypto.NewPrivatePRNG(big[:len(dom)]))
				} else {
					gens = append(gens, fcrcrypto.NewPRNG(big[:len(dom)]))
				}
				if !bytes.Equal(big, snap) {
					rt.Fatalf("creating a generator changed the caller's domain buffer")
				}
				c.Addf("new(%x)", dom)
			case op == 2:
				seed := rapid.SliceOfN(rapid.Byte(), 0, 40).Draw(rt, "seed")
				big := append(append([]byte{}, seed...), bytes.Repeat([]byte{0x5A}, 64)...)
				snap := append([]byte{}, big...)
				g.Reseed(big[:len(seed)])
				if !bytes.Equal(big, snap) {
					rt.Fatalf("reseeding changed the caller's seed buffer")
				}
				c.Addf("reseed(%x)", seed)
			case op == 3:
				g.QuickReseedKick()
				c.Addf("kick")
			case op == 4:
				fcrcrypto.PRNGEntropyKick()
				c.Addf("poolkick")
			default:
				l := readLen().Draw(rt, "len")
				out, bad := checkedRead(g, rapid.IntRange(0, 3).Draw(rt, "via"), l)
				if bad != "" {
					rt.Fatalf("%s (length %d)", bad, l)
				}
				untouchedTail(rt, out)
				record(rt, out)
				reads++
				c.Addf("read(%d)", l)
			}
		}
		if reads > 1 {
			c.NonTrivial("two or more reads")
		}
	})
}

func TestK02_Concurrent(t *testing.T) {
	vt.Check(t, 40, func(rt *rapid.T, c *vt.Case) {
		shared := fcrcrypto.NewPRNG([]byte("shared"))
		workers := rapid.IntRange(2, 8).Draw(rt, "workers")
		plans := make([][]int, workers)
		vias := make([][]int, workers)
		for w := range plans {
			k := rapid.IntRange(1, 15).Draw(rt, "reads")
			for i := 0; i < k; i++ {
				plans[w] = append(plans[w], readLen().Draw(rt, "len"))
				vias[w] = append(vias[w], rapid.IntRange(0, 5).Draw(rt, "via"))
			}
			c.Addf("worker%d=%v", w, plans[w])
		}
		c.NonTrivial("concurrent readers")
		outs := make([][][]byte, workers)
		bads := make([]string, workers)
		var fns []func()
		for w := range plans {
			w := w
			fns = append(fns, func() {
				for i, l := range plans[w] {
					switch vias[w][i] {
					case 4:
						shared.Reseed([]byte{byte(i), byte(w)})
					case 5:
						fcrcrypto.PRNGEntropyKick()
						if i == 0 {
							fcrcrypto.NewPrivatePRNG([]byte("d"))
						}
					}
					out, bad := checkedRead(shared, vias[w][i]%4, l)
					if bad != "" {
						bads[w] = bad
					}
					outs[w] = append(outs[w], out)
				}
			})
		}
		if f := vt.Parallel("concurrent PRNG reads", fns...); len(f) > 0 {
			rt.Fatalf("%s", f[0])
		}
		for w := range outs {
			if bads[w] != "" {
				rt.Fatalf("%s", bads[w])
			}
			for _, o := range outs[w] {
				untouchedTail(rt, o)
				record(rt, o)
			}
		}
	})
}
