package nodes

import (
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

// A running node looks at the register at the configured interval: not more often, and again and again.
func TestF01_Refresh(t *testing.T) {
	vt.Check(t, 2, func(rt *rapid.T, c *vt.Case) {
		kind := rapid.SampledFrom([]string{"gateway", "provider"}).Draw(rt, "kind")
		text, d, looks := "", time.Duration(0), 4
		if rapid.IntRange(0, 4).Draw(rt, "unusable") == 0 {
			text, d, looks = rapid.SampledFrom([]string{"-1s", "0", "10", "1x", "-200ms"}).Draw(rt, "interval"), 5*time.Second, 2
		} else {
			d = time.Duration(rapid.IntRange(150, 900).Draw(rt, "ms")) * time.Millisecond
			text = d.String()
		}
		reg := vtreg.New()
		defer reg.Close()
		cfg := vtnode.Config{Interval: text}
		where := rapid.SampledFrom([]string{"environment", "file", "both"}).Draw(rt, "given in")
		switch where {
		case "file":
			cfg.Interval, cfg.File = "-", "REGISTER_REFRESH_DURATION="+text+"\n"
		case "both": // the environment counts
			cfg.File = "REGISTER_REFRESH_DURATION=37s\n"
		}
		n := vtnode.Start(kind, reg, cfg)
		defer n.Stop()
		c.Addf("a %s with interval %q given in the %s", kind, text, where)
		start := time.Now()
		from := map[string]int{}
		of := []string{"gateway", "provider"}
		if kind == "provider" {
			of = of[:1] // a provider follows the gateways only
		}
		for _, k := range of {
			from[k] = reg.Count(k)
		}
		for _, k := range of {
			for reg.Count(k) < from[k]+looks {
				n.Alive(rt)
				if time.Since(start) > 30*time.Second {
					rt.Fatalf("%d looks at the %ss in 30 s, with an interval of %q, which stands for %v", reg.Count(k)-from[k], k, text, d)
				}
				time.Sleep(5 * time.Millisecond)
			}
			if e := time.Since(start); e < time.Duration(looks-1)*d {
				rt.Fatalf("%d looks at the %ss within %v, with an interval of %q, which stands for %v", reg.Count(k)-from[k], k, e, text, d)
			}
		}
		c.NonTrivial(kind)
	})
}
