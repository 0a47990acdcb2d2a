package nodes

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

// A running node logs to the configured place, at the configured level, under its service's name.
func TestL01_Nodes(t *testing.T) {
	levels := []string{"trace", "debug", "info", "warn", "error", "fatal", "panic"}
	vt.Check(t, 3, func(rt *rapid.T, c *vt.Case) {
		kind := rapid.SampledFrom([]string{"gateway", "provider"}).Draw(rt, "kind")
		min := rapid.IntRange(0, 5).Draw(rt, "level")
		text := "none"
		if min < 5 {
			text = levels[min]
		} else {
			min = len(levels)
		}
		if rapid.Bool().Draw(rt, "upper") {
			text = strings.ToUpper(text)
		}
		service := fmt.Sprintf("node-%x", freshID(rt, "service"))
		env := []string{"LOG_LEVEL=" + text, "LOG_SERVICE_NAME=" + service, "LOG_TIME_FORMAT=" + rapid.SampledFrom([]string{"RFC3339", "Unix"}).Draw(rt, "time")}
		file := rapid.Bool().Draw(rt, "to a file")
		if file {
			env = append(env, "LOG_TARGET=FILE", "LOG_DIR=logs/of", "LOG_FILE=node.log")
		}
		reg := vtreg.New()
		defer reg.Close()
		n := vtnode.Start(kind, reg, vtnode.Config{Env: env})
		defer n.Stop()
		n.Raw(rt, n.Client, []byte("{\"message_type\":77}")) // gives a warning
		n.Raw(rt, n.Admin, []byte("nothing"))
		lines := func() (r []string) {
			s := n.Output()
			if file {
				b, _ := os.ReadFile(filepath.Join(n.Dir(), "logs/of/node.log"))
				for _, l := range strings.Split(s, "\n") {
					if strings.Contains(l, `"service":"`+service+`"`) {
						rt.Fatalf("with a log file, %.200q is on standard output", l)
					}
				}
				s = string(b)
			}
			for _, l := range strings.Split(s, "\n") {
				if strings.HasPrefix(l, "{") && strings.Contains(l, `"level"`) {
					r = append(r, l)
				}
			}
			return
		}
		ls := lines()
		for start := time.Now(); len(ls) == 0 && min <= 2 && time.Since(start) < 20*time.Second; ls = lines() {
			time.Sleep(5 * time.Millisecond)
		}
		if len(ls) == 0 && min <= 2 {
			rt.Fatalf("the %s's log of level %q is empty after it started", kind, text)
		}
		own := 0
		for _, l := range ls {
			var e struct{ Level, Service string }
			if err := json.Unmarshal([]byte(l), &e); err != nil {
				rt.Fatalf("the log line %.300q: %v", l, err)
			}
			at := -1
			for i, k := range levels {
				if k == e.Level {
					at = i
				}
			}
			if e.Service != service {
				continue // written before the configuration was read
			}
			own++
			if at < min {
				rt.Fatalf("the %s's log of level %q has %.300q", kind, text, l)
			}
		}
		if own == 0 && min <= 2 {
			rt.Fatalf("no entry of the %s's log is of the service %q: %.300q", kind, service, ls[0])
		}
		c.Addf("a %s at level %q, to a file: %v; %d entries", kind, text, file, len(ls))
		c.NonTrivial("running node")
	})
}
