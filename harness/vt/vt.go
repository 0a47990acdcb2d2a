// Package vt is the small library shared by all property harnesses: case
// counting, evidence output, hang guards and the wrapper around rapid.Check.
package vt

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"net"
	"os"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/logging"
	"pgregory.net/rapid"
)

// Case collects what one generated case was, for the evidence file.
type Case struct {
	name    string
	hash    uint64
	buf     []byte
	nt      bool
	classes map[string]int
}

// Addf appends to the case's description (used for distinctness and samples).
func (c *Case) Addf(format string, args ...interface{}) {
	if len(c.buf) < 1<<16 {
		c.buf = append(c.buf, fmt.Sprintf(format, args...)...)
		c.buf = append(c.buf, ' ')
	}
}

// NonTrivial marks the case as non-trivial and labels it.
func (c *Case) NonTrivial(class string) { c.nt = true; c.classes[class]++ }

// Class labels the case without making it non-trivial.
func (c *Case) Class(class string) { c.classes[class]++ }

type testStats struct {
	Evaluations int            `json:"evaluations"`
	Nontrivial  int            `json:"nontrivial"`
	Distinct    []uint64       `json:"distinct"`
	Classes     map[string]int `json:"classes"`
	Samples     []string       `json:"samples"`
	seen        map[uint64]bool
}

var (
	mu    sync.Mutex
	stats = map[string]*testStats{}
)

func (c *Case) commit() {
	mu.Lock()
	defer mu.Unlock()
	s := stats[c.name]
	if s == nil {
		s = &testStats{Classes: map[string]int{}, seen: map[uint64]bool{}}
		stats[c.name] = s
	}
	s.Evaluations++
	for k, n := range c.classes {
		s.Classes[k] += n
	}
	if !c.nt {
		return
	}
	s.Nontrivial++
	h := fnv.New64a()
	h.Write([]byte(c.name))
	h.Write(c.buf)
	k := h.Sum64()
	if s.seen[k] {
		return
	}
	s.seen[k] = true
	s.Distinct = append(s.Distinct, k)
	d := len(s.Distinct)
	if d == 1 || d == 7 || d == 40 {
		b := c.buf
		if len(b) > 600 {
			b = append(append([]byte{}, b[:600]...), "..."...)
		}
		s.Samples = append(s.Samples, c.name+": "+string(b))
	}
}

// Scale is the case-count multiplier requested by the runner.
func Scale() float64 {
	if v, err := strconv.ParseFloat(os.Getenv("VERIF_SCALE"), 64); err == nil && v > 0 {
		return v
	}
	return 1
}

// Thorough reports whether the thorough tier is running.
func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Check runs prop over n*scale generated cases.
func Check(t *testing.T, n int, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	CheckN(t, int(float64(n)*Scale()+0.5), prop)
}

// CheckN runs prop over exactly n generated cases.
func CheckN(t *testing.T, n int, prop func(rt *rapid.T, c *Case)) {
	t.Helper()
	if n < 1 {
		n = 1
	}
	flag.Set("rapid.checks", strconv.Itoa(n))
	name := t.Name()
	rapid.Check(t, func(rt *rapid.T) {
		c := &Case{name: name, classes: map[string]int{}}
		done := false
		dog := time.AfterFunc(caseLimit, func() {
			buf := make([]byte, 1<<20)
			n := runtime.Stack(buf, true)
			fmt.Printf("VERIF-HANG a case of %s did not finish within %v\n%s\n", name, caseLimit, buf[:n])
			os.Exit(3)
		})
		defer func() {
			dog.Stop()
			setCurrent(name, string(c.buf))
			if !done && !rt.Failed() {
				switch p := recover().(type) {
				case nil:
				case skipped:
					c.nt = false
					c.classes["skipped: "+p.why]++
				default:
					c.commit()
					panic(p)
				}
			}
			if rt.Failed() {
				falsified.Do(func() { fmt.Printf("\nVERIF-FALSIFIED %s: first failing case: %s\n", name, c.buf) })
			}
			c.commit()
		}()
		prop(rt, c)
		if Tapping() {
			time.Sleep(20 * time.Millisecond) // what nodes log arrives a little later
			if l := Leak(); l != "" {
				rt.Fatalf("%s", l)
			}
		}
		done = true
	})
}

// falsified guards the line telling the runner that the search has found something and is now minimising it.
var falsified sync.Once

// Skip ends the case, which counts as a trivial one. (Rapid's own Skip fails a test that skips too often.)
func Skip(why string) { panic(skipped{why}) }

type skipped struct{ why string }

var current struct {
	sync.Mutex
	name, desc string
}

func setCurrent(name, desc string) {
	current.Lock()
	current.name, current.desc = name, desc
	current.Unlock()
}

// caseLimit is the time after which a whole case is said to hang; the slowest ones take some seconds.
const caseLimit = 400 * time.Second

// Hang is the default time after which a call that must end is said to hang.
const Hang = 90 * time.Second

// Within runs fn and reports a hang (a violation of "always completes") if it has not returned
// after d. Panics, including rapid's own, are passed on to the caller.
func Within(d time.Duration, what string, fn func()) {
	type outcome struct {
		p    interface{}
		bad  bool
		tb   string
		exit bool
	}
	ch := make(chan outcome, 1)
	go func() {
		done := false
		defer func() {
			if done {
				ch <- outcome{}
				return
			}
			p := recover()
			if p == nil {
				ch <- outcome{exit: true}
				return
			}
			buf := make([]byte, 1<<14)
			ch <- outcome{p: p, bad: true, tb: string(buf[:runtime.Stack(buf, false)])}
		}()
		fn()
		done = true
	}()
	timer := time.NewTimer(d)
	defer timer.Stop()
	select {
	case o := <-ch:
		if o.bad {
			if e, ok := o.p.(runtime.Error); ok {
				panic(fmt.Sprintf("%v (in %s)\n%s", e, what, o.tb))
			}
			panic(o.p)
		}
		if o.exit {
			runtime.Goexit()
		}
	case <-timer.C:
		buf := make([]byte, 1<<20)
		n := runtime.Stack(buf, true)
		fmt.Printf("VERIF-HANG %s did not finish within %v\n%s\n", what, d, buf[:n])
		os.Exit(3)
	}
}

// Parallel runs the given functions concurrently (released together) and waits for all, with hang
// detection. Panics inside them are returned as text.
func Parallel(what string, fns ...func()) []string {
	var (
		wg    sync.WaitGroup
		pmu   sync.Mutex
		fails []string
	)
	start := make(chan struct{})
	for _, f := range fns {
		f := f
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if p := recover(); p != nil {
					buf := make([]byte, 1<<13)
					pmu.Lock()
					fails = append(fails, fmt.Sprintf("panic in %s: %v\n%s", what, p, buf[:runtime.Stack(buf, false)]))
					pmu.Unlock()
				}
			}()
			<-start
			f()
		}()
	}
	close(start)
	Within(Hang, what, wg.Wait)
	return fails
}

// NoPanic runs fn and returns a description of the panic it raised, if any.
func NoPanic(fn func()) (msg string) {
	defer func() {
		if p := recover(); p != nil {
			if _, skip := p.(skipped); skip || strings.HasPrefix(fmt.Sprintf("%T", p), "rapid.") {
				panic(p) // rapid's own control flow
			}
			buf := make([]byte, 1<<13)
			msg = fmt.Sprintf("panic: %v\n%s", p, buf[:runtime.Stack(buf, false)])
		}
	}()
	fn()
	return ""
}

// Main is to be called from TestMain.
func Main(m *testing.M) {
	logging.Init1("disabled", "STDOUT", "verif")
	flag.Parse()
	code := m.Run()
	if p := os.Getenv("VERIF_STATS"); p != "" {
		b, _ := json.Marshal(stats)
		if err := os.WriteFile(p, b, 0o644); err != nil {
			fmt.Println("cannot write stats:", err)
			os.Exit(4)
		}
	}
	os.Exit(code)
}

var findings sync.Map

// Finding reports that a listed defect shows (the runner decides whether it is listed).
func Finding(key string) {
	if _, dup := findings.LoadOrStore(key, true); !dup {
		fmt.Printf("\nVERIF-FINDING %s\n", key)
	}
}

var ports struct {
	sync.Mutex
	next  int
	guard []net.PacketConn
}

// Port returns a TCP port on which nothing listens. The UDP port of the same number is held for the life of the
// process, so that harness processes running side by side never choose the same one.
func Port() string {
	ports.Lock()
	defer ports.Unlock()
	if ports.next == 0 {
		ports.next = 10000 + (os.Getpid()*131)%20000
	}
	for i := 0; i < 40000; i++ {
		p := ports.next
		if ports.next++; ports.next >= 32000 {
			ports.next = 10000
		}
		g, err := net.ListenPacket("udp", ":"+strconv.Itoa(p))
		if err != nil {
			continue
		}
		l, err := net.Listen("tcp", ":"+strconv.Itoa(p))
		if err != nil {
			g.Close()
			continue
		}
		l.Close()
		ports.guard = append(ports.guard, g)
		return strconv.Itoa(p)
	}
	Infra("no free port")
	return ""
}

// Infra ends the run because the harness itself cannot work (never counted as a violation).
func Infra(format string, args ...interface{}) {
	fmt.Printf("\nVERIF-INFRA "+format+"\n", args...)
	os.Exit(4)
}
