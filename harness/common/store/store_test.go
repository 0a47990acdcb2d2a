// Package store checks the persistent offer store. Every case runs the store in child processes of its own, so that
// re-opening, time zones and crashes are real.
package store

import (
	"bufio"
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/offermgr"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

// op is one operation of a script; the child answers with one result line each.
type op struct {
	Kind  string // add, piece, digest, range, wait, par
	Offer string `json:",omitempty"`
	A, B  string `json:",omitempty"`
	Max   int    `json:",omitempty"`
	Par   [][]op `json:",omitempty"`
}

type result struct {
	Offers []string
	Found  bool
	Err    string
	Ver    []bool
	Par    [][]result
	Now    [2]int64
	Panic  string
}

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_STORE_CHILD") != "" {
		child()
		return
	}
	vt.Main(m)
}

func child() {
	mgr := offermgr.NewFCROfferMgr()
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	out := bufio.NewWriter(os.Stdout)
	for {
		line, err := in.ReadBytes('\n')
		if err != nil {
			return
		}
		var o op
		if err := json.Unmarshal(line, &o); err != nil {
			fmt.Println("VERIF-INFRA", err)
			os.Exit(4)
		}
		if o.Kind == "reopen" { // a second store in the same process
			mgr = offermgr.NewFCROfferMgr()
			continue
		}
		b, _ := json.Marshal(run(mgr, o))
		out.Write(append(b, '\n'))
		out.Flush()
	}
}

func run(mgr *offermgr.FCROfferMgr, o op) (r result) {
	r.Now[0] = time.Now().Unix()
	defer func() { r.Now[1] = time.Now().Unix() }()
	defer func() {
		if p := recover(); p != nil {
			r.Panic = fmt.Sprint(p)
		}
	}()
	id := func(s string) *cid.ContentID {
		b, _ := hex.DecodeString(s)
		return vt.CID(b)
	}
	var os []cidoffer.CIDOffer
	switch o.Kind {
	case "add":
		of := new(cidoffer.CIDOffer)
		if err := json.Unmarshal([]byte(o.Offer), of); err != nil {
			r.Err = err.Error()
			return
		}
		var err error
		if len(of.GetCIDs()) > 1 {
			err = mgr.AddGroupOffer(of)
		} else {
			err = mgr.AddDHTOffer(of)
		}
		if err != nil {
			r.Err = err.Error()
		}
		return
	case "piece":
		os, r.Found = mgr.GetOffers(id(o.A))
	case "digest":
		b, _ := hex.DecodeString(o.A)
		var d [cidoffer.CIDOfferDigestSize]byte
		copy(d[:], b)
		of, ok := mgr.GetOfferByDigest(d)
		r.Found = ok
		if ok {
			os = append(os, *of)
		}
	case "range":
		os, r.Found = mgr.GetDHTOffersWithinRange(id(o.A), id(o.B), o.Max)
	case "wait":
		time.Sleep(time.Duration(o.Max) * time.Millisecond)
	case "par":
		r.Par = make([][]result, len(o.Par))
		var wg sync.WaitGroup
		for i := range o.Par {
			i := i
			wg.Add(1)
			go func() {
				defer wg.Done()
				for _, x := range o.Par[i] {
					r.Par[i] = append(r.Par[i], run(mgr, x))
				}
			}()
		}
		wg.Wait()
	}
	pub := vt.Pub(vt.Key(1))
	for i := range os {
		b, _ := json.Marshal(&os[i])
		r.Offers = append(r.Offers, string(b))
		r.Ver = append(r.Ver, os[i].Verify(pub) == nil)
	}
	return
}

type proc struct {
	cmd *exec.Cmd
	in  *bufio.Writer
	inc interface{ Close() error }
	out *bufio.Reader
	err bytes.Buffer
}

var zones = []string{"UTC", "XXX-14", "XXX+12", "XXX-5:30", "XXX+3", "XXX-1", "XXX+8"}

func start(rt *rapid.T, dir, tz string) *proc {
	p := &proc{cmd: exec.Command(os.Args[0], "-test.run", "^$")}
	p.cmd.Dir = dir
	for _, e := range os.Environ() {
		if !strings.HasPrefix(e, "TZ=") && !strings.HasPrefix(e, "DOCKER_NAME=") {
			p.cmd.Env = append(p.cmd.Env, e)
		}
	}
	p.cmd.Env = append(p.cmd.Env, "VERIF_STORE_CHILD=1", "TZ="+tz, "DOCKER_NAME=verif")
	p.cmd.Stderr = &p.err
	w, err := p.cmd.StdinPipe()
	if err != nil {
		infra(err)
	}
	r, err := p.cmd.StdoutPipe()
	if err != nil {
		infra(err)
	}
	p.in, p.inc, p.out = bufio.NewWriter(w), w, bufio.NewReaderSize(r, 1<<20)
	if err := p.cmd.Start(); err != nil {
		infra(err)
	}
	return p
}

func infra(err error) {
	fmt.Println("VERIF-INFRA", err)
	os.Exit(4)
}

func (p *proc) send(o op) {
	b, _ := json.Marshal(o)
	p.in.Write(append(b, '\n'))
	p.in.Flush()
}

func (p *proc) recv() (r result, ok bool) {
	var line []byte
	var err error
	vt.Within(vt.Hang, "an operation of the offer store", func() { line, err = p.out.ReadBytes('\n') })
	if err != nil {
		return r, false
	}
	return r, json.Unmarshal(line, &r) == nil
}

func (p *proc) do(rt *rapid.T, o op) result {
	p.send(o)
	r, ok := p.recv()
	if !ok {
		p.cmd.Process.Kill()
		p.cmd.Wait()
		rt.Fatalf("the process crashed on %s %s %s: %s", o.Kind, o.A, o.Offer, p.err.String())
	}
	check(rt, o, r)
	return r
}

func check(rt *rapid.T, o op, r result) {
	if r.Panic != "" {
		rt.Fatalf("%s %s%s panics: %s", o.Kind, o.A, o.Offer, r.Panic)
	}
}

func (p *proc) stop() {
	p.inc.Close()
	p.cmd.Wait()
}

type stored struct {
	text   string
	digest string
	cids   []string
	expiry int64
}

func (s *stored) has(x string) bool {
	for _, c := range s.cids {
		if c == x {
			return true
		}
	}
	return false
}

func drawOffer(rt *rapid.T, pool [][]byte, now int64, kind string) *stored {
	n := rapid.SampledFrom([]int{1, 1, 2, 2, 3, len(pool)}).Draw(rt, "pieces")
	if n > len(pool) {
		n = len(pool)
	}
	perm := rapid.Permutation(pool).Draw(rt, "which")[:n]
	if rapid.IntRange(0, 7).Draw(rt, "repeat") == 0 {
		perm = append(append([][]byte{}, perm...), perm[rapid.IntRange(0, len(perm)-1).Draw(rt, "repeated")])
	}
	var cids []cid.ContentID
	s := &stored{}
	for _, b := range perm {
		cids = append(cids, *vt.CID(b))
		s.cids = append(s.cids, hex.EncodeToString(b))
	}
	switch kind {
	case "past":
		s.expiry = rapid.OneOf(vt.PastExpiry(), rapid.Custom(func(t *rapid.T) int64 { return now - rapid.Int64Range(5, 15*3600).Draw(t, "ago") })).Draw(rt, "past")
	default:
		s.expiry = rapid.OneOf(vt.FarExpiry(), rapid.Custom(func(t *rapid.T) int64 { return now + rapid.Int64Range(3600, 15*3600).Draw(t, "ahead") }),
			rapid.SampledFrom([]int64{253402300799, 253402300800, 1 << 40})).Draw(rt, "future")
	}
	o, err := cidoffer.NewCIDOffer(vt.Node([]byte{byte(rapid.IntRange(0, 3).Draw(rt, "prov"))}), cids,
		rapid.OneOf(rapid.Uint64Range(0, 3), vt.Uint64()).Draw(rt, "price"), s.expiry, rapid.OneOf(rapid.Uint64Range(0, 1), vt.Uint64()).Draw(rt, "qos"))
	if err != nil {
		rt.Fatal(err)
	}
	if err := o.Sign(vt.Key(1), vt.Ver(1)); err != nil {
		rt.Fatal(err)
	}
	b, _ := json.Marshal(o)
	d := o.GetMessageDigest()
	s.text, s.digest = string(b), hex.EncodeToString(d[:])
	return s
}

func compare(rt *rapid.T, what string, r result, want []string, max int) {
	sort.Strings(want)
	got := append([]string{}, r.Offers...)
	sort.Strings(got)
	n := len(want)
	if max >= 0 && n > max {
		n = max
	}
	if len(got) != n || r.Found != (n > 0) {
		rt.Fatalf("%s returns %d offers (found: %v), want %d: %v, want among %v", what, len(got), r.Found, n, got, want)
	}
	left := map[string]int{}
	for _, w := range want {
		left[w]++
	}
	for _, g := range got {
		if left[g] == 0 {
			rt.Fatalf("%s returns %s, which is not wanted, altered or comes twice; want %v", what, g, want)
		}
		left[g]--
	}
	for i, v := range r.Ver {
		if !v {
			rt.Fatalf("%s returns an offer that does not verify: %s", what, r.Offers[i])
		}
	}
}

func num(s string) *big.Int { v, _ := new(big.Int).SetString(s, 16); return v }

func inRange(s *stored, a, b string) bool {
	na := num(a)
	length := new(big.Int).Mod(new(big.Int).Sub(num(b), na), vt.Two256)
	for _, c := range s.cids {
		d := new(big.Int).Mod(new(big.Int).Sub(num(c), na), vt.Two256)
		if d.Cmp(length) <= 0 {
			return true
		}
	}
	return false
}

func askAll(rt *rapid.T, p *proc, m []*stored, pool [][]byte) {
	live := func(s *stored, r result) bool {
		if s.expiry >= r.Now[0] && s.expiry <= r.Now[1] {
			vt.Skip("on the edge of an expiry")
		}
		return s.expiry > r.Now[1]
	}
	for _, b := range pool {
		c := hex.EncodeToString(b)
		r := p.do(rt, op{Kind: "piece", A: c})
		var want []string
		for _, s := range m {
			if s.has(c) && live(s, r) {
				want = append(want, s.text)
			}
		}
		compare(rt, "look-up of piece "+c, r, want, -1)
	}
	for _, s := range m {
		r := p.do(rt, op{Kind: "digest", A: s.digest})
		var want []string
		if live(s, r) {
			want = []string{s.text}
		}
		compare(rt, "look-up of digest "+s.digest, r, want, -1)
	}
}

func askRange(rt *rapid.T, p *proc, m []*stored, a, b string, max int) int {
	r := p.do(rt, op{Kind: "range", A: a, B: b, Max: max})
	var want []string
	for _, s := range m {
		if s.expiry > r.Now[1] && inRange(s, a, b) {
			want = append(want, s.text)
		}
	}
	compare(rt, fmt.Sprintf("range %s-%s (at most %d)", a, b, max), r, want, max)
	return len(r.Offers)
}

func scratch(rt *rapid.T) (string, func()) {
	dir, err := os.MkdirTemp("", "verif-store")
	if err != nil {
		infra(err)
	}
	return dir, func() { os.RemoveAll(dir) }
}

func pieces(rt *rapid.T) [][]byte {
	return rapid.SliceOfNDistinct(vt.ID32(), 2, 6, func(b []byte) string { return string(b) }).Draw(rt, "pool")
}

func add(m []*stored, s *stored) []*stored {
	for _, u := range m {
		if u.digest == s.digest {
			return m
		}
	}
	return append(m, s)
}

func TestS03_History(t *testing.T) {
	vt.Check(t, 40, func(rt *rapid.T, c *vt.Case) {
		dir, clean := scratch(rt)
		defer clean()
		pool := pieces(rt)
		var m []*stored
		now := time.Now().Unix()
		runs := rapid.IntRange(1, 3).Draw(rt, "runs")
		ranges := 0
		for k := 0; k < runs; k++ {
			tz := rapid.SampledFrom(zones).Draw(rt, "zone")
			c.Addf("run in %s:", tz)
			func() {
				p := start(rt, dir, tz)
				defer p.stop()
				if k > 0 {
					askAll(rt, p, m, pool)
				}
				for i := rapid.IntRange(1, 14).Draw(rt, "steps"); i > 0; i-- {
					switch kind := rapid.SampledFrom([]string{"add", "add", "add", "add past", "again", "ask", "range", "range", "unknown", "reopen"}).Draw(rt, "op"); kind {
					case "add":
						s := drawOffer(rt, pool, now, "future")
						c.Addf("add %s;", s.text)
						if r := p.do(rt, op{Kind: "add", Offer: s.text}); r.Err != "" {
							rt.Fatalf("adding %s: %s", s.text, r.Err)
						}
						m = add(m, s)
					case "add past":
						s := drawOffer(rt, pool, now, "past")
						c.Addf("add %s;", s.text)
						p.do(rt, op{Kind: "add", Offer: s.text})
						m = add(m, s)
					case "again":
						if len(m) == 0 {
							continue
						}
						s := m[rapid.IntRange(0, len(m)-1).Draw(rt, "which")]
						c.Addf("again;")
						if r := p.do(rt, op{Kind: "add", Offer: s.text}); r.Err != "" && s.expiry > now {
							rt.Fatalf("adding %s again: %s", s.text, r.Err)
						}
					case "ask":
						c.Addf("ask;")
						askAll(rt, p, m, pool)
					case "range":
						var e [2]string
						for i := range e {
							v := new(big.Int).SetBytes(rapid.SampledFrom(pool).Draw(rt, "end"))
							v.Add(v, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(rt, "off"))))
							v.Mod(v, vt.Two256)
							if rapid.IntRange(0, 3).Draw(rt, "any") == 0 {
								v.SetBytes(vt.ID32().Draw(rt, "anyend"))
							}
							e[i] = fmt.Sprintf("%064x", v)
						}
						max := rapid.SampledFrom([]int{0, 1, 2, 3, 100}).Draw(rt, "max")
						n := askRange(rt, p, m, e[0], e[1], max)
						c.Addf("range(%s,%s,%d)=%d;", e[0], e[1], max, n)
						ranges += n
					case "unknown":
						s := drawOffer(rt, pool, now, "future")
						isNew := len(add(m, s)) > len(m)
						if isNew {
							compare(rt, "look-up of an unknown digest", p.do(rt, op{Kind: "digest", A: s.digest}), nil, -1)
						}
						b := vt.ID32().Draw(rt, "nopiece")
						for _, q := range pool {
							if bytes.Equal(b, q) {
								b = nil
							}
						}
						if b != nil {
							compare(rt, "look-up of an unknown piece", p.do(rt, op{Kind: "piece", A: hex.EncodeToString(b)}), nil, -1)
						}
					case "reopen":
						c.Addf("reopen;")
						p.send(op{Kind: "reopen"})
					}
				}
				askAll(rt, p, m, pool)
				askRange(rt, p, m, strings.Repeat("0", 64), strings.Repeat("f", 64), 1000)
			}()
		}
		if len(m) > 1 {
			c.NonTrivial(fmt.Sprintf("%d process lifetimes", runs))
		}
		if ranges > 0 {
			c.Class("range queries with offers")
		}
	})
}

// The process is killed while it adds offers; what it had acknowledged is there, whole, and nothing is there in part.
func TestS03_Crash(t *testing.T) {
	vt.Check(t, 16, func(rt *rapid.T, c *vt.Case) {
		dir, clean := scratch(rt)
		defer clean()
		pool := pieces(rt)
		now := time.Now().Unix()
		var acked, all []*stored
		for k := rapid.IntRange(1, 2).Draw(rt, "crashes"); k > 0; k-- {
			p := start(rt, dir, "UTC")
			n := rapid.IntRange(2, 12).Draw(rt, "adds")
			kill := rapid.IntRange(0, n-1).Draw(rt, "kill after")
			delay := rapid.IntRange(0, 3000).Draw(rt, "microseconds")
			var batch []*stored
			for i := 0; i < n; i++ {
				s := drawOffer(rt, pool, now, "future")
				c.Addf("%s;", s.text)
				batch = append(batch, s)
				all = add(all, s)
			}
			c.Addf("kill after %d+%dus;", kill, delay)
			for _, s := range batch {
				p.send(op{Kind: "add", Offer: s.text})
			}
			for i := 0; i < kill; i++ {
				if _, ok := p.recv(); !ok {
					p.cmd.Process.Kill()
					p.cmd.Wait()
					rt.Fatalf("the process crashed while adding: %s", p.err.String())
				}
				acked = add(acked, batch[i])
			}
			time.Sleep(time.Duration(delay) * time.Microsecond)
			p.cmd.Process.Kill()
			for i := kill; ; i++ { // what was acknowledged before the end
				r, ok := p.recv()
				if !ok {
					break
				}
				check(rt, op{Kind: "add"}, r)
				if r.Err == "" {
					acked = add(acked, batch[i])
				}
			}
			p.cmd.Wait()
		}
		p := start(rt, dir, "UTC")
		defer p.stop()
		var m []*stored
		for _, s := range all {
			r := p.do(rt, op{Kind: "digest", A: s.digest})
			if r.Found {
				m = append(m, s)
			} else if len(add(acked, s)) == len(acked) {
				rt.Fatalf("an acknowledged offer is gone after a crash: %s", s.text)
			}
		}
		askAll(rt, p, m, pool)
		askRange(rt, p, m, strings.Repeat("0", 64), strings.Repeat("f", 64), 1000)
		// adding everything again completes it
		for _, s := range all {
			if r := p.do(rt, op{Kind: "add", Offer: s.text}); r.Err != "" {
				rt.Fatalf("adding %s after a crash: %s", s.text, r.Err)
			}
		}
		askAll(rt, p, all, pool)
		c.NonTrivial("killed while adding")
	})
}

// Several threads of one process add and ask.
func TestS03_Concurrent(t *testing.T) {
	vt.Check(t, 12, func(rt *rapid.T, c *vt.Case) {
		dir, clean := scratch(rt)
		defer clean()
		pool := pieces(rt)
		now := time.Now().Unix()
		p := start(rt, dir, rapid.SampledFrom(zones).Draw(rt, "zone"))
		defer p.stop()
		par := op{Kind: "par"}
		var all []*stored
		for i := rapid.IntRange(2, 6).Draw(rt, "threads"); i > 0; i-- {
			var l []op
			for k := rapid.IntRange(1, 6).Draw(rt, "ops"); k > 0; k-- {
				switch rapid.IntRange(0, 3).Draw(rt, "kind") {
				case 0, 1:
					s := drawOffer(rt, pool, now, "future")
					all = add(all, s)
					l = append(l, op{Kind: "add", Offer: s.text})
				case 2:
					l = append(l, op{Kind: "piece", A: hex.EncodeToString(rapid.SampledFrom(pool).Draw(rt, "piece"))})
				case 3:
					if len(all) > 0 {
						l = append(l, op{Kind: "digest", A: rapid.SampledFrom(all).Draw(rt, "digest").digest})
					}
				}
			}
			par.Par = append(par.Par, l)
		}
		b, _ := json.Marshal(par)
		c.Addf("%s", b)
		r := p.do(rt, par)
		texts := map[string]bool{}
		for _, s := range all {
			texts[s.text] = true
		}
		for i := range r.Par {
			for j, x := range r.Par[i] {
				o := par.Par[i][j]
				check(rt, o, x)
				if o.Kind == "add" && x.Err != "" {
					rt.Fatalf("adding %s among %d threads: %s", o.Offer, len(par.Par), x.Err)
				}
				seen := map[string]bool{}
				for k, got := range x.Offers {
					if !texts[got] || !x.Ver[k] || seen[got] {
						rt.Fatalf("a %s query returned %s, which was never added, is incomplete or comes twice", o.Kind, got)
					}
					seen[got] = true
				}
			}
		}
		askAll(rt, p, all, pool)
		if len(all) > 1 {
			c.NonTrivial(fmt.Sprintf("%d threads", len(par.Par)))
		}
	})
}

// Offers that expire while they are stored.
func TestS03_Expiring(t *testing.T) {
	vt.Check(t, 1, func(rt *rapid.T, c *vt.Case) {
		dir, clean := scratch(rt)
		defer clean()
		pool := pieces(rt)
		p := start(rt, dir, rapid.SampledFrom(zones).Draw(rt, "zone"))
		defer p.stop()
		var m []*stored
		for i := 0; i < 12; i++ {
			s := drawOffer(rt, pool, time.Now().Unix(), "future")
			if i%2 == 0 {
				o := new(cidoffer.CIDOffer)
				json.Unmarshal([]byte(s.text), o)
				o2, err := cidoffer.NewCIDOffer(o.GetProviderID(), o.GetCIDs(), o.GetPrice(), time.Now().Unix()+3, o.GetQoS())
				if err != nil {
					rt.Fatal(err)
				}
				o2.Sign(vt.Key(1), vt.Ver(1))
				b, _ := json.Marshal(o2)
				d := o2.GetMessageDigest()
				s.text, s.digest, s.expiry = string(b), hex.EncodeToString(d[:]), o2.GetExpiry()
			}
			if r := p.do(rt, op{Kind: "add", Offer: s.text}); r.Err != "" {
				rt.Fatalf("adding %s: %s", s.text, r.Err)
			}
			c.Addf("%s;", s.text)
			m = add(m, s)
		}
		p.do(rt, op{Kind: "wait", Max: 5000})
		askAll(rt, p, m, pool)
		askRange(rt, p, m, strings.Repeat("0", 64), strings.Repeat("f", 64), 1000)
		c.NonTrivial("offers expiring in the store")
	})
}
