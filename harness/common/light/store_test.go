package light

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcroffermgr"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

type stored struct {
	offer  *cidoffer.CIDOffer
	text   string
	digest [cidoffer.CIDOfferDigestSize]byte
	cids   [][]byte
	expiry int64
	start  int64
	ret    int64
}

func newStored(o *cidoffer.CIDOffer) *stored {
	b, err := json.Marshal(o)
	if err != nil {
		panic(err)
	}
	s := &stored{offer: o, text: string(b), digest: o.GetMessageDigest(), expiry: o.GetExpiry()}
	for _, c := range o.GetCIDs() {
		s.cids = append(s.cids, append([]byte{}, c.ToBytes()...))
	}
	return s
}

func (s *stored) has(b []byte) bool {
	for _, c := range s.cids {
		if bytes.Equal(c, b) {
			return true
		}
	}
	return false
}

func (s *stored) group() bool { return len(s.cids) > 1 }

func texts(os []cidoffer.CIDOffer) []string {
	var r []string
	for i := range os {
		b, _ := json.Marshal(&os[i])
		r = append(r, string(b))
	}
	sort.Strings(r)
	return r
}

func wantTexts(m []*stored, f func(*stored) bool) []string {
	var r []string
	for _, s := range m {
		if f(s) {
			r = append(r, s.text)
		}
	}
	sort.Strings(r)
	return r
}

func equalTexts(a, b []string) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// storePieces: a small pool, so that offers share pieces.
func storePieces(rt *rapid.T) [][]byte {
	return rapid.SliceOfNDistinct(vt.ID32(), 2, 8, func(b []byte) string { return string(b) }).Draw(rt, "pool")
}

func drawOffer(rt *rapid.T, pool [][]byte, expiry int64) *cidoffer.CIDOffer {
	n := rapid.SampledFrom([]int{1, 1, 2, 2, 3, len(pool)}).Draw(rt, "pieces")
	if n > len(pool) {
		n = len(pool)
	}
	perm := rapid.Permutation(pool).Draw(rt, "which")
	x := terms{provider: []byte{byte(rapid.IntRange(1, 3).Draw(rt, "prov"))}, cids: perm[:n], price: uint64(rapid.IntRange(0, 2).Draw(rt, "price")), expiry: expiry, qos: uint64(rapid.IntRange(0, 1).Draw(rt, "qos"))}
	o := x.offer(rt)
	o.SetSignature(fmt.Sprintf("sig-%x", o.GetMessageDigest())[:20])
	return o
}

func checkStore(rt *rapid.T, mgr *fcroffermgr.FCROfferMgr, m []*stored, pool [][]byte, now int64) {
	rt.Helper()
	live := func(s *stored) bool { return s.expiry > now }
	for _, p := range pool {
		c := vt.CID(p)
		type form struct {
			name string
			get  func() ([]cidoffer.CIDOffer, bool)
			sel  func(*stored) bool
		}
		for _, f := range []form{
			{"GetGroupOffers", func() ([]cidoffer.CIDOffer, bool) { return mgr.GetGroupOffers(c) }, func(s *stored) bool { return s.group() }},
			{"GetDHTOffers", func() ([]cidoffer.CIDOffer, bool) { return mgr.GetDHTOffers(c) }, func(s *stored) bool { return !s.group() }},
			{"GetOffers", func() ([]cidoffer.CIDOffer, bool) { return mgr.GetOffers(c) }, func(s *stored) bool { return true }},
		} {
			got, exists := f.get()
			want := wantTexts(m, func(s *stored) bool { return live(s) && s.has(p) && f.sel(s) })
			if g := texts(got); !equalTexts(g, want) {
				rt.Fatalf("%s(%x) returns %v, want %v", f.name, p, g, want)
			}
			if exists != (len(want) > 0) {
				rt.Fatalf("%s(%x) reports existence %v with %d offers", f.name, p, exists, len(want))
			}
		}
	}
	for _, s := range m {
		o, ok := mgr.GetOfferByDigest(s.digest)
		if ok != live(s) {
			rt.Fatalf("GetOfferByDigest of an offer with expiry %d says %v at %d (%s)", s.expiry, ok, now, s.text)
		}
		if ok {
			if b, _ := json.Marshal(o); string(b) != s.text {
				rt.Fatalf("GetOfferByDigest returns %s, want %s", b, s.text)
			}
		}
	}
}

func checkStoreRange(rt *rapid.T, mgr *fcroffermgr.FCROfferMgr, m []*stored, a, b []byte, max int, now int64) int {
	rt.Helper()
	na, nb := new(big.Int).SetBytes(a), new(big.Int).SetBytes(b)
	inRange := func(s *stored) bool {
		return !s.group() && s.expiry > now && cw(na, new(big.Int).SetBytes(s.cids[0])).Cmp(cw(na, nb)) <= 0
	}
	got, exists := mgr.GetDHTOffersWithinRange(vt.CID(a), vt.CID(b), max)
	want := map[string]bool{}
	for _, t := range wantTexts(m, inRange) {
		want[t] = true
	}
	n := len(want)
	if max < n {
		n = max
	}
	if n < 0 {
		n = 0
	}
	if len(got) != n || exists != (n > 0) {
		rt.Fatalf("GetDHTOffersWithinRange(%x, %x, %d) returns %d offers (%v), want %d: %v", a, b, max, len(got), exists, n, texts(got))
	}
	for _, t := range texts(got) {
		if !want[t] {
			rt.Fatalf("GetDHTOffersWithinRange(%x, %x, %d) returns %s, which is not wanted or comes twice", a, b, max, t)
		}
		delete(want, t)
	}
	return n
}

func TestS01_History(t *testing.T) {
	vt.Check(t, 400, func(rt *rapid.T, c *vt.Case) {
		mgr := fcroffermgr.NewFCROfferMgr()
		pool := storePieces(rt)
		var m []*stored
		known := map[[cidoffer.CIDOfferDigestSize]byte]bool{}
		const far = int64(4102444800)
		now := time.Now().Unix()
		nq := 0
		for i := rapid.IntRange(1, 25).Draw(rt, "steps"); i > 0; i-- {
			switch op := rapid.SampledFrom([]string{"add", "add", "add", "add expired", "wrong set", "again", "query", "range", "unknown"}).Draw(rt, "op"); op {
			case "add", "add expired", "wrong set":
				exp := far + int64(rapid.IntRange(0, 1).Draw(rt, "exp"))
				if op == "add expired" {
					exp = vt.PastExpiry().Draw(rt, "past")
				}
				o := drawOffer(rt, pool, exp)
				s := newStored(o)
				group := s.group() != (op == "wrong set")
				var err error
				if group {
					err = mgr.AddGroupOffer(o)
				} else {
					err = mgr.AddDHTOffer(o)
				}
				c.Addf("%s group=%v %s;", op, group, s.text)
				if op == "add" {
					if err != nil {
						rt.Fatalf("adding %s (group: %v): %v", s.text, group, err)
					}
					if !known[s.digest] {
						known[s.digest] = true
						m = append(m, s)
					}
				} else if op == "wrong set" && err == nil {
					rt.Fatalf("an offer of %d pieces is accepted (group: %v)", len(s.cids), group)
				}
				if b, _ := json.Marshal(o); string(b) != s.text {
					rt.Fatalf("adding changed the offer from %s to %s", s.text, b)
				}
			case "again":
				if len(m) == 0 {
					continue
				}
				s := m[rapid.IntRange(0, len(m)-1).Draw(rt, "which")]
				o := new(cidoffer.CIDOffer)
				if err := json.Unmarshal([]byte(s.text), o); err != nil {
					rt.Fatal(err)
				}
				var err error
				if s.group() {
					err = mgr.AddGroupOffer(o)
				} else {
					err = mgr.AddDHTOffer(o)
				}
				c.Addf("again %s;", s.text)
				if err != nil {
					rt.Fatalf("adding an offer again: %v", err)
				}
			case "query":
				c.Addf("query;")
				checkStore(rt, mgr, m, pool, now)
				nq++
			case "range":
				var ends [2][]byte
				for e := range ends {
					v := new(big.Int).SetBytes(rapid.SampledFrom(pool).Draw(rt, "end"))
					v.Add(v, big.NewInt(int64(rapid.IntRange(-1, 1).Draw(rt, "off"))))
					v.Mod(v, vt.Two256)
					if rapid.IntRange(0, 3).Draw(rt, "any") == 0 {
						v.SetBytes(vt.ID32().Draw(rt, "anyend"))
					}
					ends[e] = v.FillBytes(make([]byte, 32))
				}
				max := rapid.SampledFrom([]int{0, 1, 2, 3, 100}).Draw(rt, "max")
				n := checkStoreRange(rt, mgr, m, ends[0], ends[1], max, now)
				c.Addf("range(%x,%x,%d)=%d;", ends[0], ends[1], max, n)
				if n > 0 {
					c.Class("range with offers")
				}
			case "unknown":
				d := drawOffer(rt, pool, far+7).GetMessageDigest()
				if o, ok := mgr.GetOfferByDigest(d); ok || o != nil {
					rt.Fatalf("an unknown digest is found")
				}
				b := vt.ID32().Draw(rt, "nopiece")
				for _, p := range pool {
					if bytes.Equal(p, b) {
						b = nil
					}
				}
				if b != nil {
					if os, ok := mgr.GetOffers(vt.CID(b)); ok || len(os) > 0 {
						rt.Fatalf("offers for a piece never offered")
					}
				}
			}
		}
		checkStore(rt, mgr, m, pool, now)
		checkStoreRange(rt, mgr, m, make([]byte, 32), bytes.Repeat([]byte{255}, 32), 1000, now)
		groups, shared := 0, false
		for i, s := range m {
			if s.group() {
				groups++
			}
			for _, u := range m[:i] {
				for _, p := range s.cids {
					shared = shared || u.has(p)
				}
			}
		}
		if len(m) >= 2 && shared {
			c.NonTrivial("offers sharing a piece")
		} else if len(m) >= 2 {
			c.NonTrivial("several offers")
		}
	})
}

// Offers that expire while they are in the store: every case makes several stores, which then wait together.
func TestS01_Expiring(t *testing.T) {
	vt.Check(t, 4, func(rt *rapid.T, c *vt.Case) {
		type world struct {
			mgr  *fcroffermgr.FCROfferMgr
			pool [][]byte
			m    []*stored
			ask  int
			maxs []int
		}
		const far = int64(4102444800)
		// start early in a second, so that the additions are over before the next but one
		if d := time.Now().Nanosecond(); d > 300e6 {
			time.Sleep(time.Duration(1e9-d) + 10*time.Millisecond)
		}
		t0 := time.Now().Unix()
		var ws []*world
		for i := 0; i < 40; i++ {
			w := &world{mgr: fcroffermgr.NewFCROfferMgr(), pool: storePieces(rt), ask: rapid.IntRange(0, 2).Draw(rt, "ask")}
			w.maxs = rapid.Permutation([]int{0, 1, 2, 3, 5, 9}).Draw(rt, "maxima")
			spread := rapid.Bool().Draw(rt, "spread") // one offer per piece
			n := 8
			if spread {
				n = len(w.pool)
			}
			for k := rapid.IntRange(1, n).Draw(rt, "adds"); k > 0; k-- {
				exp := far
				if rapid.Bool().Draw(rt, "short") {
					exp = t0 + 2
				}
				from := w.pool
				if spread {
					from = w.pool[k-1 : k]
				}
				o := drawOffer(rt, from, exp)
				s := newStored(o)
				dup := false
				for _, u := range w.m {
					dup = dup || u.digest == s.digest
				}
				var err error
				if s.group() {
					err = w.mgr.AddGroupOffer(o)
				} else {
					err = w.mgr.AddDHTOffer(o)
				}
				if time.Now().Unix() >= t0+2 {
					vt.Skip("the additions took too long")
				}
				if err != nil {
					rt.Fatalf("adding %s: %v", s.text, err)
				}
				if !dup {
					w.m = append(w.m, s)
				}
				c.Addf("%d.%s;", i, s.text)
			}
			ws = append(ws, w)
		}
		for _, w := range ws {
			if w.ask == 1 && time.Now().Unix() < t0+1 {
				checkStore(rt, w.mgr, w.m, w.pool, t0)
			}
		}
		for time.Now().Unix() < t0+3 {
			time.Sleep(20 * time.Millisecond)
		}
		now := time.Now().Unix()
		vt.Within(vt.Hang, "asking for offers that have expired", func() {
			for _, w := range ws {
				if w.ask == 0 { // digests first, before look-ups can clean up
					for _, s := range w.m {
						if _, ok := w.mgr.GetOfferByDigest(s.digest); ok != (s.expiry > now) {
							rt.Fatalf("digest look-up of an offer expiring at %d says %v at %d", s.expiry, ok, now)
						}
					}
				} else if w.ask == 2 { // ranges first, of all pieces and from one to another
					for _, max := range w.maxs {
						checkStoreRange(rt, w.mgr, w.m, make([]byte, 32), bytes.Repeat([]byte{255}, 32), max, now)
						checkStoreRange(rt, w.mgr, w.m, w.pool[0], w.pool[1], max, now)
					}
				}
				checkStore(rt, w.mgr, w.m, w.pool, now)
				checkStore(rt, w.mgr, w.m, w.pool, now)
				for _, max := range w.maxs {
					checkStoreRange(rt, w.mgr, w.m, w.pool[1], w.pool[0], max, now)
				}
				checkStoreRange(rt, w.mgr, w.m, make([]byte, 32), bytes.Repeat([]byte{255}, 32), 1000, now)
			}
		})
		c.NonTrivial("stores with offers that expire")
	})
}

type storeOp struct {
	kind  string
	o     *stored
	piece []byte
	b     []byte
}

func TestS02_Store(t *testing.T) {
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		mgr := fcroffermgr.NewFCROfferMgr()
		pool := storePieces(rt)
		threads := rapid.IntRange(2, 8).Draw(rt, "threads")
		var offers []*stored
		seen := map[[cidoffer.CIDOfferDigestSize]byte]*stored{}
		plans := make([][]storeOp, threads)
		adds, queries := 0, 0
		for i := range plans {
			for k := rapid.IntRange(2, 14).Draw(rt, "ops"); k > 0; k-- {
				op := storeOp{kind: rapid.SampledFrom([]string{"add", "add", "add", "re-add", "piece", "piece", "digest", "range"}).Draw(rt, "op")}
				switch op.kind {
				case "add":
					op.o = newStored(drawOffer(rt, pool, 4102444800+int64(rapid.IntRange(0, 3).Draw(rt, "exp"))))
					if s := seen[op.o.digest]; s != nil { // the same offer, added by two threads
						op.o = &stored{offer: op.o.offer, text: s.text, digest: s.digest, cids: s.cids, expiry: s.expiry}
					} else {
						seen[op.o.digest] = op.o
					}
					offers = append(offers, op.o)
					adds++
				case "re-add":
					if len(offers) == 0 {
						continue
					}
					s := offers[rapid.IntRange(0, len(offers)-1).Draw(rt, "again")]
					op.kind = "add"
					o := new(cidoffer.CIDOffer)
					if err := json.Unmarshal([]byte(s.text), o); err != nil {
						rt.Fatal(err)
					}
					op.o = &stored{offer: o, text: s.text, digest: s.digest, cids: s.cids, expiry: s.expiry}
					offers = append(offers, op.o)
				case "piece":
					op.piece = rapid.SampledFrom(pool).Draw(rt, "piece")
					queries++
				case "digest":
					if len(offers) == 0 {
						continue
					}
					op.o = offers[rapid.IntRange(0, len(offers)-1).Draw(rt, "digest")]
					queries++
				case "range":
					op.piece = rapid.SampledFrom(pool).Draw(rt, "from")
					op.b = rapid.SampledFrom(pool).Draw(rt, "to")
					queries++
				}
				plans[i] = append(plans[i], op)
				c.Addf("%d:%s", i, op.kind)
				if op.o != nil {
					c.Addf("%x", op.o.digest[:3])
				}
				c.Addf("%x%x", op.piece, op.b)
			}
		}
		if adds > 1 && queries > 0 {
			c.NonTrivial(fmt.Sprintf("%d threads", threads))
		}
		var clock int64
		type result struct {
			op         storeOp
			start, end int64
			got        []string
		}
		var rmu sync.Mutex
		var results []result
		var fails []string
		fns := make([]func(), threads)
		for i := range plans {
			plan := plans[i]
			fns[i] = func() {
				for _, op := range plan {
					switch op.kind {
					case "add":
						atomic.StoreInt64(&op.o.start, atomic.AddInt64(&clock, 1))
						var err error
						if op.o.group() {
							err = mgr.AddGroupOffer(op.o.offer)
						} else {
							err = mgr.AddDHTOffer(op.o.offer)
						}
						atomic.StoreInt64(&op.o.ret, atomic.AddInt64(&clock, 1))
						if err != nil {
							rmu.Lock()
							fails = append(fails, fmt.Sprintf("adding %s: %v", op.o.text, err))
							rmu.Unlock()
						}
					default:
						r := result{op: op, start: atomic.AddInt64(&clock, 1)}
						var os []cidoffer.CIDOffer
						switch op.kind {
						case "piece":
							os, _ = mgr.GetOffers(vt.CID(op.piece))
							for i := range os { // what a handler does with them
								if s, err := os[i].GenerateSubCIDOffer(vt.CID(op.piece)); err != nil || s.VerifyMerkleProof() != nil {
									rmu.Lock()
									fails = append(fails, fmt.Sprintf("sub-offer of a stored offer: %v", err))
									rmu.Unlock()
								}
							}
						case "digest":
							if o, ok := mgr.GetOfferByDigest(op.o.digest); ok {
								os = append(os, *o)
							}
						case "range":
							os, _ = mgr.GetDHTOffersWithinRange(vt.CID(op.piece), vt.CID(op.b), 10000)
						}
						r.end = atomic.AddInt64(&clock, 1)
						r.got = texts(os)
						rmu.Lock()
						results = append(results, r)
						rmu.Unlock()
					}
				}
			}
		}
		fails = append(vt.Parallel("concurrent use of the offer store", fns...), fails...)
		if len(fails) > 0 {
			rt.Fatalf("%s", fails[0])
		}
		for _, r := range results {
			matches := func(s *stored) bool {
				switch r.op.kind {
				case "piece":
					return s.has(r.op.piece)
				case "digest":
					return s.digest == r.op.o.digest
				}
				na := new(big.Int).SetBytes(r.op.piece)
				return !s.group() && cw(na, new(big.Int).SetBytes(s.cids[0])).Cmp(cw(na, new(big.Int).SetBytes(r.op.b))) <= 0
			}
			may, must := map[string]bool{}, map[string]bool{}
			for _, s := range offers {
				if matches(s) && s.start < r.end {
					may[s.text] = true
				}
				if matches(s) && s.ret < r.start {
					must[s.text] = true
				}
			}
			for _, g := range r.got {
				if !may[g] {
					rt.Fatalf("a %s query returned %s, which was not added, is incomplete or comes twice", r.op.kind, g)
				}
				delete(may, g)
				delete(must, g)
			}
			for s := range must {
				rt.Fatalf("a %s query missed %s, whose addition had returned", r.op.kind, s)
			}
		}
		var final []*stored
		done := map[[cidoffer.CIDOfferDigestSize]byte]bool{}
		for _, s := range offers {
			if !done[s.digest] {
				done[s.digest] = true
				final = append(final, s)
			}
		}
		checkStore(rt, mgr, final, pool, time.Now().Unix())
		checkStoreRange(rt, mgr, final, make([]byte, 32), bytes.Repeat([]byte{255}, 32), 10000, time.Now().Unix())
	})
}

var _ = hex.EncodeToString

// Stores used by several threads while some of their offers expire: what lasts stays, what has expired is gone, and
// nothing blocks. Every case has many stores, so that their offers expire together.
func TestS02_Expiring(t *testing.T) {
	vt.Check(t, 4, func(rt *rapid.T, c *vt.Case) {
		const far = int64(4102444800)
		type world struct {
			mgr  *fcroffermgr.FCROfferMgr
			pool [][]byte
			m    []*stored // there from the start
		}
		t0 := time.Now().Unix()
		end := time.Unix(t0+3, 200e6)
		var fns []func()
		var fmu sync.Mutex
		var fails []string
		fail := func(format string, a ...interface{}) {
			fmu.Lock()
			fails = append(fails, fmt.Sprintf(format, a...))
			fmu.Unlock()
		}
		add := func(mgr *fcroffermgr.FCROfferMgr, s *stored) error {
			if s.group() {
				return mgr.AddGroupOffer(s.offer)
			}
			return mgr.AddDHTOffer(s.offer)
		}
		for i := 0; i < 24; i++ {
			w := &world{mgr: fcroffermgr.NewFCROfferMgr(), pool: storePieces(rt)}
			known := map[[cidoffer.CIDOfferDigestSize]byte]bool{}
			for k := rapid.IntRange(1, 6).Draw(rt, "adds"); k > 0; k-- {
				exp := far
				if rapid.Bool().Draw(rt, "short") {
					exp = t0 + int64(rapid.IntRange(2, 3).Draw(rt, "seconds"))
				}
				s := newStored(drawOffer(rt, w.pool, exp))
				if known[s.digest] {
					continue
				}
				if err := add(w.mgr, s); err != nil {
					if exp != far && time.Now().Unix() >= exp {
						vt.Skip("the additions took too long")
					}
					rt.Fatalf("adding %s: %v", s.text, err)
				}
				known[s.digest] = true
				w.m = append(w.m, s)
				c.Addf("%d.%s;", i, s.text)
			}
			var later []*stored
			for k := rapid.IntRange(0, 3).Draw(rt, "later"); k > 0; k-- {
				s := newStored(drawOffer(rt, w.pool, far+1+int64(k)))
				if !known[s.digest] {
					known[s.digest] = true
					later = append(later, s)
				}
			}
			var clock int64
			for th := rapid.IntRange(1, 3).Draw(rt, "threads"); th > 0; th-- {
				ops := rapid.SliceOfN(rapid.IntRange(0, 1<<16), 4, 12).Draw(rt, "ops")
				fns = append(fns, func() {
					for k := 0; time.Now().Before(end); k++ {
						op := ops[k%len(ops)]
						piece := w.pool[(op/4)%len(w.pool)]
						at, start := time.Now().Unix(), atomic.AddInt64(&clock, 1)
						var got []cidoffer.CIDOffer
						var of *stored
						switch op % 4 {
						case 0, 1:
							got, _ = w.mgr.GetOffers(vt.CID(piece))
						case 2:
							of = w.m[(op/4)%len(w.m)]
							if o, ok := w.mgr.GetOfferByDigest(of.digest); ok {
								got = append(got, *o)
							}
						case 3:
							got, _ = w.mgr.GetDHTOffersWithinRange(vt.CID(make([]byte, 32)), vt.CID(bytes.Repeat([]byte{255}, 32)), 10000)
						}
						stop, done := atomic.AddInt64(&clock, 1), time.Now().Unix()
						have := map[string]int{}
						for _, g := range texts(got) {
							have[g]++
						}
						for _, s := range append(append([]*stored{}, w.m...), later...) {
							match := s.has(piece)
							if op%4 == 2 {
								match = s == of
							} else if op%4 == 3 {
								match = !s.group()
							}
							n := have[s.text]
							delete(have, s.text)
							from, ret := atomic.LoadInt64(&s.start), atomic.LoadInt64(&s.ret)
							there := s.expiry <= far || ret != 0 && ret < start
							switch {
							case n > 1:
								fail("%s comes %d times", s.text, n)
							case n == 1 && !match:
								fail("%s does not match the query", s.text)
							case n == 1 && s.expiry <= at:
								fail("%s was returned at %d", s.text, at)
							case n == 1 && s.expiry > far && (from == 0 || from > stop):
								fail("%s was returned before it was added", s.text)
							case n == 0 && match && there && s.expiry > done:
								fail("%s is missing from an answer at %d", s.text, done)
							}
						}
						for g := range have {
							fail("%s was never added", g)
						}
						time.Sleep(time.Duration(op%7) * 3 * time.Millisecond)
					}
				})
			}
			if len(later) > 0 {
				fns = append(fns, func() {
					for k, s := range later {
						time.Sleep(time.Until(time.Unix(t0+2+int64(k)/2, int64(k)*400e6)))
						atomic.StoreInt64(&s.start, atomic.AddInt64(&clock, 1))
						if err := add(w.mgr, s); err != nil {
							fail("adding %s: %v", s.text, err)
						}
						atomic.StoreInt64(&s.ret, atomic.AddInt64(&clock, 1))
					}
				})
			}
		}
		c.NonTrivial("offers expiring in use")
		fails = append(vt.Parallel("use of offer stores whose offers expire", fns...), fails...)
		if len(fails) > 0 {
			rt.Fatalf("%s", fails[0])
		}
	})
}
