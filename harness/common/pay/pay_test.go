// Package pay checks the payment manager against a stand-in Lotus node.
package pay

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/big"
	"sort"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtpay"
	"github.com/filecoin-project/go-address"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/chain/actors/builtin/paych"
	"github.com/filecoin-project/lotus/chain/types"
	"github.com/filecoin-project/lotus/lib/sigs"
	paych4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/paych"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

func mgr(rt *rapid.T, w *vtpay.Wallet, l *vtpay.Lotus) *fcrpaymentmgr.FCRPaymentMgr {
	m, err := fcrpaymentmgr.NewFCRPaymentMgr(w.Priv, l.URL(), "token")
	if err != nil {
		rt.Fatalf("payment manager: %v", err)
	}
	return m
}

func amount(max int64) *rapid.Generator[*big.Int] {
	return rapid.Custom(func(t *rapid.T) *big.Int {
		v := big.NewInt(rapid.Int64Range(1, max).Draw(t, "amount"))
		switch rapid.IntRange(0, 3).Draw(t, "magnitude") {
		case 0:
			v.Mul(v, big.NewInt(1e18))
		case 1:
			v.Lsh(v, 64)
		}
		return v
	})
}

// given remembers the amounts handed to the code under test, none of which may change.
type given struct {
	ptr  []*big.Int
	want []*big.Int
}

func (g *given) add(v *big.Int) *big.Int {
	g.ptr = append(g.ptr, v)
	g.want = append(g.want, new(big.Int).Set(v))
	return v
}

func (g *given) check(rt *rapid.T) {
	for i := range g.ptr {
		if g.ptr[i].Cmp(g.want[i]) != 0 {
			rt.Fatalf("the caller's amount %v was changed to %v", g.want[i], g.ptr[i])
		}
	}
}

func openVoucher(rt *rapid.T, text string, payer *vtpay.Wallet) *paych.SignedVoucher {
	sv, err := paych.DecodeSignedVoucher(text)
	if err != nil {
		rt.Fatalf("voucher %q: %v", text, err)
	}
	vb, err := sv.SigningBytes()
	if err != nil {
		rt.Fatalf("voucher: %v", err)
	}
	if err := sigs.Verify(sv.Signature, payer.Addr, vb); err != nil {
		rt.Fatalf("the voucher is not signed by the payer: %v", err)
	}
	if sv.TimeLockMin != 0 || sv.TimeLockMax != 0 || len(sv.SecretPreimage) != 0 || sv.Extra != nil || sv.MinSettleHeight != 0 || len(sv.Merges) != 0 {
		rt.Fatalf("the voucher carries conditions: %+v", sv)
	}
	return sv
}

type outLane struct {
	n     uint64
	first uint64
	total *big.Int
}

type outCh struct {
	addr     address.Address
	deposit  *big.Int
	promised *big.Int
	lanes    map[uint64]*outLane
}

func TestP01_History(t *testing.T) {
	vt.Check(t, 120, func(rt *rapid.T, c *vt.Case) {
		payer := vtpay.NewWallet(0)
		var rcp []*vtpay.Wallet
		for i := 1; i <= rapid.IntRange(1, 3).Draw(rt, "recipients"); i++ {
			rcp = append(rcp, vtpay.NewWallet(i))
		}
		l := vtpay.NewLotus(append(rcp, payer)...)
		defer l.Close()
		m := mgr(rt, payer, l)
		var g given
		chs := map[int]*outCh{}
		grants, refusals, toppedTwice := 0, 0, false
		pool := []*big.Int{}
		draw := func() *big.Int {
			if len(pool) > 0 && rapid.IntRange(0, 3).Draw(rt, "reuse") == 0 {
				return pool[rapid.IntRange(0, len(pool)-1).Draw(rt, "which")]
			}
			v := amount(1000).Draw(rt, "a")
			pool = append(pool, v)
			return g.add(v)
		}
		for i := rapid.IntRange(1, 25).Draw(rt, "steps"); i > 0; i-- {
			r := rapid.IntRange(0, len(rcp)-1).Draw(rt, "recipient")
			to := rcp[r].Addr.String()
			if rapid.IntRange(0, 3).Draw(rt, "network prefix") == 0 { // the same address, spelled for the other network
				if to[0] == 'f' {
					to = "t" + to[1:]
				} else {
					to = "f" + to[1:]
				}
			}
			ch := chs[r]
			switch op := rapid.SampledFrom([]string{"topup", "topup", "pay", "pay", "pay", "pay", "exact", "over", "fault", "invalid"}).Draw(rt, "op"); op {
			case "topup":
				a := draw()
				c.Addf("topup(%d,%v);", r, a)
				var err error
				vt.Within(vt.Hang, "Topup", func() { err = m.Topup(to, a) })
				if err != nil {
					rt.Fatalf("top-up of %v: %v", a, err)
				}
				between := l.Between(payer, rcp[r])
				if len(between) != 1 {
					rt.Fatalf("there are %d channels to one recipient", len(between))
				}
				if ch == nil {
					ch = &outCh{addr: between[0].Addr, deposit: new(big.Int), promised: new(big.Int), lanes: map[uint64]*outLane{}}
					chs[r] = ch
				} else {
					toppedTwice = true
				}
				ch.deposit.Add(ch.deposit, a)
				if between[0].Balance.Cmp(ch.deposit) != 0 {
					rt.Fatalf("top-ups of %v put %v into the channel", ch.deposit, between[0].Balance)
				}
			case "fault":
				method := rapid.SampledFrom([]string{"MpoolGetNonce", "GasEstimateGasLimit", "GasEstimateGasPremium", "GasEstimateFeeCap", "MpoolPush", "MpoolPush"}).Draw(rt, "at")
				kind := rapid.SampledFrom([]string{"error", "http", "exit", "garbage"}).Draw(rt, "fault")
				if kind == "exit" {
					method = "MpoolPush"
				}
				a := draw()
				c.Addf("topup(%d,%v) failing with %s at %s;", r, a, kind, method)
				l.Fault = func(x string) string {
					if x == method {
						return kind
					}
					return ""
				}
				var err error
				vt.Within(vt.Hang, "Topup", func() { err = m.Topup(to, a) })
				l.Fault = nil
				if err == nil {
					rt.Fatalf("a top-up whose %s failed (%s) is reported as done", method, kind)
				}
			case "invalid":
				bad := rapid.SampledFrom([]string{"", "x", "f1", "t1xyz", to + "a"}).Draw(rt, "badaddr")
				var err error
				if p := vt.NoPanic(func() { err = m.Topup(bad, draw()) }); p != "" || err == nil {
					rt.Fatalf("top-up of recipient %q: %v %s", bad, err, p)
				}
				neg := new(big.Int).Neg(draw())
				pushes := l.Pushes
				if err := m.Topup(to, g.add(new(big.Int).Set(neg))); err == nil || l.Pushes != pushes {
					rt.Fatalf("a top-up of %v: %v", neg, err)
				}
				if ch != nil {
					_, v, _, err := m.Pay(to, 0, g.add(neg))
					if v != "" || err == nil {
						rt.Fatalf("a negative payment is granted: %v %v", v, err)
					}
				}
			default:
				lane := rapid.SampledFrom([]uint64{0, 0, 1, 2, 1 << 32, 1<<32 + 1, 1 << 63, 1<<64 - 1}).Draw(rt, "lane")
				a := draw()
				if ch != nil && op != "pay" {
					a = new(big.Int).Sub(ch.deposit, ch.promised)
					if op == "over" {
						a.Add(a, big.NewInt(1))
					}
					if a.Sign() <= 0 {
						continue
					}
					g.add(a)
				}
				var addr, voucher string
				var need bool
				var err error
				vt.Within(vt.Hang, "Pay", func() { addr, voucher, need, err = m.Pay(to, lane, a) })
				covered := ch != nil && new(big.Int).Add(ch.promised, a).Cmp(ch.deposit) <= 0
				c.Addf("pay(%d,%d,%v)=%v;", r, lane, a, covered)
				if err != nil {
					rt.Fatalf("payment of %v: %v", a, err)
				}
				if need == covered {
					if ch == nil {
						rt.Fatalf("a payment without a channel is granted")
					}
					rt.Fatalf("payment of %v with %v deposited and %v promised: needs top-up is %v", a, ch.deposit, ch.promised, need)
				}
				if !covered {
					refusals++
					if voucher != "" || addr != "" {
						rt.Fatalf("a refused payment yields voucher %q for channel %q", voucher, addr)
					}
					continue
				}
				grants++
				if addr != ch.addr.String() {
					rt.Fatalf("the payment names channel %s, the recipient's is %s", addr, ch.addr)
				}
				sv := openVoucher(rt, voucher, payer)
				ln := ch.lanes[lane]
				if ln == nil {
					ln = &outLane{total: new(big.Int), first: sv.Nonce}
					ch.lanes[lane] = ln
					if sv.Nonce > 1 {
						rt.Fatalf("the first voucher of a lane has number %d", sv.Nonce)
					}
				}
				ln.total.Add(ln.total, a)
				ch.promised.Add(ch.promised, a)
				if sv.ChannelAddr != ch.addr || sv.Lane != lane || sv.Nonce != ln.first+ln.n || sv.Amount.Int.Cmp(ln.total) != 0 {
					rt.Fatalf("voucher %+v, want channel %s lane %d number %d total %v", sv, ch.addr, lane, ln.first+ln.n, ln.total)
				}
				ln.n++
			}
			g.check(rt)
		}
		if len(l.Problems) > 0 {
			rt.Fatalf("malformed top-up: %v", l.Problems)
		}
		for r, ch := range chs {
			b := l.Between(payer, rcp[r])
			if len(b) != 1 || b[0].Balance.Cmp(ch.deposit) != 0 {
				rt.Fatalf("channels %v hold other amounts than the top-ups %v", b, ch.deposit)
			}
		}
		if grants > 0 && refusals > 0 {
			c.NonTrivial("granted and refused")
		} else if grants > 0 {
			c.NonTrivial("granted")
		}
		if toppedTwice {
			c.Class("several top-ups of one channel")
		}
	})
}

// The chain takes its time, or the node stumbles, before a message's receipt is there.
func TestP01_LateReceipt(t *testing.T) {
	n := 1
	if vt.Thorough() {
		n = 12
	}
	vt.CheckN(t, n, func(rt *rapid.T, c *vt.Case) {
		var plans []func()
		var mu sync.Mutex
		problem := ""
		for i := 0; i < 8; i++ {
			payer, to := vtpay.NewWallet(0), vtpay.NewWallet(1)
			l := vtpay.NewLotus(payer, to)
			defer l.Close()
			m := mgr(rt, payer, l)
			first, second := amount(1000).Draw(rt, "first"), amount(1000).Draw(rt, "second")
			lateFirst := rapid.Bool().Draw(rt, "the first is late")
			exit := rapid.IntRange(0, 2).Draw(rt, "fails in the end") == 0
			hold := rapid.SliceOfN(rapid.SampledFrom([]string{"null", "null", "error", "http", "garbage", "drop"}), 1, 2).Draw(rt, "until then")
			c.Addf("late first %v, fails %v, %v;", lateFirst, exit, hold)
			plans = append(plans, func() {
				bad := func(format string, args ...interface{}) {
					mu.Lock()
					defer mu.Unlock()
					problem = fmt.Sprintf("receipts %v (first %v, failing %v): ", hold, lateFirst, exit) + fmt.Sprintf(format, args...)
				}
				late := func(a *big.Int) error {
					k := 0
					l.Fault = func(x string) string {
						switch {
						case x == "MpoolPush" && exit:
							return "exit"
						case x == "StateGetReceipt" && k < len(hold):
							k++
							return hold[k-1]
						}
						return ""
					}
					err := m.Topup(to.Addr.String(), a)
					l.Fault = nil
					if (err != nil) != exit {
						bad("top-up: %v", err)
					}
					if err == nil && k < len(hold) {
						bad("the top-up is done before its receipt is there")
					}
					return err
				}
				total := new(big.Int)
				do := func(a *big.Int, isLate bool) {
					var err error
					if isLate {
						err = late(a)
					} else if err = m.Topup(to.Addr.String(), a); err != nil {
						bad("top-up: %v", err)
					}
					if err == nil {
						total.Add(total, a)
					}
				}
				do(first, lateFirst)
				do(second, !lateFirst)
				if b := l.Between(payer, to); len(b) > 1 || (len(b) == 1) != (total.Sign() > 0) || len(b) == 1 && b[0].Balance.Cmp(total) != 0 {
					bad("channels %v hold other than %v", b, total)
				}
				if _, v, need, err := m.Pay(to.Addr.String(), 0, new(big.Int).Add(total, big.NewInt(1))); err != nil || !need || v != "" {
					bad("a payment beyond %v: %v %v", total, need, err)
				}
				if _, v, need, err := m.Pay(to.Addr.String(), 0, total); total.Sign() > 0 && (err != nil || need || v == "") {
					bad("a payment of all %v: %v %v", total, need, err)
				}
			})
		}
		if f := vt.Parallel("late receipts", plans...); len(f) > 0 {
			rt.Fatalf("%s", f[0])
		}
		if problem != "" {
			rt.Fatalf("%s", problem)
		}
		c.NonTrivial("a receipt that is not there at once")
	})
}

// craft signs a voucher.
func craft(rt *rapid.T, w *vtpay.Wallet, ch address.Address, lane, nonce uint64, total *big.Int) string {
	sv := &paych.SignedVoucher{ChannelAddr: ch, Lane: lane, Nonce: nonce, Amount: types.BigInt{Int: new(big.Int).Set(total)}}
	vb, err := sv.SigningBytes()
	if err != nil {
		rt.Fatalf("voucher: %v", err)
	}
	sig, err := sigs.Sign(crypto2.SigTypeSecp256k1, w.Raw, vb)
	if err != nil {
		rt.Fatalf("voucher: %v", err)
	}
	sv.Signature = sig
	return pack(rt, sv)
}

func pack(rt *rapid.T, sv *paych.SignedVoucher) string {
	var buf bytes.Buffer
	if err := sv.MarshalCBOR(&buf); err != nil {
		rt.Fatalf("voucher: %v", err)
	}
	return base64.RawURLEncoding.EncodeToString(buf.Bytes())
}

type inLane struct {
	next  uint64
	total *big.Int
}

type inCh struct {
	ch     *vtpay.Channel
	payer  *vtpay.Wallet
	ours   bool
	lanes  map[uint64]*inLane
	credit *big.Int
	used   []string
	issue  map[uint64]*inLane // what the payer issued, presented or not
}

func TestP02_History(t *testing.T) {
	vt.Check(t, 120, func(rt *rapid.T, c *vt.Case) {
		me, other := vtpay.NewWallet(0), vtpay.NewWallet(9)
		payers := []*vtpay.Wallet{vtpay.NewWallet(1), vtpay.NewWallet(2)}
		l := vtpay.NewLotus(append(payers, me, other)...)
		defer l.Close()
		m := mgr(rt, me, l)
		var chans []*inCh
		open := func(p *vtpay.Wallet, to *vtpay.Wallet) {
			chans = append(chans, &inCh{ch: l.Open(p, to, amount(200).Draw(rt, "balance")), payer: p, ours: to == me, lanes: map[uint64]*inLane{}, issue: map[uint64]*inLane{}, credit: new(big.Int)})
		}
		open(payers[0], me)
		open(payers[0], me)
		open(payers[1], me)
		open(payers[1], other)
		lane := func(k *inCh, n uint64) *inLane {
			if k.lanes[n] == nil {
				k.lanes[n] = &inLane{total: new(big.Int)}
			}
			return k.lanes[n]
		}
		receive := func(ch, v string) (*big.Int, error) {
			var a *big.Int
			var err error
			vt.Within(vt.Hang, "Receive", func() {
				if p := vt.NoPanic(func() { a, err = m.Receive(ch, v) }); p != "" {
					rt.Fatalf("Receive(%s, %s) panics: %s", ch, v, p)
				}
			})
			if err == nil && a == nil {
				rt.Fatalf("Receive reports neither an amount nor an error")
			}
			return a, err
		}
		refused := func(what, ch, v string) {
			if a, err := receive(ch, v); err == nil {
				rt.Fatalf("%s is credited with %v", what, a)
			}
		}
		credited, rejected := 0, 0
		// present hands in an authentic voucher and compares with the model
		present := func(k *inCh, n, nonce uint64, total *big.Int) {
			v := craft(rt, k.payer, k.ch.Addr, n, nonce, total)
			ln := lane(k, n)
			value := new(big.Int).Sub(total, ln.total)
			ok := k.ours && nonce >= ln.next && value.Sign() > 0 && new(big.Int).Add(k.credit, value).Cmp(k.ch.Balance) <= 0
			a, err := receive(k.ch.Addr.String(), v)
			if !ok {
				rejected++
				if err == nil {
					rt.Fatalf("voucher lane %d number %d total %v is credited with %v; lane at number %d total %v, channel %v of %v credited, ours %v", n, nonce, total, a, ln.next, ln.total, k.credit, k.ch.Balance, k.ours)
				}
				return
			}
			if err != nil {
				rt.Fatalf("voucher lane %d number %d total %v is refused (%v); lane at number %d total %v, channel %v of %v credited", n, nonce, total, err, ln.next, ln.total, k.credit, k.ch.Balance)
			}
			if a.Cmp(value) != 0 {
				rt.Fatalf("voucher lane %d number %d total %v is credited with %v instead of %v", n, nonce, total, a, value)
			}
			a.SetInt64(-5) // the caller's to keep
			credited++
			ln.next = nonce + 1
			ln.total = new(big.Int).Set(total)
			k.credit.Add(k.credit, value)
			k.used = append(k.used, v)
		}
		for i := rapid.IntRange(1, 25).Draw(rt, "steps"); i > 0; i-- {
			k := chans[rapid.SampledFrom([]int{0, 0, 0, 1, 1, 2, 3}).Draw(rt, "channel")]
			n := rapid.SampledFrom([]uint64{0, 0, 1, 7, 1 << 32, 1<<32 + 7, 1<<64 - 1}).Draw(rt, "lane")
			ln := lane(k, n)
			left := new(big.Int).Sub(k.ch.Balance, k.credit)
			op := rapid.SampledFrom([]string{"next", "next", "next", "next", "all", "over", "skip", "replay", "stale", "same total", "less", "altered", "forged", "other channel", "respelled", "conditional", "deposit", "state", "fault", "garbage", "nonce"}).Draw(rt, "op")
			c.Addf("%s(%s,%d);", op, k.ch.Addr, n)
			gap := rapid.SampledFrom([]uint64{0, 0, 1, 3}).Draw(rt, "ahead")
			switch op {
			case "next", "skip":
				if left.Sign() <= 0 {
					continue
				}
				a := new(big.Int).Div(left, big.NewInt(rapid.Int64Range(1, 9).Draw(rt, "part")))
				if a.Sign() == 0 {
					a.SetInt64(1)
				}
				nonce := ln.next
				if op == "skip" {
					nonce += rapid.Uint64Range(1, 5).Draw(rt, "gap")
				}
				present(k, n, nonce, a.Add(a, ln.total))
			case "all":
				present(k, n, ln.next, new(big.Int).Add(ln.total, left))
			case "over":
				present(k, n, ln.next+gap, left.Add(left, ln.total).Add(left, amount(3).Draw(rt, "excess")))
			case "replay":
				if len(k.used) > 0 {
					refused("a voucher that was already credited", k.ch.Addr.String(), rapid.SampledFrom(k.used).Draw(rt, "used"))
				}
			case "stale":
				if ln.next > 0 {
					present(k, n, rapid.Uint64Range(0, ln.next-1).Draw(rt, "old"), new(big.Int).Add(ln.total, big.NewInt(1)))
				}
			case "same total":
				present(k, n, ln.next+gap, ln.total)
			case "less":
				present(k, n, ln.next+gap, new(big.Int).Sub(ln.total, amount(5).Draw(rt, "lesser")))
			case "nonce": // a large jump
				if left.Sign() > 0 && ln.next < 1<<40 {
					present(k, n, ln.next+rapid.Uint64Range(1<<20, 1<<30).Draw(rt, "jump"), new(big.Int).Add(ln.total, big.NewInt(1)))
				}
			case "altered":
				v := craft(rt, k.payer, k.ch.Addr, n, ln.next, new(big.Int).Add(ln.total, big.NewInt(1)))
				sv, _ := paych.DecodeSignedVoucher(v)
				switch rapid.IntRange(0, 9).Draw(rt, "field") {
				case 0:
					sv.Lane++
				case 1:
					sv.Nonce++
				case 2:
					sv.Amount = types.BigInt{Int: new(big.Int).Add(sv.Amount.Int, big.NewInt(1))}
				case 3:
					sv.Signature.Data[rapid.IntRange(0, 63).Draw(rt, "byte")] ^= 1 << rapid.IntRange(0, 7).Draw(rt, "bit")
				case 4:
					sv.Signature.Data = sv.Signature.Data[:rapid.IntRange(0, 64).Draw(rt, "len")]
				case 5:
					sv.Signature = nil
				case 6:
					sv.Signature.Type = crypto2.SigTypeBLS
				case 7:
					sv.MinSettleHeight++
				case 8:
					sv.Signature.Data = append(sv.Signature.Data, 0)
				case 9:
					sv.ChannelAddr = chans[(rapid.IntRange(1, 3).Draw(rt, "otherch"))].ch.Addr
					if sv.ChannelAddr == k.ch.Addr {
						continue
					}
				}
				v2 := pack(rt, sv)
				refused("an altered voucher", k.ch.Addr.String(), v2)
				if sv.ChannelAddr != k.ch.Addr {
					refused("an altered voucher", sv.ChannelAddr.String(), v2)
				}
			case "forged":
				w := rapid.SampledFrom([]*vtpay.Wallet{me, other, payers[0], payers[1]}).Draw(rt, "forger")
				if w != k.payer {
					refused("a voucher signed by someone else", k.ch.Addr.String(), craft(rt, w, k.ch.Addr, n, ln.next, new(big.Int).Add(ln.total, big.NewInt(1))))
				}
			case "other channel":
				o := rapid.SampledFrom(chans).Draw(rt, "instead")
				if o == k {
					continue
				}
				refused("a voucher made for another channel", o.ch.Addr.String(), craft(rt, k.payer, k.ch.Addr, n, lane(o, n).next+ln.next, new(big.Int).Add(lane(o, n).total, big.NewInt(1))))
				if len(k.used) > 0 {
					refused("a voucher credited on another channel", o.ch.Addr.String(), rapid.SampledFrom(k.used).Draw(rt, "used"))
				}
			case "respelled":
				s := k.ch.Addr.String()
				flip := "f"
				if s[0] == 'f' {
					flip = "t"
				}
				sp := rapid.SampledFrom([]string{flip + s[1:], strings.ToUpper(s), " " + s, s + " ", s + "=", ""}).Draw(rt, "spelling")
				if len(k.used) > 0 {
					refused("a voucher already credited, under another spelling of its channel", sp, rapid.SampledFrom(k.used).Draw(rt, "used"))
				}
			case "conditional":
				// signed by the payer, and worth nothing, or less than it says, unless the condition is met
				sv, _ := paych.DecodeSignedVoucher(craft(rt, k.payer, k.ch.Addr, n, ln.next+gap, new(big.Int).Add(ln.total, big.NewInt(1))))
				sv.Signature = nil
				cond := rapid.IntRange(0, 5).Draw(rt, "condition")
				switch cond {
				case 0:
					sv.TimeLockMin = 1 << 40
				case 1:
					sv.TimeLockMax = 1
				case 2:
					sv.SecretPreimage = rapid.SliceOfN(rapid.Byte(), 1, 32).Draw(rt, "hash of a secret")
				case 3:
					sv.Extra = &paych4.ModVerifyParams{Actor: other.ID, Method: 2, Data: []byte{1}}
				case 4:
					sv.Merges = []paych4.Merge{{Lane: n + 1, Nonce: lane(k, n+1).next}}
				case 5:
					sv.TimeLockMin, sv.TimeLockMax = 5, 1<<40
				}
				vb, err := sv.SigningBytes()
				if err != nil {
					rt.Fatalf("voucher: %v", err)
				}
				if sv.Signature, err = sigs.Sign(crypto2.SigTypeSecp256k1, k.payer.Raw, vb); err != nil {
					rt.Fatalf("voucher: %v", err)
				}
				refused(fmt.Sprintf("a voucher under condition %d", cond), k.ch.Addr.String(), pack(rt, sv))
			case "deposit":
				l.With(func() { k.ch.Balance.Add(k.ch.Balance, amount(100).Draw(rt, "deposit")) })
			case "state":
				raw := rapid.SampledFrom([]string{`null`, `{}`, `{"Balance":"5","State":null}`, `{"Balance":"5","State":"x"}`, `{"Balance":"5","State":[1]}`, `{"Balance":"5","State":{}}`,
					`{"Balance":"1000000000000000000000000000000000000000000000","State":{"To":5,"From":"t01"}}`, `{"Balance":"1000000000000000000000000000000000000000000000","State":{"To":"` + me.Addr.String() + `"}}`,
					`{"Balance":"1000000000000000000000000000000000000000000000","State":{"To":"` + me.Addr.String() + `","From":null}}`, `{"Balance":"1000000000000000000000000000000000000000000000","State":{"To":"zz","From":"t01"}}`,
					`{"Balance":"1000000000000000000000000000000000000000000000","State":{"To":"` + me.Addr.String() + `","From":""}}`, `{"State":{"To":"` + me.Addr.String() + `","From":"` + k.payer.Addr.String() + `"}}`, `5`, `"x"`, `[]`}).Draw(rt, "raw")
				// on a channel of its own, as the balance it reports is kept
				o := &inCh{ch: l.Open(k.payer, me, big.NewInt(100)), payer: k.payer, ours: true, lanes: map[uint64]*inLane{}, credit: new(big.Int)}
				l.With(func() { o.ch.Raw = json.RawMessage(raw) })
				c.Addf("%s", raw)
				refused("a voucher on a channel with state "+raw, o.ch.Addr.String(), craft(rt, k.payer, o.ch.Addr, n, 0, big.NewInt(1)))
			case "fault":
				method := rapid.SampledFrom([]string{"StateReadState", "StateAccountKey"}).Draw(rt, "at")
				kind := rapid.SampledFrom([]string{"error", "http", "garbage", "null"}).Draw(rt, "fault")
				l.Fault = func(x string) string {
					if x == method {
						return kind
					}
					return ""
				}
				a, err := receive(k.ch.Addr.String(), craft(rt, k.payer, k.ch.Addr, n, ln.next, new(big.Int).Add(ln.total, big.NewInt(1))))
				l.Fault = nil
				if err == nil {
					rt.Fatalf("a voucher is credited with %v although %s failed (%s)", a, method, kind)
				}
			case "garbage":
				v := craft(rt, k.payer, k.ch.Addr, n, ln.next, new(big.Int).Add(ln.total, big.NewInt(1)))
				b, _ := base64.RawURLEncoding.DecodeString(v)
				for z := rapid.IntRange(1, 3).Draw(rt, "edits"); z > 0 && len(b) > 0; z-- {
					switch rapid.IntRange(0, 2).Draw(rt, "edit") {
					case 0:
						b[rapid.IntRange(0, len(b)-1).Draw(rt, "at")] = rapid.Byte().Draw(rt, "byte")
					case 1:
						b = b[:rapid.IntRange(0, len(b)-1).Draw(rt, "cut")]
					case 2:
						b = append(b, rapid.Byte().Draw(rt, "more"))
					}
				}
				sv2, err := paych.DecodeSignedVoucher(base64.RawURLEncoding.EncodeToString(b))
				sv1, _ := paych.DecodeSignedVoucher(v)
				if err == nil {
					x, _ := json.Marshal(sv1)
					y, _ := json.Marshal(sv2)
					if bytes.Equal(x, y) { // the edits cancelled out
						continue
					}
				}
				refused("a damaged voucher", k.ch.Addr.String(), base64.RawURLEncoding.EncodeToString(b))
				refused("random text", k.ch.Addr.String(), vt.Text().Draw(rt, "text"))
				refused("a voucher on an invalid channel", vt.Text().Draw(rt, "chtext"), v)
			}
		}
		// afterwards every channel still takes exactly what is left
		for _, k := range chans {
			if !k.ours {
				continue
			}
			left := new(big.Int).Sub(k.ch.Balance, k.credit)
			ln := lane(k, 3)
			present(k, 3, ln.next, new(big.Int).Add(new(big.Int).Add(ln.total, left), big.NewInt(1)))
			present(k, 3, ln.next, new(big.Int).Add(ln.total, left))
			present(k, 3, ln.next, new(big.Int).Add(ln.total, big.NewInt(1)))
		}
		if credited > 3 && rejected > 2 {
			c.NonTrivial("credited and refused")
		}
	})
}

// A payer's own vouchers, presented in order by lane, are credited exactly.
func TestP02_PayerToRecipient(t *testing.T) {
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		payer, me := vtpay.NewWallet(1), vtpay.NewWallet(0)
		l := vtpay.NewLotus(payer, me)
		defer l.Close()
		pm, rm := mgr(rt, payer, l), mgr(rt, me, l)
		type paid struct {
			ch, v string
			a     *big.Int
		}
		queue := map[uint64][]paid{}
		sum, got := new(big.Int), new(big.Int)
		dep := new(big.Int)
		for i := rapid.IntRange(2, 20).Draw(rt, "steps"); i > 0; i-- {
			switch rapid.IntRange(0, 4).Draw(rt, "op") {
			case 0:
				a := amount(50).Draw(rt, "top")
				if err := pm.Topup(me.Addr.String(), a); err != nil {
					rt.Fatalf("top-up: %v", err)
				}
				dep.Add(dep, a)
				c.Addf("top-up %v;", a)
			case 1, 2:
				lane := rapid.Uint64Range(0, 2).Draw(rt, "lane")
				a := amount(20).Draw(rt, "a")
				ch, v, need, err := pm.Pay(me.Addr.String(), lane, a)
				if err != nil {
					rt.Fatalf("pay: %v", err)
				}
				c.Addf("pay %v on %d: %v;", a, lane, !need)
				if !need {
					queue[lane] = append(queue[lane], paid{ch, v, a})
					sum.Add(sum, a)
				}
			default:
				lane := rapid.Uint64Range(0, 2).Draw(rt, "lane")
				if q := queue[lane]; len(q) > 0 {
					a, err := rm.Receive(q[0].ch, q[0].v)
					if err != nil || a.Cmp(q[0].a) != 0 {
						rt.Fatalf("a payment of %v is credited with %v: %v", q[0].a, a, err)
					}
					got.Add(got, a)
					c.Addf("received %v on %d;", a, lane)
					queue[lane] = q[1:]
				}
			}
		}
		for lane, q := range queue {
			for _, p := range q {
				a, err := rm.Receive(p.ch, p.v)
				if err != nil || a.Cmp(p.a) != 0 {
					rt.Fatalf("a payment of %v on lane %d is credited with %v: %v", p.a, lane, a, err)
				}
				got.Add(got, a)
			}
		}
		if got.Cmp(sum) != 0 {
			rt.Fatalf("paid %v, credited %v", sum, got)
		}
		if sum.Sign() > 0 {
			c.NonTrivial("payments delivered")
		}
	})
}

func jitter(seed uint64) func(string) time.Duration {
	var mu sync.Mutex
	return func(method string) time.Duration {
		mu.Lock()
		defer mu.Unlock()
		seed = seed*6364136223846793005 + 1442695040888963407
		return time.Duration((seed>>33)%2500) * time.Microsecond
	}
}

func TestP03_Payers(t *testing.T) {
	vt.Check(t, 40, func(rt *rapid.T, c *vt.Case) {
		payer := vtpay.NewWallet(0)
		rcp := []*vtpay.Wallet{vtpay.NewWallet(1), vtpay.NewWallet(2)}
		l := vtpay.NewLotus(append(rcp, payer)...)
		defer l.Close()
		l.Delay = jitter(rapid.Uint64().Draw(rt, "jitter"))
		m := mgr(rt, payer, l)
		type op struct {
			top  bool
			r    int
			lane uint64
			a    *big.Int
		}
		threads := rapid.IntRange(2, 8).Draw(rt, "threads")
		plans := make([][]op, threads)
		tops := 0
		pre := rapid.Bool().Draw(rt, "channels exist")
		dep := []*big.Int{new(big.Int), new(big.Int)}
		if pre {
			for r := range rcp {
				a := big.NewInt(rapid.Int64Range(1, 30).Draw(rt, "first"))
				if err := m.Topup(rcp[r].Addr.String(), a); err != nil {
					rt.Fatalf("top-up: %v", err)
				}
				dep[r].Add(dep[r], a)
			}
		}
		for i := range plans {
			for k := rapid.IntRange(1, 5).Draw(rt, "ops"); k > 0; k-- {
				o := op{top: rapid.IntRange(0, 2).Draw(rt, "top") == 0, r: rapid.SampledFrom([]int{0, 0, 1}).Draw(rt, "r"), lane: rapid.Uint64Range(0, 1).Draw(rt, "lane"), a: big.NewInt(rapid.Int64Range(1, 20).Draw(rt, "a"))}
				if o.top {
					tops++
				}
				plans[i] = append(plans[i], o)
				c.Addf("%d:%v,%d,%d,%v", i, o.top, o.r, o.lane, o.a)
			}
		}
		if tops > 1 {
			c.NonTrivial(fmt.Sprintf("%d threads, channels exist: %v", threads, pre))
		}
		type grant struct {
			r  int
			v  string
			ch string
			a  *big.Int
		}
		var mu sync.Mutex
		var grants []grant
		var fails []string
		fns := make([]func(), threads)
		for i := range plans {
			plan := plans[i]
			fns[i] = func() {
				for _, o := range plan {
					to := rcp[o.r].Addr.String()
					if o.top {
						err := m.Topup(to, o.a)
						mu.Lock()
						if err != nil {
							fails = append(fails, fmt.Sprintf("top-up: %v", err))
						} else {
							dep[o.r].Add(dep[o.r], o.a)
						}
						mu.Unlock()
						continue
					}
					ch, v, need, err := m.Pay(to, o.lane, o.a)
					mu.Lock()
					if err != nil {
						fails = append(fails, fmt.Sprintf("pay: %v", err))
					} else if !need {
						grants = append(grants, grant{o.r, v, ch, o.a})
					}
					mu.Unlock()
				}
			}
		}
		if f := append(vt.Parallel("concurrent payments and top-ups", fns...), fails...); len(f) > 0 {
			rt.Fatalf("%s", f[0])
		}
		for r := range rcp {
			chs := l.Between(payer, rcp[r])
			if dep[r].Sign() == 0 {
				if len(chs) != 0 {
					rt.Fatalf("a channel without a top-up")
				}
				continue
			}
			if len(chs) != 1 {
				rt.Fatalf("%d channels were created to one recipient", len(chs))
			}
			if chs[0].Balance.Cmp(dep[r]) != 0 {
				rt.Fatalf("%v deposited, the channel holds %v", dep[r], chs[0].Balance)
			}
			total := new(big.Int)
			lanes := map[uint64][]*paych.SignedVoucher{}
			for _, g := range grants {
				if g.r != r {
					continue
				}
				sv := openVoucher(rt, g.v, payer)
				if g.ch != chs[0].Addr.String() || sv.ChannelAddr != chs[0].Addr {
					rt.Fatalf("voucher for channel %s, want %s", sv.ChannelAddr, chs[0].Addr)
				}
				lanes[sv.Lane] = append(lanes[sv.Lane], sv)
				total.Add(total, g.a)
			}
			if total.Cmp(dep[r]) > 0 {
				rt.Fatalf("payments of %v granted with %v deposited", total, dep[r])
			}
			laneSum := new(big.Int)
			for lane, vs := range lanes {
				sort.Slice(vs, func(i, j int) bool { return vs[i].Nonce < vs[j].Nonce })
				for i := 1; i < len(vs); i++ {
					if vs[i].Nonce == vs[i-1].Nonce {
						rt.Fatalf("two vouchers of lane %d have number %d", lane, vs[i].Nonce)
					}
					if vs[i].Nonce != vs[i-1].Nonce+1 || vs[i].Amount.Int.Cmp(vs[i-1].Amount.Int) <= 0 {
						rt.Fatalf("vouchers of lane %d: number %d total %v after number %d total %v", lane, vs[i].Nonce, vs[i].Amount, vs[i-1].Nonce, vs[i-1].Amount)
					}
				}
				laneSum.Add(laneSum, vs[len(vs)-1].Amount.Int)
			}
			if laneSum.Cmp(total) != 0 {
				rt.Fatalf("payments of %v granted, the vouchers amount to %v", total, laneSum)
			}
			// everything deposited is spendable, nothing more
			left := new(big.Int).Sub(dep[r], total)
			if _, v, need, err := m.Pay(rcp[r].Addr.String(), 0, new(big.Int).Add(left, big.NewInt(1))); err != nil || !need || v != "" {
				rt.Fatalf("with %v of %v promised, a payment of one more than the rest is granted", total, dep[r])
			}
			if left.Sign() > 0 {
				if _, _, need, err := m.Pay(rcp[r].Addr.String(), 5, left); err != nil || need {
					rt.Fatalf("%v was deposited and %v promised, but the rest cannot be spent (%v)", dep[r], total, err)
				}
			}
		}
	})
}

func TestP03_Recipient(t *testing.T) {
	vt.Check(t, 40, func(rt *rapid.T, c *vt.Case) {
		me := vtpay.NewWallet(0)
		payers := []*vtpay.Wallet{vtpay.NewWallet(1), vtpay.NewWallet(2)}
		l := vtpay.NewLotus(append(payers, me)...)
		defer l.Close()
		l.Delay = jitter(rapid.Uint64().Draw(rt, "jitter"))
		m := mgr(rt, me, l)
		type voucher struct {
			ch    *vtpay.Channel
			lane  uint64
			total int64
			text  string
		}
		var all []voucher
		bal := map[*vtpay.Channel]int64{}
		for _, p := range payers {
			b := rapid.Int64Range(10, 60).Draw(rt, "balance")
			ch := l.Open(p, me, big.NewInt(b))
			bal[ch] = b
			for lane := uint64(0); lane < 2; lane++ {
				total := int64(0)
				for n := rapid.IntRange(0, 4).Draw(rt, "vouchers"); n > 0; n-- {
					total += rapid.Int64Range(1, 15).Draw(rt, "a")
					all = append(all, voucher{ch, lane, total, craft(rt, p, ch.Addr, lane, uint64(4-n), big.NewInt(total))})
				}
			}
		}
		if len(all) == 0 {
			return
		}
		threads := rapid.IntRange(2, 8).Draw(rt, "threads")
		type rec struct {
			v int
			a int64
		}
		var mu sync.Mutex
		var recs []rec
		fns := make([]func(), threads)
		for i := range fns {
			var plan []int
			for k := rapid.IntRange(1, 6).Draw(rt, "presentations"); k > 0; k-- {
				plan = append(plan, rapid.IntRange(0, len(all)-1).Draw(rt, "voucher"))
			}
			if rapid.Bool().Draw(rt, "ascending") {
				sort.Ints(plan)
			}
			c.Addf("%d:%v", i, plan)
			fns[i] = func() {
				for _, v := range plan {
					a, err := m.Receive(all[v].ch.Addr.String(), all[v].text)
					if err == nil {
						mu.Lock()
						recs = append(recs, rec{v, a.Int64()})
						mu.Unlock()
					}
				}
			}
		}
		c.NonTrivial(fmt.Sprintf("%d threads", threads))
		if f := vt.Parallel("concurrent receipts", fns...); len(f) > 0 {
			rt.Fatalf("%s", f[0])
		}
		type key struct {
			ch   *vtpay.Channel
			lane uint64
		}
		times := map[int]int{}
		sum, high := map[key]int64{}, map[key]int64{}
		perCh := map[*vtpay.Channel]int64{}
		for _, r := range recs {
			v := all[r.v]
			k := key{v.ch, v.lane}
			times[r.v]++
			if times[r.v] > 1 {
				rt.Fatalf("one voucher was credited %d times", times[r.v])
			}
			sum[k] += r.a
			perCh[v.ch] += r.a
			if v.total > high[k] {
				high[k] = v.total
			}
		}
		for k, s := range sum {
			if s != high[k] {
				rt.Fatalf("%d credited on lane %d, the highest voucher accepted is for %d", s, k.lane, high[k])
			}
		}
		for ch, s := range perCh {
			if s > bal[ch] {
				rt.Fatalf("%d credited on a channel holding %d", s, bal[ch])
			}
		}
		// what was accepted is not accepted again
		for v := range times {
			if a, err := m.Receive(all[v].ch.Addr.String(), all[v].text); err == nil {
				rt.Fatalf("a credited voucher is credited again with %v", a)
			}
		}
	})
}
