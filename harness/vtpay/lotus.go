// Package vtpay is a stand-in for a Lotus node: a JSON-RPC server with a tiny model of the chain.
package vtpay

import (
	"bytes"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/big"
	"net/http"
	"net/http/httptest"
	"sync"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrpaymentmgr"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/filecoin-project/go-address"
	crypto2 "github.com/filecoin-project/go-state-types/crypto"
	"github.com/filecoin-project/lotus/chain/types"
	"github.com/filecoin-project/lotus/lib/sigs"
	builtin4 "github.com/filecoin-project/specs-actors/v4/actors/builtin"
	init4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/init"
	paych4 "github.com/filecoin-project/specs-actors/v4/actors/builtin/paych"
)

// Wallet is a key and its address.
type Wallet struct {
	Priv string
	Raw  []byte
	Addr address.Address
	ID   address.Address
}

// NewWallet makes wallet number i.
func NewWallet(i int) *Wallet {
	sigs.RegisterSignature(crypto2.SigTypeSecp256k1, fcrpaymentmgr.SecpSigner{})
	raw := make([]byte, 32)
	v := new(big.Int).Exp(big.NewInt(2*int64(i)+3), big.NewInt(50), nil)
	v.Mod(v, new(big.Int).Lsh(big.NewInt(1), 248))
	v.FillBytes(raw)
	pub, err := sigs.ToPublic(crypto2.SigTypeSecp256k1, raw)
	if err != nil {
		panic(err)
	}
	a, err := address.NewSecp256k1Address(pub)
	if err != nil {
		panic(err)
	}
	id, err := address.NewIDAddress(uint64(1000 + i))
	if err != nil {
		panic(err)
	}
	return &Wallet{Priv: hex.EncodeToString(raw), Raw: raw, Addr: a, ID: id}
}

// Channel is a payment channel on the chain.
type Channel struct {
	Addr     address.Address
	From, To address.Address
	Balance  *big.Int
	Raw      json.RawMessage // overrides the whole actor state when set
}

// Lotus is the node.
type Lotus struct {
	mu       sync.Mutex
	srv      *httptest.Server
	wallets  map[address.Address]*Wallet // by key and by id address
	Channels map[address.Address]*Channel
	order    []address.Address
	receipts map[string]types.MessageReceipt
	nonces   map[address.Address]uint64
	nextCh   uint64
	prefix   []byte
	Problems []string // malformed top-ups seen
	Pushes   int
	// Fault is asked before each call; a non-empty answer makes it fail ("error", "exit", "http", "drop").
	Fault func(method string) string
	// Delay is asked for each call.
	Delay func(method string) time.Duration
}

// NewLotus starts a node that knows the given wallets.
func NewLotus(ws ...*Wallet) *Lotus {
	l := &Lotus{wallets: map[address.Address]*Wallet{}, Channels: map[address.Address]*Channel{}, receipts: map[string]types.MessageReceipt{}, nonces: map[address.Address]uint64{}}
	for _, w := range ws {
		l.wallets[w.Addr] = w
		l.wallets[w.ID] = w
	}
	l.srv = httptest.NewServer(http.HandlerFunc(l.serve))
	return l
}

// URL of the node's API.
func (l *Lotus) URL() string { return l.srv.URL }

// Close stops the node.
func (l *Lotus) Close() { l.srv.CloseClientConnections(); l.srv.Close() }

// Know adds a wallet.
func (l *Lotus) Know(w *Wallet) {
	l.mu.Lock()
	defer l.mu.Unlock()
	l.wallets[w.Addr] = w
	l.wallets[w.ID] = w
}

// Open puts a channel on the chain directly.
func (l *Lotus) Open(from, to *Wallet, balance *big.Int) *Channel {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.open(from.ID, to.ID, balance)
}

func (l *Lotus) open(from, to address.Address, balance *big.Int) *Channel {
	l.nextCh++
	a, err := address.NewActorAddress([]byte(fmt.Sprintf("channel-%d", l.nextCh)))
	if err != nil {
		panic(err)
	}
	c := &Channel{Addr: a, From: from, To: to, Balance: new(big.Int).Set(balance)}
	l.Channels[a] = c
	l.order = append(l.order, a)
	return c
}

// Between lists the channels from one wallet to another.
func (l *Lotus) Between(from, to *Wallet) []*Channel {
	l.mu.Lock()
	defer l.mu.Unlock()
	var r []*Channel
	for _, a := range l.order {
		c := l.Channels[a]
		if l.wallets[c.From] == from && l.wallets[c.To] == to {
			r = append(r, c)
		}
	}
	return r
}

// With runs fn while holding the node's lock.
func (l *Lotus) With(fn func()) {
	l.mu.Lock()
	defer l.mu.Unlock()
	fn()
}

type rpcReq struct {
	ID     interface{}       `json:"id"`
	Method string            `json:"method"`
	Params []json.RawMessage `json:"params"`
}

func (l *Lotus) serve(w http.ResponseWriter, r *http.Request) {
	b, _ := io.ReadAll(r.Body)
	vt.Look("a request to the chain", b)
	var q rpcReq
	if err := json.Unmarshal(b, &q); err != nil {
		http.Error(w, "bad request", 400)
		return
	}
	method := q.Method
	if len(method) > 9 && method[:9] == "Filecoin." {
		method = method[9:]
	}
	if l.Delay != nil {
		if d := l.Delay(method); d > 0 {
			time.Sleep(d)
		}
	}
	fault := ""
	if l.Fault != nil {
		fault = l.Fault(method)
	}
	switch fault {
	case "http":
		http.Error(w, "internal", 500)
		return
	case "drop":
		if h, ok := w.(http.Hijacker); ok {
			if c, _, err := h.Hijack(); err == nil {
				c.Close()
				return
			}
		}
	case "garbage":
		w.Write([]byte("{\"jsonrpc\":\"2.0\",\"id\":1,\"result\":"))
		return
	case "null":
		json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": q.ID, "result": nil})
		return
	}
	var res interface{}
	var err error
	if fault == "error" {
		err = fmt.Errorf("refused")
	} else {
		l.mu.Lock()
		res, err = l.call(method, q.Params, fault)
		l.mu.Unlock()
	}
	w.Header().Set("Content-Type", "application/json")
	if err != nil {
		json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": q.ID, "error": map[string]interface{}{"code": 1, "message": err.Error()}})
		return
	}
	json.NewEncoder(w).Encode(map[string]interface{}{"jsonrpc": "2.0", "id": q.ID, "result": res})
}

func arg(ps []json.RawMessage, i int, v interface{}) error {
	if i >= len(ps) {
		return fmt.Errorf("missing argument")
	}
	return json.Unmarshal(ps[i], v)
}

func (l *Lotus) call(method string, ps []json.RawMessage, fault string) (interface{}, error) {
	switch method {
	case "MpoolGetNonce":
		var a address.Address
		if err := arg(ps, 0, &a); err != nil {
			return nil, err
		}
		return l.nonces[a], nil
	case "GasEstimateGasLimit":
		return 1000000, nil
	case "GasEstimateGasPremium", "GasEstimateFeeCap":
		return "100", nil
	case "MpoolPush":
		var m types.SignedMessage
		if err := arg(ps, 0, &m); err != nil {
			return nil, err
		}
		l.Pushes++
		return l.push(&m, fault)
	case "StateGetReceipt":
		var c map[string]string
		if err := arg(ps, 0, &c); err != nil {
			return nil, err
		}
		r, ok := l.receipts[c["/"]]
		if !ok {
			return nil, nil
		}
		return r, nil
	case "StateReadState":
		var a address.Address
		if err := arg(ps, 0, &a); err != nil {
			return nil, err
		}
		c := l.Channels[a]
		if c == nil {
			return nil, fmt.Errorf("actor not found")
		}
		if c.Raw != nil {
			return c.Raw, nil
		}
		return map[string]interface{}{
			"Balance": c.Balance.String(),
			"Code":    map[string]string{"/": "bafkqafdgnfwc6nbpobqxs3lfnz2gg2dbnzxgk3a"},
			"State": map[string]interface{}{"From": c.From.String(), "To": c.To.String(), "ToSend": "0", "SettlingAt": 0, "MinSettleHeight": 0,
				"LaneStates": map[string]string{"/": "bafy2bzacebhjx4uqtg6c65km46wiiq45dbbeckqhs2oontwdzba335nxk6bia"}},
		}, nil
	case "StateAccountKey":
		var a address.Address
		if err := arg(ps, 0, &a); err != nil {
			return nil, err
		}
		w := l.wallets[a]
		if w == nil {
			return nil, fmt.Errorf("actor not found")
		}
		return w.Addr.String(), nil
	}
	return nil, fmt.Errorf("method %s not found", method)
}

func (l *Lotus) problem(format string, args ...interface{}) {
	l.Problems = append(l.Problems, fmt.Sprintf(format, args...))
}

func (l *Lotus) push(m *types.SignedMessage, fault string) (interface{}, error) {
	msg := m.Message
	if err := sigs.Verify(&m.Signature, msg.From, msg.Cid().Bytes()); err != nil {
		return nil, fmt.Errorf("bad signature: %v", err)
	}
	l.nonces[msg.From]++
	// two messages may be alike; the chain tells them apart by nonce, here by a counter
	c := fmt.Sprintf("%s", m.Cid())
	rec := types.MessageReceipt{GasUsed: 1}
	if fault == "exit" {
		rec.ExitCode = 16
		l.receipts[c] = rec
		return map[string]string{"/": c}, nil
	}
	if msg.Value.Int == nil || msg.Value.Sign() < 0 {
		return nil, fmt.Errorf("bad value")
	}
	if ch := l.Channels[msg.To]; ch != nil {
		if msg.Method != 0 {
			l.problem("top-up calls method %d of the channel", msg.Method)
		}
		ch.Balance.Add(ch.Balance, msg.Value.Int)
	} else if msg.To == builtin4.InitActorAddr && msg.Method == builtin4.MethodsInit.Exec {
		var ex init4.ExecParams
		if err := ex.UnmarshalCBOR(bytes.NewReader(msg.Params)); err != nil {
			return nil, err
		}
		var cp paych4.ConstructorParams
		if err := cp.UnmarshalCBOR(bytes.NewReader(ex.ConstructorParams)); err != nil {
			return nil, err
		}
		if cp.From != msg.From {
			l.problem("channel created from %s by %s", cp.From, msg.From)
		}
		id := func(a address.Address) address.Address {
			if w := l.wallets[a]; w != nil {
				return w.ID
			}
			return a
		}
		ch := l.open(id(cp.From), id(cp.To), msg.Value.Int)
		ida, _ := address.NewIDAddress(50000 + l.nextCh)
		var buf bytes.Buffer
		if err := (&init4.ExecReturn{IDAddress: ida, RobustAddress: ch.Addr}).MarshalCBOR(&buf); err != nil {
			return nil, err
		}
		rec.Return = buf.Bytes()
	} else {
		l.problem("message to %s, method %d", msg.To, msg.Method)
		return nil, fmt.Errorf("unexpected message")
	}
	l.receipts[c] = rec
	return map[string]string{"/": c}, nil
}
