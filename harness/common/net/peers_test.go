package net

import (
	"errors"
	"fmt"
	"math/rand"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

// proxy is the network between a node and its callers; it can be cut, stalled or taken down.
type proxy struct {
	target string
	addr   string

	mu    sync.Mutex
	ln    net.Listener
	mode  string // up, stall, down
	conns map[net.Conn]bool
	// cut the connection after this many bytes of answers (0: never); applies to connections made afterwards
	cutAfter int
	accepted int
}

func newProxy(target string) *proxy {
	p := &proxy{target: target, mode: "up", conns: map[net.Conn]bool{}}
	p.addr = "127.0.0.1:" + vt.Port()
	p.listen()
	return p
}

func (p *proxy) listen() {
	var err error
	for i := 0; i < 500; i++ {
		if p.ln, err = net.Listen("tcp", p.addr); err == nil {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if err != nil {
		vt.Infra("cannot listen: %v", err)
	}
	ln := p.ln
	go func() {
		for {
			conn, err := ln.Accept()
			if err != nil {
				return
			}
			go p.serve(conn)
		}
	}()
}

func (p *proxy) track(c net.Conn) {
	p.mu.Lock()
	p.conns[c] = true
	p.mu.Unlock()
}

func (p *proxy) drop(cs ...net.Conn) {
	p.mu.Lock()
	for _, c := range cs {
		delete(p.conns, c)
		c.Close()
	}
	p.mu.Unlock()
}

func (p *proxy) serve(in net.Conn) {
	p.track(in)
	p.mu.Lock()
	p.accepted++
	cut := p.cutAfter
	p.mu.Unlock()
	out, err := net.Dial("tcp", p.target)
	if err != nil {
		p.drop(in)
		return
	}
	p.track(out)
	stalled := func() bool {
		p.mu.Lock()
		defer p.mu.Unlock()
		return p.mode == "stall"
	}
	go func() {
		defer p.drop(in, out)
		buf := make([]byte, 32768)
		for {
			n, err := in.Read(buf)
			if n > 0 && !stalled() {
				if _, err := out.Write(buf[:n]); err != nil {
					return
				}
			}
			if err != nil {
				return
			}
		}
	}()
	defer p.drop(in, out)
	buf := make([]byte, 32768)
	sent := 0
	for {
		n, err := out.Read(buf)
		if n > 0 && !stalled() {
			if cut > 0 && sent+n >= cut {
				in.Write(buf[:cut-sent])
				return
			}
			sent += n
			if _, err := in.Write(buf[:n]); err != nil {
				return
			}
		}
		if err != nil {
			return
		}
	}
}

// cutAll closes every connection.
func (p *proxy) cutAll() {
	p.mu.Lock()
	defer p.mu.Unlock()
	for c := range p.conns {
		c.Close()
		delete(p.conns, c)
	}
}

func (p *proxy) set(mode string) {
	p.mu.Lock()
	old := p.mode
	p.mode = mode
	p.mu.Unlock()
	if mode == "down" && old != "down" {
		p.ln.Close()
		p.cutAll()
	}
	if mode != "down" && old == "down" {
		p.listen()
	}
}

const (
	ifGateway  = 0 // what gateways call on a gateway
	ifProvider = 1 // what providers call on a gateway, and gateways on a provider
)

var msgTypes = []int32{2001, 2002, 2003}

// node is a server with two interfaces that answers with the route a request took.
type node struct {
	id    *nodeid.NodeID
	ports [2]string
	srv   *fcrp2pserver.FCRP2PServer
	front [2]*proxy
}

type cluster struct {
	reg   *vtreg.Server
	mgr   *fcrregistermgr.FCRRegisterMgr
	nodes []*node

	mu    sync.Mutex
	calls map[string][]string // token -> routes of the handler calls
}

// A body is "token|behaviour|milliseconds".
func (cl *cluster) handler(n int, iface int, typ int32) func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
	return func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
		f := strings.Split(string(m.GetMessageBody()), "|")
		for len(f) < 3 {
			f = append(f, "")
		}
		route := fmt.Sprintf("%d/%d/%d", n, iface, typ)
		cl.mu.Lock()
		cl.calls[f[0]] = append(cl.calls[f[0]], route)
		cl.mu.Unlock()
		var ms int
		fmt.Sscan(f[2], &ms)
		time.Sleep(time.Duration(ms) * time.Millisecond)
		switch f[1] {
		case "fail":
			return errors.New("handler fails")
		case "mute":
			return nil
		}
		return w.Write(fcrmessages.CreateFCRMessage(typ+1000, []byte(f[0]+"@"+route)), time.Minute)
	}
}

// requester sends its first argument as a message and hands out the answer.
func requester(typ int32) func(*fcrp2pserver.FCRServerReader, *fcrp2pserver.FCRServerWriter, ...interface{}) (*fcrmessages.FCRMessage, error) {
	return func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
		timeout := args[1].(time.Duration)
		if args[2].(bool) {
			return nil, errors.New("requester fails")
		}
		if err := w.Write(fcrmessages.CreateFCRMessage(typ, []byte(args[0].(string))), timeout); err != nil {
			return nil, err
		}
		m, err := r.Read(timeout)
		if err != nil {
			return nil, err
		}
		if args[3].(bool) { // an answer the requester does not accept
			return nil, errors.New("requester refuses the answer")
		}
		return m, nil
	}
}

var (
	clOnce sync.Once
	clu    *cluster
	token  int
)

func theCluster() *cluster {
	clOnce.Do(func() {
		cl := &cluster{reg: vtreg.New(), calls: map[string][]string{}}
		cl.mgr = fcrregistermgr.NewFCRRegisterMgr(cl.reg.URL(), true, true, time.Hour)
		var gs []register.GatewayRegister
		var ps []register.ProviderRegister
		for i := 0; i < 3; i++ {
			n := &node{id: vt.Node([]byte{byte(i + 1)}), ports: [2]string{vt.Port(), vt.Port()}}
			n.srv = fcrp2pserver.NewFCRP2PServer(n.ports[:], cl.mgr, time.Minute)
			for f := 0; f < 2; f++ {
				for k, typ := range msgTypes {
					if k == 2 && f != i%2 { // the third type exists on one interface of each node only
						continue
					}
					n.srv.AddHandler(n.ports[f], typ, cl.handler(i, f, typ))
				}
			}
			for _, typ := range append([]int32{2009}, msgTypes...) {
				n.srv.AddRequester(typ, requester(typ))
			}
			if err := n.srv.Start(); err != nil {
				vt.Infra("cannot start a server: %v", err)
			}
			n.front = [2]*proxy{newProxy("127.0.0.1:" + n.ports[0]), newProxy("127.0.0.1:" + n.ports[1])}
			gs = append(gs, register.GatewayRegister{NodeID: n.id.ToString(), NetworkInfoGateway: n.front[0].addr, NetworkInfoProvider: n.front[1].addr})
			// the same node is also listed as a provider, reachable at its second interface
			ps = append(ps, register.ProviderRegister{NodeID: n.id.ToString(), NetworkInfoGateway: n.front[1].addr})
			cl.nodes = append(cl.nodes, n)
		}
		// registered, but nobody is there
		gs = append(gs, register.GatewayRegister{NodeID: vt.Node([]byte{99}).ToString(), NetworkInfoGateway: "127.0.0.1:" + vt.Port(), NetworkInfoProvider: "not an address"})
		cl.reg.SetGateways(gs...)
		cl.reg.SetProviders(ps...)
		if err := cl.mgr.Start(); err != nil {
			vt.Infra("%v", err)
		}
		cl.mgr.Refresh()
		clu = cl
	})
	return clu
}

type call struct {
	from, to int
	via      string // gg, gp, p
	typ      int32
	beh      string
	ms       int
	reqFail  bool
	refuse   bool
	token    string
	timeout  time.Duration
}

func (k *call) iface() int {
	if k.via == "gg" {
		return ifGateway
	}
	return ifProvider
}

func (k *call) String() string {
	return fmt.Sprintf("%d->%d %s %d %s%d fail:%v refuse:%v", k.from, k.to, k.via, k.typ, k.beh, k.ms, k.reqFail, k.refuse)
}

func (cl *cluster) do(k *call) (m *fcrmessages.FCRMessage, err error) {
	s := cl.nodes[k.from].srv
	id := cl.nodes[k.to].id
	body := fmt.Sprintf("%s|%s|%d", k.token, k.beh, k.ms)
	vt.Within(k.timeout+vt.Hang, "a request to a peer", func() {
		switch k.via {
		case "gg":
			m, err = s.RequestGatewayFromGateway(id, k.typ, body, k.timeout, k.reqFail, k.refuse)
		case "gp":
			m, err = s.RequestGatewayFromProvider(id, k.typ, body, k.timeout, k.reqFail, k.refuse)
		default:
			m, err = s.RequestProvider(id, k.typ, body, k.timeout, k.reqFail, k.refuse)
		}
	})
	return
}

func (cl *cluster) handled(tok string) []string {
	cl.mu.Lock()
	defer cl.mu.Unlock()
	return append([]string{}, cl.calls[tok]...)
}

// registered reports whether the target has a handler for the call.
func (k *call) registered() bool {
	return k.typ == 2001 || k.typ == 2002 || (k.typ == 2003 && k.iface() == k.to%2)
}

// judge checks the outcome of a call through a network that is up; mayFail: the connection used may have been broken.
func (cl *cluster) judge(k *call, m *fcrmessages.FCRMessage, err error, mayFail bool) string {
	calls := cl.handled(k.token)
	route := fmt.Sprintf("%d/%d/%d", k.to, k.iface(), k.typ)
	if len(calls) > 1 {
		return fmt.Sprintf("%v: handled %d times: %v", k, len(calls), calls)
	}
	if len(calls) == 1 && calls[0] != route {
		return fmt.Sprintf("%v: handled as %s", k, calls[0])
	}
	if err != nil {
		if mayFail || k.reqFail || k.refuse || (k.registered() && (k.beh == "fail" || k.beh == "mute")) {
			return ""
		}
		return fmt.Sprintf("%v: error %v although the peer is up", k, err)
	}
	if k.reqFail || k.refuse {
		return fmt.Sprintf("%v: the requester failed, but the caller got %s", k, text(m))
	}
	if !k.registered() {
		if m.GetMessageType() != fcrmessages.InvalidMessageResponseType {
			return fmt.Sprintf("%v: a request of a type the peer does not know is answered with %s", k, text(m))
		}
		if len(calls) != 0 {
			return fmt.Sprintf("%v: a request of a type the peer does not know was handled as %v", k, calls)
		}
		return ""
	}
	if k.beh != "ok" {
		return fmt.Sprintf("%v: answered %s although the handler gives no answer", k, text(m))
	}
	if len(calls) != 1 || m.GetMessageType() != k.typ+1000 || string(m.GetMessageBody()) != k.token+"@"+route {
		return fmt.Sprintf("%v: answered %s with body %s, handled %v", k, text(m), m.GetMessageBody(), calls)
	}
	return ""
}

func someCall(rt *rapid.T) *call {
	k := &call{timeout: time.Minute, beh: "ok"}
	k.from = rapid.IntRange(0, 2).Draw(rt, "from")
	k.to = (k.from + rapid.IntRange(1, 2).Draw(rt, "to")) % 3
	k.via = rapid.SampledFrom([]string{"gg", "gg", "gp", "p"}).Draw(rt, "via")
	k.typ = rapid.SampledFrom([]int32{2001, 2001, 2002, 2003, 2009}).Draw(rt, "type")
	token++
	k.token = fmt.Sprintf("t%d", token)
	return k
}

func hostile(rt *rapid.T, port string) string {
	conn, err := net.Dial("tcp", "127.0.0.1:"+port)
	if err != nil {
		rt.Fatalf("the server no longer accepts connections: %v", err)
	}
	defer conn.Close()
	kind := rapid.SampledFrom([]string{"bytes", "length", "json", "silent", "reset"}).Draw(rt, "hostile")
	switch kind {
	case "bytes":
		conn.Write(rapid.SliceOfN(rapid.Byte(), 1, 300).Draw(rt, "bytes"))
	case "length":
		conn.Write([]byte{0xff, 0xff, 0xff, byte(rapid.IntRange(0, 255).Draw(rt, "l")), 'x'})
	case "json":
		b := rapid.SampledFrom([]string{"null", "{}", "[]", `{"message_type":2001}`, `{"message_type":2001,"message_body":null}`, `{"message_type":-1,"message_body":"AAAA"}`, `{"message_type":1e3}`, `"`}).Draw(rt, "json")
		conn.Write(append([]byte{0, 0, 0, byte(len(b))}, b...))
	case "reset":
		conn.Write([]byte{0, 0, 1, 0, 'a'})
		conn.(*net.TCPConn).SetLinger(0)
	}
	return kind
}

func TestN02_History(t *testing.T) {
	vt.Check(t, 30, func(rt *rapid.T, c *vt.Case) {
		cl := theCluster()
		// start from fresh connections
		for _, n := range cl.nodes {
			for _, p := range n.front {
				p.set("up")
				p.mu.Lock()
				p.cutAfter = 0
				p.mu.Unlock()
			}
		}
		// broken[i] tells that node i may hold a pooled connection to that interface which no longer works
		type edge struct {
			from, to int
			via      string
		}
		broken := map[edge]bool{}
		for from := range cl.nodes {
			for to := range cl.nodes {
				for _, via := range []string{"gg", "gp", "p"} {
					broken[edge{from, to, via}] = true
				}
			}
		}
		breakAll := func(to, iface int) {
			for e := range broken {
				if e.to == to && (e.via == "gg") == (iface == ifGateway) {
					broken[e] = true
				}
			}
		}
		faults, oks := 0, 0
		steps := rapid.IntRange(3, 25).Draw(rt, "steps")
		for i := 0; i < steps; i++ {
			op := rapid.SampledFrom([]string{"call", "call", "call", "call", "call", "cut", "down", "stall", "half", "failing", "mute", "late", "hostile", "unknown", "unreachable", "norequester", "reqfail", "refuse"}).Draw(rt, "op")
			k := someCall(rt)
			e := edge{k.from, k.to, k.via}
			p := cl.nodes[k.to].front[k.iface()]
			c.Addf("%s %v;", op, k)
			// settle makes the call until it works, as it must at once or right after one error
			settle := func() {
				m, err := cl.do(k)
				if s := cl.judge(k, m, err, broken[e]); s != "" {
					rt.Fatalf("%s", s)
				}
				if err != nil && broken[e] {
					broken[e] = false
					token++
					k.token = fmt.Sprintf("t%d", token)
					m, err = cl.do(k)
					if s := cl.judge(k, m, err, false); s != "" {
						rt.Fatalf("after an error, with the peer back: %s", s)
					}
				}
				broken[e] = false
				oks++
			}
			switch op {
			case "call":
				settle()
			case "cut":
				p.cutAll()
				breakAll(k.to, k.iface())
				settle()
				faults++
			case "down":
				p.set("down")
				breakAll(k.to, k.iface())
				m, err := cl.do(k)
				if err == nil {
					rt.Fatalf("%v: the peer is down, but answered %s", k, text(m))
				}
				if len(cl.handled(k.token)) > 0 {
					rt.Fatalf("%v: handled although the peer is down", k)
				}
				broken[e] = false
				if rapid.Bool().Draw(rt, "again") {
					if _, err := cl.do(k); err == nil {
						rt.Fatalf("%v: the peer is down, but answered", k)
					}
				}
				// others still work
				o := someCall(rt)
				if o.to != k.to {
					oe := edge{o.from, o.to, o.via}
					m, err := cl.do(o)
					if s := cl.judge(o, m, err, broken[oe]); s != "" {
						rt.Fatalf("while a peer is down: %s", s)
					}
					broken[oe] = false
				}
				p.set("up")
				token++
				k.token = fmt.Sprintf("t%d", token)
				settle()
				faults++
			case "stall":
				settle() // so that there is a connection
				p.set("stall")
				token++
				k.token = fmt.Sprintf("t%d", token)
				k.timeout = 100 * time.Millisecond
				start := time.Now()
				m, err := cl.do(k)
				if err == nil {
					rt.Fatalf("%v: the peer is stalled, but answered %s", k, text(m))
				}
				if d := time.Since(start); d > slack {
					rt.Fatalf("%v: took %v with a stalled peer, timeout %v", k, d, k.timeout)
				}
				p.set("up")
				// what the stall swallowed is lost on the connections that were used during it
				token++
				k.token = fmt.Sprintf("t%d", token)
				k.timeout = time.Minute
				settle()
				faults++
			case "half":
				// the connection breaks inside the answer
				p.cutAll()
				breakAll(k.to, k.iface())
				settle()
				p.cutAll()
				breakAll(k.to, k.iface())
				p.mu.Lock()
				p.cutAfter = rapid.IntRange(1, 60).Draw(rt, "cut after")
				p.mu.Unlock()
				for j := 0; j < 2; j++ {
					token++
					k.token = fmt.Sprintf("t%d", token)
					m, err := cl.do(k)
					if err == nil {
						rt.Fatalf("%v: got %s from an answer cut after %d bytes", k, text(m), p.cutAfter)
					}
					if n := len(cl.handled(k.token)); n > 1 {
						rt.Fatalf("%v: handled %d times", k, n)
					}
				}
				p.mu.Lock()
				p.cutAfter = 0
				p.mu.Unlock()
				p.cutAll()
				breakAll(k.to, k.iface())
				token++
				k.token = fmt.Sprintf("t%d", token)
				settle()
				faults++
			case "failing":
				k.beh = "fail"
				settle()
				k = &call{from: k.from, to: k.to, via: k.via, typ: 2001, beh: "ok", timeout: time.Minute}
				token++
				k.token = fmt.Sprintf("t%d", token)
				settle()
				faults++
			case "mute":
				settle()
				k.beh = "mute"
				k.typ = 2001
				k.timeout = 100 * time.Millisecond
				token++
				k.token = fmt.Sprintf("t%d", token)
				if m, err := cl.do(k); err == nil {
					rt.Fatalf("%v: no answer was given, but got %s", k, text(m))
				}
				k.beh, k.timeout = "ok", time.Minute
				token++
				k.token = fmt.Sprintf("t%d", token)
				settle()
				faults++
			case "late":
				// an answer that comes after the caller has given up is nobody else's
				settle()
				k.ms, k.typ = rapid.SampledFrom([]int{300, 600}).Draw(rt, "late by"), 2001
				k.timeout = 100 * time.Millisecond
				token++
				k.token = fmt.Sprintf("t%d", token)
				m, err := cl.do(k)
				if s := cl.judge(k, m, err, true); s != "" {
					rt.Fatalf("%s", s)
				}
				if rapid.Bool().Draw(rt, "meanwhile") {
					time.Sleep(time.Duration(k.ms) * time.Millisecond) // the answer is there by now
				}
				k.ms, k.timeout = 0, time.Minute
				for j := 0; j < 2; j++ {
					token++
					k.token = fmt.Sprintf("t%d", token)
					settle()
				}
				faults++
			case "hostile":
				c.Addf("%s;", hostile(rt, cl.nodes[k.to].ports[k.iface()]))
				settle()
				faults++
			case "unknown":
				s := cl.nodes[k.from].srv
				id := vt.Node([]byte{200, byte(i)})
				for _, err := range []error{
					errOf(s.RequestGatewayFromGateway(id, k.typ, "x|ok|0", time.Second, false, false)),
					errOf(s.RequestGatewayFromProvider(id, k.typ, "x|ok|0", time.Second, false, false)),
					errOf(s.RequestProvider(id, k.typ, "x|ok|0", time.Second, false, false))} {
					if err == nil {
						rt.Fatalf("a request to an unregistered node succeeds")
					}
				}
				settle()
			case "unreachable":
				s := cl.nodes[k.from].srv
				id := vt.Node([]byte{99})
				for j := 0; j < 2; j++ {
					if errOf(s.RequestGatewayFromGateway(id, k.typ, "x|ok|0", time.Second, false, false)) == nil || errOf(s.RequestGatewayFromProvider(id, k.typ, "x|ok|0", time.Second, false, false)) == nil {
						rt.Fatalf("a request to an unreachable node succeeds")
					}
				}
				settle()
			case "norequester":
				k.typ = 2007
				if m, err := cl.do(k); err == nil {
					rt.Fatalf("a request without a requester gives %s", text(m))
				}
			case "reqfail", "refuse":
				settle()
				k.reqFail, k.refuse = op == "reqfail", op == "refuse"
				token++
				k.token = fmt.Sprintf("t%d", token)
				m, err := cl.do(k)
				if s := cl.judge(k, m, err, false); s != "" {
					rt.Fatalf("%s", s)
				}
				if op == "reqfail" && len(cl.handled(k.token)) > 0 {
					rt.Fatalf("%v: handled", k)
				}
				k.reqFail, k.refuse = false, false
				token++
				k.token = fmt.Sprintf("t%d", token)
				settle()
			}
		}
		if faults > 0 && oks > 1 {
			c.NonTrivial("calls with faults")
		}
	})
}

func errOf(_ *fcrmessages.FCRMessage, err error) error { return err }

func TestN02_Concurrent(t *testing.T) {
	vt.Check(t, 25, func(rt *rapid.T, c *vt.Case) {
		cl := theCluster()
		for _, n := range cl.nodes {
			for _, p := range n.front {
				p.set("up")
				p.mu.Lock()
				p.cutAfter = 0
				p.mu.Unlock()
			}
		}
		// whatever connections the cases before left behind are given up
		for from := range cl.nodes {
			for to := range cl.nodes {
				for _, via := range []string{"gg", "gp", "p"} {
					token++
					k := &call{from: from, to: to, via: via, typ: 2001, beh: "ok", timeout: time.Minute, token: fmt.Sprintf("t%d", token)}
					if rapid.Bool().Draw(rt, "fresh") {
						k.refuse = true
					}
					cl.do(k)
					k.refuse = false
				}
			}
		}
		threads := rapid.IntRange(2, 8).Draw(rt, "threads")
		one := rapid.Bool().Draw(rt, "one peer") // all calls go between the same two nodes
		var plans [][]*call
		for i := 0; i < threads; i++ {
			var ks []*call
			for j, n := 0, rapid.IntRange(1, 6).Draw(rt, "calls"); j < n; j++ {
				k := someCall(rt)
				if one {
					k.from, k.to = 0, 1
				}
				k.beh = rapid.SampledFrom([]string{"ok", "ok", "ok", "ok", "fail"}).Draw(rt, "behaviour")
				k.refuse = rapid.IntRange(0, 7).Draw(rt, "refuse") == 0
				k.reqFail = rapid.IntRange(0, 7).Draw(rt, "reqfail") == 0
				k.ms = rapid.SampledFrom([]int{0, 0, 1, 3}).Draw(rt, "ms")
				ks = append(ks, k)
				c.Addf("%d:%v;", i, k)
			}
			plans = append(plans, ks)
		}
		cutter := rapid.Bool().Draw(rt, "cutter") // connections are also cut at random times
		seed := rapid.Int64().Draw(rt, "cut times")
		c.NonTrivial(fmt.Sprintf("%d threads, cut %v", threads, cutter))
		var (
			mu   sync.Mutex
			bad  []string
			stop = make(chan bool)
		)
		var fns []func()
		for i := range plans {
			i := i
			fns = append(fns, func() {
				for _, k := range plans[i] {
					m, err := cl.do(k)
					if s := cl.judge(k, m, err, cutter); s != "" {
						mu.Lock()
						bad = append(bad, s)
						mu.Unlock()
					}
				}
			})
		}
		var wg sync.WaitGroup
		if cutter {
			wg.Add(1)
			go func() {
				defer wg.Done()
				rnd := rand.New(rand.NewSource(seed))
				for {
					select {
					case <-stop:
						return
					case <-time.After(time.Duration(rnd.Intn(3000)) * time.Microsecond):
						cl.nodes[rnd.Intn(3)].front[rnd.Intn(2)].cutAll()
					}
				}
			}()
		}
		bad = append(bad, vt.Parallel("requests to peers", fns...)...)
		close(stop)
		wg.Wait()
		if len(bad) > 0 {
			rt.Fatalf("%s", strings.Join(bad, "\n"))
		}
		// afterwards everything works again, at the latest after one error
		for _, via := range []string{"gg", "gp", "p"} {
			for j := 0; j < 2; j++ {
				token++
				k := &call{from: 0, to: 1, via: via, typ: 2001, beh: "ok", timeout: time.Minute, token: fmt.Sprintf("t%d", token)}
				m, err := cl.do(k)
				if s := cl.judge(k, m, err, cutter && j == 0); s != "" {
					rt.Fatalf("after concurrent calls: %s", s)
				}
			}
		}
	})
}

// Connections that were idle for longer than the servers' time-out still work.
func TestN02_Idle(t *testing.T) {
	vt.Check(t, 2, func(rt *rapid.T, c *vt.Case) {
		const idle = 1500 * time.Millisecond
		reg := vtreg.New()
		defer reg.Close()
		mgr := fcrregistermgr.NewFCRRegisterMgr(reg.URL(), true, true, time.Hour)
		cl := &cluster{calls: map[string][]string{}}
		var gs []register.GatewayRegister
		var ps []register.ProviderRegister
		const callers = 8
		for i := 0; i < callers+2; i++ {
			n := &node{id: vt.Node([]byte{byte(i + 1)}), ports: [2]string{vt.Port(), vt.Port()}}
			n.srv = fcrp2pserver.NewFCRP2PServer(n.ports[:], mgr, idle)
			for f := 0; f < 2; f++ {
				for _, typ := range msgTypes[:2] {
					n.srv.AddHandler(n.ports[f], typ, cl.handler(i, f, typ))
				}
			}
			for _, typ := range append([]int32{2009}, msgTypes...) {
				n.srv.AddRequester(typ, requester(typ))
			}
			if err := n.srv.Start(); err != nil {
				vt.Infra("cannot start a server: %v", err)
			}
			gs = append(gs, register.GatewayRegister{NodeID: n.id.ToString(), NetworkInfoGateway: "127.0.0.1:" + n.ports[0], NetworkInfoProvider: "127.0.0.1:" + n.ports[1]})
			ps = append(ps, register.ProviderRegister{NodeID: n.id.ToString(), NetworkInfoGateway: "127.0.0.1:" + n.ports[1]})
			cl.nodes = append(cl.nodes, n)
		}
		reg.SetGateways(gs...)
		reg.SetProviders(ps...)
		if err := mgr.Start(); err != nil {
			vt.Infra("%v", err)
		}
		defer mgr.Shutdown()
		mgr.Refresh()
		for i := range cl.nodes {
			for f := 0; f < 2; f++ { // the servers listen from now on at the latest
				for j := 0; ; j++ {
					conn, err := net.Dial("tcp", "127.0.0.1:"+cl.nodes[i].ports[f])
					if err == nil {
						conn.Close()
						break
					}
					if j > 1000 {
						vt.Infra("a server does not listen: %v", err)
					}
					time.Sleep(10 * time.Millisecond)
				}
			}
		}
		var mu sync.Mutex
		var bad []string
		var fns []func()
		for i := 0; i < callers; i++ {
			from := i
			type step struct {
				k     *call
				pause time.Duration
			}
			var plan []step
			to, via := callers+rapid.IntRange(0, 1).Draw(rt, "to"), rapid.SampledFrom([]string{"gg", "gp", "p"}).Draw(rt, "via")
			for j := rapid.IntRange(2, 3).Draw(rt, "calls"); j > 0; j-- {
				token++
				k := &call{from: from, to: to, via: via, typ: rapid.SampledFrom([]int32{2001, 2002, 2009}).Draw(rt, "type"), beh: "ok", timeout: time.Minute, token: fmt.Sprintf("t%d", token)}
				plan = append(plan, step{k, time.Duration(rapid.SampledFrom([]int{2000, 0, 700, 3500}).Draw(rt, "pause")) * time.Millisecond})
				c.Addf("%d: %v, %v;", i, k, plan[len(plan)-1].pause)
			}
			fns = append(fns, func() {
				for _, st := range plan {
					m, err := cl.do(st.k)
					if s := cl.judge(st.k, m, err, false); s != "" {
						mu.Lock()
						bad = append(bad, s)
						mu.Unlock()
					}
					time.Sleep(st.pause)
				}
			})
		}
		bad = append(bad, vt.Parallel("requests with pauses", fns...)...)
		if len(bad) > 0 {
			rt.Fatalf("%s", strings.Join(bad, "\n"))
		}
		c.NonTrivial("idle connections")
	})
}
