package net

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"io"
	"net"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrp2pserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

// slack is how much later than its timeout a call may still return.
const slack = 30 * time.Second

func frame(m *fcrmessages.FCRMessage) []byte {
	b, err := m.FCRMsgToBytes()
	if err != nil {
		panic(err)
	}
	return append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...)
}

func readFrame(r io.Reader) (*fcrmessages.FCRMessage, error) {
	h := make([]byte, 4)
	if _, err := io.ReadFull(r, h); err != nil {
		return nil, err
	}
	var b bytes.Buffer
	if _, err := io.CopyN(&b, r, int64(binary.BigEndian.Uint32(h))); err != nil {
		return nil, err
	}
	return fcrmessages.FCRMsgFromBytes(b.Bytes())
}

func text(m *fcrmessages.FCRMessage) string {
	if m == nil {
		return "nothing"
	}
	b, err := m.FCRMsgToBytes()
	if err != nil {
		return "error"
	}
	return string(b)
}

func short(s string) string {
	if len(s) > 200 {
		return s[:200] + "..."
	}
	return s
}

// body generates message contents of every size class.
func body(rt *rapid.T) []byte {
	n := rapid.OneOf(rapid.IntRange(0, 40), rapid.SampledFrom([]int{255, 256, 1000, 3000, 4000, 4096, 5000, 16384, 65535, 65536, 100000})).Draw(rt, "size")
	if rapid.IntRange(0, 60).Draw(rt, "big") == 0 {
		n = rapid.SampledFrom([]int{1 << 20, 3 << 20, 13 << 20}).Draw(rt, "big size")
	}
	b := make([]byte, n)
	x := rapid.Uint32().Draw(rt, "fill")
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

const (
	tEcho  = 1001 // answered with its own body and type 1002
	tQuiet = 1003 // not answered
	tTwo   = 1004 // the handler reads one more message itself and answers both
)

// listener is a P2P server with an echoing handler; conversations are told apart by remote address.
type listener struct {
	port string
	mu   sync.Mutex
	got  map[string]*[]string
}

var listeners struct {
	sync.Mutex
	m map[time.Duration]*listener
}

func theListener(timeout time.Duration) *listener {
	listeners.Lock()
	defer listeners.Unlock()
	if l := listeners.m[timeout]; l != nil {
		return l
	}
	l := &listener{port: vt.Port(), got: map[string]*[]string{}}
	s := fcrp2pserver.NewFCRP2PServer([]string{l.port}, nil, timeout)
	// the conversation a message belongs to is the first 16 bytes of its body
	note := func(m *fcrmessages.FCRMessage) {
		b := m.GetMessageBody()
		if len(b) < 16 {
			l.mu.Lock()
			*l.conv("stray") = append(*l.conv("stray"), text(m))
			l.mu.Unlock()
			return
		}
		l.mu.Lock()
		*l.conv(string(b[:16])) = append(*l.conv(string(b[:16])), text(m))
		l.mu.Unlock()
	}
	s.AddHandler(l.port, tEcho, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
		note(m)
		return w.Write(fcrmessages.CreateFCRMessage(tEcho+1, m.GetMessageBody()), timeout)
	})
	s.AddHandler(l.port, tQuiet, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
		note(m)
		return nil
	})
	s.AddHandler(l.port, tTwo, func(r *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, m *fcrmessages.FCRMessage) error {
		note(m)
		m2, err := r.Read(timeout)
		if err != nil {
			return err
		}
		note(m2)
		return w.Write(fcrmessages.CreateFCRMessage(tTwo+1, m2.GetMessageBody()), timeout)
	})
	if err := s.Start(); err != nil {
		vt.Infra("cannot start a server: %v", err)
	}
	if listeners.m == nil {
		listeners.m = map[time.Duration]*listener{}
	}
	listeners.m[timeout] = l
	return l
}

func (l *listener) conv(k string) *[]string {
	if l.got[k] == nil {
		l.got[k] = new([]string)
	}
	return l.got[k]
}

func (l *listener) read(k string) []string {
	l.mu.Lock()
	defer l.mu.Unlock()
	return append([]string{}, *l.conv(k)...)
}

func dial(port string) net.Conn {
	c, err := net.Dial("tcp", "127.0.0.1:"+port)
	if err != nil {
		vt.Infra("cannot connect: %v", err)
	}
	return c
}

var convNo int

// conversation makes messages of one conversation, with expected handler calls and replies.
func conversation(rt *rapid.T, min, max int) (key string, msgs []*fcrmessages.FCRMessage, replies []string) {
	convNo++
	key = fmt.Sprintf("%016d", convNo)
	n := rapid.IntRange(min, max).Draw(rt, "messages")
	for len(msgs) < n {
		b := append([]byte(key), body(rt)...)
		switch rapid.SampledFrom([]string{"echo", "echo", "quiet", "two"}).Draw(rt, "kind") {
		case "echo":
			msgs = append(msgs, fcrmessages.CreateFCRMessage(tEcho, b))
			replies = append(replies, text(fcrmessages.CreateFCRMessage(tEcho+1, b)))
		case "quiet":
			msgs = append(msgs, fcrmessages.CreateFCRMessage(tQuiet, b))
		case "two":
			b2 := append([]byte(key), body(rt)...)
			msgs = append(msgs, fcrmessages.CreateFCRMessage(tTwo, b), fcrmessages.CreateFCRMessage(rapid.Int32Range(1001, 1009).Draw(rt, "second"), b2))
			replies = append(replies, text(fcrmessages.CreateFCRMessage(tTwo+1, b2)))
		}
		if rapid.Bool().Draw(rt, "signed") {
			if err := msgs[len(msgs)-1].Sign(vt.Key(1), vt.Ver(1)); err != nil {
				panic(err)
			}
		}
	}
	return key, msgs, replies
}

// cuts splits a stream into the segments to send.
func cuts(rt *rapid.T, bounds []int, total int) []int {
	var at []int
	switch rapid.SampledFrom([]string{"whole", "bounds", "bytes", "some", "inside"}).Draw(rt, "segments") {
	case "whole":
	case "bounds":
		at = append(at, bounds...)
	case "bytes":
		for i := 1; i < total && i < 60; i++ {
			at = append(at, i)
		}
	case "some":
		for i, n := 0, rapid.IntRange(1, 8).Draw(rt, "cuts"); i < n; i++ {
			at = append(at, rapid.IntRange(0, total).Draw(rt, "cut"))
		}
	case "inside":
		for _, b := range bounds {
			at = append(at, b+rapid.IntRange(-5, 5).Draw(rt, "off"))
		}
	}
	return at
}

func sendCut(conn net.Conn, stream []byte, at []int, pause time.Duration) error {
	mark := map[int]bool{}
	for _, a := range at {
		mark[a] = true
	}
	last := 0
	for i := 1; i <= len(stream); i++ {
		if mark[i] || i == len(stream) {
			if _, err := conn.Write(stream[last:i]); err != nil {
				return err
			}
			last = i
			time.Sleep(pause)
		}
	}
	return nil
}

// TestN01_Incoming: what a server's handlers get from a byte stream.
func TestN01_Incoming(t *testing.T) {
	vt.Check(t, 100, func(rt *rapid.T, c *vt.Case) {
		l := theListener(5 * time.Minute)
		key, msgs, replies := conversation(rt, 1, 8)
		var stream []byte
		var bounds []int
		for _, m := range msgs {
			stream = append(stream, frame(m)...)
			bounds = append(bounds, len(stream))
		}
		// damage: what comes after the messages
		end := rapid.SampledFrom([]string{"none", "none", "truncated", "length only", "half length", "garbage", "huge length", "empty message", "not json"}).Draw(rt, "end")
		extra := frame(fcrmessages.CreateFCRMessage(tQuiet, append([]byte(key), body(rt)...)))
		switch end {
		case "none":
			extra = nil
		case "truncated":
			extra = extra[:rapid.IntRange(5, len(extra)-1).Draw(rt, "kept")]
		case "length only":
			extra = extra[:4]
		case "half length":
			extra = extra[:rapid.IntRange(1, 3).Draw(rt, "kept")]
		case "garbage":
			extra = append([]byte{0, 0, 0, 40}, bytes.Repeat([]byte("garbage{"), 5)...)
		case "huge length":
			binary.BigEndian.PutUint32(extra, rapid.SampledFrom([]uint32{0xffffffff, 0x80000000, 0x7fffffff, uint32(len(extra) - 3), uint32(len(extra)) + 1}).Draw(rt, "claimed"))
		case "empty message":
			extra = []byte{0, 0, 0, 0}
		case "not json":
			b := []byte(rapid.SampledFrom([]string{"[1,2]", "5", `"x"`, "{", `{"message_type":"x"}`, `{"message_type":99999999999}`, `{"message_body":"***"}`}).Draw(rt, "text"))
			extra = append(binary.BigEndian.AppendUint32(nil, uint32(len(b))), b...)
		}
		stream = append(stream, extra...)
		at := cuts(rt, bounds, len(stream))
		pause := time.Duration(rapid.SampledFrom([]int{0, 0, 100, 1000}).Draw(rt, "pause")) * time.Microsecond
		var sizes []int
		for _, m := range msgs {
			sizes = append(sizes, len(m.GetMessageBody()))
		}
		c.Addf("%d messages of %v bytes, %s, cut at %v, pause %v", len(msgs), sizes, end, short(fmt.Sprint(at)), pause)
		c.NonTrivial("end " + end)
		conn := dial(l.port)
		defer conn.Close()
		done := make(chan []string, 1)
		go func() {
			var got []string
			conn.SetReadDeadline(time.Now().Add(vt.Hang))
			for {
				m, err := readFrame(conn)
				if err != nil {
					if ne, ok := err.(net.Error); ok && ne.Timeout() {
						got = append(got, "TIMEOUT")
					}
					break
				}
				got = append(got, text(m))
			}
			done <- got
		}()
		err := sendCut(conn, stream, at, pause)
		if err != nil && end == "none" {
			rt.Fatalf("the server closed the connection: %v", err)
		}
		// the end of the stream tells the server that nothing follows
		conn.(*net.TCPConn).CloseWrite()
		got := <-done
		want := []string{}
		for _, m := range msgs {
			want = append(want, text(m))
		}
		handled := l.read(key)
		if strings.Join(handled, "\n") != strings.Join(want, "\n") {
			rt.Fatalf("%d messages sent, %d handled (end: %s):\nsent %v\ngot  %v", len(want), len(handled), end, shorts(want), shorts(handled))
		}
		// the connection is closed with unread data in it after damage, which may cut the replies short
		if end != "none" && len(got) <= len(replies) {
			replies = replies[:len(got)]
		}
		if strings.Join(got, "\n") != strings.Join(replies, "\n") {
			rt.Fatalf("%d replies expected, %d received (end: %s):\nwant %v\ngot  %v", len(replies), len(got), end, shorts(replies), shorts(got))
		}
		if s := l.read("stray"); len(s) > 0 {
			rt.Fatalf("the server handled messages nobody sent: %v", shorts(s))
		}
	})
}

func shorts(s []string) []string {
	var r []string
	for _, x := range s {
		r = append(r, short(x))
	}
	return r
}

// TestN01_Stall: pauses longer than the timeout, between messages and inside them.
func TestN01_Stall(t *testing.T) {
	const timeout = 200 * time.Millisecond
	vt.Check(t, 14, func(rt *rapid.T, c *vt.Case) {
		l := theListener(timeout)
		key, msgs, _ := conversation(rt, 2, 5)
		var stream []byte
		var bounds []int
		for i := range msgs {
			// every message is handled on its own here, as a pause inside a handler's second read is a failure
			b := append([]byte(key), msgs[i].GetMessageBody()[16:]...)
			if len(b) > 5000 {
				b = b[:5000]
			}
			msgs[i] = fcrmessages.CreateFCRMessage(tEcho, b)
			stream = append(stream, frame(msgs[i])...)
			bounds = append(bounds, len(stream))
		}
		k := rapid.IntRange(0, len(msgs)-2).Draw(rt, "pause after")
		off := rapid.SampledFrom([]int{0, 0, 1, 2, 3, 4, 5, 17, -1, -2}).Draw(rt, "offset")
		next := frame(msgs[k+1])
		if off < 0 {
			off += len(next)
		}
		cut := bounds[k] + off
		give := rapid.Bool().Draw(rt, "never resume") && off > 0
		c.Addf("%d messages, pause %d bytes after message %d, never resumes: %v", len(msgs), off, k, give)
		c.NonTrivial(fmt.Sprintf("inside: %v, never resumes: %v", off > 0, give))
		conn := dial(l.port)
		defer conn.Close()
		replies := make(chan string, 100)
		go func() {
			defer close(replies)
			conn.SetReadDeadline(time.Now().Add(slack))
			for {
				m, err := readFrame(conn)
				if err != nil {
					if ne, ok := err.(net.Error); ok && ne.Timeout() {
						replies <- "TIMEOUT"
					}
					return
				}
				replies <- text(m)
			}
		}()
		got := []string{}
		take := func(n int) {
			for len(got) < n {
				r, ok := <-replies
				if !ok {
					return
				}
				got = append(got, r)
			}
		}
		// each message before the pause is answered before the next is sent, in one segment, so that only the pause takes time
		for i := 0; i <= k; i++ {
			conn.Write(frame(msgs[i]))
			take(i + 1)
		}
		if len(got) != k+1 {
			rt.Fatalf("%d of %d messages answered before any pause", len(got), k+1)
		}
		conn.Write(next[:off])
		if give {
			take(len(msgs) + 100)
			for _, r := range got {
				if r == "TIMEOUT" {
					rt.Fatalf("the connection is still open %v after its peer stalled inside a message (timeout %v)", slack, timeout)
				}
			}
		} else {
			time.Sleep(3 * timeout)
			rest := stream[cut:]
			if off == 0 {
				for i := k + 1; i < len(msgs); i++ {
					conn.Write(frame(msgs[i]))
					take(i + 1)
				}
			} else {
				conn.Write(rest)
			}
			conn.(*net.TCPConn).CloseWrite()
			take(len(msgs) + 100)
		}
		handled := l.read(key)
		for i, h := range handled {
			if i >= len(msgs) || h != text(msgs[i]) {
				rt.Fatalf("message %d handled is %s, which was not sent as such (pause %d bytes after message %d)", i, short(h), off, k)
			}
		}
		if off == 0 && len(handled) != len(msgs) {
			rt.Fatalf("%d messages sent with a pause between them, %d handled", len(msgs), len(handled))
		}
		if off > 0 && len(handled) < k+1 {
			rt.Fatalf("%d complete messages sent before a stall, %d handled", k+1, len(handled))
		}
		for i, r := range got {
			if i >= len(msgs) || r != text(fcrmessages.CreateFCRMessage(tEcho+1, msgs[i].GetMessageBody())) {
				rt.Fatalf("reply %d is %s", i, short(r))
			}
		}
		if s := l.read("stray"); len(s) > 0 {
			rt.Fatalf("the server handled messages nobody sent: %v", shorts(s))
		}
	})
}

// peerPlan is what a fake peer does with one connection.
type peerPlan struct {
	out   []byte // bytes sent once the request has arrived
	at    []int
	close bool // close afterwards, otherwise stay silent
}

type requesterSide struct {
	srv *fcrp2pserver.FCRP2PServer
	reg *vtreg.Server
	mgr *fcrregistermgr.FCRRegisterMgr
	ln  net.Listener
	id  *nodeid.NodeID

	mu   sync.Mutex
	plan peerPlan
	got  []string
}

var (
	reqOnce sync.Once
	req     *requesterSide
)

// theRequester is a server whose only peer is a scripted one.
func theRequester() *requesterSide {
	reqOnce.Do(func() {
		r := &requesterSide{reg: vtreg.New(), id: vt.Node([]byte{7})}
		ln, err := net.Listen("tcp", "127.0.0.1:0")
		if err != nil {
			vt.Infra("cannot listen: %v", err)
		}
		r.ln = ln
		r.reg.SetGateways(register.GatewayRegister{NodeID: r.id.ToString(), NetworkInfoGateway: ln.Addr().String(), NetworkInfoProvider: ln.Addr().String()})
		r.reg.SetProviders(register.ProviderRegister{NodeID: r.id.ToString(), NetworkInfoGateway: ln.Addr().String()})
		r.mgr = fcrregistermgr.NewFCRRegisterMgr(r.reg.URL(), true, true, time.Hour)
		if err := r.mgr.Start(); err != nil {
			vt.Infra("%v", err)
		}
		r.mgr.Refresh()
		go func() {
			for {
				conn, err := ln.Accept()
				if err != nil {
					return
				}
				go r.serve(conn)
			}
		}()
		r.srv = fcrp2pserver.NewFCRP2PServer([]string{vt.Port()}, r.mgr, time.Minute)
		// writes the messages given and reads the number given
		r.srv.AddRequester(tEcho, func(rd *fcrp2pserver.FCRServerReader, w *fcrp2pserver.FCRServerWriter, args ...interface{}) (*fcrmessages.FCRMessage, error) {
			timeout := args[2].(time.Duration)
			got := args[3].(*[]string)
			for _, m := range args[0].([]*fcrmessages.FCRMessage) {
				if err := w.Write(m, timeout); err != nil {
					return nil, err
				}
			}
			var last *fcrmessages.FCRMessage
			for i := 0; i < args[1].(int); i++ {
				m, err := rd.Read(timeout)
				if err != nil {
					return nil, err
				}
				*got = append(*got, text(m))
				last = m
			}
			return last, nil
		})
		if err := r.srv.Start(); err != nil {
			vt.Infra("cannot start a server: %v", err)
		}
		req = r
	})
	return req
}

func (r *requesterSide) serve(conn net.Conn) {
	defer conn.Close()
	for {
		m, err := readFrame(conn)
		if err != nil {
			return
		}
		r.mu.Lock()
		r.got = append(r.got, text(m))
		p := r.plan
		r.plan = peerPlan{}
		r.mu.Unlock()
		if len(p.out) > 0 {
			if sendCut(conn, p.out, p.at, 100*time.Microsecond) != nil {
				return
			}
		}
		if p.close {
			return
		}
	}
}

// TestN01_Outgoing: what a requester gets from a peer's byte stream.
func TestN01_Outgoing(t *testing.T) {
	vt.Check(t, 80, func(rt *rapid.T, c *vt.Case) {
		r := theRequester()
		var msgs []*fcrmessages.FCRMessage
		var stream []byte
		var bounds []int
		var want []string
		n := rapid.IntRange(1, 4).Draw(rt, "answers")
		for i := 0; i < n; i++ {
			m := fcrmessages.CreateFCRMessage(rapid.Int32().Draw(rt, "type"), body(rt))
			want = append(want, text(m))
			stream = append(stream, frame(m)...)
			bounds = append(bounds, len(stream))
		}
		out := fcrmessages.CreateFCRMessage(rapid.Int32().Draw(rt, "request type"), body(rt))
		msgs = append(msgs, out)
		fault := rapid.SampledFrom([]string{"none", "none", "none", "truncated", "garbage", "huge", "silent", "closed"}).Draw(rt, "fault")
		timeout := time.Minute
		p := peerPlan{out: stream}
		full := n
		switch fault {
		case "truncated", "silent":
			kept := rapid.IntRange(0, len(stream)-1).Draw(rt, "kept")
			if rapid.Bool().Draw(rt, "near a boundary") {
				kept = bounds[rapid.IntRange(0, n-1).Draw(rt, "boundary")] - rapid.IntRange(1, 6).Draw(rt, "less")
			}
			p.out = stream[:kept]
			p.close = fault == "truncated"
			if fault == "silent" {
				timeout = 150 * time.Millisecond
			}
			full = 0
			for _, b := range bounds {
				if b <= kept {
					full++
				}
			}
		case "garbage":
			full = n - 1
			last := 0
			if n > 1 {
				last = bounds[n-2]
			}
			b := []byte(rapid.SampledFrom([]string{"x", "", "[]", "{", `{"message_type":[]}`, strings.Repeat("g", 3000)}).Draw(rt, "garbage"))
			p.out = append(append(append([]byte{}, stream[:last]...), binary.BigEndian.AppendUint32(nil, uint32(len(b)))...), b...)
		case "huge":
			full = n - 1
			last := 0
			if n > 1 {
				last = bounds[n-2]
			}
			p.out = append([]byte{}, stream...)
			binary.BigEndian.PutUint32(p.out[last:], rapid.SampledFrom([]uint32{0xffffffff, 0xfffffff0, 0x80000000, 1 << 30}).Draw(rt, "claimed"))
			p.close = true
		case "closed":
			p.out, p.close, full = nil, true, 0
		}
		p.at = cuts(rt, bounds, len(p.out))
		c.Addf("%d answers in %d bytes, fault %s, sent %d bytes cut at %s", n, len(stream), fault, len(p.out), short(fmt.Sprint(p.at)))
		c.NonTrivial("fault " + fault)
		r.mu.Lock()
		r.plan, r.got = p, nil
		r.mu.Unlock()
		var got []string
		var res *fcrmessages.FCRMessage
		var err error
		start := time.Now()
		via := rapid.SampledFrom([]string{"gateway from gateway", "gateway from provider", "provider"}).Draw(rt, "via")
		vt.Within(timeout+vt.Hang, "a request to a peer", func() {
			switch via {
			case "gateway from gateway":
				res, err = r.srv.RequestGatewayFromGateway(r.id, tEcho, msgs, n, timeout, &got)
			case "gateway from provider":
				res, err = r.srv.RequestGatewayFromProvider(r.id, tEcho, msgs, n, timeout, &got)
			default:
				res, err = r.srv.RequestProvider(r.id, tEcho, msgs, n, timeout, &got)
			}
		})
		if fault == "silent" && time.Since(start) > time.Duration(n+2)*timeout+slack {
			rt.Fatalf("a request to a silent peer took %v, the timeout is %v", time.Since(start), timeout)
		}
		for i, g := range got {
			if i >= len(want) || g != want[i] {
				rt.Fatalf("message %d received is %s, the peer sent %v (fault %s)", i, short(g), shorts(want), fault)
			}
		}
		if fault == "none" {
			if err != nil || len(got) != n || text(res) != want[n-1] {
				rt.Fatalf("%d of %d answers received: %v", len(got), n, err)
			}
		} else {
			if err == nil {
				rt.Fatalf("no error although the peer's stream was damaged (%s): received %v", fault, shorts(got))
			}
			if len(got) > full || (len(got) < full && fault != "silent") {
				rt.Fatalf("%d messages received of %d complete ones (fault %s)", len(got), full, fault)
			}
		}
		for i := 0; i < 2000 && fault == "silent"; i++ { // the peer may be slower than the timeout
			r.mu.Lock()
			k := len(r.got)
			r.mu.Unlock()
			if k > 0 {
				break
			}
			time.Sleep(10 * time.Millisecond)
		}
		r.mu.Lock()
		defer r.mu.Unlock()
		if len(r.got) != 1 || r.got[0] != text(out) {
			rt.Fatalf("the peer received %v, sent was %s", shorts(r.got), short(text(out)))
		}
	})
}
