package net

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net"
	"net/http"
	"net/http/httptest"
	"reflect"
	"strings"
	"sync"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrrestserver"
	"github.com/ConsenSys/fc-retrieval/common/pkg/request"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ant0ine/go-json-rest/rest"
	"pgregory.net/rapid"
)

// The REST servers cannot be stopped, so a few with generated tables are made per process.
type restWorld struct {
	addrs []string
	// table[addr][type]: what the handler does, "" = no handler
	table map[string]map[int32]string

	mu    sync.Mutex
	calls []string // address/type/message
}

func reply(m *fcrmessages.FCRMessage, addr string) *fcrmessages.FCRMessage {
	return fcrmessages.CreateFCRMessage(m.GetMessageType()^0x5555, append([]byte(addr+":"), m.GetMessageBody()...))
}

func newRest(rt *rapid.T) *restWorld {
	w := &restWorld{table: map[string]map[int32]string{}}
	for i, n := 0, rapid.IntRange(1, 3).Draw(rt, "endpoints"); i < n; i++ {
		w.addrs = append(w.addrs, vt.Port())
	}
	s := fcrrestserver.NewFCRRESTServer(w.addrs)
	for _, a := range w.addrs {
		w.table[a] = map[int32]string{}
		for _, typ := range rapid.SliceOfNDistinct(rapid.SampledFrom(restTypes), 0, len(restTypes), rapid.ID[int32]).Draw(rt, "types") {
			typ, a := typ, a
			what := rapid.SampledFrom([]string{"reply", "reply", "reply", "status", "empty"}).Draw(rt, "what")
			w.table[a][typ] = what
			s.AddHandler(a, typ, func(rw rest.ResponseWriter, m *fcrmessages.FCRMessage) {
				w.mu.Lock()
				w.calls = append(w.calls, fmt.Sprintf("%s/%d/%s", a, typ, text(m)))
				w.mu.Unlock()
				switch what {
				case "reply":
					rw.WriteJson(reply(m, a))
				case "status":
					rest.Error(rw, "refused", 400)
				}
			})
		}
	}
	// a handler for an address the server does not listen on is not for anyone
	s.AddHandler("1", restTypes[0], func(rw rest.ResponseWriter, m *fcrmessages.FCRMessage) {
		w.mu.Lock()
		w.calls = append(w.calls, "other address")
		w.mu.Unlock()
	})
	var err error
	vt.Within(vt.Hang, "starting a REST server", func() { err = s.Start() })
	if err != nil {
		vt.Infra("cannot start a REST server: %v", err)
	}
	for _, a := range w.addrs {
		up := false
		for i := 0; i < 3000 && !up; i++ {
			c, err := net.Dial("tcp", "127.0.0.1:"+a)
			if err == nil {
				c.Close()
				up = true
			} else {
				time.Sleep(10 * time.Millisecond)
			}
		}
		if !up {
			vt.Infra("the REST server does not listen")
		}
	}
	return w
}

var (
	restTypes  = []int32{0, 1, 100, 101, 200, 300, -1, 2147483647}
	restMu     sync.Mutex
	restWorlds []*restWorld
)

// someRest returns one of a handful of generated servers.
func someRest(rt *rapid.T) *restWorld {
	restMu.Lock()
	defer restMu.Unlock()
	i := rapid.IntRange(0, 11).Draw(rt, "server")
	for len(restWorlds) <= i {
		restWorlds = append(restWorlds, newRest(rt))
	}
	return restWorlds[i]
}

func TestN03_Routing(t *testing.T) {
	// the servers are made up front, outside the generated cases, so that a case is a function of its own choices
	rapid.Check(t, func(rt *rapid.T) {
		restMu.Lock()
		defer restMu.Unlock()
		if len(restWorlds) < 12 {
			restWorlds = append(restWorlds, newRest(rt))
		}
	})
	com := request.NewHttpCommunicator()
	vt.Check(t, 150, func(rt *rapid.T, c *vt.Case) {
		w := restWorlds[rapid.IntRange(0, len(restWorlds)-1).Draw(rt, "server")]
		a := rapid.SampledFrom(w.addrs).Draw(rt, "endpoint")
		w.mu.Lock()
		w.calls = nil
		w.mu.Unlock()
		taken := func() []string {
			w.mu.Lock()
			defer w.mu.Unlock()
			return append([]string{}, w.calls...)
		}
		if rapid.IntRange(0, 2).Draw(rt, "kind") > 0 {
			typ := rapid.OneOf(rapid.SampledFrom(restTypes), rapid.Int32()).Draw(rt, "type")
			m := fcrmessages.CreateFCRMessage(typ, body(rt))
			if rapid.Bool().Draw(rt, "signed") {
				if err := m.Sign(vt.Key(2), vt.Ver(9)); err != nil {
					panic(err)
				}
			}
			what := w.table[a][typ]
			if what == "" && rapid.Bool().Draw(rt, "raw") {
				b, err := m.FCRMsgToBytes()
				if err != nil {
					rt.Fatalf("%v", err)
				}
				c.Addf("type %d, raw", typ)
				c.NonTrivial("unregistered type")
				res, err := http.Post("http://127.0.0.1:"+a+"/v1", "application/json", bytes.NewReader(b))
				if err != nil {
					rt.Fatalf("a message of unregistered type %d: %v", typ, err)
				}
				io.Copy(io.Discard, res.Body)
				res.Body.Close()
				if res.StatusCode < 400 {
					rt.Fatalf("a message of unregistered type %d is answered with status %d", typ, res.StatusCode)
				}
				if calls := taken(); len(calls) > 0 {
					rt.Fatalf("a message of unregistered type %d reached a handler: %v", typ, calls)
				}
				return
			}
			c.Addf("type %d, %d bytes, handler %q", typ, len(m.GetMessageBody()), what)
			c.NonTrivial("handler " + what)
			var got *fcrmessages.FCRMessage
			var err error
			vt.Within(vt.Hang, "SendMessage", func() { got, err = com.SendMessage("127.0.0.1:"+a, m) })
			want := []string{}
			if what != "" {
				want = []string{fmt.Sprintf("%s/%d/%s", a, typ, text(m))}
			}
			if calls := taken(); !reflect.DeepEqual(calls, want) {
				rt.Fatalf("message of type %d to an endpoint with table %v handled as %v, want %v", typ, w.table[a], shorts(calls), shorts(want))
			}
			if what == "reply" {
				if err != nil || text(got) != text(reply(m, a)) {
					rt.Fatalf("the handler replied %s, the client got %s, %v", short(text(reply(m, a))), short(text(got)), err)
				}
			} else if err == nil {
				rt.Fatalf("type %d, handler %q: the client got %s and no error", typ, what, short(text(got)))
			}
			return
		}
		// bodies that are not messages
		valid, _ := fcrmessages.CreateFCRMessage(rapid.SampledFrom(restTypes).Draw(rt, "type"), []byte("abc")).FCRMsgToBytes()
		b := rapid.OneOf(
			rapid.SliceOfN(rapid.Byte(), 0, 60),
			rapid.Just(valid[:len(valid)-1]),
			rapid.Just(append(append([]byte{}, valid...), '}')),
			rapid.SampledFrom([][]byte{{}, []byte("["), []byte("[]"), []byte(`"x"`), []byte("1"), []byte("true"), []byte(`{"message_type":"1"}`), []byte(`{"message_type":1.5}`), []byte(`{"message_type":2147483648}`),
				[]byte(`{"message_type":1,"message_body":"%"}`), []byte(`{"message_type":1,"protocol_supported":[1,"x"]}`), []byte(`{"message_type":1,"message_signature":5}`), []byte("\xff\xfe")}),
		).Draw(rt, "body")
		var probe struct{}
		if json.Unmarshal(b, &probe) == nil {
			var chk map[string]interface{}
			if json.Unmarshal(b, &chk) != nil || chk == nil || len(chk) == 0 {
				return // null and {} are the message without content
			}
		}
		if _, err := fcrmessages.FCRMsgFromBytes(b); err == nil {
			return
		}
		method, path := "POST", "/v1"
		if rapid.IntRange(0, 5).Draw(rt, "wrong route") == 0 {
			b = valid
			if rapid.Bool().Draw(rt, "method") {
				method = rapid.SampledFrom([]string{"GET", "PUT", "DELETE"}).Draw(rt, "method")
			} else {
				path = rapid.SampledFrom([]string{"/", "/v2", "/v1/x", "/v"}).Draw(rt, "path")
			}
		}
		c.Addf("%s %s %q", method, path, b)
		c.NonTrivial("not a message")
		req, err := http.NewRequest(method, "http://127.0.0.1:"+a+path, bytes.NewReader(b))
		if err != nil {
			rt.Fatalf("%v", err)
		}
		req.Header.Set("Content-Type", "application/json")
		res, err := http.DefaultClient.Do(req)
		if err != nil {
			rt.Fatalf("%s %s %q: %v", method, path, b, err)
		}
		io.Copy(io.Discard, res.Body)
		res.Body.Close()
		if res.StatusCode < 400 {
			rt.Fatalf("%s %s %q is answered with status %d", method, path, b, res.StatusCode)
		}
		if calls := taken(); len(calls) > 0 {
			rt.Fatalf("%s %s %q reached a handler: %v", method, path, b, calls)
		}
	})
}

func TestN03_Client(t *testing.T) {
	var mu sync.Mutex
	var status int
	var out, got []byte
	var path, kind string
	srv := httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, _ := io.ReadAll(r.Body)
		mu.Lock()
		got, path, kind = b, r.URL.Path, r.Method
		st, o := status, out
		mu.Unlock()
		if st == -1 { // the connection breaks instead of an answer
			c, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				c.Write(o)
				c.Close()
			}
			return
		}
		w.WriteHeader(st)
		w.Write(o)
	}))
	defer srv.Close()
	addr := strings.TrimPrefix(srv.URL, "http://")
	com := request.NewHttpCommunicator()
	vt.Check(t, 150, func(rt *rapid.T, c *vt.Case) {
		m := vt.SomeMessage().Draw(rt, "message")
		answer := fcrmessages.CreateFCRMessage(rapid.Int32().Draw(rt, "answer type"), body(rt))
		if rapid.Bool().Draw(rt, "signed") {
			if err := answer.Sign(vt.Key(3), vt.Ver(4)); err != nil {
				panic(err)
			}
		}
		ab, _ := answer.FCRMsgToBytes()
		fault := rapid.SampledFrom([]string{"none", "none", "status", "garbage", "broken", "half", "unreachable"}).Draw(rt, "fault")
		mu.Lock()
		status, out, got = 200, ab, nil
		switch fault {
		case "status":
			status = rapid.SampledFrom([]int{400, 401, 403, 404, 405, 409, 500, 501, 502, 503}).Draw(rt, "status")
			if rapid.Bool().Draw(rt, "error body") {
				out = []byte(`{"Error":"refused"}`)
			}
		case "garbage":
			out = rapid.SampledFrom([][]byte{{}, []byte("x"), []byte("[]"), []byte("5"), []byte(`"OK"`), []byte("{"), []byte("<html></html>"), []byte(`{"message_type":"x"}`), ab[:len(ab)-1], append(append([]byte{}, ab...), ']')}).Draw(rt, "garbage")
		case "broken":
			status = -1
			out = nil
		case "half":
			status = -1
			out = []byte(fmt.Sprintf("HTTP/1.1 200 OK\r\nContent-Type: application/json\r\nContent-Length: %d\r\n\r\n%s", len(ab), ab[:rapid.IntRange(0, len(ab)-1).Draw(rt, "kept")]))
		}
		mu.Unlock()
		to := addr
		if fault == "unreachable" {
			to = rapid.SampledFrom([]string{"127.0.0.1:1", "", "nowhere invalid:80", "127.0.0.1:99999", "%"}).Draw(rt, "address")
		}
		c.Addf("%s, fault %s, status %d", short(text(m)), fault, status)
		c.NonTrivial("fault " + fault)
		var res *fcrmessages.FCRMessage
		var err error
		if p := vt.NoPanic(func() {
			vt.Within(200*time.Second, "SendMessage", func() { res, err = com.SendMessage(to, m) })
		}); p != "" {
			rt.Fatalf("SendMessage to %q crashes: %s", to, p)
		}
		if fault == "none" {
			if err != nil || text(res) != text(answer) {
				rt.Fatalf("the endpoint answered %s, the client got %s, %v", short(string(ab)), short(text(res)), err)
			}
		} else if err == nil {
			rt.Fatalf("fault %s (status %d, %q): the client got %s and no error", fault, status, short(string(out)), short(text(res)))
		}
		if fault != "unreachable" {
			mu.Lock()
			defer mu.Unlock()
			back, derr := fcrmessages.FCRMsgFromBytes(got)
			if derr != nil || text(back) != text(m) || path != "/v1" || kind != "POST" {
				rt.Fatalf("sent %s, the endpoint got %s %s %s", short(text(m)), kind, path, short(string(got)))
			}
		}
	})
}
