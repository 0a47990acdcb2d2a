package register

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"reflect"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/register/restapi"
	"github.com/ConsenSys/fc-retrieval/register/restapi/operations"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtredis"
	"github.com/go-openapi/loads"
	"pgregory.net/rapid"
)

var (
	store  *vtredis.Server
	base   string
	client = &http.Client{Timeout: 60 * time.Second}
)

// TestMain starts the process anew with the storage address in its environment, as the service is configured.
func TestMain(m *testing.M) {
	if os.Getenv("REDIS_PORT") == "" {
		env := append(os.Environ(), "REDIS_URL=127.0.0.1", "REDIS_PORT="+vt.Port(), "REDIS_PASSWORD=", "SERVICE_NAME=register")
		exe, err := os.Executable()
		if err == nil {
			err = syscall.Exec(exe, os.Args, env)
		}
		vt.Infra("cannot restart: %v", err)
	}
	var err error
	if store, err = vtredis.New("127.0.0.1:" + os.Getenv("REDIS_PORT")); err != nil {
		vt.Infra("%v", err)
	}
	spec, err := loads.Embedded(restapi.SwaggerJSON, restapi.FlatSwaggerJSON)
	if err != nil {
		vt.Infra("%v", err)
	}
	api := operations.NewRegisterAPI(spec)
	api.Logger = func(string, ...interface{}) {}
	server := restapi.NewServer(api)
	server.ConfigureAPI()
	base = httptest.NewServer(server.GetHandler()).URL
	vt.Main(m)
}

type record map[string]string

var gatewayFields = []string{"address", "rootSigningKey", "signingKey", "regionCode", "networkInfoGateway", "networkInfoProvider", "networkInfoClient", "networkInfoAdmin"}
var providerFields = []string{"address", "rootSigningKey", "signingKey", "regionCode", "networkInfoGateway", "networkInfoClient", "networkInfoAdmin"}

func fieldsOf(kind string) []string {
	if kind == "gateway" {
		return gatewayFields
	}
	return providerFields
}

// clean drops empty members: an absent and an empty field are the same registration.
func clean(m map[string]interface{}) (record, error) {
	r := record{}
	for k, v := range m {
		s, ok := v.(string)
		if !ok {
			return nil, fmt.Errorf("member %s is %v", k, v)
		}
		if s != "" {
			r[k] = s
		}
	}
	return r, nil
}

func call(method, path string, body []byte) (int, []byte, error) {
	req, err := http.NewRequest(method, base+path, bytes.NewReader(body))
	if err != nil {
		return 0, nil, err
	}
	if body != nil {
		req.Header.Set("Content-Type", "application/json")
	}
	res, err := client.Do(req)
	if err != nil {
		return 0, nil, err
	}
	defer res.Body.Close()
	b, err := io.ReadAll(res.Body)
	return res.StatusCode, b, err
}

func add(kind string, r record) (int, string, error) {
	b, _ := json.Marshal(r)
	st, body, err := call("POST", "/registers/"+kind, b)
	if err != nil || st != 200 {
		return st, string(body), err
	}
	var m map[string]interface{}
	if err := json.Unmarshal(body, &m); err != nil {
		return st, string(body), fmt.Errorf("unreadable answer %q", body)
	}
	got, err := clean(m)
	if err != nil {
		return st, string(body), err
	}
	want := record{}
	for k, v := range r {
		if v != "" {
			want[k] = v
		}
	}
	if !reflect.DeepEqual(got, want) {
		return st, string(body), fmt.Errorf("registering %v is answered with %v", want, got)
	}
	return st, string(body), nil
}

func list(kind string) (int, []record, string, error) {
	st, body, err := call("GET", "/registers/"+kind, nil)
	if err != nil || st != 200 {
		return st, nil, string(body), err
	}
	var ms []map[string]interface{}
	if err := json.Unmarshal(body, &ms); err != nil || ms == nil {
		return st, nil, string(body), fmt.Errorf("unreadable list %q", body)
	}
	var rs []record
	for _, m := range ms {
		r, err := clean(m)
		if err != nil {
			return st, nil, string(body), err
		}
		rs = append(rs, r)
	}
	return st, rs, string(body), nil
}

func look(kind, id string) (int, record, string, error) {
	st, body, err := call("GET", "/registers/"+kind+"/"+url.PathEscape(id), nil)
	if err != nil || st != 200 {
		return st, nil, string(body), err
	}
	var m map[string]interface{}
	if err := json.Unmarshal(body, &m); err != nil || m == nil {
		return st, nil, string(body), fmt.Errorf("unreadable answer %q", body)
	}
	r, err := clean(m)
	return st, r, string(body), err
}

func text() *rapid.Generator[string] {
	return rapid.OneOf(rapid.SampledFrom([]string{"", "x", "127.0.0.1:9030", "AU", "日本", `"quoted" \ back`, "a b\tc\nd", "<&>", "\u2028", strings.Repeat("k", 2000), "null", "{}"}), rapid.StringN(0, 20, -1))
}

func genID() *rapid.Generator[string] {
	return rapid.OneOf(
		rapid.Custom(func(t *rapid.T) string { return vt.Hex(vt.ID32().Draw(t, "id")) }),
		rapid.SampledFrom([]string{"a", "gateway", "provider", "a b", "日本", "*", "x:y", "A", strings.Repeat("f", 300), "100%", "a+b", "a?b", "a#b"}))
}

func genRecord(rt *rapid.T, kind, id string) record {
	r := record{"nodeId": id}
	for _, f := range fieldsOf(kind) {
		if v := text().Draw(rt, f); v != "" {
			r[f] = v
		}
	}
	return r
}

func sameSet(got []record, want map[string]record) string {
	if len(got) != len(want) {
		return fmt.Sprintf("%d entries, want %d", len(got), len(want))
	}
	seen := map[string]bool{}
	for _, g := range got {
		id := g["nodeId"]
		if seen[id] {
			return "node " + id + " listed twice"
		}
		seen[id] = true
		if !reflect.DeepEqual(g, want[id]) {
			return fmt.Sprintf("node %q is %v, want %v", id, g, want[id])
		}
	}
	return ""
}

// errorAnswer decides what an operation that cannot be done may answer: an error status, never a broken connection.
func errorAnswer(st int, body string, err error) string {
	if err != nil {
		return "no answer: " + err.Error()
	}
	if st < 400 || st > 599 {
		return fmt.Sprintf("status %d, body %q", st, body)
	}
	return ""
}

func TestR01_History(t *testing.T) {
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		store.Reset()
		model := map[string]map[string]record{"gateway": {}, "provider": {}}
		var ids []string
		for i, n := 0, rapid.IntRange(1, 6).Draw(rt, "ids"); i < n; i++ {
			ids = append(ids, genID().Draw(rt, "id"))
		}
		ops, faults := 0, 0
		steps := rapid.IntRange(1, 30).Draw(rt, "steps")
		for i := 0; i < steps; i++ {
			kind := rapid.SampledFrom([]string{"gateway", "provider"}).Draw(rt, "kind")
			op := rapid.SampledFrom([]string{"add", "add", "add", "look", "look", "list", "list", "delete", "bad", "empty id"}).Draw(rt, "op")
			fault := rapid.SampledFrom([]string{"", "", "", "", "", "error", "close", "lose", "second", "down"}).Draw(rt, "fault")
			if fault == "down" && rapid.IntRange(0, 3).Draw(rt, "rarely") > 0 {
				fault = ""
			}
			c.Addf("%s-%s-%s", op, kind, fault)
			failing := false
			switch fault {
			case "down":
				store.Down()
				failing = true
			case "second": // every second data command of the operation fails
				n := 0
				store.SetFault(func(cmd []string) string {
					if strings.HasPrefix(strings.ToUpper(cmd[0]), "H") || strings.HasPrefix(strings.ToUpper(cmd[0]), "D") {
						if n++; n > 1 {
							return "error"
						}
					}
					return ""
				})
				failing = true
			case "error", "close", "lose":
				f := fault
				always := f == "error" || rapid.Bool().Draw(rt, "always")
				var n int32
				store.SetFault(func(cmd []string) string {
					if atomic.AddInt32(&n, 1) == 1 || always {
						return f
					}
					return ""
				})
				failing = true
			}
			restore := func() {
				store.SetFault(nil)
				if fault == "down" {
					if err := store.Up(); err != nil {
						vt.Infra("%v", err)
					}
				}
			}
			id := rapid.SampledFrom(ids).Draw(rt, "which")
			ops++
			switch op {
			case "empty id":
				id = ""
				fallthrough
			case "add":
				r := genRecord(rt, kind, id)
				if id == "" {
					delete(r, "nodeId")
				}
				st, body, err := add(kind, r)
				restore()
				if err == nil && st == 200 {
					model[kind][id] = r
				} else if !failing {
					rt.Fatalf("registering %s %v: status %d, %q, %v", kind, r, st, body, err)
				} else {
					faults++
					if e := errorAnswer(st, body, err); e != "" {
						rt.Fatalf("registering %s with the storage failing (%s): %s", kind, fault, e)
					}
					// the registration took effect or not
					if _, rs, _, err := list(kind); err == nil {
						for _, g := range rs {
							if g["nodeId"] == id && reflect.DeepEqual(g, r) {
								model[kind][id] = r
							}
						}
					}
				}
			case "look":
				st, r, body, err := look(kind, id)
				restore()
				want, known := model[kind][id]
				if failing && st != 200 {
					faults++
					if e := errorAnswer(st, body, err); e != "" {
						rt.Fatalf("looking up %s %q with the storage failing (%s): %s", kind, id, fault, e)
					}
				} else if err != nil || (st == 200) != known || (known && !reflect.DeepEqual(r, want)) || (!known && st != 404) {
					rt.Fatalf("looking up %s %q: status %d, %q, %v; registered: %v", kind, id, st, body, err, want)
				}
			case "list":
				st, rs, body, err := list(kind)
				restore()
				if failing && st != 200 {
					faults++
					if e := errorAnswer(st, body, err); e != "" {
						rt.Fatalf("listing %ss with the storage failing (%s): %s", kind, fault, e)
					}
				} else if err != nil || st != 200 {
					rt.Fatalf("listing %ss: status %d, %q, %v", kind, st, body, err)
				} else if e := sameSet(rs, model[kind]); e != "" {
					rt.Fatalf("listing %ss: %s", kind, e)
				}
			case "delete":
				st, body, err := call("DELETE", "/registers/"+kind, nil)
				restore()
				if err == nil && st == 200 {
					model[kind] = map[string]record{}
				} else if !failing {
					rt.Fatalf("deleting the %ss: status %d, %q, %v", kind, st, body, err)
				} else {
					faults++
					if e := errorAnswer(st, string(body), err); e != "" {
						rt.Fatalf("deleting the %ss with the storage failing (%s): %s", kind, fault, e)
					}
					// some may be gone, none may have changed
					st, rs, _, err := list(kind)
					if err != nil || st != 200 {
						rt.Fatalf("listing %ss after a failed deletion: %d %v", kind, st, err)
					}
					left := map[string]record{}
					for _, g := range rs {
						if w, ok := model[kind][g["nodeId"]]; !ok || !reflect.DeepEqual(w, g) {
							rt.Fatalf("after a failed deletion %v is listed, registered: %v", g, w)
						}
						left[g["nodeId"]] = g
					}
					model[kind] = left
				}
			case "bad":
				body := rapid.SampledFrom([]string{"", "{", "[]", "x", `"a"`, "1", `{"nodeId":1}`, `{"nodeId":"a","address":{}}`, `{"nodeId":["a"]}`, `{"nodeId":"a"`}).Draw(rt, "body")
				st, res, err := call("POST", "/registers/"+kind, []byte(body))
				restore()
				if e := errorAnswer(st, string(res), err); e != "" {
					rt.Fatalf("registering %q: %s", body, e)
				}
			}
		}
		for kind := range model {
			st, rs, body, err := list(kind)
			if err != nil || st != 200 {
				rt.Fatalf("listing %ss: status %d, %q, %v", kind, st, body, err)
			}
			if e := sameSet(rs, model[kind]); e != "" {
				rt.Fatalf("listing %ss at the end: %s", kind, e)
			}
			for id, want := range model[kind] {
				if id == "" {
					continue
				}
				if st, r, body, err := look(kind, id); err != nil || st != 200 || !reflect.DeepEqual(r, want) {
					rt.Fatalf("looking up %s %q: status %d, %q, %v; registered: %v", kind, id, st, body, err, want)
				}
			}
		}
		if ops > 1 {
			c.NonTrivial("history")
		}
		if faults > 0 {
			c.NonTrivial("storage failure reported")
		}
		if len(model["gateway"]) > 0 && len(model["provider"]) > 0 {
			c.NonTrivial("both kinds registered")
		}
	})
}

// TestR01_Concurrent: many clients at once; the storage accepts a limited number of connections, as redis does.
func TestR01_Concurrent(t *testing.T) {
	vt.Check(t, 10, func(rt *rapid.T, c *vt.Case) {
		store.Reset()
		store.SetMax(200)
		defer store.SetMax(0)
		threads := rapid.IntRange(2, 8).Draw(rt, "threads")
		per := rapid.IntRange(5, 40).Draw(rt, "operations each")
		c.Addf("%d threads, %d operations", threads, per)
		c.NonTrivial("concurrent plan")
		var mu sync.Mutex
		var fails []string
		fail := func(f string, a ...interface{}) {
			mu.Lock()
			fails = append(fails, fmt.Sprintf(f, a...))
			mu.Unlock()
		}
		want := map[string]map[string]record{"gateway": {}, "provider": {}}
		var fns []func()
		for k := 0; k < threads; k++ {
			k := k
			seed := rapid.SliceOfN(rapid.IntRange(0, 9), per, per).Draw(rt, "plan")
			kind := []string{"gateway", "provider"}[k%2]
			fns = append(fns, func() {
				mine := map[string]record{}
				for i, op := range seed {
					id := fmt.Sprintf("%d-%d", k, i%7)
					switch {
					case op < 5:
						r := record{"nodeId": id, "address": fmt.Sprint(i)}
						if st, body, err := add(kind, r); err != nil || st != 200 {
							fail("registering: %d %q %v", st, body, err)
						}
						mine[id] = r
					case op < 8:
						st, r, body, err := look(kind, id)
						if w, ok := mine[id]; err != nil || (st == 200) != ok || (ok && !reflect.DeepEqual(r, w)) {
							fail("looking up own %s %s: %d %q %v, want %v", kind, id, st, body, err, w)
						}
					default:
						st, rs, body, err := list(kind)
						if err != nil || st != 200 {
							fail("listing: %d %q %v", st, body, err)
						}
						got := map[string]record{}
						for _, r := range rs {
							if got[r["nodeId"]] != nil {
								fail("%s listed twice", r["nodeId"])
							}
							got[r["nodeId"]] = r
						}
						for id, w := range mine {
							if !reflect.DeepEqual(got[id], w) {
								fail("own %s %s listed as %v, want %v", kind, id, got[id], w)
							}
						}
					}
				}
				mu.Lock()
				for id, r := range mine {
					want[kind][id] = r
				}
				mu.Unlock()
			})
		}
		fails = append(fails, vt.Parallel("register operations", fns...)...)
		for kind := range want {
			st, rs, body, err := list(kind)
			if err != nil || st != 200 {
				fail("listing %ss: %d %q %v", kind, st, body, err)
			} else if e := sameSet(rs, want[kind]); e != "" {
				fail("listing %ss at the end: %s", kind, e)
			}
		}
		sort.Strings(fails)
		if len(fails) > 5 {
			fails = fails[:5]
		}
		if len(fails) > 0 {
			rt.Fatalf("%s", strings.Join(fails, "\n"))
		}
	})
}
