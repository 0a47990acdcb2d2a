package register

import (
	"encoding/json"
	"reflect"
	"testing"
	"time"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrregistermgr"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	reg "github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

func gatewayOf(r record) reg.GatewayRegistrar {
	return reg.NewGatewayRegister(r["nodeId"], r["address"], r["rootSigningKey"], r["signingKey"], r["regionCode"], r["networkInfoGateway"], r["networkInfoProvider"], r["networkInfoClient"], r["networkInfoAdmin"])
}

func providerOf(r record) reg.ProviderRegistrar {
	return reg.NewProviderRegister(r["nodeId"], r["address"], r["rootSigningKey"], r["signingKey"], r["regionCode"], r["networkInfoGateway"], r["networkInfoClient"], r["networkInfoAdmin"])
}

// asRecord turns a registration seen by a node into the fields it was made of.
func asRecord(v interface{}) record {
	b, _ := json.Marshal(v)
	var m map[string]interface{}
	if json.Unmarshal(b, &m) != nil {
		return nil
	}
	r, _ := clean(m)
	return r
}

// Nodes register through the register manager, and other nodes' managers see what was registered.
func TestR01_Manager(t *testing.T) {
	vt.Check(t, 30, func(rt *rapid.T, c *vt.Case) {
		store.Reset()
		writer := fcrregistermgr.NewFCRRegisterMgr(base, true, true, time.Hour)
		model := map[string]map[string]record{"gateway": {}, "provider": {}}
		var ids [][]byte
		for i, n := 0, rapid.IntRange(1, 4).Draw(rt, "ids"); i < n; i++ {
			ids = append(ids, vt.ID32().Draw(rt, "id"))
		}
		refused := 0
		for i := rapid.IntRange(1, 10).Draw(rt, "registrations"); i > 0; i-- {
			kind := rapid.SampledFrom([]string{"gateway", "provider"}).Draw(rt, "kind")
			r := genRecord(rt, kind, vt.Hex(rapid.SampledFrom(ids).Draw(rt, "node")))
			fault := rapid.SampledFrom([]string{"", "", "", "error", "close"}).Draw(rt, "fault")
			c.Addf("%s %s;", kind, fault)
			if fault != "" {
				store.SetFault(func([]string) string { return fault })
			}
			var err error
			vt.Within(vt.Hang, "a registration", func() {
				if kind == "gateway" {
					err = writer.RegisterGateway(gatewayOf(r))
				} else {
					err = writer.RegisterProvider(providerOf(r))
				}
			})
			store.SetFault(nil)
			if fault != "" {
				refused++
				if err == nil {
					rt.Fatalf("registering a %s is reported as done although the storage fails (%s)", kind, fault)
				}
				continue
			}
			if err != nil {
				rt.Fatalf("registering a %s: %v", kind, err)
			}
			model[kind][r["nodeId"]] = r
		}
		for kind := range model {
			st, rs, body, err := list(kind)
			if err != nil || st != 200 {
				rt.Fatalf("listing %ss: status %d, %q, %v", kind, st, body, err)
			}
			if e := sameSet(rs, model[kind]); e != "" {
				rt.Fatalf("%ss registered through the manager: %s", kind, e)
			}
		}
		reader := fcrregistermgr.NewFCRRegisterMgr(base, true, true, time.Hour)
		if err := reader.Start(); err != nil {
			rt.Fatalf("starting a manager: %v", err)
		}
		vt.Within(vt.Hang, "a refresh", func() { reader.Refresh() })
		for _, id := range ids {
			n, err := nodeid.NewNodeIDFromBytes(id)
			if err != nil {
				rt.Fatalf("%v", err)
			}
			var g reg.GatewayRegistrar
			var p reg.ProviderRegistrar
			vt.Within(vt.Hang, "a look-up", func() { g, p = reader.GetGateway(n), reader.GetProvider(n) })
			if w, ok := model["gateway"][vt.Hex(id)]; ok != (g != nil) || ok && !reflect.DeepEqual(asRecord(g.Serialize()), w) {
				rt.Fatalf("gateway %x is seen as %v, registered: %v", id, g, w)
			}
			if w, ok := model["provider"][vt.Hex(id)]; ok != (p != nil) || ok && !reflect.DeepEqual(asRecord(p.Serialize()), w) {
				rt.Fatalf("provider %x is seen as %v, registered: %v", id, p, w)
			}
		}
		if n := len(reader.GetAllGateways()); n != len(model["gateway"]) {
			rt.Fatalf("%d gateways are seen of %d", n, len(model["gateway"]))
		}
		if n := len(reader.GetAllProviders()); n != len(model["provider"]) {
			rt.Fatalf("%d providers are seen of %d", n, len(model["provider"]))
		}
		if len(model["gateway"]) > 0 && len(model["provider"]) > 0 {
			c.NonTrivial("both kinds registered through the manager")
		}
		if refused > 0 {
			c.NonTrivial("a refused registration is reported")
		}
		// done with: the documented way of emptying the register and stopping
		vt.Within(vt.Hang, "a shutdown", func() { reader.ShutdownAndWait() })
		for kind := range model {
			if st, rs, body, err := list(kind); err != nil || st != 200 || len(rs) > 0 {
				rt.Fatalf("%ss after the shutdown that empties the register: status %d, %q, %v", kind, st, body, err)
			}
		}
	})
}
