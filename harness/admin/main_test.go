// Package admin checks the administration libraries against scripted nodes.
package admin

import (
	"encoding/json"
	"fmt"
	"io"
	"net/http"
	"net/http/httptest"
	"sync"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	ga "github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/api/adminapi"
	pa "github.com/ConsenSys/fc-retrieval/provider-admin/pkg/api/adminapi"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"pgregory.net/rapid"
)

func TestMain(m *testing.M) { vt.Main(m) }

// desk is a scripted administration access point of a node.
type desk struct {
	srv *httptest.Server
	mu  sync.Mutex
	on  func(m *fcrmessages.FCRMessage) (int, []byte) // nil bytes: drop the connection
	got []*fcrmessages.FCRMessage
	bad string
}

func newDesk() *desk {
	d := &desk{}
	d.srv = httptest.NewServer(http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		b, err := io.ReadAll(r.Body)
		var m fcrmessages.FCRMessage
		if err == nil {
			err = json.Unmarshal(b, &m)
		}
		d.mu.Lock()
		if err != nil {
			d.bad = fmt.Sprintf("the request is no message: %v: %s", err, b)
		}
		d.got = append(d.got, &m)
		on := d.on
		d.mu.Unlock()
		st, rb := 500, []byte("x")
		if on != nil {
			st, rb = on(&m)
		}
		if rb == nil {
			c, _, err := w.(http.Hijacker).Hijack()
			if err == nil {
				c.Close()
			}
			return
		}
		w.WriteHeader(st)
		w.Write(rb)
	}))
	return d
}

func (d *desk) addr() string { return d.srv.Listener.Addr().String() }

func (d *desk) script(on func(m *fcrmessages.FCRMessage) (int, []byte)) {
	d.mu.Lock()
	d.on, d.got, d.bad = on, nil, ""
	d.mu.Unlock()
}

func (d *desk) requests() []*fcrmessages.FCRMessage {
	d.mu.Lock()
	defer d.mu.Unlock()
	return append([]*fcrmessages.FCRMessage{}, d.got...)
}

func enc(m *fcrmessages.FCRMessage, err error) *fcrmessages.FCRMessage {
	if err != nil {
		panic(err)
	}
	return m
}

// call is one administrative call with its arguments.
type call struct {
	name     string
	do       func(gw *register.GatewayRegister, pv *register.ProviderRegister) (string, error) // what is returned, as text
	sent     func(m *fcrmessages.FCRMessage) string                                            // what arrives, as text
	args     string                                                                            // what should arrive
	yes      *fcrmessages.FCRMessage                                                           // the affirmative answer
	result   string                                                                            // and its meaning
	no       []*fcrmessages.FCRMessage                                                         // answers that deny
	needsID  bool
	provider bool
}

func ids(l []nodeid.NodeID) string {
	s := ""
	for i := range l {
		s += l[i].ToString() + ","
	}
	return s
}

func keyText(k *fcrcrypto.KeyPair) string { return k.EncodePrivateKey() }

func offersText(found bool, l []cidoffer.CIDOffer) string {
	s := fmt.Sprint(found, " ")
	for i := range l {
		b, err := l[i].MarshalJSON()
		if err != nil {
			panic(err)
		}
		s += string(b)
	}
	return s
}

func must(s string, err error) string {
	if err != nil {
		return "undecodable: " + err.Error()
	}
	return s
}

// make generates a call.
func makeCall(rt *rapid.T, id *nodeid.NodeID, adm *fcrcrypto.KeyPair, av *fcrcrypto.KeyVersion) call {
	gapi, papi := ga.NewAdminApi(), pa.NewAdminApi()
	key := vt.Key(rapid.IntRange(100, 140).Draw(rt, "key"))
	ver := vt.Ver(rapid.Uint32().Draw(rt, "version"))
	client := vt.Node(vt.ID32().Draw(rt, "client"))
	rep := vt.Int64().Draw(rt, "reputation")
	w, ap, tok := vt.Text().Draw(rt, "wallet"), vt.Text().Draw(rt, "access point"), vt.Text().Draw(rt, "token")
	initArgs := id.ToString() + keyText(key) + fmt.Sprint(ver.EncodeKeyVersion())
	switch rapid.IntRange(0, 12).Draw(rt, "call") {
	case 0:
		return call{name: "gateway initialise", needsID: true, args: initArgs,
			do: func(g *register.GatewayRegister, _ *register.ProviderRegister) (string, error) {
				return "", gapi.RequestInitialiseKey(g, key, ver, adm, av)
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				i, k, v, err := fcrmessages.DecodeGatewayAdminInitialiseKeyRequest(m)
				if err != nil {
					return err.Error()
				}
				return i.ToString() + keyText(k) + fmt.Sprint(v.EncodeKeyVersion())
			},
			yes: enc(fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)), no: []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(false))}}
	case 1:
		return call{name: "gateway initialise v2", needsID: true, args: initArgs + w + "|" + ap + "|" + tok,
			do: func(g *register.GatewayRegister, _ *register.ProviderRegister) (string, error) {
				return "", gapi.RequestInitialiseKeyV2(g, key, ver, adm, av, w, ap, tok)
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				i, k, v, a, b, c, err := fcrmessages.DecodeGatewayAdminInitialiseKeyRequestV2(m)
				if err != nil {
					return err.Error()
				}
				return i.ToString() + keyText(k) + fmt.Sprint(v.EncodeKeyVersion()) + a + "|" + b + "|" + c
			},
			yes: enc(fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)), no: []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(false))}}
	case 2:
		return call{name: "gateway refresh", args: "true",
			do: func(g *register.GatewayRegister, _ *register.ProviderRegister) (string, error) {
				return "", gapi.RequestForceRefresh(g, adm, av)
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				b, err := fcrmessages.DecodeGatewayAdminForceRefreshRequest(m)
				return must(fmt.Sprint(b), err)
			},
			yes: enc(fcrmessages.EncodeGatewayAdminForceRefreshResponse(true)), no: []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeGatewayAdminForceRefreshResponse(false))}}
	case 3:
		return call{name: "gateway list", args: "true",
			do: func(g *register.GatewayRegister, _ *register.ProviderRegister) (string, error) {
				return "", gapi.RequestListDHTOffer(g, adm, av)
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				b, err := fcrmessages.DecodeGatewayAdminListDHTOfferRequest(m)
				return must(fmt.Sprint(b), err)
			},
			yes: enc(fcrmessages.EncodeGatewayAdminListDHTOfferResponse(true)), no: []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeGatewayAdminListDHTOfferResponse(false))}}
	case 4:
		var l []nodeid.NodeID
		for i := rapid.IntRange(0, 4).Draw(rt, "providers"); i > 0; i-- {
			l = append(l, *vt.Node(vt.ID32().Draw(rt, "provider")))
		}
		return call{name: "gateway group offers", needsID: true, args: id.ToString() + ids(l),
			do: func(g *register.GatewayRegister, _ *register.ProviderRegister) (string, error) {
				return "", gapi.SetGroupCIDOfferSupportedForProviders(g, l, adm, av)
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				i, got, err := fcrmessages.DecodeUpdateGatewayGroupCIDOfferSupportRequest(m)
				if err != nil {
					return err.Error()
				}
				return i.ToString() + ids(got)
			},
			yes: enc(fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(true)), no: []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(false))}}
	case 5:
		other := vt.Node(vt.ID32().Draw(rt, "another client"))
		no := []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeGatewayAdminGetReputationResponse(client, rep, false))}
		if other.ToString() != client.ToString() {
			no = append(no, enc(fcrmessages.EncodeGatewayAdminGetReputationResponse(other, rep, true)))
		}
		return call{name: "gateway get reputation", args: client.ToString(), result: fmt.Sprint(rep),
			do: func(g *register.GatewayRegister, _ *register.ProviderRegister) (string, error) {
				r, err := gapi.RequestGetReputation(g, client, adm, av)
				return fmt.Sprint(r), err
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				i, err := fcrmessages.DecodeGatewayAdminGetReputationRequest(m)
				if err != nil {
					return err.Error()
				}
				return i.ToString()
			},
			yes: enc(fcrmessages.EncodeGatewayAdminGetReputationResponse(client, rep, true)), no: no}
	case 6:
		other := vt.Node(vt.ID32().Draw(rt, "another client"))
		no := []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeGatewayAdminSetReputationResponse(client, rep, false)), enc(fcrmessages.EncodeGatewayAdminSetReputationResponse(client, rep^1, true)),
			enc(fcrmessages.EncodeGatewayAdminSetReputationResponse(client, rep^(1<<rapid.IntRange(0, 63).Draw(rt, "bit")), true)), enc(fcrmessages.EncodeGatewayAdminSetReputationResponse(client, rep^(1<<32), true))}
		if other.ToString() != client.ToString() {
			no = append(no, enc(fcrmessages.EncodeGatewayAdminSetReputationResponse(other, rep, true)))
		}
		return call{name: "gateway set reputation", args: client.ToString() + fmt.Sprint(rep), result: "true",
			do: func(g *register.GatewayRegister, _ *register.ProviderRegister) (string, error) {
				r, err := gapi.RequestSetReputation(g, client, rep, adm, av)
				if err != nil && r {
					return "", fmt.Errorf("VIOLATION both true and %v", err)
				}
				return fmt.Sprint(r), err
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				i, r, err := fcrmessages.DecodeGatewayAdminSetReputationRequest(m)
				if err != nil {
					return err.Error()
				}
				return i.ToString() + fmt.Sprint(r)
			},
			yes: enc(fcrmessages.EncodeGatewayAdminSetReputationResponse(client, rep, true)), no: no}
	case 7:
		return call{name: "provider initialise", provider: true, needsID: true, args: initArgs,
			do: func(_ *register.GatewayRegister, p *register.ProviderRegister) (string, error) {
				return "", papi.RequestInitialiseKey(p, key, ver, adm, av)
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				i, k, v, err := fcrmessages.DecodeProviderAdminInitialiseKeyRequest(m)
				if err != nil {
					return err.Error()
				}
				return i.ToString() + keyText(k) + fmt.Sprint(v.EncodeKeyVersion())
			},
			yes: enc(fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)), no: []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeProviderAdminInitialiseKeyResponse(false))}}
	case 8:
		return call{name: "provider initialise v2", provider: true, needsID: true, args: initArgs + w + "|" + ap + "|" + tok,
			do: func(_ *register.GatewayRegister, p *register.ProviderRegister) (string, error) {
				return "", papi.RequestInitialiseKeyV2(p, key, ver, adm, av, w, ap, tok)
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				i, k, v, a, b, c, err := fcrmessages.DecodeProviderAdminInitialiseKeyRequestV2(m)
				if err != nil {
					return err.Error()
				}
				return i.ToString() + keyText(k) + fmt.Sprint(v.EncodeKeyVersion()) + a + "|" + b + "|" + c
			},
			yes: enc(fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)), no: []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeProviderAdminInitialiseKeyResponse(false))}}
	case 9:
		return call{name: "provider refresh", provider: true, args: "true",
			do: func(_ *register.GatewayRegister, p *register.ProviderRegister) (string, error) {
				return "", papi.RequestForceRefresh(p, adm, av)
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				b, err := fcrmessages.DecodeProviderAdminForceRefreshRequest(m)
				return must(fmt.Sprint(b), err)
			},
			yes: enc(fcrmessages.EncodeProviderAdminForceRefreshResponse(true)), no: []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeProviderAdminForceRefreshResponse(false))}}
	case 10:
		var l []nodeid.NodeID
		for i := rapid.IntRange(0, 3).Draw(rt, "gateways"); i > 0; i-- {
			l = append(l, *vt.Node(vt.ID32().Draw(rt, "gateway")))
		}
		var os []cidoffer.CIDOffer
		for i := rapid.IntRange(0, 3).Draw(rt, "offers"); i > 0; i-- {
			os = append(os, *vt.SomeOffer(1, 4).Draw(rt, "offer"))
		}
		found := len(os) > 0
		return call{name: "provider published offers", provider: true, args: ids(l), result: offersText(found, os),
			do: func(_ *register.GatewayRegister, p *register.ProviderRegister) (string, error) {
				f, r, err := papi.RequestGetPublishedOffer(p, l, adm, av)
				if err != nil && (f || len(r) > 0) {
					return "", fmt.Errorf("VIOLATION offers with an error: %v", err)
				}
				if err != nil {
					return "", err
				}
				return offersText(f, r), nil
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				got, err := fcrmessages.DecodeProviderAdminGetPublishedOfferRequest(m)
				return must(ids(got), err)
			},
			yes: enc(fcrmessages.EncodeProviderAdminGetPublishedOfferResponse(found, os))}
	case 11:
		cs := vt.CIDs(1, 4).Draw(rt, "pieces")
		var price, qos []uint64
		var exp []int64
		for range cs {
			price, qos, exp = append(price, vt.Uint64().Draw(rt, "price")), append(qos, vt.Uint64().Draw(rt, "qos")), append(exp, vt.Int64().Draw(rt, "expiry"))
		}
		text := func(cs []cid.ContentID, p []uint64, e []int64, q []uint64) string {
			s := ""
			for i := range cs {
				s += cs[i].ToString() + ","
			}
			return s + fmt.Sprint(p, e, q)
		}
		return call{name: "provider publish offers", provider: true, args: text(cs, price, exp, qos),
			do: func(_ *register.GatewayRegister, p *register.ProviderRegister) (string, error) {
				return "", papi.RequestPublishDHTOffer(p, cs, price, exp, qos, adm, av)
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				c, p, e, q, err := fcrmessages.DecodeProviderAdminPublishDHTOfferRequest(m)
				return must(text(c, p, e, q), err)
			},
			yes: enc(fcrmessages.EncodeProviderAdminPublishDHTOfferResponse(true)), no: []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeProviderAdminPublishDHTOfferResponse(false))}}
	default:
		cs := vt.CIDs(1, 4).Draw(rt, "pieces")
		price, qos, exp := vt.Uint64().Draw(rt, "price"), vt.Uint64().Draw(rt, "qos"), vt.Int64().Draw(rt, "expiry")
		text := func(cs []cid.ContentID, p uint64, e int64, q uint64) string {
			s := ""
			for i := range cs {
				s += cs[i].ToString() + ","
			}
			return s + fmt.Sprint(p, e, q)
		}
		return call{name: "provider publish group", provider: true, args: text(cs, price, exp, qos),
			do: func(_ *register.GatewayRegister, p *register.ProviderRegister) (string, error) {
				return "", papi.RequestPublishGroupOffer(p, cs, price, exp, qos, adm, av)
			},
			sent: func(m *fcrmessages.FCRMessage) string {
				c, p, e, q, err := fcrmessages.DecodeProviderAdminPublishGroupOfferRequest(m)
				return must(text(c, p, e, q), err)
			},
			yes: enc(fcrmessages.EncodeProviderAdminPublishGroupOfferResponse(true)), no: []*fcrmessages.FCRMessage{enc(fcrmessages.EncodeProviderAdminPublishGroupOfferResponse(false))}}
	}
}

var theDesk *desk

// others are affirmative answers of other kinds.
func others(t int32) []*fcrmessages.FCRMessage {
	var r []*fcrmessages.FCRMessage
	for _, m := range []*fcrmessages.FCRMessage{
		enc(fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(true)), enc(fcrmessages.EncodeGatewayAdminForceRefreshResponse(true)),
		enc(fcrmessages.EncodeGatewayAdminListDHTOfferResponse(true)), enc(fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(true)),
		enc(fcrmessages.EncodeProviderAdminInitialiseKeyResponse(true)), enc(fcrmessages.EncodeProviderAdminForceRefreshResponse(true)),
		enc(fcrmessages.EncodeProviderAdminPublishDHTOfferResponse(true)), enc(fcrmessages.EncodeProviderAdminPublishGroupOfferResponse(true)),
	} {
		if m.GetMessageType() != t {
			r = append(r, m)
		}
	}
	return r
}

var ways = []string{"honest", "honest", "honest", "other version", "denied", "another key", "administrator's key", "unsigned", "altered", "altered kind", "of another", "cut signature",
	"other kind", "same body, other kind", "broken body", "status 400", "status 500", "no message", "empty", "closed", "echo", "nothing there", "bad register key"}

// copied returns a message of its own (signing changes a message).
func copied(m *fcrmessages.FCRMessage) *fcrmessages.FCRMessage {
	return fcrmessages.CreateFCRMessage(m.GetMessageType(), append([]byte{}, m.GetMessageBody()...))
}

// answer makes the answer and tells whether it must be believed.
func answer(rt *rapid.T, k *call, way string, key, adm *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion) (on func(*fcrmessages.FCRMessage) (int, []byte), ok bool) {
	js := func(m *fcrmessages.FCRMessage) []byte {
		b, err := json.Marshal(m)
		if err != nil {
			panic(err)
		}
		return b
	}
	sign := func(m *fcrmessages.FCRMessage, key *fcrcrypto.KeyPair, ver *fcrcrypto.KeyVersion) *fcrmessages.FCRMessage {
		if err := m.Sign(key, ver); err != nil {
			panic(err)
		}
		return m
	}
	signature := func(m *fcrmessages.FCRMessage) string { return sign(copied(m), key, ver).GetSignature() }
	say := func(st int, b []byte) func(*fcrmessages.FCRMessage) (int, []byte) {
		return func(*fcrmessages.FCRMessage) (int, []byte) { return st, b }
	}
	y := copied(k.yes)
	switch way {
	case "honest":
		return say(200, js(sign(y, key, ver))), true
	case "other version":
		return say(200, js(sign(y, key, vt.Ver(ver.EncodeKeyVersion()+1+rapid.Uint32Range(0, 1000).Draw(rt, "other version"))))), true
	case "denied":
		if len(k.no) == 0 {
			return say(500, []byte("no")), false
		}
		return say(200, js(sign(copied(k.no[rapid.IntRange(0, len(k.no)-1).Draw(rt, "denial")]), key, ver))), false
	case "another key":
		return say(200, js(sign(y, vt.Key(99), ver))), false
	case "administrator's key":
		return say(200, js(sign(y, adm, ver))), false
	case "altered":
		b := append([]byte{}, y.GetMessageBody()...)
		sig := signature(y)
		if len(k.no) > 0 && rapid.Bool().Draw(rt, "from a denial") {
			return say(200, js(vtnode.WithSignature(y, signature(k.no[0])))), false
		}
		i := rapid.IntRange(0, len(b)-1).Draw(rt, "at")
		if b[i] == ' ' {
			b[i] = '\t'
		} else {
			b[i] ^= byte(rapid.IntRange(1, 255).Draw(rt, "by"))
		}
		return say(200, js(vtnode.WithSignature(fcrmessages.CreateFCRMessage(y.GetMessageType(), b), sig))), false
	case "altered kind":
		o := rapid.SampledFrom(others(y.GetMessageType())).Draw(rt, "from")
		return say(200, js(vtnode.WithSignature(y, signature(fcrmessages.CreateFCRMessage(o.GetMessageType(), y.GetMessageBody()))))), false
	case "of another":
		return say(200, js(vtnode.WithSignature(y, signature(others(y.GetMessageType())[0])))), false
	case "cut signature": // the last byte only helps to recover the key
		s := signature(y)
		return say(200, js(vtnode.WithSignature(y, s[:rapid.IntRange(0, 135).Draw(rt, "length")]))), false
	case "other kind":
		return say(200, js(sign(rapid.SampledFrom(others(y.GetMessageType())).Draw(rt, "kind"), key, ver))), false
	case "same body, other kind":
		o := rapid.SampledFrom(others(y.GetMessageType())).Draw(rt, "kind")
		return say(200, js(sign(fcrmessages.CreateFCRMessage(o.GetMessageType(), y.GetMessageBody()), key, ver))), false
	case "broken body":
		b := y.GetMessageBody()
		return say(200, js(sign(fcrmessages.CreateFCRMessage(y.GetMessageType(), b[:rapid.IntRange(0, len(b)-1).Draw(rt, "length")]), key, ver))), false
	case "status 400":
		return say(400, js(sign(y, key, ver))), false
	case "status 500":
		return say(500, js(sign(y, key, ver))), false
	case "no message":
		return say(200, []byte(rapid.SampledFrom([]string{"null", "{}", "[]", "true", "hello", "{\"", "{\"message_type\":1}"}).Draw(rt, "text"))), false
	case "empty":
		return say(200, []byte{}), false
	case "closed":
		return say(200, nil), false
	case "echo":
		return func(m *fcrmessages.FCRMessage) (int, []byte) { return 200, js(m) }, false
	default: // unsigned
		return say(200, js(y)), false
	}
}

// A library call succeeds exactly when the node's answer is genuine, of the expected kind and affirmative.
func TestA01_Replies(t *testing.T) {
	if theDesk == nil {
		theDesk = newDesk()
	}
	d := theDesk
	vt.Check(t, 4000, func(rt *rapid.T, c *vt.Case) {
		id := vt.Node(vt.ID32().Draw(rt, "node"))
		key, adm := vt.Key(rapid.IntRange(60, 70).Draw(rt, "node key")), vt.Key(rapid.IntRange(40, 50).Draw(rt, "administrator"))
		ver, av := vt.Ver(rapid.Uint32().Draw(rt, "node key version")), vt.Ver(rapid.Uint32().Draw(rt, "administrator's version"))
		k := makeCall(rt, id, adm, av)
		way := rapid.SampledFrom(ways).Draw(rt, "answer")
		on, ok := answer(rt, &k, way, key, adm, ver)
		d.script(on)
		g := &register.GatewayRegister{NodeID: id.ToString(), Address: "f0", RootSigningKey: vt.PubHex(vt.Key(98)), SigningKey: vt.PubHex(key), RegionCode: "AU",
			NetworkInfoGateway: "127.0.0.1:1", NetworkInfoProvider: "127.0.0.1:1", NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: d.addr()}
		if way == "nothing there" {
			g.NetworkInfoAdmin, ok = "127.0.0.1:1", false
		}
		if way == "bad register key" {
			on, _ = answer(rt, &k, "honest", key, adm, ver)
			d.script(on)
			ok = false
			g.SigningKey = rapid.SampledFrom([]string{"", "00", g.SigningKey[:len(g.SigningKey)-2], "zz" + g.SigningKey[2:], vt.PubHex(vt.Key(99))}).Draw(rt, "bad key")
		}
		p := &register.ProviderRegister{NodeID: g.NodeID, Address: "f0", RootSigningKey: g.RootSigningKey, SigningKey: g.SigningKey, RegionCode: "AU",
			NetworkInfoGateway: "127.0.0.1:1", NetworkInfoClient: "127.0.0.1:1", NetworkInfoAdmin: g.NetworkInfoAdmin}
		c.Addf("%s: %s", k.name, way)
		var res string
		var err error
		if s := vt.NoPanic(func() { res, err = k.do(g, p) }); s != "" {
			rt.Fatalf("%s crashes on an answer that is %s: %s", k.name, way, s)
		}
		if err != nil && len(err.Error()) > 9 && err.Error()[:9] == "VIOLATION" {
			rt.Fatalf("%s, answer %s: %v", k.name, way, err)
		}
		if ok != (err == nil) {
			rt.Fatalf("%s reports %v on an answer that is %s", k.name, err, way)
		}
		if ok && res != k.result {
			rt.Fatalf("%s returns %s, the answer says %s", k.name, res, k.result)
		}
		got := d.requests()
		if len(got) > 1 {
			rt.Fatalf("%s sends %d requests", k.name, len(got))
		}
		for _, m := range got {
			if d.bad != "" {
				rt.Fatalf("%s: %s", k.name, d.bad)
			}
			if err := m.Verify(vt.Pub(adm)); err != nil {
				rt.Fatalf("%s sends a request that is not signed by the administrator: %v", k.name, err)
			}
			if s := k.sent(m); s != k.args {
				rt.Fatalf("%s sends %s, asked for %s", k.name, s, k.args)
			}
		}
		if len(got) == 0 && way != "nothing there" && way != "bad register key" {
			rt.Fatalf("%s sends nothing", k.name)
		}
		if ok {
			c.NonTrivial(k.name + " believed")
		} else {
			c.NonTrivial(k.name + " refused")
		}
		c.Class(way)
	})
}
