package admin

import (
	"encoding/json"
	"fmt"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/cid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/cidoffer"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/common/pkg/nodeid"
	"github.com/ConsenSys/fc-retrieval/common/pkg/register"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/fcrgatewayadmin"
	"github.com/ConsenSys/fc-retrieval/provider-admin/pkg/fcrprovideradmin"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

// remote is a scripted node under administration.
type remote struct {
	*desk
	id   *nodeid.NodeID
	key  *fcrcrypto.KeyPair
	mood string // how it answers
	kept []cidoffer.CIDOffer

	former *desk // where it was before it moved
}

var remotes []*remote

func (r *remote) gateway() *register.GatewayRegister {
	return &register.GatewayRegister{NodeID: r.id.ToString(), Address: "f0", RootSigningKey: vt.PubHex(r.key), SigningKey: vt.PubHex(r.key), RegionCode: "AU", NetworkInfoAdmin: r.addr()}
}

func (r *remote) provider() *register.ProviderRegister {
	return &register.ProviderRegister{NodeID: r.id.ToString(), Address: "f0", RootSigningKey: vt.PubHex(r.key), SigningKey: vt.PubHex(r.key), RegionCode: "AU", NetworkInfoAdmin: r.addr()}
}

func (r *remote) answer(m *fcrmessages.FCRMessage) (int, []byte) {
	yes := r.mood != "denies"
	var a *fcrmessages.FCRMessage
	switch m.GetMessageType() {
	case fcrmessages.GatewayAdminInitialiseKeyRequestType, fcrmessages.GatewayAdminInitialiseKeyRequestV2Type:
		a = enc(fcrmessages.EncodeGatewayAdminInitialiseKeyResponse(yes))
	case fcrmessages.GatewayAdminForceRefreshRequestType:
		a = enc(fcrmessages.EncodeGatewayAdminForceRefreshResponse(yes))
	case fcrmessages.GatewayAdminListDHTOfferRequestType:
		a = enc(fcrmessages.EncodeGatewayAdminListDHTOfferResponse(yes))
	case fcrmessages.GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType:
		a = enc(fcrmessages.EncodeUpdateGatewayGroupCIDOfferSupportResponse(yes))
	case fcrmessages.ProviderAdminInitialiseKeyRequestType, fcrmessages.ProviderAdminInitialiseKeyRequestV2Type:
		a = enc(fcrmessages.EncodeProviderAdminInitialiseKeyResponse(yes))
	case fcrmessages.ProviderAdminForceRefreshRequestType:
		a = enc(fcrmessages.EncodeProviderAdminForceRefreshResponse(yes))
	case fcrmessages.ProviderAdminPublishDHTOfferRequestType:
		a = enc(fcrmessages.EncodeProviderAdminPublishDHTOfferResponse(yes))
	case fcrmessages.ProviderAdminPublishGroupOfferRequestType:
		a = enc(fcrmessages.EncodeProviderAdminPublishGroupOfferResponse(yes))
	case fcrmessages.ProviderAdminGetPublishedOfferRequestType:
		l := r.kept
		if !yes {
			l = nil
		}
		a = enc(fcrmessages.EncodeProviderAdminGetPublishedOfferResponse(len(l) > 0, l))
	default:
		return 400, []byte("unknown request")
	}
	k := r.key
	switch r.mood {
	case "forges":
		k = vt.Key(99)
	case "fails":
		return 500, []byte("no")
	case "hangs up":
		return 200, nil
	}
	if err := a.Sign(k, vt.Ver(1)); err != nil {
		panic(err)
	}
	b, _ := json.Marshal(a)
	return 200, b
}

// The libraries administer exactly the nodes they initialised, each with its own answers, and pass on the outcome.
func TestA01_Library(t *testing.T) {
	for len(remotes) < 3 {
		remotes = append(remotes, &remote{desk: newDesk(), former: newDesk()})
	}
	vt.Check(t, 400, func(rt *rapid.T, c *vt.Case) {
		adm, av := vt.Key(rapid.IntRange(40, 50).Draw(rt, "administrator")), vt.Ver(rapid.Uint32().Draw(rt, "version"))
		first := vt.ID32().Draw(rt, "node")
		for i, r := range remotes {
			id := append([]byte{}, first...)
			id[rapid.IntRange(0, 31).Draw(rt, "digit")] += byte(i)
			id[31] ^= byte(i << 4) // different ones
			r.id, r.key, r.mood = vt.Node(id), vt.Key(60+i), "obeys"
			r.kept = nil
			for j := rapid.IntRange(0, 2).Draw(rt, "offers"); j > 0; j-- {
				r.kept = append(r.kept, *vt.SomeOffer(1, 3).Draw(rt, "offer"))
			}
			r.script(r.answer)
			r.former.script(r.answer)
		}
		if remotes[0].id.ToString() == remotes[1].id.ToString() || remotes[0].id.ToString() == remotes[2].id.ToString() || remotes[1].id.ToString() == remotes[2].id.ToString() {
			vt.Skip("same ids")
		}
		gw := rapid.Bool().Draw(rt, "gateways")
		gs := fcrgatewayadmin.CreateSettings()
		gs.SetLogging("error", "STDOUT", "admin")
		gs.SetBlockchainPrivateKey(vt.Key(1))
		gs.SetGatewayAdminPrivateKey(adm, av)
		ps := fcrprovideradmin.CreateSettings()
		ps.SetLogging("error", "STDOUT", "admin")
		ps.SetBlockchainPrivateKey(vt.Key(1))
		ps.SetProviderAdminPrivateKey(adm, av)
		ga := fcrgatewayadmin.NewFilecoinRetrievalGatewayAdmin(*gs.Build())
		pa := fcrprovideradmin.NewFilecoinRetrievalProviderAdmin(*ps.Build())
		active := map[int]bool{}
		outcomes := map[string]bool{}
		for step := rapid.IntRange(1, 12).Draw(rt, "steps"); step > 0; step-- {
			i := rapid.IntRange(0, 2).Draw(rt, "which")
			r := remotes[i]
			r.mood = rapid.SampledFrom([]string{"obeys", "obeys", "obeys", "denies", "forges", "fails", "hangs up"}).Draw(rt, "mood")
			r.script(r.answer)
			key, ver := vt.Key(rapid.IntRange(60, 64).Draw(rt, "key")), vt.Ver(rapid.Uint32().Draw(rt, "key version"))
			var err error
			op := rapid.IntRange(0, 4).Draw(rt, "operation")
			name, joins, want := "", false, int32(0)
			if (op <= 1 || op == 4 && gw) && r.mood == "obeys" && rapid.IntRange(0, 2).Draw(rt, "moves") == 0 {
				// the node has moved, and has a new key, when it is initialised again
				r.desk, r.former = r.former, r.desk
				r.key = vt.Key(rapid.IntRange(60, 66).Draw(rt, "its key"))
				r.script(r.answer)
				r.former.script(r.answer)
				c.Class("moved")
			}
			var text string
			switch {
			case op == 0:
				name, joins = "initialise", true
				if gw {
					want = fcrmessages.GatewayAdminInitialiseKeyRequestType
					err = ga.InitialiseGateway(r.gateway(), key, ver)
				} else {
					want = fcrmessages.ProviderAdminInitialiseKeyRequestType
					err = pa.InitialiseProvider(r.provider(), key, ver)
				}
			case op == 1:
				name, joins = "initialise v2", true
				if gw {
					want = fcrmessages.GatewayAdminInitialiseKeyRequestV2Type
					err = ga.InitialiseGatewayV2(r.gateway(), key, ver, "w", "ap", "t")
				} else {
					want = fcrmessages.ProviderAdminInitialiseKeyRequestV2Type
					err = pa.InitialiseProviderV2(r.provider(), key, ver, "w", "ap", "t")
				}
			case op == 2 && gw:
				name, want = "refresh", fcrmessages.GatewayAdminForceRefreshRequestType
				err = ga.ForceUpdate(r.id)
			case op == 2:
				name, want = "refresh", fcrmessages.ProviderAdminForceRefreshRequestType
				err = pa.ForceUpdate(r.id)
			case op == 3 && gw:
				name, want = "list offers", fcrmessages.GatewayAdminListDHTOfferRequestType
				err = ga.ListDHTOffer(r.id)
			case op == 3:
				name, want = "read offers", fcrmessages.ProviderAdminGetPublishedOfferRequestType
				var found bool
				var l []cidoffer.CIDOffer
				found, l, err = pa.GetGroupCIDOffer(r.id, nil)
				exp := offersText(len(r.kept) > 0, r.kept)
				if r.mood == "denies" {
					exp = offersText(false, nil)
				}
				if text = offersText(found, l); err == nil && text != exp {
					rt.Fatalf("read %s, the provider has %s", text, exp)
				}
			case gw:
				name, joins, want = "group offers", true, fcrmessages.GatewayAdminUpdateGatewayGroupCIDOfferSupportRequestType
				err = ga.UpdateGatewaySupportedFeatures(r.gateway(), []nodeid.NodeID{*r.id})
			case rapid.Bool().Draw(rt, "group"):
				name, want = "publish group", fcrmessages.ProviderAdminPublishGroupOfferRequestType
				err = pa.PublishGroupCID(r.id, vt.CIDs(1, 3).Draw(rt, "pieces"), 1, 2, 3)
			default:
				name, want = "publish", fcrmessages.ProviderAdminPublishDHTOfferRequestType
				err = pa.PublishDHTCID(r.id, []cid.ContentID{*vt.CID(vt.ID32().Draw(rt, "piece"))}, []uint64{1}, []int64{2}, []uint64{3})
			}
			c.Addf("%s %d %s;", name, i, r.mood)
			can := joins || active[i]
			ok := can && (r.mood == "obeys" || name == "read offers" && r.mood == "denies")
			if ok != (err == nil) {
				rt.Fatalf("%s of node %d (initialised: %v), which %s: %v", name, i, active[i], r.mood, err)
			}
			if ok && joins {
				active[i] = true
			}
			outcomes[fmt.Sprint(ok, can)] = true
			for j, o := range remotes {
				got := o.requests()
				o.script(o.answer)
				if l := o.former.requests(); len(l) > 0 {
					rt.Fatalf("%s of node %d contacts the former address of node %d", name, i, j)
				}
				switch {
				case j != i || !can:
					if len(got) > 0 {
						rt.Fatalf("%s of node %d (initialised: %v) contacts node %d", name, i, active[i], j)
					}
				case len(got) != 1 || got[0].GetMessageType() != want:
					rt.Fatalf("%s of node %d sends %d requests, wanted one of type %d", name, i, len(got), want)
				case got[0].Verify(vt.Pub(adm)) != nil:
					rt.Fatalf("%s is not signed by the administrator", name)
				}
			}
		}
		if len(outcomes) > 1 {
			c.NonTrivial(map[bool]string{true: "gateways", false: "providers"}[gw])
		}
	})
}
