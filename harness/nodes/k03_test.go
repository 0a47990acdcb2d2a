package nodes

import (
	"strings"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrmessages"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtnode"
	"github.com/ConsenSys/fc-retrieval/vtpay"
	"github.com/ConsenSys/fc-retrieval/vtreg"
	"pgregory.net/rapid"
)

// A node that is given its keys, well or badly, keeps them to itself.
func TestK03_Init(t *testing.T) {
	vt.Check(t, 4, func(rt *rapid.T, c *vt.Case) {
		kind := rapid.SampledFrom([]string{"gateway", "provider"}).Draw(rt, "kind")
		reg, lotus := vtreg.New(), vtpay.NewLotus()
		defer reg.Close()
		defer lotus.Close()
		n := vtnode.Start(kind, reg, vtnode.Config{})
		defer n.Stop()
		for i, k := 0, rapid.IntRange(1, 12).Draw(rt, "initialisations"); i < k; i++ {
			id, key, w := vt.Node(unique()), vt.Key(900+rapid.IntRange(0, 30).Draw(rt, "key")), vtpay.NewWallet(rapid.IntRange(200, 230).Draw(rt, "wallet"))
			vtnode.Secrets(key, w)
			wal := w.Priv
			what := rapid.SampledFrom([]string{"good", "wallet", "long wallet", "short wallet", "access point", "key", "short key", "json", "id", "type"}).Draw(rt, "what is wrong")
			ap := lotus.URL()
			switch what {
			case "wallet":
				wal = rapid.SampledFrom([]string{"zz" + wal, wal + "0", wal + "zz", " " + wal}).Draw(rt, "bad wallet")
			case "long wallet":
				wal += "00"
			case "short wallet":
				wal = wal[:48]
				vt.SecretText("the wallet's key", wal)
			case "access point":
				ap = rapid.SampledFrom([]string{"", "nonsense", "ftp://127.0.0.1:1"}).Draw(rt, "bad access point")
			}
			var m *fcrmessages.FCRMessage
			var err error
			v2 := rapid.IntRange(0, 3).Draw(rt, "with wallet") > 0
			ver := vt.Ver(rapid.Uint32().Draw(rt, "key version"))
			switch {
			case kind == "gateway" && v2:
				m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequestV2(id, key, ver, wal, ap, vtnode.Token)
			case kind == "gateway":
				m, err = fcrmessages.EncodeGatewayAdminInitialiseKeyRequest(id, key, ver)
			case v2:
				m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequestV2(id, key, ver, wal, ap, vtnode.Token)
			default:
				m, err = fcrmessages.EncodeProviderAdminInitialiseKeyRequest(id, key, ver)
			}
			if err != nil {
				panic(err)
			}
			b, k := string(m.GetMessageBody()), key.EncodePrivateKey()
			typ := m.GetMessageType()
			switch what {
			case "key":
				b = strings.Replace(b, k, rapid.SampledFrom([]string{"zz" + k, k + "0", "07" + k[2:], k + "00"}).Draw(rt, "bad key"), 1)
			case "short key":
				b = strings.Replace(b, k, k[:50], 1)
				vt.SecretText("the signing key", k[4:50])
			case "json":
				b = rapid.SampledFrom([]string{b[:len(b)-1], b + "}", "[" + b + "]", strings.Replace(b, ":", "", 1)}).Draw(rt, "bad json")
			case "id":
				b = strings.Replace(b, id.ToString(), "zz", 1)
			case "type":
				typ = rapid.SampledFrom([]int32{typ + 1, 0, 77, fcrmessages.GatewayAdminForceRefreshRequestType, fcrmessages.ProviderAdminForceRefreshRequestType}).Draw(rt, "type")
			}
			port := n.Admin
			if rapid.IntRange(0, 9).Draw(rt, "wrong port") == 0 {
				port = n.Client
			}
			n.Post(rt, port, fcrmessages.CreateFCRMessage(typ, []byte(b)))
			c.Addf("%s with wallet %v;", what, v2)
			c.Class(what)
		}
		n.Alive(rt)
		c.NonTrivial(kind)
	})
}
