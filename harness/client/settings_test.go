package client

import (
	"fmt"
	"math/big"
	"testing"

	"github.com/ConsenSys/fc-retrieval/client/pkg/fcrclient"
	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

// usable tells whether a key pair signs, and what its signatures verify with.
func usable(k *fcrcrypto.KeyPair) error {
	sig, err := fcrcrypto.SignMessage(k, vt.Ver(1), []byte("x"))
	if err != nil {
		return err
	}
	if ok, err := fcrcrypto.VerifyMessage(vt.Pub(k), sig, []byte("x")); err != nil || !ok {
		return fmt.Errorf("its signature does not verify: %v", err)
	}
	return nil
}

// Histories of setting and building on several builders against a model: settings are what was set last before they
// were built, else the documented default, and stay so.
func TestF01_ClientSettings(t *testing.T) {
	ids, keys := map[string]bool{}, map[string]bool{}
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		type model struct {
			b    *fcrclient.SettingsBuilder
			want map[string]string
			bc   bool
		}
		type built struct {
			s    *fcrclient.ClientSettings
			want map[string]string
		}
		fresh := func() *model {
			m := &model{b: fcrclient.CreateSettings(), want: map[string]string{"ttl": "100", "register": "http://register:9020", "bc": "", "key": "", "ver": "",
				"wallet": "", "ap": "", "token": "", "search": "1000000000000000", "offer": "1000000000000000", "topup": "100000000000000000"}}
			m.b.SetLogging("error", "STDOUT", "client")
			return m
		}
		ms := []*model{fresh()}
		var bs []built
		word := rapid.StringMatching(`[ -~]{0,12}`)
		amount := func(l string) *big.Int {
			n, _ := new(big.Int).SetString(rapid.StringMatching(`[0-9]{1,30}`).Draw(rt, l), 10)
			return n
		}
		check := func() {
			for _, b := range bs {
				s := b.s
				got := map[string]string{"ttl": fmt.Sprint(s.EstablishmentTTL()), "register": s.RegisterURL(), "bc": vt.PubHex(s.BlockchainPrivateKey()), "wallet": s.WalletPrivateKey(), "ap": s.LotusAP(),
					"token": s.LotusAuthToken(), "search": s.SearchPrice().String(), "offer": s.OfferPrice().String(), "topup": s.TopUpAmount().String(),
					"key": s.RetrievalPrivateKey().EncodePrivateKey(), "ver": fmt.Sprint(s.RetrievalPrivateKeyVer().EncodeKeyVersion()), "id": s.ClientID().ToString()}
				for k, v := range b.want {
					if got[k] != v {
						rt.Fatalf("the settings' %s is %q, want %q", k, got[k], v)
					}
				}
			}
		}
		for n := rapid.IntRange(1, 25).Draw(rt, "steps"); n > 0; n-- {
			m := ms[rapid.IntRange(0, len(ms)-1).Draw(rt, "builder")]
			op := rapid.SampledFrom([]string{"new", "ttl", "register", "bc", "key", "wallet", "ap", "token", "search", "offer", "topup", "build", "build"}).Draw(rt, "op")
			c.Addf("%s", op)
			switch op {
			case "new":
				ms = append(ms, fresh())
			case "ttl":
				v := rapid.Int64().Draw(rt, op)
				m.b.SetEstablishmentTTL(v)
				m.want[op] = fmt.Sprint(v)
			case "register", "wallet", "ap", "token":
				v := word.Draw(rt, op)
				map[string]func(string){"register": m.b.SetRegisterURL, "wallet": m.b.SetWalletPrivateKey, "ap": m.b.SetLotusAP, "token": m.b.SetLotusAuthToken}[op](v)
				m.want[op] = v
			case "search", "offer", "topup":
				v := amount(op)
				map[string]func(*big.Int){"search": m.b.SetSearchPrice, "offer": m.b.SetOfferPrice, "topup": m.b.SetTopUpAmount}[op](v)
				m.want[op] = v.String()
			case "bc":
				k := vt.Key(rapid.IntRange(1, 50).Draw(rt, op))
				m.b.SetBlockchainPrivateKey(k)
				m.want[op] = vt.PubHex(k)
			case "key":
				k, v := vt.Key(rapid.IntRange(1, 50).Draw(rt, op)), rapid.Uint32().Draw(rt, "ver")
				m.b.SetRetrievalPrivateKey(k, vt.Ver(v))
				m.want["key"], m.want["ver"] = k.EncodePrivateKey(), fmt.Sprint(v)
			case "build":
				if m.want["bc"] == "" {
					if vt.NoPanic(func() { m.b.Build() }) == "" {
						rt.Fatalf("settings without a blockchain key are built")
					}
					c.Class("refused")
					continue
				}
				s := m.b.Build()
				w := map[string]string{}
				for k, v := range m.want {
					w[k] = v
				}
				if w["key"] == "" { // a key of its own
					if err := usable(s.RetrievalPrivateKey()); err != nil {
						rt.Fatalf("the generated key is not usable: %v", err)
					}
					w["key"], w["ver"] = s.RetrievalPrivateKey().EncodePrivateKey(), "1"
					if keys[w["key"]] {
						rt.Fatalf("two clients got the same generated key")
					}
					keys[w["key"]] = true
				}
				w["id"] = s.ClientID().ToString()
				if len(w["id"]) != 64 || ids[w["id"]] {
					rt.Fatalf("the client id %q is not an id of its own", w["id"])
				}
				ids[w["id"]] = true
				bs = append(bs, built{s, w})
				c.NonTrivial("built")
			}
			check()
		}
	})
}
