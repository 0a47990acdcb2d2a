package admin

import (
	"fmt"
	"testing"

	"github.com/ConsenSys/fc-retrieval/common/pkg/fcrcrypto"
	"github.com/ConsenSys/fc-retrieval/gateway-admin/pkg/fcrgatewayadmin"
	"github.com/ConsenSys/fc-retrieval/provider-admin/pkg/fcrprovideradmin"
	"github.com/ConsenSys/fc-retrieval/vt"
	"pgregory.net/rapid"
)

// Histories of setting and building for both administration libraries against a model.
func TestF01_AdminSettings(t *testing.T) {
	keys := map[string]bool{}
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		type setters struct {
			log   func(a, b, c string)
			reg   func(string)
			bc    func(*fcrcrypto.KeyPair)
			key   func(*fcrcrypto.KeyPair, *fcrcrypto.KeyVersion)
			build func() func() map[string]string
		}
		type model struct {
			set  setters
			want map[string]string
		}
		type built struct {
			get  func() map[string]string
			want map[string]string
		}
		get := func(reg string, bc, k *fcrcrypto.KeyPair, v *fcrcrypto.KeyVersion) map[string]string {
			return map[string]string{"register": reg, "bc": vt.PubHex(bc), "key": k.EncodePrivateKey(), "ver": fmt.Sprint(v.EncodeKeyVersion())}
		}
		fresh := func() *model {
			m := &model{want: map[string]string{"bc": "", "key": ""}}
			if rapid.Bool().Draw(rt, "for gateways") {
				b := fcrgatewayadmin.CreateSettings()
				m.set = setters{b.SetLogging, b.SetRegisterURL, b.SetBlockchainPrivateKey, b.SetGatewayAdminPrivateKey, func() func() map[string]string {
					s := b.Build()
					return func() map[string]string {
						return get(s.RegisterURL(), s.BlockchainPrivateKey(), s.GatewayAdminPrivateKey(), s.GatewayAdminPrivateKeyVer())
					}
				}}
			} else {
				b := fcrprovideradmin.CreateSettings()
				m.want["register"] = "http://register:9020"
				m.set = setters{b.SetLogging, b.SetRegisterURL, b.SetBlockchainPrivateKey, b.SetProviderAdminPrivateKey, func() func() map[string]string {
					s := b.Build()
					return func() map[string]string {
						return get(s.RegisterURL(), s.BlockchainPrivateKey(), s.ProviderAdminPrivateKey(), s.ProviderAdminPrivateKeyVer())
					}
				}}
			}
			m.set.log("error", "STDOUT", "admin")
			return m
		}
		ms := []*model{fresh()}
		var bs []built
		for n := rapid.IntRange(1, 20).Draw(rt, "steps"); n > 0; n-- {
			m := ms[rapid.IntRange(0, len(ms)-1).Draw(rt, "builder")]
			op := rapid.SampledFrom([]string{"new", "register", "bc", "key", "build", "build"}).Draw(rt, "op")
			c.Addf("%s", op)
			switch op {
			case "new":
				ms = append(ms, fresh())
			case "register":
				v := rapid.StringMatching(`[ -~]{0,12}`).Draw(rt, op)
				m.set.reg(v)
				m.want[op] = v
			case "bc":
				k := vt.Key(rapid.IntRange(1, 50).Draw(rt, op))
				m.set.bc(k)
				m.want[op] = vt.PubHex(k)
			case "key":
				k, v := vt.Key(rapid.IntRange(1, 50).Draw(rt, op)), rapid.Uint32().Draw(rt, "ver")
				m.set.key(k, vt.Ver(v))
				m.want["key"], m.want["ver"] = k.EncodePrivateKey(), fmt.Sprint(v)
			case "build":
				if m.want["bc"] == "" {
					if vt.NoPanic(func() { m.set.build() }) == "" {
						rt.Fatalf("settings without a blockchain key are built")
					}
					c.Class("refused")
					continue
				}
				s := m.set.build()
				w := map[string]string{}
				for k, v := range m.want {
					w[k] = v
				}
				if w["key"] == "" {
					w["key"], w["ver"] = s()["key"], "1"
					k, err := fcrcrypto.DecodePrivateKey(w["key"])
					if err != nil || keys[w["key"]] {
						rt.Fatalf("the generated key %s is not a private key of its own: %v", vt.PubHex(k), err)
					}
					keys[w["key"]] = true
				}
				bs = append(bs, built{s, w})
				c.NonTrivial("built")
			}
			for _, b := range bs {
				got := b.get()
				for k, v := range b.want {
					if got[k] != v {
						rt.Fatalf("the settings' %s is %q, want %q", k, got[k], v)
					}
				}
			}
		}
	})
}
