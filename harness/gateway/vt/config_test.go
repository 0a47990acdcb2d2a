package gateway

import (
	"math/big"
	"testing"

	"github.com/ConsenSys/fc-retrieval/gateway/config"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtconf"
	"github.com/spf13/viper"
	"pgregory.net/rapid"
)

var spec = vtconf.Spec{
	Text: map[string]string{"BindRestAPI": "BIND_REST_API", "BindProviderAPI": "BIND_PROVIDER_API", "BindGatewayAPI": "BIND_GATEWAY_API", "BindAdminAPI": "BIND_ADMIN_API",
		"LogLevel": "LOG_LEVEL", "LogTarget": "LOG_TARGET", "LogDir": "LOG_DIR", "LogFile": "LOG_FILE", "GatewayID": "GATEWAY_ID", "RegisterAPIURL": "REGISTER_API_URL",
		"GatewayAddress": "GATEWAY_ADDRESS", "GatewayRegionCode": "GATEWAY_REGION_CODE", "GatewayRootSigningKey": "GATEWAY_ROOT_SIGNING_KEY", "GatewaySigningKey": "GATEWAY_SIGNING_KEY"},
	AfterHost: map[string]string{"NetworkInfoGateway": "BIND_GATEWAY_API", "NetworkInfoClient": "BIND_REST_API", "NetworkInfoProvider": "BIND_PROVIDER_API", "NetworkInfoAdmin": "BIND_ADMIN_API"},
}

// Configurations one after another, each with the settings it stands for, whatever happened to earlier ones.
func TestF01_Map(t *testing.T) {
	vt.Check(t, 60, func(rt *rapid.T, c *vt.Case) {
		for i := rapid.IntRange(1, 3).Draw(rt, "configurations"); i > 0; i-- {
			conf := vtconf.Draw(rt, spec, "10.0.0.7")
			v := viper.New()
			for k, x := range conf.Vars {
				v.Set(k, x)
			}
			v.Set("IP", "10.0.0.7")
			c.Addf("%s", conf.Text())
			s := config.Map(v)
			conf.Check(rt, vtconf.Fields(s))
			s.SearchPrice.Add(s.SearchPrice, big.NewInt(1))
			s.OfferPrice.Add(s.OfferPrice, big.NewInt(2))
			s.TopupAmount.Add(s.TopupAmount, big.NewInt(3))
			conf.Check(rt, vtconf.Fields(config.Map(v)))
		}
		c.NonTrivial("mapped")
	})
}

// The configuration of a starting process: variables of its environment, and its command line.
func TestF01_Start(t *testing.T) {
	vt.Check(t, 12, func(rt *rapid.T, c *vt.Case) {
		env, args, host := vtconf.Host(rt)
		conf := vtconf.Draw(rt, spec, host)
		if env != "" {
			conf.Vars["IP"] = env
		}
		c.Addf("%q %s", args, conf.Text())
		conf.Check(rt, conf.Start(rt, args...))
		c.NonTrivial("started")
	})
}
