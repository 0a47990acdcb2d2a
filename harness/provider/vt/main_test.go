package provider

import (
	"testing"

	"github.com/ConsenSys/fc-retrieval/provider/config"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtconf"
)

func TestMain(m *testing.M) {
	vtconf.Child(func() interface{} { return config.Map(config.NewConfig()) })
	vt.Main(m)
}
