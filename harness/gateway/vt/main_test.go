// Package gateway checks parts of the gateway in the test process.
package gateway

import (
	"testing"

	"github.com/ConsenSys/fc-retrieval/gateway/config"
	"github.com/ConsenSys/fc-retrieval/vt"
	"github.com/ConsenSys/fc-retrieval/vtconf"
)

func TestMain(m *testing.M) {
	vtconf.Child(func() interface{} { return config.Map(config.NewConfig()) })
	vt.Main(m)
}
