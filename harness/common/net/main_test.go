package net

import (
	"testing"

	"github.com/ConsenSys/fc-retrieval/vt"
)

func TestMain(m *testing.M) { vt.Main(m) }
