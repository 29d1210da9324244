package e2echk

import (
	"testing"

	"verifharness/engine"
)

func TestMain(m *testing.M) { engine.Main(m) }
