package checks

import (
	"os"
	"testing"

	"verif/harness/eng"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_ROLE") == "parent" {
		args := os.Args[1:]
		for len(args) > 0 && args[0] != "--" {
			args = args[1:]
		}
		if len(args) > 0 {
			args = args[1:]
		}
		os.Exit(eng.Parent(args))
	}
	os.Exit(m.Run())
}

func TestWorker(t *testing.T) {
	if os.Getenv("VERIF_ROLE") != "worker" {
		t.Skip("only run by the engine")
	}
	eng.Worker(t)
}
