//go:build go1.27

package harness

import (
	"fmt"
	"os"
	"testing"
)

// TestSim is the entry point of every mode; VERIF_MODE selects it.
func TestSim(t *testing.T) {
	mode := os.Getenv("VERIF_MODE")
	f, ok := modes[mode]
	if !ok {
		t.Skip("VERIF_MODE is not set")
	}
	code := f(t)
	if code != 0 && mode != "drive" {
		fmt.Fprintf(os.Stderr, "mode %s ends with %d\n", mode, code)
	}
	os.Exit(code)
}
