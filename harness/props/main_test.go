package props

import (
	"os"
	"testing"

	"verif/pbt"
)

func TestMain(m *testing.M) {
	if os.Getenv("VERIF_JOB") != "" {
		os.Exit(m.Run())
	}
	os.Exit(pbt.Main())
}

func TestWorker(t *testing.T) { pbt.RunWorker(t) }
