package harness

import (
	"flag"
	"os"
	"testing"
)

func TestMain(m *testing.M) {
	flag.Parse()
	switch os.Getenv("VERIF_ROLE") {
	case "child":
		os.Exit(m.Run())
	case "gen":
		GenMain()
		os.Exit(0)
	case "driver":
		os.Exit(DriverMain())
	}
	os.Exit(m.Run())
}

func TestChild(t *testing.T) {
	if os.Getenv("VERIF_ROLE") != "child" {
		t.Skip()
	}
	ChildMain(t)
}
