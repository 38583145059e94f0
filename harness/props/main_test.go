package props

import (
	"flag"
	"os"
	"testing"

	"verifharness/eng"
	"verifharness/ref"
)

func TestMain(m *testing.M) {
	flag.Parse()
	if os.Getenv("VH_MODE") == "" { // plain go test (self-test, native fuzzing)
		os.Exit(m.Run())
	}
	if err := ref.SelfTest(); err != nil {
		eng.Die("%v", err)
	}
	if os.Getenv("VH_MODE") == "selftest" {
		os.Exit(0)
	}
	if os.Getenv("VH_MODE") == "call" {
		OneCall()
		os.Exit(0)
	}
	eng.M = m
	eng.Main(All())
	os.Exit(0)
}

func TestBubble(t *testing.T) { eng.InTest(t) }
