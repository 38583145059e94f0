package eng

import (
	"sync"
	"testing"
	"testing/synctest"
)

// M runs the tests of the binary, of which only TestBubble is ever run here.
var M *testing.M

var onT func(t *testing.T)

// InTest is TestBubble.
func InTest(t *testing.T) {
	if onT == nil {
		t.Skip("only for the harness")
	}
	onT(t)
}

var (
	bubbleOnce sync.Once
	bubbleT    *testing.T
)

// Bubble runs f where time is simulated: it passes at once, and only while
// everything in there sleeps. The bubble is left behind afterwards, with
// whatever still waits in it.
func Bubble(f func() error) error {
	bubbleOnce.Do(func() {
		ready := make(chan struct{})
		setFlag("test.run", "^TestBubble$")
		onT = func(t *testing.T) {
			bubbleT = t
			close(ready)
			select {}
		}
		go M.Run()
		<-ready
	})
	type outcome struct {
		err   error
		panic any
	}
	done, never := make(chan outcome), make(chan struct{})
	go synctest.Test(bubbleT, func(*testing.T) {
		var o outcome
		defer func() {
			o.panic = recover()
			done <- o
			<-never // not a wait that lets time pass in the bubble
		}()
		o.err = f()
	})
	o := <-done
	if o.panic != nil {
		panic(o.panic)
	}
	return o.err
}
