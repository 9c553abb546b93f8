package h

import (
	"fmt"
	"runtime/debug"
	"strings"
	"testing"
	"testing/synctest"
)

// Bubble runs f in a bubble of virtual time. It returns "" when f and every
// goroutine it started have ended, and otherwise what went wrong: a panic of
// the code under test in f, or goroutines that stay blocked for ever.
func Bubble(t *testing.T, f func()) (bad string) {
	defer func() {
		if r := recover(); r != nil {
			s := fmt.Sprint(r)
			if !strings.Contains(s, "deadlock") {
				panic(r)
			}
			if bad == "" {
				bad = "goroutines stay blocked for ever: " + s
			}
		}
	}()
	synctest.Test(t, func(*testing.T) {
		defer func() {
			if r := recover(); r != nil {
				st := string(debug.Stack())
				bad = fmt.Sprintf("panic: %v\n%s", r, trimStack(st))
				if !strings.Contains(st, "lxdlam/vertex") && !strings.Contains(st, "/repo/") {
					bad = "HARNESS " + bad + st
				}
			}
		}()
		f()
	})
	return bad
}
