package conc

import (
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"github.com/lxdlam/vertex/pkg/util"
)

// What the code under test makes once, at its first use, must not be made within a bubble of virtual time, where it could not
// be used by anyone outside. Whether any of this works is not judged here.
func init() {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { _ = recover() }()
		_ = util.GenNewUUID()
		_ = util.GetGlobalRandom().Int()
		bus := concurrency.GetEventBus()
		bus.NewTopic("prime")
		r, err := bus.SubscribeWithOptions("prime", "prime", 10, time.Second)
		if err == nil {
			_, _ = bus.Publish("prime", 1, nil).Get()
			r.Close()
		}
		bus.RemoveTopic("prime")
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
	}
}
