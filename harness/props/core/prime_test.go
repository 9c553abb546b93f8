package core

import (
	"time"

	"github.com/lxdlam/vertex/pkg/container"
	"github.com/lxdlam/vertex/pkg/db"
	"github.com/lxdlam/vertex/pkg/types"
	"github.com/lxdlam/vertex/pkg/util"

	"vertexverif/inproc"
)

// What the code under test makes once, at its first use, must not be made within a bubble of virtual time, where it could not
// be used by anyone outside. Whether any of this works is not judged here.
func init() {
	done := make(chan struct{})
	go func() {
		defer close(done)
		defer func() { _ = recover() }()
		_ = util.GenNewUUID()
		_ = util.GetGlobalRandom().Int()
		d := db.NewDB(1)
		for _, c := range [][]string{{"set", "a", "1"}, {"incr", "a"}, {"get", "a"}, {"rpush", "a", "1", "2"}, {"lrange", "a", "0", "-1"}, {"hset", "a", "b", "c"}, {"hgetall", "a"},
			{"sadd", "a", "1", "2", "3"}, {"srandmember", "a", "2"}, {"spop", "a"}, {"sunion", "a", "b"}, {"nonsense"}} {
			_, _ = inproc.Exec(d, c)
		}
		z := container.NewSortedSetContainer("z")
		_ = z.Add([]float64{1}, []*container.StringContainer{container.NewString("x")})
		for _, m := range []types.DataMap{types.NewSimpleDataMap(), types.NewLockedDataMap(), types.NewSyncDataMap()} {
			m.Set("a", 1)
			m.Remove("a")
		}
	}()
	select {
	case <-done:
	case <-time.After(2 * time.Second):
	}
}
