package conc

import (
	"errors"
	"fmt"
	"runtime"
	"sort"
	"sync"
	"sync/atomic"
	"testing"
	"testing/synctest"
	"time"

	"github.com/lxdlam/vertex/pkg/concurrency"
	"pgregory.net/rapid"

	"vertexverif/dict"
	"vertexverif/gen"
	"vertexverif/h"
)

var busSerial atomic.Int64

// names that are easily taken for one another
var topicNames = []string{"topic", "Topic", "topic "}

func subName(i int) string {
	if names := []string{"sub", "SUB", "sub ", "sub\x00"}; i < len(names) {
		return names[i]
	}
	return fmt.Sprint("sub", i)
}

// ---- a timeline of bus operations against a model ----

type busOp struct {
	Op    string
	Topic int
	Name  int // subscriber name, source
	Mode  string
	Size  int
	Us    int // expiry of the subscriber
	Data  int
	Crowd int `json:",omitempty"`
	Wait  int // microseconds before the operation
}

type busPlan struct {
	Direct bool // use a Topic directly instead of the bus
	Made   int  // how many topics there are from the start
	Ops    []busOp
}

// A subscriber's expiry times are odd and the polling periods even numbers of
// microseconds, operations happen at even ones: nothing coincides.
func genBusPlan(t *rapid.T) busPlan {
	p := busPlan{Direct: rapid.IntRange(0, 3).Draw(t, "direct") == 0, Made: rapid.IntRange(0, 3).Draw(t, "made")}
	kinds := []string{"new", "new", "remove", "exist", "sub", "sub", "sub", "sub", "sub", "sub", "close", "close", "pub", "pub", "pub", "pub", "pubsrc", "multi", "multi"}
	if rapid.IntRange(0, 5).Draw(t, "crowded") == 0 || len(dict.Sizes(1000)) > 0 && rapid.Bool().Draw(t, "crowded2") {
		kinds = append(kinds, "crowd")
	}
	p.Ops = rapid.SliceOfN(rapid.Custom(func(t *rapid.T) busOp {
		return busOp{
			Op: rapid.SampledFrom(kinds).Draw(t, "op"), Topic: rapid.SampledFrom([]int{0, 0, 0, 0, 1, 2}).Draw(t, "topic"), Name: rapid.IntRange(0, 3).Draw(t, "name"),
			Mode: rapid.SampledFrom([]string{"eager", "eager", "eager", "dead", "slow", "slow"}).Draw(t, "mode"),
			Size: gen.Sized(t, "size", 3000, -1, -1, -1, 1, 2, 50), Us: gen.Dur(t, "us", time.Microsecond, 3600*1000000, 1, 31, 1001, 20001) | 1,
			Data: rapid.IntRange(0, 9).Draw(t, "data"), Crowd: gen.Sized(t, "crowd", 1000, 20, 20, 70, 70, 130, 130, 270), Wait: rapid.SampledFrom([]int{0, 0, 2, 100, 5000, 40000}).Draw(t, "wait"),
		}
	}), 3, 40).Draw(t, "ops")
	return p
}

type got struct {
	at time.Duration
	ev concurrency.Event
}

// busSub is one subscription and its reader.
type busSub struct {
	topic, name int
	mode        string
	size        int
	expire      time.Duration
	period      time.Duration
	r           concurrency.Receiver
	mu          sync.Mutex
	got         []got
	ended       error
	closed      bool
	stopped     bool // the subscription was replaced or its topic removed
	want        []wantEvent
	buffered    int           // model: events in the buffer (dead)
	nextRecv    time.Duration // model: when the slow reader asks next
	kick        chan struct{}
}

type wantEvent struct {
	id   int
	data interface{}
	src  string
	err  error
}

const maxPeriod = 30000 * time.Microsecond

// slowPeriod has a nanosecond more, so that what a slow reader does never falls on the very end of
// a send's time, which is whole microseconds after a whole even microsecond.
func slowPeriod(d int) time.Duration {
	return []time.Duration{2000, 30000, 800}[d%3]*time.Microsecond + time.Nanosecond
}

func runBusPlan(t *testing.T, p busPlan) h.Outcome {
	o := h.Outcome{Steps: len(p.Ops)}
	bad := ""
	crash := h.Bubble(t, func() { bad = busTimeline(p, &o) })
	if crash != "" && bad == "" {
		bad = crash
	}
	o.Violation = bad
	return o
}

var errEvent = errors.New("the event's error")

func busData(d int) (interface{}, error) {
	switch d {
	case 0:
		return nil, nil
	case 1:
		return nil, errEvent
	case 2:
		return "both", errEvent
	}
	return d, nil
}

func busTimeline(p busPlan, o *h.Outcome) string {
	start := time.Now()
	now := func() time.Duration { return time.Since(start) }
	bus := concurrency.GetEventBus()
	prefix := fmt.Sprintf("c21-%d-", busSerial.Add(1))
	tname := func(i int) string { return prefix + topicNames[i] }
	direct := map[int]concurrency.Topic{}
	exists := map[int]bool{}
	if p.Direct {
		for i := 0; i < 3; i++ {
			direct[i], exists[i] = concurrency.NewTopic(tname(i)), true
		}
	}
	for i := 0; i < p.Made && !p.Direct; i++ {
		if !bus.NewTopic(tname(i)) {
			return "NewTopic of a new name gives false"
		}
		exists[i] = true
	}
	current := map[[2]int]*busSub{}
	var all []*busSub
	defer func() {
		for _, s := range all {
			s.r.Close()
			close(s.kick)
		}
		for i := 0; i < 3; i++ {
			if !p.Direct {
				bus.RemoveTopic(tname(i))
			}
		}
	}()
	serial := 0
	labels := map[string]bool{}
	subscribe := func(op busOp) string {
		var r concurrency.Receiver
		var err error
		expire, size := concurrency.DefaultExpireTime, 0
		name := subName(op.Name)
		opts := op.Size >= 0
		if opts {
			expire, size = time.Duration(op.Us)*time.Microsecond, op.Size
		}
		switch {
		case p.Direct && opts:
			r = direct[op.Topic].SubscribeWithOptions(name, size, expire)
		case p.Direct:
			r = direct[op.Topic].Subscribe(name)
		case opts:
			r, err = bus.SubscribeWithOptions(tname(op.Topic), name, size, expire)
		default:
			r, err = bus.Subscribe(tname(op.Topic), name)
		}
		if !exists[op.Topic] {
			if err != concurrency.ErrNoSuchTopic || r != nil {
				return fmt.Sprintf("subscribing to an unknown topic gives (%v, %v)", r, err)
			}
			labels["unknown-topic"] = true
			return ""
		}
		if err != nil || r == nil {
			return fmt.Sprintf("subscribing to a topic gives (%v, %v)", r, err)
		}
		s := &busSub{topic: op.Topic, name: op.Name, mode: op.Mode, size: size, expire: expire, period: slowPeriod(op.Data), r: r, kick: make(chan struct{})}
		if s.mode == "slow" && s.size > 0 {
			s.mode = "eager"
		}
		if old := current[[2]int{op.Topic, op.Name}]; old != nil {
			old.stopped = true
			if old.closed {
				labels["resubscribed"] = true
			} else {
				labels["replaced"] = true
			}
		}
		current[[2]int{op.Topic, op.Name}] = s
		all = append(all, s)
		recv := func() bool {
			ev, err := s.r.Receive()
			s.mu.Lock()
			defer s.mu.Unlock()
			if err != nil {
				s.ended = err
				return false
			}
			s.got = append(s.got, got{now(), ev})
			return true
		}
		switch s.mode {
		case "eager":
			go func() {
				for recv() {
				}
			}()
		case "slow":
			s.nextRecv = now()
			go func() {
				for recv() {
					time.Sleep(s.period)
				}
			}()
		}
		return ""
	}
	// publish publishes one event when nothing else is going on and checks the count.
	publish := func(op busOp, id int, withSource bool) (concurrency.Future, *wantEvent) {
		data, err := busData(op.Data)
		w := &wantEvent{id: id, data: data, src: "anonymous", err: err}
		if withSource {
			w.src = fmt.Sprint("source", op.Name)
		}
		if p.Direct {
			if withSource {
				return direct[op.Topic].Publish(concurrency.NewEventWithSource(tname(op.Topic), w.src, data, err)), w
			}
			return direct[op.Topic].Publish(concurrency.NewEvent(tname(op.Topic), data, err)), w
		}
		if withSource {
			return bus.PublishWithSource(tname(op.Topic), w.src, data, err), w
		}
		return bus.Publish(tname(op.Topic), data, err), w
	}
	// deliver updates the model with an event that is published now, alone, to a topic; it returns
	// how many get it and when the last send is over.
	deliver := func(topic int, w *wantEvent) (int, time.Duration) {
		n, over := 0, now()
		for k, s := range current {
			if k[0] != topic || s.closed {
				continue
			}
			at, ok := now(), true
			switch s.mode {
			case "dead":
				if ok = s.buffered < s.size; ok {
					s.buffered++
				}
			case "slow":
				if s.nextRecv > at {
					at = s.nextRecv
				}
				ok = at < now()+s.expire
				if ok {
					s.nextRecv = at + s.period
					if at > now() {
						labels["slow-in-time"] = true
					}
				}
			}
			if ok {
				n++
				s.want = append(s.want, *w)
			} else {
				at = now() + s.expire
				labels["expired"] = true
			}
			if at > over {
				over = at
			}
		}
		return n, over
	}
	check := func() string {
		synctest.Wait()
		for _, s := range all {
			s.mu.Lock()
			who := fmt.Sprintf("%s subscriber %q of topic %d", s.mode, subName(s.name), s.topic)
			gots, ended := s.got, s.ended
			s.mu.Unlock()
			if s.mode == "dead" {
				continue
			}
			if s.closed != (ended != nil) {
				return fmt.Sprintf("%s: closed %v, its Receive reports %v", who, s.closed, ended)
			}
			if ended != nil && ended != concurrency.ErrChannelClosed {
				return fmt.Sprintf("%s: Receive reports %v after the close", who, ended)
			}
			if len(gots) != len(s.want) {
				return fmt.Sprintf("%s got %d events, it should have %d: %v", who, len(gots), len(s.want), s.want)
			}
			for i, g := range gots {
				if w := sameEvent(g.ev, s.want[i], tname(s.topic)); w != "" {
					return who + ": " + w
				}
			}
		}
		return ""
	}
	settle := func() { time.Sleep(50*time.Millisecond + 2*maxPeriod) }

	for i, op := range p.Ops {
		time.Sleep(time.Duration(op.Wait) * time.Microsecond)
		// even microseconds only
		if r := now() % (2 * time.Microsecond); r != 0 {
			time.Sleep(2*time.Microsecond - r)
		}
		if p.Direct && (op.Op == "new" || op.Op == "exist") {
			continue
		}
		switch op.Op {
		case "new":
			if ok := bus.NewTopic(tname(op.Topic)); ok == exists[op.Topic] {
				return fmt.Sprintf("operation %d: NewTopic gives %v, existed %v", i, ok, exists[op.Topic])
			}
			exists[op.Topic] = true
		case "exist":
			if ok := bus.ExistTopic(tname(op.Topic)); ok != exists[op.Topic] {
				return fmt.Sprintf("operation %d: ExistTopic gives %v", i, ok)
			}
		case "remove":
			if p.Direct && op.Data > 2 {
				continue
			}
			w := &wantEvent{id: -1, err: concurrency.ErrTopicRemoved, src: "anonymous"}
			over := now()
			if exists[op.Topic] {
				_, over = deliver(op.Topic, w)
			}
			if p.Direct {
				direct[op.Topic].Remove()
			} else if ok := bus.RemoveTopic(tname(op.Topic)); ok != exists[op.Topic] {
				return fmt.Sprintf("operation %d: RemoveTopic gives %v, existed %v", i, ok, exists[op.Topic])
			}
			if now() > over {
				return fmt.Sprintf("operation %d: removing the topic took until %v, the last send is over at %v", i, now(), over)
			}
			if exists[op.Topic] && !p.Direct {
				exists[op.Topic] = false
				labels["removed"] = true
				for k, s := range current {
					if k[0] == op.Topic {
						s.stopped = true
						delete(current, k)
					}
				}
			}
		case "sub":
			if w := subscribe(op); w != "" {
				return fmt.Sprintf("operation %d: %s", i, w)
			}
			synctest.Wait()
		case "crowd": // many subscribers at once
			mode, us := "eager", 0
			if op.Size >= 0 {
				mode, us = op.Mode, op.Us
			}
			for k := 0; k < max(op.Crowd, 20); k++ {
				x := busOp{Topic: op.Topic, Name: 100 + k, Mode: mode, Size: -1, Data: op.Data}
				if mode != "eager" {
					if k%7 == 6 {
						x.Mode = "eager"
					} else if x.Size = op.Size - 1; x.Size > 1 {
						x.Size = 1
					}
					x.Us = us
				}
				if w := subscribe(x); w != "" {
					return fmt.Sprintf("operation %d: subscriber %d of a crowd: %s", i, k, w)
				}
			}
			if exists[op.Topic] {
				labels["crowd"] = true
			}
			synctest.Wait()
		case "close":
			s := current[[2]int{op.Topic, op.Name}]
			for _, x := range all {
				if s == nil && !x.closed && !x.stopped {
					s = x
				}
			}
			if s != nil {
				s.r.Close()
				if s.mode == "slow" && s.nextRecv > now() {
					time.Sleep(s.nextRecv - now()) // it notices when it asks next
				}
				s.closed = true
				labels["closed"] = true
			}
		case "pub", "pubsrc":
			serial++
			begin := now()
			fut, w := publish(op, serial, op.Op == "pubsrc")
			if !exists[op.Topic] {
				v, err := fut.Get()
				if v != nil || err != concurrency.ErrNoSuchTopic {
					return fmt.Sprintf("operation %d: publishing to an unknown topic gives (%v, %v)", i, v, err)
				}
				labels["unknown-topic"] = true
				continue
			}
			n, over := deliver(op.Topic, w)
			v, err := fut.Get()
			if err != nil || v != n {
				return fmt.Sprintf("operation %d: publishing gives (%v, %v), %d subscribers accept it in time", i, v, err, n)
			}
			if now() != over {
				return fmt.Sprintf("operation %d: publishing at %v is complete at %v, the last send is over at %v", i, begin, now(), over)
			}
			if n >= 2 {
				labels["fan-out"] = true
			}
		case "multi":
			// several events at once, to eager subscribers only: all get all of them, in any order
			eager, others := 0, 0
			for k, s := range current {
				if k[0] == op.Topic && !s.closed {
					if s.mode == "eager" {
						eager++
					} else {
						others++
					}
				}
			}
			if others > 0 || eager == 0 || !exists[op.Topic] {
				continue
			}
			k := 2 + op.Data%3
			var futs []concurrency.Future
			var ws []wantEvent
			for j := 0; j < k; j++ {
				serial++
				x := op
				x.Data = 3 + j
				f, w := publish(x, serial, false)
				futs = append(futs, f)
				ws = append(ws, *w)
			}
			for _, f := range futs {
				if v, err := f.Get(); err != nil || v != eager {
					return fmt.Sprintf("operation %d: publishing several events at once gives (%v, %v), there are %d subscribers", i, v, err, eager)
				}
			}
			synctest.Wait()
			labels["concurrent-events"] = true
			for key, s := range current {
				if key[0] != op.Topic || s.closed {
					continue
				}
				// put them in the order in which they came
				s.mu.Lock()
				if len(s.got) < len(s.want)+k {
					s.mu.Unlock()
					return fmt.Sprintf("operation %d: %d events were published at once, a subscriber has %d of %d", i, k, len(s.got), len(s.want)+k)
				}
				order := map[int]int{}
				for pos, g := range s.got[len(s.want) : len(s.want)+k] {
					if d, ok := g.ev.Data().(int); ok {
						order[d] = pos
					}
				}
				s.mu.Unlock()
				mine := append([]wantEvent(nil), ws...)
				sort.SliceStable(mine, func(a, b int) bool { return order[mine[a].data.(int)] < order[mine[b].data.(int)] })
				s.want = append(s.want, mine...)
			}
		}
		if w := check(); w != "" {
			return fmt.Sprintf("after operation %d (%s): %s", i, op.Op, w)
		}
		settleNeeded := op.Op == "pub" || op.Op == "pubsrc" || op.Op == "remove"
		if settleNeeded && op.Wait > 1000 {
			settle()
		}
	}
	settle()
	if w := check(); w != "" {
		return "at the end: " + w
	}
	// the dead ones have exactly what fitted into their buffers
	for _, s := range all {
		if s.mode != "dead" || s.closed {
			continue
		}
		for i, w := range s.want {
			ev, err := s.r.Receive()
			if err != nil {
				return fmt.Sprintf("a subscriber with %d buffered events gives %v for event %d", len(s.want), err, i)
			}
			if d := sameEvent(ev, w, tname(s.topic)); d != "" {
				return d
			}
		}
		go func() {
			if ev, err := s.r.Receive(); err == nil {
				s.mu.Lock()
				s.got = append(s.got, got{now(), ev})
				s.mu.Unlock()
			}
		}()
		synctest.Wait()
		s.mu.Lock()
		extra := len(s.got)
		s.mu.Unlock()
		if extra > 0 {
			return fmt.Sprintf("a subscriber got an event more than it accepted")
		}
	}
	ids := map[string]concurrency.Event{}
	for _, s := range all {
		for _, g := range s.got {
			if other := ids[g.ev.ID()]; other != nil && other != g.ev {
				return "two events have the same ID " + g.ev.ID()
			}
			ids[g.ev.ID()] = g.ev
		}
	}
	for l := range labels {
		o.Labels = append(o.Labels, l)
	}
	sort.Strings(o.Labels)
	o.NonTrivial = serial > 0 && len(all) > 0
	return ""
}

func sameEvent(ev concurrency.Event, w wantEvent, topic string) string {
	if ev.Data() != w.data || ev.Error() != w.err || ev.Source() != w.src || ev.Topic() != topic || ev.ID() == "" {
		return fmt.Sprintf("got the event (data %v, error %v, source %q, topic %q, id %q), want (%v, %v, %q, %q)",
			ev.Data(), ev.Error(), ev.Source(), ev.Topic(), ev.ID(), w.data, w.err, w.src, topic)
	}
	if d := time.Now().Unix() - ev.Time(); d < 0 || d > 3600 {
		return fmt.Sprintf("the event's time is %d, now it is %d", ev.Time(), time.Now().Unix())
	}
	return ""
}

// ---- real races: churn and concurrent publishers ----

type busRace struct {
	Stable     int // subscribers that stay
	Publishers int
	Each       int
	Churners   int // goroutines that subscribe, receive some and close, again and again
	SameNames  bool
	Rounds     int
	Removes    bool
	Spin       int
	Flat       bool `json:",omitempty"` // no longer and longer waits between subscribing and closing
}

func genBusRace(t *rapid.T) busRace {
	return busRace{
		Stable: gen.Sized(t, "stable", 200, 0, 1, 2, 3, 4, 5, 1, 2, 3, 30), Publishers: rapid.IntRange(1, 4).Draw(t, "pubs"), Each: gen.Sized(t, "each", 400, 1, 3, 5, 8, 15, 15, 60),
		Churners: rapid.IntRange(0, 4).Draw(t, "churners"), SameNames: rapid.Bool().Draw(t, "same"), Rounds: rapid.IntRange(1, 10).Draw(t, "rounds"),
		Removes: rapid.IntRange(0, 3).Draw(t, "removes") == 0, Spin: rapid.SampledFrom([]int{0, 0, 5, 50}).Draw(t, "spin"),
	}
}

func runBusRace(p busRace) h.Outcome {
	o := h.Outcome{Steps: p.Publishers*p.Each + p.Churners*p.Rounds, NonTrivial: p.Stable > 0 && p.Publishers*p.Each > 1}
	bus := concurrency.GetEventBus()
	topic := fmt.Sprintf("c21-race-%d", busSerial.Add(1))
	if !bus.NewTopic(topic) {
		return h.Fail("NewTopic of a new name gives false")
	}
	defer bus.RemoveTopic(topic)
	const forever = 5 * time.Minute
	var mu sync.Mutex
	bad := ""
	fail := func(f string, a ...interface{}) {
		mu.Lock()
		defer mu.Unlock()
		if bad == "" {
			bad = fmt.Sprintf(f, a...)
		}
	}
	stable := make([]concurrency.Receiver, p.Stable)
	received := make([][][2]int, p.Stable)
	var readers sync.WaitGroup
	removed := make([]int, p.Stable)
	for i := range stable {
		r, err := bus.SubscribeWithOptions(topic, fmt.Sprint("stable", i), 1, forever)
		if err != nil {
			return h.Fail("Subscribe gives %v", err)
		}
		stable[i] = r
		readers.Add(1)
		go func() {
			defer readers.Done()
			for {
				ev, err := r.Receive()
				if err != nil {
					return
				}
				if ev.Error() == concurrency.ErrTopicRemoved {
					mu.Lock()
					removed[i]++
					mu.Unlock()
					continue
				}
				mu.Lock()
				received[i] = append(received[i], ev.Data().([2]int))
				mu.Unlock()
				spin(p.Spin)
			}
		}()
	}
	stop := make(chan struct{})
	var churn, pubs sync.WaitGroup
	for c := 0; c < p.Churners; c++ {
		churn.Add(1)
		go func() {
			defer churn.Done()
			for k := 0; k < p.Rounds; k++ {
				name := fmt.Sprintf("churn%d", c)
				if p.SameNames {
					name = "churn"
				}
				r, err := bus.SubscribeWithOptions(topic, name, 50, time.Millisecond)
				if err != nil {
					fail("Subscribe gives %v", err)
					return
				}
				if !p.Flat {
					spin(3 * k)
				}
				r.Close()
				if _, err := r.Receive(); err != concurrency.ErrChannelClosed {
					fail("Receive on a closed subscription gives %v", err)
				}
			}
		}()
	}
	for b := 0; b < p.Publishers; b++ {
		pubs.Add(1)
		go func() {
			defer pubs.Done()
			for n := 0; n < p.Each; n++ {
				v, err := bus.Publish(topic, [2]int{b, n}, nil).Get()
				c, ok := v.(int)
				if err != nil || !ok || c < p.Stable || c > p.Stable+p.Churners {
					fail("Publish gives (%v, %v), there are %d lasting subscribers and up to %d others", v, err, p.Stable, p.Churners)
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { pubs.Wait(); churn.Wait(); close(done) }()
	select {
	case <-done:
	case <-time.After(150 * time.Second):
		return h.Fail("publishers are still blocked after 150 s")
	}
	close(stop)
	// every subscriber of the churn is gone: the count is exact, and those who come back are served
	if v, err := bus.Publish(topic, [2]int{-1, 0}, nil).Get(); err != nil || v != p.Stable {
		fail("Publish gives (%v, %v), there are %d subscribers", v, err, p.Stable)
	}
	back, err := bus.SubscribeWithOptions(topic, "churn", 1, forever)
	if err != nil {
		return h.Fail("Subscribe gives %v", err)
	}
	back0, err := bus.SubscribeWithOptions(topic, "churn0", 1, forever)
	if err != nil {
		return h.Fail("Subscribe gives %v", err)
	}
	spin(10 * p.Spin)
	if v, err := bus.Publish(topic, [2]int{-1, 1}, nil).Get(); err != nil || v != p.Stable+2 {
		fail("after two names subscribed again, Publish gives (%v, %v), there are %d subscribers", v, err, p.Stable+2)
	} else {
		for _, r := range []concurrency.Receiver{back, back0} {
			if ev, err := r.Receive(); err != nil || ev.Data() != [2]int{-1, 1} {
				fail("a name that subscribed again does not get the event (%v)", err)
			}
		}
	}
	back.Close()
	back0.Close()
	if p.Removes {
		if !bus.RemoveTopic(topic) {
			fail("RemoveTopic gives false")
		}
		if bus.ExistTopic(topic) {
			fail("a removed topic exists")
		}
		if _, err := bus.Publish(topic, [2]int{}, nil).Get(); err != concurrency.ErrNoSuchTopic {
			fail("publishing to a removed topic gives %v", err)
		}
		o.Labels = append(o.Labels, "removed")
	}
	// what was sent to a subscriber has been taken by it or is in its buffer
	total := p.Publishers*p.Each + 2
	limit := time.Now().Add(30 * time.Second)
	for i := range stable {
		for {
			mu.Lock()
			n, r := len(received[i]), removed[i]
			mu.Unlock()
			if n >= total && (!p.Removes || r > 0) || bad != "" {
				break
			}
			if time.Now().After(limit) {
				fail("subscriber %d has %d of %d events and %d removals", i, n, total, r)
				break
			}
			time.Sleep(50 * time.Microsecond)
		}
	}
	for _, r := range stable {
		r.Close()
	}
	readers.Wait()
	mu.Lock()
	defer mu.Unlock()
	if bad != "" {
		return h.Fail("%s", bad)
	}
	for i := range stable {
		seen := map[[2]int]bool{}
		last := map[int]int{}
		for _, x := range received[i] {
			if seen[x] {
				return h.Fail("subscriber %d got event %v twice", i, x)
			}
			seen[x] = true
			// a publisher waits for its event before it publishes the next
			if l, ok := last[x[0]]; ok && l > x[1] {
				return h.Fail("subscriber %d got event %v after event %d of the same publisher", i, x, l)
			}
			last[x[0]] = x[1]
		}
		if len(received[i]) != total {
			return h.Fail("subscriber %d got %d events, %d were published", i, len(received[i]), total)
		}
		if p.Removes && removed[i] != 1 {
			return h.Fail("subscriber %d was told %d times that the topic is removed", i, removed[i])
		}
	}
	if p.Churners > 0 {
		o.Labels = append(o.Labels, "churn")
	}
	return o
}

// ---- closed subscribers are forgotten ----

type busForget struct {
	Closed   int
	Live     int
	Buffered int
	Reuse    bool
}

type tracked struct{ pad [64]byte }

func runBusForget(p busForget) h.Outcome {
	o := h.Outcome{NonTrivial: p.Closed > 0, Steps: p.Closed + p.Live}
	topic := concurrency.NewTopic("forget")
	var freed atomic.Int32
	var live []concurrency.Receiver
	for i := 0; i < p.Live; i++ {
		r := topic.SubscribeWithOptions(fmt.Sprint("live", i), 100, time.Millisecond)
		live = append(live, r)
	}
	tracking := 0
	func() {
		var subs []concurrency.Receiver
		for i := 0; i < p.Closed; i++ {
			subs = append(subs, topic.SubscribeWithOptions(fmt.Sprint("gone", i), 5, time.Millisecond))
		}
		for b := 0; b < p.Buffered; b++ {
			x := &tracked{}
			runtime.AddCleanup(x, func(int) { freed.Add(1) }, 0)
			tracking++
			if v, err := topic.Publish(concurrency.NewEvent("forget", x, nil)).Get(); err != nil || v != p.Closed+p.Live {
				o.Violation = fmt.Sprintf("Publish gives (%v, %v), there are %d subscribers", v, err, p.Closed+p.Live)
				return
			}
		}
		// the live ones take their events, so that only the closed ones hold any
		for _, r := range live {
			for b := 0; b < p.Buffered; b++ {
				if _, err := r.Receive(); err != nil {
					o.Violation = fmt.Sprintf("Receive gives %v", err)
					return
				}
			}
		}
		for _, s := range subs {
			s.Close()
		}
	}()
	if o.Violation != "" {
		return o
	}
	// anything may trigger the forgetting: some publishing, and some time
	for try := 0; ; try++ {
		if v, err := topic.Publish(concurrency.NewEvent("forget", nil, nil)).Get(); err != nil || v != p.Live {
			return h.Fail("Publish gives (%v, %v) with %d live subscribers", v, err, p.Live)
		}
		for _, r := range live {
			if _, err := r.Receive(); err != nil {
				return h.Fail("Receive gives %v", err)
			}
		}
		runtime.GC()
		time.Sleep(time.Duration(try) * time.Millisecond)
		if int(freed.Load()) == tracking {
			break
		}
		if try > 100 {
			return h.Fail("%d of %d events that only closed subscribers held are still held after %d more publishes: closed subscribers are not forgotten", tracking-int(freed.Load()), tracking, try)
		}
	}
	runtime.KeepAlive(topic)
	runtime.KeepAlive(live)
	return o
}

func TestC21(t *testing.T) {
	h.Plan(5.4)
	h.Check(t, "C21", h.Prop[busRace]{
		Name:  "huge",
		Rule:  "2^15 or 2^16 events (or a few more) published to one topic by 1 or 2 publishers, with one or two lasting subscribers that must get every one once; or as many subscriptions that come and go; all are non-trivial",
		Cases: 1, Retries: 3, Weight: 0.4, Run: runBusRace, Shrink: 10 * time.Second,
		Gen: func(t *rapid.T) busRace {
			n, pubs := min(gen.HugeSize(t), 70000), rapid.IntRange(1, 2).Draw(t, "pubs")
			if rapid.IntRange(0, 3).Draw(t, "come") == 0 {
				return busRace{Stable: 1, Publishers: 1, Each: 50, Churners: 2, Rounds: n/2 + 1, Removes: true, Flat: true}
			}
			return busRace{Stable: rapid.IntRange(1, 2).Draw(t, "stable"), Publishers: pubs, Each: n/pubs + 1, Removes: rapid.Bool().Draw(t, "removes")}
		},
	})
	h.Check(t, "C21", h.Prop[busPlan]{
		Name:  "timeline",
		Rule:  "3 to 40 operations (create, remove, subscribe under fresh and used names with generated capacity and expiry, close, publish) on the bus or a topic in virtual time with eager, slow and dead subscribers; every count, delivery and event field against a model; non-trivial with a subscriber and an event",
		Cases: 5000, Retries: 50, Weight: 2, Gen: genBusPlan, Run: func(p busPlan) h.Outcome { return runBusPlan(t, p) },
	})
	h.Check(t, "C21", h.Prop[busRace]{
		Name:  "race",
		Rule:  "1 to 4 concurrent publishers and up to 4 goroutines that subscribe and close, on real threads, with lasting subscribers that must get every event once; non-trivial with a lasting subscriber and two events",
		Cases: 400, Retries: 100, Weight: 1, Gen: genBusRace, Run: runBusRace,
	})
	h.Check(t, "C21", h.Prop[busReg]{
		Name:  "registry",
		Rule:  "2 to 6 goroutines that create, remove, look for, subscribe to and publish to the same one or two topics, their operations released together, up to 200 times each; porcupine searches an order that explains what they were told, and every subscriber is told of the removal; non-trivial with two goroutines",
		Cases: 60, Retries: 100, Weight: 1, Gen: genBusReg, Run: runBusReg,
	})
	h.Check(t, "C21", h.Prop[busForget]{
		Name:  "forget",
		Rule:  "subscribers close with unread events in their buffers; after more publishing the garbage collector must be able to free these events; non-trivial with at least one",
		Cases: 10, Retries: 3, Weight: 1,
		Gen: func(t *rapid.T) busForget {
			return busForget{Closed: gen.Sized(t, "closed", 300, 1, 2, 3, 5, 9, 20, 40), Live: rapid.IntRange(0, 3).Draw(t, "live"), Buffered: rapid.IntRange(1, 5).Draw(t, "buffered")}
		},
		Run: runBusForget,
	})
}
