// P04: concurrency of the versioning wrapper.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"verifmc/explore"
	"verifmc/fake"
)

type world struct {
	x    *explore.Exec
	b    *fake.Broker
	w    *versioning.Wrapper
	subs slots
	ends [4]context.CancelFunc // of the contexts given on subscription
}

// slots: one per key, so that threads working on different keys share no memory.
type slots [4]*extensions.BrokerChannelSubscription

var keys = []string{"A1", "B1", "A2", "C1"}

func (s *slots) at(k string) **extensions.BrokerChannelSubscription { return &s[slot(k)] }

func slot(k string) int {
	for i, n := range keys {
		if n == k {
			return i
		}
	}
	panic(k)
}

func vctx(v string) context.Context {
	return context.WithValue(context.Background(), extensions.ContextKeyIsVersion, v)
}

func newWorld(x *explore.Exec) *world {
	b := fake.New()
	b.Cap, b.Bound = 2, true
	return &world{x: x, b: b, w: versioning.NewWrapper(b, versioning.WithDefaultVersion("D"))}
}

// subscribe runs in a thread: "A1" is version A on channel 1.
func (w *world) subscribe(key string, read bool) {
	explore.Log("subscribe", key)
	ctx, end := context.WithCancel(vctx(key[:1]))
	sub, err := w.w.Subscribe(ctx, key[1:])
	if err != nil {
		if errors.Is(err, extensions.ErrAlreadySubscribedChannel) {
			explore.Log("already", key)
		} else {
			w.x.Fail("subscribe %s: %v", key, err)
		}
		return
	}
	w.ends[slot(key)] = end
	explore.Log("subscribed", key)
	*w.subs.at(key) = &sub
	if read {
		go func() {
			for m := range sub.MessagesChannel() {
				explore.Log("got", key, string(m.Payload))
			}
			explore.Log("end", key)
		}()
	}
}

func (w *world) cancel(key string) {
	s := *w.subs.at(key)
	if s == nil {
		return
	}
	*w.subs.at(key) = nil
	explore.Log("cancel", key)
	s.Cancel(context.Background())
	explore.Log("cancelled", key)
}

// giveUp cancels with a context that has already ended: it may return at once, but
// the cancellation takes place.
func (w *world) giveUp(key string) {
	s := *w.subs.at(key)
	*w.subs.at(key) = nil
	explore.Log("cancel", key)
	ctx, end := context.WithCancel(context.Background())
	end()
	s.Cancel(ctx)
	explore.Log("given up", key)
}

func (w *world) deliver(key, id string) {
	w.b.Deliver(key[1:], id, extensions.BrokerMessage{
		Headers: map[string][]byte{versioning.DefaultVersionHeaderKey: []byte(key[:1])}, Payload: []byte(id)})
	explore.Log("delivered", key, id)
}

// run parses "s:A1" (subscribe), "S:A1" (subscribe, nobody reads), "c:A1" (cancel),
// "k:A1" (cancel with an ended context), "e:A1" (end the context that was given on
// subscription), "d:A1:m" (deliver), "D:A1:n" (deliver n messages).
func (w *world) run(ops string) {
	for _, op := range strings.Fields(ops) {
		p := strings.Split(op, ":")
		switch p[0] {
		case "s":
			w.subscribe(p[1], true)
		case "S":
			w.subscribe(p[1], false)
		case "c":
			w.cancel(p[1])
		case "k":
			w.giveUp(p[1])
		case "e":
			w.ends[slot(p[1])]()
		case "d":
			w.deliver(p[1], p[2])
		case "D":
			for i := 0; i < 70; i++ {
				w.deliver(p[1], fmt.Sprintf("%s%d", p[2], i))
			}
		}
	}
}

// scenario runs setup to completion, then the threads concurrently, then checks
// that everything still works: whoever must stay subscribed receives one more
// message, cancelled versions can be subscribed again, and closing all of it
// releases the broker.
func scenario(name, setup string, threads []string, stays string, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: name, Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 4000, Race: true, RaceBound: 2, Body: func(x *explore.Exec) {
		w := newWorld(x)
		x.Fixed = true
		x.Go("setup", func() { w.run(setup) })
		x.Stage(func() {
			x.Fixed = false
			for i, t := range threads {
				t := t
				x.Go(fmt.Sprintf("t%d", i), func() { w.run(t) })
			}
		})
		x.Stage(func() {
			x.Fixed = true
			for i := range threads {
				if x.Unfinished(fmt.Sprintf("t%d", i)) {
					x.Fail("operation never completes: %v", x.Blocked())
				}
			}
			// underlying subscriptions: exactly one per channel with a live version
			live := map[string]bool{}
			for i, k := range keys {
				if w.subs[i] != nil {
					live[k[1:]] = true
				}
			}
			for _, ch := range []string{"1", "2"} {
				want := 0
				if live[ch] {
					want = 1
				}
				if n := len(w.b.OpenSubs(ch)); n != want {
					x.Fail("%d underlying subscriptions on channel %s, want %d", n, ch, want)
				}
			}
			for _, k := range strings.Fields(stays) {
				if *w.subs.at(k) == nil {
					x.Fail("version %s is not subscribed", k)
				}
			}
			x.Go("after", func() {
				for _, k := range []string{"A1", "B1", "A2"} {
					if *w.subs.at(k) == nil {
						w.subscribe(k, true)
					}
				}
				w.run("d:A1:after d:B1:after d:A2:after")
			})
		})
		x.Stage(func() {
			evs := x.Events()
			for _, k := range []string{"A1", "B1", "A2"} {
				if strings.Contains(setup, "S:"+k) && *w.subs.at(k) != nil && explore.Index(evs, "cancelled", k) < 0 {
					continue // nobody reads it
				}
				if strings.Contains(name, "ended-stay") && k == "A1" {
					continue // its own context has ended
				}
				if explore.Count(evs, "got", k+" after") != 1 {
					x.Fail("version %s does not receive its messages any more: %v", k, x.Blocked())
				}
			}
			x.Fixed = !strings.HasPrefix(name, "ended")
			x.Go("close", func() {
				if strings.HasPrefix(name, "ended") {
					w.run("c:B1 c:A1")
				} else {
					w.run("c:A1 c:B1")
				}
				if n := len(w.b.OpenSubs("1")); n != 0 {
					x.Fail("the last version is cancelled and the channel is not released")
				}
				w.run("c:A2")
				if n := len(w.b.OpenSubs("2")); n != 0 {
					x.Fail("the last version is cancelled and the channel is not released")
				}
			})
		})
		x.Check(func() {
			x.NoCrashNoDeadlock()
			if n := len(w.b.OpenSubs("")); n != 0 {
				x.Fail("%d underlying subscriptions left open", n)
			}
			evs := x.Events()
			// messages for a version that stays are all received, in order and once
			for _, k := range strings.Fields(stays) {
				var sent, got []string
				for _, e := range evs {
					f := strings.Fields(e.A)
					if len(f) == 2 && f[0] == k {
						if e.K == "delivered" {
							sent = append(sent, f[1])
						} else if e.K == "got" {
							got = append(got, f[1])
						}
					}
				}
				if !strings.Contains(name, "join") && strings.Join(sent, ",") != strings.Join(got, ",") {
					x.Fail("version %s was sent %v and received %v", k, sent, got)
				}
			}
			// nobody receives a message twice or of another version
			seen := map[string]bool{}
			for _, e := range evs {
				if e.K != "got" {
					continue
				}
				f := strings.Fields(e.A)
				if f[1] != "after" && f[1][0] != f[0][0] {
					x.Fail("version %s received %s", f[0], f[1])
				}
				if seen[e.A] && f[1] != "after" {
					x.Fail("version %s received %s twice", f[0], f[1])
				}
				seen[e.A] = true
			}
		})
	}}
}

// twice: two concurrent subscriptions of one version: exactly one is refused.
func twice(setup string) *explore.Scenario {
	return &explore.Scenario{Name: "twice:" + setup, Quick: 4, Thorough: 7, NoSleep: true, Race: true, RaceBound: 2, Body: func(x *explore.Exec) {
		w := newWorld(x)
		x.Fixed = true
		x.Go("setup", func() { w.run(setup) })
		x.Stage(func() {
			x.Fixed = false
			x.Go("t0", func() { w.run("s:A1") })
			x.Go("t1", func() { w.run("s:A1") })
		})
		x.Stage(func() {
			evs := x.Events()
			if a, s := explore.Count(evs, "already", "A1"), explore.Count(evs, "subscribed", "A1"); a != 1 || s != 1 {
				x.Fail("%d subscriptions accepted and %d refused, want one each", s, a)
			}
			x.Fixed = true
			x.Go("t2", func() { w.run("s:A1 d:A1:Ax") })
		})
		x.Stage(func() { x.Go("t3", func() { w.run("c:A1 c:B1") }) })
		x.Check(func() {
			x.NoCrashNoDeadlock()
			evs := x.Events()
			if explore.Count(evs, "already", "A1") != 2 {
				x.Fail("subscribing a subscribed version is not refused")
			}
			if explore.Count(evs, "got", "A1 Ax") != 1 {
				x.Fail("the accepted subscription does not receive its message")
			}
			if n := len(w.b.OpenSubs("")); n != 0 {
				x.Fail("%d underlying subscriptions left open", n)
			}
		})
	}}
}

func main() {
	explore.Main(nil, func() []*explore.Scenario {
		return []*explore.Scenario{
			scenario("join", "", []string{"s:A1", "s:B1"}, "A1 B1", 5, 8),
			scenario("join-second", "s:A1", []string{"s:B1", "d:A1:A0 d:A1:A1"}, "A1", 4, 7),
			scenario("join-late", "s:A1", []string{"s:B1 d:B1:B0", "d:A1:A0"}, "A1 B1", 4, 6),
			scenario("leave-one", "s:A1 s:B1", []string{"c:A1", "d:B1:B0 d:A1:A0 d:B1:B1"}, "B1", 5, 7),
			scenario("leave-last", "s:A1", []string{"c:A1", "d:A1:A0 d:A1:A1"}, "", 5, 8),
			scenario("leave-both", "s:A1 s:B1", []string{"c:A1", "c:B1"}, "", 5, 8),
			scenario("leave-both-deliver", "s:A1 s:B1", []string{"c:A1", "c:B1", "d:A1:A0"}, "", 3, 5),
			scenario("replace", "s:A1", []string{"c:A1", "s:B1"}, "B1", 4, 8),
			scenario("replace-deliver", "s:A1", []string{"c:A1", "s:B1", "d:A1:A0"}, "B1", 3, 5),
			scenario("resubscribe", "s:A1", []string{"c:A1 s:A1", "d:A1:A0"}, "", 4, 7),
			scenario("unknown-leave", "s:A1", []string{"c:A1", "d:C1:C0 d:C1:C1"}, "", 5, 8),
			scenario("unknown-join", "s:A1", []string{"s:B1", "d:C1:C0 d:A1:A0"}, "A1", 4, 7),
			scenario("two-channels", "s:A1", []string{"c:A1", "s:A2 d:A2:A0"}, "A2", 4, 7),
			scenario("two-channels-deliver", "s:A1 s:A2", []string{"c:A1", "d:A2:A0 d:A1:A1"}, "A2", 4, 7),
			scenario("stuck-reader-leave", "S:A1 s:B1", []string{"D:A1:A", "c:A1"}, "B1", 1, 2),
			scenario("stuck-reader-last", "S:A1", []string{"D:A1:A", "c:A1"}, "", 1, 2),
			scenario("stuck-reader-other", "S:A1 s:B1", []string{"D:A1:A", "c:B1 s:B1 c:A1"}, "B1", 1, 2),
			scenario("stuck-reader-new", "S:A1", []string{"D:A1:A", "s:B1 c:B1 c:A1"}, "", 1, 2),
			scenario("stuck-reader-channel", "S:A1", []string{"D:A1:A", "s:A2 c:A2 c:A1"}, "", 1, 2),
			scenario("ended-leave", "s:A1", []string{"e:A1 c:A1", "d:A1:A0 d:A1:A1"}, "", 4, 7),
			scenario("ended-stay", "s:A1 s:B1", []string{"e:A1", "d:B1:B0 d:B1:B1"}, "B1", 4, 6),
			scenario("ended-other", "s:A1 s:B1", []string{"e:A1 c:A1", "d:B1:B0 d:B1:B1"}, "B1", 4, 7),
			scenario("ended-replace", "s:A1", []string{"e:A1 c:A1 s:A1", "s:A2 d:A2:A0"}, "A2", 2, 4),
			scenario("give-up", "s:A1", []string{"k:A1", "d:A1:A0 d:A1:A1"}, "", 4, 7),
			scenario("give-up-other", "s:A1 s:B1", []string{"k:A1", "d:B1:B0", "c:B1"}, "", 4, 6),
			twice(""), twice("s:B1"),
		}
	})
}
