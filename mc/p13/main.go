// P13: the NATS broker controller, on an in-memory stand-in for the server.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
	bnats "github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/nats"
	"github.com/nats-io/nats.go"
	"verifmc/explore"
	"verifmc/fake"
	"verifmc/fakenats"
)

var errX = errors.New("server error")

var headerSets = []map[string][]byte{nil, {}, {"k": []byte("v")}, {"k": []byte("")}, {"lower-Case": []byte("a:b, c\"é"), "K": []byte("1"), "k": []byte("2")}, {"n": nil}, {"sp": []byte("v  w\tx"), "_x.y-z": []byte("x"), "asyncapi-version": []byte("1")}, {"content-type": []byte("null"), "long": []byte(strings.Repeat("é", 5000))}}
var payloads = [][]byte{nil, {}, []byte("{}"), []byte("\x00\xff\r\n"), []byte(" null\n"), []byte(strings.Repeat("\xff", 70000))}

func publish(x *explore.Exec) {
	x.Fixed = true
	s := fakenats.Install()
	h := headerSets[x.Choose(len(headerSets))]
	p := payloads[x.Choose(len(payloads))]
	subj := []string{"a", "a.b"}[x.Choose(2)]
	k := x.Choose(3) // ok, publication fails, flush fails
	n := 1 + x.Choose(2)
	x.Go("publish", func() {
		c, err := bnats.NewController("nats://h:1")
		if err != nil {
			x.Fail("no controller: %v", err)
			return
		}
		if k == 1 {
			s.PublishErr = errX
		}
		if k == 2 {
			s.FlushErr = errX
		}
		for i := 0; i < n; i++ {
			m := extensions.BrokerMessage{Headers: h, Payload: p}
			before := fake.Str(m)
			err = c.Publish(context.Background(), subj, m)
			if fake.Str(m) != before {
				x.Fail("the message of the caller is altered")
			}
			if (k > 0) != (err != nil) || k > 0 && !errors.Is(err, errX) {
				x.Fail("failure %d: error %v", k, err)
			}
		}
	})
	x.Check(func() {
		x.NoCrashNoDeadlock()
		nh := nats.Header{}
		for a, b := range h {
			nh[a] = []string{string(b)}
		}
		want := "0 " + fakenats.Str(subj, nh, p)
		evs := x.Events()
		got := explore.Args(evs, "publish")
		if len(got) != n {
			x.Fail("%d publications: %q", len(got), got)
		}
		for _, g := range got {
			if strings.Replace(g, `"[`, `"[`, 1) != want {
				x.Fail("published %s, want %s", g, want)
			}
		}
		if k != 1 && explore.Count(evs, "flush", "") != n {
			x.Fail("%d flushes", explore.Count(evs, "flush", ""))
		}
		if k == 0 && evs[len(evs)-1].K != "flush" {
			x.Fail("not flushed at the end: %v", evs)
		}
	})
}

func receive(x *explore.Exec) {
	x.Fixed = true
	s := fakenats.Install()
	hs := []nats.Header{nil, {}, {"k": {"v"}}, {"k": {}}, {"k": {"1", "2"}, "K": {""}}, {"lower-Case": {"é\n"}}, {"sp": {"v  w\tx"}, "_x.y-z": {"x"}, "Nats-Msg-Id": {"1", "", "2"}}, {"k": {strings.Repeat("é", 5000)}, "empty": {"", "x"}}}
	h := hs[x.Choose(len(hs))]
	p := payloads[x.Choose(len(payloads))]
	twice := x.Choose(2) == 1 // two subscriptions, on other subjects
	decide := x.Choose(3)
	var sub, sub2 extensions.BrokerChannelSubscription
	x.Go("subscribe", func() {
		c, err := bnats.NewController("nats://h:1")
		if err == nil {
			sub, err = c.Subscribe(context.Background(), "a.b")
		}
		if err == nil && twice {
			sub2, err = c.Subscribe(context.Background(), "c")
		}
		if err != nil {
			x.Fail("subscribe: %v", err)
			return
		}
		s.Deliver("a.b", h, p)
		if twice {
			s.Deliver("c", nil, []byte("c"))
		}
		s.Deliver("a.b", nil, []byte("2"))
	})
	x.Stage(func() {
		want := map[string][]byte{}
		for k, v := range h {
			if len(v) > 0 {
				want[k] = []byte(v[0])
			}
		}
		get := func(sub extensions.BrokerChannelSubscription, w string) {
			select {
			case m, ok := <-sub.MessagesChannel():
				if !ok || fake.Str(m.BrokerMessage) != w {
					x.Fail("received %s, want %s", fake.Str(m.BrokerMessage), w)
				}
				switch decide {
				case 1:
					m.Ack()
				case 2:
					m.Nak()
				}
			default:
				x.Fail("%s is not received", w)
			}
		}
		get(sub, fake.Str(extensions.BrokerMessage{Headers: want, Payload: p}))
		get(sub, `"2"[]`)
		if twice {
			get(sub2, `"c"[]`)
		}
		if len(sub.MessagesChannel()) > 0 || twice && len(sub2.MessagesChannel()) > 0 {
			x.Fail("received too many messages")
		}
	})
	x.Check(func() {
		for _, c := range x.Crashes() {
			x.Fail("crash: %s", c)
		}
	})
	x.Cleanup(func() {
		sub.Cancel(context.Background())
		if twice {
			sub2.Cancel(context.Background())
		}
		s.Stop()
	})
}

func options(x *explore.Exec) {
	x.Fixed = true
	s := fakenats.Install()
	q := []string{"-", "", "grp"}[x.Choose(3)]
	name := []string{"-", "me"}[x.Choose(2)]
	fail := x.Choose(4) // none, connect, subscribe, drain
	order := x.Choose(2)
	x.Go("main", func() {
		var o []bnats.ControllerOption
		if q != "-" {
			o = append(o, bnats.WithQueueGroup(q))
		}
		if name != "-" {
			o = append(o, bnats.WithConnectionOpts(nats.Name(name)))
		}
		if order == 1 && len(o) == 2 {
			o[0], o[1] = o[1], o[0]
		}
		if fail == 1 {
			s.ConnectErr = errX
		}
		c, err := bnats.NewController("nats://h:1", o...)
		if fail == 1 {
			if !errors.Is(err, errX) || c != nil {
				x.Fail("connection failure: %v, %v", c, err)
			}
			return
		}
		if err != nil {
			x.Fail("no controller: %v", err)
			return
		}
		if len(s.Conns) != 1 || strings.Join(s.Conns[0].Opts.Servers, ",") != "nats://h:1" || name != "-" && s.Conns[0].Opts.Name != name {
			x.Fail("connections: %d", len(s.Conns))
		}
		if fail == 2 {
			s.SubscribeErr = errX
		}
		sub, err := c.Subscribe(context.Background(), "a")
		if fail == 2 {
			if !errors.Is(err, errX) {
				x.Fail("subscription failure: %v", err)
			}
			s.SubscribeErr = nil
			sub, err = c.Subscribe(context.Background(), "a")
		}
		if err != nil {
			x.Fail("subscribe: %v", err)
			return
		}
		wq := q
		if q == "-" {
			wq = brokers.DefaultQueueGroupID
		}
		if len(s.Subs) != 1 || s.Subs[0].Subject != "a" || s.Subs[0].Queue != wq {
			x.Fail("subscription on %q with queue group %q, want %q", s.Subs[0].Subject, s.Subs[0].Queue, wq)
		}
		if fail == 3 {
			s.DrainErr = errX
		}
		sub.Cancel(context.Background())
		if _, ok := <-sub.MessagesChannel(); ok {
			x.Fail("a message appears")
		}
		s.DrainErr = nil
		c.Close()
		if !s.Conns[0].Closed {
			x.Fail("the connection is left open")
		}
		s.Stop()
	})
	x.Check(func() { x.NoCrashNoDeadlock() })
}

// flow: messages arrive while the subscription is cancelled. 'reads' is how many messages
// the consumer reads before it stops (-1: all).
func flow(n, reads, subs int, drainFails bool, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("flow-%d-reads%d-subs%d-%v", n, reads, subs, drainFails), Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 6000,
		Race: n < 10, RaceBound: 2, Body: func(x *explore.Exec) {
			if n > 10 {
				x.Fixed = true
			}
			s := fakenats.Install()
			if drainFails {
				s.DrainErr = errX
			}
			c, err := bnats.NewController("nats://h:1")
			if err != nil {
				x.Fail("no controller: %v", err)
				return
			}
			sub := make([]extensions.BrokerChannelSubscription, subs)
			got := make([][]string, subs)
			returned := make([]bool, subs)
			x.Fixed = true
			x.Go("subscribe", func() {
				for i := range sub {
					sub[i], err = c.Subscribe(context.Background(), fmt.Sprint("s", i))
					if err != nil {
						x.Fail("subscribe: %v", err)
					}
				}
			})
			x.Stage(func() {
				x.Fixed = n > 10
				for i := range sub {
					i := i
					x.Go(fmt.Sprint("deliver", i), func() {
						for j := 0; j < n; j++ {
							s.Deliver(fmt.Sprint("s", i), nil, []byte(fmt.Sprint(j)))
						}
					})
					cancel := func() {
						x.Go(fmt.Sprint("cancel", i), func() {
							explore.Log("cancelling", i)
							sub[i].Cancel(context.Background())
							returned[i] = true
							d := 0
							for _, a := range explore.Args(x.Events(), "drain") {
								if a == fmt.Sprint("s", i) {
									d++
								}
							}
							if d != 1 {
								x.Fail("subscription %d drained %d times when the cancellation returns", i, d)
							}
						})
					}
					if n > 10 {
						x.Stage(cancel) // when the queue is full
					} else {
						cancel()
					}
					x.Go(fmt.Sprint("read", i), func() {
						for j := 0; j != reads; j++ {
							m, ok := <-sub[i].MessagesChannel()
							if !ok {
								return
							}
							got[i] = append(got[i], string(m.Payload))
						}
					})
				}
				x.Stage(func() { s.Stop() })
			})
			x.Check(func() {
				for _, cr := range x.Crashes() {
					x.Fail("crash: %s", cr)
				}
				for i := range sub {
					if !returned[i] {
						x.Fail("the cancellation of subscription %d does not return: %v", i, x.Blocked())
						return
					}
					for m := range sub[i].MessagesChannel() {
						got[i] = append(got[i], string(m.Payload))
					}
					last := -1
					for _, g := range got[i] {
						j := 0
						fmt.Sscan(g, &j)
						if j <= last {
							x.Fail("subscription %d receives %q", i, got[i])
						}
						last = j
					}
					// what was handed over before the cancellation is not lost
					evs := x.Events()
					k := 0
					for _, e := range evs[:explore.Index(evs, "cancelling", fmt.Sprint(i))] {
						if e.K == "handled" && strings.HasPrefix(e.A, fmt.Sprint("s", i, " ")) {
							if k >= len(got[i]) || e.A != fmt.Sprint("s", i, " ", got[i][k]) {
								x.Fail("subscription %d receives %q, %q was handed over before", i, got[i], e.A)
								break
							}
							k++
						}
					}
				}
				if explore.Count(x.Events(), "drain", "")+explore.Count(x.Events(), "unsubscribe", "") != subs {
					x.Fail("drained: %q", explore.Args(x.Events(), "drain"))
				}
				if b := x.Blocked(); len(b) > 0 {
					x.Fail("left running: %v", b)
				}
			})
		}}
}

func main() {
	explore.Main(nil, func() []*explore.Scenario {
		q := brokers.BrokerMessagesQueueSize
		return []*explore.Scenario{
			{Name: "publish", NoSleep: true, Body: publish},
			{Name: "receive", NoSleep: true, Body: receive},
			{Name: "options", NoSleep: true, Body: options},
			flow(1, -1, 1, false, 7, 14), flow(2, -1, 1, false, 5, 9), flow(3, 1, 1, false, 4, 7), flow(2, 0, 1, true, 5, 9),
			flow(1, -1, 2, false, 3, 6), flow(2, 1, 2, false, 3, 5),
			flow(q+5, 0, 1, false, 0, 0), flow(q+5, 3, 1, false, 0, 0), flow(2*q, -1, 1, false, 0, 0), flow(q+1, 0, 2, true, 0, 0),
		}
	})
}
