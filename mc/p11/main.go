// P11: the JetStream broker controller, on an in-memory stand-in for the server.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
	bjs "github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	"github.com/nats-io/nats.go"
	"github.com/nats-io/nats.go/jetstream"
	"verifmc/explore"
	"verifmc/fake"
	"verifmc/fakejs"
	"verifmc/fakenats"
)

var errX = errors.New("server error")

var errNamed = errors.New("a name is required")

const delay = 7 * time.Second

func newController(x *explore.Exec, o ...bjs.ControllerOption) (*bjs.Controller, *fakejs.Server) {
	s, _ := fakejs.Install()
	if o == nil {
		o = append(o, bjs.WithNakDelay(delay))
	}
	c, err := bjs.NewController("nats://h:1", append(o, bjs.WithStream("st"), bjs.WithConsumer("co"))...)
	if err != nil {
		x.Fail("no controller: %v", err)
	}
	return c, s
}

// one: shapes of a received message and decisions.
func one(x *explore.Exec) {
	x.Fixed = true
	wait := []time.Duration{delay, 0, time.Nanosecond, time.Hour}[x.Choose(4)]
	c, s := newController(x, bjs.WithNakDelay(wait))
	hs := []nats.Header{nil, {}, {"k": {"v"}}, {"k": {}}, {"k": {"1", "2"}, "K": {""}}, {"lower-Case": {"é\n"}}, {"sp": {" v\t"}, "_x.y-z": {"x"}, "Nats-Msg-Id": {"1", "", "2"}}, {"k": {strings.Repeat("é", 5000)}, "empty": {"", "x"}}}
	ps := [][]byte{nil, {}, []byte("{}"), []byte("\x00\xff"), []byte(" null\n"), []byte(strings.Repeat("\xff", 70000))}
	h, p := hs[x.Choose(len(hs))], ps[x.Choose(len(ps))]
	d := x.Choose(5)
	pattern := []string{"a.b", "a.*", "a.>"}[x.Choose(3)]
	ackFails := x.Choose(2) == 1
	var sub extensions.BrokerChannelSubscription
	var m, other *fakejs.Msg
	x.Go("subscribe", func() {
		var err error
		if sub, err = c.Subscribe(context.Background(), pattern); err != nil {
			x.Fail("subscribe: %v", err)
		}
		if ackFails {
			s.AckErr = errX
		}
		m = s.Send("m", "a.b", h, p)
		other = s.Send("other", "b.a", h, p)
	})
	x.Stage(func() {
		want := map[string][]byte{}
		for k, v := range h {
			if len(v) > 0 {
				want[k] = []byte(v[0])
			}
		}
		select {
		case r := <-sub.MessagesChannel():
			if w := fake.Str(extensions.BrokerMessage{Headers: want, Payload: p}); fake.Str(r.BrokerMessage) != w {
				x.Fail("received %s, want %s", fake.Str(r.BrokerMessage), w)
			}
			if len(m.Outcome) > 0 {
				x.Fail("decided before the consumer: %v", m.Outcome)
			}
			out := ""
			switch d {
			case 1:
				r.Ack()
				out = "ack"
			case 2:
				r.Nak()
				out = fmt.Sprint("nak ", wait)
			case 3:
				r.Ack()
				r.Nak()
				out = "ack"
			case 4:
				r.Nak()
				r.Ack()
				out = fmt.Sprint("nak ", wait)
			}
			if strings.Join(other.Outcome, ",") != "ack" {
			x.Fail("decisions told to the stream about a message for nobody: %v", other.Outcome)
		}
		if strings.Join(m.Outcome, ",") != out {
				x.Fail("decisions told to the stream: %v, want %q", m.Outcome, out)
			}
		default:
			x.Fail("the message is not received")
		}
	})
	x.Check(func() {
		for _, cr := range x.Crashes() {
			x.Fail("crash: %s", cr)
		}
	})
	x.Cleanup(func() {
		sub.Cancel(context.Background())
		s.StopAll()
	})
}

func publish(x *explore.Exec) {
	x.Fixed = true
	c, s := newController(x)
	hs := []map[string][]byte{nil, {}, {"k": []byte("v")}, {"lower-Case": []byte("a:b\"é"), "K": []byte("1"), "k": []byte("2")}, {"n": nil}, {"sp": []byte(" v\t"), "_x.y-z": []byte("x"), "asyncapi-version": []byte("1")}, {"content-type": []byte("null"), "long": []byte(strings.Repeat("é", 5000))}}
	ps := [][]byte{nil, {}, []byte("{}"), []byte("\x00\xff\r\n"), []byte(" null\n"), []byte(strings.Repeat("\xff", 70000))}
	h, p := hs[x.Choose(len(hs))], ps[x.Choose(len(ps))]
	subj := []string{"a", "a.b"}[x.Choose(2)]
	fails := x.Choose(2) == 1
	if fails {
		s.PublishErr = errX
	}
	x.Go("publish", func() {
		m := extensions.BrokerMessage{Headers: h, Payload: p}
		before := fake.Str(m)
		err := c.Publish(context.Background(), subj, m)
		if fails && !errors.Is(err, errX) || !fails && err != nil {
			x.Fail("error %v", err)
		}
		if fake.Str(m) != before {
			x.Fail("the message of the caller is altered")
		}
		nh := nats.Header{}
		for a, b := range h {
			nh[a] = []string{string(b)}
		}
		if w := fakenats.Str(subj, nh, p); len(s.Published) != 1 || s.Published[0] != w {
			x.Fail("published %q, want %s", s.Published, w)
		}
	})
	x.Check(func() { x.NoCrashNoDeadlock() })
}

// setup: options, and what they ask to the server.
func setup(x *explore.Exec) {
	x.Fixed = true
	s, n := fakejs.Install()
	stream := x.Choose(4)   // none, existing, configured, configured without a name
	consumer := x.Choose(4) // none, existing, configured, configured without a name
	conn := x.Choose(6)     // default, options, given, options then given, given then options, options twice
	fail := x.Choose(5)     // none, connect, create stream, stream exists, stream exists and update fails
	failC := x.Choose(2) == 1
	x.Go("main", func() {
		var o []bjs.ControllerOption
		switch stream {
		case 1:
			o = append(o, bjs.WithStream("st"))
		case 2:
			o = append(o, bjs.WithStreamConfig(jetstream.StreamConfig{Name: "st", Subjects: []string{"a"}}))
		case 3:
			o = append(o, bjs.WithStreamConfig(jetstream.StreamConfig{Subjects: []string{"a"}}))
		}
		switch consumer {
		case 1:
			o = append(o, bjs.WithConsumer("co"))
		case 2:
			o = append(o, bjs.WithConsumerConfig(jetstream.ConsumerConfig{Name: "co"}))
		case 3:
			o = append(o, bjs.WithConsumerConfig(jetstream.ConsumerConfig{Durable: "co"}))
		}
		given := &nats.Conn{}
		options, use := bjs.WithConnectionOpts(nats.Name("me")), bjs.WithConnection(given)
		o = append(o, [][]bjs.ControllerOption{nil, {options}, {use}, {options, use}, {use, options}, {options, options}}[conn]...)
		if conn == 2 || conn == 3 || conn == 4 {
			n.Conns = append(n.Conns, &fakenats.Conn{NC: given})
		}
		var want error
		switch fail {
		case 1:
			n.ConnectErr = errX
			if conn != 2 {
				want = errX
			}
		case 2:
			s.StreamErr = errX
			if stream == 2 {
				want = errX
			}
		case 4:
			s.UpdateErr = errX
			if stream == 2 {
				want = errX
			}
			fallthrough
		case 3:
			s.StreamErr = jetstream.ErrStreamNameAlreadyInUse
		}
		if failC {
			s.RegisterErr = errX
			if consumer == 2 {
				want = errX
			}
		}
		if stream == 3 && (fail != 1 || conn == 2) || consumer == 3 && want == nil {
			want = errNamed
		}
		c, err := bjs.NewController("nats://h:1", o...)
		if want != nil {
			if err == nil || want == errX && !errors.Is(err, want) || c != nil {
				x.Fail("error %v, want %v", err, want)
			}
			return
		}
		if err != nil {
			x.Fail("no controller: %v", err)
			return
		}
		var calls []string
		if stream == 2 {
			calls = append(calls, "create stream st [a]")
			if fail >= 3 {
				calls = append(calls, "update stream st [a]")
			}
		}
		st, co := "", ""
		if stream > 0 {
			st = "st"
		}
		if consumer > 0 {
			co = "co"
		}
		if consumer == 2 {
			calls = append(calls, "consumer co of "+st)
		}
		sub, err := c.Subscribe(context.Background(), "a")
		if err != nil {
			x.Fail("subscribe: %v", err)
			return
		}
		calls = append(calls, fmt.Sprintf("get consumer %s of %s", co, st))
		if fmt.Sprint(s.Calls) != fmt.Sprint(calls) {
			x.Fail("calls %q, want %q", s.Calls, calls)
		}
		closed := func() (l []bool) {
			for _, c := range n.Conns {
				l = append(l, c.Closed)
			}
			return l
		}
		// the given connection is the first, and never closed; one that is replaced is closed at once
		before := [][]bool{{false}, {false}, {false}, {false, true}, {false, false}, {true, false}}[conn]
		after := [][]bool{{true}, {true}, {false}, {false, true}, {false, true}, {true, true}}[conn]
		if fmt.Sprint(closed()) != fmt.Sprint(before) {
			x.Fail("connections closed: %v, want %v", closed(), before)
		}
		if conn > 0 && conn != 2 && n.Conns[len(n.Conns)-1].Opts.Name != "me" {
			x.Fail("the connection has not the options")
		}
		used := []int{0, 0, 0, 0, 1, 1}[conn]
		if s.On != n.Conns[used].NC {
			x.Fail("another connection is used")
		}
		sub.Cancel(context.Background())
		c.Close()
		if fmt.Sprint(closed()) != fmt.Sprint(after) {
			x.Fail("connections closed at the end: %v, want %v", closed(), after)
		}
	})
	x.Check(func() { x.NoCrashNoDeadlock() })
}

// Histories of operations, one at a time.
var ops = []string{"sub a", "sub b", "cancel a", "cancel b", "send a", "send b", "send c", "fail a", "fail2 b", "sub w.*", "send w.1"}

type hist struct {
	x    *explore.Exec
	c    *bjs.Controller
	s    *fakejs.Server
	done []string
	subs map[string][]extensions.BrokerChannelSubscription
	n    int
	pre  int
	wait []*fakejs.Msg // sent while nobody is subscribed
	cons int
}

func (h *hist) bad(f string, a ...any) {
	h.x.Fail("after %q: %s", h.done, fmt.Sprintf(f, a...))
}

func (h *hist) step(left int) {
	h.x.Stage(func() {
		if left == 0 {
			return
		}
		k := h.pre
		if len(h.done) > 0 {
			k = h.x.Choose(len(ops))
		}
		op, ch, _ := strings.Cut(ops[k], " ")
		h.done = append(h.done, ops[k])
		var sub extensions.BrokerChannelSubscription
		var err error
		var msg *fakejs.Msg
		ended := false
		active := 0
		for _, l := range h.subs {
			active += len(l)
		}
		h.x.Go(ops[k], func() {
			switch op {
			case "sub":
				sub, err = h.c.Subscribe(context.Background(), ch)
			case "fail":
				h.s.ConsumerErr = errX
				sub, err = h.c.Subscribe(context.Background(), ch)
				h.s.ConsumerErr = nil
			case "fail2":
				h.s.ConsumeErr = errX
				sub, err = h.c.Subscribe(context.Background(), ch)
				h.s.ConsumeErr = nil
			case "cancel":
				if l := h.subs[ch]; len(l) > 0 {
					l[0].Cancel(context.Background())
					if _, ok := <-l[0].MessagesChannel(); ok {
						h.bad("a message is left in the cancelled subscription")
					}
					h.subs[ch] = l[1:]
				}
			case "send":
				h.n++
				msg = h.s.Send(fmt.Sprint(h.n), ch, nil, []byte(fmt.Sprint(h.n)))
			}
			ended = true
		})
		h.x.Stage(func() {
			if !ended {
				h.bad("the call does not return: %v", h.x.Blocked())
				return
			}
			var sent []*fakejs.Msg
			switch op {
			case "sub", "fail", "fail2":
				if op != "sub" && active == 0 {
					if !errors.Is(err, errX) {
						h.bad("the failure of the server gives %v", err)
					}
					break
				}
				if err != nil {
					h.bad("subscribe: %v", err)
					return
				}
				h.subs[ch] = append(h.subs[ch], sub)
				if active == 0 {
					sent = h.wait
					h.wait = nil
				}
			case "send":
				if active == 0 {
					h.wait = append(h.wait, msg)
				} else {
					sent = []*fakejs.Msg{msg}
				}
			}
			for _, m := range sent {
				target := m.Subject()
				if target == "w.1" {
					target = "w.*"
				}
				l := h.subs[target]
				if len(l) == 0 {
					if strings.Join(m.Outcome, ",") != "ack" {
						h.bad("message %s, that nobody subscribed to: %v", m.ID, m.Outcome)
					}
					continue
				}
				got := 0
				for _, sub := range l {
					select {
					case r := <-sub.MessagesChannel():
						if string(r.Payload) != m.ID {
							h.bad("received %s, want %s", r.Payload, m.ID)
						}
						r.Ack()
						got++
					default:
					}
				}
				if got != 1 || strings.Join(m.Outcome, ",") != "ack" {
					h.bad("message %s is received %d times, decisions %v", m.ID, got, m.Outcome)
				}
			}
			now := 0
			for ch, l := range h.subs {
				now += len(l)
				for _, sub := range l {
					if len(sub.MessagesChannel()) > 0 {
						h.bad("%s receives an unexpected message", ch)
					}
				}
			}
			if a := h.s.Active(); a > 1 || (a == 1) != (now > 0) {
				h.bad("%d consumptions running, %d subscriptions", a, now)
			}
			for _, m := range h.wait {
				if len(m.Outcome) > 0 {
					h.bad("message %s is decided while nothing is consumed", m.ID)
				}
			}
			h.step(left - 1)
		})
	})
}

func histories(first, depth, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("history-%d-%s", depth, strings.ReplaceAll(ops[first], " ", "-")), Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 20000,
		Body: func(x *explore.Exec) {
			x.Fixed = true
			h := &hist{x: x, pre: first, subs: map[string][]extensions.BrokerChannelSubscription{}}
			h.c, h.s = newController(x)
			h.step(depth)
			x.Check(func() {
				for _, cr := range x.Crashes() {
					h.bad("crash: %s", cr)
				}
			})
			x.Cleanup(func() {
				for _, l := range h.subs {
					for _, sub := range l {
						sub.Cancel(context.Background())
					}
				}
				h.s.StopAll()
			})
		}}
}

// full: nobody reads a subscription, whose queue is full when it is cancelled.
func full(x *explore.Exec) {
	x.Fixed = true
	c, s := newController(x)
	n := brokers.BrokerMessagesQueueSize + x.Choose(4)
	var a, b extensions.BrokerChannelSubscription
	returned := false
	x.Go("subscribe", func() {
		var e1, e2 error
		a, e1 = c.Subscribe(context.Background(), "a")
		b, e2 = c.Subscribe(context.Background(), "b")
		if e1 != nil || e2 != nil {
			x.Fail("subscribe: %v %v", e1, e2)
		}
		for i := 0; i < n; i++ {
			s.Send(fmt.Sprint(i), "a", nil, []byte(fmt.Sprint(i)))
		}
		s.Send("b", "b", nil, []byte("b"))
	})
	x.Stage(func() {
		x.Go("cancel", func() { a.Cancel(context.Background()); returned = true })
	})
	x.Stage(func() {
		if !returned {
			x.Fail("with %d messages, the cancellation does not return: %v", n, x.Blocked())
			return
		}
		i := 0
		for m := range a.MessagesChannel() {
			if string(m.Payload) != fmt.Sprint(i) {
				x.Fail("received %s, want %d", m.Payload, i)
			}
			i++
		}
		if i < brokers.BrokerMessagesQueueSize {
			x.Fail("%d messages are left in the queue", i)
		}
		select {
		case m := <-b.MessagesChannel():
			if string(m.Payload) != "b" {
				x.Fail("b receives %s", m.Payload)
			}
		default:
			x.Fail("the message of the other subscription is not delivered")
		}
	})
	x.Check(func() {
		for _, cr := range x.Crashes() {
			x.Fail("crash: %s", cr)
		}
	})
	x.Cleanup(func() {
		b.Cancel(context.Background())
		s.StopAll()
	})
}

// flow: subscriptions 'before' exist; then the operations of 'during' happen
// concurrently ("sub x", "cancel x"), while messages arrive on the subjects of 'msgs'.
func flow(name, before, during, msgs string, decide bool, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: "flow-" + name, Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 6000, Race: true, RaceBound: 2, Body: func(x *explore.Exec) {
		c, s := newController(x)
		type st struct {
			ch        string
			sub       extensions.BrokerChannelSubscription
			got       []string
			cancelled bool
		}
		var all []*st
		open := map[string]*st{}
		read := func(t *st) {
			for m := range t.sub.MessagesChannel() {
				explore.Log("got", t.ch, string(m.Payload))
				if decide {
					m.Ack()
				}
			}
		}
		x.Fixed = true
		x.Go("before", func() {
			for _, ch := range strings.Fields(before) {
				sub, err := c.Subscribe(context.Background(), ch)
				if err != nil {
					x.Fail("subscribe: %v", err)
				}
				t := &st{ch: ch, sub: sub}
				all = append(all, t)
				open[ch] = t
			}
		})
		var opNames []string
		var finished []bool
		kept := map[string]bool{}
		x.Stage(func() {
			x.Fixed = false
			for ch, t := range open {
				kept[ch] = true
				t := t
				x.Daemon("read "+ch, func() { read(t) })
			}
			opNames = strings.Split(during, ",")
			finished = make([]bool, len(opNames))
			made := make([]*st, len(opNames))
			for i, op := range opNames {
				i, op := i, op
				k, ch, _ := strings.Cut(op, " ")
				if k == "sub" {
					made[i] = &st{ch: ch, cancelled: true}
					all = append(all, made[i])
				}
				if k == "cancel" {
					kept[ch] = false
				}
				x.Go(op, func() {
					switch k {
					case "sub":
						sub, err := c.Subscribe(context.Background(), ch)
						if err != nil {
							x.Fail("%s: %v", op, err)
							return
						}
						t := made[i]
						t.sub, t.cancelled = sub, false
						go read(t)
					case "cancel":
						t := open[ch]
						t.sub.Cancel(context.Background())
						t.cancelled = true
					}
					finished[i] = true
				})
			}
			if msgs != "" {
				x.Go("send", func() {
					for i, ch := range strings.Fields(msgs) {
						s.Send(fmt.Sprint(i), ch, nil, []byte(fmt.Sprint(i)))
					}
				})
			}
		})
		x.Stage(func() {
			for i, f := range finished {
				if !f {
					x.Fail("%q does not return: %v", opNames[i], x.Blocked())
				}
			}
			left := 0
			for _, t := range all {
				if !t.cancelled {
					left++
				}
			}
			if a := s.Active(); a > 1 || (a == 1) != (left > 0) {
				x.Fail("%d consumptions running, %d subscriptions", a, left)
			}
			evs := x.Events()
			last := map[string]int{}
			for _, g := range explore.Args(evs, "got") {
				ch, id, _ := strings.Cut(g, " ")
				i := 0
				fmt.Sscan(id, &i)
				if s.All[i].Subject() != ch {
					x.Fail("subscription to %s receives message %d of %s", ch, i, s.All[i].Subject())
				}
				if kept[ch] && strings.Count(during, ch) == 0 {
					if l, ok := last[ch]; ok && i <= l {
						x.Fail("order of the messages of %s: %v", ch, explore.Args(evs, "got"))
					}
					last[ch] = i
				}
			}
			for i, m := range s.All {
				n := explore.Count(evs, "got", fmt.Sprintf("%s %d", m.Subject(), i))
				if n > 1 || len(m.Outcome) > 1 {
					x.Fail("message %d: received %d times, decisions %v", i, n, m.Outcome)
				}
				pending := false
				for _, p := range s.Pending {
					pending = pending || p == m
				}
				switch {
				case kept[m.Subject()]:
					if n != 1 || decide && fmt.Sprint(m.Outcome) != "[ack]" {
						x.Fail("message %d of %s, still subscribed: received %d times, decisions %v", i, m.Subject(), n, m.Outcome)
					}
				case !strings.Contains(before+during, m.Subject()):
					if n != 0 || !pending && fmt.Sprint(m.Outcome) != "[ack]" {
						x.Fail("message %d, that nobody subscribed to: received %d times, decisions %v", i, n, m.Outcome)
					}
				}
			}
			x.Fixed = true
			for _, t := range all {
				t := t
				if !t.cancelled {
					x.Go("end", func() { t.sub.Cancel(context.Background()) })
				}
			}
		})
		x.Check(func() {
			for _, cr := range x.Crashes() {
				x.Fail("crash: %s", cr)
			}
			if s.Active() > 0 {
				x.Fail("messages are still consumed after the last cancellation")
			}
			if b := x.Blocked(); len(b) > 0 {
				x.Fail("left running: %v", b)
			}
		})
		x.Cleanup(func() { s.StopAll() })
	}}
}

func main() {
	explore.Main(nil, func() []*explore.Scenario {
		r := []*explore.Scenario{
			{Name: "one", NoSleep: true, Body: one},
			{Name: "publish", NoSleep: true, Body: publish},
			{Name: "setup", NoSleep: true, Body: setup},
			{Name: "full", NoSleep: true, Body: full},
			flow("cancel-msg", "a", "cancel a", "a", true, 6, 10),
			flow("cancel-msgs", "a", "cancel a", "a c a", true, 4, 7),
			flow("cancel-other", "a b", "cancel a", "b a b", true, 4, 6),
			flow("cancel-both", "a b", "cancel a,cancel b", "a b", true, 3, 5),
			flow("cancel-cancel-sub", "a b", "cancel a,cancel b,sub a", "a", true, 2, 4),
			flow("sub-other", "a", "sub b", "a b c a", true, 4, 6),
			flow("first-sub", "", "sub a,sub b", "a b", false, 3, 6),
			flow("first-same", "", "sub a,sub a", "a a", false, 3, 6),
			flow("swap", "a", "cancel a,sub b", "a b", true, 3, 5),
			flow("again", "a", "cancel a,sub a", "a", true, 3, 6),
		}
		for i := range ops {
			r = append(r, histories(i, 5, 0, -1), histories(i, 6, -1, 0))
		}
		return r
	})
}
