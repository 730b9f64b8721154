// P14: reception with the Kafka broker controller, on an in-memory stand-in for the brokers.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
	bkafka "github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	"github.com/segmentio/kafka-go"
	"verifmc/explore"
	"verifmc/fake"
	"verifmc/fakekafka"
)

var errX = errors.New("broker error")

var headerSets = []map[string][]byte{{}, {"k": []byte("v")}, {"k": []byte("")}, {"n": nil}, {"lower-Case": []byte("a:b\xff"), "K": []byte("1"), "k": []byte("2")}, {" k ": []byte(" v\t"), "": []byte("x"), "asyncapi-version": []byte("1")}, {"content-type": []byte("null"), "long": []byte(strings.Repeat("é", 5000))}}
var payloads = [][]byte{[]byte("m"), {}, []byte("\x00\xff\r\n"), []byte("{}"), []byte(" null\n"), []byte(strings.Repeat("\xff", 70000))}

// one: two messages, every shape and every decision.
func one(after, n int) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("one-%d-%d", after, n), NoSleep: true, Body: func(x *explore.Exec) { two(x, after, n) }}
}

// two: after: decisions before or after the cancellation, or the reader fails in between; n: topics
func two(x *explore.Exec, after, n int) {
	x.Fixed = true
	s := fakekafka.Install()
	auto := x.Choose(2) == 1
	shape := x.Choose(12)
	h, p := headerSets[shape%len(headerSets)], payloads[(shape+shape/6)%len(payloads)]
	decisions := []string{"", "a", "n", "an", "na", "aa", "nn"}
	d := []string{decisions[x.Choose(len(decisions))], decisions[x.Choose(len(decisions))]}
	swap := x.Choose(2) == 1
	if x.Choose(2) == 1 {
		s.CommitErr = errX
	}
	topics := []string{"t", "u"}[:n]
	subs := make([]extensions.BrokerChannelSubscription, 2)
	x.Go("subscribe", func() {
		c, err := bkafka.NewController([]string{"h:1"}, bkafka.WithAutoCommit(auto), bkafka.WithGroupID("g"))
		if err != nil {
			x.Fail("no controller: %v", err)
			return
		}
		for i, t := range topics {
			if subs[i], err = c.Subscribe(context.Background(), t); err != nil {
				x.Fail("no subscription: %v", err)
				return
			}
		}
		m := kafka.Message{Value: p}
		for k, v := range h {
			m.Headers = append(m.Headers, kafka.Header{Key: k, Value: v})
		}
		for _, t := range topics {
			s.Deliver(t, m, nil)
			s.Deliver(t, kafka.Message{Value: []byte("second of " + t)}, nil)
			if after == 2 {
				s.Deliver(t, kafka.Message{}, errX)
			}
		}
	})
	x.Stage(func() {
		x.Go("consume", func() {
			for i, t := range topics {
				var got []extensions.AcknowledgeableBrokerMessage
				for j := 0; j < 2; j++ {
					select {
					case m := <-subs[i].MessagesChannel():
						got = append(got, m)
					default:
						x.Fail("message %d of %s is not received", j, t)
						return
					}
				}
				if w := fake.Str(extensions.BrokerMessage{Headers: h, Payload: p}); fake.Str(got[0].BrokerMessage) != w {
					x.Fail("received %s, want %s", fake.Str(got[0].BrokerMessage), w)
				}
				if w := fmt.Sprintf("%q[]", "second of "+t); fake.Str(got[1].BrokerMessage) != w {
					x.Fail("received %s, want %s", fake.Str(got[1].BrokerMessage), w)
				}
				if after == 1 {
					subs[i].Cancel(context.Background())
				}
				var want []string
				if explore.Count(x.Events(), "commit", "") > 0 && i == 0 {
					x.Fail("committed without a decision")
				}
				for k := range got {
					if swap {
						k = 1 - k
					}
					name := string(p)
					if k == 1 {
						name = "second of " + t
					}
					before := len(commits(x, t))
					for _, c := range d[k] {
						if c == 'a' {
							got[k].Ack()
						} else {
							got[k].Nak()
						}
						if !auto && len(commits(x, t)) != before+1 {
							x.Fail("decision %q: commits %q", d[k], commits(x, t)[before:])
						}
					}
					if d[k] != "" {
						want = append(want, name)
					}
				}
				if auto {
					want = nil
				}
				if g := commits(x, t); fmt.Sprintf("%q", g) != fmt.Sprintf("%q", want) {
					x.Fail("committed on %s: %q, want %q", t, g, want)
				}
				n := 0
				for _, a := range explore.Args(x.Events(), "committed by reading") {
					if strings.HasPrefix(a, t+" ") {
						n++
					}
				}
				if auto && n != 2 || !auto && n != 0 {
					x.Fail("%d messages committed by reading them (automatic: %v)", n, auto)
				}
				if after != 1 {
					subs[i].Cancel(context.Background())
				}
			}
		})
	})
	x.Check(func() {
		x.NoCrashNoDeadlock()
		for _, r := range s.Readers {
			if r.Closes != 1 {
				x.Fail("the reader of %s is closed %d times", r.C.Topic, r.Closes)
			}
		}
	})
}

func commits(x *explore.Exec, topic string) (l []string) {
	for _, a := range explore.Args(x.Events(), "commit") {
		if strings.HasPrefix(a, topic+" ") {
			l = append(l, strings.TrimPrefix(a, topic+" "))
		}
	}
	return l
}

type cfg struct {
	name  string
	auto  bool
	n     int    // messages
	fail  int    // the reader fails after that many messages (-1: never)
	reads int    // messages the consumer takes (-1: all)
	ack   string // decisions: a, n, or - per message, repeated
	end   string // cancel, context, both, twice
	drain bool
	close bool // closing the reader fails
	late  bool // the consumer decides after having read everything
}

func flow(c cfg, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: c.name, Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 8000, Race: c.n < 10, RaceBound: 2, Body: func(x *explore.Exec) {
		s := fakekafka.Install()
		s.Drain = c.drain
		if c.close {
			s.CloseErr = errX
		}
		x.Fixed = true
		var sub extensions.BrokerChannelSubscription
		ctx, stop := context.WithCancel(context.Background())
		x.Go("subscribe", func() {
			k, err := bkafka.NewController([]string{"h:1"}, bkafka.WithAutoCommit(c.auto), bkafka.WithGroupID("g"))
			if err == nil {
				sub, err = k.Subscribe(ctx, "t")
			}
			if err != nil {
				x.Fail("no subscription: %v", err)
			}
		})
		var got, decided []string
		cancelled := 0
		finished := false
		x.Stage(func() {
			x.Fixed = c.n > 10
			x.Go("deliver", func() {
				for i := 0; i < c.n; i++ {
					if i == c.fail {
						s.Deliver("t", kafka.Message{}, errX)
					}
					s.Deliver("t", kafka.Message{Value: []byte(fmt.Sprint(i))}, nil)
				}
				if c.fail == c.n {
					s.Deliver("t", kafka.Message{}, errX)
				}
			})
			ends := strings.Split(c.end, ",")
			end := func() {
				for _, e := range ends {
					e := e
					x.Go(e, func() {
						explore.Log("ending", e)
						if e == "context" {
							stop()
							return
						}
						sub.Cancel(context.Background())
						cancelled++
						if n := explore.Count(x.Events(), "close", ""); n != 1 {
							x.Fail("the reader is closed %d times when the cancellation returns", n)
						}
					})
				}
			}
			if c.n > 10 {
				x.Stage(end) // when the queue is full
			} else {
				end()
			}
			x.Go("consume", func() {
				var l []extensions.AcknowledgeableBrokerMessage
				decide := func(i int) {
					if k := c.ack[i%len(c.ack)]; k != '-' {
						m := string(l[i].Payload)
						explore.Log("decide", m)
						if k == 'a' {
							l[i].Ack()
						} else {
							l[i].Nak()
						}
						decided = append(decided, m)
					}
				}
				for c.reads < 0 || len(l) < c.reads {
					m, ok := <-sub.MessagesChannel()
					if !ok {
						break
					}
					l = append(l, m)
					got = append(got, string(m.Payload))
					if !c.late {
						decide(len(l) - 1)
					}
				}
				if c.late {
					for i := range l {
						decide(i)
					}
				}
				finished = true
			})
		})
		withCancel := strings.Contains(c.end, "cancel")
		x.Check(func() {
			for _, cr := range x.Crashes() {
				x.Fail("crash: %s", cr)
			}
			if withCancel {
				if cancelled != strings.Count(c.end, "cancel") {
					x.Fail("the cancellation does not return: %v", x.Blocked())
					return
				}
				for m := range sub.MessagesChannel() {
					got = append(got, string(m.Payload))
				}
				if b := x.Blocked(); len(b) > 0 {
					x.Fail("left running: %v", b)
				}
				if !finished {
					x.Fail("the consumer does not end")
				}
			}
			evs := x.Events()
			last := -1
			for _, g := range got {
				j := -1
				fmt.Sscan(g, &j)
				if j <= last {
					x.Fail("received %q", got)
				}
				last = j
			}
			// a message is handed over when the next one is being read
			idx := explore.Index(evs, "ending", "")
			var pending string
			var handed []string
			failed := false
			for i, e := range evs {
				switch {
				case e.K == "reading":
					if failed {
						x.Fail("reads again after the failure of the reader")
					}
					if pending != "" && (i < idx || idx < 0) {
						handed = append(handed, pending)
					}
					pending = ""
				case e.K == "read":
					pending = strings.TrimPrefix(e.A, "t ")
				case e.K == "failed":
					failed = true
				}
			}
			for i, h := range handed {
				if i >= len(got) || got[i] != h {
					x.Fail("received %q, %q were handed over before the end", got, handed)
					break
				}
			}
			if idx < 0 && c.fail < 0 && (c.reads < 0 && len(got) != c.n) {
				x.Fail("received %q of %d", got, c.n)
			}
			cm := commits(x, "t")
			if c.auto && len(cm) > 0 {
				x.Fail("commits in automatic mode: %q", cm)
			}
			if !c.auto {
				if fmt.Sprintf("%q", cm) != fmt.Sprintf("%q", decided) {
					x.Fail("committed %q, decided %q", cm, decided)
				}
				if n := explore.Count(evs, "committed by reading", ""); n > 0 {
					x.Fail("%d messages committed by reading them", n)
				}
			}
			for i, e := range evs {
				if e.K == "commit" {
					if j := explore.Index(evs[:i], "decide", strings.TrimPrefix(e.A, "t ")); j < 0 {
						x.Fail("%q committed before it is decided", e.A)
					}
				}
			}
		})
		x.Cleanup(func() {
			stop()
			if !withCancel {
				sub.Cancel(context.Background())
			}
			s.Stop()
		})
	}}
}

func main() {
	explore.Main([]string{"verifmc/fakekafka."}, func() []*explore.Scenario {
		q := brokers.BrokerMessagesQueueSize
		return []*explore.Scenario{
			one(0, 1), one(1, 1), one(2, 1), one(0, 2), one(1, 2), one(2, 2),
			flow(cfg{name: "manual-1", n: 1, fail: -1, reads: -1, ack: "a", end: "cancel"}, 6, 12),
			flow(cfg{name: "manual-2", n: 2, fail: -1, reads: -1, ack: "an", end: "cancel"}, 5, 8),
			flow(cfg{name: "manual-3", n: 3, fail: -1, reads: 2, ack: "a-", end: "cancel", drain: true}, 4, 7),
			flow(cfg{name: "manual-late", n: 2, fail: -1, reads: -1, ack: "na", end: "cancel", late: true, drain: true}, 5, 8),
			flow(cfg{name: "manual-fails", n: 2, fail: 1, reads: -1, ack: "a", end: "cancel"}, 5, 8),
			flow(cfg{name: "manual-fails-first", n: 1, fail: 0, reads: -1, ack: "a", end: "cancel"}, 5, 8),
			flow(cfg{name: "manual-context", n: 2, fail: -1, reads: -1, ack: "a", end: "context"}, 5, 8),
			flow(cfg{name: "manual-both", n: 1, fail: -1, reads: -1, ack: "a", end: "cancel,context"}, 4, 7),
			flow(cfg{name: "manual-close-fails", n: 2, fail: -1, reads: 1, ack: "a", end: "cancel", close: true}, 5, 8),
			flow(cfg{name: "auto-2", auto: true, n: 2, fail: -1, reads: -1, ack: "an", end: "cancel"}, 5, 8),
			flow(cfg{name: "auto-fails", auto: true, n: 2, fail: 1, reads: 1, ack: "-", end: "cancel"}, 5, 8),
			flow(cfg{name: "auto-both", auto: true, n: 2, fail: -1, reads: 1, ack: "a", end: "cancel,context", drain: true}, 4, 6),
			flow(cfg{name: "full-manual", n: q + 5, fail: -1, reads: 0, ack: "a", end: "cancel"}, 0, 0),
			flow(cfg{name: "full-auto", auto: true, n: q + 5, fail: -1, reads: 3, ack: "a", end: "cancel", drain: true}, 0, 0),
		}
	})
}
