// P07: histories of subscription operations on the generated controllers.
package main

import (
	"context"
	"errors"
	"fmt"
	"sort"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifmc/ctl"
	"verifmc/explore"
	"verifmc/fake"
)

var errBroker = errors.New("broker refuses")

type target struct{ ch, x, z string }

var targets = []target{{"plain", "", ""}, {"par", "1", "2"}, {"par", "1", "3"}, {"corr", "", ""}}

type op struct {
	name string
	kind string // sub, unsub, suball, unsuball, close, subfail, unsubdone, suballnil, suballfail
	t    int
}

var ops = []op{
	{"subscribe plain", "sub", 0}, {"subscribe par 1 2", "sub", 1}, {"subscribe par 1 3", "sub", 2},
	{"unsubscribe plain", "unsub", 0}, {"unsubscribe par 1 2", "unsub", 1}, {"unsubscribe par 1 3", "unsub", 2},
	{"subscribe all", "suball", 0}, {"unsubscribe all", "unsuball", 0}, {"close", "close", 0},
	{"subscribe plain refused", "subfail", 0}, {"subscribe par 1 2 refused", "subfail", 1},
	{"unsubscribe plain, context done", "unsubdone", 0}, {"subscribe all refused", "suballfail", 0},
}

type harness struct {
	x     *explore.Exec
	s     ctl.Side
	b     *fake.Broker
	c     *ctl.C
	live  map[string]int // address -> generation of the handler
	gen   int
	pre   int
	done  []string
	fail  string
	err   error
	ended bool
}

func (h *harness) addr(t target) string { return ctl.Addr(h.c.R, t.ch, t.x, t.z) }

func (h *harness) handler(gen int) ctl.Handler {
	return func(_ context.Context, m ctl.Msg) error {
		explore.Log("handle", gen, m.Text)
		return nil
	}
}

func (h *harness) bad(format string, a ...any) {
	h.x.Fail("after [%s]: %s", strings.Join(h.done, "; "), fmt.Sprintf(format, a...))
}

func (h *harness) open() []string {
	var r []string
	for _, s := range h.b.OpenSubs("") {
		r = append(r, s.Channel)
	}
	sort.Strings(r)
	return r
}

func (h *harness) want() []string {
	var r []string
	for a := range h.live {
		r = append(r, a)
	}
	sort.Strings(r)
	return r
}

// step performs one operation, then delivers a message everywhere.
func (h *harness) step(left int) {
	h.x.Stage(func() {
		if left == 0 {
			return
		}
		o := ops[0]
		if len(h.done) == 0 {
			o = ops[h.pre]
		} else {
			o = ops[h.x.Choose(len(ops))]
		}
		h.done = append(h.done, o.name)
		h.gen++
		gen := h.gen
		t := targets[o.t]
		h.ended, h.err, h.fail = false, nil, ""
		switch o.kind {
		case "subfail":
			h.fail = h.addr(t)
		case "suballfail":
			h.fail = ctl.Addr(h.c.R, "plain", "", "")
		}
		h.x.Go(o.name, func() {
			ctx := context.Background()
			switch o.kind {
			case "sub", "subfail":
				h.err = h.c.Sub(ctx, t.ch, t.x, t.z, h.handler(gen))
			case "unsub":
				h.c.Unsub(ctx, t.ch, t.x, t.z)
			case "unsubdone":
				ctx, cancel := context.WithCancel(ctx)
				cancel()
				h.c.Unsub(ctx, t.ch, t.x, t.z)
			case "suball", "suballfail":
				h.err = h.c.SubAll(ctx, func(string) ctl.Handler { return h.handler(gen) })
			case "unsuball":
				h.c.UnsubAll(ctx)
			case "close":
				h.c.Close(ctx)
			}
			h.ended = true
		})
		h.x.Stage(func() {
			if !h.ended {
				h.bad("the call does not return: %v", h.x.Blocked())
				return
			}
			h.after(o, gen)
			h.x.Go("deliver", func() {
				for _, t := range targets {
					h.b.Deliver(h.addr(t), h.addr(t), extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: []byte(fmt.Sprintf(`{"text":"%d-%s"}`, gen, h.addr(t)))})
				}
			})
			h.x.Stage(func() {
				var want []string
				for _, t := range targets {
					if g, ok := h.live[h.addr(t)]; ok {
						want = append(want, fmt.Sprintf("%d %d-%s", g, gen, h.addr(t)))
					}
				}
				var got []string
				for _, a := range explore.Args(h.x.Events(), "handle") {
					if strings.Contains(a, fmt.Sprintf(" %d-", gen)) {
						got = append(got, a)
					}
				}
				sort.Strings(want)
				sort.Strings(got)
				if fmt.Sprint(got) != fmt.Sprint(want) {
					h.bad("messages handled by %q, want %q", got, want)
				}
				h.step(left - 1)
			})
		})
	})
}

// after checks the result of the operation and moves the model.
func (h *harness) after(o op, gen int) {
	a := h.addr(targets[o.t])
	_, was := h.live[a]
	switch o.kind {
	case "sub", "subfail":
		switch {
		case was:
			if !errors.Is(h.err, extensions.ErrAlreadySubscribedChannel) {
				h.bad("second subscription gives %v", h.err)
			}
		case o.kind == "subfail":
			if !errors.Is(h.err, errBroker) {
				h.bad("refused subscription gives %v", h.err)
			}
		default:
			if h.err != nil {
				h.bad("subscription gives %v", h.err)
			}
			h.live[a] = gen
		}
	case "unsub", "unsubdone":
		delete(h.live, a)
	case "unsuball", "close":
		h.live = map[string]int{}
	case "suball", "suballfail":
		clash := o.kind == "suballfail"
		for _, ch := range h.s.All {
			if _, ok := h.live[ctl.Addr(h.c.R, ch, "", "")]; ok {
				clash = true
			}
		}
		if clash {
			if h.err == nil {
				h.bad("subscribe all succeeds though a channel is refused")
			}
			// which of the others were subscribed before the refusal is not specified
			for _, ch := range h.s.All {
				ad := ctl.Addr(h.c.R, ch, "", "")
				if _, ok := h.live[ad]; !ok && len(h.b.OpenSubs(ad)) > 0 {
					h.live[ad] = gen
				}
			}
		} else {
			if h.err != nil {
				h.bad("subscribe all gives %v", h.err)
			}
			for _, ch := range h.s.All {
				h.live[ctl.Addr(h.c.R, ch, "", "")] = gen
			}
		}
	}
	if fmt.Sprint(h.open()) != fmt.Sprint(h.want()) {
		h.bad("subscriptions open on the broker: %v, want %v", h.open(), h.want())
	}
}

func scenario(s ctl.Side, first, depth, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("%s-%d-%s", s.Name, depth, strings.ReplaceAll(ops[first].name, " ", "-")), Quick: quick, Thorough: thorough,
		NoSleep: true, Horizon: 20000, Body: func(x *explore.Exec) {
			x.Fixed = true
			h := &harness{x: x, s: s, b: fake.New(), live: map[string]int{}}
			h.b.SubErr = func(a string) error {
				if a == h.fail {
					return errBroker
				}
				return nil
			}
			h.c = s.New(h.b, ctl.Opts{})
			h.pre = first // the first operation is fixed, to spread the work
			h.step(depth)
			x.Check(func() {
				for _, cr := range x.Crashes() {
					h.bad("crash: %s", cr)
				}
			})
			x.Cleanup(func() {
				for _, t := range targets {
					h.c.Unsub(context.Background(), t.ch, t.x, t.z)
				}
				h.c.Close(context.Background())
			})
		}}
}

func main() {
	explore.Main(nil, func() []*explore.Scenario {
		var r []*explore.Scenario
		for _, s := range ctl.Sides {
			for i := range ops {
				r = append(r, scenario(s, i, 4, 0, -1), scenario(s, i, 5, -1, 0))
			}
		}
		return r
	})
}
