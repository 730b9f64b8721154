// P06: handling of received messages by the generated controllers.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/errorhandlers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"
	"verifmc/ctl"
	"verifmc/explore"
	"verifmc/fake"
)

var (
	errHandler = errors.New("handler error")
	errMW      = errors.New("middleware error")
)

// kinds of messages
const (
	kOK = iota
	kHandlerErr
	kUndecodable
	kMWBefore
	kMWAfter
	kPanic
	kEmpty
	kCorr // with a correlation identifier (ok)
	nKinds
)

var kindNames = []string{"ok", "handler-error", "undecodable", "middleware-error-before", "middleware-error-after", "panic", "empty", "ok-with-correlation"}

func message(k, i int) extensions.BrokerMessage {
	m := extensions.BrokerMessage{Headers: map[string][]byte{"note": []byte(kindNames[k])}, Payload: []byte(fmt.Sprintf(`{"text":"t%d"}`, i))}
	switch k {
	case kUndecodable:
		m.Payload = []byte("{")
	case kEmpty:
		m = extensions.BrokerMessage{}
	case kCorr:
		m.Headers["correlationId"] = []byte(fmt.Sprint("id", i))
	}
	return m
}

func str(ctx context.Context, k extensions.ContextKey) string {
	s, _ := ctx.Value(k).(string)
	return s
}

func values(ctx context.Context) string {
	return fmt.Sprintf("%s|%s|%s|%s|%s|%q", str(ctx, extensions.ContextKeyIsVersion), str(ctx, extensions.ContextKeyIsProvider),
		str(ctx, extensions.ContextKeyIsChannel), str(ctx, extensions.ContextKeyIsDirection), str(ctx, extensions.ContextKeyIsCorrelationID),
		str(ctx, extensions.ContextKeyIsBrokerMessage))
}

type nolog struct{ extensions.DummyLogger }

// handler fails as the note of the message says.
func handler(id func() string) ctl.Handler {
	n := 0
	return func(ctx context.Context, m ctl.Msg) error {
		explore.Log("handle", m.Text, ctl.P(m.Corr), values(ctx))
		switch ctl.P(m.Note) {
		case kindNames[kHandlerErr]:
			n++
			return ctl.Failure(errHandler, n)
		case kindNames[kPanic]:
			n++
			ctl.Crash(n)
		}
		explore.Log("handled", m.Text)
		return nil
	}
}

func mws() []extensions.Middleware {
	return []extensions.Middleware{
		middlewares.Logging(nolog{}),
		middlewares.Recovery(nolog{}),
		func(ctx context.Context, m *extensions.BrokerMessage, next extensions.NextMiddleware) error {
			switch string(m.Headers["note"]) {
			case kindNames[kMWBefore]:
				return errMW
			case kindNames[kMWAfter]:
				if err := next(ctx); err != nil {
					return err
				}
				return errMW
			}
			return nil
		},
	}
}

func eh(addr string) extensions.ErrorHandler {
	return func(ctx context.Context, a string, m *extensions.AcknowledgeableBrokerMessage, err error) {
		errorhandlers.Logging(nolog{})(ctx, a, m, err)
		w := "other"
		if errors.Is(err, errHandler) {
			w = "handler"
		} else if errors.Is(err, errMW) {
			w = "middleware"
		}
		if a != addr {
			w += " wrong address " + a
		}
		explore.Log("failed", w, fmt.Sprintf("%q", m.BrokerMessage.String()), values(ctx))
	}
}

// expected is the exact history of one message.
func expected(k, i int, id string, c *ctl.C, ch, addr string) []string {
	m := message(k, i)
	corr, cctx := "-", ""
	if k == kCorr && ch != "plain" {
		corr, cctx = fmt.Sprint("id", i), fmt.Sprint("id", i)
	}
	v := func(corr string) string {
		return fmt.Sprintf("%s|%s|%s|reception|%s|%q", c.Version, c.Provider, addr, corr, m.String())
	}
	h := fmt.Sprintf("handle t%d %s %s", i, corr, v(cctx))
	hd := fmt.Sprintf("handled t%d", i)
	f := func(w string) string { return fmt.Sprintf("failed %s %q %s", w, m.String(), v("")) }
	ack, nak := "ack "+id, "nak "+id
	switch k {
	case kOK, kCorr:
		return []string{h, hd, ack}
	case kHandlerErr:
		return []string{h, f("handler"), nak}
	case kUndecodable, kEmpty:
		return []string{f("other"), nak}
	case kMWBefore:
		return []string{f("middleware"), nak}
	case kMWAfter:
		return []string{h, hd, ack, f("middleware")}
	case kPanic:
		return []string{h, f("other"), nak}
	}
	panic(k)
}

func keep(evs []explore.Ev) []string {
	var r []string
	for _, e := range evs {
		switch e.K {
		case "handle", "handled", "ack", "nak", "failed":
			r = append(r, e.String())
		}
	}
	return r
}

// histories: every sequence of n messages, delivered one by one.
func histories(s ctl.Side, ch string, n, first, quick, thorough int) *explore.Scenario {
	name := fmt.Sprintf("%s-%s-%d", s.Name, ch, n)
	if first >= 0 {
		name += "-" + kindNames[first]
	}
	return &explore.Scenario{Name: name, Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 4000, Body: func(x *explore.Exec) {
		x.Fixed = true
		b := fake.New()
		addr := ctl.Addr(map[bool]string{true: "r", false: "s"}[strings.HasSuffix(s.Name, "app")], ch, "X", "Z")
		c := s.New(b, ctl.Opts{MW: mws(), EH: eh(addr)})
		var kinds []int
		for i := 0; i < n; i++ {
			if i == 0 && first >= 0 {
				kinds = append(kinds, first)
			} else {
				kinds = append(kinds, x.Choose(nKinds))
			}
		}
		close := x.Choose(2)
		var want []string
		x.Go("main", func() {
			if err := c.Sub(context.Background(), ch, "X", "Z", handler(nil)); err != nil {
				x.Fail("subscribe: %v", err)
				return
			}
			for i, k := range kinds {
				b.Deliver(addr, fmt.Sprint(i), message(k, i))
			}
			if close == 1 {
				c.Unsub(context.Background(), ch, "X", "Z")
			}
		})
		for i, k := range kinds {
			want = append(want, expected(k, i, fmt.Sprint(i), c, ch, addr)...)
		}
		x.Check(func() {
			for _, cr := range x.Crashes() {
				x.Fail("crash: %s", cr)
			}
			got := keep(x.Events())
			if strings.Join(got, "\n") != strings.Join(want, "\n") {
				d := 0
				for d < len(got) && d < len(want) && got[d] == want[d] {
					d++
				}
				x.Fail("messages %v close %d: event %d differs: got %q want %q", kinds, close, d, tail(got, d), tail(want, d))
			}
			if close == 1 {
				if bl := x.Blocked(); len(bl) > 0 {
					x.Fail("still running after the unsubscription: %v", bl)
				}
			}
		})
		x.Cleanup(func() { c.Unsub(context.Background(), ch, "X", "Z") })
	}}
}

func tail(l []string, i int) []string {
	if i+2 < len(l) {
		return l[i : i+2]
	}
	return l[i:]
}

// schedules: messages delivered while the subscription is closed, or while another
// channel is handling its own.
func schedules(s ctl.Side, kinds []int, queue int, closer string, quick, thorough int) *explore.Scenario {
	name := fmt.Sprintf("%s-sched-%s-q%d", s.Name, closer, queue)
	for _, k := range kinds {
		name += "-" + kindNames[k]
	}
	return &explore.Scenario{Name: name, Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 4000, Race: true, RaceBound: 2, Body: func(x *explore.Exec) {
		b := fake.New()
		b.Cap = queue
		prefix := map[bool]string{true: "r", false: "s"}[strings.HasSuffix(s.Name, "app")]
		a1, a2 := ctl.Addr(prefix, "corr", "", ""), ctl.Addr(prefix, "plain", "", "")
		c := s.New(b, ctl.Opts{MW: mws(), EH: func(ctx context.Context, a string, m *extensions.AcknowledgeableBrokerMessage, err error) {
			eh(a)(ctx, a, m, err)
		}})
		x.Fixed = true
		x.Go("setup", func() {
			_ = c.Sub(context.Background(), "corr", "", "", handler(nil))
			if closer == "other" {
				_ = c.Sub(context.Background(), "plain", "", "", handler(nil))
			}
		})
		x.Stage(func() {
			x.Fixed = false
			x.Go("deliver", func() {
				for i, k := range kinds {
					b.Deliver(a1, fmt.Sprint(i), message(k, i))
					explore.Log("delivered", i)
				}
			})
			switch closer {
			case "unsubscribe":
				x.Go("closer", func() {
					explore.Log("closing")
					c.Unsub(context.Background(), "corr", "", "")
					explore.Log("closed")
				})
			case "close":
				x.Go("closer", func() {
					explore.Log("closing")
					c.Close(context.Background())
					explore.Log("closed")
				})
			case "other":
				x.Go("deliver2", func() {
					for i, k := range kinds {
						b.Deliver(a2, fmt.Sprint(10+i), message(k, 10+i))
					}
				})
			}
		})
		x.Check(func() {
			for _, cr := range x.Crashes() {
				x.Fail("crash: %s", cr)
			}
			if x.Unfinished("deliver") || x.Unfinished("closer") {
				x.Fail("call never returns: %v", x.Blocked())
			}
			evs := x.Events()
			got := keep(evs)
			if closer == "other" {
				// each channel by itself
				for base, ch := range map[int]string{0: "corr", 10: "plain"} {
					addr := map[string]string{"corr": a1, "plain": a2}[ch]
					var want, mine []string
					for i, k := range kinds {
						want = append(want, expected(k, base+i, fmt.Sprint(base+i), c, ch, addr)...)
					}
					for _, g := range got {
						if strings.Contains(g, "|"+addr+"|") || isID(g, base, len(kinds)) {
							mine = append(mine, g)
						}
					}
					if strings.Join(mine, "\n") != strings.Join(want, "\n") {
						x.Fail("channel %s: got %q want %q", ch, mine, want)
					}
				}
				return
			}
			// what was queued before the closing was requested must be handled; the
			// rest may be dropped, as a suffix
			must := 0
			if i := explore.Index(evs, "closing", ""); i >= 0 {
				must = explore.Count(evs[:i], "delivered", "")
			}
			ok := false
			var want []string
			for i, k := range kinds {
				if i >= must && strings.Join(got, "\n") == strings.Join(want, "\n") {
					ok = true
				}
				want = append(want, expected(k, i, fmt.Sprint(i), c, "corr", a1)...)
			}
			if !ok && strings.Join(got, "\n") != strings.Join(want, "\n") {
				x.Fail("got %q want (at least the first %d messages of) %q", got, must, want)
			}
			if bl := x.Blocked(); len(bl) > 0 {
				x.Fail("still running after the unsubscription: %v", bl)
			}
		})
		x.Cleanup(func() { c.Close(context.Background()) })
	}}
}

// isID tells if an event without address belongs to the messages numbered from base.
func isID(ev string, base, n int) bool {
	f := strings.Fields(ev)
	if len(f) != 2 {
		return false
	}
	for i := base; i < base+n; i++ {
		if f[1] == fmt.Sprint(i) || f[1] == fmt.Sprintf("t%d", i) {
			return true
		}
	}
	return false
}

func main() {
	explore.Main(nil, func() []*explore.Scenario {
		var r []*explore.Scenario
		for _, s := range ctl.Sides {
			for _, ch := range []string{"plain", "corr", "par"} {
				r = append(r, histories(s, ch, 0, -1, 0, 0), histories(s, ch, 1, -1, 0, 0))
				for k := 0; k < nKinds; k++ {
					r = append(r, histories(s, ch, 4, k, 0, 0), histories(s, ch, 5, k, -1, 0))
				}
			}
			for _, q := range []int{0, 2} {
				for _, cl := range []string{"unsubscribe", "close"} {
					r = append(r, schedules(s, []int{kOK, kHandlerErr}, q, cl, 6, 10))
					r = append(r, schedules(s, []int{kUndecodable, kOK, kMWBefore}, q, cl, 5, 8))
				}
			}
			r = append(r, schedules(s, []int{kOK, kMWAfter}, 2, "other", 5, 7))
		}
		return r
	})
}
