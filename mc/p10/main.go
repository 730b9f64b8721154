// P10: sending through the generated controllers.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math"
	"strings"
	"sync/atomic"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifmc/ctl"
	"verifmc/explore"
	"verifmc/fake"
)

var errMW, errPub = errors.New("middleware error"), errors.New("broker error")

// gate is where concurrent sends may be interleaved (besides the broker).
var gate atomic.Int64

type userKey struct{}

func chans(s ctl.Side) []string {
	if strings.HasPrefix(s.Name, "v2") {
		return []string{"plain", "corr", "par"}
	}
	return []string{"plain", "corr", "par", "nc", "dyn", "dynr"}
}

func hasCorr(ch string) bool { return ch == "corr" || ch == "par" || ch == "dyn" }

// expected headers and payload of a message.
func headers(ch string, reply bool, m ctl.Msg, corr string) map[string]string {
	h := map[string]string{}
	if m.Note != nil {
		h["note"] = *m.Note
	}
	if !reply && m.ReplyTo != nil {
		h["replyTo"] = *m.ReplyTo
	}
	if !reply && m.ReplyTo == nil && ch == "dynr" { // required header
		h["replyTo"] = ""
	}
	if corr != "" {
		h["correlationId"] = corr
	}
	return h
}

func same(h map[string]string, g map[string][]byte) bool {
	if len(h) != len(g) {
		return false
	}
	for k, v := range h {
		if x, ok := g[k]; !ok || string(x) != v {
			return false
		}
	}
	return true
}

func payloadOK(p []byte, m ctl.Msg) bool {
	var v map[string]any
	if json.Unmarshal(p, &v) != nil || v["text"] != m.Text {
		return false
	}
	delete(v, "text")
	if m.Num != nil {
		if v["num"] != *m.Num {
			return false
		}
		delete(v, "num")
	}
	return len(v) == 0
}

func checkCtx(x *explore.Exec, d, where string, ctx context.Context, c *ctl.C, addr, corr string, m *extensions.BrokerMessage) {
	get := func(k extensions.ContextKey) string { s, _ := ctx.Value(k).(string); return s }
	for k, v := range map[extensions.ContextKey]string{extensions.ContextKeyIsVersion: c.Version, extensions.ContextKeyIsProvider: c.Provider,
		extensions.ContextKeyIsChannel: addr, extensions.ContextKeyIsDirection: "publication"} {
		if get(k) != v {
			x.Fail("%s: %s of the context is %q for the %s, want %q", d, k, get(k), where, v)
		}
	}
	if corr != "" && get(extensions.ContextKeyIsCorrelationID) != corr {
		x.Fail("%s: correlation identifier %q of the context for the %s, want %q", d, get(extensions.ContextKeyIsCorrelationID), where, corr)
	}
	if raw := get(extensions.ContextKeyIsBrokerMessage); !strings.Contains(raw, string(m.Payload)) {
		x.Fail("%s: raw message %q of the context for the %s, payload %q", d, raw, where, m.Payload)
	}
	if ctx.Value(userKey{}) != "mine" {
		x.Fail("%s: the context given by the caller does not reach the %s", d, where)
	}
}

// one: every message shape, middleware and broker outcome.
func one(s ctl.Side, ch string, reply bool) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("%s-%s-reply%v", s.Name, ch, reply), NoSleep: true, Body: func(x *explore.Exec) {
		x.Fixed = true
		b := fake.New()
		m := ctl.Msg{Text: []string{"t", "", "q\"é\n<&>\u2028"}[x.Choose(3)]}
		m.Note = []*string{nil, ctl.S(""), ctl.S("n:é,\"")}[x.Choose(3)]
		nan := false
		switch x.Choose(4) {
		case 1:
			m.Num = new(float64)
		case 2:
			m.Num = new(float64)
			*m.Num = -1.5e300
		case 3:
			m.Num = new(float64)
			*m.Num = math.NaN()
			nan = true
		}
		if hasCorr(ch) {
			m.Corr = []*string{nil, ctl.S(""), ctl.S("id 1")}[x.Choose(3)]
		}
		m.ReplyTo = []*string{nil, ctl.S("to")}[x.Choose(2)]
		px, pz := "", ""
		if ch == "par" {
			v := []string{"1", "a.b", "{z}", "%s", ""}
			px, pz = v[x.Choose(len(v))], v[x.Choose(len(v))]
		}
		mw := x.Choose(5) // none, passes, edits, fails before, two of them
		pubFails := x.Choose(2) == 1
		d := fmt.Sprintf("sending %v num %v on %s(%s,%s), middleware %d, broker fails %v", m, m.Num, ch, px, pz, mw, pubFails)
		if pubFails {
			b.PubErr = func(string) error { return errPub }
		}
		type seen struct {
			ctx context.Context
			m   extensions.BrokerMessage
		}
		var ran []seen
		mk := func(i int) extensions.Middleware {
			return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
				ran = append(ran, seen{ctx, extensions.BrokerMessage{Headers: msg.Headers, Payload: msg.Payload}})
				switch mw {
				case 2:
					msg.Payload = []byte("edited")
					msg.Headers = map[string][]byte{"only": []byte("x")}
				case 3:
					return errMW
				}
				return next(ctx)
			}
		}
		var mws []extensions.Middleware
		if mw > 0 {
			mws = append(mws, mk(0))
		}
		if mw == 4 {
			mws = append(mws, mk(1))
		}
		c := s.New(b, ctl.Opts{MW: mws})
		addr := ctl.Addr(c.W, ch, px, pz)
		if reply {
			addr = ctl.ReplyAddr(c.R, ch)
			if ch == "dyn" || ch == "dynr" {
				addr = "to.x"
			}
		}
		before := m
		if m.Corr != nil {
			before.Corr = ctl.S(*m.Corr)
		}
		x.Go("send", func() {
			ctx := context.WithValue(context.Background(), userKey{}, "mine")
			var err error
			if reply {
				err = c.SendReply(ctx, ch, addr, m)
			} else {
				err = c.Send(ctx, ch, px, pz, m)
			}
			corrMissing := hasCorr(ch) && ctl.P(m.Corr) == "-" || hasCorr(ch) && *m.Corr == ""
			if m.String() != before.String() {
				x.Fail("%s: the message of the caller becomes %v", d, m)
			}
			var want error
			switch {
			case reply && corrMissing:
				want = extensions.ErrNoCorrelationIDSet
			case nan:
				if err == nil || len(b.Published) > 0 || len(ran) > 0 {
					x.Fail("%s: error %v, %d publications, %d middlewares run", d, err, len(b.Published), len(ran))
				}
				return
			case mw == 3:
				want = errMW
			case pubFails:
				want = errPub
			}
			if mw == 0 && len(ran) > 0 || mw > 0 && mw < 4 && len(ran) != 1 || mw == 4 && len(ran) != 2 {
				if want != extensions.ErrNoCorrelationIDSet {
					x.Fail("%s: %d middlewares run", d, len(ran))
				}
			}
			if want != nil {
				if !errors.Is(err, want) || len(b.Published) > 0 {
					x.Fail("%s: error %v, %d publications, want %v", d, err, len(b.Published), want)
				}
				return
			}
			if err != nil || len(b.Published) != 1 {
				x.Fail("%s: error %v, %d publications", d, err, len(b.Published))
				return
			}
			p := b.Published[0]
			if p.Channel != addr {
				x.Fail("%s: published on %q", d, p.Channel)
			}
			// what the code made of the message, before the middlewares
			made := p.Msg
			if mw > 0 {
				made = ran[0].m
			}
			corr := ""
			if hasCorr(ch) {
				corr = string(made.Headers["correlationId"])
				if corr == "" || !corrMissing && corr != *m.Corr {
					x.Fail("%s: correlation identifier %q", d, corr)
				}
			}
			if !same(headers(ch, reply, m, corr), made.Headers) || !payloadOK(made.Payload, m) {
				x.Fail("%s: encoded as %s", d, fake.Str(made))
			}
			if mw == 2 {
				if fake.Str(p.Msg) != `"edited"[only="x"]` {
					x.Fail("%s: published %s", d, fake.Str(p.Msg))
				}
			} else if fake.Str(p.Msg) != fake.Str(made) {
				x.Fail("%s: published %s, encoded as %s", d, fake.Str(p.Msg), fake.Str(made))
			}
			checkCtx(x, d, "broker", p.Ctx, c, addr, corr, &made)
			for i := range ran {
				checkCtx(x, d, "middleware", ran[i].ctx, c, addr, corr, &made)
			}
			x.S.AddLog(explore.Ev{K: "sent"})
		})
		x.Check(func() { x.NoCrashNoDeadlock() })
	}}
}

// pair: concurrent sends on one controller, of one or two messages.
func pair(s ctl.Side, ch1, ch2 string, n int, shared bool, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("%s-%s-%s-%d-shared%v", s.Name, ch1, ch2, n, shared), Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 3000,
		Race: true, RaceBound: 2, Body: func(x *explore.Exec) {
			b := fake.New()
			c := s.New(b, ctl.Opts{MW: []extensions.Middleware{func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
				explore.Log("mw", string(msg.Payload))
				gate.Add(1)
				err := next(ctx)
				gate.Add(1)
				return err
			}, func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
				gate.Add(1)
				return nil
			}}})
			msgs := make([]ctl.Msg, n)
			one := ctl.Msg{Text: "m", Note: ctl.S("n"), Corr: ctl.S("")}
			for i := range msgs {
				if shared {
					msgs[i] = one
				} else {
					msgs[i] = ctl.Msg{Text: fmt.Sprint("m", i), Note: ctl.S(fmt.Sprint("n", i))}
				}
			}
			for i := 0; i < n; i++ {
				i := i
				x.Go(fmt.Sprint("send", i), func() {
					ch := ch1
					if i%2 == 1 {
						ch = ch2
					}
					if err := c.Send(context.Background(), ch, fmt.Sprint("x", i), fmt.Sprint("z", i), msgs[i]); err != nil {
						x.Fail("send %d: %v", i, err)
					}
				})
			}
			x.Check(func() {
				x.NoCrashNoDeadlock()
				ids := map[string]bool{}
				var left []string
				for _, p := range b.Published {
					left = append(left, p.Channel+string(p.Msg.Payload)+string(p.Msg.Headers["note"]))
					if id := string(p.Msg.Headers["correlationId"]); id != "" {
						if ids[id] {
							x.Fail("two messages have the correlation identifier %s", id)
						}
						ids[id] = true
					}
				}
				for i := 0; i < n; i++ {
					ch := ch1
					if i%2 == 1 {
						ch = ch2
					}
					want := fmt.Sprintf("%s{\"text\":\"%s\"}%s", ctl.Addr(c.W, ch, fmt.Sprint("x", i), fmt.Sprint("z", i)), msgs[i].Text, *msgs[i].Note)
					found := false
					for j, l := range left {
						if l == want {
							left = append(left[:j], left[j+1:]...)
							found = true
							break
						}
					}
					if !found {
						x.Fail("%q is not published: %q", want, left)
					}
				}
				if len(left) > 0 {
					x.Fail("also published: %q", left)
				}
				if explore.Count(x.Events(), "mw", "") != n {
					x.Fail("%d middleware calls", explore.Count(x.Events(), "mw", ""))
				}
			})
		}}
}

func main() {
	explore.Main([]string{"verifmc/fake."}, func() []*explore.Scenario {
		var r []*explore.Scenario
		for _, s := range ctl.Sides {
			for _, ch := range chans(s) {
				r = append(r, one(s, ch, false))
				if ch != "plain" && ch != "par" && strings.HasPrefix(s.Name, "v3") {
					r = append(r, one(s, ch, true))
				}
			}
			for _, p := range [][2]string{{"corr", "corr"}, {"par", "par"}, {"corr", "plain"}, {"plain", "par"}} {
				r = append(r, pair(s, p[0], p[1], 2, false, 8, 20), pair(s, p[0], p[1], 2, true, 8, 20), pair(s, p[0], p[1], 3, false, 4, 8))
			}
		}
		return r
	})
}
