// P08: requests get their own reply.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifmc/ctl"
	"verifmc/explore"
	"verifmc/fake"
	"verifmc/rr"
)

// single: one request, every sequence of n replies, sent from within the publication or
// by another thread.
func single(s ctl.Side, ch string, n int, mode string, corrSet bool, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("%s-%s-%d-%s-%v", s.Name, ch, n, mode, corrSet), Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 3000,
		Race: mode == "thread" && n < 3, RaceBound: 1, Body: func(x *explore.Exec) {
			x.Fixed = mode == "inside"
			b := fake.New()
			c := s.New(b, ctl.Opts{})
			addr := rr.Addr(s, c, ch, "dyn.1")
			var kinds []int
			for i := 0; i < n; i++ {
				kinds = append(kinds, x.Choose(rr.Kinds))
			}
			corr := ""
			if corrSet {
				corr = "id1"
			}
			ctx, cancel := context.WithCancel(context.Background())
			b.OnPublish = func(_ context.Context, to string, m extensions.BrokerMessage) {
				id := string(m.Headers["correlationId"])
				f := func() {
					for i, k := range kinds {
						b.DeliverEach(addr, fmt.Sprint(i), rr.Message(ch, k, i, id))
					}
				}
				if mode == "inside" {
					f()
				} else {
					go f()
				}
			}
			var reply ctl.Msg
			var err error
			done := false
			x.Go("request", func() {
				reply, err = c.Request(ctx, ch, rr.Request(ch, "q", corr, "dyn.1"))
				explore.Log("returned")
				done = true
			})
			want := rr.Wanted(ch, kinds)
			x.Stage(func() {
				if want < 0 {
					x.S.AddLog(explore.Ev{K: "timeout"})
					x.Fixed = true
					cancel()
				}
			})
			x.Check(func() {
				for _, cr := range x.Crashes() {
					x.Fail("crash: %s", cr)
				}
				d := fmt.Sprintf("replies %v", kinds)
				if !done {
					x.Fail("%s: the request never returns: %v", d, x.Blocked())
					return
				}
				evs := x.Events()
				pub := explore.Index(evs, "publish", "")
				if o := explore.Index(evs, "open", addr); o < 0 || pub < 0 || o > pub {
					x.Fail("%s: not subscribed to %s before the publication", d, addr)
				}
				if explore.Count(evs, "publish", "") != 1 || explore.Count(evs, "open", "") != 1 || b.Published[0].Channel != ctl.Addr(c.W, ch, "", "") {
					x.Fail("%s: publications or subscriptions are wrong: %v", d, evs)
				} else if got := string(b.Published[0].Msg.Headers["correlationId"]); rr.HasCorr(ch) && (got == "" || corrSet && got != "id1") {
					x.Fail("%s: correlation identifier %q published", d, got)
				}
				ret := explore.Index(evs, "returned", "")
				if want >= 0 {
					if err != nil || reply.Text != rr.Text(kinds[want], want) {
						x.Fail("%s: got %v, %v, want reply %d", d, reply, err, want)
					}
					for i := 0; i <= want; i++ {
						id := fmt.Sprintf("%d@0", i)
						if explore.Count(evs, "ack", id) != 1 || explore.Count(evs, "nak", id) != 0 {
							x.Fail("%s: reply %d is not acknowledged once", d, i)
						}
					}
					if r := explore.Index(evs, "release", addr); r < 0 || r > ret {
						x.Fail("%s: returned before the reply subscription is cancelled", d)
					}
				} else {
					if err == nil {
						x.Fail("%s: returned %v", d, reply)
					}
					for i := range kinds {
						if explore.Count(evs, "ack", fmt.Sprintf("%d@0", i)) != 1 {
							x.Fail("%s: reply %d is not acknowledged once", d, i)
						}
					}
				}
				if explore.Count(evs, "release", "") != 1 {
					x.Fail("%s: the reply subscription is cancelled %d times", d, explore.Count(evs, "release", ""))
				}
				if bl := x.Blocked(); len(bl) > 0 {
					x.Fail("%s: left running: %v", d, bl)
				}
			})
			x.Cleanup(func() { cancel() })
		}}
}

// concurrent: two requests at the same time on one controller, each answered by its own
// thread; noise goes to both.
func concurrent(s ctl.Side, ch string, noise bool, same bool, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("%s-%s-two-noise%v-same%v", s.Name, ch, noise, same), Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 3000,
		Race: true, RaceBound: 2, Body: func(x *explore.Exec) {
			b := fake.New()
			b.Cap = 4
			c := s.New(b, ctl.Opts{})
			dyn := func(i int) string {
				if same {
					return "dyn"
				}
				return fmt.Sprint("dyn", i)
			}
			b.OnPublish = func(_ context.Context, to string, m extensions.BrokerMessage) {
				id := string(m.Headers["correlationId"])
				i := int(id[2] - '0')
				go func() {
					addr := rr.Addr(s, c, ch, dyn(i))
					if noise {
						b.DeliverEach(addr, fmt.Sprint("n", id), rr.Message(ch, rr.Other, 0, id))
					}
					b.DeliverEach(addr, id, rr.Message(ch, rr.Match, i, id))
				}()
			}
			for i := 1; i <= 2; i++ {
				i := i
				x.Go(fmt.Sprint("r", i), func() {
					reply, err := c.Request(context.Background(), ch, rr.Request(ch, "q", fmt.Sprint("id", i), dyn(i)))
					explore.Log("reply", i, reply.Text, err)
				})
			}
			x.Check(func() {
				for _, cr := range x.Crashes() {
					x.Fail("crash: %s", cr)
				}
				evs := x.Events()
				for i := 1; i <= 2; i++ {
					if explore.Count(evs, "reply", fmt.Sprintf("%d %s <nil>", i, rr.Text(rr.Match, i))) != 1 {
						x.Fail("request %d does not get its reply: %v, %v", i, explore.Args(evs, "reply"), x.Blocked())
					}
					n := 0
					for _, a := range explore.Args(evs, "ack") {
						if strings.HasPrefix(a, fmt.Sprintf("id%d@", i)) {
							n++
						}
					}
					if n < 1 {
						x.Fail("reply %d is not acknowledged", i)
					}
				}
				if explore.Count(evs, "nak", "") > 0 {
					x.Fail("a reply was rejected")
				}
				if explore.Count(evs, "open", "") != 2 || explore.Count(evs, "release", "") != 2 {
					x.Fail("reply subscriptions: %d opened, %d cancelled", explore.Count(evs, "open", ""), explore.Count(evs, "release", ""))
				}
			})
		}}
}

// e2e: an application replying to one or two users, through one broker.
func e2e(v, ch string, n int, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("%s-%s-e2e-%d", v, ch, n), Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 3000,
		Race: n == 1, RaceBound: 2, Body: func(x *explore.Exec) {
			b := fake.New()
			b.NoLog = true
			b.OnPublish = func(_ context.Context, to string, m extensions.BrokerMessage) { b.DeliverEach(to, to, m) }
			app, user := ctl.ByName(v+"app").New(b, ctl.Opts{}), ctl.ByName(v+"user").New(b, ctl.Opts{})
			x.Fixed = true
			x.Go("app", func() {
				err := app.Sub(context.Background(), ch, "", "", func(ctx context.Context, m ctl.Msg) error {
					var err error
					if v == "v2" {
						r := ctl.V2Response(m)
						r.Text = "re:" + m.Text
						err = app.Send(ctx, ch, "", "", r)
					} else {
						err = app.Reply(ctx, ch, m, func(r *ctl.Msg) { r.Text = "re:" + m.Text })
					}
					if err != nil {
						x.Fail("reply: %v", err)
					}
					return nil
				})
				if err != nil {
					x.Fail("subscribe: %v", err)
				}
			})
			x.Stage(func() {
				x.Fixed = false
				for i := 0; i < n; i++ {
					i := i
					x.Go(fmt.Sprint("user", i), func() {
						q := rr.Request(ch, fmt.Sprint("q", i), fmt.Sprint("id", i), fmt.Sprint("to", i))
						reply, err := user.Request(context.Background(), ch, q)
						explore.Log("reply", i, reply.Text, err)
					})
				}
			})
			x.Stage(func() {
				x.Fixed = true
				for i := 0; i < n; i++ {
					if explore.Count(x.Events(), "reply", fmt.Sprintf("%d re:q%d <nil>", i, i)) != 1 {
						x.Fail("request %d does not get its reply: %v, %v", i, explore.Args(x.Events(), "reply"), x.Blocked())
					}
				}
				if l := b.OpenSubs(""); len(l) != 1 {
					x.Fail("%d subscriptions left", len(l))
				}
			})
			x.Check(func() {
				for _, cr := range x.Crashes() {
					x.Fail("crash: %s", cr)
				}
			})
			x.Cleanup(func() { app.Close(context.Background()) })
		}}
}

// replying: addresses and correlation of replies, and refusals.
func replying(s ctl.Side) *explore.Scenario {
	return &explore.Scenario{Name: s.Name + "-replying", NoSleep: true, Body: func(x *explore.Exec) {
		x.Fixed = true
		b := fake.New()
		c := s.New(b, ctl.Opts{})
		ch := []string{"corr", "nc", "dyn", "dynr"}[x.Choose(4)]
		corr := []*string{nil, ctl.S(""), ctl.S("id1")}[x.Choose(3)]
		to := []*string{nil, ctl.S(""), ctl.S("to.1")}[x.Choose(3)]
		how := x.Choose(3) // reply, reply with a changed text only, send by hand
		recv := ctl.Msg{Text: "q", Corr: corr, ReplyTo: to}
		x.Go("reply", func() {
			var err error
			switch how {
			case 2:
				r := ctl.Msg{Text: "a", Corr: corr}
				addr := ""
				if to != nil {
					addr = *to
				}
				if (ch == "dyn" || ch == "dynr") && addr == "" {
					return // the caller chose the address
				}
				err = c.SendReply(context.Background(), ch, addr, r)
			default:
				err = c.Reply(context.Background(), ch, recv, func(r *ctl.Msg) { r.Text = "a" })
			}
			wantAddr := ctl.ReplyAddr(c.R, ch)
			var wantErr error
			if ch == "dyn" || ch == "dynr" {
				wantAddr = ""
				if to != nil {
					wantAddr = *to
				}
				if wantAddr == "" {
					wantErr = extensions.ErrChannelAddressEmpty
				}
			}
			wantErr2 := wantErr // both reasons may be there
			if rr.HasCorr(ch) && (corr == nil || *corr == "") {
				wantErr2 = extensions.ErrNoCorrelationIDSet
				if wantErr == nil {
					wantErr = wantErr2
				}
			}
			d := fmt.Sprintf("reply on %s with correlation %q to %q (%d)", ch, ctl.P(corr), ctl.P(to), how)
			if wantErr != nil {
				if !errors.Is(err, wantErr) && !errors.Is(err, wantErr2) || len(b.Published) > 0 {
					x.Fail("%s: error %v, %d publications, want %v", d, err, len(b.Published), wantErr)
				}
				return
			}
			if err != nil || len(b.Published) != 1 {
				x.Fail("%s: error %v, %d publications", d, err, len(b.Published))
				return
			}
			p := b.Published[0]
			if p.Channel != wantAddr || string(p.Msg.Payload) != `{"text":"a"}` || rr.HasCorr(ch) && string(p.Msg.Headers["correlationId"]) != *corr {
				x.Fail("%s: published %s on %s", d, fake.Str(p.Msg), p.Channel)
			}
		})
		x.Check(func() { x.NoCrashNoDeadlock() })
	}}
}

func main() {
	explore.Main(nil, func() []*explore.Scenario {
		var r []*explore.Scenario
		for _, s := range ctl.Sides {
			for _, ch := range s.Requests {
				for n := 0; n <= 4; n++ {
					q := 0
					if n == 4 {
						q = -1
					}
					r = append(r, single(s, ch, n, "inside", true, q, 0))
					if rr.HasCorr(ch) && s.Name != "v2user" { // a v2 request is sent with its identifier
						r = append(r, single(s, ch, n, "inside", false, q, 0))
					}
				}
				r = append(r, single(s, ch, 1, "thread", true, 6, 12), single(s, ch, 2, "thread", true, 3, 6), single(s, ch, 3, "thread", true, 1, 3))
				if rr.HasCorr(ch) {
					r = append(r, concurrent(s, ch, false, true, 3, 6), concurrent(s, ch, true, true, 2, 5))
					if ch == "dyn" {
						r = append(r, concurrent(s, ch, true, false, 2, 5))
					}
				}
			}
			if strings.HasPrefix(s.Name, "v3") {
				r = append(r, replying(s))
			}
		}
		for _, ch := range []string{"corr", "nc", "dyn", "dynr"} {
			r = append(r, e2e("v3", ch, 1, 4, 8))
			if ch != "nc" { // without correlation identifier, a shared reply address can not be shared
				r = append(r, e2e("v3", ch, 2, 2, 5))
			}
		}
		r = append(r, e2e("v2", "corr", 1, 4, 8), e2e("v2", "corr", 2, 2, 5))
		return r
	})
}
