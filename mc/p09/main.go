// P09: a waiting request ends when its context ends or its subscription is lost.
package main

import (
	"context"
	"errors"
	"fmt"
	"math"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifmc/ctl"
	"verifmc/explore"
	"verifmc/fake"
	"verifmc/rr"
)

var errX = errors.New("refused")

// wait: a request whose n replies are followed or accompanied by the end of its context
// and/or the loss of its subscription.
func wait(s ctl.Side, ch string, n int, enders string, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("%s-%s-%d-%s", s.Name, ch, n, enders), Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 3000,
		Race: n < 2, RaceBound: 1, Body: func(x *explore.Exec) {
			b := fake.New()
			b.Cap = x.Choose(2) * 8
			failing := x.Choose(2) == 1
			c := s.New(b, ctl.Opts{MW: []extensions.Middleware{func(ctx context.Context, m *extensions.BrokerMessage, next extensions.NextMiddleware) error {
				if d, _ := ctx.Value(extensions.ContextKeyIsDirection).(string); failing && d != "publication" {
					return errX
				}
				return next(ctx)
			}}})
			addr := rr.Addr(s, c, ch, "dyn.1")
			var kinds []int
			for i := 0; i < n; i++ {
				kinds = append(kinds, x.Choose(rr.Kinds-1))
			}
			d := fmt.Sprintf("replies %v, failing middleware %v, queue of %d", kinds, failing, b.Cap)
			ctx, cancel := context.WithCancel(context.Background())
			published := 0
			b.OnPublish = func(_ context.Context, to string, m extensions.BrokerMessage) {
				published++
				id := string(m.Headers["correlationId"])
				f := func() {
					for i, k := range kinds {
						b.DeliverEach(addr, fmt.Sprint(i), rr.Message(ch, k, i, id))
					}
				}
				end := func() {
					for _, e := range enders {
						if e == 'c' {
							go cancel()
						} else {
							for _, sub := range b.OpenSubs(addr) {
								sub := sub
								go sub.Sub.Cancel(context.Background())
							}
						}
					}
				}
				if b.Cap > 0 {
					f()
					end()
				} else {
					go f()
					end()
				}
			}
			var reply ctl.Msg
			var err error
			done := false
			x.Go("request", func() {
				reply, err = c.Request(ctx, ch, rr.Request(ch, "q", "id1", "dyn.1"))
				done = true
			})
			want := rr.Wanted(ch, kinds)
			if failing {
				want = -1
			}
			x.Check(func() {
				for _, cr := range x.Crashes() {
					x.Fail("crash: %s", cr)
				}
				if !done {
					x.Fail("%s: the request never returns: %v", d, x.Blocked())
					return
				}
				hasC, hasL := false, false
				for _, e := range enders {
					hasC = hasC || e == 'c'
					hasL = hasL || e == 'l'
				}
				switch {
				case err == nil:
					if want < 0 || reply.Text != rr.Text(kinds[want], want) {
						x.Fail("%s: returned %v", d, reply)
					}
				case hasC && errors.Is(err, extensions.ErrContextCanceled):
				case hasL && errors.Is(err, extensions.ErrSubscriptionCanceled):
					if want >= 0 && b.Cap > 0 {
						x.Fail("%s: the reply was received before the subscription was lost, got %v", d, err)
					}
				default:
					x.Fail("%s: returned the error %v", d, err)
				}
				if l := b.OpenSubs(""); len(l) > 0 {
					x.Fail("%s: the reply subscription is left open", d)
				}
				if published != 1 {
					x.Fail("%s: %d publications", d, published)
				}
				if bl := x.Blocked(); len(bl) > 0 {
					x.Fail("%s: left running: %v", d, bl)
				}
			})
			x.Cleanup(func() { cancel() })
		}}
}

// steps: every failing step of subscribing and sending, with a context that is done or not.
func steps(s ctl.Side, ch string) *explore.Scenario {
	names := []string{"the subscription is refused", "the publication is refused", "a middleware fails", "the message can not be encoded", "the reply address is empty"}
	return &explore.Scenario{Name: fmt.Sprintf("%s-%s-steps", s.Name, ch), Quick: 3, Thorough: 6, NoSleep: true, Horizon: 3000,
		Body: func(x *explore.Exec) {
			b := fake.New()
			k := x.Choose(len(names))
			ctxDone := x.Choose(2) == 1
			d := fmt.Sprintf("%s, context done: %v", names[k], ctxDone)
			b.SubErr = func(string) error {
				if k == 0 {
					return errX
				}
				return nil
			}
			b.PubErr = func(string) error {
				if k == 1 {
					return errX
				}
				return nil
			}
			c := s.New(b, ctl.Opts{MW: []extensions.Middleware{func(ctx context.Context, m *extensions.BrokerMessage, next extensions.NextMiddleware) error {
				if k == 2 {
					return errX
				}
				return next(ctx)
			}}})
			q := rr.Request(ch, "q", "id1", "dyn.1")
			if k == 3 {
				q.Num = new(float64)
				*q.Num = math.NaN()
			}
			if k == 4 {
				if ch != "dyn" && ch != "dynr" {
					return
				}
				q.ReplyTo = nil
				if x.Choose(2) == 1 {
					q.ReplyTo = ctl.S("")
				}
			}
			ctx := context.Background()
			if ctxDone {
				ctx = rr.Done()
			}
			var err error
			done := false
			x.Go("request", func() {
				_, err = c.Request(ctx, ch, q)
				explore.Log("returned")
				done = true
			})
			x.Check(func() {
				for _, cr := range x.Crashes() {
					x.Fail("crash: %s", cr)
				}
				if !done {
					x.Fail("%s: the request never returns: %v", d, x.Blocked())
					return
				}
				switch {
				case err == nil:
					x.Fail("%s: no error", d)
				case ctxDone && errors.Is(err, extensions.ErrContextCanceled):
				case k <= 2 && !errors.Is(err, errX):
					x.Fail("%s: the error is %v", d, err)
				case k == 4 && !errors.Is(err, extensions.ErrChannelAddressEmpty) && !errors.Is(err, extensions.ErrAsyncAPI):
					x.Fail("%s: the error is %v", d, err)
				}
				if len(b.Published) > 0 {
					x.Fail("%s: published %v", d, b.Published)
				}
				if l := b.OpenSubs(""); len(l) > 0 {
					x.Fail("%s: the reply subscription is left open", d)
				}
				evs := x.Events()
				if !ctxDone && explore.Count(evs, "open", "") > 0 && explore.Index(evs, "release", "") > explore.Index(evs, "returned", "") {
					x.Fail("%s: the reply subscription is cancelled after the return", d)
				}
				if bl := x.Blocked(); len(bl) > 0 {
					x.Fail("%s: left running: %v", d, bl)
				}
			})
		}}
}

func main() {
	explore.Main(nil, func() []*explore.Scenario {
		var r []*explore.Scenario
		for _, s := range ctl.Sides {
			for _, ch := range s.Requests {
				r = append(r, steps(s, ch))
				for n := 0; n <= 3; n++ {
					q := []int{6, 4, 3, -1}[n]
					t := []int{12, 7, 5, 4}[n]
					for _, e := range []string{"c", "l", "cl"} {
						if e == "cl" && q > 0 {
							q--
						}
						r = append(r, wait(s, ch, n, e, q, t))
					}
				}
			}
		}
		return r
	})
}
