// P05: middlewares of the generated controllers.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"
	"verifmc/ctl"
	"verifmc/explore"
	"verifmc/fake"
)

const (
	bNone = iota
	bNext
	bNext2
	bFailBefore
	bFailAfter
	bSwallow
	bEditMsg
	bEditCtx
	bPanicBefore
	bPanicAfter
	bLogging
	bIntercepter
	bRecovery
	nBehaviours
)

var names = []string{"none", "next", "next-twice", "fail-before", "fail-after", "swallow", "edit-message", "edit-context", "panic-before",
	"panic-after", "logging", "intercepter", "recovery"}

const (
	opOK = iota
	opErr
	opPanic
)

var (
	errMW = errors.New("middleware error")
	errOp = errors.New("operation error")
)

type markKey struct{}

func mark(ctx context.Context) string {
	s, _ := ctx.Value(markKey{}).(string)
	return s
}

type logger struct{ n string }

func (l logger) Info(ctx context.Context, msg string, _ ...extensions.LogInfo) {
	explore.Log("log", l.n, "info", msg)
}
func (l logger) Warning(ctx context.Context, msg string, _ ...extensions.LogInfo) {
	explore.Log("log", l.n, "warning", msg)
}
func (l logger) Error(ctx context.Context, msg string, _ ...extensions.LogInfo) {
	explore.Log("log", l.n, "error", msg)
}

func note(m *extensions.BrokerMessage) string { return string(m.Headers["note"]) }

// middleware number i with behaviour b, active on the given direction only.
// kind chooses the panics and the errors.
func middleware(kind, i, b int, dir string, ic chan extensions.BrokerMessage) extensions.Middleware {
	var inner extensions.Middleware
	switch b {
	case bLogging:
		inner = middlewares.Logging(logger{fmt.Sprint(i)})
	case bIntercepter:
		inner = middlewares.Intercepter(ic)
	case bRecovery:
		inner = middlewares.Recovery(logger{fmt.Sprint(i)})
	}
	return func(ctx context.Context, msg *extensions.BrokerMessage, next extensions.NextMiddleware) error {
		if d, _ := ctx.Value(extensions.ContextKeyIsDirection).(string); d != dir {
			return nil
		}
		explore.Log("mw", i, mark(ctx), note(msg))
		if inner != nil {
			return inner(ctx, msg, next)
		}
		switch b {
		case bNone:
			return nil
		case bNext:
			return next(ctx)
		case bNext2:
			e1 := next(ctx)
			e2 := next(ctx)
			explore.Log("second next", e2 == nil)
			return e1
		case bFailBefore:
			return ctl.Failure(errMW, kind+i)
		case bFailAfter:
			_ = next(ctx)
			return ctl.Failure(errMW, kind+i)
		case bSwallow:
			_ = next(ctx)
			return nil
		case bEditMsg:
			h := map[string][]byte{"note": []byte(note(msg) + fmt.Sprint("e", i))}
			for k, v := range msg.Headers {
				if k != "note" {
					h[k] = v
				}
			}
			msg.Headers = h
			return nil
		case bEditCtx:
			return next(context.WithValue(ctx, markKey{}, mark(ctx)+fmt.Sprint("c", i)))
		case bPanicBefore:
			ctl.Crash(kind + i)
		case bPanicAfter:
			_ = next(ctx)
			ctl.Crash(kind + i)
		}
		panic(b)
	}
}

// model predicts the observations.
type model struct {
	chain []int
	op    int
	note  string
	ran   [8]bool
	evs   []string
	ic    []string
	hasOp bool
	dir   string
}

type outcome int

const (
	oNil outcome = iota
	oMW
	oOp
	oRecovered
	oPanic
)

func (m *model) run(i int, mk string) outcome {
	if m.ran[i] {
		return oNil
	}
	m.ran[i] = true
	if i == len(m.chain) {
		if !m.hasOp {
			return oNil
		}
		m.evs = append(m.evs, strings.TrimSuffix(fmt.Sprintln("op", mk, m.note), "\n"))
		return []outcome{oNil, oOp, oPanic}[m.op]
	}
	m.evs = append(m.evs, strings.TrimSuffix(fmt.Sprintln("mw", i, mk, m.note), "\n"))
	var o outcome
	switch m.chain[i] {
	case bNext:
		o = m.run(i+1, mk)
	case bNext2:
		if o = m.run(i+1, mk); o != oPanic {
			m.evs = append(m.evs, "second next true")
		}
	case bFailBefore:
		o = oMW
	case bFailAfter:
		if o = m.run(i+1, mk); o != oPanic {
			o = oMW
		}
	case bSwallow:
		if o = m.run(i+1, mk); o != oPanic {
			o = oNil
		}
	case bEditMsg:
		m.note += fmt.Sprint("e", i)
	case bEditCtx:
		o = m.run(i+1, mk+fmt.Sprint("c", i))
	case bPanicBefore:
		o = oPanic
	case bPanicAfter:
		m.run(i+1, mk)
		o = oPanic
	case bLogging:
		switch m.dir {
		case "publication":
			m.evs = append(m.evs, fmt.Sprint("log ", i, " info Published a message"))
		case "reception":
			m.evs = append(m.evs, fmt.Sprint("log ", i, " info Received a message"))
		}
	case bIntercepter:
		m.ic = append(m.ic, m.note)
	case bRecovery:
		if o = m.run(i+1, mk); o == oPanic {
			m.evs = append(m.evs, fmt.Sprint("log ", i, " error recovered"))
			o = oRecovered
		}
	}
	if o != oNil {
		return o
	}
	return m.run(i+1, mk)
}

// observed keeps the events that the model predicts.
func observed(evs []explore.Ev) []string {
	var r []string
	for _, e := range evs {
		switch e.K {
		case "mw", "second next":
			r = append(r, e.String())
		case "op":
			r = append(r, e.String())
		case "log":
			s := e.String()
			for _, text := range ctl.Crashed {
				if strings.Contains(s, "error") && strings.Contains(s, text) {
					s = s[:strings.Index(s, "error")] + "error recovered"
				}
			}
			r = append(r, s)
		}
	}
	return r
}

func scenario(side ctl.Side, what string, first int, length int, quick, thorough int) *explore.Scenario {
	name := fmt.Sprintf("%s-%s-%d", side.Name, what, length)
	if first >= 0 {
		name += "-" + names[first]
	}
	return &explore.Scenario{Name: name, Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 4000,
		Body: func(x *explore.Exec) {
			x.Fixed = true
			var chain []int
			recovered := false
			for i := 0; i < length; i++ {
				b := first
				if i > 0 || first < 0 {
					b = x.Choose(nBehaviours)
				}
				if (b == bPanicBefore || b == bPanicAfter) && !recovered {
					b = bNone // uncaught panics end the process: nothing to decide
				}
				recovered = recovered || b == bRecovery
				chain = append(chain, b)
			}
			nop := 2
			if recovered {
				nop = 3
			}
			dir := map[string]string{"send": "publication", "receive": "reception", "request": "wait-for"}[strings.TrimSuffix(what, "2")]
			m := &model{chain: chain, note: "n", hasOp: what != "request", dir: dir}
			if m.hasOp {
				m.op = x.Choose(nop)
			}
			want := m.run(0, "")
			kind := m.op
			for _, b := range chain {
				kind = kind*3 + b
			}
			n := 1
			if rest := strings.TrimSuffix(what, "2"); rest != what {
				n = 2
				m2 := &model{chain: chain, note: "n", hasOp: m.hasOp, dir: dir, op: m.op}
				m2.run(0, "")
				m.evs = append(m.evs, m2.evs...)
				m.ic = append(m.ic, m2.ic...)
			}

			ic := make(chan extensions.BrokerMessage, 16)
			var mws []extensions.Middleware
			for i, b := range chain {
				mws = append(mws, middleware(kind, i, b, dir, ic))
			}
			b := fake.New()
			var handled error
			gotErr := false
			ctrl := side.New(b, ctl.Opts{MW: mws, EH: func(_ context.Context, _ string, _ *extensions.AcknowledgeableBrokerMessage, err error) {
				gotErr, handled = true, err
				explore.Log("error handler")
			}})
			opRun := func(ctx context.Context, note string) error {
				explore.Log("op", mark(ctx), note)
				switch m.op {
				case opErr:
					return ctl.Failure(errOp, kind)
				case opPanic:
					ctl.Crash(kind)
				}
				return nil
			}
			var res error
			var reply ctl.Msg
			done := false
			switch strings.TrimSuffix(what, "2") {
			case "send":
				x.Go("send", func() {
					pb := pub{opRun}
					c2 := side.New(pb, ctl.Opts{MW: mws})
					for i := 0; i < n; i++ {
						res = c2.Send(context.Background(), "plain", "", "", ctl.Msg{Text: "t", Note: ctl.S("n")})
					}
					done = true
				})
			case "receive":
				x.Go("receive", func() {
					if err := ctrl.Sub(context.Background(), "plain", "", "", func(ctx context.Context, r ctl.Msg) error {
						return opRun(ctx, ctl.P(r.Note))
					}); err != nil {
						x.Fail("subscribe: %v", err)
					}
					for i := 0; i < n; i++ {
						b.Deliver(ctl.Addr(ctrl.R, "plain", "", ""), "1", extensions.BrokerMessage{
							Headers: map[string][]byte{"note": []byte("n")}, Payload: []byte(`{"text":"t"}`)})
					}
					done = true
				})
			case "request":
				ctx, cancel := context.WithCancel(context.Background())
				b.OnPublish = func(_ context.Context, ch string, p extensions.BrokerMessage) {
					to := ctl.ReplyAddr(ctrl.W, "corr")
					if strings.HasPrefix(side.Name, "v2") {
						to = ctl.Addr(ctrl.R, "corr", "", "")
					}
					b.Deliver(to, "1", extensions.BrokerMessage{
						Headers: map[string][]byte{"note": []byte("n"), "correlationId": p.Headers["correlationId"]}, Payload: []byte(`{"text":"t"}`)})
				}
				x.Go("request", func() {
					reply, res = ctrl.Request(ctx, "corr", ctl.Msg{Text: "q", Corr: ctl.S("id1")})
					done = true
				})
				x.Stage(func() { x.S.AddLog(explore.Ev{K: "timeout"}); cancel() })
			}
			x.Check(func() {
				for _, c := range x.Crashes() {
					x.Fail("crash: %s", c)
				}
				var d []string
				for _, b := range chain {
					d = append(d, names[b])
				}
				desc := fmt.Sprintf("middlewares [%s] operation %d", strings.Join(d, " "), m.op)
				if !done {
					x.Fail("%s: the call never returned", desc)
				}
				got := observed(x.Events())
				if fmt.Sprint(got) != fmt.Sprint(m.evs) {
					x.Fail("%s: observed %q want %q", desc, got, m.evs)
				}
				var ics []string
				for len(ic) > 0 {
					q := <-ic
					ics = append(ics, note(&q))
				}
				if fmt.Sprint(ics) != fmt.Sprint(m.ic) {
					x.Fail("%s: intercepted %q want %q", desc, ics, m.ic)
				}
				err := res
				if strings.HasPrefix(what, "receive") {
					err = handled
					if gotErr != (want != oNil) {
						x.Fail("%s: error handler called: %v", desc, gotErr)
					}
				}
				if what == "request" {
					// a reply refused by a middleware is dropped: the request goes on waiting
					if want == oNil {
						if err != nil || ctl.P(reply.Note) != m.note {
							x.Fail("%s: reply %v error %v want note %s", desc, reply, err, m.note)
						}
					} else if err == nil {
						x.Fail("%s: reply returned though a middleware failed", desc)
					}
					return
				}
				switch want {
				case oNil:
					if err != nil {
						x.Fail("%s: error %v", desc, err)
					}
				case oMW:
					if !errors.Is(err, errMW) {
						x.Fail("%s: error %v, want the middleware's", desc, err)
					}
				case oOp:
					if !errors.Is(err, errOp) {
						x.Fail("%s: error %v, want the operation's", desc, err)
					}
				case oRecovered:
					if err == nil {
						x.Fail("%s: a panic was recovered but the operation is reported as successful", desc)
					}
				case oPanic:
					x.Fail("%s: harness: uncaught panic expected", desc)
				}
			})
			x.Cleanup(func() { ctrl.Close(context.Background()) })
		}}
}

// pub is a broker whose publication is the operation.
type pub struct {
	op func(ctx context.Context, note string) error
}

func (p pub) Publish(ctx context.Context, ch string, m extensions.BrokerMessage) error {
	return p.op(ctx, note(&m))
}
func (p pub) Subscribe(context.Context, string) (extensions.BrokerChannelSubscription, error) {
	panic("unused")
}

func main() {
	explore.Main(nil, func() []*explore.Scenario {
		var r []*explore.Scenario
		for _, s := range ctl.Sides {
			for _, w := range []string{"send", "receive", "request", "send2", "receive2"} {
				if w == "request" && s.Requests == nil {
					continue
				}
				r = append(r, scenario(s, w, -1, 0, 0, 0), scenario(s, w, -1, 1, 0, 0), scenario(s, w, -1, 2, 0, 0))
				for b := 0; b < nBehaviours; b++ {
					r = append(r, scenario(s, w, b, 3, 0, 0))
				}
				if w == "send" || w == "receive" {
					for b := 0; b < nBehaviours; b++ {
						r = append(r, scenario(s, w, b, 4, 0, 0), scenario(s, w, b, 5, -1, 0))
					}
				}
			}
		}
		return r
	})
}
