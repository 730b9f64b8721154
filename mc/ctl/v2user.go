package ctl

import (
	"context"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	g "verifmc/gen/ctl2"
)

type subV2User struct{ fn func(ch string) Handler }

func (s subV2User) SPlain(ctx context.Context, m g.PlainMessage) error {
	return s.fn("plain")(ctx, v2plain(m))
}
func (s subV2User) SCorr(ctx context.Context, m g.CorrMessage) error {
	return s.fn("corr")(ctx, v2corr(m))
}
func (s subV2User) SPar(ctx context.Context, m g.CorrMessage) error {
	return s.fn("par")(ctx, v2corr(m))
}

func newV2User(b extensions.BrokerController, o Opts) *C {
	var opts []g.ControllerOption
	if o.MW != nil {
		opts = append(opts, g.WithMiddlewares(o.MW...))
	}
	if o.EH != nil {
		opts = append(opts, g.WithErrorHandler(o.EH))
	}
	if o.Logger != nil {
		opts = append(opts, g.WithLogger(o.Logger))
	}
	c := must(g.NewUserController(b, opts...))
	return &C{
		Version: "1.2.3", Provider: "user", R: "s", W: "r", Raw: c,
		Sub: func(ctx context.Context, ch, x, z string, fn Handler) error {
			switch ch {
			case "plain":
				return c.SubscribeSPlain(ctx, wrap(fn, v2plain))
			case "corr":
				return c.SubscribeSCorr(ctx, wrap(fn, v2corr))
			case "par":
				return c.SubscribeSPar(ctx, g.SParParameters{X: x, Z: z}, wrap(fn, v2corr))
			}
			panic(ch)
		},
		Unsub: func(ctx context.Context, ch, x, z string) {
			switch ch {
			case "plain":
				c.UnsubscribeSPlain(ctx)
			case "corr":
				c.UnsubscribeSCorr(ctx)
			case "par":
				c.UnsubscribeSPar(ctx, g.SParParameters{X: x, Z: z})
			default:
				panic(ch)
			}
		},
		SubAll:   func(ctx context.Context, fn func(string) Handler) error { return c.SubscribeAll(ctx, subV2User{fn}) },
		UnsubAll: c.UnsubscribeAll,
		Close:    c.Close,
		Send: func(ctx context.Context, ch, x, z string, m Msg) error {
			switch ch {
			case "plain":
				return c.PublishRPlain(ctx, m.v2plain())
			case "corr":
				return c.PublishRCorr(ctx, m.v2corr())
			case "par":
				return c.PublishRPar(ctx, g.RParParameters{X: x, Z: z}, m.v2corr())
			}
			panic(ch)
		},
		// The request goes to r.corr, its reply is expected on s.corr
		Request: func(ctx context.Context, ch string, m Msg) (Msg, error) {
			q := m.v2corr()
			r, err := c.WaitForSCorr(ctx, &q, func(ctx context.Context) error { return c.PublishRCorr(ctx, q) })
			return v2corr(r), err
		},
		NewCorr: func() string { return g.NewCorrMessage().CorrelationID() },
	}
}
