package ctl

import (
	"context"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	g "verifmc/gen/ctl2"
)

type subV2App struct{ fn func(ch string) Handler }

func (s subV2App) RPlain(ctx context.Context, m g.PlainMessage) error {
	return s.fn("plain")(ctx, v2plain(m))
}
func (s subV2App) RCorr(ctx context.Context, m g.CorrMessage) error {
	return s.fn("corr")(ctx, v2corr(m))
}
func (s subV2App) RPar(ctx context.Context, m g.CorrMessage) error {
	return s.fn("par")(ctx, v2corr(m))
}

func newV2App(b extensions.BrokerController, o Opts) *C {
	var opts []g.ControllerOption
	if o.MW != nil {
		opts = append(opts, g.WithMiddlewares(o.MW...))
	}
	if o.EH != nil {
		opts = append(opts, g.WithErrorHandler(o.EH))
	}
	if o.Logger != nil {
		opts = append(opts, g.WithLogger(o.Logger))
	}
	c := must(g.NewAppController(b, opts...))
	return &C{
		Version: "1.2.3", Provider: "app", R: "r", W: "s", Raw: c,
		Sub: func(ctx context.Context, ch, x, z string, fn Handler) error {
			switch ch {
			case "plain":
				return c.SubscribeRPlain(ctx, wrap(fn, v2plain))
			case "corr":
				return c.SubscribeRCorr(ctx, wrap(fn, v2corr))
			case "par":
				return c.SubscribeRPar(ctx, g.RParParameters{X: x, Z: z}, wrap(fn, v2corr))
			}
			panic(ch)
		},
		Unsub: func(ctx context.Context, ch, x, z string) {
			switch ch {
			case "plain":
				c.UnsubscribeRPlain(ctx)
			case "corr":
				c.UnsubscribeRCorr(ctx)
			case "par":
				c.UnsubscribeRPar(ctx, g.RParParameters{X: x, Z: z})
			default:
				panic(ch)
			}
		},
		SubAll:   func(ctx context.Context, fn func(string) Handler) error { return c.SubscribeAll(ctx, subV2App{fn}) },
		UnsubAll: c.UnsubscribeAll,
		Close:    c.Close,
		Send: func(ctx context.Context, ch, x, z string, m Msg) error {
			switch ch {
			case "plain":
				return c.PublishSPlain(ctx, m.v2plain())
			case "corr":
				return c.PublishSCorr(ctx, m.v2corr())
			case "par":
				return c.PublishSPar(ctx, g.SParParameters{X: x, Z: z}, m.v2corr())
			}
			panic(ch)
		},
		NewCorr: func() string { return g.NewCorrMessage().CorrelationID() },
	}
}
