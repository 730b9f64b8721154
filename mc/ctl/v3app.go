package ctl

import (
	"context"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	g "verifmc/gen/ctl3"
)

type subV3App struct{ fn func(ch string) Handler }

func (s subV3App) RPlainOperationReceived(ctx context.Context, m g.PlainMessage) error {
	return s.fn("plain")(ctx, v3plain(m))
}
func (s subV3App) RNcOperationReceived(ctx context.Context, m g.PlainMessage) error {
	return s.fn("nc")(ctx, v3plain(m))
}
func (s subV3App) RCorrOperationReceived(ctx context.Context, m g.CorrMessage) error {
	return s.fn("corr")(ctx, v3corr(m))
}
func (s subV3App) RParOperationReceived(ctx context.Context, m g.CorrMessage) error {
	return s.fn("par")(ctx, v3corr(m))
}
func (s subV3App) RDynOperationReceived(ctx context.Context, m g.DynMessage) error {
	return s.fn("dyn")(ctx, v3dyn(m))
}
func (s subV3App) RDynROperationReceived(ctx context.Context, m g.DynRMessage) error {
	return s.fn("dynr")(ctx, v3dynr(m))
}

func newV3App(b extensions.BrokerController, o Opts) *C {
	var opts []g.ControllerOption
	if o.MW != nil {
		opts = append(opts, g.WithMiddlewares(o.MW...))
	}
	if o.EH != nil {
		opts = append(opts, g.WithErrorHandler(o.EH))
	}
	if o.Logger != nil {
		opts = append(opts, g.WithLogger(o.Logger))
	}
	c := must(g.NewAppController(b, opts...))
	return &C{
		Version: "1.2.3", Provider: "app", R: "r", W: "s", Raw: c,
		Sub: func(ctx context.Context, ch, x, z string, fn Handler) error {
			switch ch {
			case "plain":
				return c.SubscribeToRPlainOperation(ctx, wrap(fn, v3plain))
			case "nc":
				return c.SubscribeToRNcOperation(ctx, wrap(fn, v3plain))
			case "corr":
				return c.SubscribeToRCorrOperation(ctx, wrap(fn, v3corr))
			case "dyn":
				return c.SubscribeToRDynOperation(ctx, wrap(fn, v3dyn))
			case "dynr":
				return c.SubscribeToRDynROperation(ctx, wrap(fn, v3dynr))
			case "par":
				return c.SubscribeToRParOperation(ctx, g.RParChannelParameters{X: x, Z: z}, wrap(fn, v3corr))
			}
			panic(ch)
		},
		Unsub: func(ctx context.Context, ch, x, z string) {
			switch ch {
			case "plain":
				c.UnsubscribeFromRPlainOperation(ctx)
			case "nc":
				c.UnsubscribeFromRNcOperation(ctx)
			case "corr":
				c.UnsubscribeFromRCorrOperation(ctx)
			case "dyn":
				c.UnsubscribeFromRDynOperation(ctx)
			case "dynr":
				c.UnsubscribeFromRDynROperation(ctx)
			case "par":
				c.UnsubscribeFromRParOperation(ctx, g.RParChannelParameters{X: x, Z: z})
			default:
				panic(ch)
			}
		},
		SubAll: func(ctx context.Context, fn func(string) Handler) error {
			return c.SubscribeToAllChannels(ctx, subV3App{fn})
		},
		UnsubAll: c.UnsubscribeFromAllChannels,
		Close:    c.Close,
		Send: func(ctx context.Context, ch, x, z string, m Msg) error {
			switch ch {
			case "plain":
				return c.SendAsSPlainOperation(ctx, m.v3plain())
			case "nc":
				return c.SendAsSNcOperation(ctx, m.v3plain())
			case "corr":
				return c.SendAsSCorrOperation(ctx, m.v3corr())
			case "dyn":
				return c.SendAsSDynOperation(ctx, m.v3dyn())
			case "dynr":
				return c.SendAsSDynROperation(ctx, m.v3dynr())
			case "par":
				return c.SendAsSParOperation(ctx, g.SParChannelParameters{X: x, Z: z}, m.v3corr())
			}
			panic(ch)
		},
		Request: func(ctx context.Context, ch string, m Msg) (Msg, error) {
			switch ch {
			case "nc":
				r, err := c.RequestAsSNcOperation(ctx, m.v3plain())
				return v3nc(r), err
			case "corr":
				r, err := c.RequestAsSCorrOperation(ctx, m.v3corr())
				return v3reply(r), err
			case "dyn":
				r, err := c.RequestAsSDynOperation(ctx, m.v3dyn())
				return v3reply(r), err
			case "dynr":
				r, err := c.RequestAsSDynROperation(ctx, m.v3dynr())
				return v3nc(r), err
			}
			panic(ch)
		},
		Reply: func(ctx context.Context, ch string, recv Msg, fn func(*Msg)) error {
			rfn := func(m *g.CorrReplyMessage) {
				x := v3reply(*m)
				fn(&x)
				*m = x.v3reply()
			}
			nfn := func(m *g.NcReplyMessage) {
				x := v3nc(*m)
				fn(&x)
				*m = x.v3nc()
			}
			switch ch {
			case "nc":
				return c.ReplyToRNcOperation(ctx, recv.v3plain(), nfn)
			case "corr":
				return c.ReplyToRCorrOperation(ctx, recv.v3corr(), rfn)
			case "dyn":
				return c.ReplyToRDynOperation(ctx, recv.v3dyn(), rfn)
			case "dynr":
				return c.ReplyToRDynROperation(ctx, recv.v3dynr(), nfn)
			}
			panic(ch)
		},
		SendReply: func(ctx context.Context, ch, addr string, m Msg) error {
			switch ch {
			case "nc":
				return c.SendAsReplyToRNcOperation(ctx, m.v3nc())
			case "corr":
				return c.SendAsReplyToRCorrOperation(ctx, m.v3reply())
			case "dyn":
				return c.SendAsReplyToRDynOperation(ctx, addr, m.v3reply())
			case "dynr":
				return c.SendAsReplyToRDynROperation(ctx, addr, m.v3nc())
			}
			panic(ch)
		},
		NewCorr: func() string { return g.NewCorrMessage().CorrelationID() },
	}
}
