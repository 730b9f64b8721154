package ctl

import (
	"context"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	g "verifmc/gen/ctl3"
)

type subV3User struct{ fn func(ch string) Handler }

func (s subV3User) SPlainOperationReceived(ctx context.Context, m g.PlainMessage) error {
	return s.fn("plain")(ctx, v3plain(m))
}
func (s subV3User) SNcOperationReceived(ctx context.Context, m g.PlainMessage) error {
	return s.fn("nc")(ctx, v3plain(m))
}
func (s subV3User) SCorrOperationReceived(ctx context.Context, m g.CorrMessage) error {
	return s.fn("corr")(ctx, v3corr(m))
}
func (s subV3User) SParOperationReceived(ctx context.Context, m g.CorrMessage) error {
	return s.fn("par")(ctx, v3corr(m))
}
func (s subV3User) SDynOperationReceived(ctx context.Context, m g.DynMessage) error {
	return s.fn("dyn")(ctx, v3dyn(m))
}
func (s subV3User) SDynROperationReceived(ctx context.Context, m g.DynRMessage) error {
	return s.fn("dynr")(ctx, v3dynr(m))
}

func newV3User(b extensions.BrokerController, o Opts) *C {
	var opts []g.ControllerOption
	if o.MW != nil {
		opts = append(opts, g.WithMiddlewares(o.MW...))
	}
	if o.EH != nil {
		opts = append(opts, g.WithErrorHandler(o.EH))
	}
	if o.Logger != nil {
		opts = append(opts, g.WithLogger(o.Logger))
	}
	c := must(g.NewUserController(b, opts...))
	return &C{
		Version: "1.2.3", Provider: "user", R: "s", W: "r", Raw: c,
		Sub: func(ctx context.Context, ch, x, z string, fn Handler) error {
			switch ch {
			case "plain":
				return c.SubscribeToSPlainOperation(ctx, wrap(fn, v3plain))
			case "nc":
				return c.SubscribeToSNcOperation(ctx, wrap(fn, v3plain))
			case "corr":
				return c.SubscribeToSCorrOperation(ctx, wrap(fn, v3corr))
			case "dyn":
				return c.SubscribeToSDynOperation(ctx, wrap(fn, v3dyn))
			case "dynr":
				return c.SubscribeToSDynROperation(ctx, wrap(fn, v3dynr))
			case "par":
				return c.SubscribeToSParOperation(ctx, g.SParChannelParameters{X: x, Z: z}, wrap(fn, v3corr))
			}
			panic(ch)
		},
		Unsub: func(ctx context.Context, ch, x, z string) {
			switch ch {
			case "plain":
				c.UnsubscribeFromSPlainOperation(ctx)
			case "nc":
				c.UnsubscribeFromSNcOperation(ctx)
			case "corr":
				c.UnsubscribeFromSCorrOperation(ctx)
			case "dyn":
				c.UnsubscribeFromSDynOperation(ctx)
			case "dynr":
				c.UnsubscribeFromSDynROperation(ctx)
			case "par":
				c.UnsubscribeFromSParOperation(ctx, g.SParChannelParameters{X: x, Z: z})
			default:
				panic(ch)
			}
		},
		SubAll: func(ctx context.Context, fn func(string) Handler) error {
			return c.SubscribeToAllChannels(ctx, subV3User{fn})
		},
		UnsubAll: c.UnsubscribeFromAllChannels,
		Close:    c.Close,
		Send: func(ctx context.Context, ch, x, z string, m Msg) error {
			switch ch {
			case "plain":
				return c.SendToRPlainOperation(ctx, m.v3plain())
			case "nc":
				return c.SendToRNcOperation(ctx, m.v3plain())
			case "corr":
				return c.SendToRCorrOperation(ctx, m.v3corr())
			case "dyn":
				return c.SendToRDynOperation(ctx, m.v3dyn())
			case "dynr":
				return c.SendToRDynROperation(ctx, m.v3dynr())
			case "par":
				return c.SendToRParOperation(ctx, g.RParChannelParameters{X: x, Z: z}, m.v3corr())
			}
			panic(ch)
		},
		Request: func(ctx context.Context, ch string, m Msg) (Msg, error) {
			switch ch {
			case "nc":
				r, err := c.RequestToRNcOperation(ctx, m.v3plain())
				return v3nc(r), err
			case "corr":
				r, err := c.RequestToRCorrOperation(ctx, m.v3corr())
				return v3reply(r), err
			case "dyn":
				r, err := c.RequestToRDynOperation(ctx, m.v3dyn())
				return v3reply(r), err
			case "dynr":
				r, err := c.RequestToRDynROperation(ctx, m.v3dynr())
				return v3nc(r), err
			}
			panic(ch)
		},
		Reply: func(ctx context.Context, ch string, recv Msg, fn func(*Msg)) error {
			rfn := func(m *g.CorrReplyMessage) {
				x := v3reply(*m)
				fn(&x)
				*m = x.v3reply()
			}
			nfn := func(m *g.NcReplyMessage) {
				x := v3nc(*m)
				fn(&x)
				*m = x.v3nc()
			}
			switch ch {
			case "nc":
				return c.ReplyToSNcOperation(ctx, recv.v3plain(), nfn)
			case "corr":
				return c.ReplyToSCorrOperation(ctx, recv.v3corr(), rfn)
			case "dyn":
				return c.ReplyToSDynOperation(ctx, recv.v3dyn(), rfn)
			case "dynr":
				return c.ReplyToSDynROperation(ctx, recv.v3dynr(), nfn)
			}
			panic(ch)
		},
		SendReply: func(ctx context.Context, ch, addr string, m Msg) error {
			switch ch {
			case "nc":
				return c.SendToReplyToSNcOperation(ctx, m.v3nc())
			case "corr":
				return c.SendToReplyToSCorrOperation(ctx, m.v3reply())
			case "dyn":
				return c.SendToReplyToSDynOperation(ctx, addr, m.v3reply())
			case "dynr":
				return c.SendToReplyToSDynROperation(ctx, addr, m.v3nc())
			}
			panic(ch)
		},
		NewCorr: func() string { return g.NewCorrMessage().CorrelationID() },
	}
}
