// Package ctl gives one shape to the application and user controllers generated
// from specs/ctl2.yaml and specs/ctl3.yaml.
package ctl

import (
	"context"
	"fmt"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

// Msg is any of the generated messages.
type Msg struct {
	Text                string
	Num                 *float64
	Note, Corr, ReplyTo *string
}

// S returns a pointer to a string.
func S(s string) *string { return &s }

// P prints an optional string.
func P(s *string) string {
	if s == nil {
		return "-"
	}
	return *s
}

func (m Msg) String() string {
	return fmt.Sprintf("%s/%s/%s/%s", m.Text, P(m.Note), P(m.Corr), P(m.ReplyTo))
}

// Handler handles a received message.
type Handler func(ctx context.Context, m Msg) error

// Opts are the options of a controller.
type Opts struct {
	MW     []extensions.Middleware
	EH     extensions.ErrorHandler
	Logger extensions.Logger
}

// C is one controller. Channels are named plain, corr, par, nc, dyn and dynr; x and
// z are the parameters of par.
type C struct {
	Version, Provider string
	// R and W prefix the addresses of received and sent messages.
	R, W string
	Raw  any

	Sub      func(ctx context.Context, ch, x, z string, fn Handler) error
	Unsub    func(ctx context.Context, ch, x, z string)
	SubAll   func(ctx context.Context, fn func(ch string) Handler) error
	UnsubAll func(ctx context.Context)
	Close    func(ctx context.Context)
	Send     func(ctx context.Context, ch, x, z string, m Msg) error
	// Request sends on ch and waits for the reply.
	Request func(ctx context.Context, ch string, m Msg) (Msg, error)
	// Reply answers a received message; SendReply sends a reply built by hand.
	Reply     func(ctx context.Context, ch string, recv Msg, fn func(*Msg)) error
	SendReply func(ctx context.Context, ch, addr string, m Msg) error
	// NewCorr is the correlation identifier of a message built by its constructor.
	NewCorr func() string
}

// Side is a kind of controller.
type Side struct {
	Name     string
	New      func(b extensions.BrokerController, o Opts) *C
	Requests []string // channels supporting Request
	All      []string // channels of subscribe-all
}

// Addr is the address of a channel.
func Addr(prefix, ch, x, z string) string {
	if ch == "par" {
		return prefix + ".par." + x + "." + z
	}
	return prefix + "." + ch
}

// ReplyAddr is the fixed reply address of a channel.
func ReplyAddr(prefix, ch string) string { return prefix + "." + ch + ".reply" }

// Sides lists all the controllers.
var Sides = []Side{
	{"v2app", newV2App, nil, []string{"corr", "plain"}},
	{"v2user", newV2User, []string{"corr"}, []string{"corr", "plain"}},
	{"v3app", newV3App, []string{"corr", "nc", "dyn", "dynr"}, []string{"corr", "dyn", "dynr", "nc", "plain"}},
	{"v3user", newV3User, []string{"corr", "nc", "dyn", "dynr"}, []string{"corr", "dyn", "dynr", "nc", "plain"}},
}

// ByName finds a side.
func ByName(n string) Side {
	for _, s := range Sides {
		if s.Name == n {
			return s
		}
	}
	panic(n)
}

func must[T any](v T, err error) T {
	if err != nil {
		panic(err)
	}
	return v
}

func deref(s *string) string {
	if s == nil {
		return ""
	}
	return *s
}

func wrap[T any](fn Handler, conv func(T) Msg) func(context.Context, T) error {
	return func(ctx context.Context, m T) error { return fn(ctx, conv(m)) }
}
