// P31: messages, context values and errors are told apart exactly.
package main

import (
	"context"
	"errors"
	"fmt"
	"reflect"
	"sort"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi/parser"
	asyncapiv2 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v2"
	asyncapiv3 "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"verifmc/enum"
)

var contents = [][]byte{nil, {}, []byte("p"), []byte(`{"a":1}`), []byte("\n\""), {0, 0xff}, []byte("é%s")}

// headers: every choice of values for up to three keys.
func headers() (all []map[string][]byte) {
	all = []map[string][]byte{nil}
	keys := []string{"a", "", "k\"é,:"}
	vals := [][]byte{nil, {}, []byte("v"), []byte(`x","y`)}
	for n := 0; n < 5*5*5; n++ {
		m := map[string][]byte{}
		for i, c := 0, n; i < 3; i, c = i+1, c/5 {
			if c%5 > 0 {
				m[keys[i]] = vals[c%5-1]
			}
		}
		all = append(all, m)
	}
	return all
}

func clone(m map[string][]byte) map[string][]byte {
	if m == nil {
		return nil
	}
	r := map[string][]byte{}
	for k, v := range m {
		r[k] = v
	}
	return r
}

func messages(e *enum.E) {
	e.Section("messages")
	for _, h := range headers() {
		h := h
		for _, p := range contents {
			p := p
			m := extensions.BrokerMessage{Headers: h, Payload: p}
			e.Case(fmt.Sprintf("headers %q (nil: %t) payload %q (nil: %t)", h, h == nil, p, p == nil), func() (fails []string, _ bool) {
				before := clone(h)
				if got, want := m.IsUninitialized(), h == nil && p == nil; got != want {
					fails = append(fails, fmt.Sprintf("uninitialised: %t", got))
				}
				if got, want := extensions.NewAcknowledgeableBrokerMessage(m, nil).IsUninitialized(), h == nil && p == nil; got != want {
					fails = append(fails, fmt.Sprintf("uninitialised when it can be acknowledged: %t", got))
				}
				var parts []string
				for k, v := range h {
					parts = append(parts, fmt.Sprintf("%q:%q", k, string(v)))
				}
				sort.Strings(parts)
				for _, s := range []string{m.String(), fmt.Sprintf("%s", m), fmt.Sprintf("%v", m)} {
					// the headers come in any order
					rest, ok := s, true
					var head string
					if len(h) > 0 {
						rest, ok = strings.CutPrefix(s, `{"headers":{`)
						end := `},"payload":` + string(p) + `}`
						if !ok || !strings.HasSuffix(rest, end) {
							fails = append(fails, fmt.Sprintf("printed as %q", s))
							continue
						}
						head = strings.TrimSuffix(rest, end)
						if !permutation(head, parts) {
							fails = append(fails, fmt.Sprintf("printed as %q, headers are %q", s, parts))
						}
					} else if s != `{"payload":`+string(p)+`}` {
						fails = append(fails, fmt.Sprintf("printed as %q", s))
					}
				}
				if !reflect.DeepEqual(before, h) {
					fails = append(fails, "the message has changed")
				}
				return fails, true
			})
		}
	}
}

// permutation tells if s is the parts in some order, separated by commas.
func permutation(s string, parts []string) bool {
	if len(parts) == 0 {
		return s == ""
	}
	for i, p := range parts {
		rest, ok := strings.CutPrefix(s, p)
		if !ok {
			continue
		}
		others := append(append([]string(nil), parts[:i]...), parts[i+1:]...)
		if len(others) == 0 {
			if rest == "" {
				return true
			}
			continue
		}
		if rest, ok := strings.CutPrefix(rest, ","); ok && permutation(rest, others) {
			return true
		}
	}
	return false
}

type other string

type pair struct{ a, b int }

// ask runs the helpers for one type.
func ask[T comparable](name string, ctx context.Context, key extensions.ContextKey, expected []T) (fails []string) {
	v := ctx.Value(key)
	want, is := v.(T)
	calls, inside := 0, false
	extensions.IfContextSetWith(ctx, key, func(got T) {
		calls++
		inside = true
		if any(got) != any(want) {
			fails = append(fails, fmt.Sprintf("%s: called with %v, want %v", name, got, want))
		}
	})
	if (calls == 1) != is || calls > 1 || inside != is {
		fails = append(fails, fmt.Sprintf("%s: the function of a set value is called %d times, set with this type: %t", name, calls, is))
	}
	calls = 0
	extensions.IfContextNotSetWith[T](ctx, key, func() { calls++ })
	if (calls == 1) != (v == nil) || calls > 1 {
		fails = append(fails, fmt.Sprintf("%s: the function of a missing value is called %d times, set: %t", name, calls, v != nil))
	}
	for _, x := range expected {
		calls = 0
		extensions.IfContextValueEquals(ctx, key, x, func() { calls++ })
		if eq := is && want == x; (calls == 1) != eq || calls > 1 {
			fails = append(fails, fmt.Sprintf("%s: the function of the value %v is called %d times, equal: %t", name, x, calls, eq))
		}
	}
	return fails
}

func contexts(e *enum.E) {
	e.Section("context values")
	ps := new(string)
	*ps = "A"
	values := []any{nil, "", "A", "a", "asyncapi-channel", other("A"), 0, 1, int64(1), true, ps, (*string)(nil), pair{1, 2}, extensions.ContextKeyIsChannel,
		errors.New("x"), extensions.BrokerMessage{}.Payload == nil, 'A', 1.0}
	keys := []extensions.ContextKey{extensions.ContextKeyIsVersion, extensions.ContextKeyIsProvider, extensions.ContextKeyIsChannel, extensions.ContextKeyIsDirection,
		extensions.ContextKeyIsBrokerMessage, extensions.ContextKeyIsCorrelationID, "", "other"}
	// what surrounds the value
	type around struct {
		name string
		f    func(ctx context.Context, k extensions.ContextKey) context.Context
	}
	same := func(ctx context.Context, _ extensions.ContextKey) context.Context { return ctx }
	layers := []around{
		{"-", same},
		{"another key", func(ctx context.Context, k extensions.ContextKey) context.Context {
			return context.WithValue(ctx, k+"x", "A")
		}},
		{"the text of the key", func(ctx context.Context, k extensions.ContextKey) context.Context {
			return context.WithValue(ctx, string(k), "A")
		}},
		{"the text in another type", func(ctx context.Context, k extensions.ContextKey) context.Context {
			return context.WithValue(ctx, other(k), "A")
		}},
		{"end", func(ctx context.Context, _ extensions.ContextKey) context.Context {
			ctx, end := context.WithCancel(ctx)
			end()
			return ctx
		}},
		{"the same key", func(ctx context.Context, k extensions.ContextKey) context.Context {
			return context.WithValue(ctx, k, "A")
		}},
		{"the same key, number", func(ctx context.Context, k extensions.ContextKey) context.Context {
			return context.WithValue(ctx, k, 1)
		}},
	}
	for _, k := range keys {
		k := k
		for _, before := range layers {
			for i := -1; i < len(values); i++ {
				for _, after := range layers {
					ctx := before.f(context.Background(), k)
					in := "not set"
					if i >= 0 {
						ctx = context.WithValue(ctx, k, values[i])
						in = fmt.Sprintf("%T %v", values[i], values[i])
						if values[i] == any(ps) {
							in = "pointer"
						}
					}
					ctx = after.f(ctx, k)
					e.Case(fmt.Sprintf("key %q: %s, inside: %s, outside: %s", k, in, before.name, after.name), func() (fails []string, _ bool) {
						fails = append(fails, ask("string", ctx, k, []string{"", "A", "a", "asyncapi-channel"})...)
						fails = append(fails, ask("other", ctx, k, []other{"", "A"})...)
						fails = append(fails, ask("int", ctx, k, []int{0, 1})...)
						fails = append(fails, ask("int64", ctx, k, []int64{0, 1})...)
						fails = append(fails, ask("bool", ctx, k, []bool{false, true})...)
						fails = append(fails, ask("*string", ctx, k, []*string{nil, ps})...)
						fails = append(fails, ask("pair", ctx, k, []pair{{}, {1, 2}})...)
						fails = append(fails, ask("key", ctx, k, []extensions.ContextKey{"", extensions.ContextKeyIsChannel})...)
						fails = append(fails, ask("error", ctx, k, []error{nil})...)
						fails = append(fails, ask("any", ctx, k, []any{nil, "A", 1, 0, "", true})...)
						fails = append(fails, ask("stringer", ctx, k, []fmt.Stringer{nil, extensions.ContextKeyIsChannel})...)
						return fails, true
					})
				}
			}
		}
	}

	e.Section("keys")
	for i, a := range keys {
		i, a := i, a
		for j, b := range keys {
			j, b := j, b
			e.Case(fmt.Sprintf("%q %q", a, b), func() (fails []string, _ bool) {
				ctx := context.WithValue(context.Background(), a, "A")
				if found := ctx.Value(b) != nil; found != (i == j) {
					fails = append(fails, fmt.Sprintf("value of the first found under the second: %t", found))
				}
				if a.String() != string(a) || (i < 6 && !strings.HasPrefix(a.String(), extensions.Prefix)) {
					fails = append(fails, fmt.Sprintf("printed as %q", a.String()))
				}
				return fails, true
			})
		}
	}
}

func errs(e *enum.E) {
	e.Section("errors")
	all := map[string]error{
		"ErrContextCanceled": extensions.ErrContextCanceled, "ErrNilBrokerController": extensions.ErrNilBrokerController,
		"ErrNilAppSubscriber": extensions.ErrNilAppSubscriber, "ErrNilUserSubscriber": extensions.ErrNilUserSubscriber,
		"ErrAlreadySubscribedChannel": extensions.ErrAlreadySubscribedChannel, "ErrSubscriptionCanceled": extensions.ErrSubscriptionCanceled,
		"ErrNoCorrelationIDSet": extensions.ErrNoCorrelationIDSet, "ErrChannelAddressEmpty": extensions.ErrChannelAddressEmpty,
		"ErrNoVersion": versioning.ErrNoVersion, "ErrInvalidFileFormat": parser.ErrInvalidFileFormat, "ErrInvalidVersion": parser.ErrInvalidVersion,
		"ErrInvalidContent": parser.ErrInvalidContent, "v2 ErrInvalidReference": asyncapiv2.ErrInvalidReference, "v3 ErrInvalidReference": asyncapiv3.ErrInvalidReference,
		"ErrNoMessageInChannel": asyncapiv3.ErrNoMessageInChannel, "ErrNoChannelInOperation": asyncapiv3.ErrNoChannelInOperation, "ErrNoAddressInReply": asyncapiv3.ErrNoAddressInReply,
	}
	var names []string
	for n := range all {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, a := range names {
		a := a
		for _, b := range names {
			b := b
			e.Case(a+" "+b, func() (fails []string, _ bool) {
				wrapped := fmt.Errorf("around: %w", all[a])
				if !errors.Is(wrapped, extensions.ErrAsyncAPI) {
					fails = append(fails, "it is not an AsyncAPI error")
				}
				if is := errors.Is(wrapped, all[b]); is != (a == b) {
					fails = append(fails, fmt.Sprintf("the first is the second: %t", is))
				}
				if errors.Is(extensions.ErrAsyncAPI, all[a]) || errors.Is(all[a], context.Canceled) {
					fails = append(fails, "it is mistaken for another error")
				}
				return fails, true
			})
		}
	}
}

func main() {
	enum.Main(func(e *enum.E) {
		messages(e)
		contexts(e)
		errs(e)
	})
}
