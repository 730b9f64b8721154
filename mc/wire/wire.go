// Package wire sends and receives messages with generated controllers, through a
// broker which only keeps what is given to it.
package wire

import (
	"context"
	"fmt"
	"reflect"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

// Reg gives the constructors of the controllers of a generated package.
type Reg struct {
	App, User func(extensions.BrokerController, extensions.ErrorHandler) (any, error)
}

// Broker keeps what is given to it.
type Broker struct {
	Addr      string // of the last publication
	Last      *extensions.BrokerMessage
	Subs      map[string]extensions.BrokerChannelSubscription
	Published int
	Ctx       context.Context // of the last publication
	// OnPublish is called once the message is kept
	OnPublish func(queue string, m extensions.BrokerMessage)
}

// Publish implements BrokerController.
func (b *Broker) Publish(ctx context.Context, queue string, m extensions.BrokerMessage) error {
	b.Addr, b.Last, b.Ctx = queue, &m, ctx
	b.Published++
	if b.OnPublish != nil {
		b.OnPublish(queue, m)
	}
	return nil
}

// Subscribe implements BrokerController.
func (b *Broker) Subscribe(_ context.Context, queue string) (extensions.BrokerChannelSubscription, error) {
	s := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, 4), make(chan any, 1))
	b.Subs[queue] = s
	s.WaitForCancellationAsync(func() { delete(b.Subs, queue) })
	return s, nil
}

// Codec sends and receives the messages of one operation.
type Codec struct {
	T          reflect.Type // of the message
	B          *Broker
	Send, Recv reflect.Value
	Params     reflect.Value // given with the operations, if valid
	Unsub      reflect.Value
	From, To   reflect.Value   // the controllers
	RecvCtx    context.Context // of the last message received
	got        chan result
	open       bool
}

type result struct {
	msg reflect.Value
	err error
	ctx context.Context
}

// Method of one of the names.
func Method(v reflect.Value, names ...string) reflect.Value { return method(v, names...) }

// Transmit a message to a subscription.
func Transmit(s extensions.BrokerChannelSubscription, m extensions.BrokerMessage) {
	s.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(m, ack{}))
}

type ack struct{}

func (ack) AckMessage() {}
func (ack) NakMessage() {}

func method(v reflect.Value, names ...string) reflect.Value {
	for _, n := range names {
		if m := v.MethodByName(n); m.IsValid() {
			return m
		}
	}
	var all []string
	for i := 0; i < v.NumMethod(); i++ {
		all = append(all, v.Type().Method(i).Name)
	}
	panic(fmt.Sprintf("no method %v in %s", names, strings.Join(all, " ")))
}

// New gives the codec of the i-th operation.
func New(r Reg, i int) *Codec {
	c := &Codec{B: &Broker{Subs: map[string]extensions.BrokerChannelSubscription{}}, got: make(chan result, 1)}
	handler := func(_ context.Context, _ string, _ *extensions.AcknowledgeableBrokerMessage, err error) {
		c.got <- result{err: err}
	}
	app, err := r.App(c.B, handler)
	if err != nil {
		panic(err)
	}
	user, err := r.User(c.B, handler)
	if err != nil {
		panic(err)
	}
	from, to := reflect.ValueOf(app), reflect.ValueOf(user)
	if to.MethodByName(fmt.Sprintf("SendToOp%dOperation", i)).IsValid() || to.MethodByName(fmt.Sprintf("PublishOp%d", i)).IsValid() {
		from, to = to, from
	}
	c.From, c.To = from, to
	c.Send = method(from, fmt.Sprintf("SendAsOp%dOperation", i), fmt.Sprintf("SendToOp%dOperation", i), fmt.Sprintf("PublishOp%d", i))
	c.Recv = method(to, fmt.Sprintf("SubscribeToOp%dOperation", i), fmt.Sprintf("SubscribeOp%d", i))
	c.Unsub = method(to, fmt.Sprintf("UnsubscribeFromOp%dOperation", i), fmt.Sprintf("UnsubscribeOp%d", i))
	t := c.Send.Type()
	c.T = t.In(t.NumIn() - 1)
	return c
}

func errOf(out []reflect.Value) error {
	if e := out[len(out)-1]; !e.IsNil() {
		return e.Interface().(error)
	}
	return nil
}

func (c *Codec) args() []reflect.Value {
	out := []reflect.Value{reflect.ValueOf(context.Background())}
	if c.Params.IsValid() {
		out = append(out, c.Params)
	}
	return out
}

// Encode gives what the broker gets when the message is sent.
func (c *Codec) Encode(msg reflect.Value) (extensions.BrokerMessage, error) {
	c.B.Last = nil
	args := c.args()
	if err := errOf(c.Send.Call(append(args, msg))); err != nil {
		return extensions.BrokerMessage{}, err
	}
	if c.B.Last == nil {
		return extensions.BrokerMessage{}, fmt.Errorf("nothing was sent, and there was no error")
	}
	return *c.B.Last, nil
}

// Decode gives what the other side gets from the broker's message.
func (c *Codec) Decode(m extensions.BrokerMessage) (reflect.Value, error) {
	if !c.open {
		c.Subscribe()
	}
	for _, s := range c.B.Subs {
		s.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(m, ack{}))
	}
	r := <-c.got
	c.RecvCtx = r.ctx
	return r.msg, r.err
}

// Unsubscribe with the current parameters.
func (c *Codec) Unsubscribe() {
	c.Unsub.Call(c.args())
}

// DecodeFrom is Decode, for a message at an address.
func (c *Codec) DecodeFrom(addr string, m extensions.BrokerMessage) (reflect.Value, error) {
	c.B.Subs[addr].TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(m, ack{}))
	r := <-c.got
	c.RecvCtx = r.ctx
	return r.msg, r.err
}

// Subscribe with the current parameters.
func (c *Codec) Subscribe() {
	t := c.Recv.Type()
	fn := reflect.MakeFunc(t.In(t.NumIn()-1), func(args []reflect.Value) []reflect.Value {
		ctx, _ := args[0].Interface().(context.Context)
		c.got <- result{msg: args[len(args)-1], ctx: ctx}
		ft := t.In(t.NumIn() - 1)
		if ft.NumOut() == 0 {
			return nil
		}
		return []reflect.Value{reflect.Zero(ft.Out(0))}
	})
	if err := errOf(c.Recv.Call(append(c.args(), fn))); err != nil {
		panic(err)
	}
	c.open = true
}
