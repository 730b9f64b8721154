// Package fake is an in-memory broker controller that records what reaches it.
package fake

import (
	"context"
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifmc/explore"
)

// Ack records decisions in the history.
type Ack struct{ ID string }

// AckMessage implements extensions.BrokerAcknowledgment.
func (a Ack) AckMessage() { explore.Log("ack", a.ID) }

// NakMessage implements extensions.BrokerAcknowledgment.
func (a Ack) NakMessage() { explore.Log("nak", a.ID) }

// Broker is the in-memory broker controller.
type Broker struct {
	mu   sync.Mutex
	subs []*Sub
	n    int
	// SubErr and PubErr, when set, decide failures.
	SubErr func(channel string) error
	PubErr func(channel string) error
	// OnPublish is called (unlocked) after a successful publication was recorded.
	OnPublish func(ctx context.Context, channel string, m extensions.BrokerMessage)
	Cap       int
	// Bound: as with Kafka, nothing is received any more when the context given on
	// subscription has ended.
	Bound bool
	NoLog bool
	// OnRelease is called when a subscription is cleaned up.
	OnRelease func(channel string)
	Published []Pub
}

// Pub is a recorded publication.
type Pub struct {
	Ctx     context.Context
	Channel string
	Msg     extensions.BrokerMessage
}

// Sub is one open subscription.
type Sub struct {
	Channel string
	Sub     extensions.BrokerChannelSubscription
	Open    bool
	Ctx     context.Context
}

// New returns a broker whose queues hold 8 messages.
func New() *Broker { return &Broker{Cap: 8} }

// Str prints a broker message.
func Str(m extensions.BrokerMessage) string {
	var k []string
	for h, v := range m.Headers {
		k = append(k, fmt.Sprintf("%s=%q", h, v))
	}
	sort.Strings(k)
	return fmt.Sprintf("%q[%s]", m.Payload, strings.Join(k, ","))
}

// Publish implements extensions.BrokerController.
//
//go:noinline
func (b *Broker) Publish(ctx context.Context, channel string, m extensions.BrokerMessage) error {
	if b.PubErr != nil {
		if err := b.PubErr(channel); err != nil {
			b.log("publish-failed", channel)
			return err
		}
	}
	h := map[string][]byte{}
	for k, v := range m.Headers {
		h[k] = append([]byte(nil), v...)
	}
	if m.Headers == nil {
		h = nil
	}
	b.mu.Lock()
	b.Published = append(b.Published, Pub{ctx, channel, extensions.BrokerMessage{Headers: h, Payload: append([]byte(nil), m.Payload...)}})
	b.mu.Unlock()
	b.log("publish", channel, Str(m))
	if b.OnPublish != nil {
		b.OnPublish(ctx, channel, m)
	}
	return nil
}

func (b *Broker) log(k string, a ...any) {
	if !b.NoLog {
		explore.Log(k, a...)
	}
}

// Subscribe implements extensions.BrokerController.
//
//go:noinline
func (b *Broker) Subscribe(ctx context.Context, channel string) (extensions.BrokerChannelSubscription, error) {
	if b.SubErr != nil {
		if err := b.SubErr(channel); err != nil {
			b.log("subscribe-failed", channel)
			return extensions.BrokerChannelSubscription{}, err
		}
	}
	s := &Sub{Channel: channel, Open: true, Ctx: ctx, Sub: extensions.NewBrokerChannelSubscription(
		make(chan extensions.AcknowledgeableBrokerMessage, b.Cap), make(chan any, 1))}
	b.mu.Lock()
	b.subs = append(b.subs, s)
	b.mu.Unlock()
	b.log("open", channel)
	s.Sub.WaitForCancellationAsync(func() {
		b.mu.Lock()
		s.Open = false
		b.mu.Unlock()
		b.log("release", channel)
		if b.OnRelease != nil {
			b.OnRelease(channel)
		}
	})
	return s.Sub, nil
}

// OpenSubs lists the open subscriptions of a channel ("" for all).
func (b *Broker) OpenSubs(channel string) []*Sub {
	b.mu.Lock()
	defer b.mu.Unlock()
	var r []*Sub
	for _, s := range b.subs {
		if s.Open && (channel == "" || s.Channel == channel) {
			r = append(r, s)
		}
	}
	return r
}

// Deliver hands a message to the open subscriptions of a channel.
//
//go:noinline
func (b *Broker) Deliver(channel, id string, m extensions.BrokerMessage) int {
	l := b.OpenSubs(channel)
	for _, s := range l {
		if b.Bound && s.Ctx.Err() != nil {
			continue
		}
		s.Sub.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(m, Ack{id}))
	}
	return len(l)
}

// DeliverEach is Deliver with one acknowledgement per subscription, "id@n" (n: rank of
// the subscription on that channel since the beginning).
//
//go:noinline
func (b *Broker) DeliverEach(channel, id string, m extensions.BrokerMessage) {
	b.mu.Lock()
	var l []*Sub
	var ids []string
	n := 0
	for _, s := range b.subs {
		if s.Channel == channel {
			if s.Open {
				l = append(l, s)
				ids = append(ids, fmt.Sprintf("%s@%d", id, n))
			}
			n++
		}
	}
	b.mu.Unlock()
	for i, s := range l {
		s.Sub.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(m, Ack{ids[i]}))
	}
}
