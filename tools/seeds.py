# Definitions of the planted bugs (built into seeded/ by seed.py).
HEAD = '''#!/bin/bash
# run in the repository; exit 0: the property holds
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX); trap 'rm -rf "$T"' EXIT
export PATH=/opt/veriftools/go1.24.13/bin:$PATH GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
unset GOROOT GOWORK
'''
# a main program in the repository's module
MAIN = HEAD + '''echo "{\\"Replace\\":{\\"$PWD/zzdemo/main.go\\":\\"$D/main.go\\"}}" > "$T/o.json"
go build -overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 3
timeout 60 "$T/demo"
'''
# the same, with code generated from spec.yaml as package zzdemo/gen
def GEN(opts="", spec="spec.yaml", build=""):
    return HEAD + f'''go run ./cmd/asyncapi-codegen -i "$D/{spec}" -p gen -o "$T/gen.go" {opts} || exit 3
echo "{{\\"Replace\\":{{\\"$PWD/zzdemo/main.go\\":\\"$D/main.go\\",\\"$PWD/zzdemo/gen/gen.go\\":\\"$T/gen.go\\"}}}}" > "$T/o.json"
go build -overlay "$T/o.json" -o "$T/demo" ./zzdemo || exit 3
timeout 60 "$T/demo"
'''
# a test inside a package
def TEST(pkg):
    return HEAD + f'''echo "{{\\"Replace\\":{{\\"$PWD/{pkg}/zzdemo_test.go\\":\\"$D/zzdemo_test.go\\"}}}}" > "$T/o.json"
go test -count=1 -vet=off -timeout 60s -run TestZZDemo -overlay "$T/o.json" ./{pkg}
'''
CHECKER = '''
func check(ok bool, format string, a ...any) {
	if !ok {
		fmt.Printf("FAIL: "+format+"\\n", a...)
		os.Exit(1)
	}
}
'''
BROKER = '''package main

import (
	"context"
	"fmt"
	"os"
	"sync"
	"time"
	"errors"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/zzdemo/gen"
)

var _ = errors.New
var _ = time.Now

type broker struct {
	mu           sync.Mutex
	subs         map[string]extensions.BrokerChannelSubscription
	log          []string
	fail         error
	onPublish    func(ctx context.Context, ch string, m extensions.BrokerMessage)
	onSubscribed func(ch string)
}

func (b *broker) add(format string, a ...any) {
	b.mu.Lock()
	b.log = append(b.log, fmt.Sprintf(format, a...))
	b.mu.Unlock()
}

func (b *broker) Publish(ctx context.Context, ch string, m extensions.BrokerMessage) error {
	b.add("publish %s", ch)
	if b.onPublish != nil {
		b.onPublish(ctx, ch, m)
	}
	return b.fail
}

func (b *broker) Subscribe(ctx context.Context, ch string) (extensions.BrokerChannelSubscription, error) {
	b.add("subscribe %s", ch)
	if b.fail != nil {
		return extensions.BrokerChannelSubscription{}, b.fail
	}
	s := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, 16), make(chan any, 1))
	s.WaitForCancellationAsync(func() { b.add("cancel %s", ch) })
	b.mu.Lock()
	if b.subs == nil {
		b.subs = map[string]extensions.BrokerChannelSubscription{}
	}
	b.subs[ch] = s
	b.mu.Unlock()
	if b.onSubscribed != nil {
		b.onSubscribed(ch)
	}
	return s, nil
}

type ack struct{ f func(string) }

func (a ack) AckMessage() { a.f("ack") }
func (a ack) NakMessage() { a.f("nak") }

func (b *broker) deliver(ch string, m extensions.BrokerMessage) {
	b.mu.Lock()
	s := b.subs[ch]
	b.mu.Unlock()
	s.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(m, ack{func(o string) { b.add("%s", o) }}))
}
''' + CHECKER
SPEC3 = '''asyncapi: 3.0.0
info: {title: T, version: 1.2.3}
channels:
  c:
    address: c.x
    messages:
      m: {$ref: '#/components/messages/m'}
  r:
    address: r.x
    messages:
      m: {$ref: '#/components/messages/m'}
operations:
  sendC:
    action: send
    channel: {$ref: '#/channels/c'}
  ask:
    action: receive
    channel: {$ref: '#/channels/r'}
    reply:
      channel: {$ref: '#/channels/c'}
components:
  messages:
    m:
      headers:
        type: object
        properties:
          correlationId: {type: string}
      correlationId: {location: $message.header#/correlationId}
      payload:
        type: object
        properties:
          s: {type: string}
'''
SPEC2 = '''asyncapi: 2.6.0
info: {title: T, version: 1.2.3}
channels:
  c.x:
    subscribe:
      message: {$ref: '#/components/messages/m'}
components:
  messages:
    m:
      headers:
        type: object
        properties:
          correlationId: {type: string}
      correlationId: {location: $message.header#/correlationId}
      payload:
        type: object
        properties:
          s: {type: string}
'''
V3 = "pkg/codegen/generators/v3/templates/"
V2 = "pkg/codegen/generators/v2/templates/"
EXT = "pkg/extensions/"
SEEDS = {}

def seed(name, property, needs, breaks, edits, **files):
    SEEDS[name] = dict(property=property, needs=needs, breaks=breaks, edits=edits, files={k.replace("__", "."): v for k, v in files.items()})

seed("nak-empty", "P02", "a message without headers and with a nil payload, rejected before anything else decides it",
     "rejecting an empty message tells the broker nothing: the message stays undecided",
     [(EXT + "broker.go", '''	if !bm.acked {
		bm.acknowledgment.NakMessage()''', '''	if !bm.acked && !bm.IsUninitialized() {
		bm.acknowledgment.NakMessage()''')],
     demo__sh=MAIN, main__go='''package main

import (
	"fmt"
	"os"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

type ack struct{ n *int }

func (a ack) AckMessage() {}
func (a ack) NakMessage() { *a.n++ }

func main() {
	n := 0
	m := extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{}, ack{&n})
	m.Nak()
	check(n == 1, "the broker is told %d times", n)
}
''' + CHECKER)

seed("close-before-cleanup", "P01", "a broker that is still delivering, or a consumer still reading, while the cleanup of a cancelled subscription runs",
     "the message channel is closed before the broker has been unsubscribed: the consumer sees the end while the broker still holds the subscription",
     [(EXT + "broker.go", '''		// Execute cleanup function
		cleanup()

''', ""), (EXT + "broker.go", '''		close(bcs.messages)
		bcs.state.mutex.Unlock()
''', '''		close(bcs.messages)
		bcs.state.mutex.Unlock()

		// Execute cleanup function
		cleanup()
''')],
     demo__sh=MAIN, main__go='''package main

import (
	"context"
	"fmt"
	"os"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)

func main() {
	s := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, 1), make(chan any, 1))
	closed := false
	s.WaitForCancellationAsync(func() {
		select {
		case _, open := <-s.MessagesChannel():
			closed = !open
		default:
		}
	})
	s.Cancel(context.Background())
	check(!closed, "the channel is closed before the cleanup")
}
''' + CHECKER)

seed("empty-version", "P03", "a received message whose version header is present but empty, with a default version configured",
     "the message is delivered to nobody instead of to the default version",
     [(EXT + "versioning/broker_subscription.go", '''if !exists || version == "" {''', '''if !exists {''')],
     demo__sh=MAIN, main__go='''package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
)

type broker struct{ s extensions.BrokerChannelSubscription }

func (b *broker) Publish(context.Context, string, extensions.BrokerMessage) error { return nil }
func (b *broker) Subscribe(context.Context, string) (extensions.BrokerChannelSubscription, error) {
	b.s = extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, 4), make(chan any, 1))
	b.s.WaitForCancellationAsync(func() {})
	return b.s, nil
}

type ack struct{}

func (ack) AckMessage() {}
func (ack) NakMessage() {}

func main() {
	b := &broker{}
	w := versioning.NewWrapper(b, versioning.WithDefaultVersion("1"))
	s, err := w.Subscribe(context.WithValue(context.Background(), extensions.ContextKeyIsVersion, "1"), "c")
	check(err == nil, "%v", err)
	b.s.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{
		Headers: map[string][]byte{versioning.DefaultVersionHeaderKey: {}}}, ack{}))
	select {
	case <-s.MessagesChannel():
	case <-time.After(5 * time.Second):
		check(false, "the message is lost")
	}
}
''' + CHECKER)

seed("route-under-lock", "P04", "a consumer of one version that has stopped reading with its queue full, while another version of the channel is cancelled or subscribed",
     "the routing keeps the versions locked while it hands a message over: a full queue of one version blocks the cancellation of any other",
     [(EXT + "versioning/broker_subscription.go", '''			// Unlock the versions
			bs.versionsMutex.Unlock()

			// Send the message to the correct channel
			vc.subscription.TransmitReceivedMessage(msg)
''', '''			// Send the message to the correct channel
			vc.subscription.TransmitReceivedMessage(msg)

			// Unlock the versions
			bs.versionsMutex.Unlock()
''')],
     demo__sh=MAIN, main__go='''package main

import (
	"context"
	"fmt"
	"os"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
)

type broker struct{ s extensions.BrokerChannelSubscription }

func (b *broker) Publish(context.Context, string, extensions.BrokerMessage) error { return nil }
func (b *broker) Subscribe(context.Context, string) (extensions.BrokerChannelSubscription, error) {
	b.s = extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, 1000), make(chan any, 1))
	b.s.WaitForCancellationAsync(func() {})
	return b.s, nil
}

type ack struct{}

func (ack) AckMessage() {}
func (ack) NakMessage() {}

func main() {
	b := &broker{}
	w := versioning.NewWrapper(b)
	ctx := func(v string) context.Context { return context.WithValue(context.Background(), extensions.ContextKeyIsVersion, v) }
	_, err := w.Subscribe(ctx("1"), "c")
	check(err == nil, "%v", err)
	s2, err := w.Subscribe(ctx("2"), "c")
	check(err == nil, "%v", err)
	for i := 0; i < brokers.BrokerMessagesQueueSize+5; i++ {
		b.s.TransmitReceivedMessage(extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{
			Headers: map[string][]byte{versioning.DefaultVersionHeaderKey: []byte("1")}}, ack{}))
	}
	time.Sleep(200 * time.Millisecond)
	done := make(chan struct{})
	go func() { s2.Cancel(context.Background()); close(done) }()
	select {
	case <-done:
	case <-time.After(3 * time.Second):
		check(false, "the cancellation of version 2 is blocked by the full queue of version 1")
	}
}
''' + CHECKER)

seed("retried-middleware", "P05", "two middlewares of which the second fails, and the first swallows that error",
     "the failed middleware is run a second time",
     [(V3 + "controller.tmpl", '''            // Call the middleware and register it as already called
            called = true
            if err := middlewares[0](ctx, msg, nextWithArgs); err != nil {
                return err
            }
''', '''            // Call the middleware and register it as already called
            if err := middlewares[0](ctx, msg, nextWithArgs); err != nil {
                return err
            }
            called = true
''')],
     demo__sh=GEN(), spec__yaml=SPEC3, main__go=BROKER + '''
func main() {
	b := &broker{}
	n := 0
	c, err := gen.NewAppController(b, gen.WithMiddlewares(
		func(ctx context.Context, _ *extensions.BrokerMessage, next extensions.NextMiddleware) error {
			_ = next(ctx)
			return nil
		},
		func(ctx context.Context, _ *extensions.BrokerMessage, next extensions.NextMiddleware) error {
			n++
			return errors.New("no")
		}))
	check(err == nil, "%v", err)
	_ = c.SendAsSendCOperation(context.Background(), gen.NewMMessage())
	check(n == 1, "the second middleware runs %d times", n)
}
''')

seed("nak-before-error-handler", "P06", "a handler that fails, with an error handler that decides itself what to tell the broker",
     "the message is rejected before the error handler is called, which therefore cannot acknowledge it",
     [(V3 + "controller.tmpl", '''        c.errorHandler(msgCtx, addr, &acknowledgeableBrokerMessage, err)
''', ""), (V3 + "controller.tmpl", '''        acknowledgeableBrokerMessage.Nak()
    }
''', '''        acknowledgeableBrokerMessage.Nak()
        c.errorHandler(msgCtx, addr, &acknowledgeableBrokerMessage, err)
    }
''')],
     demo__sh=GEN(), spec__yaml=SPEC3, main__go=BROKER + '''
func main() {
	b := &broker{}
	c, err := gen.NewUserController(b, gen.WithErrorHandler(func(_ context.Context, _ string, m *extensions.AcknowledgeableBrokerMessage, _ error) { m.Ack() }))
	check(err == nil, "%v", err)
	done := make(chan bool, 1)
	err = c.SubscribeToSendCOperation(context.Background(), func(context.Context, gen.MMessage) error { done <- true; return errors.New("no") })
	check(err == nil, "%v", err)
	b.deliver("c.x", extensions.BrokerMessage{Payload: []byte("{}")})
	<-done
	time.Sleep(300 * time.Millisecond)
	b.mu.Lock()
	check(b.log[len(b.log)-1] == "ack", "the broker is told %q", b.log)
}
''')

seed("failed-subscription-registered", "P07", "a subscription that the broker refuses, then a second attempt",
     "the failed subscription stays registered, so that subscribing again is refused as already subscribed",
     [(V3 + "controller.tmpl", '''    sub, err := c.broker.Subscribe(ctx, addr)
    if err != nil {
        c.logger.Error(ctx, err.Error())
        return err
    }
''', '''    sub, err := c.broker.Subscribe(ctx, addr)
    c.subscriptions[addr] = sub
    if err != nil {
        c.logger.Error(ctx, err.Error())
        return err
    }
'''), (V3 + "controller.tmpl", '''    // Add the cancel channel to the inside map
    c.subscriptions[addr] = sub

''', "")],
     demo__sh=GEN(), spec__yaml=SPEC3, main__go=BROKER + '''
func main() {
	b := &broker{fail: errors.New("no")}
	c, err := gen.NewUserController(b)
	check(err == nil, "%v", err)
	fn := func(context.Context, gen.MMessage) error { return nil }
	check(c.SubscribeToSendCOperation(context.Background(), fn) != nil, "no error")
	b.fail = nil
	err = c.SubscribeToSendCOperation(context.Background(), fn)
	check(err == nil, "%v", err)
}
''')

seed("uncorrelated-reply", "P08", "a message without correlation identifier arriving on the reply channel before the reply",
     "it is taken for the reply of whichever request waits",
     [(V3 + "controller.tmpl", '''        if msg.CorrelationID() != rmsg.CorrelationID() {''', '''        if id := rmsg.CorrelationID(); id != "" && msg.CorrelationID() != id {''')],
     demo__sh=GEN(), spec__yaml=SPEC3, main__go=BROKER + '''
func main() {
	b := &broker{}
	b.onPublish = func(_ context.Context, ch string, m extensions.BrokerMessage) {
		b.deliver("c.x", extensions.BrokerMessage{Payload: []byte(`{"s":"other"}`)})
		b.deliver("c.x", extensions.BrokerMessage{Headers: m.Headers, Payload: []byte(`{"s":"reply"}`)})
	}
	c, err := gen.NewUserController(b)
	check(err == nil, "%v", err)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	r, err := c.RequestToAskOperation(ctx, gen.NewMMessage())
	check(err == nil, "%v", err)
	check(r.Payload.S != nil && *r.Payload.S == "reply", "reply %+v", r.Payload)
}
''')

seed("empty-message-ends-wait", "P09", "an empty message (no headers, nil payload) on the reply channel of a request that waits",
     "the request fails as if its subscription were lost",
     [(V3 + "controller.tmpl", '''        if !open && acknowledgeableBrokerMessage.IsUninitialized() {
            c.logger.Error(msgCtx''', '''        if !open || acknowledgeableBrokerMessage.IsUninitialized() {
            c.logger.Error(msgCtx''')],
     demo__sh=GEN(), spec__yaml=SPEC3, main__go=BROKER + '''
func main() {
	b := &broker{}
	b.onPublish = func(_ context.Context, ch string, m extensions.BrokerMessage) {
		b.deliver("c.x", extensions.BrokerMessage{})
		b.deliver("c.x", extensions.BrokerMessage{Headers: m.Headers, Payload: []byte(`{"s":"reply"}`)})
	}
	c, err := gen.NewUserController(b)
	check(err == nil, "%v", err)
	ctx, cancel := context.WithTimeout(context.Background(), 5*time.Second)
	defer cancel()
	_, err = c.RequestToAskOperation(ctx, gen.NewMMessage())
	check(err == nil, "%v", err)
}
''')

seed("outer-context", "P05", "a middleware that adds a value to the context of a sent message",
     "the broker is given the context as it was before the middlewares",
     [(V2 + "controller.tmpl", '''    return c.executeMiddlewares(ctx, &brokerMsg, func(ctx context.Context) error {''', '''    return c.executeMiddlewares(ctx, &brokerMsg, func(_ context.Context) error {''')],
     demo__sh=GEN(), spec__yaml=SPEC2, main__go=BROKER + '''
type key struct{}

func main() {
	b := &broker{}
	seen := false
	b.onPublish = func(ctx context.Context, _ string, _ extensions.BrokerMessage) { seen = ctx.Value(key{}) == 1 }
	c, err := gen.NewAppController(b, gen.WithMiddlewares(func(ctx context.Context, _ *extensions.BrokerMessage, next extensions.NextMiddleware) error {
		return next(context.WithValue(ctx, key{}, 1))
	}))
	check(err == nil, "%v", err)
	err = c.PublishCX(context.Background(), gen.NewMMessage())
	check(err == nil && seen, "error %v, value seen: %v", err, seen)
}
''')

seed("inner-wildcard", "P12", "a pattern with '>' before its last token",
     "a subscription such as a.>.b takes every subject below a",
     [(EXT + "brokers/natsjetstream/natsjetstream.go", "			return i == len(patternTokens)-1\n", "			return i < len(patternTokens)\n")],
     demo__sh=MAIN, main__go='''package main

import (
	"fmt"
	"os"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
)

func main() {
	check(natsjetstream.MatchSubjectSubscription("a.>", "a.x.c"), "a.> does not match a.x.c")
	check(!natsjetstream.MatchSubjectSubscription("a.>.b", "a.x.c"), "a.>.b matches a.x.c")
}
''' + CHECKER)


# a test inside a package, with hooks in the client library
def HOOKED(pkg, mod, hooks, decl):
    s = HEAD + f'M=$(go list -m -f "{{{{.Dir}}}}" {mod})\n'
    rep = [f'\\"$PWD/{pkg}/zzdemo_test.go\\":\\"$D/zzdemo_test.go\\"']
    for i, (f, head, call) in enumerate(hooks):
        s += f"awk -v h='{head}' -v c='{call}' '{{print}} index($0, h) == 1 {{print c}}' \"$M/{f}\" > \"$T/h{i}.go\"\n"
        rep.append(f'\\"$M/{f}\\":\\"$T/h{i}.go\\"')
    s += 'cat "$D/hooks.txt" >> "$T/h0.go"\n'
    s += 'echo "{\\"Replace\\":{' + ",".join(rep) + '}}" > "$T/o.json"\n'
    return s + f'go test -count=1 -vet=off -timeout 60s -run TestZZDemo -overlay "$T/o.json" ./{pkg}\n'

seed("commit-latest", "P14", "manual commit, and a message acknowledged after the next one has been fetched",
     "the offset of another message is committed, and the acknowledged one is not",
     [(EXT + "brokers/kafka/kafka.go", '''		for {
			msg, err := r.FetchMessage(ctx)
			if err != nil {''', '''		var msg kafka.Message
		var err error
		for {
			if msg, err = r.FetchMessage(ctx); err != nil {''')],
     demo__sh=HOOKED("pkg/extensions/brokers/kafka", "github.com/segmentio/kafka-go",
        [("reader.go", "func (r *Reader) FetchMessage(", "if ZZFetch != nil { return ZZFetch() }")], "").replace('" > "$T/h0.go"', '" | awk \'{print} index($0, "func (r *Reader) CommitMessages(") == 1 {print "if ZZCommit != nil { ZZCommit(msgs); return nil }"}\' > "$T/h0.go"'),
     hooks__txt='\nvar ZZFetch func() (Message, error)\nvar ZZCommit func([]Message)\n',
     zzdemo_test__go='''package kafka

import (
	"context"
	"io"
	"testing"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/segmentio/kafka-go"
)

func TestZZDemo(t *testing.T) {
	n := 0
	kafka.ZZFetch = func() (kafka.Message, error) {
		if n++; n > 2 {
			return kafka.Message{}, io.EOF
		}
		return kafka.Message{Offset: int64(n), Value: []byte{byte(n)}}, nil
	}
	var committed []int64
	kafka.ZZCommit = func(l []kafka.Message) {
		for _, m := range l {
			committed = append(committed, m.Offset)
		}
	}
	sub := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, 4), make(chan any, 1))
	sub.WaitForCancellationAsync(func() {})
	var l extensions.Logger = extensions.DummyLogger{}
	manualCommitMessagesHandler(&l)(context.Background(), &kafka.Reader{}, sub)
	for i := int64(1); i <= 2; i++ {
		m := <-sub.MessagesChannel()
		m.Ack()
		if len(committed) != int(i) || committed[i-1] != int64(m.Payload[0]) {
			t.Fatalf("message %d acknowledged, committed %v", m.Payload[0], committed)
		}
	}
}
''')

seed("transport-only-with-tls", "P15", "a controller with SASL authentication and no TLS, publishing",
     "the writer is given no SASL mechanism: it connects without authentication",
     [(EXT + "brokers/kafka/kafka.go", '''		Transport: &kafka.Transport{
			// reuse the optionally TLS and SASLMechanism from dialer provided by the user to pass it to the writer
			// it can be nil
			TLS:  c.dialer.TLS.Clone(),
			SASL: c.dialer.SASLMechanism,
		},
	}
''', '''	}

	// reuse the TLS and SASLMechanism from dialer provided by the user to pass it to the writer
	if c.dialer.TLS != nil {
		w.Transport = &kafka.Transport{
			TLS:  c.dialer.TLS.Clone(),
			SASL: c.dialer.SASLMechanism,
		}
	}
''')],
     demo__sh=HOOKED("pkg/extensions/brokers/kafka", "github.com/segmentio/kafka-go",
        [("writer.go", "func (w *Writer) WriteMessages(", "if ZZWrite != nil { return ZZWrite(w) }")], ""),
     hooks__txt='\nvar ZZWrite func(*Writer) error\n',
     zzdemo_test__go='''package kafka

import (
	"context"
	"testing"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/segmentio/kafka-go"
	"github.com/segmentio/kafka-go/sasl"
)

type mech struct{ sasl.Mechanism }

func TestZZDemo(t *testing.T) {
	var got sasl.Mechanism
	kafka.ZZWrite = func(w *kafka.Writer) error {
		if tr, ok := w.Transport.(*kafka.Transport); ok && tr != nil {
			got = tr.SASL
		}
		return nil
	}
	c, err := NewController([]string{"h:1"}, WithConnectionTest(false), WithSasl(&mech{}))
	if err != nil {
		t.Fatal(err)
	}
	if err := c.Publish(context.Background(), "t", extensions.BrokerMessage{}); err != nil {
		t.Fatal(err)
	}
	if got == nil {
		t.Fatal("published without the SASL mechanism")
	}
}
''')

seed("shared-headers", "P13", "two messages of one subscription, of which the later has fewer headers, the earlier being still in use",
     "the header map is shared by all messages of a subscription: headers of one appear in the others",
     [(EXT + "brokers/nats/nats.go", '''	return func(msg *nats.Msg) {
		// Get headers
		headers := make(map[string][]byte, len(msg.Header))
''', '''	headers := make(map[string][]byte)

	return func(msg *nats.Msg) {
		// Get headers
''')],
     demo__sh=TEST("pkg/extensions/brokers/nats"),
     zzdemo_test__go='''package nats

import (
	"context"
	"testing"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/nats-io/nats.go"
)

func TestZZDemo(t *testing.T) {
	c := &Controller{}
	sub := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, 4), make(chan any, 1))
	sub.WaitForCancellationAsync(func() {})
	h := c.messagesHandler(context.Background(), sub)
	h(&nats.Msg{Header: nats.Header{"a": {"1"}}})
	h(&nats.Msg{})
	<-sub.MessagesChannel()
	if m := <-sub.MessagesChannel(); len(m.Headers) != 0 {
		t.Fatalf("headers %v", m.Headers)
	}
}
''')

seed("empty-header-values", "P11", "a stream message with a header whose value is empty",
     "the header is dropped from the received message",
     [(EXT + "brokers/natsjetstream/natsjetstream.go", '''		if len(v) > 0 {
			headers[k] = []byte(v[0])''', '''		if len(v) > 0 && v[0] != "" {
			headers[k] = []byte(v[0])''')],
     demo__sh=TEST("pkg/extensions/brokers/natsjetstream"),
     zzdemo_test__go='''package natsjetstream

import (
	"context"
	"testing"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/nats-io/nats.go"
	"github.com/nats-io/nats.go/jetstream"
)

type message struct{ jetstream.Msg }

func (message) Headers() nats.Header { return nats.Header{"a": {""}} }
func (message) Data() []byte         { return nil }

func TestZZDemo(t *testing.T) {
	sub := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, 4), make(chan any, 1))
	sub.WaitForCancellationAsync(func() {})
	(&Controller{}).HandleMessage(context.Background(), message{}, sub)
	if m := <-sub.MessagesChannel(); len(m.Headers) != 1 {
		t.Fatalf("headers %v", m.Headers)
	}
}
''')

seed("context-before-correlation", "P10", "sending a message without correlation identifier, so that one is generated",
     "the context given to middlewares and broker holds an empty correlation identifier instead of the generated one",
     [(V3 + "controller.tmpl", '''    {{if $value.GetMessage.HaveCorrelationID -}}
    // Set correlation ID if it does not exist
    if id := msg.CorrelationID(); id == "" {
        {{if .ReplyOf -}}''', '''    {{if $value.GetMessage.HaveCorrelationID -}}
    ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())

    // Set correlation ID if it does not exist
    if id := msg.CorrelationID(); id == "" {
        {{if .ReplyOf -}}'''), (V3 + "controller.tmpl", '''    ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "publication")
    {{if $value.GetMessage.HaveCorrelationID -}}
    ctx = context.WithValue(ctx, extensions.ContextKeyIsCorrelationID, msg.CorrelationID())
    {{- end}}
''', '''    ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, "publication")
''')],
     demo__sh=GEN(), spec__yaml=SPEC3, main__go=BROKER + '''
func main() {
	b := &broker{}
	id := ""
	b.onPublish = func(ctx context.Context, _ string, _ extensions.BrokerMessage) {
		id, _ = ctx.Value(extensions.ContextKeyIsCorrelationID).(string)
	}
	c, err := gen.NewAppController(b)
	check(err == nil, "%v", err)
	err = c.SendAsSendCOperation(context.Background(), gen.MMessage{})
	check(err == nil && id != "", "error %v, correlation identifier %q", err, id)
}
''')

# --- generator and library ----------------------------------------------------
def UNIT(pkg, test, imports=()):
    """A test in the directory of a package."""
    name = pkg.rsplit("/", 1)[1]
    return dict(demo__sh=TEST(pkg), zzdemo_test__go=test)

seed("undeclared-version-of-yaml", "P26", "a file in YAML which is parsed for a given major version and declares none itself, as a dependency may",
     "it is refused, where the same in JSON is accepted",
     [("pkg/asyncapi/parser/parse.go", '''		Data:         data,
		MajorVersion: params.MajorVersion,
''', '''		Data: data,
''')],
     **UNIT("pkg/asyncapi/parser", '''package parser

import "testing"

func TestZZDemo(t *testing.T) {
	if _, err := FromYAML(FromYAMLParams{Data: []byte("components: {schemas: {a: {type: string}}}"), MajorVersion: 3}); err != nil {
		t.Fatal(err)
	}
}
'''))

seed("required-array", "P19", "a required property that is an array, left unset",
     "the validation accepts an object without its required array",
     [("pkg/codegen/generators/helpers.go", '''if schema.IsRequired && (isPointer || schemaType == "array") {''', '''if schema.IsRequired && isPointer {''')],
     **UNIT("pkg/codegen/generators", '''package generators

import (
	"strings"
	"testing"

	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
)

func TestZZDemo(t *testing.T) {
	if s := GenerateValidateTags(asyncapi.Validations[int]{IsRequired: true}, false, "array"); !strings.Contains(s, "required") {
		t.Fatalf("%q", s)
	}
}
'''))

seed("omitempty-of-required", "P18", "a required property with x-omitempty: true",
     "the property is written although it is empty and its omission was asked for",
     [("pkg/codegen/generators/helpers.go", '''	if schema.IsRequired {
		return schema.ShouldOmitEmpty != nil && *schema.ShouldOmitEmpty
	}
''', '''	if schema.IsRequired {
		return false
	}
''')],
     **UNIT("pkg/codegen/generators", '''package generators

import (
	"strings"
	"testing"

	"github.com/lerenn/asyncapi-codegen/pkg/asyncapi"
)

func TestZZDemo(t *testing.T) {
	yes := true
	if s := GenerateJSONTags(asyncapi.Validations[int]{IsRequired: true, ShouldOmitEmpty: &yes}, "f"); !strings.Contains(s, "omitempty") {
		t.Fatalf("%q", s)
	}
}
'''))

seed("none-keeps-conversion", "P23", "two generations in one process, the first with a key conversion and the second without",
     "the second one converts its keys as the first",
     [("pkg/utils/template/helpers.go", '''		return fmt.Errorf("unknown convert key function %s, supported values: snake, kebab, camel, none", name)
	}
''', '''		return fmt.Errorf("unknown convert key function %s, supported values: snake, kebab, camel, none", name)
	}

	// Nothing to convert
	if name == "none" {
		return nil
	}
''')],
     **UNIT("pkg/utils/template", '''package template

import "testing"

func TestZZDemo(t *testing.T) {
	if err := SetConvertKeyFn("snake"); err != nil {
		t.Fatal(err)
	}
	if err := SetConvertKeyFn("none"); err != nil {
		t.Fatal(err)
	}
	if k := ConvertKey("aKey"); k != "aKey" {
		t.Fatal(k)
	}
}
'''))

seed("last-message-of-operation", "P30", "an operation that lists several messages",
     "its methods send and receive the last message instead of the first",
     [("pkg/asyncapi/v3/operation.go", "return op.Messages[0], nil", "return op.Messages[len(op.Messages)-1], nil")],
     **UNIT("pkg/asyncapi/v3", '''package asyncapiv3

import "testing"

func TestZZDemo(t *testing.T) {
	a, b := &Message{Name: "A"}, &Message{Name: "B"}
	if m, err := (Operation{Messages: []*Message{a, b}}).GetMessage(); err != nil || m != a {
		t.Fatal(m, err)
	}
}
'''))

seed("trait-description", "P22", "a message with a description and a trait with another one",
     "the description of the trait replaces the one of the message",
     [("pkg/asyncapi/v3/message.go", '''	if msg.Description == "" {
		msg.Description = mt.Description''', '''	if mt.Description != "" {
		msg.Description = mt.Description''')],
     **UNIT("pkg/asyncapi/v3", '''package asyncapiv3

import "testing"

func TestZZDemo(t *testing.T) {
	m := Message{Description: "mine"}
	if err := m.ApplyTrait(&MessageTrait{Description: "other"}, Specification{}); err != nil || m.Description != "mine" {
		t.Fatal(m.Description, err)
	}
}
'''))

seed("trait-tags-first", "P22", "a message and a trait with a tag of the same name",
     "the tag of the trait is kept instead of the one of the message",
     [("pkg/asyncapi/v3/message.go", "msg.Tags = append(msg.Tags, mt.Tags...)", "msg.Tags = append(append([]*Tag{}, mt.Tags...), msg.Tags...)")],
     **UNIT("pkg/asyncapi/v3", '''package asyncapiv3

import "testing"

func TestZZDemo(t *testing.T) {
	m := Message{Tags: []*Tag{{Name: "t", Description: "mine"}}}
	if err := m.ApplyTrait(&MessageTrait{Tags: []*Tag{{Name: "t", Description: "other"}}}, Specification{}); err != nil {
		t.Fatal(err)
	}
	if len(m.Tags) != 1 || m.Tags[0].Description != "mine" {
		t.Fatal(len(m.Tags), m.Tags[0].Description)
	}
}
'''))

seed("unescaped-address", "P25", "a channel address with a quote or a backslash and no parameter",
     "the generated path is another string, or no string at all",
     [("pkg/codegen/generators/v3/templates/helpers.go", 'return fmt.Sprintf("%q", ch.Address)', "return \"\\\"\" + ch.Address + \"\\\"\"")],
     **UNIT("pkg/codegen/generators/v3/templates", '''package templates

import (
	"testing"

	asyncapi "github.com/lerenn/asyncapi-codegen/pkg/asyncapi/v3"
)

func TestZZDemo(t *testing.T) {
	if s := GenerateChannelAddr(&asyncapi.Channel{Address: "a\\\\tb"}); s != "\\"a\\\\\\\\tb\\"" {
		t.Fatal(s)
	}
}
'''))

seed("merged-enum", "P19", "a property that is a reference to a component with an enumeration",
     "the enumeration is lost: the validation of the property accepts any value",
     [("pkg/asyncapi/schema.go", '''	if len(newV.Enum) > 0 {
		v.Enum = newV.Enum
	}
''', '''	if len(newV.Enum) > 0 && len(v.Enum) > 0 {
		v.Enum = newV.Enum
	}
''')],
     **UNIT("pkg/asyncapi", '''package asyncapi

import "testing"

func TestZZDemo(t *testing.T) {
	v := Validations[int]{}
	v.Merge(Validations[int]{Enum: []any{"a"}})
	if len(v.Enum) != 1 {
		t.Fatal(v.Enum)
	}
}
'''))

seed("item-import", "P24", "x-go-type-import on the items of an array property of an object",
     "the import is missing: the generated code does not compile",
     [("pkg/asyncapi/v3/extensions.go", '''	if s.Items != nil {
		if err := s.Items.goTypeImports(imports); err != nil {''', '''	if s.Items != nil && s.Name == "" {
		if err := s.Items.goTypeImports(imports); err != nil {''')],
     **UNIT("pkg/asyncapi/v3", '''package asyncapiv3

import "testing"

func TestZZDemo(t *testing.T) {
	i := Schema{Type: "string"}
	i.ExtGoTypeImport = &GoTypeImportExtension{Path: "a/b"}
	s := Schema{Name: "S", Type: "array", Items: &i}
	spec := Specification{}
	spec.Components.Schemas = map[string]*Schema{"s": &s}
	if m, err := spec.CustomImports(); err != nil || len(m) != 1 {
		t.Fatal(m, err)
	}
}
'''))

seed("empty-value-not-set", "P31", "a context value which is set to the empty string",
     "the functions that depend on whether a value is set take it as not set",
     [(EXT + "context.go", "	if value == nil {\n		fn()", "	if value == nil || value == \"\" {\n		fn()")],
     demo__sh=MAIN, main__go='''package main

import (
	"context"
	"fmt"
	"os"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
)
''' + CHECKER + '''
func main() {
	ctx := context.WithValue(context.Background(), extensions.ContextKeyIsVersion, "")
	var notSet, set bool
	extensions.IfContextNotSetWith[string](ctx, extensions.ContextKeyIsVersion, func() { notSet = true })
	extensions.IfContextSetWith(ctx, extensions.ContextKeyIsVersion, func(string) { set = true })
	check(set, "the empty version is not set")
	check(!notSet, "the empty version is set and not set")
}
''')

seed("runtime-errors-escape", "P05", "the recovery middleware, and a panic whose value is an error of the runtime (a nil map, an index out of range)",
     "the panic goes through the recovery middleware and reaches the caller",
     [(EXT + "middlewares/recovery.go", "			if r := recover(); r != nil {\n", "			if r := recover(); r != nil {\n				if e, ok := r.(interface{ RuntimeError() }); ok {\n					panic(e)\n				}\n")],
     demo__sh=MAIN, main__go='''package main

import (
	"context"
	"fmt"
	"os"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"
)
''' + CHECKER + '''
func main() {
	defer func() { check(recover() == nil, "the panic is not recovered") }()
	err := middlewares.Recovery(extensions.DummyLogger{})(context.Background(), &extensions.BrokerMessage{}, func(context.Context) error {
		var m map[string]int
		m["a"] = 1
		return nil
	})
	check(err != nil, "no error")
}
''')

seed("logging-handler-acks", "P06", "the logging error handler, and a handler that fails because a subscription it waited on was cancelled",
     "the message that failed is acknowledged instead of rejected",
     [(EXT + "errorhandlers/logging.go", "			topic, err.Error()))\n", "			topic, err.Error()))\n		if errors.Is(err, extensions.ErrSubscriptionCanceled) && msg != nil {\n			msg.Ack()\n		}\n"),
      (EXT + "errorhandlers/logging.go", '	"context"\n', '	"context"\n	"errors"\n')],
     demo__sh=MAIN, main__go='''package main

import (
	"context"
	"fmt"
	"os"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/errorhandlers"
)

type decision struct{ l []string }

func (d *decision) AckMessage() { d.l = append(d.l, "ack") }
func (d *decision) NakMessage() { d.l = append(d.l, "nak") }
''' + CHECKER + '''
func main() {
	d := &decision{}
	m := extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{}, d)
	errorhandlers.Logging(extensions.DummyLogger{})(context.Background(), "t", &m, fmt.Errorf("late: %w", extensions.ErrSubscriptionCanceled))
	m.Nak()
	check(fmt.Sprint(d.l) == "[nak]", "decisions %v", d.l)
}
''')

seed("nested-field-dropped", "P27", "a field with a key of three levels, after a plain field with the first of them as its key",
     "the later field is not in the record",
     [(EXT + "loggers/common.go", "			// Explicitly drop the old value\n", "			if len(l) > 2 {\n				return m\n			}\n			// Explicitly drop the old value\n")],
     demo__sh=MAIN, main__go='''package main

import (
	"context"
	"fmt"
	"io"
	"os"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/loggers"
)
''' + CHECKER + '''
func main() {
	out := os.Stdout
	r, w, _ := os.Pipe()
	os.Stdout = w
	loggers.NewECS().Info(context.Background(), "m", extensions.LogInfo{Key: "a", Value: "first"}, extensions.LogInfo{Key: "a.b.c", Value: "second"})
	w.Close()
	os.Stdout = out
	b, _ := io.ReadAll(r)
	check(strings.Contains(string(b), "second"), "%s", b)
}
''')

seed("release-in-background", "P04", "the cancellation of the last version of a channel, and a new subscription right after it",
     "the cancellation returns before the broker is released: the channel has two subscriptions at once",
     [(EXT + "versioning/broker_subscription.go", "	bs.subscription.Cancel(ctx)\n", "	go bs.subscription.Cancel(context.WithoutCancel(ctx))\n")],
     demo__sh=MAIN, main__go='''package main

import (
	"context"
	"fmt"
	"os"
	"sync/atomic"
	"time"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
)

type broker struct{ open atomic.Int32 }

func (b *broker) Publish(context.Context, string, extensions.BrokerMessage) error { return nil }
func (b *broker) Subscribe(context.Context, string) (extensions.BrokerChannelSubscription, error) {
	s := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage), make(chan any, 1))
	b.open.Add(1)
	s.WaitForCancellationAsync(func() {
		time.Sleep(200 * time.Millisecond) // the server answers
		b.open.Add(-1)
	})
	return s, nil
}
''' + CHECKER + '''
func main() {
	b := &broker{}
	w := versioning.NewWrapper(b)
	s, err := w.Subscribe(context.WithValue(context.Background(), extensions.ContextKeyIsVersion, "1"), "c")
	check(err == nil, "%v", err)
	s.Cancel(context.Background())
	check(b.open.Load() == 0, "the channel is not released")
}
''')

seed("replaced-connection-open", "P11", "a controller given connection options and then an existing connection",
     "the connection it opened first is replaced and never closed",
     [(EXT + "brokers/natsjetstream/natsjetstream.go", "	if c.natsConn != nil && c.ownsNatsConn {\n		c.natsConn.Close()\n	}\n	c.natsConn = nc", "	if c.natsConn != nil && c.ownsNatsConn && owning {\n		c.natsConn.Close()\n	}\n	c.natsConn = nc")],
     **UNIT(EXT + "brokers/natsjetstream", '''package natsjetstream

import (
	"testing"

	"github.com/nats-io/nats.go"
)

func TestZZDemo(t *testing.T) {
	first, err := nats.Connect("nats://127.0.0.1:1", nats.RetryOnFailedConnect(true))
	if err != nil {
		t.Fatal(err)
	}
	given, err := nats.Connect("nats://127.0.0.1:1", nats.RetryOnFailedConnect(true))
	if err != nil {
		t.Fatal(err)
	}
	defer given.Close()
	c := &Controller{}
	c.setNatsConnection(first, true)
	c.setNatsConnection(given, false)
	if !first.IsClosed() || given.IsClosed() {
		t.Fatal(first.IsClosed(), given.IsClosed())
	}
}
'''))

seed("stale-tail", "P32", "an output file that exists and is longer than what is generated",
     "the end of the former content stays after the generated code",
     [("pkg/codegen/codegen.go", "	return os.WriteFile(opt.OutputPath, fileContent, 0644)", """	f, err := os.OpenFile(opt.OutputPath, os.O_WRONLY|os.O_CREATE, 0644)
	if err != nil {
		return err
	}
	if _, err := f.Write(fileContent); err != nil {
		f.Close()
		return err
	}
	return f.Close()""")],
     demo__sh=HEAD + '''go build -o "$T/acg" ./cmd/asyncapi-codegen || exit 3
"$T/acg" -i "$D/spec.yaml" -o "$T/a.go" -g types || exit 1
"$T/acg" -i "$D/spec.yaml" -o "$T/b.go" || exit 1
"$T/acg" -i "$D/spec.yaml" -o "$T/b.go" -g types || exit 1
cmp "$T/a.go" "$T/b.go"
''', spec__yaml=SPEC3)

seed("default-of-kind", "P33", "a version 3 schema whose default is not a string",
     "the document, which is valid, is refused",
     [("pkg/asyncapi/v3/schema.go", "	Default     any    `json", "	Default     string `json")],
     demo__sh=HEAD + '''go build -o "$T/acg" ./cmd/asyncapi-codegen || exit 3
"$T/acg" -i "$D/spec.yaml" -o "$T/a.go"
''', spec__yaml=SPEC3 + """  schemas:
    s: {type: object, properties: {n: {type: integer, default: 3}}}
""")

seed("second-hash", "P20", "a reference which has two '#'",
     "what follows the second one is ignored: no error",
     [("pkg/asyncapi/v3/specification.go", "	if len(fileAndPath) != 2 {", "	if len(fileAndPath) < 2 {")],
     demo__sh=HEAD + '''go build -o "$T/acg" ./cmd/asyncapi-codegen || exit 3
"$T/acg" -i "$D/spec.yaml" -o "$T/a.go" || exit 3
"$T/acg" -i "$D/wrong.yaml" -o "$T/b.go" && exit 1
exit 0
''', spec__yaml=SPEC3 + """  schemas:
    s: {type: string}
    t: {type: object, properties: {n: {$ref: '#/components/schemas/s'}}}
""", wrong__yaml=SPEC3 + """  schemas:
    s: {type: string}
    t: {type: object, properties: {n: {$ref: '#/components/schemas/s#/x'}}}
""")

seed("eight-digits", "P28", "a name which starts with nine digits or more",
     "the derived name starts with a digit",
     [("pkg/utils/template/helpers.go", 're = regexp.MustCompile("^[0-9]+")', 're = regexp.MustCompile("^[0-9]{1,8}")')],
     **UNIT("pkg/utils/template", '''package template

import "testing"

func TestZZDemo(t *testing.T) {
	for _, s := range []string{"1a", "12345678 a", "123456789a", "20231231235959_a"} {
		if n := DefaultNamifier(s); n != "A" {
			t.Error(s, n)
		}
	}
}
'''))

seed("trait-not-followed", "P22", "an operation trait given by reference",
     "what the trait defines is not applied",
     [("pkg/asyncapi/v3/operation.go", "		op.ApplyTrait(t.Follow(), spec)", "		op.ApplyTrait(t, spec)")],
     **UNIT("pkg/asyncapi/v3", '''package asyncapiv3

import "testing"

func TestZZDemo(t *testing.T) {
	spec := *NewSpecification()
	spec.Components.OperationTraits = map[string]*OperationTrait{"t": {Summary: "from the trait"}}
	spec.Channels = map[string]*Channel{"c": {Address: "c", Messages: map[string]*Message{"m": {Payload: &Schema{Type: "string"}}}}}
	op := &Operation{Action: OperationActionIsSend, Channel: &Channel{Reference: "#/channels/c"}, Traits: []*OperationTrait{{Reference: "#/components/operationTraits/t"}}}
	spec.Operations = map[string]*Operation{"o": op}
	if err := spec.Process(); err != nil {
		t.Fatal(err)
	}
	if op.Summary != "from the trait" {
		t.Errorf("%q", op.Summary)
	}
}
'''))

seed("overridden-reference", "P22", "a message whose correlation identifier is given by reference, and a trait that has one",
     "the one of the trait replaces the one of the message",
     [("pkg/asyncapi/v3/message.go", "	if msg.CorrelationID == nil && mt.CorrelationID != nil {", "	if (msg.CorrelationID == nil || msg.CorrelationID.Location == \"\") && mt.CorrelationID != nil {")],
     **UNIT("pkg/asyncapi/v3", '''package asyncapiv3

import "testing"

func TestZZDemo(t *testing.T) {
	headers := func() *Schema {
		return &Schema{Type: "object", Properties: map[string]*Schema{"a": {Type: "string"}, "b": {Type: "string"}}}
	}
	spec := *NewSpecification()
	spec.Components.CorrelationIDs = map[string]*CorrelationID{"c": {Location: "$message.header#/a"}}
	msg := &Message{Headers: headers(), Payload: &Schema{Type: "string"}, CorrelationID: &CorrelationID{Reference: "#/components/correlationIds/c"},
		Traits: []*MessageTrait{{CorrelationID: &CorrelationID{Location: "$message.header#/b"}}}}
	spec.Channels = map[string]*Channel{"c": {Address: "c", Messages: map[string]*Message{"m": msg}}}
	spec.Operations = map[string]*Operation{"o": {Action: OperationActionIsSend, Channel: &Channel{Reference: "#/channels/c"}}}
	if err := spec.Process(); err != nil {
		t.Fatal(err)
	}
	if l := msg.CorrelationID.Follow().Location; l != "$message.header#/a" {
		t.Errorf("%q", l)
	}
}
'''))
