// Package fakejs is an in-memory stand-in for a JetStream server with one stream and one
// consumer, behind the hooks of the patched client library.
package fakejs

import (
	"context"
	"errors"
	"fmt"
	"sync"
	"time"

	"github.com/nats-io/nats.go"
	"github.com/nats-io/nats.go/jetstream"
	"verifmc/explore"
	"verifmc/fakenats"
)

// Server is the stand-in. Its operations have no scheduling point of their own.
type Server struct {
	On       *nats.Conn // the connection it is used through
	mu       sync.Mutex
	Pending  []*Msg
	All      []*Msg
	Consumes []*Consume
	// Failures, when set.
	ConsumerErr, ConsumeErr, PublishErr, StreamErr, UpdateErr, RegisterErr, AckErr error
	Published                                                                      []string
	Calls                                                                          []string
}

// Msg is a message of the stream.
type Msg struct {
	s    *Server
	ID   string
	subj string
	hdr  nats.Header
	data []byte
	// Outcome lists the decisions told to the server.
	Outcome []string
	Handled bool
}

func (m *Msg) decide(o string) error {
	m.s.mu.Lock()
	m.Outcome = append(m.Outcome, o)
	err := m.s.AckErr
	m.s.mu.Unlock()
	explore.Log("outcome", m.ID, o)
	return err
}

// Metadata implements jetstream.Msg, as the other methods.
func (m *Msg) Metadata() (*jetstream.MsgMetadata, error) {
	return &jetstream.MsgMetadata{NumDelivered: 1}, nil
}
func (m *Msg) Data() []byte                       { return m.data }
func (m *Msg) Headers() nats.Header               { return m.hdr }
func (m *Msg) Subject() string                    { return m.subj }
func (m *Msg) Reply() string                      { return "" }
func (m *Msg) Ack() error                         { return m.decide("ack") }
func (m *Msg) DoubleAck(context.Context) error    { return m.decide("ack") }
func (m *Msg) Nak() error                         { return m.decide("nak") }
func (m *Msg) NakWithDelay(d time.Duration) error { return m.decide(fmt.Sprint("nak ", d)) }
func (m *Msg) InProgress() error                  { return m.decide("progress") }
func (m *Msg) Term() error                        { return m.decide("term") }

// Consume is one consumption.
type Consume struct {
	s       *Server
	Stopped bool
	notify  chan struct{}
}

// Stop implements jetstream.ConsumeContext: the message being handled goes on, the
// others stay in the stream.
func (c *Consume) Stop() {
	c.s.mu.Lock()
	was := c.Stopped
	c.Stopped = true
	c.s.mu.Unlock()
	explore.Log("stop")
	if !was {
		c.notify <- struct{}{}
	}
}

type js struct {
	jetstream.JetStream
	s *Server
}

type consumer struct {
	jetstream.Consumer
	s *Server
}

// Install puts a new server behind the hooks; connections are those of fakenats.
func Install() (*Server, *fakenats.Server) {
	n := fakenats.Install()
	s := &Server{}
	jetstream.VerifNew = func(c *nats.Conn) (jetstream.JetStream, error) { s.On = c; return &js{s: s}, nil }
	return s, n
}

func (j *js) call(format string, a ...any) {
	j.s.Calls = append(j.s.Calls, fmt.Sprintf(format, a...))
}

func (j *js) PublishMsg(_ context.Context, m *nats.Msg, o ...jetstream.PublishOpt) (*jetstream.PubAck, error) {
	j.s.mu.Lock()
	defer j.s.mu.Unlock()
	j.s.Published = append(j.s.Published, fakenats.Str(m.Subject, m.Header, m.Data))
	if j.s.PublishErr != nil {
		return nil, j.s.PublishErr
	}
	return &jetstream.PubAck{}, nil
}

func (j *js) Publish(ctx context.Context, subj string, data []byte, o ...jetstream.PublishOpt) (*jetstream.PubAck, error) {
	return j.PublishMsg(ctx, &nats.Msg{Subject: subj, Data: data}, o...)
}

func (j *js) CreateStream(_ context.Context, c jetstream.StreamConfig) (jetstream.Stream, error) {
	j.call("create stream %s %v", c.Name, c.Subjects)
	return nil, j.s.StreamErr
}

func (j *js) UpdateStream(_ context.Context, c jetstream.StreamConfig) (jetstream.Stream, error) {
	j.call("update stream %s %v", c.Name, c.Subjects)
	return nil, j.s.UpdateErr
}

func (j *js) CreateOrUpdateStream(_ context.Context, c jetstream.StreamConfig) (jetstream.Stream, error) {
	j.call("create stream %s %v", c.Name, c.Subjects)
	return nil, j.s.UpdateErr
}

func (j *js) CreateOrUpdateConsumer(_ context.Context, stream string, c jetstream.ConsumerConfig) (jetstream.Consumer, error) {
	j.call("consumer %s of %s", c.Name, stream)
	return &consumer{s: j.s}, j.s.RegisterErr
}

func (j *js) Consumer(_ context.Context, stream, name string) (jetstream.Consumer, error) {
	j.s.mu.Lock()
	defer j.s.mu.Unlock()
	j.call("get consumer %s of %s", name, stream)
	if j.s.ConsumerErr != nil {
		return nil, j.s.ConsumerErr
	}
	return &consumer{s: j.s}, nil
}

func (c *consumer) Consume(h jetstream.MessageHandler, _ ...jetstream.PullConsumeOpt) (jetstream.ConsumeContext, error) {
	s := c.s
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.ConsumeErr != nil {
		return nil, s.ConsumeErr
	}
	if h == nil {
		return nil, errors.New("no handler")
	}
	explore.Log("consume")
	cc := &Consume{s: s, notify: make(chan struct{}, 4096)}
	s.Consumes = append(s.Consumes, cc)
	for range s.Pending {
		cc.notify <- struct{}{}
	}
	go func() {
		for range cc.notify {
			s.mu.Lock()
			if cc.Stopped {
				s.mu.Unlock()
				return
			}
			if len(s.Pending) == 0 {
				s.mu.Unlock()
				continue
			}
			m := s.Pending[0]
			s.Pending = s.Pending[1:]
			s.mu.Unlock()
			h(m)
			s.mu.Lock()
			m.Handled = true
			s.mu.Unlock()
		}
	}()
	return cc, nil
}

// Send adds a message to the stream.
func (s *Server) Send(id, subj string, h nats.Header, data []byte) *Msg {
	m := &Msg{s: s, ID: id, subj: subj, hdr: h, data: data}
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Pending = append(s.Pending, m)
	s.All = append(s.All, m)
	for _, c := range s.Consumes {
		if !c.Stopped {
			c.notify <- struct{}{}
		}
	}
	return m
}

// Active counts the running consumptions.
func (s *Server) Active() int {
	s.mu.Lock()
	defer s.mu.Unlock()
	n := 0
	for _, c := range s.Consumes {
		if !c.Stopped {
			n++
		}
	}
	return n
}

// StopAll ends every consumption, for the end of an execution.
func (s *Server) StopAll() {
	for _, c := range s.Consumes {
		c.Stop()
	}
}
