// Package fakenats is an in-memory stand-in for a NATS server, behind the hooks of the
// patched client library.
package fakenats

import (
	"fmt"
	"sort"
	"strings"
	"sync"

	"github.com/nats-io/nats.go"
	"verifmc/explore"
)

// Server is the stand-in. Its operations have no scheduling point of their own.
type Server struct {
	mu    sync.Mutex
	Conns []*Conn
	Subs  []*Sub
	// Failures, when set.
	ConnectErr, PublishErr, FlushErr, SubscribeErr, DrainErr error
}

// Conn is an open connection.
type Conn struct {
	NC     *nats.Conn
	Opts   nats.Options
	Closed bool
}

// Sub is a subscription on the server.
type Sub struct {
	Conn           *nats.Conn
	Subject, Queue string
	Draining       bool
	S              *nats.Subscription
	cb             nats.MsgHandler
	ch             chan *nats.Msg
}

// Str prints a message.
func Str(subj string, h nats.Header, data []byte) string {
	var k []string
	for n, v := range h {
		k = append(k, fmt.Sprintf("%s=%q", n, v))
	}
	sort.Strings(k)
	return fmt.Sprintf("%s %q[%s]", subj, data, strings.Join(k, ","))
}

// Install puts a new server behind the hooks.
func Install() *Server {
	s := &Server{}
	nats.VerifConnect = func(o nats.Options) (*nats.Conn, error) {
		explore.Log("connect", strings.Join(o.Servers, ","), o.Name)
		if s.ConnectErr != nil {
			return nil, s.ConnectErr
		}
		c := &Conn{NC: &nats.Conn{Opts: o}, Opts: o}
		s.Conns = append(s.Conns, c)
		return c.NC, nil
	}
	nats.VerifPublish = func(nc *nats.Conn, subj, reply string, h nats.Header, data []byte) error {
		explore.Log("publish", s.id(nc), Str(subj, h, data))
		return s.PublishErr
	}
	nats.VerifFlush = func(nc *nats.Conn) error {
		explore.Log("flush", s.id(nc))
		return s.FlushErr
	}
	nats.VerifSubscribe = func(nc *nats.Conn, subj, queue string, cb nats.MsgHandler) (*nats.Subscription, error) {
		explore.Log("subscribe", s.id(nc), subj, queue)
		if s.SubscribeErr != nil {
			return nil, s.SubscribeErr
		}
		sub := &Sub{Conn: nc, Subject: subj, Queue: queue, S: &nats.Subscription{Subject: subj, Queue: queue}, cb: cb, ch: make(chan *nats.Msg, 4096)}
		s.mu.Lock()
		s.Subs = append(s.Subs, sub)
		s.mu.Unlock()
		go func() {
			// one goroutine per subscription calls the handler, message by message
			for m := <-sub.ch; m != nil; m = <-sub.ch {
				cb(m)
				explore.Log("handled", m.Subject, string(m.Data))
			}
		}()
		return sub.S, nil
	}
	end := func(x *nats.Subscription) error {
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.DrainErr != nil {
			return s.DrainErr
		}
		for _, sub := range s.Subs {
			if sub.S == x && !sub.Draining {
				sub.Draining = true
				sub.ch <- nil // what was received is still handled
			}
		}
		return nil
	}
	nats.VerifDrain = func(x *nats.Subscription) error {
		explore.Log("drain", x.Subject)
		return end(x)
	}
	nats.VerifUnsub = func(x *nats.Subscription) error {
		explore.Log("unsubscribe", x.Subject)
		return end(x)
	}
	nats.VerifClose = func(nc *nats.Conn) {
		explore.Log("close", s.id(nc))
		for _, c := range s.Conns {
			if c.NC == nc {
				c.Closed = true
			}
		}
	}
	return s
}

func (s *Server) id(nc *nats.Conn) int {
	for i, c := range s.Conns {
		if c.NC == nc {
			return i
		}
	}
	return -1
}

// Deliver sends a message to the subscriptions of the subject.
func (s *Server) Deliver(subj string, h nats.Header, data []byte) int {
	n := 0
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, sub := range s.Subs {
		if sub.Subject == subj && !sub.Draining {
			sub.ch <- &nats.Msg{Subject: subj, Header: h, Data: data, Sub: sub.S}
			n++
		}
	}
	return n
}

// Stop ends every subscription, for the end of an execution.
func (s *Server) Stop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.DrainErr = nil
	for _, sub := range s.Subs {
		if !sub.Draining {
			sub.Draining = true
			sub.ch <- nil
		}
	}
}
