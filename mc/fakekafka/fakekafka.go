// Package fakekafka is an in-memory stand-in for Kafka brokers, behind the hooks of the
// patched client library.
package fakekafka

import (
	"context"
	"errors"
	"fmt"
	"io"
	"sort"
	"strings"
	"sync"

	"github.com/segmentio/kafka-go"
	"verifmc/explore"
)

// Server is the stand-in.
type Server struct {
	mu      sync.Mutex
	Readers []*Reader
	Conns   []*Conn
	Writes  []*Write
	Closed  map[*kafka.Writer]int
	Topics  []string
	// BadTopics are those created with another shape than one partition and
	// one replica.
	BadTopics []kafka.TopicConfig
	// Answers, taken in order; the last one stays.
	WriteErrs, CreateErrs, PartErrs, BrokersErrs, DialErrs []error
	// CommitErr and CloseErr fail commits and the closing of readers.
	CommitErr, CloseErr error
	// Hidden is how many times a created topic is not listed yet.
	Hidden int
	// Drain makes a closed reader return the messages it had already received.
	Drain bool
	// OnList is called when the partitions are listed.
	OnList func()
}

// Reader is a reader with the messages it will return.
type Reader struct {
	s      *Server
	R      *kafka.Reader
	C      kafka.ReaderConfig
	msgs   chan item
	closed chan struct{}
	Closes int
}

type item struct {
	m   kafka.Message
	err error
}

// Conn is a connection.
type Conn struct {
	C       *kafka.Conn
	D       kafka.Dialer
	Address string
	Closes  int
}

// Write is one call.
type Write struct {
	W    *kafka.Writer
	Msgs []kafka.Message
	Err  error
}

// Str prints a message.
func Str(m kafka.Message) string {
	var k []string
	for _, h := range m.Headers {
		k = append(k, fmt.Sprintf("%s=%q", h.Key, h.Value))
	}
	sort.Strings(k)
	return fmt.Sprintf("%q[%s]", m.Value, strings.Join(k, ","))
}

func next(l *[]error) error {
	if len(*l) == 0 {
		return nil
	}
	e := (*l)[0]
	if len(*l) > 1 {
		*l = (*l)[1:]
	}
	return e
}

// Install puts a new server behind the hooks.
func Install() *Server {
	s := &Server{Closed: map[*kafka.Writer]int{}}
	kafka.VerifWrite = func(w *kafka.Writer, ctx context.Context, msgs []kafka.Message) error {
		s.mu.Lock()
		defer s.mu.Unlock()
		err := next(&s.WriteErrs)
		if e := ctx.Err(); e != nil {
			err = e
		}
		if s.Closed[w] > 0 {
			err = io.ErrClosedPipe
		}
		s.Writes = append(s.Writes, &Write{w, append([]kafka.Message(nil), msgs...), err})
		explore.Log("write", err == nil)
		return err
	}
	kafka.VerifWriterClose = func(w *kafka.Writer) error {
		s.mu.Lock()
		defer s.mu.Unlock()
		s.Closed[w]++
		return nil
	}
	kafka.VerifNewReader = func(c kafka.ReaderConfig) *kafka.Reader {
		if err := c.Validate(); err != nil {
			panic(err) // as the real one
		}
		r := &Reader{s: s, R: kafka.VerifReader(c), C: c, msgs: make(chan item, 4096), closed: make(chan struct{})}
		s.mu.Lock()
		s.Readers = append(s.Readers, r)
		s.mu.Unlock()
		return r.R
	}
	kafka.VerifRead = func(k *kafka.Reader, ctx context.Context) (kafka.Message, error) {
		r := s.reader(k)
		m, err := r.read(ctx)
		if err == nil && r.C.GroupID != "" {
			explore.Log("committed by reading", r.C.Topic, string(m.Value))
		}
		return m, err
	}
	kafka.VerifFetch = func(k *kafka.Reader, ctx context.Context) (kafka.Message, error) { return s.reader(k).read(ctx) }
	kafka.VerifCommit = func(k *kafka.Reader, ctx context.Context, msgs []kafka.Message) error {
		r := s.reader(k)
		for _, m := range msgs {
			explore.Log("commit", r.C.Topic, string(m.Value))
		}
		if r.C.GroupID == "" {
			return errors.New("unavailable when GroupID is not set")
		}
		if err := ctx.Err(); err != nil {
			return err
		}
		select {
		case <-r.closed:
			return io.ErrClosedPipe
		default:
		}
		return s.CommitErr
	}
	kafka.VerifReaderClose = func(k *kafka.Reader) error {
		r := s.reader(k)
		s.mu.Lock()
		r.Closes++
		if r.Closes == 1 {
			close(r.closed)
		}
		s.mu.Unlock()
		explore.Log("close", r.C.Topic)
		return s.CloseErr
	}
	kafka.VerifDial = func(d *kafka.Dialer, _ context.Context, network, address string) (*kafka.Conn, error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if err := next(&s.DialErrs); err != nil {
			return nil, err
		}
		c := &Conn{C: &kafka.Conn{}, D: *d, Address: network + " " + address}
		s.Conns = append(s.Conns, c)
		return c.C, nil
	}
	kafka.VerifBrokers = func(c *kafka.Conn) ([]kafka.Broker, error) {
		explore.Log("brokers")
		return nil, s.on(c, next(&s.BrokersErrs))
	}
	kafka.VerifCreate = func(c *kafka.Conn, t []kafka.TopicConfig) error {
		s.mu.Lock()
		defer s.mu.Unlock()
		err := s.on(c, next(&s.CreateErrs))
		for _, x := range t {
			explore.Log("create", x.Topic)
			// Only then does every reader of the topic, with a group or without,
			// get all messages, and in the order they were written; and a
			// cluster of a single broker holds no second replica.
			if x.NumPartitions != 1 || x.ReplicationFactor != 1 {
				s.BadTopics = append(s.BadTopics, x)
			}
			if err == nil {
				s.Topics = append(s.Topics, x.Topic)
			}
		}
		return err
	}
	kafka.VerifPartitions = func(c *kafka.Conn, topics []string) ([]kafka.Partition, error) {
		s.mu.Lock()
		defer s.mu.Unlock()
		explore.Log("list")
		if s.OnList != nil {
			s.OnList()
		}
		p := []kafka.Partition{{Topic: "some-other-topic"}, {Topic: ""}, {Topic: "tt"}, {Topic: "u.t"}, {Topic: "T"}, {Topic: "U"}, {Topic: "uu"}, {Topic: " t"}}
		if err := s.on(c, next(&s.PartErrs)); err != nil {
			return nil, err
		}
		if s.Hidden > 0 {
			s.Hidden--
			return p, nil
		}
		for _, t := range s.Topics {
			p = append(p, kafka.Partition{Topic: t})
		}
		return p, nil
	}
	kafka.VerifConnClose = func(c *kafka.Conn) error {
		s.mu.Lock()
		defer s.mu.Unlock()
		for _, x := range s.Conns {
			if x.C == c {
				x.Closes++
			}
		}
		return nil
	}
	return s
}

func (s *Server) on(c *kafka.Conn, err error) error {
	for _, x := range s.Conns {
		if x.C == c && x.Closes == 0 {
			return err
		}
	}
	return errors.New("the connection is closed")
}

func (s *Server) reader(k *kafka.Reader) *Reader {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, r := range s.Readers {
		if r.R == k {
			return r
		}
	}
	panic("unknown reader")
}

func (r *Reader) read(ctx context.Context) (kafka.Message, error) {
	explore.Log("reading", r.C.Topic)
	select {
	case i := <-r.msgs:
		if i.err != nil {
			explore.Log("failed", r.C.Topic)
		} else {
			explore.Log("read", r.C.Topic, string(i.m.Value))
		}
		return i.m, i.err
	case <-r.closed:
		if r.s.Drain {
			select {
			case i := <-r.msgs:
				return i.m, i.err
			default:
			}
		}
		return kafka.Message{}, io.EOF
	case <-ctx.Done():
		return kafka.Message{}, ctx.Err()
	}
}

// Deliver adds a message to the readers of the topic.
func (s *Server) Deliver(topic string, m kafka.Message, err error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	m.Topic = topic
	for _, r := range s.Readers {
		if r.C.Topic == topic {
			r.msgs <- item{m, err}
		}
	}
}

// Stop closes what is left, for the end of an execution.
func (s *Server) Stop() {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, r := range s.Readers {
		if r.Closes == 0 {
			r.Closes++
			close(r.closed)
		}
	}
}
