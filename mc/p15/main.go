// P15: publication and configuration of the Kafka broker controller, on an in-memory
// stand-in for the brokers.
package main

import (
	"context"
	"crypto/tls"
	"errors"
	"fmt"
	"reflect"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers"
	bkafka "github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/kafka"
	"github.com/segmentio/kafka-go"
	"github.com/segmentio/kafka-go/sasl"
	"verifmc/explore"
	"verifmc/fake"
	"verifmc/fakekafka"
)

var errX, errY, errZ = errors.New("error X"), errors.New("error Y"), errors.New("error Z")

type mech struct {
	sasl.Mechanism
	name string
}

var headerSets = []map[string][]byte{nil, {}, {"k": []byte("v")}, {"k": []byte("")}, {"lower-Case": []byte("a:b, c\"é"), "K": []byte("1"), "k": []byte("2")}, {"n": nil}, {" k ": []byte(" v\t"), "": []byte("x"), "asyncapi-version": []byte("1")}, {"content-type": []byte("null"), "long": []byte(strings.Repeat("é", 5000))}}
var payloads = [][]byte{nil, {}, []byte("{}"), []byte("\x00\xff\r\n"), []byte(" null\n"), []byte(strings.Repeat("\xff", 70000))}

func str(h map[string][]byte, p []byte) string {
	m := kafka.Message{Value: p}
	for k, v := range h {
		m.Headers = append(m.Headers, kafka.Header{Key: k, Value: v})
	}
	return fakekafka.Str(m)
}

// checkWrites checks every write of the server: one message, same content, right place.
func checkWrites(x *explore.Exec, s *fakekafka.Server, topic, want, hosts string) (ok int) {
	for _, w := range s.Writes {
		if len(w.Msgs) != 1 || fakekafka.Str(w.Msgs[0]) != want {
			x.Fail("writes %d messages, first %s, want %s", len(w.Msgs), fakekafka.Str(w.Msgs[0]), want)
			continue
		}
		t := w.W.Topic
		if t == "" {
			t = w.Msgs[0].Topic
		} else if w.Msgs[0].Topic != "" {
			x.Fail("topic given twice")
		}
		if t != topic {
			x.Fail("written on topic %q, want %q", t, topic)
		}
		if w.W.Addr == nil || w.W.Addr.String() != hosts {
			x.Fail("written to %v, want %v", w.W.Addr, hosts)
		}
		if w.W.Async {
			x.Fail("the result of the write is not awaited")
		}
		if w.Err == nil {
			ok++
		}
		if n := s.Closed[w.W]; n != 1 {
			x.Fail("the writer is closed %d times", n)
		}
	}
	return ok
}

func checkConns(x *explore.Exec, s *fakekafka.Server) {
	for _, t := range s.BadTopics {
		x.Fail("creates topic %q with %d partitions, %d replicas", t.Topic, t.NumPartitions, t.ReplicationFactor)
	}
	for i, c := range s.Conns {
		if c.Closes == 0 {
			x.Fail("connection %d of %d is left open", i, len(s.Conns))
		}
	}
}

func content(x *explore.Exec) {
	x.Fixed = true
	s := fakekafka.Install()
	h := headerSets[x.Choose(len(headerSets))]
	p := payloads[x.Choose(len(payloads))]
	topic := []string{"a", "a.b-c"}[x.Choose(2)]
	hosts := [][]string{{"h:1"}, {"h:1", "i:2"}}[x.Choose(2)]
	retry := x.Choose(3)
	for i := 0; i < retry; i++ {
		s.WriteErrs = append(s.WriteErrs, kafka.UnknownTopicOrPartition)
	}
	s.WriteErrs = append(s.WriteErrs, nil)
	x.Go("publish", func() {
		c, err := bkafka.NewController(hosts)
		if err != nil {
			x.Fail("no controller: %v", err)
			return
		}
		m := extensions.BrokerMessage{Headers: h, Payload: p}
		before := fake.Str(m)
		if err = c.Publish(context.Background(), topic, m); err != nil {
			x.Fail("error %v", err)
		}
		if fake.Str(m) != before {
			x.Fail("the message of the caller is altered")
		}
		if n := checkWrites(x, s, topic, str(h, p), strings.Join(hosts, ",")); n != 1 {
			x.Fail("%d successful writes", n)
		}
		checkConns(x, s)
	})
	x.Check(func() { x.NoCrashNoDeadlock() })
}

// failures: every sequence of answers of the brokers to a publication.
func failures(x *explore.Exec) {
	x.Fixed = true
	s := fakekafka.Install()
	answers := []error{nil, kafka.UnknownTopicOrPartition, errX, fmt.Errorf("wrapped: %w", kafka.UnknownTopicOrPartition), kafka.LeaderNotAvailable}
	var seq []error
	for i := 0; i < 4; i++ {
		a := answers[x.Choose(len(answers))]
		seq = append(seq, a)
		if !errors.Is(a, kafka.UnknownTopicOrPartition) {
			break
		}
		if i == 3 {
			seq = append(seq, nil)
		}
	}
	s.WriteErrs = append([]error(nil), seq...)
	at := x.Choose(3) // which topic creation is disturbed
	kind := x.Choose(6)
	s.Hidden = x.Choose(3)
	for i := 0; i < at; i++ {
		switch kind {
		case 1:
			s.DialErrs = append(s.DialErrs, nil)
		case 2:
			s.CreateErrs = append(s.CreateErrs, nil)
		case 3:
			s.PartErrs = append(s.PartErrs, nil)
		}
	}
	ctx, cancel := context.WithCancel(context.Background())
	switch kind {
	case 1:
		s.DialErrs = append(s.DialErrs, errY, nil)
	case 2:
		s.CreateErrs = append(s.CreateErrs, errY, nil)
	case 3:
		s.PartErrs = append(s.PartErrs, errY, nil)
	case 4:
		if at == 0 {
			cancel()
		} else {
			n := 0
			s.Hidden = 100
			s.OnList = func() {
				if n++; n == at {
					cancel()
				}
			}
		}
	}
	x.Go("publish", func() {
		c, err := bkafka.NewController([]string{"h:1"}, bkafka.WithConnectionTest(false))
		if err != nil {
			x.Fail("no controller: %v", err)
			return
		}
		if len(s.Conns) > 0 {
			x.Fail("connects although told not to")
		}
		err = c.Publish(ctx, "t", extensions.BrokerMessage{Payload: []byte("p")})
		ok := checkWrites(x, s, "t", `"p"[]`, "h:1")
		checkConns(x, s)
		if (err == nil) != (ok == 1) || ok > 1 {
			x.Fail("result %v after %d successful writes", err, ok)
		}
		// the reference: what the brokers answered until the call returned
		var want error
		for _, w := range s.Writes {
			want = w.Err
		}
		evs := x.Events()
		switch {
		case err == nil:
		case errors.Is(err, errY):
			if kind < 1 || kind > 3 {
				x.Fail("error out of nowhere: %v", err)
			}
		case errors.Is(err, context.Canceled):
			if kind != 4 {
				x.Fail("error out of nowhere: %v", err)
			}
		case want == nil || !errors.Is(err, want) || errors.Is(want, kafka.UnknownTopicOrPartition):
			x.Fail("result %v, the brokers answered %v", err, want)
		}
		if kind == 4 && at == 0 && !errors.Is(err, context.Canceled) {
			x.Fail("the context was done before: %v", err)
		}
		if kind == 0 || kind == 5 {
			if last := seq[len(seq)-1]; last == nil && err != nil || last != nil && !errors.Is(err, last) {
				x.Fail("result %v, the brokers answered %v", err, seq)
			}
			if len(s.Writes) != len(seq) {
				x.Fail("%d writes, the brokers answered %v", len(s.Writes), seq)
			}
		}
		// before each new attempt the topic is created, and seen
		created := false
		for i, e := range evs {
			switch e.K {
			case "create":
				created = true
				if e.A != "t" {
					x.Fail("creates topic %q", e.A)
				}
			case "write":
				if i > 0 && !created {
					x.Fail("written again without creating the topic: %v", evs)
				}
				created = false
			}
		}
	})
	x.Check(func() { x.NoCrashNoDeadlock() })
	x.Cleanup(cancel)
}

func tlsName(t *tls.Config) string {
	if t == nil {
		return ""
	}
	return t.ServerName
}

func saslName(m sasl.Mechanism) string {
	if m == nil {
		return ""
	}
	return m.(mech).name
}

// options: two controllers, each with any combination of options, in one process.
func options(n int) func(x *explore.Exec) {
	return func(x *explore.Exec) {
		x.Fixed = true
		def := *kafka.DefaultDialer
		s := fakekafka.Install()
		type want struct {
			hosts     []string
			group     string
			partition int
			max       int
			tls, sasl string
			manual    bool
			test      bool
		}
		var ws []want
		var opts [][]bkafka.ControllerOption
		for i := 0; i < n; i++ {
			w := want{hosts: []string{fmt.Sprint("h", i, ":1"), "z:9"}, group: brokers.DefaultQueueGroupID, max: 10e6, test: true}
			var o []bkafka.ControllerOption
			if x.Choose(2) == 1 {
				w.tls = fmt.Sprint("tls", i)
				o = append(o, bkafka.WithTLS(&tls.Config{ServerName: w.tls}))
			}
			if x.Choose(2) == 1 {
				w.sasl = fmt.Sprint("sasl", i)
				o = append(o, bkafka.WithSasl(mech{name: w.sasl}))
			}
			if n == 1 || x.Choose(2) == 1 {
				switch x.Choose(6) {
				case 4:
					w.group = ""
					o = append(o, bkafka.WithGroupID(w.group))
				case 5:
					w.group, w.partition = "", 3+i
					o = append(o, bkafka.WithGroupID(w.group), bkafka.WithPartition(w.partition))
				case 1:
					w.group = fmt.Sprint("group", i)
					o = append(o, bkafka.WithGroupID(w.group))
				case 2:
					w.partition = 3 + i
					o = append(o, bkafka.WithPartition(w.partition))
				case 3:
					w.group, w.partition = fmt.Sprint("group", i), 3+i
					o = append(o, bkafka.WithGroupID(w.group), bkafka.WithPartition(w.partition))
				}
				if x.Choose(2) == 1 {
					w.max = 1000 + i
					o = append(o, bkafka.WithMaxBytes(w.max))
				}
				if x.Choose(2) == 1 {
					w.manual = true
					o = append(o, bkafka.WithAutoCommit(false))
				}
				switch x.Choose(3) {
				case 1:
					w.test = false
					o = append(o, bkafka.WithConnectionTest(false))
				case 2:
					o = append(o, bkafka.WithConnectionTest(true))
				}
			}
			if x.Choose(2) == 1 {
				for a, b := 0, len(o)-1; a < b; a, b = a+1, b-1 {
					o[a], o[b] = o[b], o[a]
				}
			}
			ws, opts = append(ws, w), append(opts, o)
		}
		x.Go("main", func() {
			var cs []*bkafka.Controller
			checkConn := func(i, from int) {
				for _, c := range s.Conns[from:] {
					if c.Address != "tcp "+ws[i].hosts[0] {
						x.Fail("connects to %s", c.Address)
					}
					if tlsName(c.D.TLS) != ws[i].tls || saslName(c.D.SASLMechanism) != ws[i].sasl {
						x.Fail("controller %d connects with TLS %q and SASL %q, want %q and %q", i, tlsName(c.D.TLS), saslName(c.D.SASLMechanism), ws[i].tls, ws[i].sasl)
					}
				}
			}
			for i, w := range ws {
				n := len(s.Conns)
				c, err := bkafka.NewController(w.hosts, opts[i]...)
				if err != nil {
					x.Fail("no controller: %v", err)
					return
				}
				cs = append(cs, c)
				if w.test != (len(s.Conns) > n) || w.test && explore.Count(x.Events(), "brokers", "") == 0 {
					x.Fail("connection tested: %d connections, asked: %v", len(s.Conns)-n, w.test)
				}
				checkConn(i, n)
			}
			for _, i := range []int{0, n - 1} {
				w := ws[i]
				from, before, nw := len(s.Conns), len(s.Readers), len(s.Writes)
				sub, err := cs[i].Subscribe(context.Background(), "t")
				if w.group != "" && w.partition != 0 {
					// the client library has no such reader
					if err == nil {
						x.Fail("group and partition: no error")
					}
				} else {
					if err != nil || len(s.Readers) != before+1 {
						x.Fail("subscribe: %v", err)
						return
					}
					c := s.Readers[before].C
					if !reflect.DeepEqual(c.Brokers, w.hosts) || c.GroupID != w.group || c.Partition != w.partition || c.MaxBytes != w.max || c.Topic != "t" || c.Dialer == nil {
						x.Fail("reader of controller %d: %v %v %v %v %v, want %+v", i, c.Brokers, c.GroupID, c.Partition, c.MaxBytes, c.Topic, w)
						return
					}
					if tlsName(c.Dialer.TLS) != w.tls || saslName(c.Dialer.SASLMechanism) != w.sasl {
						x.Fail("reader of controller %d: TLS %q SASL %q, want %+v", i, tlsName(c.Dialer.TLS), saslName(c.Dialer.SASLMechanism), w)
					}
					s.Deliver("t", kafka.Message{Value: []byte("m")}, nil)
					m := <-sub.MessagesChannel()
					m.Ack()
					k := explore.Count(x.Events(), "commit", "t m")
					if w.manual != (k > 0) {
						x.Fail("manual %v, %d commits", w.manual, k)
					}
					explore.Log("reset")
					sub.Cancel(context.Background())
					s.Readers[before].C.Topic = "over"
				}
				s.WriteErrs = []error{kafka.UnknownTopicOrPartition, nil}
				if err := cs[i].Publish(context.Background(), "t", extensions.BrokerMessage{}); err != nil {
					x.Fail("publish: %v", err)
				}
				checkConn(i, from)
				for _, wr := range s.Writes[nw:] {
					t, _ := wr.W.Transport.(*kafka.Transport)
					if t == nil {
						t = &kafka.Transport{}
					}
					if tlsName(t.TLS) != w.tls || saslName(t.SASL) != w.sasl || wr.W.Addr.String() != strings.Join(w.hosts, ",") {
						x.Fail("writer of controller %d: TLS %q SASL %q to %v, want %+v", i, tlsName(t.TLS), saslName(t.SASL), wr.W.Addr, w)
					}
				}
				if i == 0 && n == 1 || w.manual {
					break
				}
			}
			checkConns(x, s)
			if !reflect.DeepEqual(def, *kafka.DefaultDialer) {
				x.Fail("the default dialer of the library is changed")
				*kafka.DefaultDialer = def
			}
		})
		x.Check(func() { x.NoCrashNoDeadlock() })
		x.Cleanup(func() { *kafka.DefaultDialer = def; s.Stop() })
	}
}

// setup: failures of the creation of controllers and of subscriptions.
func setup(x *explore.Exec) {
	x.Fixed = true
	s := fakekafka.Install()
	kind := x.Choose(7)
	s.Hidden = x.Choose(3)
	ctx, cancel := context.WithCancel(context.Background())
	x.Go("main", func() {
		switch kind {
		case 1:
			s.DialErrs = []error{errX, nil}
		case 2:
			s.BrokersErrs = []error{errX, nil}
		}
		c, err := bkafka.NewController([]string{"h:1"})
		if kind == 1 || kind == 2 {
			if !errors.Is(err, errX) || c != nil {
				x.Fail("failure of the connection: %v, %v", c, err)
			}
			checkConns(x, s)
			return
		}
		if err != nil {
			x.Fail("no controller: %v", err)
			return
		}
		switch kind {
		case 3:
			s.DialErrs = []error{errX, nil}
		case 4:
			s.CreateErrs = []error{errX, nil}
		case 5:
			s.PartErrs = []error{errX, nil}
		case 6:
			s.Hidden = 1000
			n := 0
			s.OnList = func() {
				if n++; n == 2 {
					cancel()
				}
			}
		}
		sub, err := c.Subscribe(ctx, "t")
		if kind == 0 {
			if err != nil || len(s.Readers) != 1 {
				x.Fail("subscribe: %v", err)
			}
			sub.Cancel(context.Background())
		} else if kind == 6 && !errors.Is(err, context.Canceled) || kind < 6 && !errors.Is(err, errX) || len(s.Readers) > 0 {
			x.Fail("failing subscription: %v, %d readers", err, len(s.Readers))
		}
		checkConns(x, s)
	})
	x.Check(func() { x.NoCrashNoDeadlock() })
	x.Cleanup(func() { cancel(); s.Stop() })
}

// concurrent: publications of one controller at the same time.
func concurrent(x *explore.Exec) {
	s := fakekafka.Install()
	s.WriteErrs = []error{kafka.UnknownTopicOrPartition, nil}
	c, err := bkafka.NewController([]string{"h:1"}, bkafka.WithConnectionTest(false))
	if err != nil {
		x.Fail("no controller: %v", err)
		return
	}
	for i := 0; i < 2; i++ {
		i := i
		x.Go(fmt.Sprint("publish", i), func() {
			if err := c.Publish(context.Background(), fmt.Sprint("t", i), extensions.BrokerMessage{Payload: []byte(fmt.Sprint(i))}); err != nil {
				x.Fail("publish: %v", err)
			}
		})
	}
	x.Check(func() {
		x.NoCrashNoDeadlock()
		ok := map[string]int{}
		for _, w := range s.Writes {
			if len(w.Msgs) != 1 || w.W.Topic != "t"+string(w.Msgs[0].Value) || s.Closed[w.W] != 1 {
				x.Fail("written on %s: %v", w.W.Topic, w.Msgs)
			}
			if w.Err == nil {
				ok[w.W.Topic]++
			}
		}
		if ok["t0"] != 1 || ok["t1"] != 1 {
			x.Fail("writes: %v", ok)
		}
		checkConns(x, s)
	})
}

func main() {
	explore.Main([]string{"verifmc/fakekafka."}, func() []*explore.Scenario {
		return []*explore.Scenario{
			{Name: "content", NoSleep: true, Body: content},
			{Name: "failures", NoSleep: true, Body: failures},
			{Name: "options-1", NoSleep: true, Body: options(1)},
			{Name: "options-2", NoSleep: true, Body: options(2)},
			{Name: "setup", NoSleep: true, Body: setup},
			{Name: "concurrent", NoSleep: true, Quick: 4, Thorough: 8, Race: true, RaceBound: 3, Body: concurrent},
		}
	})
}
