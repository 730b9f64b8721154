// P02: at most one decision per message.
package main

import (
	"context"
	"fmt"
	"reflect"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifmc/explore"
	"verifmc/fake"
)

func bm(shape int) extensions.BrokerMessage {
	switch shape {
	case 0:
		return extensions.BrokerMessage{}
	case 1:
		return extensions.BrokerMessage{Payload: []byte("p")}
	case 2:
		return extensions.BrokerMessage{Headers: map[string][]byte{"h": []byte("v"), "e": {}}, Payload: []byte("{}")}
	}
	return extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: []byte{}}
}

// decide performs a sequence of decisions on m and returns the expected log.
func decide(x *explore.Exec, m *extensions.AcknowledgeableBrokerMessage, id string, n int) (want []string) {
	for i := 0; i < n; i++ {
		k := explore.Choose(2, "decision")
		if k == 0 {
			m.Ack()
		} else {
			m.Nak()
		}
		if i == 0 {
			want = append(want, []string{"ack ", "nak "}[k]+id)
		}
	}
	return want
}

func main() {
	explore.Main(nil, func() []*explore.Scenario {
		var s []*explore.Scenario
		max := 7
		for hops := 0; hops <= 2; hops++ {
			for shape := 0; shape < 4; shape++ {
				hops, shape := hops, shape
				s = append(s, &explore.Scenario{Name: fmt.Sprintf("hops%d-shape%d", hops, shape), Quick: 0, Thorough: 0, NoSleep: true, Body: func(x *explore.Exec) {
					var want []string
					var got extensions.BrokerMessage
					x.Go("main", func() {
						m := extensions.NewAcknowledgeableBrokerMessage(bm(shape), fake.Ack{ID: "m"})
						for h := 0; h < hops; h++ {
							sub := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, 1), make(chan any, 1))
							sub.WaitForCancellationAsync(func() {})
							sub.TransmitReceivedMessage(m)
							m = <-sub.MessagesChannel()
							sub.Cancel(context.Background())
						}
						want = decide(x, &m, "m", explore.Choose(max+1, "length"))
						got = m.BrokerMessage
					})
					x.Check(func() {
						x.NoCrashNoDeadlock()
						if h := x.History(); strings.Join(h, ",") != strings.Join(want, ",") {
							x.Fail("broker was told %v, want %v", h, want)
						}
						if !reflect.DeepEqual(got, bm(shape)) {
							x.Fail("message content changed: %v", got)
						}
					})
				}})
			}
		}
		// several messages of one subscription are decided independently
		s = append(s, &explore.Scenario{Name: "independent", Quick: 0, Thorough: 0, NoSleep: true, Body: func(x *explore.Exec) {
			var want []string
			x.Go("main", func() {
				a := extensions.NewAcknowledgeableBrokerMessage(bm(2), fake.Ack{ID: "a"})
				b := extensions.NewAcknowledgeableBrokerMessage(bm(2), fake.Ack{ID: "b"})
				first := map[string]bool{}
				n := explore.Choose(max, "length")
				for i := 0; i < n; i++ {
					k := explore.Choose(4, "op")
					m, id := &a, "a"
					if k >= 2 {
						m, id = &b, "b"
					}
					if k%2 == 0 {
						m.Ack()
					} else {
						m.Nak()
					}
					if !first[id] {
						first[id] = true
						want = append(want, []string{"ack ", "nak "}[k%2]+id)
					}
				}
			})
			x.Check(func() {
				x.NoCrashNoDeadlock()
				if h := x.History(); strings.Join(h, ",") != strings.Join(want, ",") {
					x.Fail("broker was told %v, want %v", h, want)
				}
			})
		}})
		return s
	})
}
