// P01: cancellation of a channel subscription.
package main

import (
	"context"
	"fmt"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifmc/explore"
)

type noAck struct{}

func (noAck) AckMessage() {}
func (noAck) NakMessage() {}

func msg(id string) extensions.AcknowledgeableBrokerMessage {
	return extensions.NewAcknowledgeableBrokerMessage(extensions.BrokerMessage{Payload: []byte(id)}, noAck{})
}

type cfg struct {
	cap, cancelCap int
	deliverers     int
	msgs           int
	read           int // messages read by the consumer before it stops; -1: until closed; -2: the canceller reads what is left after cancelling
	ctx            string
	slowCleanup    bool
}

func (c cfg) String() string {
	return fmt.Sprintf("cap%d-cancel%d-d%dx%d-read%d-ctx%s-slow%v", c.cap, c.cancelCap, c.deliverers, c.msgs, c.read, c.ctx, c.slowCleanup)
}

func scenario(c cfg, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: c.String(), Quick: quick, Thorough: thorough, Race: c.deliverers == 1 && c.cancelCap == 1, RaceBound: 3, NoSleep: true, Body: func(x *explore.Exec) {
		messages := make(chan extensions.AcknowledgeableBrokerMessage, c.cap)
		sub := extensions.NewBrokerChannelSubscription(messages, make(chan any, c.cancelCap))
		ctx, cancel := context.WithCancel(context.Background())
		gate := make(chan struct{})
		x.Go("broker", func() {
			sub.WaitForCancellationAsync(func() {
				explore.Log("cleaning")
				if c.slowCleanup {
					<-gate
				}
				explore.Log("cleanup")
			})
			for d := 0; d < c.deliverers; d++ {
				d := d
				go func() {
					for i := 0; i < c.msgs; i++ {
						id := fmt.Sprintf("%c%d", 'a'+d, i)
						sub.TransmitReceivedMessage(msg(id))
						explore.Log("delivered", id)
					}
				}()
			}
		})
		if c.read != -2 {
			x.Go("consumer", func() {
				for n := 0; n != c.read; n++ {
					m, open := <-sub.MessagesChannel()
					if !open {
						explore.Log("closed")
						return
					}
					explore.Log("read", string(m.Payload))
				}
			})
		}
		x.Go("canceller", func() {
			explore.Log("cancel")
			sub.Cancel(ctx)
			explore.Log("cancelled")
			for c.read == -2 {
				select {
				case m, open := <-sub.MessagesChannel():
					if !open {
						explore.Log("closed")
						return
					}
					explore.Log("read", string(m.Payload))
				default:
					explore.Log("still open")
					return
				}
			}
		})
		switch c.ctx {
		case "cancel":
			x.Go("ctx", func() { explore.Log("ctx"); cancel() })
		case "dead":
			x.S.AddLog(explore.Ev{K: "ctx"})
			cancel()
		}
		if c.slowCleanup {
			x.Stage(func() {
				// nothing can move until the clean-up goes on; a done context must already have released the caller
				if explore.Index(x.Events(), "cancelled", "") < 0 {
					x.Fail("cancel did not return although its context is done")
				}
				close(gate)
			})
		}
		x.Check(func() {
			x.NoCrashNoDeadlock()
			if len(x.Crashes()) > 0 {
				return
			}
			evs := x.Events()
			at := func(k string) int { return explore.Index(evs, k, "") }
			if n := explore.Count(evs, "cleanup", ""); n != 1 {
				x.Fail("clean-up ran %d times", n)
			}
			if at("cancelled") < 0 {
				x.Fail("cancel did not return")
			}
			ctxDone := at("ctx") >= 0 && at("ctx") < at("cancelled")
			if at("cancelled") < at("cleanup") && !ctxDone {
				x.Fail("cancel returned before the clean-up was done")
			}
			if at("closed") >= 0 && at("closed") < at("cleanup") {
				x.Fail("message channel closed before the clean-up was done")
			}
			if at("still open") >= 0 && !ctxDone {
				x.Fail("message channel still open after cancel returned")
			}
			if c.read == -1 && at("closed") < 0 {
				x.Fail("consumer never saw the channel closed")
			}
			// what the consumer left is still there, then the channel is closed
			left := 0
			for {
				m, open := recvNow(sub)
				if !open {
					break
				}
				if left++; left > c.cap {
					x.Fail("message channel not closed at the end")
					break
				}
				x.S.AddLog(explore.Ev{K: "read", A: string(m.Payload)})
			}
			evs = x.Events()
			read := explore.Args(evs, "read")
			last := map[byte]string{}
			for _, id := range read {
				if id <= last[id[0]] {
					x.Fail("message %s read after %s", id, last[id[0]])
				}
				last[id[0]] = id
			}
			for i, e := range evs {
				if e.K == "delivered" && i < at("cancel") && explore.Index(evs, "read", e.A) < 0 {
					x.Fail("message %s was delivered before the cancellation but can not be read", e.A)
				}
			}
		})
	}}
}

func recvNow(sub extensions.BrokerChannelSubscription) (m extensions.AcknowledgeableBrokerMessage, open bool) {
	select {
	case m, open = <-sub.MessagesChannel():
		return m, open
	default:
		return m, true
	}
}

// late: deliveries that only start once the cancellation has completed.
func late(capacity int) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("late-cap%d", capacity), Quick: 8, Thorough: 12, NoSleep: true, Body: func(x *explore.Exec) {
		sub := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, capacity), make(chan any, 1))
		x.Go("main", func() {
			sub.WaitForCancellationAsync(func() { explore.Log("cleanup") })
			sub.Cancel(context.Background())
			explore.Log("cancelled")
			sub.TransmitReceivedMessage(msg("z"))
			if m, open := <-sub.MessagesChannel(); open {
				x.Fail("message %s delivered after the end of the subscription is readable", m.Payload)
			}
		})
		x.Check(func() { x.NoCrashNoDeadlock() })
	}}
}

// twice: the subscription is cancelled again, at the same time or afterwards.
func twice(capacity, cancelCap int, how string, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: fmt.Sprintf("twice-cap%d-cancel%d-%s", capacity, cancelCap, how), Quick: quick, Thorough: thorough, NoSleep: true,
		Race: true, RaceBound: 2, Body: func(x *explore.Exec) {
			sub := extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, capacity), make(chan any, cancelCap))
			stop := func(who string, ctx context.Context) {
				sub.Cancel(ctx)
				explore.Log("cancelled", who)
			}
			x.Go("broker", func() {
				sub.WaitForCancellationAsync(func() { explore.Log("cleanup") })
				sub.TransmitReceivedMessage(msg("a"))
			})
			switch how {
			case "concurrent":
				x.Go("c1", func() { stop("1", context.Background()) })
				x.Go("c2", func() { stop("2", context.Background()) })
			case "after":
				x.Go("c1", func() {
					stop("1", context.Background())
					stop("2", context.Background())
				})
			case "after-dead":
				x.Go("c1", func() {
					ctx, cancel := context.WithCancel(context.Background())
					cancel()
					sub.Cancel(ctx)
					stop("2", context.Background())
				})
			}
			x.Check(func() {
				x.NoCrashNoDeadlock()
				evs := x.Events()
				if n := explore.Count(evs, "cleanup", ""); n != 1 {
					x.Fail("%d cleanups", n)
				}
				if explore.Index(evs, "cancelled", "") < explore.Index(evs, "cleanup", "") {
					x.Fail("a cancellation returned before the cleanup")
				}
				for {
					m, open := recvNow(sub)
					if open && m.Payload == nil {
						x.Fail("message channel still open")
					}
					if !open || m.Payload == nil {
						break
					}
				}
			})
		}}
}

// two independent subscriptions do not disturb each other.
func pair() *explore.Scenario {
	return &explore.Scenario{Name: "pair", Quick: 5, Thorough: 8, NoSleep: true, Body: func(x *explore.Exec) {
		mk := func() extensions.BrokerChannelSubscription {
			return extensions.NewBrokerChannelSubscription(make(chan extensions.AcknowledgeableBrokerMessage, 1), make(chan any, 1))
		}
		a, b := mk(), mk()
		x.Go("a", func() {
			a.WaitForCancellationAsync(func() { explore.Log("cleanup a") })
			go a.TransmitReceivedMessage(msg("a"))
			a.Cancel(context.Background())
			explore.Log("cancelled a")
		})
		x.Go("b", func() {
			b.WaitForCancellationAsync(func() { explore.Log("cleanup b"); x.Fail("subscription b cleaned up without being cancelled") })
			go b.TransmitReceivedMessage(msg("b"))
			m, open := <-b.MessagesChannel()
			if !open || string(m.Payload) != "b" {
				x.Fail("subscription b lost its message")
			}
		})
		x.Check(func() {
			for _, c := range x.Crashes() {
				x.Fail("crash in %s", c)
			}
			if x.Unfinished("a") || x.Unfinished("b") {
				x.Fail("never completes: %v", x.Blocked())
			}
		})
		x.Cleanup(func() { b.Cancel(context.Background()) })
	}}
}

func main() {
	explore.Main(nil, func() []*explore.Scenario {
		var s []*explore.Scenario
		for _, cc := range []int{1, 0} {
			for _, cp := range []int{0, 1, 2} {
				for _, read := range []int{-1, 0, 1, -2} {
					for _, cx := range []string{"", "cancel", "dead"} {
						if cc == 0 && cx != "" {
							continue
						}
						s = append(s, scenario(cfg{cp, cc, 1, 2, read, cx, false}, 5, 9))
						if cx != "" && read == -1 {
							s = append(s, scenario(cfg{cp, cc, 1, 1, read, cx, true}, 6, 9))
						}
					}
				}
			}
		}
		for _, cp := range []int{0, 1, 2} {
			s = append(s, scenario(cfg{cp, 1, 2, 1, -1, "", false}, 5, 8))
			s = append(s, scenario(cfg{cp, 1, 2, 2, 1, "", false}, 4, 7))
			s = append(s, scenario(cfg{cp, 1, 1, 3, -2, "", false}, 6, 9))
			s = append(s, late(cp))
			for _, how := range []string{"concurrent", "after", "after-dead"} {
				s = append(s, twice(cp, 1, how, 6, 9))
			}
			s = append(s, twice(cp, 0, "after", 6, 9), twice(cp, 0, "concurrent", 6, 9))
		}
		s = append(s, pair())
		return s
	})
}
