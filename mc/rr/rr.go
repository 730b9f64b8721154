// Package rr holds what the request/reply harnesses share.
package rr

import (
	"context"
	"fmt"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"verifmc/ctl"
)

// Reply kinds.
const (
	Match = iota
	Other
	None
	Undecodable
	Empty
	Match2
	Kinds
)

// Names of the reply kinds.
var Names = []string{"match", "other", "none", "undecodable", "empty", "match-again"}

// HasCorr tells if the replies of a channel are correlated.
func HasCorr(ch string) bool { return ch == "corr" || ch == "dyn" }

// Addr is where the replies to a request on ch are expected (dyn: the address given in the request).
func Addr(s ctl.Side, c *ctl.C, ch, dyn string) string {
	switch {
	case s.Name == "v2user":
		return ctl.Addr(c.R, ch, "", "")
	case ch == "dyn" || ch == "dynr":
		return dyn
	}
	return ctl.ReplyAddr(c.W, ch)
}

// Request is the message of a request.
func Request(ch, text, corr, dyn string) ctl.Msg {
	m := ctl.Msg{Text: text}
	if HasCorr(ch) && corr != "" {
		m.Corr = ctl.S(corr)
	}
	if ch == "dyn" || ch == "dynr" {
		m.ReplyTo = ctl.S(dyn)
	}
	return m
}

// Message is a reply of the given kind for the correlation identifier corr.
func Message(ch string, kind, i int, corr string) extensions.BrokerMessage {
	if kind == Empty {
		return extensions.BrokerMessage{}
	}
	m := extensions.BrokerMessage{Headers: map[string][]byte{}, Payload: []byte(fmt.Sprintf(`{"text":"%s%d"}`, Names[kind], i))}
	if HasCorr(ch) {
		m.Headers["correlationId"] = []byte(corr)
		switch kind {
		case Other:
			m.Headers["correlationId"] = []byte("other")
		case None:
			delete(m.Headers, "correlationId")
		}
	}
	if kind == Undecodable {
		m.Payload = []byte("{")
	}
	return m
}

// Wanted is the index of the reply to be returned, or -1.
func Wanted(ch string, kinds []int) int {
	for i, k := range kinds {
		switch {
		case k == Undecodable || k == Empty:
		case HasCorr(ch) && (k == Other || k == None):
		default:
			return i
		}
	}
	return -1
}

// Text of a reply.
func Text(kind, i int) string { return fmt.Sprintf("%s%d", Names[kind], i) }

// Done is a context that is done.
func Done() context.Context {
	ctx, cancel := context.WithCancel(context.Background())
	cancel()
	return ctx
}
