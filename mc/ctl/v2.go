package ctl

import g "verifmc/gen/ctl2"

func v2plain(m g.PlainMessage) Msg {
	return Msg{Text: m.Payload.Text, Num: m.Payload.Num, Note: m.Headers.Note, ReplyTo: m.Headers.ReplyTo}
}
func (m Msg) v2plain() (r g.PlainMessage) {
	r.Payload.Text, r.Payload.Num, r.Headers.Note, r.Headers.ReplyTo = m.Text, m.Num, m.Note, m.ReplyTo
	return r
}
func v2corr(m g.CorrMessage) Msg {
	return Msg{Text: m.Payload.Text, Num: m.Payload.Num, Note: m.Headers.Note, ReplyTo: m.Headers.ReplyTo, Corr: m.Headers.CorrelationId}
}
func (m Msg) v2corr() (r g.CorrMessage) {
	r.Payload.Text, r.Payload.Num, r.Headers.Note, r.Headers.ReplyTo, r.Headers.CorrelationId = m.Text, m.Num, m.Note, m.ReplyTo, m.Corr
	return r
}

// V2Response builds the reply to a request by the generated helper.
func V2Response(req Msg) Msg {
	q := req.v2corr()
	var r g.CorrMessage
	r.SetAsResponseFrom(&q)
	return v2corr(r)
}
