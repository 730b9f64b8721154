package ctl

import g "verifmc/gen/ctl3"

func v3plain(m g.PlainMessage) Msg {
	return Msg{Text: m.Payload.Text, Num: m.Payload.Num, Note: m.Headers.Note, ReplyTo: m.Headers.ReplyTo}
}
func (m Msg) v3plain() (r g.PlainMessage) {
	r.Payload.Text, r.Payload.Num, r.Headers.Note, r.Headers.ReplyTo = m.Text, m.Num, m.Note, m.ReplyTo
	return r
}
func v3corr(m g.CorrMessage) Msg {
	return Msg{Text: m.Payload.Text, Num: m.Payload.Num, Note: m.Headers.Note, ReplyTo: m.Headers.ReplyTo, Corr: m.Headers.CorrelationId}
}
func (m Msg) v3corr() (r g.CorrMessage) {
	r.Payload.Text, r.Payload.Num, r.Headers.Note, r.Headers.ReplyTo, r.Headers.CorrelationId = m.Text, m.Num, m.Note, m.ReplyTo, m.Corr
	return r
}
func v3dyn(m g.DynMessage) Msg {
	return Msg{Text: m.Payload.Text, Num: m.Payload.Num, Note: m.Headers.Note, ReplyTo: m.Headers.ReplyTo, Corr: m.Headers.CorrelationId}
}
func (m Msg) v3dyn() (r g.DynMessage) {
	r.Payload.Text, r.Payload.Num, r.Headers.Note, r.Headers.ReplyTo, r.Headers.CorrelationId = m.Text, m.Num, m.Note, m.ReplyTo, m.Corr
	return r
}
func v3dynr(m g.DynRMessage) Msg {
	return Msg{Text: m.Payload.Text, Num: m.Payload.Num, Note: m.Headers.Note, ReplyTo: &m.Headers.ReplyTo}
}
func (m Msg) v3dynr() (r g.DynRMessage) {
	r.Payload.Text, r.Payload.Num, r.Headers.Note, r.Headers.ReplyTo = m.Text, m.Num, m.Note, deref(m.ReplyTo)
	return r
}
func v3reply(m g.CorrReplyMessage) Msg {
	return Msg{Text: m.Payload.Text, Num: m.Payload.Num, Note: m.Headers.Note, Corr: &m.Headers.CorrelationId}
}
func (m Msg) v3reply() (r g.CorrReplyMessage) {
	r.Payload.Text, r.Payload.Num, r.Headers.Note, r.Headers.CorrelationId = m.Text, m.Num, m.Note, deref(m.Corr)
	return r
}
func v3nc(m g.NcReplyMessage) Msg {
	return Msg{Text: m.Payload.Text, Num: m.Payload.Num, Note: m.Headers.Note}
}
func (m Msg) v3nc() (r g.NcReplyMessage) {
	r.Payload.Text, r.Payload.Num, r.Headers.Note = m.Text, m.Num, m.Note
	return r
}
