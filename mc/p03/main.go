// P03: routing and tagging by the versioning wrapper, over all operation histories.
package main

import (
	"context"
	"errors"
	"fmt"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/versioning"
	"verifmc/explore"
	"verifmc/fake"
)

var errDown = errors.New("broker down")

type config struct {
	def    string // default version; "-" for none
	header string // "" for the default header key
}

type wsub struct {
	id   string
	sub  extensions.BrokerChannelSubscription
	ok   bool
	want []string
	live bool
}

const ch = "chan"

type world struct {
	x       *explore.Exec
	c       config
	b       *fake.Broker
	w       *versioning.Wrapper
	hk      string
	subs    map[string]*wsub // live subscriptions by version (model)
	all     []*wsub
	n       int
	wantPub []string
	down    bool
	errs    map[string]string
	wantLog []string // what is reported about the messages for nobody
}

// logger records the message and the version that each reported error is about.
type logger struct{ extensions.DummyLogger }

func (logger) Error(ctx context.Context, _ string, _ ...extensions.LogInfo) {
	m, _ := ctx.Value(extensions.ContextKeyIsBrokerMessage).(extensions.AcknowledgeableBrokerMessage)
	v, _ := ctx.Value(extensions.ContextKeyIsVersion).(string)
	explore.Log("error", fake.Str(m.BrokerMessage), v)
}

func newWorld(x *explore.Exec, c config) *world {
	b := fake.New()
	opts := []versioning.WrapperOption{versioning.WithLogger(logger{})}
	hk := versioning.DefaultVersionHeaderKey
	if c.def != "-" {
		opts = append(opts, versioning.WithDefaultVersion(c.def))
	}
	if c.header != "" {
		hk = c.header
		opts = append(opts, versioning.WithVersionHeaderKey(c.header))
	}
	w := &world{x: x, c: c, b: b, hk: hk, subs: map[string]*wsub{}, errs: map[string]string{}}
	b.SubErr = func(string) error {
		if w.down {
			return errDown
		}
		return nil
	}
	w.w = versioning.NewWrapper(b, opts...)
	return w
}

// op performs one operation; it is run as a thread and the model is updated by the controller.
func (w *world) op(k int) {
	x := w.x
	w.n++
	id := fmt.Sprintf("%d", w.n)
	switch {
	case k < 3: // subscribe A, B or with no version
		v := []string{"A", "B", ""}[k]
		s := &wsub{id: v + id}
		ctx := context.Background()
		if v != "" {
			ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, v)
		}
		want := ""
		switch {
		case v == "":
			want = versioning.ErrNoVersion.Error()
		case w.down && len(w.subs) == 0:
			want = errDown.Error()
		case w.subs[v] != nil:
			want = extensions.ErrAlreadySubscribedChannel.Error()
		default:
			s.live = true
			w.subs[v] = s
			w.all = append(w.all, s)
		}
		x.Go("sub"+s.id, func() {
			sub, err := w.w.Subscribe(ctx, ch)
			got := ""
			if err != nil {
				got = err.Error()
			}
			if got != want {
				x.Fail("subscribe version %q: error %q, want %q", v, got, want)
			}
			if err == nil {
				s.sub, s.ok = sub, true
				for m := range sub.MessagesChannel() {
					explore.Log("got", s.id, fake.Str(m.BrokerMessage))
				}
				explore.Log("end", s.id)
			}
		})
	case k < 5: // cancel A or B
		v := []string{"A", "B"}[k-3]
		s := w.subs[v]
		if s == nil {
			return
		}
		delete(w.subs, v)
		s.live = false
		x.Go("cancel"+s.id, func() {
			if s.ok {
				s.sub.Cancel(context.Background())
				explore.Log("cancelled", s.id)
			}
		})
	case k < 10: // deliver: A, B, unknown, empty, none
		h := map[string][]byte{"other": []byte("A")}
		v := []string{"A", "B", "C", "", "-"}[k-5]
		if v != "-" {
			h[w.hk] = []byte(v)
		}
		if w.c.header != "" {
			h[versioning.DefaultVersionHeaderKey] = []byte("B") // means nothing with another key
		}
		if k == 9 && w.n%2 == 0 {
			h = nil
		}
		m := extensions.BrokerMessage{Headers: h, Payload: []byte("m" + id)}
		if w.n%4 == 2 {
			m.Payload = nil // with k == 9, an empty message
		}
		if v == "" || v == "-" {
			v = w.c.def
		}
		if s := w.subs[v]; s != nil {
			s.want = append(s.want, fake.Str(m))
		} else if len(w.subs) > 0 {
			if v == "-" { // none: whatever the context of the subscription holds
				v = "*"
			}
			w.wantLog = append(w.wantLog, fake.Str(m)+" "+v)
		}
		x.Go("deliver"+id, func() { w.b.Deliver(ch, "m"+id, m) })
	case k < 13: // publish with version A, none, no headers map
		h := map[string][]byte{"k": []byte("v"), "other": []byte("A")}
		ctx := context.Background()
		want := "k=\"v\",other=\"A\""
		if k != 11 {
			ctx = context.WithValue(ctx, extensions.ContextKeyIsVersion, "A")
			want = strings.TrimPrefix(sorted("k", "v", "other", "A", w.hk, "A"), ",")
		}
		if k == 12 {
			h = nil
			want = fmt.Sprintf("%s=%q", w.hk, "A")
		}
		m := extensions.BrokerMessage{Headers: h, Payload: []byte("p" + id)}
		w.wantPub = append(w.wantPub, fmt.Sprintf("%s %q[%s]", ch, "p"+id, want))
		x.Go("publish"+id, func() {
			before := fake.Str(m)
			if err := w.w.Publish(ctx, ch, m); err != nil {
				x.Fail("publish failed: %v", err)
			}
			if after := fake.Str(m); after != before {
				x.Fail("the message of the caller becomes %s, it was %s", after, before)
			}
		})
	case k == 13: // the broker goes down or up for new subscriptions
		w.down = !w.down
	}
}

func cutLast(s string) (string, string, bool) {
	i := strings.LastIndex(s, " ")
	return s[:max(i, 0)], s[i+1:], i >= 0
}

func sorted(kv ...string) string {
	m := map[string][]byte{}
	for i := 0; i < len(kv); i += 2 {
		m[kv[i]] = []byte(kv[i+1])
	}
	s := fake.Str(extensions.BrokerMessage{Headers: m})
	return s[strings.Index(s, "[")+1 : len(s)-1]
}

// compare checks the history against the model (controller, nothing enabled).
func (w *world) compare() {
	x := w.x
	evs := x.Events()
	for _, s := range w.all {
		var got []string
		for _, a := range explore.Args(evs, "got") {
			if strings.HasPrefix(a, s.id+" ") {
				got = append(got, a[len(s.id)+1:])
			}
		}
		if strings.Join(got, ";") != strings.Join(s.want, ";") {
			x.Fail("subscription %s read %v, want %v", s.id, got, s.want)
		}
		ended := explore.Count(evs, "end", s.id) == 1
		if ended == s.live {
			x.Fail("subscription %s live=%v, model says %v", s.id, !ended, s.live)
		}
	}
	if got := explore.Args(evs, "publish"); strings.Join(got, ";") != strings.Join(w.wantPub, ";") {
		x.Fail("published %v, want %v", got, w.wantPub)
	}
	logs := explore.Args(evs, "error")
	if len(logs) != len(w.wantLog) {
		x.Fail("reported as for nobody: %v, want %v", logs, w.wantLog)
	} else {
		for i, l := range logs {
			m, v, _ := cutLast(l)
			wm, wv, _ := cutLast(w.wantLog[i])
			if m != wm || (v != wv && !(wv == "*" && (v == "" || v == "A" || v == "B"))) {
				x.Fail("reported as for nobody: %v, want %v", logs, w.wantLog)
				break
			}
		}
	}
	want := 0
	if len(w.subs) > 0 {
		want = 1
	}
	if n := len(w.b.OpenSubs("")); n != want {
		x.Fail("%d underlying subscriptions, want %d", n, want)
	}
	for _, c := range x.Crashes() {
		x.Fail("crash in %s", c)
	}
	for _, b := range x.Blocked() {
		if !strings.HasPrefix(b, "sub") && !strings.Contains(b, ">") {
			x.Fail("never completes: %s", b)
		}
	}
}

func scenario(name string, c config, init []int, alphabet []int, depth, quick, thorough int) *explore.Scenario {
	return &explore.Scenario{Name: name, Quick: quick, Thorough: thorough, NoSleep: true, Horizon: 3000, Body: func(x *explore.Exec) {
		w := newWorld(x, c)
		for _, k := range init {
			k := k
			x.Stage(func() { w.op(k) })
		}
		for i := 0; i < depth; i++ {
			x.Stage(func() {
				w.compare()
				w.op(alphabet[x.Choose(len(alphabet))])
			})
		}
		x.Check(w.compare)
		x.Cleanup(func() {
			for _, s := range w.subs {
				s.sub.Cancel(context.Background())
			}
		})
	}}
}

func main() {
	explore.Main(nil, func() []*explore.Scenario {
		all := []int{0, 1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 2, 13}
		routing := []int{5, 6, 7, 8, 9, 3, 0}
		d, r := 4, 5
		if explore.Tier() == "thorough" {
			d, r = 6, 7
		}
		var s []*explore.Scenario
		for _, c := range []config{{"-", ""}, {"A", ""}, {"C", "vkey"}, {"B", "vkey"}, {"", ""}} {
			n := fmt.Sprintf("default=%q,header=%q", c.def, c.header)
			s = append(s, scenario("ops,"+n, c, nil, all, d, 0, 0))
			s = append(s, scenario("routing,"+n, c, []int{0, 1}, routing, r, 0, 0))
			s = append(s, scenario("resub,"+n, c, []int{0}, []int{0, 1, 3, 4, 5, 6, 13}, r, 0, 0))
			// the same under other interleavings of each operation with the listeners
			s = append(s, scenario("sched,"+n, c, []int{0, 1}, []int{5, 6, 7, 9, 3}, 2, 2, 4))
		}
		return s
	})
}
