// P27: structured logs keep every field and stay well-formed.
package main

import (
	"bufio"
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"os"
	"regexp"
	"strings"
	"time"

	"github.com/fatih/color"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/errorhandlers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/loggers"
	"github.com/lerenn/asyncapi-codegen/pkg/extensions/middlewares"
	"verifmc/enum"
)

var (
	out    *os.File // what the loggers print to
	outR   *bufio.Reader
	real   = os.Stdout
	sentry = "\x00\x01END\x01\x00"
)

func capture(f func()) string {
	f()
	fmt.Fprint(out, sentry)
	var b []byte
	for !strings.HasSuffix(string(b), sentry) {
		c, err := outR.ReadByte()
		if err != nil {
			panic(err)
		}
		b = append(b, c)
		if c == 0 && len(b) >= len(sentry) && string(b[len(b)-len(sentry):]) == sentry {
			break
		}
		for c != 0 {
			if c, err = outR.ReadByte(); err != nil {
				panic(err)
			}
			b = append(b, c)
		}
	}
	return string(b[:len(b)-len(sentry)])
}

type field struct {
	key   string
	value string // as printed
}

// required keeps the fields that no later one supersedes (same key, or one inside the other).
func required(fs []field) (keep, dropped []field) {
	inside := func(a, b string) bool { return a == b || strings.HasPrefix(a, b+".") || strings.HasPrefix(b, a+".") }
	for i, f := range fs {
		ok := true
		for _, g := range fs[i+1:] {
			if inside(f.key, g.key) {
				ok = false
			}
		}
		if ok {
			keep = append(keep, f)
		} else {
			dropped = append(dropped, f)
		}
	}
	return keep, dropped
}

func contains(fs []field, f field) bool {
	for _, g := range fs {
		if g == f {
			return true
		}
	}
	return false
}

// strictObject decodes one JSON value of objects and strings, refusing duplicate keys.
func strictObject(d *json.Decoder, prefix string, depth int, into *[]field) error {
	t, err := d.Token()
	if err != nil {
		return err
	}
	switch v := t.(type) {
	case json.Delim:
		if v != '{' {
			return fmt.Errorf("unexpected %v", v)
		}
		seen := map[string]bool{}
		for d.More() {
			k, err := d.Token()
			if err != nil {
				return err
			}
			ks := k.(string)
			if seen[ks] {
				return fmt.Errorf("key %q is twice in one object", ks)
			}
			seen[ks] = true
			p := ks
			if depth > 0 {
				p = prefix + "." + ks
			}
			if err := strictObject(d, p, depth+1, into); err != nil {
				return err
			}
		}
		_, err = d.Token()
		return err
	case string:
		*into = append(*into, field{prefix, v})
	default:
		return fmt.Errorf("unexpected %T at %q", t, prefix)
	}
	return nil
}

func valid(s string) string { return strings.ToValidUTF8(s, "\uFFFD") }

type call struct {
	ctxKeys []extensions.ContextKey
	ctxVals []any
	msg     string
	info    []extensions.LogInfo
	level   string
	spare   bool // the caller's slice has room for more
}

func (c call) String() string {
	s := fmt.Sprintf("%s(%q", c.level, c.msg)
	for _, i := range c.info {
		s += fmt.Sprintf(", {%q %q}", i.Key, fmt.Sprintf("%+v", i.Value))
	}
	s += ")"
	for i, k := range c.ctxKeys {
		s += fmt.Sprintf(" %s=%q", k, fmt.Sprintf("%+v", c.ctxVals[i]))
	}
	if c.spare {
		s += " spare"
	}
	return s
}

func (c call) has(k extensions.ContextKey) (any, bool) {
	for i, x := range c.ctxKeys {
		if x == k {
			return c.ctxVals[i], true
		}
	}
	return nil, false
}

// do runs the call and checks that the caller's slice is left alone.
func (c call) do(l extensions.Logger) (printed string, fails []string) {
	ctx := context.Background()
	for i, k := range c.ctxKeys {
		ctx = context.WithValue(ctx, k, c.ctxVals[i])
	}
	guard := extensions.LogInfo{Key: "guard", Value: "guard"}
	n, room := len(c.info), 0
	if c.spare {
		room = 12
	}
	backing := make([]extensions.LogInfo, n+room)
	copy(backing, c.info)
	for i := n; i < len(backing); i++ {
		backing[i] = guard
	}
	args := backing[:n]
	printed = capture(func() {
		switch c.level {
		case "info":
			l.Info(ctx, c.msg, args...)
		case "warning":
			l.Warning(ctx, c.msg, args...)
		case "error":
			l.Error(ctx, c.msg, args...)
		}
	})
	for i, b := range backing {
		want := guard
		if i < n {
			want = c.info[i]
		}
		if b.Key != want.Key || fmt.Sprintf("%T%+v", b.Value, b.Value) != fmt.Sprintf("%T%+v", want.Value, want.Value) {
			fails = append(fails, fmt.Sprintf("the caller's fields are altered: element %d is %v", i, b))
			break
		}
	}
	return printed, fails
}

func (c call) fields() (fs []field) {
	for _, i := range c.info {
		fs = append(fs, field{i.Key, fmt.Sprintf("%+v", i.Value)})
	}
	return fs
}

func checkTime(s string, before time.Time) string {
	ts, err := time.Parse(time.RFC3339Nano, s)
	if err != nil || ts.Before(before.Add(-time.Second)) || ts.After(time.Now().Add(time.Second)) {
		return fmt.Sprintf("the timestamp is %q", s)
	}
	return ""
}

func checkECS(l extensions.Logger, c call) []string {
	before := time.Now()
	printed, fails := c.do(l)
	if !strings.HasSuffix(printed, "\n") || strings.Count(printed, "\n") != 1 {
		return append(fails, fmt.Sprintf("the record is not one line: %q", printed))
	}
	if !json.Valid([]byte(printed)) {
		return append(fails, fmt.Sprintf("the record is not JSON: %q", printed))
	}
	var got []field
	d := json.NewDecoder(strings.NewReader(printed))
	if err := strictObject(d, "", 0, &got); err != nil {
		return append(fails, fmt.Sprintf("%v in %s", err, printed))
	}
	if _, err := d.Token(); err != io.EOF {
		return append(fails, "more than one JSON value in the line")
	}
	want := c.fields()
	ctxField := func(k extensions.ContextKey, name string) {
		if v, ok := c.has(k); ok && v != nil {
			want = append(want, field{name, fmt.Sprintf("%+v", v)})
		}
	}
	want = append(want, field{"log.level", c.level})
	ctxField(extensions.ContextKeyIsProvider, "asyncapi.provider")
	ctxField(extensions.ContextKeyIsChannel, "asyncapi.channel")
	switch v, _ := c.has(extensions.ContextKeyIsDirection); v {
	case "publication":
		want = append(want, field{"event.action", "published-message"})
	case "reception":
		want = append(want, field{"event.action", "received-message"})
	}
	ctxField(extensions.ContextKeyIsBrokerMessage, "event.original")
	ctxField(extensions.ContextKeyIsCorrelationID, "trace.id")
	want = append(want, field{"message", c.msg}, field{"@timestamp", ""}, field{"log.logger", ""})
	for i := range want {
		want[i].key, want[i].value = valid(want[i].key), valid(want[i].value)
	}
	keep, dropped := required(want)
	for _, f := range keep {
		found := false
		for _, g := range got {
			if g.key != f.key {
				continue
			}
			switch f.key {
			case "@timestamp":
				if m := checkTime(g.value, before); m != "" {
					fails = append(fails, m)
				}
			case "log.logger":
			default:
				if g.value != f.value {
					fails = append(fails, fmt.Sprintf("%q is %q, not %q", f.key, g.value, f.value))
				}
			}
			found = true
		}
		if !found {
			fails = append(fails, fmt.Sprintf("the record has no %q: %s", f.key, printed))
		}
	}
	return append(fails, others(got, keep, dropped)...)
}

// others tells which fields of the record nobody gave.
func others(got, keep, dropped []field) (fails []string) {
	for i, g := range got {
		ok := contains(dropped, g)
		for _, f := range keep {
			ok = ok || f.key == g.key
		}
		for _, h := range got[:i] {
			ok = ok && h.key != g.key
		}
		if !ok {
			fails = append(fails, fmt.Sprintf("the record has a field nobody gave, or twice: %q = %q", g.key, g.value))
		}
	}
	return fails
}

var ansi = regexp.MustCompile("\x1b\\[[0-9;]*m")

// parseText reads "key: value" and "key:" lines nested by indentation.
func parseText(s string) (head string, fs []field, err error) {
	lines := strings.Split(s, "\n")
	if len(lines) < 2 || !strings.HasPrefix(lines[0], "> ") {
		return "", nil, errors.New("no heading line")
	}
	head = strings.TrimPrefix(lines[0], "> ")
	var path []string
	var ind []int
	for _, l := range lines[1:] {
		if l == "" {
			continue
		}
		t := strings.TrimLeft(l, " ")
		n := len(l) - len(t)
		for len(ind) > 0 && ind[len(ind)-1] >= n {
			ind, path = ind[:len(ind)-1], path[:len(path)-1]
		}
		if strings.HasSuffix(t, ":") {
			ind, path = append(ind, n), append(path, strings.TrimSuffix(t, ":"))
			continue
		}
		k, v, ok := strings.Cut(t, ": ")
		if !ok {
			return head, fs, fmt.Errorf("line %q", l)
		}
		fs = append(fs, field{strings.Join(append(append([]string{}, path...), k), "."), v})
	}
	return head, fs, nil
}

func checkText(l extensions.Logger, c call, structural bool) []string {
	before := time.Now()
	raw, fails := c.do(l)
	printed := ansi.ReplaceAllString(raw, "")
	want := c.fields()
	ctxField := func(k extensions.ContextKey, name string) {
		if v, ok := c.has(k); ok && v != nil {
			want = append(want, field{name, fmt.Sprintf("%+v", v)})
		}
	}
	ctxField(extensions.ContextKeyIsChannel, "Channel")
	ctxField(extensions.ContextKeyIsCorrelationID, "CorrelationID")
	ctxField(extensions.ContextKeyIsBrokerMessage, "Content")
	want = append(want, field{"Message", c.msg}, field{"@Timestamp", ""})
	keep, dropped := required(want)
	if !structural {
		for _, f := range keep {
			last := f.key[strings.LastIndex(f.key, ".")+1:]
			if f.key != "@Timestamp" && f.key != "Message" && !strings.Contains(printed, ansi.ReplaceAllString(last+": "+f.value, "")+"\n") {
				fails = append(fails, fmt.Sprintf("the record lacks %q: %q", f.key, printed))
			}
		}
		if !strings.Contains(printed, ansi.ReplaceAllString(": "+c.msg, "")+"\n") {
			fails = append(fails, fmt.Sprintf("the record lacks the message: %q", printed))
		}
		return fails
	}
	head, got, err := parseText(printed)
	if err != nil {
		return append(fails, fmt.Sprintf("%v in %q", err, printed))
	}
	ts, msg, _ := strings.Cut(head, ": ")
	if m := checkTime(ts, before); m != "" {
		fails = append(fails, m)
	}
	if msg != c.msg {
		fails = append(fails, fmt.Sprintf("the message is %q", msg))
	}
	for _, f := range keep {
		if f.key == "Message" || f.key == "@Timestamp" {
			continue
		}
		if !contains(got, f) {
			fails = append(fails, fmt.Sprintf("the record lacks %q = %q: %q", f.key, f.value, printed))
		}
	}
	return append(fails, others(got, keep, dropped)...)
}

type named struct {
	A string
	b int
}
type bad struct{}

func (bad) String() string { panic("no string") }

func main() {
	r, w, err := os.Pipe()
	if err != nil {
		panic(err)
	}
	os.Stdout, out, outR = w, w, bufio.NewReader(r)
	color.Output = w
	enum.Main(run)
}

var levels = []string{"info", "warning", "error"}

func run(e *enum.E) {
	defer func() { os.Stdout = real }()
	ecs := loggers.NewECS()
	text := loggers.NewText()
	both := func(c call, structural bool) {
		e.Case("ecs "+c.String(), func() ([]string, bool) { return checkECS(ecs, c), len(c.info)+len(c.ctxKeys) > 0 })
		e.Case("text "+c.String(), func() ([]string, bool) {
			fails := checkText(text, c, structural)
			color.NoColor = false
			fails = append(fails, checkText(text, c, structural)...)
			color.NoColor = true
			return fails, len(c.info)+len(c.ctxKeys) > 0
		})
	}

	// which context values are there
	e.Section("context")
	type cv struct {
		k extensions.ContextKey
		v []any
	}
	p := "payload"
	dims := []cv{
		{extensions.ContextKeyIsVersion, []any{"1.0.0"}},
		{extensions.ContextKeyIsProvider, []any{"asyncapi", "", 3}},
		{extensions.ContextKeyIsChannel, []any{"a.{b}.c", ""}},
		{extensions.ContextKeyIsDirection, []any{"publication", "reception", "other", nil}},
		{extensions.ContextKeyIsBrokerMessage, []any{"hello", extensions.BrokerMessage{Headers: map[string][]byte{"h": []byte("v")}, Payload: []byte(p)}.String(), ""}},
		{extensions.ContextKeyIsCorrelationID, []any{"id-1", 7}},
	}
	infos := [][]extensions.LogInfo{nil, {{Key: "k", Value: "v"}}, {{Key: "x.y", Value: 1}, {Key: "x.z", Value: true}}}
	var rec func(i int, c call)
	rec = func(i int, c call) {
		if i == len(dims) {
			for _, in := range infos {
				for _, lv := range levels {
					d := c
					d.info, d.level = in, lv
					both(d, true)
				}
			}
			return
		}
		rec(i+1, c)
		for _, v := range dims[i].v {
			d := c
			d.ctxKeys = append(append([]extensions.ContextKey{}, c.ctxKeys...), dims[i].k)
			d.ctxVals = append(append([]any{}, c.ctxVals...), v)
			rec(i+1, d)
		}
	}
	rec(0, call{msg: "something happened"})

	// sequences of fields with dotted, nested and conflicting keys
	e.Section("fields")
	keys := []string{"a", "b", "a.b", "a.c", "a.b.c", "c.a", ".a", "a."}
	vals := []any{"1", 2}
	max := 4
	if e.Thorough {
		keys = append(keys, "a.b.d", "b.a", "c")
		max = 5
	}
	var seqs func(n int, cur []extensions.LogInfo)
	seqs = func(n int, cur []extensions.LogInfo) {
		for _, spare := range []bool{false, true} {
			both(call{msg: "m", level: levels[len(cur)%3], info: cur, spare: spare}, true)
		}
		if n == 0 {
			return
		}
		for _, k := range keys {
			for _, v := range vals {
				seqs(n-1, append(append([]extensions.LogInfo{}, cur...), extensions.LogInfo{Key: k, Value: v}))
			}
		}
	}
	seqs(max, nil)

	// keys of the record itself
	e.Section("reserved keys")
	res := []string{"log", "log.level", "log.level.x", "message", "@timestamp", "trace", "trace.id", "event", "event.original", "asyncapi.channel", "log.other", "trace.other", "Channel", "Content.x", "CorrelationID", "Level"}
	ctxs := [][]any{nil, {extensions.ContextKeyIsChannel, "ch", extensions.ContextKeyIsCorrelationID, "id", extensions.ContextKeyIsBrokerMessage, "bm", extensions.ContextKeyIsDirection, "reception", extensions.ContextKeyIsProvider, "p"}}
	for _, k1 := range res {
		for _, k2 := range append([]string{""}, res...) {
			for _, cx := range ctxs {
				for _, lv := range levels {
					c := call{msg: "m", level: lv, info: []extensions.LogInfo{{Key: k1, Value: "mine"}}}
					if k2 != "" {
						c.info = append(c.info, extensions.LogInfo{Key: k2, Value: "mine too"})
					}
					for i := 0; i < len(cx); i += 2 {
						c.ctxKeys = append(c.ctxKeys, cx[i].(extensions.ContextKey))
						c.ctxVals = append(c.ctxVals, cx[i+1])
					}
					both(c, true)
				}
			}
		}
	}

	// contents of keys, values and messages
	e.Section("contents")
	strs := []string{"", " ", "\"", "\\", "\n", "\r\n", "\t", "\u2028", "é", "\xff", "<a&b>", "%s", "%!d(", "{}", "\"}\n{\"x\":\"", strings.Repeat("long ", 800), "\x1b[31m", "null", ":", "a:b"}
	anyv := []any{nil, 0, -1, 3.5, true, []string{"a", "b"}, map[string]int{"z": 1, "a": 2}, named{"x", 2}, &named{"y", 3}, errors.New("an error"), fmt.Errorf("wrapped: %w", io.EOF), time.Unix(0, 0).UTC(), json.RawMessage(`{"a":"b"}`), bad{}, []byte("raw")}
	for _, s := range strs {
		for _, v := range strs {
			c := call{msg: "m", level: "info", info: []extensions.LogInfo{{Key: s, Value: v}}}
			both(c, false)
			if s != "" {
				c.info = append(c.info, extensions.LogInfo{Key: "p." + s, Value: v}, extensions.LogInfo{Key: "p.q." + s, Value: v})
				both(c, false)
			}
		}
		for _, v := range anyv {
			both(call{msg: s, level: "warning", info: []extensions.LogInfo{{Key: "k", Value: v}, {Key: "n.k", Value: v}}}, false)
		}
		for _, v := range strs {
			both(call{msg: s, level: "error", ctxKeys: []extensions.ContextKey{extensions.ContextKeyIsBrokerMessage, extensions.ContextKeyIsChannel}, ctxVals: []any{v, v}}, false)
		}
	}
	for _, k := range []string{"", ".", "..", "a.", ".a", "a..b", "a...b"} {
		for _, k2 := range []string{"z", "a.c", ".b", "..c"} {
			c := call{msg: "m", level: "info", info: []extensions.LogInfo{{Key: k, Value: "v"}, {Key: k2, Value: "w"}}}
			e.Case("ecs "+c.String(), func() ([]string, bool) { return checkECS(ecs, c), true })
		}
	}

	// the levels of the text logger differ by their colour
	e.Section("levels")
	for _, m := range strs {
		e.Case(fmt.Sprintf("text levels of %q", m), func() (fails []string, _ bool) {
			color.NoColor = false
			defer func() { color.NoColor = true }()
			seen := map[string]string{}
			for _, lv := range levels {
				p, f := call{msg: m, level: lv}.do(text)
				fails = append(fails, f...)
				i := strings.Index(p, ">")
				if i < 0 {
					i = 0
				}
				if o := seen[p[:i]]; o != "" {
					fails = append(fails, fmt.Sprintf("%s and %s look the same: %q", o, lv, p))
				}
				seen[p[:i]] = lv
			}
			return fails, true
		})
	}

	// the provided error handler and middleware, with each logger
	e.Section("users of the loggers")
	for _, topic := range strs {
		for _, er := range strs {
			if strings.ContainsAny(topic+er, "\xff") {
				continue
			}
			e.Case(fmt.Sprintf("error handler topic %q error %q", topic, er), func() (fails []string, _ bool) {
				p := capture(func() { errorhandlers.Logging(ecs)(context.Background(), topic, nil, errors.New(er)) })
				var m map[string]any
				if err := json.Unmarshal([]byte(p), &m); err != nil {
					return []string{fmt.Sprintf("%v in %q", err, p)}, true
				}
				s, _ := m["message"].(string)
				if !strings.Contains(s, topic) || !strings.Contains(s, er) {
					fails = append(fails, fmt.Sprintf("the message is %q", s))
				}
				if lg, _ := m["log"].(map[string]any); lg["level"] != "error" {
					fails = append(fails, fmt.Sprintf("the level is %v", m["log"]))
				}
				return fails, true
			})
		}
	}
	for _, dir := range []any{nil, "publication", "reception", "other", 3} {
		e.Case(fmt.Sprintf("logging middleware %v", dir), func() (fails []string, _ bool) {
			ctx := context.WithValue(context.Background(), extensions.ContextKeyIsBrokerMessage, "content")
			ctx = context.WithValue(ctx, extensions.ContextKeyIsDirection, dir)
			msg := extensions.BrokerMessage{Headers: map[string][]byte{"a": []byte("b")}, Payload: []byte("p")}
			p := capture(func() {
				if err := middlewares.Logging(ecs)(ctx, &msg, func(context.Context) error { fails = append(fails, "next is called"); return nil }); err != nil {
					fails = append(fails, err.Error())
				}
			})
			want := 0
			if dir == "publication" || dir == "reception" {
				want = 1
			}
			if strings.Count(p, "\n") != want || want == 1 && !strings.Contains(p, `"original":"content"`) {
				fails = append(fails, fmt.Sprintf("printed %q", p))
			}
			if len(msg.Headers) != 1 || string(msg.Headers["a"]) != "b" || string(msg.Payload) != "p" {
				fails = append(fails, "the message is altered")
			}
			return fails, true
		})
	}
}
