// P12: subject patterns match as NATS defines.
package main

import (
	"fmt"
	"strings"

	"github.com/lerenn/asyncapi-codegen/pkg/extensions/brokers/natsjetstream"
	"verifmc/enum"
)

// matches is the reference: a pattern and a subject as token lists. unknown is set
// where NATS gives no meaning (an empty token of the subject under '>').
func matches(p, s []string) (yes, unknown bool) {
	switch {
	case len(p) == 0:
		return len(s) == 0, false
	case p[0] == ">" && len(p) == 1:
		if len(s) == 0 {
			return false, false
		}
		for _, t := range s {
			if t == "" {
				return true, true
			}
		}
		return true, false
	case len(s) == 0:
		return false, false
	case p[0] == "*" && s[0] == "":
		return false, false
	case p[0] == "*" || p[0] == s[0]:
		return matches(p[1:], s[1:])
	}
	return false, false
}

func reference(pattern, subject string) (yes, unknown bool) {
	if pattern == "" || subject == "" {
		return false, false
	}
	p := strings.Split(pattern, ".")
	for i, t := range p {
		if t == ">" && i < len(p)-1 {
			return false, false // '>' anywhere else than last is no pattern
		}
	}
	return matches(p, strings.Split(subject, "."))
}

func all(alphabet []string, max int, join string) (out []string) {
	level := []string{""}
	out = append(out, "")
	for n := 1; n <= max; n++ {
		var next []string
		for _, l := range level {
			for _, a := range alphabet {
				if n == 1 {
					next = append(next, a)
				} else {
					next = append(next, l+join+a)
				}
			}
		}
		level = next
		out = append(out, level...)
	}
	return out
}

func run(e *enum.E, name string, patterns, subjects []string) {
	e.Section(name)
	for _, p := range patterns {
		if !e.Mine() {
			continue
		}
		n, nt := 0, 0
		for _, s := range subjects {
			want, unknown := reference(p, s)
			got := func() (got string) {
				defer func() {
					if r := recover(); r != nil {
						got = fmt.Sprint("panic: ", r)
					}
				}()
				return fmt.Sprint(natsjetstream.MatchSubjectSubscription(p, s))
			}()
			n++
			if want {
				nt++
				e.Sample("pattern %q matches %q", p, s)
			}
			if strings.HasPrefix(got, "panic") || !unknown && got != fmt.Sprint(want) {
				e.Fail(fmt.Sprintf("pattern %q subject %q", p, s), "got %s, NATS says %v", got, want)
			}
		}
		e.Did(n, nt, 0)
	}
}

func main() {
	enum.Main(func(e *enum.E) {
		tp, ts, ch := 4, 4, 5
		if e.Thorough {
			tp, ts, ch = 5, 6, 6
		}
		run(e, "tokens", all([]string{"a", "b", "*", ">", ""}, tp, "."), all([]string{"a", "b", "aa", "*", ""}, ts, "."))
		run(e, "long", all([]string{"a", "*", ">"}, tp+2, "."), all([]string{"a", "b"}, ts+3, "."))
		run(e, "odd tokens", all([]string{"a", "*", "*a", "a*", ">a", "a>", "**", ">>", "A"}, 3, "."), all([]string{"a", "A", "*a", "a*", ">a", "a>", "**", ">>", "xa", "é"}, 3, "."))
		run(e, "characters", all([]string{"a", "b", ".", "*", ">"}, ch, ""), all([]string{"a", "b", "."}, ch+1, ""))
	})
}
