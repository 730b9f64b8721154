// P28: generated names are valid, stable identifiers and conversions are idempotent.
package main

import (
	"fmt"
	"go/token"
	"regexp"
	"strings"
	"unicode"

	"github.com/iancoleman/strcase"
	tv2 "github.com/lerenn/asyncapi-codegen/pkg/codegen/generators/v2/templates"
	tv3 "github.com/lerenn/asyncapi-codegen/pkg/codegen/generators/v3/templates"
	"github.com/lerenn/asyncapi-codegen/pkg/utils/template"
	"verifmc/enum"
)

func must(err error) {
	if err != nil {
		panic(err)
	}
}

// ascii keeps the ASCII letters and digits, lowered; without the leading digits when trim is set.
func ascii(s string, trim bool) string {
	var b strings.Builder
	for _, r := range s {
		if r >= '0' && r <= '9' && (!trim || b.Len() > 0) || r >= 'a' && r <= 'z' {
			b.WriteRune(r)
		} else if r >= 'A' && r <= 'Z' {
			b.WriteRune(r - 'A' + 'a')
		}
	}
	return b.String()
}

// letters keeps every letter and digit, lowered.
func letters(s string) string {
	var b strings.Builder
	for _, r := range s {
		if unicode.IsLetter(r) || unicode.IsDigit(r) {
			b.WriteRune(unicode.ToLower(r))
		}
	}
	return b.String()
}

// name checks a generated name against what it derives from.
func name(in, got, from string) (fails []string) {
	if want := ascii(from, true); strings.ToLower(got) != want {
		fails = append(fails, fmt.Sprintf("gives %q: its letters and digits are not %q", got, want))
	}
	if got != "" && (!token.IsIdentifier(got) || !token.IsExported(got)) {
		fails = append(fails, fmt.Sprintf("gives %q, no exported identifier", got))
	}
	return fails
}

// twiceFail tells that a conversion is not idempotent, and whether the camel case library is why.
func twiceFail(scheme, s, once, twice string) string {
	id := func(s string) string { return strings.ToLower(template.DefaultNamifier(s)) }
	why := ""
	if scheme == "camel" && (once == strcase.ToCamel(s) || id(once) == id(strcase.ToCamel(s))) && strcase.ToCamel(once) == twice {
		why = " (strcase.ToCamel)"
	}
	return fmt.Sprintf("gives %q, which gives %q%s", once, twice, why)
}

func each(e *enum.E, what string, alphabet []string, max int, f func(s string) []string) {
	var rec func(n int, s string)
	count := 0
	var run func(prefix string, n int)
	run = func(s string, n int) {
		e.Progress(s)
		count++
		for _, x := range guard(func() []string { return f(s) }) {
			e.Fail(fmt.Sprintf("%s %q", what, s), "%s", x)
		}
		if n > 0 {
			for _, a := range alphabet {
				run(s+a, n-1)
			}
		}
	}
	// the first two letters make the unit of work
	rec = func(n int, s string) {
		if n == 0 || len(s) == 0 && max == 0 {
			if e.Mine() {
				count = 0
				run(s, max-2)
				e.Did(count, count, 0)
				e.Sample("%s %q", what, s+strings.Repeat(alphabet[0], max-2))
			}
			return
		}
		for _, a := range alphabet {
			rec(n-1, s+a)
		}
	}
	rec(2, "")
	for _, s := range append([]string{""}, alphabet...) {
		e.Case(fmt.Sprintf("%s %q", what, s), func() ([]string, bool) { return f(s), true })
	}
}

func guard(f func() []string) (fails []string) {
	defer func() {
		if r := recover(); r != nil {
			fails = append(fails, fmt.Sprintf("panic: %v", r))
		}
	}()
	return f()
}

var (
	plain  = []string{"a", "b", "B", "C", "0", "1", "_", "-", ".", " ", "/", "{", "}", "$"}
	exotic = []string{"a", "B", "0", "_", " ", "é", "É", "世", "٣", "ß", "\xff", "\n", "ǆ"}
	words  = []string{"id", "ID", "Id", "user", "URL", "API", "Key", "_", "-", "x", "1", "{", "}"}
	keysA  = []string{"a", "b", "B", "C", "0", "1", "_", "-", ".", " ", "/"}
	params = []string{"a", "B", ".", "/", "{x}", "{yZ}", "{", "}", "(", ")", "1"}
)

func main() {
	enum.Main(func(e *enum.E) {
		n := 5
		if e.Thorough {
			n = 6
		}
		for _, scheme := range []string{"none", "camel"} {
			must(template.SetNamifyFn(scheme))
			e.Section("names " + scheme)
			check := func(s string) []string {
				got := template.Namify(s)
				fails := name(s, got, s)
				if again := template.Namify(s); again != got {
					fails = append(fails, fmt.Sprintf("gives %q, then %q", got, again))
				}
				if twice := template.Namify(got); twice != got {
					fails = append(fails, twiceFail(scheme, s, got, twice))
				}
				return fails
			}
			each(e, "plain", plain, n, check)
			each(e, "exotic", exotic, n, check)
			each(e, "words", words, n, check)
			each(e, "long", []string{"1", "a"}, 3*n, check)
			each(e, "long words", []string{"a", "B", "_"}, 2*n, check)

			e.Section("names without parameters " + scheme)
			braces := regexp.MustCompile(`\{[^{}]*\}`)
			each(e, "address", params, n, func(s string) []string {
				got := template.NamifyWithoutParams(s)
				if strings.ContainsAny(braces.ReplaceAllString(s, ""), "{}") {
					// unbalanced braces: only an identifier is asked for
					if got != "" && (!token.IsIdentifier(got) || !token.IsExported(got)) {
						return []string{fmt.Sprintf("gives %q, no exported identifier", got)}
					}
					return nil
				}
				fails := name(s, got, braces.ReplaceAllString(s, "_"))
				if again := template.NamifyWithoutParams(s); again != got {
					fails = append(fails, fmt.Sprintf("gives %q, then %q", got, again))
				}
				if twice := template.NamifyWithoutParams(got); twice != got {
					fails = append(fails, twiceFail(scheme, braces.ReplaceAllString(s, "_"), got, twice))
				}
				return fails
			})

			// where a correlation identifier is, as fields of the generated message
			e.Section("locations " + scheme)
			segs := []string{"header", "payload", "id", "correlationId", "a_b", "x-y", "a1", "Headers", "sent at"}
			paths := map[string]func(string) string{"v2": tv2.ReferenceToStructAttributePath, "v3": tv3.ReferenceToStructAttributePath}
			for _, v := range []string{"v2", "v3"} {
				for _, root := range []string{"header", "payload"} {
					for _, s1 := range segs {
						for _, s2 := range append([]string{""}, segs...) {
							for _, s3 := range append([]string{""}, segs...) {
								if s2 == "" && s3 != "" {
									continue
								}
								ref, want := "$message."+root+"#/"+s1, []string{map[string]string{"header": "Headers", "payload": "Payload"}[root], s1}
								for _, x := range []string{s2, s3} {
									if x != "" {
										ref, want = ref+"/"+x, append(want, x)
									}
								}
								e.Case(v+" "+ref, func() (fails []string, _ bool) {
									got := paths[v](ref)
									parts := strings.Split(got, ".")
									if len(parts) != len(want) {
										return []string{fmt.Sprintf("gives %q", got)}, true
									}
									for i, p := range parts {
										w := want[i]
										if w == "header" {
											w = "headers"
										}
										if p != template.Namify(w) && !(i > 0 && p == template.Namify(want[i])) {
											fails = append(fails, fmt.Sprintf("gives %q, where %q is not %q", got, p, template.Namify(w)))
										}
										fails = append(fails, name(p, p, p)...)
									}
									return fails, true
								})
							}
						}
					}
				}
			}
			e.Section("unknown schemes " + scheme)
			for _, bad := range []string{"", "snake", "kebab", "Camel", "none ", "x"} {
				e.Case(fmt.Sprintf("naming scheme %q", bad), func() (fails []string, _ bool) {
					if err := template.SetNamifyFn(bad); err == nil {
						fails = append(fails, "accepted")
						must(template.SetNamifyFn(scheme))
					}
					if got, want := template.Namify("user_ID"), map[string]string{"none": "UserID", "camel": "UserId"}[scheme]; got != want {
						fails = append(fails, fmt.Sprintf("afterwards user_ID gives %q", got))
					}
					return fails, true
				})
			}
		}
		must(template.SetNamifyFn("none"))

		for _, conv := range []string{"none", "snake", "kebab", "camel"} {
			must(template.SetConvertKeyFn(conv))
			e.Section("keys " + conv)
			check := func(s string) []string {
				got := template.ConvertKey(s)
				var fails []string
				if conv == "none" && got != s {
					fails = append(fails, fmt.Sprintf("gives %q", got))
				}
				if letters(got) != letters(s) {
					fails = append(fails, fmt.Sprintf("gives %q: other letters or digits", got))
				}
				if again := template.ConvertKey(s); again != got {
					fails = append(fails, fmt.Sprintf("gives %q, then %q", got, again))
				}
				if twice := template.ConvertKey(got); twice != got {
					fails = append(fails, twiceFail(conv, s, got, twice))
				}
				return fails
			}
			each(e, "plain", keysA, n, check)
			each(e, "words", words, n, check)
			each(e, "long", []string{"1", "a"}, 3*n, check)
			each(e, "long words", []string{"a", "B", "_"}, 2*n, check)
			each(e, "exotic", []string{"a", "B", "0", "_", " ", "é", "É", "世"}, n, check)
		}
		must(template.SetConvertKeyFn("none"))
		e.Section("unknown conversions")
		for _, bad := range []string{"", "Snake", "x", "lower"} {
			e.Case(fmt.Sprintf("key conversion %q", bad), func() (fails []string, _ bool) {
				if err := template.SetConvertKeyFn(bad); err == nil {
					fails = append(fails, "accepted")
					must(template.SetConvertKeyFn("none"))
				}
				if got := template.ConvertKey("user_ID"); got != "user_ID" {
					fails = append(fails, fmt.Sprintf("afterwards user_ID gives %q", got))
				}
				return fails, true
			})
		}
	})
}
