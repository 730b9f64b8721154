package main

import (
	"fmt"
	"strings"

	"verifmc/docs"
)

// YAML writes a document in YAML: style 0 quotes everything, style 1 leaves plain
// words plain and uses flow collections for the small ones.
func YAML(v any, style int) string {
	var b strings.Builder
	block(&b, v, style, 0)
	return b.String()
}

func scalar(v any, style int) string {
	switch u := v.(type) {
	case string:
		plain := u != "" && style == 1
		for _, r := range u {
			if !(r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '$' || r == '.' || r == '-' && u[0] != '-') {
				plain = false
			}
		}
		switch strings.ToLower(u) {
		case "y", "n", "yes", "no", "on", "off", "true", "false", "null", "~", ".inf", ".nan", "-", ".", "$":
			plain = false
		}
		if plain {
			return u
		}
		if style == 1 && !strings.ContainsAny(u, "\n\t\\") {
			return "'" + strings.ReplaceAll(u, "'", "''") + "'"
		}
		return docs.JSON(u)
	case nil:
		return "null"
	}
	return docs.JSON(v)
}

func block(b *strings.Builder, v any, style, indent int) {
	pad := strings.Repeat("  ", indent)
	switch u := v.(type) {
	case M:
		if len(u) == 0 {
			b.WriteString(pad + "{}\n")
			return
		}
		for _, k := range docs.Keys(u) {
			b.WriteString(pad + scalar(k, style) + ":")
			value(b, u[k], style, indent)
		}
	case L:
		if len(u) == 0 {
			b.WriteString(pad + "[]\n")
			return
		}
		for _, x := range u {
			b.WriteString(pad + "-")
			value(b, x, style, indent)
		}
	default:
		fmt.Fprintf(b, "%s%s\n", pad, scalar(v, style))
	}
}

func value(b *strings.Builder, v any, style, indent int) {
	switch u := v.(type) {
	case M:
		if len(u) > 0 && (style == 0 || len(u) > 2) {
			b.WriteString("\n")
			block(b, u, style, indent+1)
			return
		}
		b.WriteString(" " + flow(u, style) + "\n")
	case L:
		if len(u) > 0 && (style == 0 || len(u) > 2) {
			b.WriteString("\n")
			block(b, u, style, indent+1)
			return
		}
		b.WriteString(" " + flow(u, style) + "\n")
	default:
		b.WriteString(" " + scalar(v, style) + "\n")
	}
}

func flow(v any, style int) string {
	switch u := v.(type) {
	case M:
		var parts []string
		for _, k := range docs.Keys(u) {
			parts = append(parts, scalar(k, style)+": "+flow(u[k], style))
		}
		return "{" + strings.Join(parts, ", ") + "}"
	case L:
		var parts []string
		for _, x := range u {
			parts = append(parts, flow(x, style))
		}
		return "[" + strings.Join(parts, ", ") + "]"
	}
	return scalar(v, style)
}
