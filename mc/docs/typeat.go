package docs

import (
	"encoding/json"
	"reflect"
	"strings"
)

// TypeAt is the type the parser has for a node of the document, nil when it has none.
func TypeAt(t reflect.Type, path []any) reflect.Type {
	for t != nil && t.Kind() == reflect.Ptr {
		t = t.Elem()
	}
	if t == nil || t.Kind() != reflect.Struct && Decodes(t) {
		return nil
	}
	if len(path) == 0 {
		return t
	}
	switch t.Kind() {
	case reflect.Map, reflect.Slice:
		return TypeAt(t.Elem(), path[1:])
	case reflect.Struct:
		if k, ok := path[0].(string); ok {
			if f := Field(t, k); f != nil {
				return TypeAt(f, path[1:])
			}
		}
	}
	return nil
}

// Decodes tells whether the type decides by itself what it accepts.
func Decodes(t reflect.Type) bool {
	u := reflect.TypeOf((*json.Unmarshaler)(nil)).Elem()
	return t.Implements(u) || reflect.PointerTo(t).Implements(u)
}

// Field is the type of the field encoding/json uses for a key: the least nested one, exact names first.
func Field(t reflect.Type, key string) reflect.Type {
	var exact, fold, embedded reflect.Type
	n := 0
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		tag := strings.Split(f.Tag.Get("json"), ",")[0]
		if tag == "-" {
			continue
		}
		if f.Anonymous && tag == "" && f.Type.Kind() == reflect.Struct {
			if e := Field(f.Type, key); e != nil {
				embedded = e
				n++
			}
			continue
		}
		if tag == "" {
			tag = f.Name
		}
		if tag == key {
			exact = f.Type
		} else if strings.EqualFold(tag, key) {
			fold = f.Type
		}
	}
	switch {
	case exact != nil:
		return exact
	case fold != nil:
		return fold
	case n == 1:
		return embedded
	}
	return nil
}
