package main

import (
	"encoding/json"
	"fmt"
	"net/netip"
	"reflect"
	"sort"
	"strings"
	"time"

	"cloud.google.com/go/civil"
)

// --- Types of the generated structures (Shape.tla) -----------------------------------

type goType struct {
	Go     string    `json:"go"`
	Items  *goType   `json:"items,omitempty"`
	More   *goType   `json:"more,omitempty"`
	Fields []goField `json:"fields,omitempty"`
}

type goField struct {
	Name    string  `json:"name"`
	Key     string  `json:"key"`
	Omit    bool    `json:"omit"`
	Pointer string  `json:"pointer"` // TRUE, FALSE, any
	Type    *goType `json:"type"`
}

var goTypes = map[string]reflect.Type{
	"string": reflect.TypeOf(""), "integer": reflect.TypeOf(int64(0)), "int32": reflect.TypeOf(int32(0)), "number": reflect.TypeOf(float64(0)),
	"float": reflect.TypeOf(float32(0)), "boolean": reflect.TypeOf(false), "date-time": reflect.TypeOf(time.Time{}), "date": reflect.TypeOf(civil.Date{}),
	"uint8": reflect.TypeOf(uint8(0)), "addr": reflect.TypeOf(netip.Addr{}), "raw": reflect.TypeOf(json.RawMessage{}), "bytes": reflect.TypeOf([]byte{}),
}

func fieldIndex(msg any, name string) int {
	f, _ := reflect.TypeOf(msg).FieldByName(name)
	return f.Index[0]
}

// diff tells what is different in a type, which may be a named one.
func (g *goType) diff(at string, t reflect.Type) string {
	switch g.Go {
	case "any":
		if t.Kind() != reflect.Interface || t.NumMethod() > 0 {
			return fmt.Sprintf("%s is %s, not interface{}", at, t)
		}
	case "array":
		if t.Kind() != reflect.Slice {
			return fmt.Sprintf("%s is %s, not a slice", at, t)
		}
		return g.Items.diff(at+"[]", t.Elem())
	case "struct":
		if t.Kind() != reflect.Struct {
			return fmt.Sprintf("%s is %s, not a structure", at, t)
		}
		return g.fields(at, t)
	default:
		e := goTypes[g.Go]
		if t != e && (t.Kind() != e.Kind() || !t.ConvertibleTo(e)) {
			return fmt.Sprintf("%s is %s, not %s", at, t, e)
		}
	}
	return ""
}

func (g *goType) fields(at string, t reflect.Type) string {
	var names, exp []string
	for _, f := range g.Fields {
		exp = append(exp, f.Name)
	}
	if g.More != nil && g.More.Go != "" {
		exp = append(exp, "AdditionalProperties")
		f, ok := t.FieldByName("AdditionalProperties")
		if !ok || f.Type.Kind() != reflect.Map || f.Type.Key().Kind() != reflect.String {
			return at + " has no additional properties"
		}
		if d := g.More.diff(at+".AdditionalProperties[]", f.Type.Elem()); d != "" {
			return d
		}
	}
	for i := 0; i < t.NumField(); i++ {
		names = append(names, t.Field(i).Name)
	}
	sort.Strings(names)
	sort.Strings(exp)
	if fmt.Sprint(names) != fmt.Sprint(exp) {
		return fmt.Sprintf("%s has the fields %v, not %v", at, names, exp)
	}
	for _, f := range g.Fields {
		o, _ := t.FieldByName(f.Name)
		key, opts, _ := strings.Cut(o.Tag.Get("json"), ",")
		if key != f.Key || strings.Contains(","+opts+",", ",omitempty,") != f.Omit {
			return fmt.Sprintf("%s.%s has the JSON tag %q", at, f.Name, o.Tag.Get("json"))
		}
		ft := o.Type
		if p := ft.Kind() == reflect.Ptr; f.Pointer != "any" && p != (f.Pointer == "TRUE") {
			return fmt.Sprintf("%s.%s is %s", at, f.Name, ft)
		} else if p {
			ft = ft.Elem()
		}
		if d := f.Type.diff(at+"."+f.Name, ft); d != "" {
			return d
		}
	}
	return ""
}
