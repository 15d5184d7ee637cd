package props

import (
	"encoding/json"
	"fmt"
	"reflect"
	"strings"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

// Rules of structs reached through structs of every shape: with and without rules and tags of
// their own on the way.

func tags5(name, rule string) reflect.StructTag {
	t := fmt.Sprintf(`json:"%s" %s`, name, tags3(name))
	if rule != "" {
		t += fmt.Sprintf(` binding:"%s"`, rule)
	}
	return reflect.StructTag(t)
}

var tStr = reflect.TypeOf("")

// n30Leaves: the structs inside.
var n30Leaves = []reflect.Type{
	reflect.StructOf([]reflect.StructField{{Name: "A", Type: tStr, Tag: tags5("la", "required")}}),
	reflect.StructOf([]reflect.StructField{{Name: "A", Type: tStr, Tag: tags5("la", "")}, {Name: "B", Type: tStr, Tag: tags5("lb", "len=1")}}),
	reflect.StructOf([]reflect.StructField{{Name: "A", Type: tStr, Tag: tags5("la", "")}}),
	reflect.StructOf([]reflect.StructField{{Name: "A", Type: reflect.PtrTo(tStr), Tag: tags5("la", "required")}}),
	reflect.StructOf([]reflect.StructField{{Name: "A", Type: tStr, Tag: tags5("la", "omitempty,len=1")}}),
	reflect.StructOf([]reflect.StructField{{Name: "A", Type: tStr, Tag: `json:"A" form:"A" header:"A" uri:"A" binding:"required"`}}),
}

type n30Wrap struct {
	name string
	flat bool // also from lists of values
	mk   func(t reflect.Type, d int) []reflect.StructField
}

func n30Field(t reflect.Type, d int, rule string) reflect.StructField {
	return reflect.StructField{Name: "N", Type: t, Tag: tags5(fmt.Sprintf("n%d", d), rule)}
}

func n30Key(d int, rule string) reflect.StructField {
	return reflect.StructField{Name: "K", Type: tStr, Tag: tags5(fmt.Sprintf("k%d", d), rule)}
}

var n30Wraps = []n30Wrap{
	{"{T}", true, func(t reflect.Type, d int) []reflect.StructField { return []reflect.StructField{n30Field(t, d, "")} }},
	{"{*T}", true, func(t reflect.Type, d int) []reflect.StructField {
		return []reflect.StructField{n30Field(reflect.PtrTo(t), d, "")}
	}},
	{"{K; T}", true, func(t reflect.Type, d int) []reflect.StructField {
		return []reflect.StructField{n30Key(d, ""), n30Field(t, d, "")}
	}},
	{"{*T; K required}", true, func(t reflect.Type, d int) []reflect.StructField {
		return []reflect.StructField{n30Field(reflect.PtrTo(t), d, ""), n30Key(d, "required")}
	}},
	{"{embedded T}", true, func(t reflect.Type, d int) []reflect.StructField {
		f := n30Field(t, d, "")
		f.Anonymous = true
		return []reflect.StructField{f}
	}},
	{"{embedded *T; K}", true, func(t reflect.Type, d int) []reflect.StructField {
		f := n30Field(reflect.PtrTo(t), d, "")
		f.Anonymous = true
		return []reflect.StructField{f, n30Key(d, "")}
	}},
	{"{T -}", true, func(t reflect.Type, d int) []reflect.StructField { return []reflect.StructField{n30Field(t, d, "-")} }},
	{"{*T required}", true, func(t reflect.Type, d int) []reflect.StructField {
		return []reflect.StructField{n30Field(reflect.PtrTo(t), d, "required")}
	}},
	{"{[]T dive}", false, func(t reflect.Type, d int) []reflect.StructField {
		return []reflect.StructField{n30Field(reflect.SliceOf(t), d, "dive")}
	}},
	{"{[]*T max=2,dive}", false, func(t reflect.Type, d int) []reflect.StructField {
		return []reflect.StructField{n30Field(reflect.SliceOf(reflect.PtrTo(t)), d, "max=2,dive")}
	}},
	{"{[]T}", false, func(t reflect.Type, d int) []reflect.StructField {
		return []reflect.StructField{n30Field(reflect.SliceOf(t), d, "")}
	}},
	{"{[2]T dive}", false, func(t reflect.Type, d int) []reflect.StructField {
		return []reflect.StructField{n30Field(reflect.ArrayOf(2, t), d, "dive")}
	}},
	{"{K; map of T dive}", false, func(t reflect.Type, d int) []reflect.StructField {
		return []reflect.StructField{n30Key(d, ""), n30Field(reflect.MapOf(tStr, t), d, "dive")}
	}},
}

// n30OK is the meaning of the rules used here.
func n30OK(v reflect.Value) bool {
	t := v.Type()
	for i := 0; i < t.NumField(); i++ {
		f, rules := v.Field(i), strings.Split(t.Field(i).Tag.Get("binding"), ",")
		dive, skip := false, false
		for _, r := range rules {
			switch {
			case r == "-":
				skip = true
			case r == "dive":
				dive = true
			case r == "omitempty":
				skip = f.IsZero()
			case r == "required":
				if f.IsZero() {
					return false
				}
			case strings.HasPrefix(r, "len=") && !skip:
				if f.Len() != 1 {
					return false
				}
			case strings.HasPrefix(r, "max="):
				if f.Len() > 2 {
					return false
				}
			}
		}
		if skip {
			continue
		}
		elem := func(e reflect.Value) bool {
			for e.Kind() == reflect.Ptr {
				if e.IsNil() {
					return true
				}
				e = e.Elem()
			}
			return e.Kind() != reflect.Struct || n30OK(e)
		}
		switch f.Kind() {
		case reflect.Slice, reflect.Array:
			for j := 0; dive && j < f.Len(); j++ {
				if !elem(f.Index(j)) {
					return false
				}
			}
		case reflect.Map:
			for _, k := range f.MapKeys() {
				if dive && !elem(f.MapIndex(k)) {
					return false
				}
			}
		default:
			if !elem(f) {
				return false
			}
		}
	}
	return true
}

// n30Fill chooses a value of a type; it notes the named strings in data.
func n30Fill(c *C, v reflect.Value, tag reflect.StructTag, data map[string][]string) {
	switch v.Kind() {
	case reflect.String:
		if s := Pick(c, "x", "", "xx"); s != "" {
			v.SetString(s)
			data[tag.Get("form")] = []string{s}
		}
	case reflect.Ptr:
		if c.Bool() {
			v.Set(reflect.New(v.Type().Elem()))
			n30Fill(c, v.Elem(), tag, data)
		}
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			n30Fill(c, v.Field(i), v.Type().Field(i).Tag, data)
		}
	case reflect.Slice:
		n := c.Choose(3)
		v.Set(reflect.MakeSlice(v.Type(), n, n))
		fallthrough
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			n30Fill(c, v.Index(i), tag, data)
		}
	case reflect.Map:
		v.Set(reflect.MakeMap(v.Type()))
		if c.Bool() {
			e := reflect.New(v.Type().Elem()).Elem()
			n30Fill(c, e, tag, data)
			v.SetMapIndex(reflect.ValueOf("key"), e)
		}
	}
}

// c30Nested: layers of wrappers around a leaf; binding fails exactly if a rule is broken somewhere.
func c30Nested(layers int) Body {
	types := map[string]reflect.Type{}
	return func(c *C) {
		li := c.Choose(len(n30Leaves))
		flat, name := true, fmt.Sprint("leaf ", li)
		t := n30Leaves[li]
		for d := 0; d < layers; d++ {
			w := PickS(c, n30Wraps)
			flat = flat && w.flat
			name = w.name + " of " + name
			if types[name] == nil {
				types[name] = reflect.StructOf(w.mk(t, d))
			}
			t = types[name]
		}
		way := c.Choose(6)
		outer := 0
		if way < 3 {
			outer = c.Choose(3) // the struct itself, behind a pointer, in a list
		} else if !flat {
			return
		}
		v := reflect.New(t).Elem()
		data := map[string][]string{}
		n30Fill(c, v, "", data)
		var err error
		got := reflect.New(t)
		target := got
		val := v.Interface()
		switch outer {
		case 1:
			target = reflect.New(reflect.PtrTo(t))
			pv := reflect.New(t)
			pv.Elem().Set(v)
			val = pv.Interface()
		case 2:
			target = reflect.New(reflect.SliceOf(t))
			val = reflect.Append(reflect.MakeSlice(reflect.SliceOf(t), 0, 1), v).Interface()
		}
		p := quiet(func() {
			switch way {
			case 0, 1:
				b, e := json.Marshal(val)
				must(e)
				req := ReqBody("POST", "/b", "application/json", b)
				if way == 0 {
					err = binding.JSON.Bind(req, target.Interface())
				} else {
					c30Serve(req, func(ctx *water.Context) { err = ctx.Bind(target.Interface()) })
				}
			case 2:
				target.Elem().Set(reflect.ValueOf(val))
				err = binding.Validator.ValidateStruct(target.Interface())
			case 3:
				err = bindFrom(srcForm, len(data)%2 == 0, data, target.Interface())
			case 4:
				err = bindFrom(srcUri, len(data)%2 == 0, data, target.Interface())
			case 5:
				err = bindFrom(srcHeader, len(data)%2 == 0, data, target.Interface())
			}
		})
		c.Step()
		if way < 3 {
			switch outer {
			case 1:
				got = target.Elem()
			case 2:
				if target.Elem().Len() > 0 {
					got = target.Elem().Index(0).Addr()
				}
			}
		}
		desc := fmt.Sprintf("%s, way %d, outermost %d, %v", name, way, outer, data)
		if p || got.IsNil() {
			c.Failf("panic", "%s: panics or binds nothing (%v)", desc, err)
			return
		}
		if want := n30OK(got.Elem()); want != (err == nil) {
			c.Failf("nested", "%s: bound %+v, rules kept: %v, error %v", desc, got.Elem().Interface(), want, err)
		}
		if way < 3 && !reflect.DeepEqual(fmt.Sprintf("%+v", jsonOf(got.Elem())), fmt.Sprintf("%+v", jsonOf(v))) {
			c.Failf("value", "%s: other values are bound", desc)
		}
		c.State(desc)
		c.Outcome(fmt.Sprint(err == nil))
	}
}

func jsonOf(v reflect.Value) string {
	b, err := json.Marshal(v.Interface())
	must(err)
	return string(b)
}

func init() {
	addScopes("C30", Scope{Name: "nested", Desc: "6 structs with rules inside 13 wrappers with and without rules of their own (nested, pointer, embedded, excluded, lists, arrays, maps), in one more of them; every field good, absent or bad; JSON, context, validator, form, uri, header; on its own, behind a pointer or in a list", Body: c30Nested(2), Split: 3},
		Scope{Name: "nested-1", Desc: "the same with one wrapper", Body: c30Nested(1), Split: 2},
		Scope{Name: "nested-3", Desc: "the same with three wrappers", Body: c30Nested(3), Split: 4, Thorough: true})
}
