package props

import (
	"fmt"
	"reflect"

	. "verif/mc/explore"
)

// ---- C28: recursive types

func hasType(l []reflect.Type, t reflect.Type) bool {
	for _, x := range l {
		if x == t {
			return true
		}
	}
	return false
}

type recA struct { // a list
	A    string `form:"a" header:"a" uri:"a"`
	Next *recA
	I    int `form:"i" header:"i" uri:"i"`
}

type recB struct { // two types in turn, with an inner struct between
	A  string `form:"a" header:"a" uri:"a"`
	In struct {
		P *string `form:"p" header:"p" uri:"p"`
		C *recC
	}
}

type recC struct {
	Back *recB
	S    []string `form:"s" header:"s" uri:"s"`
	Ign  *recC    `form:"-" header:"-" uri:"-"`
}

type RecD struct { // embedded in itself
	*RecD
	A string `form:"a" header:"a" uri:"a"`
}

type recE struct { // a tree beside another struct used twice
	L, R *recE
	X    *LeafG
	Y    LeafG
	I    int16 `form:"i" header:"i" uri:"i"`
}

type recF struct { // through an embedded pointer of another type
	*RecG
	A string `form:"a" header:"a" uri:"a"`
}

type RecG struct {
	F *recF
	S []string `form:"s" header:"s" uri:"s"`
}

var recTypes = []reflect.Type{reflect.TypeOf(recA{}), reflect.TypeOf(recB{}), reflect.TypeOf(recC{}), reflect.TypeOf(RecD{}), reflect.TypeOf(recE{}), reflect.TypeOf(recF{}), reflect.TypeOf(RecG{})}

// recFill allocates pointers to structs as chosen, to some depth.
func recFill(c *C, v reflect.Value, depth int) {
	for i := 0; i < v.NumField(); i++ {
		f := v.Field(i)
		switch {
		case f.Kind() == reflect.String:
			f.SetString("before")
		case f.Kind() == reflect.Struct:
			recFill(c, f, depth)
		case f.Kind() == reflect.Ptr && f.Type().Elem().Kind() == reflect.Struct && depth > 0 && c.Bool():
			f.Set(reflect.New(f.Type().Elem()))
			recFill(c, f.Elem(), depth-1)
		}
	}
}

func c28Recursive(depth int) Body {
	return func(c *C) {
		t := PickS(c, recTypes)
		src := Pick(c, srcQuery, srcForm, srcMulti, srcHeader, srcUri, srcMap)
		second := src != srcMap && c.Bool()
		data := map[string][]string{}
		for _, n := range []string{"a", "i", "p", "s"} {
			if c.Bool() {
				data[n] = []string{"5"}
			}
		}
		v := reflect.New(t)
		recFill(c, v.Elem(), depth)
		before, want := snap(v.Elem()), snap(v.Elem())
		bad := false
		c28Apply(want, t, srcTag[src], second, data, &bad)
		var err error
		p := quiet(func() { err = bindFrom(src, second, data, v.Interface()) })
		c.Step()
		if got := snap(v.Elem()); p || err != nil || got.String() != want.String() {
			c.Failf("recursive", "%s from %s (Bind2: %v), data %v, before %v: panic %v, error %v, now %v, expected %v", t.Name(), srcNames[src], second, data, before, p, err, got, want)
		}
		c.State(fmt.Sprint(t.Name(), src, second, data, before))
	}
}

func init() {
	addScopes("C28", Scope{Name: "recursive", Desc: "7 recursive types (lists, trees, in turn, embedded) with every choice of allocated pointers to depth 2 x all sources x Bind and Bind2 x data naming any of 4 fields", Body: c28Recursive(2), Split: 3},
		Scope{Name: "recursive-3", Desc: "allocated to depth 3", Body: c28Recursive(3), Split: 4, Thorough: true})
}
