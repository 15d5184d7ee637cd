package props

import (
	"bytes"
	"fmt"
	"math"
	"math/big"
	"mime/multipart"
	"net/http"
	"net/url"
	"reflect"
	"regexp"
	"strconv"
	"strings"
	"time"

	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

type myInt8 int8
type myUint16 uint16
type myString string
type myBool bool
type myFloat float32
type myInt int

var c27Kinds = []reflect.Type{
	reflect.TypeOf(int8(0)), reflect.TypeOf(int16(0)), reflect.TypeOf(int32(0)), reflect.TypeOf(int64(0)), reflect.TypeOf(0),
	reflect.TypeOf(uint8(0)), reflect.TypeOf(uint16(0)), reflect.TypeOf(uint32(0)), reflect.TypeOf(uint64(0)), reflect.TypeOf(uint(0)),
	reflect.TypeOf(float32(0)), reflect.TypeOf(float64(0)), reflect.TypeOf(false), reflect.TypeOf(""),
	reflect.TypeOf(myInt8(0)), reflect.TypeOf(myUint16(0)), reflect.TypeOf(myString("")), reflect.TypeOf(myBool(false)), reflect.TypeOf(myFloat(0)), reflect.TypeOf(myInt(0)),
}

var c27Texts = []string{"", "0", "1", "-1", "+1", "-0", "+0", "00", "007", "127", "128", "-128", "-129", "255", "256", "257", "300", "32767", "32768", "-32768", "-32769",
	"65535", "65536", "65537", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "4294967297",
	"9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809", "18446744073709551615", "18446744073709551616", "99999999999999999999",
	" 1", "1 ", "1.0", "1.5", "1e3", "0x10", "0b1", "0o7", "010", "1_000", "abc", "1a", "a1", "-", "+", "--1", "true", "false", "t", "f", "F", "T", "TRUE", "True", "FALSE", "False", "tRUE", "yes", "on", "off",
	"NaN", "Inf", "-inf", "+Infinity", "1e38", "1e39", "-1e39", "1e400", "-1e400", "1e-46", "1e-400", "3.4028235e38", "3.4028236e38", "0.1", "16777217", ".5", "5.", "0x1p-2", "\u0661", "1\n", "\t1", "\x00", "1,2", "nil", "null", "é", "\"1\"", "2", "a b&c=d%20+", "-32769.5", "1E2", "٣.٥"}

var c27Dec = regexp.MustCompile(`^[+-]?[0-9]+$`)
var c27UDec = regexp.MustCompile(`^[0-9]+$`)

// c27Denotes gives the value a text denotes for a type, or not ok.
func c27Denotes(t reflect.Type, text string) (v reflect.Value, ok bool) {
	v = reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString(text)
		return v, true
	case reflect.Bool:
		switch text {
		case "1", "t", "T", "TRUE", "true", "True":
			v.SetBool(true)
			return v, true
		case "", "0", "f", "F", "FALSE", "false", "False":
			return v, true
		}
		return v, false
	}
	if text == "" {
		return v, true
	}
	switch t.Kind() {
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if !c27Dec.MatchString(text) {
			return v, false
		}
		n, _ := new(big.Int).SetString(strings.TrimPrefix(text, "+"), 10)
		lim := new(big.Int).Lsh(big.NewInt(1), uint(t.Bits()-1))
		if n.Cmp(lim) >= 0 || n.Cmp(new(big.Int).Neg(lim)) < 0 {
			return v, false
		}
		v.SetInt(n.Int64())
		return v, true
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if !c27UDec.MatchString(text) {
			return v, false
		}
		n, _ := new(big.Int).SetString(text, 10)
		if n.BitLen() > t.Bits() {
			return v, false
		}
		v.SetUint(n.Uint64())
		return v, true
	default:
		f, err := strconv.ParseFloat(text, t.Bits())
		if err != nil {
			return v, false
		}
		v.SetFloat(f)
		return v, true
	}
}

func c27Prior(t reflect.Type) reflect.Value {
	v := reflect.New(t).Elem()
	switch t.Kind() {
	case reflect.String:
		v.SetString("before")
	case reflect.Bool:
		v.SetBool(true)
	case reflect.Float32, reflect.Float64:
		v.SetFloat(-7.25)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		v.SetInt(-77)
	default:
		v.SetUint(77)
	}
	return v
}

const (
	shPlain = iota
	shPtr
	shSlice
	shPtrSlice // *[]T
	shSlicePtr // []*T
	shArray    // [2]T
	shN
)

var c27ShapeNames = []string{"plain", "pointer", "slice", "pointer to slice", "slice of pointers", "array of 2"}

func c27Shape(t reflect.Type, sh int) reflect.Type {
	switch sh {
	case shPtr:
		return reflect.PtrTo(t)
	case shSlice:
		return reflect.SliceOf(t)
	case shPtrSlice:
		return reflect.PtrTo(reflect.SliceOf(t))
	case shSlicePtr:
		return reflect.SliceOf(reflect.PtrTo(t))
	case shArray:
		return reflect.ArrayOf(2, t)
	}
	return t
}

// c27Flat lists the scalars of a field value; nil when a pointer is nil.
func c27Flat(v reflect.Value) []interface{} {
	switch v.Kind() {
	case reflect.Ptr:
		if v.IsNil() {
			return nil
		}
		return c27Flat(v.Elem())
	case reflect.Slice, reflect.Array:
		o := []interface{}{}
		for i := 0; i < v.Len(); i++ {
			o = append(o, c27Flat(v.Index(i))...)
		}
		return o
	}
	return []interface{}{v.Interface()}
}

func c27Same(a, b []interface{}) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		x, y := reflect.ValueOf(a[i]), reflect.ValueOf(b[i])
		if x.Type() != y.Type() {
			return false
		}
		if k := x.Kind(); k == reflect.Float32 || k == reflect.Float64 {
			if math.Float64bits(x.Float()) != math.Float64bits(y.Float()) && !(math.IsNaN(x.Float()) && math.IsNaN(y.Float())) {
				return false
			}
			continue
		}
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

const (
	srcQuery = iota
	srcForm
	srcMulti
	srcHeader
	srcUri
	srcMap // MapForm itself
	srcN
)

var srcNames = []string{"query", "form", "multipart", "header", "uri", "MapForm"}
var srcTag = []string{"form", "form", "form", "header", "uri", "form"}

// bindFrom binds data from a source with one of the two implementations.
func bindFrom(src int, second bool, data map[string][]string, obj interface{}) error {
	switch src {
	case srcQuery:
		r := Req("GET", "/")
		r.URL.RawQuery = url.Values(data).Encode()
		if second {
			return binding.Query.Bind2(r, obj)
		}
		return binding.Query.Bind(r, obj)
	case srcForm:
		r := ReqBody("POST", "/", "application/x-www-form-urlencoded", []byte(url.Values(data).Encode()))
		if second {
			return binding.Form.Bind2(r, obj)
		}
		return binding.Form.Bind(r, obj)
	case srcMulti:
		var ps []kv
		empty := false
		for _, k := range sortedNames(data) {
			empty = empty || len(data[k]) == 0
			for _, v := range data[k] {
				ps = append(ps, kv{k, v})
			}
		}
		var r *http.Request
		if empty { // such a form is not the product of parsing
			r = Req("POST", "/")
			r.MultipartForm = &multipart.Form{Value: data}
		} else {
			ct, b := encodeMulti(ps)
			r = ReqBody("POST", "/", ct, b)
		}
		if second {
			return binding.FormMultipart.Bind2(r, obj)
		}
		return binding.FormMultipart.Bind(r, obj)
	case srcHeader:
		r := Req("GET", "/")
		for k, v := range data {
			r.Header[http.CanonicalHeaderKey(k)] = v
		}
		if second {
			return binding.Header.Bind2(r, obj)
		}
		return binding.Header.Bind(r, obj)
	case srcUri:
		if second {
			return binding.Uri.Bind2(data, obj)
		}
		return binding.Uri.Bind(data, obj)
	}
	return binding.MapForm(obj, data, nil, "form")
}

func sortedNames(m map[string][]string) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	for i := range ks {
		for j := i + 1; j < len(ks); j++ {
			if ks[j] < ks[i] {
				ks[i], ks[j] = ks[j], ks[i]
			}
		}
	}
	return ks
}

type c27Key struct {
	k, sh, src int
	opt        string
}

var c27Types = map[c27Key]reflect.Type{}

func c27Type(k, sh, src int, opt string) reflect.Type {
	key := c27Key{k, sh, src, opt}
	t := c27Types[key]
	if t == nil {
		ft := c27Shape(c27Kinds[k], sh)
		t = reflect.StructOf([]reflect.StructField{
			{Name: "Before", Type: reflect.TypeOf(""), Tag: reflect.StructTag(srcTag[src] + `:"Before"`)},
			{Name: "F", Type: ft, Tag: reflect.StructTag(fmt.Sprintf(`%s:"val%s"`, srcTag[src], opt))},
			{Name: "After", Type: reflect.TypeOf(""), Tag: reflect.StructTag(srcTag[src] + `:"After"`)},
		})
		c27Types[key] = t
	}
	return t
}

// c27Accepts tells whether an implementation supports a shape.
func c27Accepts(second bool, sh int) bool {
	switch sh {
	case shPtrSlice, shArray:
		return second
	case shSlicePtr:
		return !second
	}
	return true
}

func c27Set(f reflect.Value, t reflect.Type, sh int, n int) {
	p := c27Prior(t)
	ptr := func() reflect.Value {
		x := reflect.New(t)
		x.Elem().Set(p)
		return x
	}
	switch sh {
	case shPlain:
		f.Set(p)
	case shPtr:
		f.Set(ptr())
	case shSlice:
		f.Set(reflect.Append(f, p, p, p))
	case shPtrSlice:
		x := reflect.New(f.Type().Elem())
		x.Elem().Set(reflect.Append(x.Elem(), p, p, p))
		f.Set(x)
	case shSlicePtr:
		f.Set(reflect.Append(f, ptr(), ptr()))
	case shArray:
		f.Index(0).Set(p)
		f.Index(1).Set(p)
	}
}

// c27Try binds values and compares with what they denote.
func c27Try(k, sh, src int, second, prior bool, vals []string, absent bool, def string) (string, bool) {
	kt := c27Kinds[k]
	opt := ""
	if def != "" {
		opt = ",default=" + def
	}
	obj := reflect.New(c27Type(k, sh, src, opt))
	obj.Elem().Field(0).SetString("x")
	obj.Elem().Field(2).SetString("y")
	f := obj.Elem().Field(1)
	if prior {
		c27Set(f, kt, sh, len(vals))
	}
	before := c27Flat(f)
	beforeNil := f.Kind() == reflect.Ptr && f.IsNil()
	data := map[string][]string{"other": {"1"}}
	if !absent {
		data["val"] = vals
	}
	var err error
	if quiet(func() { err = bindFrom(src, second, data, obj.Interface()) }) {
		return "panics", false
	}
	use := vals
	if absent {
		use = nil
		if def != "" {
			use = []string{def}
		}
	}
	var want []interface{}
	ok := true
	if len(use) > 0 {
		switch sh {
		case shPlain, shPtr:
			use = use[:1]
		case shArray:
			ok = len(use) == 2
		}
		for _, u := range use {
			v, o := c27Denotes(kt, u)
			ok = ok && o
			want = append(want, v.Interface())
		}
	} else {
		want = before
	}
	got := c27Flat(f)
	if x, y := obj.Elem().Field(0).String(), obj.Elem().Field(2).String(); x != "x" || y != "y" {
		return fmt.Sprintf("changed other fields to %q, %q", x, y), ok
	}
	switch {
	case !ok && err == nil:
		return fmt.Sprintf("stores %v without an error", got), ok
	case err != nil && ok && (c27Accepts(second, sh)):
		return fmt.Sprintf("refused: %v", err), ok
	case err == nil && !c27Same(got, want):
		return fmt.Sprintf("stores %v, expected %v", got, want), ok
	case err == nil && len(use) == 0 && f.Kind() == reflect.Ptr && f.IsNil() != beforeNil:
		return "allocates a pointer nothing named", ok
	case err != nil && sh != shArray && !c27Same(got, before):
		return fmt.Sprintf("fails (%v) but stores %v", err, got), ok
	}
	return "", ok
}

func c27Body(kinds []int, multi bool) Body {
	return func(c *C) {
		k := PickS(c, kinds)
		sh := c.Choose(shN)
		src := c.Choose(srcN)
		second := src != srcMap && c.Bool()
		prior := c.Bool()
		var layouts [][]string
		var text string
		text = PickS(c, c27Texts)
		if src == srcHeader && false {
			return
		}
		good := "1"
		if sh == shPlain || sh == shPtr {
			layouts = [][]string{{text}, {text, "zz"}, {text, "1"}}
		} else {
			layouts = [][]string{{text}, {good, text}, {text, good}}
		}
		if multi {
			if sh == shPlain || sh == shPtr {
				return
			}
			t2 := PickS(c, c27Texts)
			layouts = [][]string{{text, t2}, {text, good, t2}}
		}
		for _, vals := range layouts {
			s, ok := c27Try(k, sh, src, second, prior, vals, false, "")
			c.Step()
			if s != "" {
				c.Failf("scalar", "%s %v from %s (Bind2: %v, holding a value: %v), texts %q: %s", c27ShapeNames[sh], c27Kinds[k], srcNames[src], second, prior, vals, s)
				return
			}
			c.Outcome(fmt.Sprint(c27Kinds[k].Kind(), ok))
		}
		c.State(fmt.Sprint(k, sh, src, second, prior, text))
	}
}

// c27Default: absent names, defaults, empty texts.
func c27Default(c *C) {
	k := c.Choose(len(c27Kinds))
	sh := c.Choose(shN)
	src := c.Choose(srcN)
	second := src != srcMap && c.Bool()
	prior := c.Bool()
	def := Pick(c, "", "5", "true", "zz", "300", "-5", "1.5")
	absent := c.Bool()
	vals := []string{"1"}
	if !absent {
		vals = Pick(c, []string{""}, []string{"1"}, []string{"", "1"}, []string{"0", "zz"}, []string{"zz", "0"})
	}
	s, ok := c27Try(k, sh, src, second, prior, vals, absent, def)
	c.Step()
	if s != "" {
		c.Failf("default", "%s %v default=%s from %s (Bind2: %v, holding a value: %v), absent %v, texts %q: %s", c27ShapeNames[sh], c27Kinds[k], def, srcNames[src], second, prior, absent, vals, s)
	}
	c.Outcome(fmt.Sprint(def, ok))
	c.State(fmt.Sprint(k, sh, src, second, prior, def, absent, vals))
}

// c27Chars: every text of up to n bytes of an alphabet, one integer, unsigned, float and bool of each width.
func c27Chars(n int, alphabet string) Body {
	return func(c *C) {
		var b bytes.Buffer
		for i := 0; i < n; i++ {
			j := c.Choose(len(alphabet) + 1)
			if j == 0 {
				break
			}
			b.WriteByte(alphabet[j-1])
		}
		text := b.String()
		for k := range c27Kinds[:14] {
			for s2 := 0; s2 < 2; s2++ {
				for _, prior := range []bool{false, true} {
					s, _ := c27Try(k, shPlain, srcUri, s2 == 1, prior, []string{text}, false, "")
					c.Step()
					if s != "" {
						c.Failf("scalar", "plain %v from uri (Bind2: %v, holding a value: %v), text %q: %s", c27Kinds[k], s2 == 1, prior, text, s)
						return
					}
				}
			}
		}
		c.State(text)
	}
}

// c27Ints: every value of the 8 and 16 bit ranges and beyond.
func c27Ints(c *C) {
	hi := c.Range(-258, 258)
	for lo := 0; lo < 256; lo++ {
		n := hi*256 + lo
		text := strconv.Itoa(n)
		for _, k := range []int{0, 1, 5, 6, 2, 7} {
			for s2 := 0; s2 < 2; s2++ {
				s, _ := c27Try(k, shPlain, srcUri, s2 == 1, false, []string{text}, false, "")
				c.Step()
				if s != "" {
					c.Failf("scalar", "plain %v from uri (Bind2: %v), text %q: %s", c27Kinds[k], s2 == 1, text, s)
					return
				}
			}
		}
	}
	c.State(fmt.Sprint(hi))
}

// c27Durations: a time.Duration field holds what one of the two readings of the text gives (a Go
// duration, or a plain number of nanoseconds), or is left alone and the binding fails.
func c27Durations(c *C) {
	sh := Pick(c, shPlain, shPtr, shSlice)
	src := c.Choose(srcN)
	second := src != srcMap && c.Bool()
	prior := c.Bool()
	def := Pick(c, "", "90s", "5", "zz")
	texts := []string{"", "0", "5", "-7", "+3", "1s", "-1.5h", "1h2m3s", "2562047h47m16.854775807s", "2562047h47m16.854775808s", "9223372036854775807", "9223372036854775808", "1", "s", "1 s", "1s ", "1d", ".5s", "5.", "1e3s", "0x10", "1ms1us1ns", "--1s", "1.s", "NaN"}
	var vals []string
	if n := c.Choose(3); n > 0 {
		vals = append(vals, PickS(c, texts))
		if n > 1 {
			vals = append(vals, Pick(c, "1s", "5", "zz"))
		}
	}
	dt := reflect.TypeOf(time.Duration(0))
	opt := ""
	if def != "" {
		opt = ",default=" + def
	}
	t := reflect.StructOf([]reflect.StructField{{Name: "F", Type: c27Shape(dt, sh), Tag: reflect.StructTag(fmt.Sprintf(`%s:"val%s"`, srcTag[src], opt))}})
	obj := reflect.New(t)
	f := obj.Elem().Field(0)
	if prior {
		c27Set(f, dt, sh, 0)
	}
	before := c27Flat(f)
	data := map[string][]string{"other": {"1"}}
	if len(vals) > 0 {
		data["val"] = vals
	}
	var err error
	p := quiet(func() { err = bindFrom(src, second, data, obj.Interface()) })
	c.Step()
	desc := fmt.Sprintf("%s of durations, default %q, from %s (Bind2 %v, holding a value %v), texts %q", c27ShapeNames[sh], def, srcNames[src], second, prior, vals)
	c.State(desc)
	use := vals
	if len(use) == 0 && def != "" {
		use = []string{def}
	}
	if sh != shSlice && len(use) > 1 {
		use = use[:1]
	}
	got := c27Flat(f)
	switch {
	case p:
		c.Failf("duration", "%s: panics", desc)
	case err != nil && !c27Same(got, before):
		c.Failf("duration", "%s: fails (%v) but stores %v", desc, err, got)
	case err != nil:
		c.Outcome("error")
		// what its own reading accepts must not be refused
		ok := true
		for _, u := range use {
			var e error
			if second {
				_, e = time.ParseDuration(u)
			} else {
				ok = ok && c27Dec.MatchString(u)
				_, e = strconv.ParseInt(u, 10, 64)
			}
			ok = ok && e == nil
		}
		if ok {
			c.Failf("duration", "%s: refused: %v", desc, err)
		}
	case len(use) == 0:
		if !c27Same(got, before) {
			c.Failf("duration", "%s: stores %v", desc, got)
		}
	default:
		c.Outcome("stored")
		if len(got) != len(use) {
			c.Failf("duration", "%s: stores %v", desc, got)
			return
		}
		for i, u := range use {
			d, e1 := time.ParseDuration(u)
			n, ok := c27Denotes(reflect.TypeOf(int64(0)), u)
			if !(e1 == nil && got[i] == interface{}(d)) && !(ok && got[i] == interface{}(time.Duration(n.Int()))) {
				c.Failf("duration", "%s: stores %v", desc, got)
				return
			}
		}
	}
}

func init() {
	all := make([]int, len(c27Kinds))
	for i := range all {
		all[i] = i
	}
	register(&Prop{ID: "C27", Scopes: []Scope{
		{Name: "texts", Desc: "20 scalar types (every width, named types) x plain, pointer, slice, pointer to slice, slice of pointers, array x query, form, multipart, header, uri, MapForm x Bind and Bind2 x field zero or holding a value x ~100 texts at and around every limit, first or second of several values", Body: c27Body(all, false), Split: 4},
		{Name: "defaults", Desc: "the same types, shapes and sources x 7 defaults (fitting or not) x absent, empty, present", Body: c27Default, Split: 3},
		{Name: "durations", Desc: "time.Duration fields, plain, pointer, slice x sources x Bind and Bind2 x 4 defaults x up to 2 of 25 texts", Body: c27Durations, Split: 3},
		{Name: "ints", Desc: "every integer from -66048 to 66303 into 8, 16 and 32 bit fields", Body: c27Ints, Split: 1},
		{Name: "strings", Desc: "every text of up to 4 characters of '0 1 9 - + . e t space'", Body: c27Chars(4, "019-+.et "), Split: 2},
		{Name: "pairs", Desc: "slices and arrays with every pair of texts", Body: c27Body([]int{0, 5, 10, 12, 13, 8}, true), Split: 4, Thorough: true},
		{Name: "strings-5", Desc: "every text of up to 5 characters of '0 1 2 9 - + . e x _ I n f'", Body: c27Chars(5, "0129-+.ex_Inf"), Split: 2, Thorough: true},
	}})
}
