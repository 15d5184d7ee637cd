package props

import (
	"fmt"
	"math/big"
	"reflect"
	"strconv"
	"time"

	. "verif/mc/explore"
)

type c31Lay struct {
	tag  string // the time_format tag
	unix int    // 1: seconds, 2: nanoseconds
	lay  string // the layout otherwise
	prec time.Duration
	zone bool // the text carries its zone
	date int  // 1: date only, 2: time of day only
}

var c31Lays = []c31Lay{
	{"", 0, time.RFC3339, time.Second, true, 0},
	{"2006-01-02T15:04:05Z07:00", 0, time.RFC3339, time.Second, true, 0},
	{"2006-01-02", 0, "2006-01-02", 24 * time.Hour, false, 1},
	{"2006-01-02 15:04:05", 0, "2006-01-02 15:04:05", time.Second, false, 0},
	{"02/01/2006 03:04:05.000000000 PM", 0, "02/01/2006 03:04:05.000000000 PM", 1, false, 0},
	{"2006-01-02 15:04 -0700", 0, "2006-01-02 15:04 -0700", time.Minute, true, 0},
	{"Jan _2 2006 15:04:05", 0, "Jan _2 2006 15:04:05", time.Second, false, 0},
	{"unix", 1, "", time.Second, false, 0},
	{"UNIX", 1, "", time.Second, false, 0},
	{"unixnano", 2, "", 1, false, 0},
	{"unixNano", 2, "", 1, false, 0},
	{"unixmilli", 0, "unixmilli", 0, false, 3}, // not a layout with fields: only that very text fits
}

var c31UTC = []string{"", "1", "true", "0", "false", "nonsense"}
var c31Locs = []string{"", "UTC", "Local", "Asia/Shanghai", "America/New_York", "No/Where"}

type c31Civil struct{ y, mo, d, h, mi, s, ns int }

var c31Civils = []c31Civil{
	{2020, 2, 29, 23, 59, 59, 999999999}, {1970, 1, 1, 0, 0, 0, 0}, {1969, 12, 31, 23, 59, 59, 1}, {2021, 7, 4, 12, 0, 0, 500000000},
	{2021, 1, 31, 1, 2, 3, 4}, {1, 1, 1, 0, 0, 0, 0}, {9999, 12, 31, 23, 59, 59, 0}, {2038, 1, 19, 3, 14, 8, 0}, {1900, 3, 1, 4, 5, 6, 7},
}

var c31Bad = []string{"x", "2020-02-29", "2020-02-29T12:00", "2020-02-29T12:00:00.5Z", "2020-02-29T12:00:00+0800", "2020-02-29t12:00:00z", "2020-02-29T24:00:00Z", "2020/02/29", "29/02/2020", "12:30:00", "now", "2020-02-30", "2020-13-01T00:00:00Z", "2020-02-29T25:00:00Z", "2020-02-29T12:00:00", "2020-02-29T12:00:00Z ", " 2020-02-29T12:00:00Z", "2020-02-29 12:00:00", "12", "1.5", "1e9", "+", "0x10", " 1", "1 ",
	"9223372036854775808", "-9223372036854775809", "2021-02-29", "2020-2-9", "20200229", "2020-02-29T12:00:00+25:00", "null", "0001-01-01T00:00:00Z", "1600000000", "-1", "9223372036854775807", "-9223372036854775808", "0", "-0", "+7", "1_000", "1600000000123456789", "-1500000001", "999999999", "1000000000", "-1000000000", "-999999999"}

var c31LocalZone = time.FixedZone("HARNESS", 5*3600+1800)

// c31Zone is the zone of texts without one; ok is false when the declaration itself is invalid.
func c31Zone(utc, loc string) (*time.Location, bool) {
	l := c31LocalZone
	if utc == "1" || utc == "true" {
		l = time.UTC
	}
	switch loc {
	case "":
	case "Local":
		l = c31LocalZone
	case "No/Where":
		return nil, false
	default:
		x, err := time.LoadLocation(loc)
		must(err)
		l = x
	}
	return l, true
}

var c31Types = map[string]reflect.Type{}

func c31Type(lay c31Lay, utc, loc string, shape, src int, def string) reflect.Type {
	key := fmt.Sprint(lay.tag, "|", utc, "|", loc, "|", shape, "|", srcTag[src], "|", def)
	t := c31Types[key]
	if t == nil {
		tag := fmt.Sprintf(`%s:"t%s"`, srcTag[src], def)
		if lay.tag != "" {
			tag += fmt.Sprintf(` time_format:"%s"`, lay.tag)
		}
		if utc != "" {
			tag += fmt.Sprintf(` time_utc:"%s"`, utc)
		}
		if loc != "" {
			tag += fmt.Sprintf(` time_location:"%s"`, loc)
		}
		ft := []reflect.Type{tTime, reflect.PtrTo(tTime), reflect.SliceOf(tTime), reflect.SliceOf(reflect.PtrTo(tTime))}[shape]
		t = reflect.StructOf([]reflect.StructField{{Name: "T", Type: ft, Tag: reflect.StructTag(tag)}})
		c31Types[key] = t
	}
	return t
}

// c31Expect is the instant a text denotes: seconds since the epoch and nanoseconds.
type c31Inst struct {
	t  time.Time
	ok bool
}

func c31Unix(text string, nano bool) c31Inst {
	if !c27Dec.MatchString(text) {
		return c31Inst{}
	}
	n, _ := new(big.Int).SetString(text, 10)
	if n == nil { // a leading +
		n, _ = new(big.Int).SetString(text[1:], 10)
	}
	if !n.IsInt64() {
		return c31Inst{}
	}
	if !nano {
		return c31Inst{time.Unix(n.Int64(), 0), true}
	}
	sec, ns := new(big.Int).DivMod(n, big.NewInt(1e9), new(big.Int))
	return c31Inst{time.Unix(sec.Int64(), ns.Int64()), true}
}

func c31Times(f reflect.Value) []time.Time {
	var o []time.Time
	switch f.Kind() {
	case reflect.Ptr:
		if !f.IsNil() {
			o = append(o, f.Elem().Interface().(time.Time))
		}
	case reflect.Slice:
		for i := 0; i < f.Len(); i++ {
			o = append(o, c31Times(f.Index(i))...)
		}
	default:
		o = append(o, f.Interface().(time.Time))
	}
	return o
}

func sameInstants(a, b []time.Time) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !a[i].Equal(b[i]) {
			return false
		}
	}
	return true
}

func c31Run(c *C, lay c31Lay, utc, loc string, shape, src int, second, prior bool, texts []string, want []c31Inst, def string) {
	if shape == 3 && second {
		return // only Bind has slices of pointers
	}
	obj := reflect.New(c31Type(lay, utc, loc, shape, src, def))
	f := obj.Elem().Field(0)
	old := time.Unix(77, 88)
	if prior {
		switch shape {
		case 0:
			f.Set(reflect.ValueOf(old))
		case 1:
			f.Set(reflect.ValueOf(&old))
		case 2:
			f.Set(reflect.ValueOf([]time.Time{old, old, old}))
		case 3:
			f.Set(reflect.ValueOf([]*time.Time{&old}))
		}
	}
	before := append([]time.Time{}, c31Times(f)...)
	data := map[string][]string{}
	if len(texts) > 0 {
		data["t"] = texts
	}
	save := time.Local
	time.Local = c31LocalZone
	var err error
	p := quiet(func() { err = bindFrom(src, second, data, obj.Interface()) })
	time.Local = save
	c.Step()
	ok := true
	var exp []time.Time
	if shape < 2 && len(want) > 0 {
		want = want[:1]
	}
	for _, w := range want {
		ok = ok && w.ok
		exp = append(exp, w.t)
	}
	got := c31Times(f)
	desc := func() string {
		return fmt.Sprintf("format %q utc %q location %q, shape %d from %s (Bind2: %v, holding a value: %v), texts %q%s", lay.tag, utc, loc, shape, srcNames[src], second, prior, texts, def)
	}
	switch {
	case p:
		c.Failf("panic", "%s: panics", desc())
	case ok && err != nil:
		c.Failf("refused", "%s: %v, expected %v", desc(), err, exp)
	case !ok && err == nil:
		c.Failf("accepted", "%s: stores %v without an error", desc(), got)
	case ok && !sameInstants(got, exp):
		c.Failf("instant", "%s: stores %v, expected %v", desc(), got, exp)
	case !ok && !sameInstants(got, before):
		c.Failf("changed", "%s: fails (%v) but the field is now %v", desc(), err, got)
	}
	c.Outcome(fmt.Sprint(lay.tag, ok))
	c.State(desc())
}

// c31Text writes civil fields in a layout, and gives the instant meant.
func c31Text(lay c31Lay, cv c31Civil, zone *time.Location, fixed int) (string, c31Inst) {
	z := zone
	if lay.zone {
		z = []*time.Location{time.UTC, time.FixedZone("", 3600*5+1800), time.FixedZone("", -3600*8)}[fixed]
	}
	t := time.Date(cv.y, time.Month(cv.mo), cv.d, cv.h, cv.mi, cv.s, cv.ns, z)
	switch lay.unix {
	case 1:
		return strconv.FormatInt(t.Unix(), 10), c31Inst{time.Unix(t.Unix(), 0), true}
	case 2:
		n := new(big.Int).Add(new(big.Int).Mul(big.NewInt(t.Unix()), big.NewInt(1e9)), big.NewInt(int64(t.Nanosecond())))
		if !n.IsInt64() {
			return n.String(), c31Inst{}
		}
		return n.String(), c31Inst{t, true}
	}
	w := cv
	switch {
	case lay.date == 1:
		w = c31Civil{cv.y, cv.mo, cv.d, 0, 0, 0, 0}
	case lay.prec == time.Minute:
		w.s, w.ns = 0, 0
	case lay.prec == time.Second:
		w.ns = 0
	}
	return t.Format(lay.lay), c31Inst{time.Date(w.y, time.Month(w.mo), w.d, w.h, w.mi, w.s, w.ns, z), true}
}

func c31Body(shapes int, sources []int) Body {
	return func(c *C) {
		lay := c31Lays[c.Choose(len(c31Lays)-1)]
		utc := PickS(c, c31UTC)
		loc := PickS(c, c31Locs)
		shape := c.Choose(shapes)
		src := PickS(c, sources)
		second := src != srcMap && c.Bool()
		prior := c.Bool()
		cv := PickS(c, c31Civils)
		fixed := 0
		if lay.zone {
			fixed = c.Choose(3)
		}
		zone, zok := c31Zone(utc, loc)
		if !zok {
			zone = time.UTC
		}
		text, want := c31Text(lay, cv, zone, fixed)
		if lay.zone && cv.y == 9999 && fixed == 1 {
			return
		}
		if !zok && lay.unix == 0 {
			want.ok = false
		}
		texts, wants := []string{text}, []c31Inst{want}
		if shape > 1 && c.Bool() {
			t2, w2 := c31Text(lay, c31Civils[3], zone, fixed)
			if !zok && lay.unix == 0 {
				w2.ok = false
			}
			texts, wants = []string{t2, text}, []c31Inst{w2, want}
		}
		c31Run(c, lay, utc, loc, shape, src, second, prior, texts, wants, "")
	}
}

// c31Misfit: texts that do not fit, empty texts, numbers at every limit.
func c31Misfit(c *C) {
	lay := PickS(c, c31Lays)
	utc := Pick(c, "", "true")
	loc := Pick(c, "", "Asia/Shanghai", "No/Where")
	shape := c.Choose(4)
	src := Pick(c, srcQuery, srcForm, srcMulti, srcHeader, srcUri, srcMap)
	second := src != srcMap && c.Bool()
	prior := c.Bool()
	text := PickS(c, append([]string{""}, c31Bad...))
	zone, zok := c31Zone(utc, loc)
	var want c31Inst
	switch {
	case lay.unix > 0:
		want = c31Unix(text, lay.unix == 2)
	case text == "":
		want = c31Inst{time.Time{}, true}
	case !zok:
	default:
		t, err := time.ParseInLocation(lay.lay, text, zone)
		want = c31Inst{t, err == nil}
	}
	texts, wants := []string{text}, []c31Inst{want}
	if c.Bool() {
		good, w := c31Text(lay, c31Civils[0], time.UTC, 0)
		if zok {
			good, w = c31Text(lay, c31Civils[0], zone, 0)
		} else if lay.unix == 0 {
			w.ok = false
		}
		if lay.date == 3 {
			return
		}
		texts, wants = []string{text, good}, []c31Inst{want, w}
	}
	c31Run(c, lay, utc, loc, shape, src, second, prior, texts, wants, "")
}

// c31Default: absent names keep the field, declared defaults are parsed.
func c31Default(c *C) {
	shape := c.Choose(4)
	src := Pick(c, srcQuery, srcHeader, srcUri, srcMap)
	second := src != srcMap && c.Bool()
	prior := c.Bool()
	k := c.Choose(4)
	lay := c31Lays[[]int{0, 7, 2, 9}[k]]
	def := []string{"2020-02-29T12:00:00Z", "1600000000", "2020-02-29", "1600000000123456789"}[k]
	t := []time.Time{time.Date(2020, 2, 29, 12, 0, 0, 0, time.UTC), time.Unix(1600000000, 0), time.Date(2020, 2, 29, 0, 0, 0, 0, c31LocalZone), time.Unix(1600000000, 123456789)}[k]
	ok := true
	switch c.Choose(3) {
	case 1:
		def, ok = "bad", false
	case 2:
		def = ""
	}
	if def == "" {
		obj := reflect.New(c31Type(lay, "", "", shape, src, ""))
		if err := bindFrom(src, second, map[string][]string{"other": {"x"}}, obj.Interface()); err != nil || len(c31Times(obj.Elem().Field(0))) > 0 && !c31Times(obj.Elem().Field(0))[0].IsZero() {
			c.Failf("absent", "an absent time is %v, %v", obj.Elem().Interface(), err)
		}
		c.Step()
		return
	}
	c31Run(c, lay, "", "", shape, src, second, prior, nil, []c31Inst{{t, ok}}, ",default="+def)
}

// c31Seconds: whole ranges of epoch numbers.
func c31Seconds(c *C) {
	nano := c.Bool()
	second := c.Bool()
	base := Pick(c, int64(0), 1e9, -1e9, 1600000000, 1<<31, 1<<32, 1600000000*1e9, -5e9, 1<<62)
	lay := c31Lays[7]
	if nano {
		lay = c31Lays[9]
	}
	t := c31Type(lay, "", "", 0, srcUri, "")
	for d := int64(-600); d <= 600; d++ {
		n := base + d
		text := strconv.FormatInt(n, 10)
		obj := reflect.New(t)
		var err error
		p := quiet(func() { err = bindFrom(srcUri, second, map[string][]string{"t": {text}}, obj.Interface()) })
		want := c31Unix(text, nano)
		c.Step()
		if got := obj.Elem().Field(0).Interface().(time.Time); p || err != nil || !got.Equal(want.t) || nano && got.UnixNano() != n || !nano && got.Unix() != n {
			c.Failf("instant", "epoch number %s (nanoseconds %v, Bind2 %v): %v, %v (panic %v), expected %v", text, nano, second, got, err, p, want.t)
			return
		}
	}
	c.State(fmt.Sprint(nano, second, base))
}

func init() {
	all := []int{srcQuery, srcForm, srcMulti, srcHeader, srcUri, srcMap}
	register(&Prop{ID: "C31", Scopes: []Scope{
		{Name: "default", Desc: "absent names and declared defaults, fitting or not, 4 layouts x 4 shapes x sources", Body: c31Default, Split: 2},
		{Name: "epoch", Desc: "1201 epoch numbers around 9 bases as seconds and nanoseconds", Body: c31Seconds, Split: 2},
		{Name: "misfit", Desc: "12 layouts x UTC flag x 3 locations x field, pointer, slice, slice of pointers x 6 sources x Bind and Bind2 x field zero or set x 48 texts that are empty, do not fit, or are at a limit, alone or first of two", Body: c31Misfit, Split: 4},
		{Name: "instants", Desc: "11 layouts x 6 UTC flags x 6 locations (one unknown) x 9 civil times x 3 zones in the text x field, pointer, slice x uri and query x Bind and Bind2 x field zero or set", Body: c31Body(3, []int{srcUri, srcQuery}), Split: 4},
		{Name: "instants-all", Desc: "the same from all sources and for slices of pointers", Body: c31Body(4, all), Split: 4, Thorough: true},
	}})
}
