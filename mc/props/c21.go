package props

import (
	"errors"
	"fmt"
	"math"
	"net/url"
	"strconv"
	"strings"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

var c21Texts = []string{"", "0", "1", "-1", "+1", "007", "-0", "0x10", "0X1p-2", "0b1", "0o7", "1_000", "1e3", "1E3", "1.5", ".5", "1.", "-1.5e-3", "Inf", "-inf", "+Infinity", "NaN", "nan",
	"127", "128", "-128", "-129", "255", "256", "32767", "32768", "65535", "65536", "2147483647", "2147483648", "-2147483648", "-2147483649", "4294967295", "4294967296", "9223372036854775807", "9223372036854775808", "-9223372036854775808", "-9223372036854775809",
	"18446744073709551615", "18446744073709551616", "99999999999999999999", "-99999999999999999999", "9007199254740993", "1e308", "1e309", "-1e309", "1e-400", "3.4028236e38", "0.1", "1e400",
	" 1", "1 ", "1 2", "１", "true", "TRUE", "True", "tRUE", "t", "T", "f", "F", "false", "FALSE", "False", "yes", "no", "on", "--1", "1,000", "1,5", "-0,5", "٠", "x", "1x", "0x", "e", ".", "-", "+", "00000000000000000000000000001", "1;", "\t1", "1\n", "\"1\"", "null"}

// c21Num is one typed accessor's answer as text: exact for every type.
type c21Acc struct {
	name string
	// want is the standard parse; err tells the failure
	want func(s string) (string, error)
	kind string
}

func fl(f float64) string { return fmt.Sprintf("%016x %v", math.Float64bits(f), f) }

var c21Std = map[string]func(s string) (string, error){
	"bool": func(s string) (string, error) { v, err := strconv.ParseBool(s); return fmt.Sprint(v), err },
	"int": func(s string) (string, error) {
		v, err := strconv.ParseInt(s, 10, strconv.IntSize)
		return fmt.Sprint(v), err
	},
	"int64": func(s string) (string, error) { v, err := strconv.ParseInt(s, 10, 64); return fmt.Sprint(v), err },
	"uint": func(s string) (string, error) {
		v, err := strconv.ParseUint(s, 10, strconv.IntSize)
		return fmt.Sprint(v), err
	},
	"uint64":  func(s string) (string, error) { v, err := strconv.ParseUint(s, 10, 64); return fmt.Sprint(v), err },
	"float64": func(s string) (string, error) { v, err := strconv.ParseFloat(s, 64); return fl(v), err },
}

var c21Kinds = []string{"bool", "int", "int64", "uint", "uint64", "float64"}

func c21Zero(kind string) string {
	switch kind {
	case "bool":
		return "false"
	case "float64":
		return fl(0)
	}
	return "0"
}

// c21Plain checks an accessor without an error result.
func c21Plain(kind, text, got string) string {
	want, err := c21Std[kind](text)
	if err == nil && got == want {
		return ""
	}
	if err != nil && got == c21Zero(kind) {
		return ""
	}
	if errors.Is(err, strconv.ErrRange) && got == want { // the nearest value
		return ""
	}
	if err != nil {
		want = c21Zero(kind)
	}
	return fmt.Sprintf("of %q is %s, expected %s (parse error: %v)", text, got, want, err)
}

func c21Err(kind, text, got string, gotErr error) string {
	want, err := c21Std[kind](text)
	if err == nil {
		if gotErr != nil || got != want {
			return fmt.Sprintf("of %q is %s, %v, expected %s", text, got, gotErr, want)
		}
		return ""
	}
	if gotErr == nil {
		return fmt.Sprintf("of %q is %s without an error, expected %v", text, got, err)
	}
	if errors.Is(err, strconv.ErrRange) != errors.Is(gotErr, strconv.ErrRange) || errors.Is(err, strconv.ErrSyntax) != errors.Is(gotErr, strconv.ErrSyntax) {
		return fmt.Sprintf("of %q fails with %v, expected %v", text, gotErr, err)
	}
	return ""
}

func c21Params(ps water.Params, name, text string) (bad string) {
	set := func(acc, s string) {
		if s != "" && bad == "" {
			bad = acc + " " + s
		}
	}
	if got := ps.String(name); got != text {
		set("String", fmt.Sprintf("of %q is %q", text, got))
	}
	{
		v, err := ps.Bool(name)
		set("Bool", c21Err("bool", text, fmt.Sprint(v), err))
		set("MustBool", c21Plain("bool", text, fmt.Sprint(ps.MustBool(name))))
	}
	{
		v, err := ps.Int(name)
		set("Int", c21Err("int", text, fmt.Sprint(v), err))
		set("MustInt", c21Plain("int", text, fmt.Sprint(ps.MustInt(name))))
	}
	{
		v, err := ps.Int64(name)
		set("Int64", c21Err("int64", text, fmt.Sprint(v), err))
		set("MustInt64", c21Plain("int64", text, fmt.Sprint(ps.MustInt64(name))))
	}
	{
		v, err := ps.Uint(name)
		set("Uint", c21Err("uint", text, fmt.Sprint(v), err))
		set("MustUint", c21Plain("uint", text, fmt.Sprint(ps.MustUint(name))))
	}
	{
		v, err := ps.Uint64(name)
		set("Uint64", c21Err("uint64", text, fmt.Sprint(v), err))
		set("MustUint64", c21Plain("uint64", text, fmt.Sprint(ps.MustUint64(name))))
	}
	{
		v, err := ps.Float64(name)
		set("Float64", c21Err("float64", text, fl(v), err))
		set("MustFloat64", c21Plain("float64", text, fl(ps.MustFloat64(name))))
	}
	return
}

func c21Query(ctx *water.Context, name, text, def string, has bool) (bad string) {
	set := func(acc, s string) {
		if s != "" && bad == "" {
			bad = acc + " " + s
		}
	}
	t := strings.TrimSpace(text)
	if !has {
		t = ""
	}
	set("QueryBool", c21Plain("bool", t, fmt.Sprint(ctx.QueryBool(name))))
	set("QueryInt", c21Plain("int", t, fmt.Sprint(ctx.QueryInt(name))))
	set("QueryInt64", c21Plain("int64", t, fmt.Sprint(ctx.QueryInt64(name))))
	set("QueryUint", c21Plain("uint", t, fmt.Sprint(ctx.QueryUint(name))))
	set("QueryUint64", c21Plain("uint64", t, fmt.Sprint(ctx.QueryUint64(name))))
	set("QueryFloat64", c21Plain("float64", t, fl(ctx.QueryFloat64(name))))
	if !has {
		t = def
	}
	set("DefaultQueryBool", c21Plain("bool", t, fmt.Sprint(ctx.DefaultQueryBool(name, def))))
	set("DefaultQueryInt", c21Plain("int", t, fmt.Sprint(ctx.DefaultQueryInt(name, def))))
	set("DefaultQueryInt64", c21Plain("int64", t, fmt.Sprint(ctx.DefaultQueryInt64(name, def))))
	set("DefaultQueryUint", c21Plain("uint", t, fmt.Sprint(ctx.DefaultQueryUint(name, def))))
	set("DefaultQueryUint64", c21Plain("uint64", t, fmt.Sprint(ctx.DefaultQueryUint64(name, def))))
	set("DefaultQueryFloat64", c21Plain("float64", t, fl(ctx.DefaultQueryFloat64(name, def))))
	return
}

func c21Cookie(ctx *water.Context, name, text string) (bad string) {
	set := func(acc, s string) {
		if s != "" && bad == "" {
			bad = acc + " " + s
		}
	}
	set("CookieBool", c21Plain("bool", text, fmt.Sprint(ctx.CookieBool(name))))
	set("CookieInt", c21Plain("int", text, fmt.Sprint(ctx.CookieInt(name))))
	set("CookieInt64", c21Plain("int64", text, fmt.Sprint(ctx.CookieInt64(name))))
	set("CookieUint", c21Plain("uint", text, fmt.Sprint(ctx.CookieUint(name))))
	set("CookieUint64", c21Plain("uint64", text, fmt.Sprint(ctx.CookieUint64(name))))
	set("CookieFloat64", c21Plain("float64", text, fl(ctx.CookieFloat64(name))))
	return
}

func cookieable(s string) bool {
	for i := 0; i < len(s); i++ {
		if b := s[i]; b <= ' ' || b >= 0x7f || b == '"' || b == ';' || b == '\\' {
			return false
		}
	}
	return true
}

// c21One drives every accessor with one text through one request.
func c21One(c *C, text, def string, has bool) {
	req := ReqURL("GET", "/v/"+text, "")
	if has {
		req.URL.RawQuery = "q=" + url.QueryEscape(text) + "&q=77&other=9"
		if cookieable(text) {
			req.Header.Set("Cookie", "o=5; c="+text+"; d=8")
		}
	} else {
		req.URL.RawQuery = "other=9"
	}
	bad := ""
	ran := 0
	r := water.NewRouter()
	h := func(ctx *water.Context) {
		ran++
		if s, ok := ctx.Params["p"]; ok && bad == "" {
			if s != text {
				bad = fmt.Sprintf("the parameter is %q", s)
			} else {
				bad = c21Params(ctx.Params, "p", text)
			}
		}
		if bad == "" {
			bad = c21Params(water.Params{"x": "5", "y": text}, "y", text)
		}
		if bad == "" {
			bad = c21Query(ctx, "q", text, def, has)
		}
		ck := text
		if !has || !cookieable(text) {
			ck = ""
		}
		if bad == "" {
			bad = c21Cookie(ctx, "c", ck)
		}
	}
	r.GET("/v/<p>", h)
	r.GET("/*", h)
	_, p := Serve(r.Handler(), req)
	c.Steps(36)
	desc := fmt.Sprintf("text %q, default %q, present %v", text, def, has)
	if p != nil {
		c.Failf("panic", "%s: %v", desc, p)
	} else if ran != 1 {
		c.Failf("none", "%s: the handler ran %d times", desc, ran)
	} else if bad != "" {
		c.Failf("value", "%s: %s", desc, bad)
	}
	c.State(text + "\x00" + def)
	c.Outcome(fmt.Sprint(has))
}

func c21Listed(c *C) {
	text, def, has := PickS(c, c21Texts), "", c.Bool()
	if !has {
		def = text
		text = ""
	} else {
		def = Pick(c, "7", "true", "-3", "x", "18446744073709551616")
	}
	c21One(c, text, def, has)
}

func c21Short(n int, alpha []string) Body {
	return func(c *C) {
		c21One(c, strings.Join(Seq(c, n, alpha), ""), "5", true)
	}
}

// c21Near: numerals around every power of two.
func c21Near(c *C) {
	k := 1 + c.Choose(70)
	d := c.Choose(5) - 2
	neg := c.Bool()
	hi, lo := uint64(0), uint64(0)
	if k < 64 {
		lo = 1 << uint(k)
	} else {
		hi = 1 << uint(k-64)
	}
	s := ""
	switch {
	case hi == 0 && d >= 0:
		s = strconv.FormatUint(lo+uint64(d), 10)
	case hi == 0:
		s = strconv.FormatUint(lo-uint64(-d), 10)
	default: // beyond 64 bits: decimal via float is enough as every such text is out of range
		s = strconv.FormatFloat(math.Ldexp(1, k)+float64(d)*4096, 'f', 0, 64)
	}
	if neg {
		s = "-" + s
	}
	c21One(c, Pick(c, "", "+", "0", "00")+s, "5", true)
}

func init() {
	register(&Prop{ID: "C21", Scopes: []Scope{
		{Name: "texts", Desc: "90 boundary numerals, words and garbage, present (5 defaults) or absent (as the default), through path parameters, query, default query and cookies", Body: c21Listed, Split: 2},
		{Name: "powers", Desc: "numerals within 2 of every power of two up to 2^70, both signs, with and without leading + and zeros", Body: c21Near, Split: 3},
		{Name: "short", Desc: "all texts up to 4 characters of 0 1 9 - + . e x _ t", Body: c21Short(4, []string{"0", "1", "9", "-", "+", ".", "e", "x", "_", "t"}), Split: 3},
		{Name: "short-5", Desc: "all texts up to 5 characters of 11", Body: c21Short(5, []string{"0", "1", "9", "-", "+", ".", "e", "x", "_", "t", " "}), Split: 3, Thorough: true},
	}})
}
