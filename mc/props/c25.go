package props

import (
	"bytes"
	"fmt"
	"io"
	"mime/multipart"
	"net/http"
	"os"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"github.com/meilihao/water"
	"github.com/meilihao/water/binding"

	. "verif/mc/explore"
)

const c25Boundary = "xxBOUNDxx"

type c25File struct{ field, name, body string }

func c25Form(files []c25File, values []kv) (string, []byte) {
	var b bytes.Buffer
	w := multipart.NewWriter(&b)
	w.SetBoundary(c25Boundary)
	for i, f := range files {
		if i < len(values) { // interleave
			p, _ := w.CreateFormField(values[i].k)
			p.Write([]byte(values[i].v))
		}
		p, _ := w.CreateFormFile(f.field, f.name)
		p.Write([]byte(f.body))
	}
	for i := len(files); i < len(values); i++ {
		p, _ := w.CreateFormField(values[i].k)
		p.Write([]byte(values[i].v))
	}
	w.Close()
	return w.FormDataContentType(), b.Bytes()
}

// c25Disk tells whether these files need temporary storage under a limit.
func c25Disk(files []c25File, limit int64) bool {
	for _, f := range files {
		if int64(len(f.body)) > limit {
			return true
		}
		limit -= int64(len(f.body))
	}
	return false
}

func c25Tmp() string {
	d := filepath.Join(scratch(), "c25tmp")
	must(os.MkdirAll(d, 0755))
	os.Setenv("TMPDIR", d)
	return d
}

func tmpCount(d string) int {
	es, err := os.ReadDir(d)
	must(err)
	return len(es)
}

const (
	viaParse = iota
	viaFormFile
	viaBind
	viaBindWith
	viaQuery
	viaBind2
	viaN
)

type c25Target struct {
	F  *multipart.FileHeader   `form:"f"`
	G  *multipart.FileHeader   `form:"g"`
	FS []*multipart.FileHeader `form:"f"`
	V  string                  `form:"v"`
	VS []string                `form:"v"`
}

// c25See is the handler: it reads the upload through one of the entries and compares.
func c25See(c *C, ctx *water.Context, via int, files []c25File, values []kv, limit int64, tmp string, dstPre int) string {
	var tg c25Target
	first := map[string]c25File{}
	all := map[string][]c25File{}
	for _, f := range files {
		if _, ok := first[f.field]; !ok {
			first[f.field] = f
		}
		all[f.field] = append(all[f.field], f)
	}
	readAll := func(h *multipart.FileHeader, want c25File) string {
		if h == nil {
			return fmt.Sprintf("file %s is missing", want.field)
		}
		if h.Filename != want.name || h.Size != int64(len(want.body)) {
			return fmt.Sprintf("file %s is called %q with %d bytes, sent %q with %d", want.field, h.Filename, h.Size, want.name, len(want.body))
		}
		f, err := h.Open()
		if err != nil {
			return err.Error()
		}
		defer f.Close()
		b, err := io.ReadAll(f)
		if err != nil || string(b) != want.body {
			return fmt.Sprintf("file %s contains %q (%v), sent %q", want.field, clip(string(b), 80), err, clip(want.body, 80))
		}
		return ""
	}
	switch via {
	case viaParse:
		ctx.ParseFormOrMultipartForm()
	case viaQuery:
		ctx.Query("v")
	case viaFormFile:
		for _, n := range []string{"f", "g", "none"} {
			f, h, err := ctx.FormFile(n)
			want, ok := first[n]
			if !ok {
				if err == nil {
					return "FormFile of a missing name succeeds"
				}
				continue
			}
			if err != nil {
				return fmt.Sprintf("FormFile(%s): %v", n, err)
			}
			b, err := io.ReadAll(f)
			f.Close()
			if err != nil || string(b) != want.body {
				return fmt.Sprintf("FormFile(%s) delivers %q (%v)", n, clip(string(b), 80), err)
			}
			if s := readAll(h, want); s != "" {
				return s
			}
		}
	case viaBind, viaBindWith, viaBind2:
		var err error
		switch via {
		case viaBind:
			err = ctx.Bind(&tg)
		case viaBindWith:
			err = ctx.BindWith(&tg, binding.FormMultipart)
		default:
			ctx.ParseFormOrMultipartForm()
			err = binding.FormMultipart.Bind2(ctx.Request, &tg)
		}
		if err != nil {
			return fmt.Sprintf("binding: %v", err)
		}
		for n, h := range map[string]*multipart.FileHeader{"f": tg.F, "g": tg.G} {
			if w, ok := first[n]; ok {
				if s := readAll(h, w); s != "" {
					return "bound: " + s
				}
			} else if h != nil {
				return "a file that was not sent is bound"
			}
		}
		if len(tg.FS) != len(all["f"]) {
			return fmt.Sprintf("%d files are bound, sent %d", len(tg.FS), len(all["f"]))
		}
		for i, w := range all["f"] {
			if s := readAll(tg.FS[i], w); s != "" {
				return "bound in order: " + s
			}
		}
		var vs []string
		for _, v := range values {
			if v.k == "v" {
				vs = append(vs, v.v)
			}
		}
		if !sameStrings(tg.VS, vs) || len(vs) > 0 && tg.V != vs[0] {
			return fmt.Sprintf("bound values %q and %q, sent %q", tg.V, tg.VS, vs)
		}
	}
	mf := ctx.Request.MultipartForm
	if mf == nil {
		return "the form is not parsed"
	}
	n := 0
	for k, hs := range mf.File {
		if len(hs) != len(all[k]) {
			return fmt.Sprintf("%d files called %s, sent %d", len(hs), k, len(all[k]))
		}
		for i, h := range hs {
			n++
			if s := readAll(h, all[k][i]); s != "" {
				return s
			}
		}
	}
	if n != len(files) {
		return fmt.Sprintf("%d files arrive, sent %d", n, len(files))
	}
	vals := map[string][]string{}
	for _, v := range values {
		vals[v.k] = append(vals[v.k], v.v)
	}
	if len(mf.Value) != len(vals) {
		return fmt.Sprintf("%d value names arrive, sent %d", len(mf.Value), len(vals))
	}
	for k, v := range vals {
		if !sameStrings(mf.Value[k], v) {
			return fmt.Sprintf("values %s are %q, sent %q", k, mf.Value[k], v)
		}
	}
	if got, want := tmpCount(tmp) > 0, c25Disk(files, limit); got != want {
		return fmt.Sprintf("temporary storage used: %v, expected %v (limit %d)", got, want, limit)
	}
	// saving
	pres := []string{"", "short", strings.Repeat("LONGER THAN ANY UPLOAD ", 400)}
	for i, f := range files {
		dst := filepath.Join(scratch(), fmt.Sprintf("c25dst%d", i))
		os.Remove(dst)
		if dstPre < len(pres) {
			must(os.WriteFile(dst, []byte(pres[dstPre]), 0600))
		}
		idx := 0
		for _, g := range files[:i] {
			if g.field == f.field {
				idx++
			}
		}
		for round := 0; round < 2; round++ {
			if err := ctx.SaveUploadedFile(mf.File[f.field][idx], dst); err != nil {
				return fmt.Sprintf("saving: %v", err)
			}
			b, err := os.ReadFile(dst)
			if err != nil || string(b) != f.body {
				os.Remove(dst)
				return fmt.Sprintf("the destination (before: %d) holds %d bytes %q (%v), uploaded %d bytes", dstPre, len(b), clip(string(b), 60), err, len(f.body))
			}
		}
		os.Remove(dst)
		if err := ctx.SaveUploadedFile(mf.File[f.field][idx], filepath.Join(scratch(), "no such dir", "x")); err == nil {
			return "saving into a missing directory reports success"
		}
	}
	return ""
}

type c25Types struct {
	t     reflect.Type
	bind  func(n int) bool // Bind stores n files in it
	bind2 func(n int) bool
}

func c25FieldTypes() []c25Types {
	h := reflect.TypeOf(multipart.FileHeader{})
	hp := reflect.PtrTo(h)
	some := func(n int) bool { return n > 0 }
	exactly := func(k int) func(int) bool { return func(n int) bool { return n == k } }
	never := func(int) bool { return false }
	return []c25Types{
		{hp, some, some}, {reflect.SliceOf(hp), some, some}, {h, never, some}, {reflect.SliceOf(h), never, some},
		{reflect.ArrayOf(1, hp), never, exactly(1)}, {reflect.ArrayOf(2, hp), never, exactly(2)}, {reflect.ArrayOf(2, h), never, exactly(2)},
		{reflect.ArrayOf(3, hp), never, exactly(3)}, {reflect.ArrayOf(3, h), never, exactly(3)}, {reflect.ArrayOf(4, hp), never, exactly(4)}, {reflect.ArrayOf(5, h), never, exactly(5)}, {reflect.ArrayOf(0, hp), never, never},
		{reflect.TypeOf(""), never, never}, {reflect.TypeOf(0), never, never}, {reflect.TypeOf([]string{}), never, never}, {reflect.TypeOf([]int{}), never, never},
		{reflect.TypeOf(map[string]string{}), never, never}, {reflect.TypeOf(new(string)), never, never}, {reflect.TypeOf([2]int{}), never, never},
		{reflect.TypeOf((*interface{})(nil)).Elem(), never, never}, {reflect.TypeOf(time.Time{}), never, never},
	}
}

// c25Fields: uploads bound into fields of every type: all of them as sent, or an error and the field alone.
func c25Fields(c *C) {
	ft := PickS(c, c25FieldTypes())
	n := c.Choose(7)
	second := c.Bool()
	spilled := c.Bool()
	others := c.Bool() // other fields around it
	inner := c.Choose(3)
	field := reflect.StructField{Name: "F", Type: ft.t, Tag: `form:"f"`}
	t := reflect.StructOf([]reflect.StructField{field})
	switch inner {
	case 1:
		t = reflect.StructOf([]reflect.StructField{{Name: "In", Type: t, Tag: `form:"in"`}})
	case 2:
		t = reflect.StructOf([]reflect.StructField{{Name: "In", Type: reflect.PtrTo(t), Tag: `form:"in"`}})
	}
	var files []c25File
	var values []kv
	for i := 0; i < n; i++ {
		files = append(files, c25File{"f", fmt.Sprintf("n%d.txt", i), fmt.Sprintf("content of %d", i)})
	}
	if others {
		files = append(files, c25File{"g", "g.txt", "another"})
		values = append(values, kv{"v", "x"})
	}
	ct, body := c25Form(files, values)
	req := ReqBody("POST", "/", ct, body)
	mem := int64(1 << 20)
	if spilled {
		mem = 0
	}
	must(req.ParseMultipartForm(mem))
	defer req.MultipartForm.RemoveAll()
	obj := reflect.New(t)
	var err error
	p := quiet(func() {
		if second {
			err = binding.FormMultipart.Bind2(req, obj.Interface())
		} else {
			err = binding.FormMultipart.Bind(req, obj.Interface())
		}
	})
	c.Step()
	desc := fmt.Sprintf("%d files bound into %v (in a struct %d, others %v, on disk %v, Bind2 %v)", n, t, inner, others, spilled, second)
	c.State(desc)
	if p {
		c.Failf("panic", "%s: panics", desc)
		return
	}
	want := ft.bind(n)
	if second {
		want = ft.bind2(n)
	}
	f := obj.Elem().Field(0)
	if inner > 0 {
		if inner == 2 {
			if f.IsNil() {
				if want {
					c.Failf("field", "%s: nothing is bound (%v)", desc, err)
				} else if (err != nil) != (n > 0) {
					c.Failf("field", "%s: error %v", desc, err)
				}
				return
			}
			f = f.Elem()
		}
		f = f.Field(0)
	}
	if !want {
		if (err != nil) != (n > 0) || err != nil && f.Kind() != reflect.Array && !f.IsZero() {
			c.Failf("field", "%s: error %v, field %v", desc, err, f.Interface())
		}
		c.Outcome("refused")
		return
	}
	if err != nil {
		c.Failf("field", "%s: refused: %v", desc, err)
		return
	}
	var hs []*multipart.FileHeader
	add := func(v reflect.Value) {
		switch x := v.Interface().(type) {
		case *multipart.FileHeader:
			hs = append(hs, x)
		case multipart.FileHeader:
			hs = append(hs, &x)
		}
	}
	count := n
	if f.Kind() == reflect.Slice || f.Kind() == reflect.Array {
		for i := 0; i < f.Len(); i++ {
			add(f.Index(i))
		}
	} else {
		add(f)
		count = 1
	}
	if len(hs) != count {
		c.Failf("field", "%s: %d files are bound", desc, len(hs))
		return
	}
	for i, h := range hs {
		if h == nil {
			c.Failf("field", "%s: file %d is nil", desc, i)
			return
		}
		r, err := h.Open()
		if err != nil {
			c.Failf("field", "%s: %v", desc, err)
			return
		}
		b, err := io.ReadAll(r)
		r.Close()
		if err != nil || string(b) != files[i].body || h.Filename != files[i].name {
			c.Failf("field", "%s: file %d is %q %q (%v)", desc, i, h.Filename, b, err)
			return
		}
	}
	c.Outcome("bound")
}

type c25Eng struct {
	limit int64 // effective
	e     *water.Engine
}

// c25Engines builds engines in order; -1 means no option.
func c25Engines(limits []int64, same bool, h func(ctx *water.Context, limit int64)) []c25Eng {
	var out []c25Eng
	var r *water.Router
	cur := int64(0)
	for i, l := range limits {
		if r == nil || !same {
			r = water.NewRouter()
			hh := func(ctx *water.Context) { h(ctx, cur) }
			r.POST("/up", hh)
			r.PUT("/up", hh)
			r.PATCH("/up", hh)
		}
		var opts []water.Option
		eff := int64(32 << 20)
		if l >= 0 {
			opts = append(opts, water.WithMaxMultipartMemory(l))
			eff = l
		}
		_ = i
		out = append(out, c25Eng{eff, r.Handler(opts...)})
	}
	// the effective limit is that of the engine asked
	for i := range out {
		e := out[i]
		_ = e
	}
	return out
}

func c25Serve(c *C, e http.Handler, method string, files []c25File, values []kv, chunk int) (p interface{}) {
	ct, body := c25Form(files, values)
	req := ReqBody(method, "/up", ct, body)
	req.Body = &chunkReader{data: body, chunk: chunk, failAt: -1}
	v, st, pan := Try(func() { e.ServeHTTP(&nullW{}, req) })
	if req.MultipartForm != nil {
		req.MultipartForm.RemoveAll()
	}
	if pan {
		lastStack = st
		return fmt.Sprint("panic: ", v)
	}
	c.Step()
	return nil
}

var c25Bodies = []string{"", "a", "0123456789", "\r\n", "\r\n--" + c25Boundary[:7], "\x00\xff\r\n-" + c25Boundary + "--\r\n--\r\n", strings.Repeat("block ", 200), "tail\r\n"}

func c25Body(limits []int64, bodies []string, nfiles int, vias, pres int) Body {
	return func(c *C) {
		tmp := c25Tmp()
		limit := PickS(c, limits)
		n := c.Choose(nfiles + 1)
		var files []c25File
		for i := 0; i < n; i++ {
			files = append(files, c25File{Pick(c, "f", "g"), fmt.Sprintf("n%d.bin", i), PickS(c, bodies)})
		}
		values := Pick(c, nil, []kv{{"v", "one"}, {"v", "two\r\n"}, {"w", ""}})
		via, pre := 0, 3
		if vias > 0 {
			via = c.Choose(vias)
		} else {
			via = n * 2 % viaN
		}
		if pres > 0 {
			pre = c.Choose(pres)
		} else {
			pre = (n + len(values)) % 4
		}
		method, chunk := "POST", 0
		if vias > 0 {
			method, chunk = Pick(c, "POST", "PUT", "PATCH"), Pick(c, 0, 1)
		}
		bad, ran := "", 0
		eff := limit
		if limit < 0 {
			eff = 32 << 20
		}
		es := c25Engines([]int64{limit}, false, func(ctx *water.Context, _ int64) {
			ran++
			bad = c25See(c, ctx, via, files, values, eff, tmp, pre)
		})
		p := c25Serve(c, es[0].e, method, files, values, chunk)
		desc := fmt.Sprintf("limit %d, files %v, values %q, entry %d, destination %d, %s, chunks %d", limit, showFiles(files), values, via, pre, method, chunk)
		switch {
		case p != nil:
			c.Failf("panic", "%s: %v", desc, p)
		case ran != 1:
			c.Failf("none", "%s: the handler ran %d times", desc, ran)
		case bad != "":
			c.Failf("upload", "%s: %s", desc, bad)
		}
		if k := tmpCount(tmp); k > 0 {
			os.RemoveAll(tmp)
		}
		c.State(desc)
		c.Outcome(fmt.Sprint(n, c25Disk(files, eff)))
	}
}

func showFiles(fs []c25File) string {
	var o []string
	for _, f := range fs {
		o = append(o, fmt.Sprintf("%s:%d bytes", f.field, len(f.body)))
	}
	return strings.Join(o, " ")
}

// c25Two: engines with different limits, built in any order, asked in any order.
func c25Two(n, asks int) Body {
	limits := []int64{-1, 0, 5, 100, 1 << 40}
	return func(c *C) {
		tmp := c25Tmp()
		var ls []int64
		for i := 0; i < n; i++ {
			ls = append(ls, PickS(c, limits))
		}
		same := c.Bool()
		var eff int64
		var files []c25File
		bad := ""
		via := 0
		es := c25Engines(ls, same, func(ctx *water.Context, _ int64) {
			bad = c25See(c, ctx, via, files, []kv{{"v", "x"}}, eff, tmp, 1)
		})
		desc := fmt.Sprintf("limits %v, same router %v", ls, same)
		for i := 0; i < asks; i++ {
			k := c.Choose(n)
			size := Pick(c, 1, 5, 6, 101)
			via = Pick(c, viaParse, viaFormFile, viaBindWith)
			eff = es[k].limit
			files = []c25File{{"f", "n", strings.Repeat("x", size)}}
			bad = ""
			p := c25Serve(c, es[k].e, "POST", files, []kv{{"v", "x"}}, 0)
			desc += fmt.Sprintf("; engine %d gets %d bytes", k, size)
			if p != nil || bad != "" {
				c.Failf("mixed", "%s: %v %s", desc, p, bad)
				break
			}
		}
		if tmpCount(tmp) > 0 {
			os.RemoveAll(tmp)
		}
		c.State(desc)
		c.Outcome(fmt.Sprint(same))
	}
}

func c25Big(c *C) {
	tmp := c25Tmp()
	size := Pick(c, 1<<20, 10<<20+1000, 32<<20, 32<<20+1)
	limit := Pick(c, int64(-1), 100)
	eff := int64(32 << 20)
	if limit >= 0 {
		eff = limit
	}
	via := Pick(c, viaParse, viaFormFile, viaBindWith)
	files := []c25File{{"f", "big", strings.Repeat("0123456789abcde\n", size/16+1)[:size]}}
	bad := ""
	es := c25Engines([]int64{limit}, false, func(ctx *water.Context, _ int64) {
		bad = c25See(c, ctx, via, files, nil, eff, tmp, 0)
	})
	p := c25Serve(c, es[0].e, "POST", files, nil, 0)
	if p != nil || bad != "" {
		c.Failf("default", "limit %d, %d bytes, entry %d: %v %s", limit, size, via, p, bad)
	}
	if tmpCount(tmp) > 0 {
		os.RemoveAll(tmp)
	}
	c.State(fmt.Sprint(size, via, limit))
}

func init() {
	register(&Prop{ID: "C25", Scopes: []Scope{
		{Name: "default", Desc: "no limit or one of 100 bytes: files of 1 MiB, 10 MiB and 1000 bytes, 32 MiB and one byte more x 3 entries, saved", Body: c25Big, Split: 2},
		{Name: "fields", Desc: "up to 6 files bound into a field of one of 21 types (pointers, values, slices, arrays of files; others), plain or in a struct, other fields or not, in memory or not, Bind and Bind2", Body: c25Fields, Split: 3},
		{Name: "entries", Desc: "up to 1 file of 8 contents x 5 limits x values x 6 entries (parse, accessor, FormFile, Bind, BindWith, Bind2) x 4 destination states x POST, PUT, PATCH x whole or bytewise delivery", Body: c25Body([]int64{-1, 0, 1, 10, 1199}, c25Bodies, 1, viaN, 4), Split: 3},
		{Name: "files", Desc: "up to 2 files of 8 contents under 2 names x 6 limits x values", Body: c25Body([]int64{-1, 0, 1, 2, 11, 20}, c25Bodies, 2, 0, 0), Split: 3},
		{Name: "engines", Desc: "2 engines with limits out of 5, from one router or two, 2 uploads of 4 sizes to either", Body: c25Two(2, 2), Split: 4},
		{Name: "files-3", Desc: "up to 3 files of 5 contents", Body: c25Body([]int64{0, 10, 11, 20, 21, 30}, c25Bodies[:5:5], 3, 0, 0), Split: 4, Thorough: true},
		{Name: "engines-3", Desc: "3 engines, 2 uploads", Body: c25Two(3, 2), Split: 4, Thorough: true},
	}})
}
