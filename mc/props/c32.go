package props

import (
	"fmt"
	"io"
	"mime"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"time"

	"github.com/meilihao/water"

	. "verif/mc/explore"
)

// c32Header parses the header strictly and compares.
func c32Header(v, disp, name string) string {
	for i := 0; i < len(v); i++ {
		if v[i] < ' ' || v[i] == 0x7f {
			return fmt.Sprintf("the header contains byte %#x", v[i])
		}
	}
	// by hand: token *( ";" name "=" ( token | quoted-string ) )
	parts, ok := splitParams(v)
	if !ok {
		return fmt.Sprintf("the header %q is not well formed", v)
	}
	if parts[0].k != disp {
		return fmt.Sprintf("the disposition is %q, expected %q", parts[0].k, disp)
	}
	seen := map[string]bool{}
	star := false
	for _, p := range parts[1:] {
		if p.k != "filename" && p.k != "filename*" || seen[p.k] {
			return fmt.Sprintf("the header %q has the parameter %q", v, p.k)
		}
		seen[p.k] = true
		if p.k == "filename*" {
			star = true
			if !strings.HasPrefix(p.v, "UTF-8''") && !strings.HasPrefix(p.v, "utf-8''") {
				return fmt.Sprintf("the name is not marked as UTF-8 in %q", v)
			}
			got, ok := extValue(p.v[len("UTF-8''"):])
			if !ok || got != name {
				return fmt.Sprintf("the header %q decodes to %q", v, got)
			}
		}
	}
	m, params, err := mime.ParseMediaType(v)
	if err != nil || m != disp {
		return fmt.Sprintf("the header %q does not parse: %v %s", v, err, m)
	}
	if params["filename"] != name {
		return fmt.Sprintf("the header %q gives the name %q", v, params["filename"])
	}
	if name != "" && !star && len(parts) < 2 {
		return fmt.Sprintf("the header %q has no name", v)
	}
	return ""
}

func isTok(b byte) bool {
	return b > ' ' && b < 0x7f && !strings.ContainsRune("()<>@,;:\\\"/[]?={}", rune(b))
}

// splitParams parses a disposition header.
func splitParams(v string) ([]kv, bool) {
	var out []kv
	tok := func() string {
		i := 0
		for i < len(v) && isTok(v[i]) {
			i++
		}
		t := v[:i]
		v = v[i:]
		return t
	}
	t := tok()
	if t == "" {
		return nil, false
	}
	out = append(out, kv{t, ""})
	for v != "" {
		v = strings.TrimLeft(v, " ")
		if v == "" || v[0] != ';' {
			return nil, false
		}
		v = strings.TrimLeft(v[1:], " ")
		k := tok()
		if k == "" || v == "" || v[0] != '=' {
			return nil, false
		}
		v = v[1:]
		var val string
		if v != "" && v[0] == '"' {
			i := 1
			var sb strings.Builder
			for {
				if i >= len(v) {
					return nil, false
				}
				if v[i] == '"' {
					break
				}
				if v[i] == '\\' {
					i++
					if i >= len(v) {
						return nil, false
					}
				}
				sb.WriteByte(v[i])
				i++
			}
			val, v = sb.String(), v[i+1:]
		} else {
			val = tok()
			if val == "" {
				return nil, false
			}
		}
		out = append(out, kv{strings.ToLower(k), val})
	}
	return out, true
}

// extValue decodes RFC 5987 value-chars.
func extValue(s string) (string, bool) {
	var sb strings.Builder
	for i := 0; i < len(s); i++ {
		switch {
		case s[i] == '%':
			if i+2 >= len(s) {
				return "", false
			}
			n, err := strconv.ParseUint(s[i+1:i+3], 16, 8)
			if err != nil {
				return "", false
			}
			sb.WriteByte(byte(n))
			i += 2
		case s[i] >= '0' && s[i] <= '9' || s[i] >= 'a' && s[i] <= 'z' || s[i] >= 'A' && s[i] <= 'Z' || strings.IndexByte("!#$&+-.^_`|~", s[i]) >= 0:
			sb.WriteByte(s[i])
		default:
			return "", false
		}
	}
	return sb.String(), true
}

var c32Chars = []string{"a", " ", "\"", "\\", ";", "=", "%", "'", "*", "\r", "\n", "\t", "é", "中", "\x00", "\x7f", "/", ":", "@", "(", ",", "😀", "&", "+", "%41", ".", "..", "[", "?", "#", "<", "{", "|", "~", "!", "$", "^", "`", "_", "-", "\x1b", "\u202e", "\ufeff", "\xff"}

var c32Mod = time.Date(2020, 2, 29, 12, 0, 0, 0, time.UTC)

var c32Allowed = map[string]bool{"Content-Disposition": true, "Content-Type": true, "Content-Length": true, "Last-Modified": true, "Accept-Ranges": true,
	"Content-Description": true, "Content-Transfer-Encoding": true, "Expires": true, "Cache-Control": true, "Pragma": true}

type c32In struct {
	given  []bool
	inline bool
}

var c32Inline = []c32In{{nil, false}, {[]bool{false}, false}, {[]bool{true}, true}, {[]bool{true, false}, true}}

// c32Serve serves one and compares.
func c32Serve(c *C, real bool, download bool, name, content string, in c32In, method string, rng string, advance int) {
	disp := "attachment"
	if in.inline {
		disp = "inline"
	}
	var err error
	path := ""
	if download {
		path = filepath.Join(scratch(), "c32", name)
		must(os.MkdirAll(filepath.Dir(path), 0755))
		must(os.WriteFile(path, []byte(content), 0644))
		defer os.Remove(path)
	}
	r := water.NewRouter()
	h := func(ctx *water.Context) {
		if download {
			err = ctx.Download(path, in.given...)
			return
		}
		rd := strings.NewReader(content)
		io.CopyN(io.Discard, rd, int64(advance))
		ctx.Attachment(name, c32Mod, rd, in.given...)
	}
	r.GET("/d", h)
	r.HEAD("/d", h)
	e := r.Handler()
	var hs []string
	if rng != "" {
		hs = append(hs, "Range: "+rng)
	}
	rs, p := deliver(real, e, method, "/d", hs...)
	c.Step()
	desc := fmt.Sprintf("%s of %q (%d bytes), inline %v, %s, range %q, real server %v", map[bool]string{true: "Download", false: "Attachment"}[download], name, len(content), in.given, method, rng, real)
	if p != nil || err != nil {
		c.Failf("fails", "%s: panic %v, error %v", desc, p, err)
		return
	}
	want, code := content, 200
	if rng != "" && len(content) > 3 {
		want, code = content[1:4], 206
	}
	if method == "HEAD" {
		want = ""
	}
	if rs.status != code || rs.body != want {
		c.Failf("bytes", "%s: status %d, body %q (%d bytes), expected %d, %d bytes", desc, rs.status, clip(rs.body, 60), len(rs.body), code, len(want))
		return
	}
	v, ok := one(rs.h, "Content-Disposition")
	if !ok {
		c.Failf("header", "%s: Content-Disposition is %q", desc, rs.h["Content-Disposition"])
		return
	}
	if s := c32Header(v, disp, name); s != "" {
		c.Failf("header", "%s: %s", desc, s)
		return
	}
	for k, vs := range rs.h {
		if !c32Allowed[k] && !(real && k == "Date") && !(rng != "" && k == "Content-Range") || len(vs) != 1 {
			c.Failf("other", "%s: the header %s: %q appears", desc, k, vs)
			return
		}
	}
	c.State(desc)
	c.Outcome(disp)
}

func c32Names(n int, real, download bool) Body {
	return func(c *C) {
		var sb strings.Builder
		for i := 0; i < n; i++ {
			k := c.Choose(len(c32Chars) + 1)
			if k == 0 {
				break
			}
			sb.WriteString(c32Chars[k-1])
		}
		name := sb.String()
		if download && (strings.ContainsAny(name, "/\x00") || name == "" || name == "." || name == "..") {
			return
		}
		in := PickS(c, c32Inline[1:3])
		c32Serve(c, real, download, name, "content of the file", in, "GET", "", 0)
	}
}

var c32Bodies = []string{"", "x", "0123", strings.Repeat("0123456789abcdef", 40), strings.Repeat("line\r\n", 7000), "<html>\x00\xff"}

func c32Contents(real bool) Body {
	return func(c *C) {
		download := c.Bool()
		name := Pick(c, "plain.txt", "page.html", "index.html", "a \"b\"; filename=evil.exe", "naïve.tar.gz", "x\r\nSet-Cookie: a=b", "noext")
		content := PickS(c, c32Bodies)
		in := PickS(c, c32Inline)
		method := Pick(c, "GET", "HEAD")
		rng := ""
		if len(content) > 3 {
			rng = Pick(c, "", "bytes=1-3")
		}
		adv := 0
		if !download && len(content) > 0 {
			adv = Pick(c, 0, 1)
		}
		c32Serve(c, real, download, name, content, in, method, rng, adv)
	}
}

// c32Missing: what cannot be downloaded is an error and nothing is sent.
func c32Missing(c *C) {
	base := filepath.Join(scratch(), "c32m")
	must(os.MkdirAll(filepath.Join(base, "dir", "sub"), 0755))
	must(os.WriteFile(filepath.Join(base, "file"), []byte("content"), 0644))
	os.Remove(filepath.Join(base, "link"))
	os.Remove(filepath.Join(base, "dangling"))
	os.Remove(filepath.Join(base, "dirlink"))
	must(os.Symlink("file", filepath.Join(base, "link")))
	must(os.Symlink("nothing", filepath.Join(base, "dangling")))
	must(os.Symlink("dir", filepath.Join(base, "dirlink")))
	p := Pick(c, "none", "dir", "dir/", "dir/sub", "file/", "file/x", "dangling", "dirlink", "", ".", "dir/..", "none/../file2", "file\x00", "*link", "*file", "*dir/../file", "*./file")
	good := strings.HasPrefix(p, "*")
	p = strings.TrimPrefix(p, "*")
	in := PickS(c, c32Inline)
	real := c.Bool()
	method := Pick(c, "GET", "HEAD")
	after := c.Choose(3)
	path := base + "/" + p
	if p == "" && c.Bool() {
		path = ""
	}
	var err error
	headers := 0
	r := water.NewRouter()
	h := func(ctx *water.Context) {
		err = ctx.Download(path, in.given...)
		if err != nil {
			headers = len(ctx.Header())
			if ctx.Written() {
				headers = -1
			}
			switch after {
			case 1:
				ctx.String(410, "gone")
			case 2:
				ctx.NotFound()
			}
		}
	}
	r.GET("/d", h)
	r.HEAD("/d", h)
	rs, pan := deliver(real, r.Handler(), method, "/d")
	c.Step()
	desc := fmt.Sprintf("Download(%q) inline %v, %s, afterwards %d, real %v", path, in.given, method, after, real)
	switch {
	case pan != nil:
		c.Failf("panic", "%s: %v", desc, pan)
	case good:
		if want := map[string]string{"GET": "content", "HEAD": ""}[method]; err != nil || rs.status != 200 || rs.body != want {
			c.Failf("bytes", "%s: %v, %d %q", desc, err, rs.status, rs.body)
		} else if v, _ := one(rs.h, "Content-Disposition"); c32Header(v, map[bool]string{true: "inline", false: "attachment"}[in.inline], filepath.Base(path)) != "" {
			c.Failf("header", "%s: %q", desc, v)
		}
	case err == nil:
		c.Failf("missing", "%s: no error, the client gets %d %q", desc, rs.status, rs.body)
	case headers != 0:
		c.Failf("sent", "%s: %v, but the response already has %d headers or is written (-1)", desc, err, headers)
	case after == 1 && (rs.status != 410 || method == "GET" && rs.body != "gone" || rs.h.Get("Content-Disposition") != ""):
		c.Failf("after", "%s: the handler's own answer arrives as %d %q %v", desc, rs.status, rs.body, rs.h)
	case after == 2 && rs.status != 404:
		c.Failf("after", "%s: the handler's own answer arrives as %d", desc, rs.status)
	case after == 0 && rs.body != "":
		c.Failf("sent", "%s: %q is sent", desc, rs.body)
	}
	c.State(desc)
	c.Outcome(fmt.Sprint(good))
}

func init() {
	register(&Prop{ID: "C32", Scopes: []Scope{
		{Name: "missing", Desc: "17 paths: missing, directories, dangling and good links, odd spellings x inline x GET, HEAD x what the handler answers after the error x recorder or real server", Body: c32Missing, Split: 3},
		{Name: "contents", Desc: "Download and Attachment of 6 contents under 7 names x 4 inline arguments x GET, HEAD x whole or a range x reader at its start or not", Body: c32Contents(false), Split: 3},
		{Name: "contents-real", Desc: "the same over a real server", Body: c32Contents(true), Split: 3},
		{Name: "names", Desc: "Attachment under every name of up to 3 of 44 characters (quotes, controls, separators, multi-byte) x inline", Body: c32Names(3, false, false), Split: 2},
		{Name: "names-real", Desc: "every single such character over a real server", Body: c32Names(1, true, false), Split: 1},
		{Name: "files", Desc: "Download of files called by every name of up to 2 of these characters", Body: c32Names(2, false, true), Split: 2},
		{Name: "names-4", Desc: "Attachment under every name of up to 4 of 44 characters", Body: c32Names(4, false, false), Split: 2, Thorough: true},
		{Name: "names-real-2", Desc: "names of up to 2 characters over a real server", Body: c32Names(2, true, false), Split: 2, Thorough: true},
	}})
}
