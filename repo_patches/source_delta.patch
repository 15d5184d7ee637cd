From 3f0301026fbc746ad30b896a25846d6812799f39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:57 +0000
Subject: [PATCH 01/36] fix: match a regexp segment without group as a whole,
 check groups by compiling

---
 tree.go | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index 08f6628..5938702 100644
--- a/tree.go
+++ b/tree.go
@@ -92,10 +92,19 @@ func partternRegexp(pattern string, want int) (string, error) {
 	}
 
 	startIdx := strings.Index(pattern, "~")
-	closeIdx := strings.Index(pattern, ">")
+	closeIdx := strings.LastIndex(pattern, ">")
 
 	regExp := strings.TrimSpace(pattern[startIdx+1 : closeIdx])
-	if strings.ContainsAny(pattern, "()") && !(strings.Count(regExp, "(") == want && strings.Count(regExp, "(") == strings.Count(regExp, ")")) {
+	reg, err := regexp.Compile(regExp)
+	if err != nil {
+		return "", err
+	}
+
+	n := reg.NumSubexp()
+	if n == 0 && want == 1 { // <id ~ 70|80>, the arg is the whole regexp
+		return "(" + regExp + ")", nil
+	}
+	if n != want {
 		return "", fmt.Errorf("regexp group count not match want(%d)", want)
 	}
 
-- 
2.43.0


From c389979815b7b6b9267bf83ea4e47309ee683002 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:59 +0000
Subject: [PATCH 02/36] fix: a colon in a route regexp is not a type mark

---
 tree.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/tree.go b/tree.go
index 5938702..f243e10 100644
--- a/tree.go
+++ b/tree.go
@@ -73,14 +73,14 @@ func getparsedPattern(pattern string) string {
 	}
 
 	closeIdx := endIdx
-	typeStartIdx := strings.Index(pattern, ":")
-	if typeStartIdx > -1 {
-		closeIdx = typeStartIdx
-	}
 	regStartIdx := strings.Index(pattern, "~")
-	if typeStartIdx == -1 && regStartIdx > -1 {
+	if regStartIdx > -1 {
 		closeIdx = regStartIdx
 	}
+	typeStartIdx := strings.Index(pattern, ":")
+	if typeStartIdx > -1 && typeStartIdx < closeIdx { // ":" may be in the regexp
+		closeIdx = typeStartIdx
+	}
 
 	return strings.TrimSpace(pattern[startIdx+1 : closeIdx])
 }
-- 
2.43.0


From c87a65707904a708d16c5b1737e73de76c91f84b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:01 +0000
Subject: [PATCH 03/36] fix: regexp captures of a failed branch or named _ are
 not params

---
 tree.go | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/tree.go b/tree.go
index f243e10..f24f82b 100644
--- a/tree.go
+++ b/tree.go
@@ -231,6 +231,15 @@ func (n *node) Match(uri string) (*node, Params) {
 	return node, params
 }
 
+// setWildcards saves the regexp captures of a matched node, "_" is ignored
+func (n *node) setWildcards(results []string, params Params) {
+	for i, name := range n.wildcards {
+		if name != "_" {
+			params[name] = results[i+1]
+		}
+	}
+}
+
 // globLevel is for _PATTERN_MATCH_ALL route order: 0..n
 func (n *node) matchNextSegment(globLevel int, uri string, params Params) *node {
 	i := strings.Index(uri, "/")
@@ -254,9 +263,7 @@ func (n *node) matchEndNode(globLevel int, uri string, params Params) *node {
 				continue
 			}
 
-			for j := 0; j < len(n.endNodes[i].wildcards); j++ {
-				params[n.endNodes[i].wildcards[j]] = results[j+1]
-			}
+			n.endNodes[i].setWildcards(results, params)
 			return n.endNodes[i]
 		case _PATTERN_HOLDER:
 			if n.endNodes[i].parsedPattern != "_" {
@@ -294,10 +301,8 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 				continue
 			}
 
-			for j := 0; j < len(n.subNodes[i].wildcards); j++ {
-				params[n.subNodes[i].wildcards[j]] = results[j+1]
-			}
 			if end := n.subNodes[i].matchNextSegment(globLevel, uri, params); end != nil {
+				n.subNodes[i].setWildcards(results, params)
 				return end
 			}
 		case _PATTERN_HOLDER:
-- 
2.43.0


From 24fc7be7e647522e1d6fe82f697c506f9c104d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 04/36] fix: a named mid-path catch-all captures its own
 segment only

---
 tree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree.go b/tree.go
index f24f82b..dfab0ff 100644
--- a/tree.go
+++ b/tree.go
@@ -316,7 +316,7 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 			if end := n.subNodes[i].matchNextSegment(globLevel+1, uri, params); end != nil {
 				if n.subNodes[i].parsedPattern != "" {
 					if n.subNodes[i].parsedPattern != "_" {
-						params[n.subNodes[i].parsedPattern] = segment + "/" + uri
+						params[n.subNodes[i].parsedPattern] = segment
 					}
 				} else {
 					params["*"+strconv.Itoa(globLevel)] = segment
-- 
2.43.0


From 463bbb1ea30f9a2477c96686de3faf204ab0f20e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:04 +0000
Subject: [PATCH 05/36] fix: the first added trailing catch-all answers deep
 paths too

---
 tree.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/tree.go b/tree.go
index dfab0ff..6b24800 100644
--- a/tree.go
+++ b/tree.go
@@ -326,8 +326,7 @@ func (n *node) matchSubNode(globLevel int, segment, uri string, params Params) *
 		}
 	}
 
-	if len(n.endNodes) > 0 { //for match "/*"
-		end := n.endNodes[len(n.endNodes)-1]
+	for _, end := range n.endNodes { //for match "/*"
 		if end.typ == _PATTERN_MATCH_ALL {
 			if end.parsedPattern != "" {
 				if end.parsedPattern != "_" {
-- 
2.43.0


From 7c7224302ea8413bffabe849d3b31ba0dbcf53c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:00 +0000
Subject: [PATCH 06/36] fix: no params of an earlier request on a static fast
 lookup hit

---
 context.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/context.go b/context.go
index 386dc10..8f62101 100644
--- a/context.go
+++ b/context.go
@@ -35,6 +35,7 @@ func newContext() *Context {
 }
 
 func (ctx *Context) reset() {
+	ctx.Params = nil
 	ctx.index = 0
 
 	ctx.written = false
-- 
2.43.0


From 3c343dfee7185c50b1c382199049f285c8f92bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:01 +0000
Subject: [PATCH 07/36] fix: accept routers and groups without routes

---
 router.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/router.go b/router.go
index c45789b..347eda1 100644
--- a/router.go
+++ b/router.go
@@ -216,7 +216,9 @@ func (r *Router) HEAD(pattern string, handlers ...interface{}) {
 // add all route to routeStore
 func dumpRoute(r *Router, rs *routeStore) {
 	if r.sub == nil { // end route
-		rs.add(getRoute(r))
+		if r.method != "" { // a router or group without routes is not a route
+			rs.add(getRoute(r))
+		}
 		return
 	}
 
-- 
2.43.0


From 84d35f1eaaa94648747a0c37a86fddadd09847b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:02 +0000
Subject: [PATCH 08/36] fix: a middleware passed to Group belongs to that group

---
 router.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router.go b/router.go
index 347eda1..a582aa1 100644
--- a/router.go
+++ b/router.go
@@ -137,7 +137,7 @@ func (r *Router) Group(pattern string, is ...interface{}) *Router {
 	for i := range is {
 		switch v := is[i].(type) {
 		case func(*Context):
-			r.befores = append(r.befores, v)
+			rr.befores = append(rr.befores, v)
 		case func(*Router):
 			v(rr)
 		default:
-- 
2.43.0


From 4ae701a535f7ae13bf732dfc4de7987436d9a574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:04 +0000
Subject: [PATCH 09/36] fix: refuse routes differing only in spelling or
 repeated slashes, use one key for fast lookup

---
 router.go | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/router.go b/router.go
index a582aa1..d44494d 100644
--- a/router.go
+++ b/router.go
@@ -308,12 +308,19 @@ func (r *Router) Handler(opts ...Option) *Engine {
 	// }
 
 	// check uri
+	variants := make(map[string]*route)
 	for _, v := range rs.routeSlice {
 		if !(v.uri == "/" || checkSplitPattern(v.uri)) {
 			panic(fmt.Sprintf("invalid route : [%s : %s]", v.method, v.uri))
 		}
 
 		v.variantUri = _VariantUri(v.uri)
+
+		key := v.method + " " + v.variantUri
+		if variants[key] != nil {
+			panic(fmt.Sprintf("double uri : %s[%s] and [%s]", v.method, variants[key].uri, v.uri))
+		}
+		variants[key] = v
 	}
 
 	w := newWater()
@@ -331,6 +338,10 @@ func (r *Router) Handler(opts ...Option) *Engine {
 }
 
 func _VariantUri(raw string) string {
+	for strings.Contains(raw, "//") {
+		raw = strings.Replace(raw, "//", "/", -1)
+	}
+
 	if !strings.Contains(raw, "/:") && !strings.Contains(raw, "/*") {
 		return raw
 	}
-- 
2.43.0


From 64a9bd2d72fd8724655f7a766b0840fd04ce79a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:49 +0000
Subject: [PATCH 10/36] fix: params of a static fast lookup hit are empty, not
 nil

---
 engine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/engine.go b/engine.go
index 9466b6b..6ed94cc 100644
--- a/engine.go
+++ b/engine.go
@@ -102,6 +102,7 @@ func (e *Engine) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 	// fast match for static routes
 	if e.options.EnableStaticRouter {
 		ctx.endNode = e.routersStatic[index][req.URL.Path]
+		ctx.Params = make(Params)
 	}
 
 	if ctx.endNode == nil {
-- 
2.43.0


From ea37cfa1b4b4abe60be6ea86225f07ae766d1518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:43 +0000
Subject: [PATCH 11/36] fix: PrintRawRouter counts the global middleware that
 runs

---
 router_print.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/router_print.go b/router_print.go
index e2e6835..c796187 100644
--- a/router_print.go
+++ b/router_print.go
@@ -27,7 +27,7 @@ func countHandlersForRawRouter(r *Router) int {
 		return len(r.befores) + len(r.handlers) + countHandlersForRawRouter(r.parent)
 	}
 
-	return len(r.befores) + len(r.handlers)
+	return len(r.gbefores) + len(r.befores) + len(r.handlers)
 }
 
 func printRawRouter(nodes []*Router, prefix string) {
-- 
2.43.0


From b555f209bd4d975d0b615f61d03edcc1ab9bc91b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:30 +0000
Subject: [PATCH 12/36] fix: set the content type before the response header is
 sent

---
 content.go | 10 +++++-----
 render.go  |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/content.go b/content.go
index 601c6e6..23a7325 100644
--- a/content.go
+++ b/content.go
@@ -247,27 +247,27 @@ func (ctx *Context) Stream(contentType string, r io.Reader) error {
 }
 
 func (ctx *Context) String(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextPlainCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) Data(code int, contentType string, data []byte) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, contentType)
+	ctx.WriteHeader(code)
 	ctx.Write(data)
 }
 
 // HTMLRaw not use render
 func (ctx *Context) HTMLRaw(code int, str string) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	ctx.Write([]byte(str))
 }
 
 func (ctx *Context) JSON(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationJSONCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := json.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
@@ -276,8 +276,8 @@ func (ctx *Context) JSON(code int, v interface{}) error {
 }
 
 func (ctx *Context) XML(code int, v interface{}) error {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMEApplicationXMLCharsetUTF8)
+	ctx.WriteHeader(code)
 	err := xml.NewEncoder(ctx).Encode(v)
 	if err != nil {
 		logx.Warn(err)
diff --git a/render.go b/render.go
index 395eb2c..c34c846 100644
--- a/render.go
+++ b/render.go
@@ -13,8 +13,8 @@ func SetRender(r Render) {
 type defaultRender struct{}
 
 func (r *defaultRender) HTMLSet(ctx *Context, code int, setName, tplName string, data interface{}) {
-	ctx.WriteHeader(code)
 	ctx.Header().Set(HeaderContentType, MIMETextHTMLCharsetUTF8)
+	ctx.WriteHeader(code)
 }
 
 func init() {
-- 
2.43.0


From a21a7d50c2b7dc895de04191dcce8fde48c5b429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:31 +0000
Subject: [PATCH 13/36] fix: serve files through the context so that its
 written state and status hold

---
 content.go  | 2 +-
 m_static.go | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/content.go b/content.go
index 23a7325..ef681f4 100644
--- a/content.go
+++ b/content.go
@@ -146,7 +146,7 @@ func (ctx *Context) ReadCloser() io.ReadCloser {
 
 // File writes the specified file into the body stream.
 func (ctx *Context) File(filepath string) {
-	http.ServeFile(ctx.ResponseWriter, ctx.Request, filepath)
+	http.ServeFile(ctx, ctx.Request, filepath)
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
diff --git a/m_static.go b/m_static.go
index f88dd62..9afe3aa 100644
--- a/m_static.go
+++ b/m_static.go
@@ -81,7 +81,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx.ResponseWriter, ctx.Request, redirPath+"/", http.StatusFound)
+				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
 				return
 			}
 
@@ -105,7 +105,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx.ResponseWriter, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From f1984829b15f11494b320e6f813331e7128c8320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:17 +0000
Subject: [PATCH 14/36] fix: the multipart memory limit belongs to its engine
 and is 32 MB by default

---
 content.go | 14 +++++++++++++-
 context.go |  2 ++
 engine.go  |  1 +
 router.go  |  7 +------
 4 files changed, 17 insertions(+), 7 deletions(-)

diff --git a/content.go b/content.go
index ef681f4..1895493 100644
--- a/content.go
+++ b/content.go
@@ -150,6 +150,12 @@ func (ctx *Context) File(filepath string) {
 }
 
 func (ctx *Context) FormFile(name string) (multipart.File, *multipart.FileHeader, error) {
+	if ctx.Request.MultipartForm == nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.multipartMemory); err != nil {
+			return nil, nil, err
+		}
+	}
+
 	return ctx.Request.FormFile(name)
 }
 
@@ -301,6 +307,12 @@ func (ctx *Context) BindWith(obj interface{}, b binding.Bindinger) error {
 		ctx.ParseFormOrMultipartForm()
 	}
 
+	if b == binding.FormMultipart && ctx.Request.MultipartForm == nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.multipartMemory); err != nil {
+			return err
+		}
+	}
+
 	return b.Bind(ctx.Request, obj)
 }
 
@@ -333,7 +345,7 @@ func (ctx *Context) ParseFormOrMultipartForm() {
 
 	if (ctx.Request.Method == http.MethodPost || ctx.Request.Method == http.MethodPut || ctx.Request.Method == http.MethodPatch) &&
 		strings.Contains(ctx.Request.Header.Get("Content-Type"), "multipart/form-data") {
-		if err := ctx.Request.ParseMultipartForm(defaultMultipartMemory); err != nil {
+		if err := ctx.Request.ParseMultipartForm(ctx.multipartMemory); err != nil {
 			panic(errors.New("parseMultipartForm error:" + err.Error()))
 		}
 	} else {
diff --git a/context.go b/context.go
index 8f62101..db9ae98 100644
--- a/context.go
+++ b/context.go
@@ -28,6 +28,8 @@ type Context struct {
 
 	endNode      *node // matched route node
 	parsedParams bool
+
+	multipartMemory int64 // memory limit of the serving engine for multipart forms
 }
 
 func newContext() *Context {
diff --git a/engine.go b/engine.go
index 6ed94cc..e27d460 100644
--- a/engine.go
+++ b/engine.go
@@ -98,6 +98,7 @@ func (e *Engine) ServeHTTP(rw http.ResponseWriter, req *http.Request) {
 
 	ctx.ResponseWriter = rw.(ResponseWriter)
 	ctx.Request = req
+	ctx.multipartMemory = e.options.MaxMultipartMemory
 
 	// fast match for static routes
 	if e.options.EnableStaticRouter {
diff --git a/router.go b/router.go
index d44494d..3ff66b6 100644
--- a/router.go
+++ b/router.go
@@ -5,8 +5,6 @@ import (
 	"net/http"
 	"strings"
 	"sync"
-
-	"github.com/meilihao/water/binding"
 )
 
 var (
@@ -285,7 +283,7 @@ func (r *Router) Handler(opts ...Option) *Engine {
 		panic("sub router not allowed: Handler()")
 	}
 
-	o := &options{}
+	o := &options{MaxMultipartMemory: defaultMultipartMemory}
 	for _, f := range opts {
 		f(o)
 	}
@@ -329,9 +327,6 @@ func (r *Router) Handler(opts ...Option) *Engine {
 	w.routeStore = rs
 	w.options = o
 
-	defaultMultipartMemory = w.options.MaxMultipartMemory
-	binding.SetMultipartMemory(defaultMultipartMemory)
-
 	w.buildTree()
 
 	return w
-- 
2.43.0


From 633148d23d0bc6a51847907850dbea2f44ccd780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:54 +0000
Subject: [PATCH 15/36] fix: the logger leaves the request body and its read
 errors as they are

---
 m_logger.go | 28 ++++++++++++++++++++++++----
 1 file changed, 24 insertions(+), 4 deletions(-)

diff --git a/m_logger.go b/m_logger.go
index a99a714..8a73096 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -50,6 +50,20 @@ func logPrefix(req *http.Request) string {
 	return "[ water : " + req.Header.Get("Trace-ID") + " ]"
 }
 
+// loggedBody is a request body whose beginning has been read for the log
+type loggedBody struct {
+	io.Reader
+	io.Closer
+}
+
+type errReader struct {
+	err error
+}
+
+func (r errReader) Read([]byte) (int, error) {
+	return 0, r.err
+}
+
 func Logger() HandlerFunc {
 	return func(ctx *Context) {
 		if LogClose {
@@ -61,11 +75,17 @@ func Logger() HandlerFunc {
 
 		if LogHttpBody && ctx.Request.Body != nil && strings.Contains(ctx.Request.Header.Get("Content-Type"), "application/json") {
 			safe := &io.LimitedReader{R: ctx.Request.Body, N: 1 << 20}
-			requestbody, _ := ioutil.ReadAll(safe)
-			ctx.Request.Body.Close()
+			requestbody, err := ioutil.ReadAll(safe)
 
-			bf := bytes.NewBuffer(requestbody)
-			ctx.Request.Body = ioutil.NopCloser(bf)
+			// handlers read what was logged, then the rest or the same read error
+			rest := io.Reader(ctx.Request.Body)
+			if err != nil {
+				rest = errReader{err}
+			}
+			ctx.Request.Body = &loggedBody{
+				Reader: io.MultiReader(bytes.NewReader(requestbody), rest),
+				Closer: ctx.Request.Body,
+			}
 
 			body = "\n" + string(requestbody)
 		}
-- 
2.43.0


From 033d4da41c70b62ddbf0ed3e0967d120cb8eae69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:51 +0000
Subject: [PATCH 16/36] fix: static directories are answered from their file
 system, not the working directory

---
 m_static.go | 37 ++++++++++++++++++++++++++++++++-----
 1 file changed, 32 insertions(+), 5 deletions(-)

diff --git a/m_static.go b/m_static.go
index 9afe3aa..1a1e2cd 100644
--- a/m_static.go
+++ b/m_static.go
@@ -2,6 +2,7 @@ package water
 
 import (
 	"net/http"
+	"net/url"
 	"path"
 	"path/filepath"
 	"strings"
@@ -53,7 +54,9 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 	}
 
 	h := func(ctx *Context) {
-		f, err := opt.FileSystem.Open(ctx.Param("*0"))
+		name := ctx.Param("*0")
+
+		f, err := opt.FileSystem.Open(name)
 		if err != nil {
 			ctx.WriteHeader(http.StatusNotFound)
 
@@ -81,12 +84,36 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 			// Redirect if missing trailing slash.
 			if !strings.HasSuffix(redirPath, "/") {
-				http.Redirect(ctx, ctx.Request, redirPath+"/", http.StatusFound)
+				http.Redirect(ctx, ctx.Request, (&url.URL{Path: redirPath + "/"}).String(), http.StatusFound)
 				return
 			}
 
-			ctx.File(filepath.Join(ctx.Param("*0"), opt.IndexFile))
-			return
+			if !opt.hasIndex {
+				// let the file server of net/http answer for that directory of opt.FileSystem.
+				req := new(http.Request)
+				*req = *ctx.Request
+				req.URL = &url.URL{Path: strings.TrimSuffix(path.Clean("/"+name), "/") + "/", RawQuery: ctx.Request.URL.RawQuery}
+
+				http.FileServer(opt.FileSystem).ServeHTTP(ctx, req)
+				return
+			}
+
+			name = path.Join(name, opt.IndexFile)
+
+			index, err := opt.FileSystem.Open(name)
+			if err != nil {
+				ctx.WriteHeader(http.StatusNotFound)
+
+				return
+			}
+			defer index.Close()
+
+			if fi, err = index.Stat(); err != nil || fi.IsDir() {
+				ctx.WriteHeader(http.StatusNotFound)
+
+				return
+			}
+			f = index
 		}
 
 		if opt.ETag != ETagTypeNone {
@@ -105,7 +132,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 			}
 		}
 
-		http.ServeContent(ctx, ctx.Request, ctx.Param("*0"), fi.ModTime(), f)
+		http.ServeContent(ctx, ctx.Request, name, fi.ModTime(), f)
 	}
 
 	r.GET(filepath.Join(opt.Prefix, "/*"), h)
-- 
2.43.0


From 526bdeff0dab52c9bff48e6bb8567d2119919d63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:45 +0000
Subject: [PATCH 17/36] fix: X-Forwarded-For entries are separated by commas
 with or without blanks

---
 util.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/util.go b/util.go
index 8d895bf..b60125e 100644
--- a/util.go
+++ b/util.go
@@ -32,11 +32,17 @@ func cleanPath(p string) string {
 }
 
 func requestProxy(req *http.Request) []string {
-	if ips := req.Header.Get(HeaderXForwardedFor); ips != "" {
-		return strings.Split(ips, ", ")
+	header := strings.Join(req.Header.Values(HeaderXForwardedFor), ",")
+	if header == "" {
+		return nil
 	}
 
-	return nil
+	ips := strings.Split(header, ",")
+	for i := range ips {
+		ips[i] = strings.TrimSpace(ips[i])
+	}
+
+	return ips
 }
 
 // see more detail in github.com/minio/minio/pkg/handlers/proxy.go
-- 
2.43.0


From 2f3c4ef7fdde782e346f7e85989e3b21e0115b36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:47 +0000
Subject: [PATCH 18/36] fix: a cookie with an invalid name adds no header

---
 cookie.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/cookie.go b/cookie.go
index f3ffc37..746cfbb 100644
--- a/cookie.go
+++ b/cookie.go
@@ -105,5 +105,7 @@ func (ctx *Context) SetCookie(name string, value string, others ...interface{})
 		}
 	}
 
-	ctx.ResponseWriter.Header().Add("Set-Cookie", cookie.String())
+	if v := cookie.String(); v != "" {
+		ctx.ResponseWriter.Header().Add("Set-Cookie", v)
+	}
 }
-- 
2.43.0


From 4103a3cf482b9a2ee5f0c7d777a52681786546b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:35 +0000
Subject: [PATCH 19/36] fix: numbers that do not fit a narrow integer field are
 errors, not wrapped

---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index eca23cb..bff57ed 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -160,7 +160,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		intVal, err := strconv.ParseInt(val, 10, 64)
+		intVal, err := strconv.ParseInt(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
@@ -170,7 +170,7 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		if val == "" {
 			val = "0"
 		}
-		uintVal, err := strconv.ParseUint(val, 10, 64)
+		uintVal, err := strconv.ParseUint(val, 10, structField.Type().Bits())
 		if err != nil {
 			return setValueError(nameInTag, val)
 		} else {
-- 
2.43.0


From 7241c3a7afddd7664efdcae41c776918c9c1de37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:37 +0000
Subject: [PATCH 20/36] fix: binding false overwrites a field that was true

---
 binding/map_form.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index bff57ed..5ef1ecb 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -183,8 +183,8 @@ func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKin
 		boolVal, err := strconv.ParseBool(val)
 		if err != nil {
 			return setValueError(nameInTag, val)
-		} else if boolVal {
-			structField.SetBool(true)
+		} else {
+			structField.SetBool(boolVal)
 		}
 	case reflect.Float32:
 		if val == "" {
-- 
2.43.0


From c51a0b8eec6a2a871dffdf9fa1acbd2a5d9564be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:38 +0000
Subject: [PATCH 21/36] fix: names without values and nil maps do not crash the
 form binders

---
 binding/map_form.go |  3 ++-
 binding/mapping.go  | 11 +++++++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 5ef1ecb..136e55c 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -90,7 +90,8 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 		return nil
 	}
 
-	inputValue, existValue := form[bName]
+	inputValue := form[bName]
+	existValue := len(inputValue) > 0
 	if !existValue && bOpt.defaultValue != "" {
 		existValue = true
 		inputValue = []string{bOpt.defaultValue}
diff --git a/binding/mapping.go b/binding/mapping.go
index 3fc745a..70e50dd 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -195,6 +195,9 @@ func mapFormByTag(ptr interface{}, form map[string][]string, tag string) error {
 	var pointed interface{}
 	if ptrVal.Kind() == reflect.Ptr {
 		ptrVal = ptrVal.Elem()
+		if ptrVal.Kind() == reflect.Map && ptrVal.IsNil() {
+			ptrVal.Set(reflect.MakeMap(ptrVal.Type()))
+		}
 		pointed = ptrVal.Interface()
 	}
 
@@ -231,7 +234,9 @@ func setFormMap(ptr interface{}, form map[string][]string) error {
 		return errors.New("cannot convert to map of strings")
 	}
 	for k, v := range form {
-		ptrMap[k] = v[len(v)-1] // pick last
+		if len(v) > 0 {
+			ptrMap[k] = v[len(v)-1] // pick last
+		}
 	}
 
 	return nil
@@ -263,7 +268,9 @@ func setFormMap2(obj interface{}, el reflect.Type, form map[string][]string) err
 		*m = make(map[string]string, len(form))
 	}
 	for k, v := range form {
-		(*m)[k] = v[len(v)-1] // pick last
+		if len(v) > 0 {
+			(*m)[k] = v[len(v)-1] // pick last
+		}
 	}
 
 	return nil
-- 
2.43.0


From 042fb812fa9dc6a57c1a653452d4fce2d79210e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:03:40 +0000
Subject: [PATCH 22/36] fix: validating a nil pointer is an error, not a crash

---
 binding/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/validator.go b/binding/validator.go
index ad5792d..2af663d 100644
--- a/binding/validator.go
+++ b/binding/validator.go
@@ -68,6 +68,9 @@ func (v *validatorV10) ValidateStruct(obj interface{}) error {
 	value := reflect.ValueOf(obj)
 	switch value.Kind() {
 	case reflect.Ptr:
+		if value.IsNil() {
+			return fmt.Errorf("nil obj")
+		}
 		return v.ValidateStruct(value.Elem().Interface())
 	case reflect.Struct:
 		return v.validate.Struct(obj)
-- 
2.43.0


From dda40ac2aa7097a0021d2dd3a73853348281f089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:18 +0000
Subject: [PATCH 23/36] fix: form binding fills allocated pointers, leaves
 unnamed and ignored fields alone

---
 binding/map_form.go | 67 +++++++++++++++++++++++++++++----------------
 binding/mapping.go  |  4 +++
 2 files changed, 48 insertions(+), 23 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 136e55c..3b1169c 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -36,15 +36,15 @@ func MapForm(obj interface{}, form map[string][]string,
 		return fmt.Errorf("form mapping need map[string]string, map[string][]string or struct")
 	}
 
-	return _mapForm(formStruct, form, formfile, tag)
+	_, err := _mapForm(formStruct, form, formfile, tag)
+	return err
 }
 
+// _mapForm tells whether it has set any field
 func _mapForm(formStruct reflect.Value, form map[string][]string,
-	formfile map[string][]*multipart.FileHeader, tag string) error {
-	if formStruct.Kind() == reflect.Ptr {
-		formStruct = formStruct.Elem()
-	}
+	formfile map[string][]*multipart.FileHeader, tag string) (bool, error) {
 	typ := formStruct.Type()
+	isSetted := false
 
 	for i := 0; i < typ.NumField(); i++ {
 		typeField := typ.Field(i)
@@ -53,27 +53,43 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		if typeField.PkgPath != "" && !typeField.Anonymous { // unexported
 			continue
 		}
+		if name, _ := head(typeField.Tag.Get(tag), ","); name == "-" { // ignore this field and all in it
+			continue
+		}
 
+		nested := structField
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
-			if structField.IsNil() && (typeField.Anonymous || typeField.Type.Elem().Kind() == reflect.Struct) {
-				structField.Set(reflect.New(typeField.Type.Elem()))
-
-				structField = structField.Elem()
+			nested = structField.Elem()
+			if structField.IsNil() && structField.CanSet() {
+				nested = reflect.New(typeField.Type.Elem()).Elem() // kept only if any field of it is set
 			}
 		}
 
-		if (structField.Kind() == reflect.Struct && structField.Type() != timeType) || typeField.Anonymous { // typeField.Anonymous is an embedded field
-			if err := _mapForm(structField, form, formfile, tag); err != nil {
-				return err
+		if nested.Kind() == reflect.Struct && nested.Type() != timeType {
+			ok, err := _mapForm(nested, form, formfile, tag)
+			if err != nil {
+				return false, err
+			}
+			if ok {
+				isSetted = true
+				if structField.Kind() == reflect.Ptr && structField.IsNil() {
+					structField.Set(nested.Addr())
+				}
 			}
 		}
 
-		if err := tryToSetValue2(structField, typeField, form, formfile, tag); err != nil {
-			return err
+		if !structField.CanSet() { // unexported embedded field
+			continue
+		}
+
+		ok, err := tryToSetValue2(structField, typeField, form, formfile, tag)
+		if err != nil {
+			return false, err
 		}
+		isSetted = isSetted || ok
 	}
 
-	return nil
+	return isSetted, nil
 }
 
 var (
@@ -83,11 +99,11 @@ var (
 
 // typeField does't use typeField.Type.Kind(), typeField only form tag in here
 func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map[string][]string,
-	formfile map[string][]*multipart.FileHeader, tag string) error {
+	formfile map[string][]*multipart.FileHeader, tag string) (bool, error) {
 
 	bName, bOpt := parseFormName(typeField, tag)
 	if bName == "-" {
-		return nil
+		return false, nil
 	}
 
 	inputValue := form[bName]
@@ -105,7 +121,7 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 			slice := reflect.MakeSlice(value.Type(), num, num)
 			for i := 0; i < num; i++ {
 				if err = setWithProperType2(typeField, bOpt, sliceOf, inputValue[i], slice.Index(i), bName); err != nil {
-					return err
+					return false, err
 				}
 			}
 			value.Set(slice)
@@ -113,12 +129,12 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 			err = setWithProperType2(typeField, bOpt, value.Kind(), inputValue[0], value, bName)
 		}
 
-		return err
+		return true, err
 	}
 
 	inputFile, existFile := formfile[bName]
 	if !existFile {
-		return nil
+		return false, nil
 	}
 	num := len(inputFile)
 
@@ -136,10 +152,10 @@ func tryToSetValue2(value reflect.Value, typeField reflect.StructField, form map
 	}
 
 	if num != len(inputFile) { //success mapping
-		return nil
+		return true, nil
 	}
 
-	return fmt.Errorf("%s can't mapping to multipart.FileHeader", bName)
+	return false, fmt.Errorf("%s can't mapping to multipart.FileHeader", bName)
 }
 
 func setValueError(name, value string) error {
@@ -149,7 +165,12 @@ func setValueError(name, value string) error {
 func setWithProperType2(typeField reflect.StructField, opt *setOptions, valueKind reflect.Kind, val string, structField reflect.Value, nameInTag string) error {
 	if structField.Kind() == reflect.Ptr {
 		if structField.IsNil() {
-			structField.Set(reflect.New(structField.Type().Elem()))
+			v := reflect.New(structField.Type().Elem()) // kept only if val fits
+			if err := setWithProperType2(typeField, opt, v.Elem().Kind(), val, v.Elem(), nameInTag); err != nil {
+				return err
+			}
+			structField.Set(v)
+			return nil
 		}
 
 		structField = structField.Elem()
diff --git a/binding/mapping.go b/binding/mapping.go
index 70e50dd..3f5baeb 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -104,6 +104,10 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 			if sf.PkgPath != "" && !sf.Anonymous { // unexported
 				continue
 			}
+			if sv := value.Field(i); !sv.CanSet() && sv.Kind() != reflect.Struct &&
+				(sv.Kind() != reflect.Ptr || sv.IsNil() || sv.Elem().Kind() != reflect.Struct) { // unexported embedded field
+				continue
+			}
 			ok, err := mapping(value.Field(i), tValue.Field(i), setter, tag)
 			if err != nil {
 				return false, err
-- 
2.43.0


From 982185f359d72c548e59bdf8dba719bbbe53cf52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:04:34 +0000
Subject: [PATCH 24/36] fix: names with : = or @ give a well formed
 Content-Disposition

---
 util.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/util.go b/util.go
index b60125e..fcff4bf 100644
--- a/util.go
+++ b/util.go
@@ -71,8 +71,10 @@ func contentDisposition(fileName, dispositionType string) string {
 		return dispositionType
 	}
 
-	return fmt.Sprintf(`%s; filename="%s"; filename*=UTF-8''%s`,
-		dispositionType, url.PathEscape(fileName), url.PathEscape(fileName))
+	// RFC 5987 allows fewer characters than a path segment
+	name := strings.NewReplacer(":", "%3A", "=", "%3D", "@", "%40").Replace(url.PathEscape(fileName))
+
+	return fmt.Sprintf(`%s; filename="%s"; filename*=UTF-8''%s`, dispositionType, name, name)
 }
 
 // check pattern segment
-- 
2.43.0


From 23c729f7b6969210a3982be1fbad94b00c608846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:35 +0000
Subject: [PATCH 25/36] fix: times are validated as values without rules
 instead of being refused

---
 binding/validator.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/binding/validator.go b/binding/validator.go
index 2af663d..1101fb6 100644
--- a/binding/validator.go
+++ b/binding/validator.go
@@ -73,6 +73,9 @@ func (v *validatorV10) ValidateStruct(obj interface{}) error {
 		}
 		return v.ValidateStruct(value.Elem().Interface())
 	case reflect.Struct:
+		if value.Type() == timeType { // a plain value, the validator refuses it
+			return nil
+		}
 		return v.validate.Struct(obj)
 	case reflect.Slice, reflect.Array:
 		count := value.Len()
-- 
2.43.0


From a9d58c78e72e00e88ad346bcce8d9e75ff46462a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:16 +0000
Subject: [PATCH 26/36] fix: a JSON body is decoded the same however it
 arrives, read failures and trailing text are errors

---
 binding/json.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/binding/json.go b/binding/json.go
index 7f32eb6..ab1c363 100644
--- a/binding/json.go
+++ b/binding/json.go
@@ -2,6 +2,7 @@ package binding
 
 import (
 	"fmt"
+	"io/ioutil"
 	"net/http"
 
 	jsoniter "github.com/json-iterator/go"
@@ -23,8 +24,12 @@ func (b jsonBinding) Bind(req *http.Request, obj interface{}) error {
 	}
 	defer req.Body.Close()
 
-	decoder := json.NewDecoder(req.Body)
-	if err := decoder.Decode(obj); err != nil {
+	// decoded as a whole: the result does not depend on how the body arrives
+	data, err := ioutil.ReadAll(req.Body)
+	if err != nil {
+		return err
+	}
+	if err := json.Unmarshal(data, obj); err != nil {
 		return err
 	}
 
-- 
2.43.0


From 9fca2d0e36a496a1c7c47afc36b1f694c1ecca45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:37:37 +0000
Subject: [PATCH 27/36] fix: Download reports a failed write

---
 content.go | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/content.go b/content.go
index 1895493..33c0071 100644
--- a/content.go
+++ b/content.go
@@ -229,9 +229,27 @@ func (ctx *Context) Download(fpath string, inline ...bool) error {
 	ctx.Header().Set("Cache-Control", "must-revalidate")
 	ctx.Header().Set("Pragma", "public")
 	ctx.Header().Set(HeaderContentDisposition, contentDisposition(fi.Name(), dispositionType))
-	http.ServeContent(ctx, ctx.Request, fi.Name(), fi.ModTime(), f)
+	w := &errWriter{ResponseWriter: ctx}
+	http.ServeContent(w, ctx.Request, fi.Name(), fi.ModTime(), f)
 
-	return nil
+	return w.err
+}
+
+// errWriter remembers the first failed write, which http.ServeContent does not report.
+type errWriter struct {
+	http.ResponseWriter
+	err error
+}
+
+func (w *errWriter) Write(data []byte) (int, error) {
+	n, err := w.ResponseWriter.Write(data)
+	if err == nil && n < len(data) {
+		err = io.ErrShortWrite
+	}
+	if err != nil && w.err == nil {
+		w.err = err
+	}
+	return n, err
 }
 
 func (ctx *Context) Attachment(name string, modtime time.Time, content io.ReadSeeker, inline ...bool) {
-- 
2.43.0


From 377a29ace5254bca9a5fcb29532143287f2a0f7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:37 +0000
Subject: [PATCH 28/36] fix: QueryMap takes only name[key] entries, whatever
 the map order

---
 query.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/query.go b/query.go
index 6bb651e..09f5f2e 100644
--- a/query.go
+++ b/query.go
@@ -93,7 +93,7 @@ func (ctx *Context) QueryMap(key string) map[string]string {
 
 	for k, v := range ctx.Request.Form {
 		if i := strings.IndexByte(k, '['); i >= 1 && k[0:i] == key {
-			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 {
+			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 && i+1+j == len(k)-1 {
 				dicts[k[i+1:][:j]] = strings.TrimSpace(v[0])
 			}
 		}
@@ -176,7 +176,7 @@ func (ctx *Context) DefaultQueryMap(key string, defaultValue map[string]string)
 
 	for k, v := range ctx.Request.Form {
 		if i := strings.IndexByte(k, '['); i >= 1 && k[0:i] == key {
-			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 {
+			if j := strings.IndexByte(k[i+1:], ']'); j >= 1 && i+1+j == len(k)-1 {
 				exist = true
 
 				dicts[k[i+1:][:j]] = strings.TrimSpace(v[0])
-- 
2.43.0


From c1740a258a2dd7468da315666c60e6f41aa322fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:38 +0000
Subject: [PATCH 29/36] fix: the request logger names status 200 when no
 handler writes

---
 m_logger.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/m_logger.go b/m_logger.go
index 8a73096..e3d31d4 100644
--- a/m_logger.go
+++ b/m_logger.go
@@ -92,11 +92,16 @@ func Logger() HandlerFunc {
 
 		ctx.Next()
 
+		status := ctx.status
+		if !ctx.written {
+			status = http.StatusOK // what net/http sends then
+		}
+
 		// Layout : "prefix start_time [ status ] used_time | ip | method path"
 		logx.Infof("%s %v |%s| %13v | %16s | %7s %s%s",
 			logPrefix(ctx.Request),
 			start.Format(LogTimeFormat),
-			logStatus(ctx.status),
+			logStatus(status),
 			time.Now().Sub(start),
 			ctx.RealIp(),
 			ctx.Request.Method,
-- 
2.43.0


From c5c86f636916c4f99d95f8db1d3da1b366fc1cf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:40 +0000
Subject: [PATCH 30/36] fix: a nil function is refused as a handler

---
 engine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/engine.go b/engine.go
index e27d460..9338447 100644
--- a/engine.go
+++ b/engine.go
@@ -2,6 +2,7 @@ package water
 
 import (
 	"net/http"
+	"reflect"
 	"sync"
 	"time"
 
@@ -20,6 +21,10 @@ func (f HandlerFunc) ServeHTTP(ctx *Context) {
 
 // support http.Handler, but not recommended
 func newHandler(handler interface{}) Handler {
+	if v := reflect.ValueOf(handler); v.Kind() == reflect.Func && v.IsNil() {
+		panic("nil handler")
+	}
+
 	switch h := handler.(type) {
 	case Handler:
 		return h
-- 
2.43.0


From e32134e8b8e33d4a3c2ae832bc84399772447d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:55 +0000
Subject: [PATCH 31/36] fix: HandlerName names http handler functions and
 survives handlers that are not functions

---
 engine.go | 13 ++++++++++---
 util.go   |  7 ++++++-
 2 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/engine.go b/engine.go
index 9338447..074615a 100644
--- a/engine.go
+++ b/engine.go
@@ -19,6 +19,13 @@ func (f HandlerFunc) ServeHTTP(ctx *Context) {
 	f(ctx)
 }
 
+// httpHandlerFunc keeps the function itself, for ctx.HandlerName()
+type httpHandlerFunc func(http.ResponseWriter, *http.Request)
+
+func (f httpHandlerFunc) ServeHTTP(ctx *Context) {
+	f(ctx, ctx.Request)
+}
+
 // support http.Handler, but not recommended
 func newHandler(handler interface{}) Handler {
 	if v := reflect.ValueOf(handler); v.Kind() == reflect.Func && v.IsNil() {
@@ -30,14 +37,14 @@ func newHandler(handler interface{}) Handler {
 		return h
 	case func(*Context):
 		return HandlerFunc(h)
+	case http.HandlerFunc:
+		return httpHandlerFunc(h)
 	case http.Handler:
 		return HandlerFunc(func(ctx *Context) {
 			h.ServeHTTP(ctx, ctx.Request)
 		})
 	case func(http.ResponseWriter, *http.Request):
-		return HandlerFunc(func(ctx *Context) {
-			h(ctx, ctx.Request)
-		})
+		return httpHandlerFunc(h)
 	default:
 		panic("unsupported handler")
 	}
diff --git a/util.go b/util.go
index fcff4bf..1856181 100644
--- a/util.go
+++ b/util.go
@@ -112,7 +112,12 @@ func filterFlags(content string) string {
 }
 
 func nameOfFunction(f interface{}) string {
-	return runtime.FuncForPC(reflect.ValueOf(f).Pointer()).Name()
+	v := reflect.ValueOf(f)
+	if v.Kind() != reflect.Func {
+		return v.Type().String()
+	}
+
+	return runtime.FuncForPC(v.Pointer()).Name()
 }
 
 // GenerateETag generates an ETag based on file modification time and size
-- 
2.43.0


From e897d1c669083bc6204a1761556815c9a7537924 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:53 +0000
Subject: [PATCH 32/36] fix: IsWebsocket reads Connection as a list of options

---
 content.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/content.go b/content.go
index 33c0071..5c44bc1 100644
--- a/content.go
+++ b/content.go
@@ -99,9 +99,15 @@ func (ctx *Context) IsAjax() bool {
 }
 
 func (ctx *Context) IsWebsocket() bool {
-	if strings.Contains(strings.ToLower(ctx.Request.Header.Get("Connection")), "upgrade") &&
-		strings.ToLower(ctx.Request.Header.Get("Upgrade")) == "websocket" {
-		return true
+	if strings.ToLower(ctx.Request.Header.Get("Upgrade")) != "websocket" {
+		return false
+	}
+
+	// Connection is a list of options, maybe over several header lines
+	for _, v := range strings.Split(strings.Join(ctx.Request.Header.Values("Connection"), ","), ",") {
+		if strings.ToLower(strings.TrimSpace(v)) == "upgrade" {
+			return true
+		}
 	}
 
 	return false
-- 
2.43.0


From 7cfc856ad85dac12e83f7656a26d21934b638bfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:22:11 +0000
Subject: [PATCH 33/36] fix: binding: a nil target is an error, not a crash

---
 binding/json.go     | 4 ++++
 binding/map_form.go | 2 +-
 binding/mapping.go  | 6 ++++++
 3 files changed, 11 insertions(+), 1 deletion(-)

diff --git a/binding/json.go b/binding/json.go
index ab1c363..aceb9f3 100644
--- a/binding/json.go
+++ b/binding/json.go
@@ -24,6 +24,10 @@ func (b jsonBinding) Bind(req *http.Request, obj interface{}) error {
 	}
 	defer req.Body.Close()
 
+	if obj == nil { // the decoder panics
+		return fmt.Errorf("nil obj")
+	}
+
 	// decoded as a whole: the result does not depend on how the body arrives
 	data, err := ioutil.ReadAll(req.Body)
 	if err != nil {
diff --git a/binding/map_form.go b/binding/map_form.go
index 3b1169c..9c1180f 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -20,7 +20,7 @@ func MapForm(obj interface{}, form map[string][]string,
 
 	formStruct := reflect.ValueOf(obj)
 
-	if formStruct.Kind() != reflect.Ptr {
+	if formStruct.Kind() != reflect.Ptr || formStruct.IsNil() {
 		return fmt.Errorf("need ptr obj")
 	}
 
diff --git a/binding/mapping.go b/binding/mapping.go
index 3f5baeb..df845bb 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -72,6 +72,9 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 		var isNew bool
 		vPtr := value
 		if value.IsNil() {
+			if !value.CanSet() { // the target itself
+				return false, errors.New("nil obj")
+			}
 			isNew = true
 			vPtr = reflect.New(value.Type().Elem())
 		}
@@ -198,6 +201,9 @@ func mapFormByTag(ptr interface{}, form map[string][]string, tag string) error {
 	ptrVal := reflect.ValueOf(ptr)
 	var pointed interface{}
 	if ptrVal.Kind() == reflect.Ptr {
+		if ptrVal.IsNil() {
+			return errors.New("nil obj")
+		}
 		ptrVal = ptrVal.Elem()
 		if ptrVal.Kind() == reflect.Map && ptrVal.IsNil() {
 			ptrVal.Set(reflect.MakeMap(ptrVal.Type()))
-- 
2.43.0


From 847874b53957b387b652bdde509668838963d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:00:29 +0000
Subject: [PATCH 34/36] fix: keep a copy of the handlers passed to a route or
 to WithNoFoundHandlers, the slice is the caller's

---
 option.go | 2 ++
 router.go | 2 +-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/option.go b/option.go
index 0b223c8..0e6683a 100644
--- a/option.go
+++ b/option.go
@@ -23,6 +23,8 @@ func WithNoFoundHandlers(hs ...interface{}) Option {
 		panic("no NoFoundHandlers")
 	}
 
+	hs = append([]interface{}{}, hs...) // the slice is the caller's
+
 	return func(o *options) {
 		o.NoFoundHandlers = newHandlers(hs)
 	}
diff --git a/router.go b/router.go
index 3ff66b6..039641f 100644
--- a/router.go
+++ b/router.go
@@ -161,7 +161,7 @@ func (r *Router) handle(method, pattern string, handlers []interface{}) {
 		method:   method,
 		pattern:  pattern,
 		parent:   r,
-		handlers: handlers,
+		handlers: append([]interface{}{}, handlers...), // the slice is the caller's
 	}
 
 	r.sub = append(r.sub, rr)
-- 
2.43.0


From 58c25fc78a11dbc3f73aefa416f3bdde1117576d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:39:41 +0000
Subject: [PATCH 35/36] fix: binding: a nil pointer to a recursive type is not
 followed for ever

---
 binding/map_form.go | 22 +++++++++++++++++-----
 binding/mapping.go  | 18 ++++++++++++++++--
 2 files changed, 33 insertions(+), 7 deletions(-)

diff --git a/binding/map_form.go b/binding/map_form.go
index 9c1180f..d2d6374 100644
--- a/binding/map_form.go
+++ b/binding/map_form.go
@@ -36,14 +36,16 @@ func MapForm(obj interface{}, form map[string][]string,
 		return fmt.Errorf("form mapping need map[string]string, map[string][]string or struct")
 	}
 
-	_, err := _mapForm(formStruct, form, formfile, tag)
+	_, err := _mapForm(formStruct, form, formfile, tag, nil)
 	return err
 }
 
-// _mapForm tells whether it has set any field
+// _mapForm tells whether it has set any field.
+// outer are the types of the structs around formStruct
 func _mapForm(formStruct reflect.Value, form map[string][]string,
-	formfile map[string][]*multipart.FileHeader, tag string) (bool, error) {
+	formfile map[string][]*multipart.FileHeader, tag string, outer []reflect.Type) (bool, error) {
 	typ := formStruct.Type()
+	outer = append(outer, typ)
 	isSetted := false
 
 	for i := 0; i < typ.NumField(); i++ {
@@ -60,13 +62,13 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 		nested := structField
 		if typeField.Type.Kind() == reflect.Ptr && typeField.Type != multipartFileType {
 			nested = structField.Elem()
-			if structField.IsNil() && structField.CanSet() {
+			if structField.IsNil() && structField.CanSet() && !containsType(outer, typeField.Type.Elem()) {
 				nested = reflect.New(typeField.Type.Elem()).Elem() // kept only if any field of it is set
 			}
 		}
 
 		if nested.Kind() == reflect.Struct && nested.Type() != timeType {
-			ok, err := _mapForm(nested, form, formfile, tag)
+			ok, err := _mapForm(nested, form, formfile, tag, outer)
 			if err != nil {
 				return false, err
 			}
@@ -92,6 +94,16 @@ func _mapForm(formStruct reflect.Value, form map[string][]string,
 	return isSetted, nil
 }
 
+// containsType is for recursive types: a nil pointer to a type that is being filled is not followed
+func containsType(types []reflect.Type, typ reflect.Type) bool {
+	for _, v := range types {
+		if v == typ {
+			return true
+		}
+	}
+	return false
+}
+
 var (
 	multipartFileType = reflect.TypeOf((*multipart.FileHeader)(nil))
 	timeType          = reflect.TypeOf((*time.Time)(nil)).Elem()
diff --git a/binding/mapping.go b/binding/mapping.go
index df845bb..5e872e7 100644
--- a/binding/mapping.go
+++ b/binding/mapping.go
@@ -62,6 +62,11 @@ func tryToSetValue(value reflect.Value, field reflect.StructField, setter setter
 }
 
 func mapping(value reflect.Value, field reflect.StructField, setter setter, tag string) (bool, error) {
+	return mappingIn(value, field, setter, tag, nil)
+}
+
+// outer are the types of the structs around value
+func mappingIn(value reflect.Value, field reflect.StructField, setter setter, tag string, outer []reflect.Type) (bool, error) {
 	if field.Tag.Get(tag) == "-" { // just ignoring this field
 		return false, nil
 	}
@@ -78,7 +83,15 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 			isNew = true
 			vPtr = reflect.New(value.Type().Elem())
 		}
-		isSetted, err := mapping(vPtr.Elem(), field, setter, tag)
+		var isSetted bool
+		var err error
+		if isNew && containsType(outer, value.Type().Elem()) {
+			if !field.Anonymous {
+				isSetted, err = tryToSetValue(vPtr.Elem(), field, setter, tag)
+			}
+		} else {
+			isSetted, err = mappingIn(vPtr.Elem(), field, setter, tag, outer)
+		}
 		if err != nil {
 			return false, err
 		}
@@ -100,6 +113,7 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 
 	if vKind == reflect.Struct {
 		tValue := value.Type()
+		outer = append(outer, tValue)
 
 		var isSetted bool
 		for i := 0; i < value.NumField(); i++ {
@@ -111,7 +125,7 @@ func mapping(value reflect.Value, field reflect.StructField, setter setter, tag
 				(sv.Kind() != reflect.Ptr || sv.IsNil() || sv.Elem().Kind() != reflect.Struct) { // unexported embedded field
 				continue
 			}
-			ok, err := mapping(value.Field(i), tValue.Field(i), setter, tag)
+			ok, err := mappingIn(value.Field(i), tValue.Field(i), setter, tag, outer)
 			if err != nil {
 				return false, err
 			}
-- 
2.43.0


From 59dcad3a40e0181df96f06994dcd734c384e73a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:10:59 +0000
Subject: [PATCH 36/36] fix: static: names are cleaned before a file system is
 asked, as http.FileServer does

---
 m_static.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/m_static.go b/m_static.go
index 1a1e2cd..9d08f47 100644
--- a/m_static.go
+++ b/m_static.go
@@ -54,7 +54,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 	}
 
 	h := func(ctx *Context) {
-		name := ctx.Param("*0")
+		name := path.Clean("/" + ctx.Param("*0")) // a file system may rely on it, as with http.FileServer
 
 		f, err := opt.FileSystem.Open(name)
 		if err != nil {
@@ -92,7 +92,7 @@ func (r *Router) StaticAdvance(opt *StaticOptions) {
 				// let the file server of net/http answer for that directory of opt.FileSystem.
 				req := new(http.Request)
 				*req = *ctx.Request
-				req.URL = &url.URL{Path: strings.TrimSuffix(path.Clean("/"+name), "/") + "/", RawQuery: ctx.Request.URL.RawQuery}
+				req.URL = &url.URL{Path: strings.TrimSuffix(name, "/") + "/", RawQuery: ctx.Request.URL.RawQuery}
 
 				http.FileServer(opt.FileSystem).ServeHTTP(ctx, req)
 				return
-- 
2.43.0

