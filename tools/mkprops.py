import json
P=[]
def p(id,title,statement,over,qtext,why,files,mech,observe=None,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=a,where=b) for a,b in mech],
           observe_at=observe or ["http.Handler boundary (ServeHTTP with a recording ResponseWriter)"],hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)

p("C01","The most specific registered route answers every request",
 "For every set of registered routes and every request path, the request is answered by the route whose pattern covers the whole path and is preferred at the leftmost segment where candidates differ: literal over regular expression over named holder over mid-path catch-all over trailing catch-all, with the earlier-registered segment winning ties. A preferred branch that turns out not to lead to a full match never hides another route that does match. One trailing slash on the request path is ignored, and when no pattern covers the path no route's handlers run.",
 ["configurations","inputs"],"all ordered route tables up to 3-4 routes over a pattern alphabet covering every segment kind, times all request paths up to 4 segments over a small segment alphabet",
 "The tests register one big table and only print it, and match five single-route trees; no test has two overlapping routes and a request that must choose or backtrack between them.",
 ["tree.go","engine.go","router.go"],[("ordered insertion of tree nodes by kind","tree.go addEndNode/addSubNode"),("backtracking match","tree.go matchNextSegment/matchEndNode/matchSubNode"),("dispatch","engine.go ServeHTTP")],
 state=[("route tree","one tree of segments per method","tree.go node")])

p("C02","Route parameters are exactly the answering route's captures",
 "When a route answers, the handler sees precisely the parameters that route declares: a holder is its whole path segment, a regular-expression segment its capture groups in order, a mid-path catch-all its one segment, a trailing catch-all the rest of the path; an unnamed catch-all is named *N, N being its position from the left among the route's catch-alls and a name of _ is never bound. No parameter from any other route, from an abandoned matching attempt or from another request is ever visible, also when no route matches.",
 ["configurations","inputs"],"all ordered route tables up to 3 routes with distinct parameter names, times all request paths up to 4 segments",
 "Existing tests look at parameters of single-route trees only, so nothing exercises captures left over from a branch that was tried and abandoned.",
 ["tree.go","engine.go","params.go"],[("captures recorded while matching","tree.go matchEndNode/matchSubNode"),("parameters published to the handler","engine.go ServeHTTP")])

p("C03","Every documented pattern spelling matches exactly what it describes",
 "A segment written :name or <name> or <name:type> matches any one segment; <name ~ re> and <a,b ~ (re)(re)> match exactly the segments in which the regular expression is found, whether or not a single-name expression carries explicit parentheses; *, *name and *_ match the rest of the path when last and one segment otherwise. The gin-style and the native spelling of the same pattern, and any splitting of a pattern between nested groups and a route, give routes that answer identically with identical parameters.",
 ["configurations","inputs"],"all pairs of equivalent spellings, all splits of patterns up to 3 segments over groups, and a set of regular expressions, times all segments up to length 3-4 over a small character alphabet",
 "README patterns such as <id ~ 70|80> are registered in TestEngine but no request is ever sent to them.",
 ["tree.go","router.go","README.md"],[("pattern analysis","tree.go analyzePattern/partternRegexp"),("gin-style rewriting","router.go _VariantUri"),("group prefix joining","router.go getRoute")])

p("C04","The static-route fast lookup never changes any answer",
 "Building the same routes with the static-route option on and off gives the same response to every request sequence: same answering route, same status, headers and body, same parameters seen by the handlers, same reported route pattern.",
 ["configurations","histories","inputs"],"all ordered route tables up to 3 routes mixing literal and variable patterns, times all request sequences up to length 2-3, differential between the two builds",
 "The option is switched on in one test that sends no request.",
 ["engine.go","option.go"],[("literal route map consulted before the tree","engine.go ServeHTTP/buildTree")],
 state=[("static map","full path to end node per method","engine.go Engine.routersStatic")])

p("C05","A request is answered only by routes of its own method and protocol",
 "Routes registered for one HTTP method never answer a request with another, ANY registers the pattern for every supported method except those currently excluded (HEAD and OPTIONS by default), and methods outside GET, POST, DELETE, PUT, PATCH, HEAD and OPTIONS get 405. Requests older than HTTP/1.1, with request target *, or with method CONNECT get 406. In all of the 405 and 406 cases no handler and no middleware runs.",
 ["configurations","inputs"],"all assignments of methods (including ANY under several exclusion lists) to up to 2-3 overlapping routes, times every method string of an alphabet, protocol versions and request targets",
 "Only a GET and a POST request without any route are tested.",
 ["engine.go","router.go"],[("protocol and method gate","engine.go ServeHTTP"),("method index","router.go MethodIndex"),("ANY expansion","router.go ANY")])

p("C06","Unmatched requests reach only the not-found handling",
 "When no route matches, the client gets a plain 404 with an empty body and no route's or group's middleware runs; if not-found handlers are configured, exactly those run instead, in order and once each, preceded by all global Before middleware and by nothing else, and they follow the same stop-after-writing rule as routes. They never run when a route matches.",
 ["configurations","inputs"],"all router configurations with 0-2 Before, 0-2 Use, nested group middleware and 0-2 not-found handlers of every behaviour (pass, write, call Next), times matching and unmatched requests of each method",
 "TestWithNoFoundHandlers uses handlers that do nothing and only sees status 200, which is also what a missing call would give.",
 ["engine.go","router.go","option.go"],[("not-found chain selection","engine.go ServeHTTP"),("Before middleware prepended to the not-found chain","router.go Handler")])

p("C07","Middleware runs exactly for the routes in its scope, in nesting order",
 "For every nesting of groups, each request to a route runs the global Before middleware, then the Use middleware of the root, then that of every enclosing group from the outside in (a middleware passed to Group belongs to that group), then the route's own handlers, each exactly once and in registration order. Middleware of a group never runs for routes outside it, and the result does not depend on whether Use is called before or after routes or groups are added.",
 ["configurations"],"all router programs up to 6-7 registration calls (Use, Before, Group with and without inline middleware, route, close group) up to nesting depth 3, each followed by a request to every route",
 "Tests register nested groups but never send a request through them.",
 ["router.go"],[("chain composition by walking to the root","router.go getRoute"),("group middleware attachment","router.go Group/Use/Before")])

p("C08","Malformed or conflicting route tables are refused, valid ones accepted",
 "Building an engine fails immediately when two routes of one method have the same pattern, also when they only differ in spelling (gin-style or native) or in repeated slashes, when a pattern does not start with a slash or ends with one (other than / itself), when a parameter segment is malformed or its regular expression does not compile or has a group count different from its names, when a handler is nil, of an unsupported type, or a route would have no handler at all, and when root-only operations are called on a group. Every other table is accepted, including routers or groups without routes, and no accepted route is silently dropped: each answers every request its pattern covers and no preferred route does.",
 ["configurations"],"all pairs of patterns over an alphabet of valid, equivalent and malformed patterns x methods x handler lists; every root-only operation at every depth",
 "No test registers an invalid or conflicting table.",
 ["router.go","tree.go","engine.go","m_static.go","option.go"],[("duplicate detection","router.go routeStore.add, engine.go buildTree"),("pattern checks","router.go Handler, util.go checkSplitPattern, tree.go analyzePattern"),("root-only guards","router.go Before/Handler/Classic, m_static.go")])

p("C09","Reported route information agrees with what actually answers",
 "Inside a handler the reported full path is the pattern the answering route was registered with (prefixes of enclosing groups included) and is empty in not-found handling, and the reported handler name is that of the chain's last function. The printed route listings contain every registered route exactly once, with its method, pattern and number of handlers that really run, in the documented order.",
 ["configurations","inputs"],"all route tables up to 3 routes with varying middleware and groups, each queried by every request path and printed in all listing forms",
 "Tests print the listings to the terminal without looking at them, and never call the reporting functions in a handler.",
 ["content.go","router_print.go","engine.go"],[("matched route back-pointer","engine.go buildTree, content.go FullPath"),("listings","router_print.go")],
 observe=["values returned inside handlers","standard output of the Print functions"])

p("C10","Handler chains run as an onion and stop once a response is written",
 "Handlers of a chain start in order; a handler that calls Next resumes after the rest of the chain has finished, one that returns without Next lets the next handler start, and nothing starts twice, whatever handlers call Next any number of times. After a handler has returned with the response started, no further handler starts on its own.",
 ["programs"],"all chains up to 4-5 handlers, each with a body of up to 2-3 actions from {nothing, call Next, write header, write body}, against an executable model",
 "Tests use one middleware that calls Next and one handler that writes.",
 ["context.go"],[("chain loop and cursor","context.go Next/run")],
 state=[("cursor","position in the chain","context.go Context.index"),("written flag","response started","context.go Context.written")])

p("C11","The response is committed once and reported truthfully",
 "However handlers interleave header, status and body writes through the context, redirects, helpers and file serving, the underlying writer receives at most one final status, which is the first one requested (200 if a body write came first), and receives every body byte accepted, in order. From the moment that happens the context reports the response as written with that status, before it reports it as not written with status 0; a later status request changes neither. A body write without Content-Type gets the detected one, and an explicitly set one is kept.",
 ["programs"],"all sequences up to 4-5 response operations from the context API, over a strict recording writer that snapshots headers at commit time",
 "Tests write once per request and use a recorder that tolerates late headers and repeated status calls.",
 ["context.go","content.go"],[("guarded WriteHeader/Write","context.go WriteHeader/Write"),("file serving through the context","content.go File/ServeFile, m_static.go")],
 observe=["calls received by the underlying http.ResponseWriter","Context.Written/Status"])

p("C12","Response helpers deliver the stated status, content type and body",
 "Each response helper, called on a fresh response, makes the client receive exactly the given status code, the content type the helper stands for or was given, and a body that is the given bytes or the JSON or XML encoding of the given value; redirects carry the given location, status helpers their code. This holds for every helper, status code and payload, when served over a real HTTP connection as well as directly.",
 ["inputs"],"all helpers x status codes (200-599 boundary and body-less ones) x payloads of all kinds and lengths around the sniffing and buffering limits; in memory with commit-time header snapshot and over loopback HTTP",
 "Tests check a status code twice and never a content type or a body.",
 ["content.go","render.go"],[("helpers set headers, then commit, then write","content.go String/Data/HTMLRaw/JSON/XML/Stream, render.go")])

p("C13","A panicking handler is contained and answered with 500",
 "With the recovery middleware installed, a panic with any non-nil value raised anywhere after it in the chain never escapes to the server; the client gets status 500 if nothing had been sent yet and keeps the already sent status otherwise, no later handler of the chain starts, and middleware outside it resumes normally. Without a panic it only adds a 200 when nothing was written, and afterwards every other request is served as if the panic had not happened.",
 ["programs","histories"],"all chains up to 4 handlers with the recovery middleware at any position and a panic of several value kinds raised at any action (before/after Next, before/after writing), in both release statuses, followed by every kind of next request",
 "No test panics.",
 ["m_recovery.go","context.go","engine.go"],[("deferred recover","m_recovery.go Recovery"),("context not reused after an escaped panic","engine.go ServeHTTP")])

p("C14","Earlier requests leave no trace in later ones",
 "For every sequence of requests to one engine, the last request is answered exactly as it would be by a freshly built engine: same handlers, parameters, status, reported written state, stored request values, parsed query and form values, headers and body. This holds whatever the earlier requests did, including unmatched, rejected, panicking or partially written ones, and whichever internal objects are recycled. What a handler was given as its own (body bytes, bound values, query lists and maps) is not changed by later requests either.",
 ["histories"],"all request histories up to length 3-4 over an alphabet of request kinds that touch every per-request facility, with every choice of recycled or fresh context, differential against a fresh engine",
 "Every test builds a new engine and sends one or two requests of the same kind.",
 ["engine.go","context.go"],[("context pool and reset","engine.go ServeHTTP, context.go reset")],
 state=[("pooled context","object recycled between requests","engine.go Engine.ctxPool")])

p("C15","Concurrent requests cannot observe each other",
 "When any number of requests run concurrently on one engine, each request's handlers see only that request's own path parameters, stored values, body, query, writer and status, each client gets the response it would get alone, and no interleaving deadlocks, crashes or races. Serving while another engine is being built has the same guarantee.",
 ["schedules"],"all statement-level interleavings of 2 (3) concurrent requests of every pair of kinds with at most 2 preemptions, plus a free-running pass of the same bodies under the race detector",
 "No test runs two requests at the same time.",
 ["engine.go","context.go","tree.go","m_logger.go","m_cors.go","m_static.go"],[("per-request context from a pool","engine.go ServeHTTP"),("read-only tree after build","tree.go Match")],
 observe=["responses and handler observations of each thread"])

p("C16","The request logger never alters request or response",
 "With the logger middleware installed, in any of its configurations, handlers read exactly the same request body bytes, end-of-body and read errors as without it, for every content type, body length and chunking, and the client gets the same response. The one log line it emits for a request names the method, URL, client address, trace id and the status actually sent, followed by the (first MiB of the) body exactly if LogHttpBody is on and the body is JSON; with LogClose there is none.",
 ["inputs","configurations","fault_sequences"],"all body lengths around 0 and the 1 MiB logging limit x content types x read chunkings x a read error at any chunk x logger switches, differential with and without the logger",
 "The logger is installed in one test that sends no request.",
 ["m_logger.go"],[("body tee and replacement","m_logger.go Logger")],
 observe=["bytes and errors read by the handler","response","log output"])

p("C17","CORS grants an origin exactly what its configuration allows",
 "For every configuration and request, the allow-origin header is the request's origin only when the configuration lists that exact origin, * only when the configuration lists *, and empty otherwise; credentials, exposed headers, allowed methods and headers and max-age appear exactly when configured and with the configured values (requested headers are echoed only when none are configured), and the response always varies on Origin. A preflight OPTIONS request is answered 204 without running later handlers; any other request runs the rest of the chain exactly once.",
 ["configurations","inputs"],"all combinations of origin lists, method lists, header lists, credentials, exposed headers and max-age over small alphabets x all origins (exact, prefix, suffix, case, empty, absent) x methods",
 "No test uses the CORS middleware.",
 ["m_cors.go"],[("origin match and header emission","m_cors.go CORS")])

p("C18","Static serving delivers exactly the files under its root",
 "For every request path, the static middleware answers with exactly the content of the file that path names under the configured file system, with the configured index file (if present) for a directory requested with a trailing slash, with a redirect to the slash form for a directory requested without one, and with 404 for anything that does not exist or cannot be opened or examined; nothing outside the configured root is ever delivered or listed, whatever the path and the process's working directory. HEAD gives the same status and headers without a body.",
 ["inputs","configurations","fault_sequences"],"all request paths up to 4 segments over names of existing and missing files and directories, dot and dot-dot segments, empty segments and encoded forms x prefixes x index settings x working directories x file-system faults at each call",
 "Tests request two existing files and only check that the status is not 404.",
 ["m_static.go","content.go"],[("lookup through the configured file system","m_static.go StaticAdvance"),("directory handling","m_static.go StaticAdvance")])

p("C19","Static responses carry correct cache validators",
 "With entity tags enabled, the tag sent with a file is a function of its modification time and size (and name for the second kind) that differs whenever one of those differs in whole seconds or bytes, a request presenting that tag gets 304 without a body, and a request presenting any other tag gets the full file. The Expires header is the one the configured function returns for every existing file, and absent when not configured.",
 ["inputs","configurations","histories"],"all histories up to length 3 of {replace content, touch, rename, request with no tag / current tag / earlier tag} x tag kinds x expires settings",
 "No test enables entity tags or looks at a header.",
 ["m_static.go","util.go"],[("tag generation","util.go GenerateETag/GenerateETag2"),("If-None-Match comparison","m_static.go StaticAdvance")])

p("C20","Query accessors return the request's own form values",
 "For every request, the string, list and map accessors return the trimmed values the request's URL query and form body carry for that name, body values before URL values (after them in multipart forms, as net/http merges them), in order; the map form collects exactly name[key] entries. A missing name gives the empty result, or the supplied default in the Default variants, and a present one never gives the default; repeated and mixed accessor calls keep giving the same answers.",
 ["inputs","programs"],"all queries and form bodies up to 3 pairs over an alphabet of names, bracketed names and values with blanks and escapes x methods x encodings x accessor sequences up to length 2",
 "No test calls any of the query accessors.",
 ["query.go","content.go"],[("one-time form parsing","content.go ParseFormOrMultipartForm"),("accessors","query.go")])

p("C21","Typed accessors agree with strict parsing and never wrap around",
 "For path parameters, query values and cookies, every typed accessor returns exactly the number or boolean the text denotes under Go's standard parsing for that type, with the parse error where the accessor reports errors; the error-less forms return zero for text that does not parse at all and never a value of different sign or magnitude caused by wrapping. Default variants parse the supplied default only when the name is absent.",
 ["inputs"],"all texts from an alphabet of boundary numerals (each type's minimum, maximum and one beyond), signs, blanks, fractions, exponents, hexadecimal, boolean words and garbage x every accessor of the three families",
 "No test calls a typed accessor.",
 ["params.go","query.go","cookie.go"],[("strconv wrappers","params.go, query.go, cookie.go")])

p("C22","Request metadata accessors report what the request carries",
 "The client address is the X-Real-IP header if present, else the first X-Forwarded-For entry, else the connection's address without port; the proxy list is all X-Forwarded-For entries in order without surrounding blanks, however they are separated by commas. Protocol is the forwarded one only when it is http or https and otherwise reflects TLS; the ajax, websocket, user agent, header and content-type accessors report exactly the corresponding request headers, the content type without parameters.",
 ["inputs"],"all combinations of header values from an alphabet per header (absent, empty, single, lists with and without blanks, case variants, near misses) x remote address forms x TLS",
 "No test calls these accessors.",
 ["util.go","content.go"],[("address and proxy parsing","util.go requestRealIp/requestProxy"),("header accessors","content.go")])

p("C23","Cookies round-trip with exactly the requested attributes",
 "A cookie set with a valid name and attribute values valid in cookies reaches the client with that name and value and exactly the given max-age, path (default /), domain, secure, http-only and same-site attributes, next to and not replacing cookies set before; a cookie with an invalid name adds no header at all. When the client sends it back, the cookie accessor returns the same value, the escaped accessor its HTML-escaped form, and a cookie not sent gives the empty string.",
 ["inputs","programs"],"all argument lists of length 0-6 over per-position alphabets including wrong types and nil x names and values x sequences of 2 cookies, parsed back by the standard client parser",
 "No test sets or reads a cookie.",
 ["cookie.go"],[("attribute assembly","cookie.go SetCookie"),("accessors","cookie.go Cookie/CookieEscape")])

p("C24","Per-request values are write-once and private to the request",
 "Storing a value under a new name makes exactly that value readable under that name for the rest of the request, in every handler; storing under an existing name and reading a missing one fail loudly (or report absence in the non-failing variant) and leave all stored values unchanged. Typed reads return the stored value of that exact type, and every request, including one in not-found handling, starts empty.",
 ["programs","histories"],"all operation sequences up to length 4 over two names, several value types, both access paths (context and store) split over up to two handlers and two requests, against a map model",
 "No test stores a value.",
 ["environ.go","engine.go"],[("guarded set and get","environ.go"),("fresh store per request","engine.go ServeHTTP")])

p("C25","Uploads arrive intact and under the engine's own memory limit",
 "For every multipart request, the uploaded files and values seen by handlers are byte-for-byte those sent, uploads are bound only into fields that can hold exactly them (anything else is an error), a saved upload makes the destination file exactly equal to the upload whatever it contained before, and files stay in memory when they fit the limit configured for that engine (32 MiB when none is configured) and go to temporary storage otherwise. The limit of one engine is unaffected by any other engine.",
 ["inputs","configurations"],"all combinations of limits, file sizes around the limits, numbers of files and fields, previous destination contents, and orders of building two engines with different limits",
 "The binding tests parse small uploads without an engine; limits, saving and several engines are never tested.",
 ["content.go","router.go","option.go","binding/form.go"],[("memory limit option","option.go WithMaxMultipartMemory, router.go Handler"),("parsing and saving","content.go ParseFormOrMultipartForm/SaveUploadedFile")],
 observe=["uploaded file handles and contents in handlers","destination file in a scratch directory"])

p("C26","Automatic binding uses the decoder the request calls for",
 "Binding through the context decodes GET requests from the query and form, multipart POST, PUT and PATCH requests from the multipart form, JSON and XML content types (with or without parameters) from the body, and everything else from the form, and gives the same result and error as explicitly choosing that decoder. Explicitly chosen decoders are used regardless of method and content type.",
 ["inputs"],"all methods x content types (with parameters, near misses, absent) x bodies valid for each decoder x target types, against the explicitly chosen decoder and the values sent",
 "TestBindingNewBindinger checks a selection table without requests; binding through the context is never tested.",
 ["binding/binding.go","content.go"],[("decoder selection","binding/binding.go NewBindinger"),("context binding","content.go Bind/BindWith")])

p("C27","Bound scalars are exactly the submitted value or an error",
 "Binding a form, query, header or URI value to a field of any integer, unsigned, float, boolean, string, duration-free slice or pointer type stores exactly the value the text denotes for that type, with empty text denoting zero or false, and otherwise reports an error; it never stores a truncated, wrapped, partially parsed or stale value. This holds equally for both binding implementations (Bind and Bind2) wherever they accept the type.",
 ["inputs"],"all texts from an alphabet of boundary numerals of every width, malformed numerals, boolean words and blanks x all scalar kinds, pointers and slices of them x all form-like sources x previous field contents",
 "Tests bind one ordinary value per type.",
 ["binding/map_form.go","binding/mapping.go"],[("conversion by kind","binding/map_form.go setWithProperType2, binding/mapping.go setWithProperType")],
 observe=["the bound struct and returned error"])

p("C28","Binding touches exactly the fields the request names",
 "After binding form-like data to a struct, a field changes only if its tag name is present in the data or it declares a default, the first value is used for single fields and all values in order for slices, and embedded and nested structs, also through nil or already allocated pointers, are filled by the same rule. Fields tagged -, all fields inside a struct tagged -, and unexported fields are never changed, and binding to string maps copies every entry.",
 ["inputs","configurations"],"all assignments of up to 3-4 present names over structs combining tagged, untagged, defaulted, ignored, nested, embedded and pointer fields, with all previous contents, for every source",
 "Tests bind mostly complete data to fresh structs.",
 ["binding/map_form.go","binding/mapping.go"],[("field walk","binding/map_form.go _mapForm/tryToSetValue2/parseFormName"),("map targets","binding/mapping.go setFormMap2")],
 observe=["the bound value"])

p("C29","Malformed bodies are reported as errors, never as panics or success",
 "For every JSON or XML request body and target type, binding returns exactly the value a standard decoder gives for a well-formed document of that type, and an error for bodies that are empty, truncated or mistyped, hold null where a struct is needed, or whose reading fails, however the body arrives; it never panics. Bodies of form and multipart requests that do not parse are reported as errors by the binders as well, and so are, by every binder, targets that nothing can be bound into (nil, nil pointers, and for Bind everything that is not a pointer to a struct or to a map of strings or lists of strings).",
 ["inputs","fault_sequences"],"all token sequences up to length 5-6 over a JSON and an XML alphabet x target types (struct, pointer, slice, slice of pointers, map) and a read error after every prefix of valid bodies",
 "Tests use two or three fixed bodies per format.",
 ["binding/json.go","binding/xml.go","binding/validator.go","binding/form.go"],[("decode then validate","binding/json.go Bind, binding/xml.go Bind")],
 observe=["returned value and error"])

p("C30","Nothing that violates its validation rules is ever bound successfully",
 "Whatever the source (JSON, XML, form, query, header, URI or multipart), binding succeeds only if every validation rule of the target holds on the resulting value, and fails if any does not, for structs reached directly, through any number of pointers, and as elements of slices and arrays at any depth and position. A nil element fails instead of crashing, and with validation switched off only decoding errors remain.",
 ["inputs","configurations"],"all values of a family of rule-bearing structs over small field domains x wrappers (struct, pointer, slice, array, slice of pointers, nested) up to 3 elements with every subset of invalid elements x sources",
 "Tests validate one passing and two failing values per wrapper with one element.",
 ["binding/validator.go","binding/binding.go"],[("recursive validation","binding/validator.go ValidateStruct")],
 observe=["returned error"])

p("C31","Bound times denote the submitted instant",
 "Binding text to a time field under the declared layout, UTC flag and location stores exactly the instant that text denotes in that layout and zone (RFC 3339 by default, seconds or nanoseconds since the epoch for the unix and unixnano layouts), empty text in a calendar layout gives the zero time, and text that does not fit gives an error and leaves the field unchanged. Both binding implementations agree.",
 ["inputs","configurations"],"all combinations of layouts, UTC flags, locations (valid and invalid) and texts around epoch, negative values, digit boundaries, leap days and malformed values",
 "Tests bind a handful of well-formed times.",
 ["binding/map_form.go","binding/mapping.go"],[("time conversion","binding/map_form.go setTimeField2, binding/mapping.go setTimeField")],
 observe=["the bound time and error"])

p("C32","Downloads carry the file's bytes under a safely encoded name",
 "Serving a download or attachment of any name delivers exactly the file's or reader's bytes with disposition attachment, or inline when asked; whatever characters the name contains, the header is well formed, adds no other header or parameter, and decodes back to exactly that name. A missing file or a directory is returned to the caller as an error with nothing sent.",
 ["inputs"],"all file names up to 2-3 characters over an alphabet of quotes, control characters, separators, spaces and non-ASCII characters x inline flag x contents around the sniffing limit x missing file and directory",
 "No test uses the download helpers.",
 ["content.go","util.go"],[("disposition encoding","util.go contentDisposition"),("download","content.go Download/Attachment")])

p("C33","Engines built in one process are independent of each other",
 "Building an engine, from the same or another router and with any options, never changes how a previously built engine answers any request or lists its routes, and building twice from the same router with the same options gives engines that answer identically; routes or middleware added to a router after building appear only in engines built later.",
 ["histories","configurations"],"all sequences up to length 5 of {add route, add middleware, add group, build with each option set, request to each engine built so far} over two routers, differential against fresh processes of the same registrations",
 "Each test builds one engine.",
 ["router.go","engine.go"],[("chains copied at build time","router.go getRoute/Handler"),("per-engine state","engine.go newWater")])

p("C34","I/O failures are reported and never turned into success",
 "If the client connection fails or accepts only part of the data while a helper writes, the helper's returned error says so and no byte is sent out of order or twice; if reading the request body fails at any point, the body accessors, stream source and binders return that error instead of a shortened success. A failing source of a streamed response ends the response with that error after exactly the bytes read before it.",
 ["fault_sequences"],"all positions of a write or read fault (error, short count, error with data, early end of body) in the operations of every helper and accessor, one and two faults",
 "Tests never inject a failure into a reader or writer of a helper.",
 ["content.go","context.go","binding/json.go","binding/xml.go"],[("error propagation","content.go BodyBytes/Stream/JSON/XML, context.go Write")],
 observe=["returned errors","bytes received by the writer"])

p("C35","Listening entry points serve the engine at exactly the address asked for",
 "Run and ListenAndServe (RunTLS and ListenAndServeTLS with the named certificate and key) listen on exactly the address given, Run without an address on :8080, and answer every request there as the engine's ServeHTTP does, side by side on several connections, for as long as the socket lasts. More than one address, an unusable or taken address and unusable certificate files are refused at once with an error (or panic) and leave nothing listening; losing the socket ends the call with an error.",
 ["histories","configurations"],"all histories of listening and losing the socket for two engines and two ports to depth 4 (6); all combinations of 4 entry points, 14 address forms, free or taken port, 9 pairs of certificate files",
 "No test starts a server.",
 ["engine.go","util.go"],[("entry points","engine.go Run/RunTLS/ListenAndServe/ListenAndServeTLS"),("address resolution","util.go resolveAddress")])

p("C36","A request leaves nothing open behind it",
 "Every file the framework opens to serve, download or save something - from a mounted file system or by name - is closed by the time the request has been handled and is not used after that, on every path: not found, directory, index, redirect, conditional and range answers, a failing or panicking file system, client or handler, Recovery or not. No goroutine outlives its request.",
 ["inputs","fault_sequences"],"all static requests x all positions of an error or panic among the operations on the file system x client failures; all file helpers x files, destinations, client failures and handler panics (descriptors compared); all request kinds x client failures (goroutines compared)",
 "Tests use real files and never count what stays open.",
 ["m_static.go","content.go"],[("closing of opened files","m_static.go StaticAdvance, content.go Download/SaveUploadedFile")])

with open('/verif/properties.jsonl','w') as f:
    for d in P: f.write(json.dumps(d,ensure_ascii=False)+"\n")
print(len(P))
