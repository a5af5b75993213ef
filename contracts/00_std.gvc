// Trusted contracts of the standard library and of dependencies.
package router
import rate "golang.org/x/time/rate"
import http "net/http"
import path "path"
import net "net"
import time "time"
import url "net/url"
import io "io"
import bytes "bytes"
import os "os"

// ---- events observed at the boundary of the program
event serve(h http.Handler, w http.ResponseWriter, r *http.Request)
event callhandler(f http.HandlerFunc, w http.ResponseWriter, r *http.Request)
event refuse(f ErrorHandler, w http.ResponseWriter, r *http.Request, code int)
event headerset(h http.Header, key string, value string)
event headeradd(h http.Header, key string, value string)
event headerdel(h http.Header, key string)
event status(w http.ResponseWriter, code int)
event write(out io.Writer, text string, err error)
// text added to a buffer in memory
event collected(buf *bytes.Buffer, text string)

extern "path.Clean" (p) (r)
  ensures p == "/" ==> r == "/"
  pure
  ensures hasPrefix(past(p, "/"), "/") ==> r == path.Clean(past(p, "/"))
  ensures hasPrefix(p, "/") ==> hasPrefix(r, "/")
  ensures hasPrefix(p, "/") ==> r == "/" || !hasSuffix(r, "/")
  ensures r != ""
  ensures hasPrefix(p, "/") ==> ufb("nodotdot", r) && ufb("nodotdot", r + "/")
extern "path.Dir" (p) (r)
  pure
  ensures p == "/" ==> r == "/"
  ensures r != ""
  ensures hasPrefix(p, "/") ==> hasPrefix(r, "/")
extern "path.Base" (p) (r)
  pure
extern "path.Ext" (p) (r)
  pure
extern "path/filepath.Ext" (p) (r)
  pure
extern "net.SplitHostPort" (h) (host, port, err)
  pure
  ensures err == nil ==> contains(h, ":")
extern "(net/http.ResponseWriter).Header" (w) (h)
  pure
  ensures h != nil
extern "(net/http.ResponseWriter).WriteHeader" (w, code)
  requires [C27] 100 <= code && code <= 999
  emits status(w, code)
extern "(net/http.ResponseWriter).Write" (w, b) (n, err)
  emits write(w, str(b), err)
extern "(io.Writer).Write" (w, b) (n, err)
  emits write(w, str(b), err)
extern "(io.StringWriter).WriteString" (w, s) (n, err)
  emits write(w as io.Writer, s, err)
extern "(net/http.Handler).ServeHTTP" (h, w, r)
  emits serve(h, w, r)
extern "call net/http.HandlerFunc" (f, w, r)
  emits callhandler(f, w, r)
extern "call github.com/redmaner/MaguroHTTP/router.ErrorHandler" (f, w, r, code)
  emits refuse(f, w, r, code)
extern "net/http.Error" (w, msg, code)
  emits status(w, code)
extern "(github.com/redmaner/MaguroHTTP/router.Middleware).MiddlewareHTTP" (m, h) (r)
  pure
  ensures r != nil

extern "path.Join" (p) (r)
  pure
extern "strings.ToLower" (s) (r)
  pure
extern "strings.ToUpper" (s) (r)
  pure
extern "strings.TrimSpace" (s) (r)
  pure
extern "strings.Trim" (s, c) (r)
  pure
extern "strings.TrimLeft" (s, c) (r)
  pure
extern "strings.TrimRight" (s, c) (r)
  pure
extern "strings.LastIndex" (s, c) (r)
  pure
  ensures r >= -1 && r < len(s) || len(c) == 0
extern "strings.LastIndexByte" (s, c) (r)
  pure
  ensures r >= -1 && r < len(s)
extern "strings.Replace" (s, a, b, n) (r)
  pure
extern "strings.ReplaceAll" (s, a, b) (r)
  pure
extern "strings.EqualFold" (a, b) (r)
  pure
  ensures a == b ==> r
extern "strings.Repeat" (s, n) (r)
  pure
extern "call func(string, string, *net/http.Request) bool" (f, u, p, r) (ok)
  pure

extern "time.NewTicker" (d) (t)
  allocates t
  ensures t != nil
extern "time.NewTimer" (d) (t)
  allocates t
  ensures t != nil
extern "(*time.Ticker).Stop" (t)
  pure
extern "(*time.Timer).Stop" (t) (ok)
  pure
extern "(*time.Timer).Reset" (t, d) (ok)
  pure
event clock(n int) silent
extern "time.Now" () (t)
extern "(time.Time).UnixNano" (t) (n)
  ensures 0 < n && n <= 9223372036854775807
  ensures calls(clock) > 0 ==> arg(clock, n) <= n
  emits clock(n)
extern "(time.Time).Unix" (t) (n)
  ensures 0 < n

event newbucket(rate float64, burst int, b *rate.Limiter)
event draw(b *rate.Limiter, granted bool)
extern "golang.org/x/time/rate.NewLimiter" (r, n) (b)
  ensures b != nil
  emits newbucket(r, n, b)
extern "(*golang.org/x/time/rate.Limiter).Allow" (b) (granted)
  requires b != nil
  emits draw(b, granted)

extern "log.New" (w, prefix, flags) (l)
  ensures l != nil
// ---- files on disk: what is done to which name
event truncated(name string)
event openfile(name string, flag int)
event tempfile(f *os.File, err error)
event renamed(from string, to string)
event removed(name string)
event filewrite(name string, text string, err error)
event synced(name string, err error)
extern "(*os.File).Name" (f) (r)
  pure
extern "os.Create" (name) (f, err)
  ensures err == nil ==> f != nil && f.Name() == name
  emits truncated(name)
extern "os.OpenFile" (name, flag, perm) (f, err)
  ensures err == nil ==> f != nil && f.Name() == name
  emits openfile(name, flag)
extern "io/ioutil.TempFile" (dir, pattern) (f, err)
  ensures err == nil ==> f != nil && ufb("tempname", f.Name())
  emits tempfile(f, err)
extern "os.CreateTemp" (dir, pattern) (f, err)
  ensures err == nil ==> f != nil && ufb("tempname", f.Name())
  emits tempfile(f, err)
extern "os.Truncate" (name, size) (err)
  emits truncated(name)
extern "(*os.File).Truncate" (f, size) (err)
  emits truncated(f.Name())
extern "io/ioutil.WriteFile" (name, b, perm) (err)
  emits truncated(name)
  emits filewrite(name, str(b), err)
extern "os.WriteFile" (name, b, perm) (err)
  emits truncated(name)
  emits filewrite(name, str(b), err)
extern "os.Rename" (from, to) (err)
  emits renamed(from, to)
extern "os.Remove" (name) (err)
  emits removed(name)
extern "os.RemoveAll" (name) (err)
  emits removed(name)
extern "(*os.File).Write" (f, b) (n, err)
  emits filewrite(f.Name(), str(b), err)
extern "(*os.File).WriteString" (f, s) (n, err)
  emits filewrite(f.Name(), s, err)
extern "(*os.File).Sync" (f) (err)
  emits synced(f.Name(), err)
extern "os.Open" (name) (f, err)
  ensures err == nil ==> f != nil && f.Name() == name && bodyText(box(f) as io.Reader) == fileText(name)
  emits opened(name, f, err)

// ---- files, as the request handlers see them
event opened(name string, f *os.File, err error)
event slept(n int)
event statted(name string, err error)
event servefile(rw http.ResponseWriter, req *http.Request, name string)
event readfile(name string, text string, err error)
extern "os.Stat" (name) (fi, err)
  ensures err == nil ==> fi != nil
  emits statted(name, err)
extern "os.Lstat" (name) (fi, err)
  ensures err == nil ==> fi != nil
extern "net/http.ServeFile" (w, r, name)
  requires w != nil && r != nil && r.URL != nil
  emits servefile(w, r, name)
extern "io/ioutil.ReadFile" (name) (b, err)
  ensures err == nil ==> str(b) == fileText(name)
  emits readfile(name, str(b), err)
extern "os.ReadFile" (name) (b, err)
  ensures err == nil ==> str(b) == fileText(name)
  emits readfile(name, str(b), err)

// ---- requests to an upstream

// text is the content of a reader, before anything is read from it
spec func bodyText(r io.Reader) string = ufs("readertext", r)
spec func bodySize(r io.Reader) int = ufi("readersize", r)
// u is what the reference t parses to
spec func parsed(u *url.URL, t string) bool = u.Scheme == ufs("urlscheme", t) && u.Opaque == ufs("urlopaque", t) && u.Host == ufs("urlhost", t) && u.Path == ufs("urlpath", t) && u.RawPath == ufs("urlrawpath", t) && u.RawQuery == ufs("urlrawquery", t) && u.ForceQuery == ufb("urlforcequery", t)
// a reader of known size
spec func sized(r io.Reader) bool = ufb("sizedreader", r)
spec func requestTarget(p string, raw string, query string) string = ufs("requesttarget", p, raw, query)

event readall(rd io.Reader, err error)
event newrequest(method string, target string, body io.Reader, req *http.Request, err error)
event roundtrip(t http.RoundTripper, req *http.Request, resp *http.Response, err error)
event relayed(dst io.Writer, src io.Reader)
event closed(c io.Closer)

extern "io/ioutil.ReadAll" (rd) (b, err)
  requires rd != nil
  allocates b
  ensures err == nil ==> str(b) == bodyText(rd) && len(b) == bodySize(rd)
  emits readall(rd, err)
extern "io.ReadAll" (rd) (b, err)
  requires rd != nil
  allocates b
  ensures err == nil ==> str(b) == bodyText(rd) && len(b) == bodySize(rd)
  emits readall(rd, err)
extern "bytes.NewReader" (b) (r)
  allocates r
  ensures r != nil && bodyText(box(r) as io.Reader) == str(b) && bodySize(box(r) as io.Reader) == len(b) && sized(box(r) as io.Reader)
extern "strings.NewReader" (s) (r)
  allocates r
  ensures r != nil && bodyText(box(r) as io.Reader) == s && bodySize(box(r) as io.Reader) == len(s) && sized(box(r) as io.Reader)
extern "(*net/url.URL).RequestURI" (u) (r)
  requires u != nil
  ensures u.Opaque == "" && !u.ForceQuery ==> r == requestTarget(u.Path, u.RawPath, u.RawQuery)
  ensures u.Opaque == "" && hasPrefix(u.Path, "/") && (u.RawPath == "" || hasPrefix(u.RawPath, "/")) ==> hasPrefix(r, "/")
extern "net/http.NewRequest" (method, target, body) (req, err)
  allocates req, req.URL, req.Header
  ensures err != nil ==> req == nil
  ensures err == nil ==> req != nil && req.URL != nil && req.Header != nil && parsed(req.URL, target) && req.Method == ite(method == "", "GET", method) && (body != nil ==> req.Body != nil && bodyText(req.Body as io.Reader) == bodyText(body)) && (sized(body) ==> req.ContentLength == bodySize(body)) && (!sized(body) ==> req.ContentLength == 0) && req.Host == req.URL.Host
  emits newrequest(method, target, body, req, err)
extern "net/http.NewRequestWithContext" (ctx, method, target, body) (req, err)
  requires ctx != nil
  allocates req, req.URL, req.Header
  ensures err != nil ==> req == nil
  ensures err == nil ==> req != nil && req.URL != nil && req.Header != nil && parsed(req.URL, target) && req.Method == ite(method == "", "GET", method) && (body != nil ==> req.Body != nil && bodyText(req.Body as io.Reader) == bodyText(body)) && (sized(body) ==> req.ContentLength == bodySize(body)) && (!sized(body) ==> req.ContentLength == 0) && req.Host == req.URL.Host
  emits newrequest(method, target, body, req, err)
extern "(*net/http.Request).Context" (r) (ctx)
  ensures ctx != nil
extern "(net/http.RoundTripper).RoundTrip" (t, req) (resp, err)
  requires t != nil && req != nil && req.URL != nil && req.Header != nil
  allocates resp, resp.Header
  ensures err == nil ==> resp != nil && resp.Body != nil && resp.Header != nil && 0 <= resp.StatusCode && resp.StatusCode <= 999
  ensures err == nil ==> forall k string {canon(k)} :: k in resp.Header ==> canon(k) == k
  emits roundtrip(t, req, resp, err)
extern "io.Copy" (dst, src) (n, err)
  requires dst != nil && src != nil
  emits relayed(dst, src)
extern "(io.Closer).Close" (c) (err)
  emits closed(c)
extern "(net/http.Header).Clone" (h) (r)
  allocates r
  ensures h == nil ==> r == nil
  ensures h != nil ==> r != nil
  ensures forall k string {r[k]} :: (k in r <==> k in h) && len(r[k]) == len(h[k])
  ensures forall k string, i int {r[k][i]} :: k in h && 0 <= i && i < len(h[k]) ==> r[k][i] == h[k][i]
  ensures forall k string, l string {r[k], h[l]} :: k in r && l in h && len(r[k]) > 0 ==> backing(r[k]) != backing(h[l])

// ---- directory walks (bodies in gvc/model_go.go)

event walk(root string)
event visit(root string, path string, f os.FileInfo, err error)
event visited(root string, path string, f os.FileInfo, err error, result error)
extern "gvcmodel.more" () (b)
extern "gvcmodel.walk" (root)
  emits walk(root)
extern "gvcmodel.visit" (root) (path, f, err)
  ensures err == nil ==> f != nil
  emits visit(root, path, f, err)
extern "gvcmodel.visited" (root, path, f, err, result)
  emits visited(root, path, f, err, result)
extern "(io/fs.FileInfo).Name" (f) (r)
  pure
extern "(io/fs.FileInfo).Size" (f) (r)
  pure
extern "(io/fs.FileInfo).IsDir" (f) (r)
  pure
extern "(io/fs.FileInfo).Mode" (f) (r)
  pure
extern "(io/fs.FileInfo).ModTime" (f) (r)
  pure

// ---- escaping (the results count as safe text)
extern "html/template.HTMLEscapeString" (s) (r)
  pure
extern "text/template.HTMLEscapeString" (s) (r)
  pure
extern "html.EscapeString" (s) (r)
  pure
extern "net/url.PathEscape" (s) (r)
  pure
extern "net/url.QueryEscape" (s) (r)
  pure

// ---- the end of the process
event exited(code int)
extern "os.Exit" (code)
  exits
  emits exited(code)

// what the file with a name holds (files do not change while one function under contract runs)
spec func fileText(name string) string = ufs("filetext", name)
extern "html/template.ParseFiles" (names) (t, err)
  ensures err == nil ==> t != nil
extern "html/template.Must" (t, err) (r)
  ensures r == t && err == nil
