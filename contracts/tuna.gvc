package tuna
import http "net/http"
import filepath "path/filepath"
import router "github.com/redmaner/MaguroHTTP/router"
import guard "github.com/redmaner/MaguroHTTP/guard"
import debug "github.com/redmaner/MaguroHTTP/debug"
import io "io"
import tls "crypto/tls"
import template "html/template"
import time "time"
import os "os"
import context "context"
import syscall "syscall"

// ---- content types

spec func mimeOf(p string, types map[string]string) string =
  ite(filepath.Ext(p) == ".aac", "audio/aac",
  ite(filepath.Ext(p) == ".avi", "video/x-msvideo",
  ite(filepath.Ext(p) == ".bmp", "image/bmp",
  ite(filepath.Ext(p) == ".css", "text/css",
  ite(filepath.Ext(p) == ".csv", "text/csv",
  ite(filepath.Ext(p) == ".gif", "image/gif",
  ite(filepath.Ext(p) == ".html" || filepath.Ext(p) == ".htm", "text/html",
  ite(filepath.Ext(p) == ".jpeg" || filepath.Ext(p) == ".jpg", "image/jpeg",
  ite(filepath.Ext(p) == ".js", "text/javascript",
  ite(filepath.Ext(p) == ".json", "text/json",
  ite(filepath.Ext(p) == ".mpeg", "video/mpeg",
  ite(filepath.Ext(p) == ".png", "image/png",
  ite(filepath.Ext(p) == ".pdf", "application/pdf",
  ite(filepath.Ext(p) == ".svg", "image/svg+xml",
  ite(filepath.Ext(p) == ".txt", "text/plain",
  ite(filepath.Ext(p) == ".xhtml", "application/xhtml-xml",
  ite(filepath.Ext(p) == ".xml", "application/xml",
  ite(filepath.Ext(p) == ".zip", "application/zip",
  ite(p in types, types[p], "application/octet-stream")))))))))))))))))))

contract tuna.getMIMEType
  func tuna.getMIMEType(p, cts) results (r)
  tags C14
  modular
  optional
  ensures r == mimeOf(p, cts.ResponseTypes)

// ---- response headers

// The names of configured headers are distinct after canonicalisation: nameOf gives the configured spelling of a header name.
spec func nameOf(h map[string]string, n string) string = ufs("nameof", h, n)
spec func configured(h map[string]string, n string) bool = nameOf(h, n) in h && canon(nameOf(h, n)) == n
// n is a canonical header name
spec func carries(h http.Header, n string, v string) bool = n in h && len(h[n]) == 1 && h[n][0] == v
spec func featurePolicy() string = "geolocation 'none'; midi 'none'; notifications 'none'; push 'none'; sync-xhr 'none'; microphone 'none'; camera 'none'; magnetometer 'none'; gyroscope 'none'; speaker 'none'; vibrate 'none'; fullscreen 'none'; payment 'none';"
spec func isDefault(n string) bool = n == "X-Frame-Options" || n == "X-Content-Type-Options" || n == "X-Xss-Protection" || n == "Referrer-Policy" || n == "Content-Security-Policy" || n == "Feature-Policy" || n == "Server"
spec func hsts(c HSTSConfig) string = sprintf("max-age=%d;", c.MaxAge) + ite(c.IncludeSubdomains, " includeSubdomains;", "") + ite(c.Preload, " preload", "")
spec func distinctNames(h map[string]string) bool = forall k string {canon(k)} :: k in h ==> nameOf(h, canon(k)) == k
spec func strictDefault(n string) string =
  ite(n == "X-Frame-Options", "SAMEORIGIN",
  ite(n == "X-Content-Type-Options", "nosniff",
  ite(n == "X-Xss-Protection", "1; mode=block",
  ite(n == "Referrer-Policy", "no-referrer",
  ite(n == "Content-Security-Policy", "default-src 'self'",
  ite(n == "Feature-Policy", featurePolicy(),
  ite(n == "Server", "MaguroHTTP", "")))))))

contract tuna.setHeaders
  func tuna.(*Server).setHeaders(s, w, h, isProxy)
  tags C13
  safety C27
  modular
  requires s != nil && w != nil && distinctNames(h)
  modifies contents(w.Header()), event(headerset)
  let TLS = s.Cfg.Core.TLS.Enabled
  ensures [C13] every configured header has its configured value: forall k string {h[k]} :: k in h ==> header(w.Header(), k) == h[k]
  ensures [C13] the server's own answers carry the strict defaults: forall n string {w.Header()[n]} :: !isProxy && isDefault(n) && !configured(h, n) ==> carries(w.Header(), n, strictDefault(n))
  ensures [C13] with TLS the lifetime of transport security is announced: TLS && !configured(h, "Strict-Transport-Security") ==> header(w.Header(), "Strict-Transport-Security") == hsts(s.Cfg.Core.TLS.HSTS)
  ensures [C13] other headers stay: forall n string {w.Header()[n]} :: !configured(h, n) && (isProxy || !isDefault(n)) && !(TLS && n == "Strict-Transport-Security") ==> (n in w.Header() <==> n in old(w.Header())) && w.Header()[n] == old(w.Header()[n])
  candidate forall k string {h[k]} :: visited(k) ==> header(w.Header(), k) == h[k]
  candidate forall n string {w.Header()[n]} :: !isProxy && isDefault(n) && !(visited(nameOf(h, n)) && canon(nameOf(h, n)) == n) ==> carries(w.Header(), n, strictDefault(n))
  candidate $k string :: visited($k) && $k in ranged() ==> carries(w.Header(), canon($k), ranged()[$k])
  candidate forall n string {w.Header()[n]} :: isProxy || !isDefault(n) ==> (n in w.Header() <==> n in old(w.Header())) && w.Header()[n] == old(w.Header()[n])
  candidate TLS && !(visited(nameOf(h, "Strict-Transport-Security")) && canon(nameOf(h, "Strict-Transport-Security")) == "Strict-Transport-Security") ==> header(w.Header(), "Strict-Transport-Security") == hsts(s.Cfg.Core.TLS.HSTS)
  candidate forall n string {w.Header()[n]} :: !(visited(nameOf(h, n)) && canon(nameOf(h, n)) == n) && (isProxy || !isDefault(n)) && !(TLS && n == "Strict-Transport-Security") ==> (n in w.Header() <==> n in old(w.Header())) && w.Header()[n] == old(w.Header()[n])
  cover isProxy && TLS
  cover !isProxy && h != nil

// ---- what every request handler relies on

spec func logs(s *Server) bool = s != nil && s.logInterface != nil && s.logInterface.Instance != nil
spec func ready(s *Server) bool = logs(s) && s.Transport != nil && s.templates.error != nil && s.templates.error.Tpl != nil && s.templates.download != nil && s.templates.download.Tpl != nil
spec func ownVhost(s *Server, host string) bool = s.Cfg.Core.VirtualHosting && host in s.Cfg.Core.VirtualHosts
spec func site(s *Server, host string) Config = ite(ownVhost(s, host), s.Vhosts[host], s.Cfg)
// the security headers of an answer of the server itself, conf being the configured headers that apply to it
spec func secured(s *Server, w http.ResponseWriter, conf map[string]string) bool = forall n string {w.Header()[n]} :: isDefault(n) && !configured(conf, n) ==> carries(w.Header(), n, strictDefault(n))
spec func announced(s *Server, w http.ResponseWriter, conf map[string]string) bool = s.Cfg.Core.TLS.Enabled && !configured(conf, "Strict-Transport-Security") ==> header(w.Header(), "Strict-Transport-Security") == hsts(s.Cfg.Core.TLS.HSTS)

event counted(md *metricsData, e int, p string)
event finished(s *Server, code int, r *http.Request)
event handleerror(s *Server, w http.ResponseWriter, r *http.Request, code int)
event rendered(tpl *template.Template, out io.Writer, name string, data any)

extern "(*html/template.Template).ExecuteTemplate" (t, w, name, data) (err)
  requires t != nil && w != nil
  emits rendered(t, w, name, data)

// ---- metrics

guard metricsData.mu
  fields enabled TotalRequests Paths
  content map[int]map[string]int
  content map[string]int
  invariant [C19] tables are not shared: forall k int, l int {self.Paths[k], self.Paths[l]} :: k in self.Paths && l in self.Paths && k != l && self.Paths[k] != nil ==> self.Paths[k] != self.Paths[l]

contract tuna.concat
  func tuna.(*metricsData).concat(md, e, p)
  tags C19 C11
  safety C27
  given c int
  given q string
  let ON = locked(md.enabled)
  ensures [C19] an answered request increases its own count by one: ON ==> unlocked(e in md.Paths && p in md.Paths[e]) && unlocked(md.Paths[e][p]) == ite(locked(e in md.Paths && p in md.Paths[e]), locked(md.Paths[e][p]), 0) + 1
  ensures [C19] it increases the total by one: ON ==> unlocked(md.TotalRequests) == locked(md.TotalRequests) + 1
  ensures [C19] no other count changes: ON && (c != e || q != p) ==> (unlocked(c in md.Paths && q in md.Paths[c]) <==> locked(c in md.Paths && q in md.Paths[c])) && (locked(c in md.Paths && q in md.Paths[c]) ==> unlocked(md.Paths[c][q]) == locked(md.Paths[c][q]))
  ensures [C19] nothing is recorded while metrics are disabled: !ON ==> unlocked(md.TotalRequests) == locked(md.TotalRequests) && (unlocked(c in md.Paths && q in md.Paths[c]) <==> locked(c in md.Paths && q in md.Paths[c])) && (locked(c in md.Paths && q in md.Paths[c]) ==> unlocked(md.Paths[c][q]) == locked(md.Paths[c][q]))
  ensures [C19] metrics stay enabled: unlocked(md.enabled) == locked(md.enabled)
  cover ON
  cover !ON

contract tuna.concat.call
  func tuna.(*metricsData).concat(md, e, p)
  tags C19
  modular
  requires md != nil
  calls counted(md, e, p)

// a decoder fills what it is given with tables of its own
event decoded(v any, err error)
event encoded(v any, text string, err error)
event flushed(s *Server)
extern "(*encoding/json.Decoder).Decode" (d, v) (err)
  havocs v
  private v
  ensures v is *metricsData ==> born((v as *metricsData).Paths) && forall k int {(v as *metricsData).Paths[k]} :: k in (v as *metricsData).Paths ==> born((v as *metricsData).Paths[k])
  ensures v is *metricsData ==> forall k int, l int {(v as *metricsData).Paths[k], (v as *metricsData).Paths[l]} :: k in (v as *metricsData).Paths && l in (v as *metricsData).Paths && k != l && (v as *metricsData).Paths[k] != nil ==> (v as *metricsData).Paths[k] != (v as *metricsData).Paths[l]
  emits decoded(v, err)
extern "encoding/json.Unmarshal" (data, v) (err)
  havocs v
  private v
  ensures v is *metricsData ==> born((v as *metricsData).Paths) && forall k int {(v as *metricsData).Paths[k]} :: k in (v as *metricsData).Paths ==> born((v as *metricsData).Paths[k])
  ensures v is *metricsData ==> forall k int, l int {(v as *metricsData).Paths[k], (v as *metricsData).Paths[l]} :: k in (v as *metricsData).Paths && l in (v as *metricsData).Paths && k != l && (v as *metricsData).Paths[k] != nil ==> (v as *metricsData).Paths[k] != (v as *metricsData).Paths[l]
  emits decoded(v, err)
extern "encoding/json.NewDecoder" (r) (d)
  ensures d != nil
extern "encoding/json.MarshalIndent" (v, prefix, indent) (b, err)
  emits encoded(v, str(b), err)
extern "encoding/json.Marshal" (v) (b, err)
  emits encoded(v, str(b), err)

contract tuna.metricsDaemon
  func tuna.(*Server).metricsDaemon(s)
  tags C19 C11 C28
  safety C27
  requires logs(s)
  let CONF = old(s.Cfg.Core.Metrics)
  let ON = CONF.Enabled && old(s.Cfg.Core.TLS.Enabled)
  ensures [C19] without a saved state metrics are switched as configured: unlocked(s.metrics.enabled) == ON
  ensures [C19] without a saved state no count is made up: unlocked(s.metrics.TotalRequests) == locked(s.metrics.TotalRequests) && (unlocked(s.metrics.Paths) == locked(s.metrics.Paths) || unlocked(len(s.metrics.Paths)) == 0)
  // with a saved state: the counts go on from what the configured file holds
  on [C19] opened assert name == CONF.Out
  // nothing but saving changes it
  on [C28] truncated assert name != CONF.Out
  on [C28] openfile assert name == CONF.Out ==> flag == 0
  on [C28] removed assert name != CONF.Out
  on [C28] filewrite assert name != CONF.Out
  on [C28] renamed assert from != CONF.Out && to != CONF.Out
  given c int
  given q string
  ghost TOTAL int = 0
  ghost KNOWN bool = false
  ghost COUNT int = 0
  on decoded update TOTAL := (v as *metricsData).TotalRequests
  on decoded update KNOWN := c in (v as *metricsData).Paths && q in (v as *metricsData).Paths[c]
  on decoded update COUNT := (v as *metricsData).Paths[c][q]
  on [C19] slept assert ON && calls(decoded) == 1 && arg(decoded, err) == nil
  on [C19] slept assert unlocked(s.metrics.enabled)
  on [C19] slept assert unlocked(s.metrics.TotalRequests) == TOTAL
  on [C19] slept assert (unlocked(c in s.metrics.Paths && q in s.metrics.Paths[c]) <==> KNOWN) && (KNOWN ==> unlocked(s.metrics.Paths[c][q]) == COUNT)
  cover !ON
  cover ON

contract tuna.flushMetrics
  func tuna.(*Server).flushMetrics(s)
  tags C11
  safety C27
  requires logs(s)
  on [C11] encoded assert held(s.metrics.mu)

// At every instant the metrics file is either as it was or holds a complete state: its name is never opened for writing,
// written, truncated or removed, and only a file of its own that was written completely takes its place.
contract tuna.flushMetrics.crash
  func tuna.(*Server).flushMetrics(s)
  tags C28
  requires logs(s)
  let OUT = old(s.Cfg.Core.Metrics.Out)
  // temporary files get names no other file has
  requires !ufb("tempname", OUT)
  ghost TEXT gmap[string]string = ""
  ghost WHOLE gmap[string]bool = false
  ghost SYNC gmap[string]bool = false
  on tempfile update TEXT[f.Name()] := ""
  on tempfile update WHOLE[f.Name()] := err == nil
  on tempfile update SYNC[f.Name()] := false
  on filewrite update TEXT[name] := TEXT[name] + text
  on filewrite update WHOLE[name] := WHOLE[name] && err == nil
  on filewrite update SYNC[name] := false
  on write update TEXT[(out as *os.File).Name()] := ite(out is *os.File, TEXT[(out as *os.File).Name()] + text, TEXT[(out as *os.File).Name()])
  on write update WHOLE[(out as *os.File).Name()] := WHOLE[(out as *os.File).Name()] && (err == nil || !(out is *os.File))
  on write update SYNC[(out as *os.File).Name()] := SYNC[(out as *os.File).Name()] && !(out is *os.File)
  on synced update SYNC[name] := err == nil
  on [C28] truncated assert name != OUT
  on [C28] openfile assert name == OUT ==> flag == 0
  on [C28] removed assert name != OUT
  on [C28] filewrite assert name != OUT
  on [C28] write assert out is *os.File ==> (out as *os.File).Name() != OUT
  on [C28] renamed assert from != OUT
  on [C28] renamed assert to == OUT ==> calls(encoded) == 1 && arg(encoded, err) == nil && arg(encoded, v) is *metricsData && arg(encoded, v) as *metricsData == address(s.metrics)
  on [C28] renamed assert to == OUT ==> TEXT[from] == arg(encoded, text) && WHOLE[from]
  on [C28] renamed assert to == OUT ==> SYNC[from]
  on [C28] renamed assert to == OUT ==> ufb("tempname", from)
  cover calls(renamed) == 1
  cover calls(renamed) == 0

contract tuna.flushMetrics.call
  func tuna.(*Server).flushMetrics(s)
  tags C11 C28
  modular
  requires logs(s)
  modifies event(encoded), event(tempfile), event(filewrite), event(write), event(synced), event(closed), event(renamed), event(removed), event(openfile), event(truncated), event(opened), event(statted)
  calls flushed(s)

contract tuna.LogNetwork
  func tuna.(*Server).LogNetwork(s, statusCode, r)
  tags C19 C26
  safety C27
  requires ready(s) && r != nil && r.URL != nil
  ensures [C19] the request is counted once under its status and its host and path: calls(counted) == 1 && arg(counted, md) == address(s.metrics) && arg(counted, e) == statusCode && arg(counted, p) == old(hostOf(r.Host) + r.URL.Path)

contract tuna.LogNetwork.call
  func tuna.(*Server).LogNetwork(s, statusCode, r)
  tags C19
  modular
  requires ready(s) && r != nil && r.URL != nil
  modifies event(counted)
  calls finished(s, statusCode, r)

// ---- error answers

contract tuna.HandleError
  func tuna.(*Server).HandleError(s, w, r, errorCode)
  tags C18 C13 C17 C19
  safety C27
  requires ready(s) && w != nil && r != nil && r.URL != nil
  requires 100 <= errorCode && errorCode <= 999
  let H = hostOf(old(r.Host))
  let PAGES = old(site(s, H).Errors)
  let CUSTOM = old(itoa(errorCode) in PAGES)
  let READ = CUSTOM && arg(readfile, err) == nil
  ensures [C18] the status of the error is sent exactly once: calls(status) == 1 && arg(status, w) == w && arg(status, code) == errorCode
  on [C18] status assert calls(write) == 0 && calls(rendered) == 0
  ensures [C17 C18] the custom page configured for the code is looked up: CUSTOM ==> calls(readfile) == 1 && arg(readfile, name) == old(PAGES[itoa(errorCode)])
  ensures [C18] a custom page that exists is the body: READ ==> calls(write) == 1 && arg(write, out) == w as io.Writer && arg(write, text) == arg(readfile, text) && calls(rendered) == 0
  ensures [C18] otherwise the built-in page is the body: !READ ==> calls(write) == 0 && calls(rendered) == 1 && arg(rendered, out) == w as io.Writer && arg(rendered, tpl) == old(s.templates.error.Tpl)
  ensures [C17 C18] no page is read when none is configured: !CUSTOM ==> calls(readfile) == 0
  on [C13] status assert forall n string {w.Header()[n]} :: isDefault(n) ==> carries(w.Header(), n, strictDefault(n))
  on [C13] status assert s.Cfg.Core.TLS.Enabled ==> header(w.Header(), "Strict-Transport-Security") == hsts(s.Cfg.Core.TLS.HSTS)
  ensures [C19] the request is counted once with the status of the error: calls(finished) == 1 && arg(finished, code) == errorCode && arg(finished, r) == r && arg(finished, s) == s
  ensures [C18] nothing else answers: calls(servefile) == 0 && calls(serve) == 0 && calls(callhandler) == 0 && calls(refuse) == 0
  cover READ
  cover CUSTOM && !READ
  cover !CUSTOM

contract tuna.HandleError.call
  func tuna.(*Server).HandleError(s, w, r, errorCode)
  tags C18
  modular
  requires ready(s) && w != nil && r != nil && r.URL != nil
  requires [C27] 100 <= errorCode && errorCode <= 999
  modifies contents(w.Header()), event(headerset), event(write), event(collected), event(readfile), event(rendered), event(counted)
  emits status(w, errorCode)
  emits finished(s, errorCode, r)
  calls handleerror(s, w, r, errorCode)

// ---- static files

contract tuna.handleServe
  func tuna.(*Server).handleServe(s) then (w, r)
  tags C12 C13 C14 C17 C19
  safety C27
  requires ready(s) && w != nil && r != nil && r.URL != nil && contained(r.URL.Path)
  let H = hostOf(old(r.Host))
  let DIR = old(site(s, H).Serve.ServeDir)
  let INDEX = old(site(s, H).Serve.ServeIndex)
  let CONF = old(site(s, H).Serve.Headers)
  let TYPES = old(site(s, H).Serve.MIMETypes.ResponseTypes)
  let P = old(r.URL.Path)
  let FILE = ite(hasSuffix(P, "/"), P + INDEX, P)
  requires distinctNames(CONF)
  on [C12 C17] servefile assert name == DIR + FILE
  on [C12] servefile assert calls(statted) >= 1 && arg(statted, name) == name && arg(statted, err) == nil
  on [C12] servefile assert rw == w && req == r
  on [C14 C17] servefile assert header(w.Header(), "Content-Type") == mimeOf(FILE, TYPES)
  on [C13 C17] servefile assert secured(s, w, CONF) && announced(s, w, CONF)
  on [C13 C17] servefile assert forall k string {CONF[k]} :: k in CONF && canon(k) != "Content-Type" ==> header(w.Header(), k) == CONF[k]
  ensures [C12] the file is served or an error answered: calls(servefile) + calls(handleerror) == 1
  ensures [C12] otherwise the answer is 404: calls(servefile) == 0 ==> calls(handleerror) == 1 && arg(handleerror, code) == 404 && arg(handleerror, w) == w && arg(handleerror, r) == r && arg(statted, err) != nil && arg(statted, name) == DIR + FILE
  ensures [C12] nothing else is sent: calls(servefile) == 1 ==> calls(status) == 0 && calls(write) == 0 && calls(rendered) == 0
  ensures [C19] the request is counted once: calls(finished) == 1 && arg(finished, r) == r && arg(finished, code) == ite(calls(servefile) == 1, 200, 404)
  cover calls(servefile) == 1
  cover calls(handleerror) == 1

// ---- downloads

contract tuna.handleDownload
  func tuna.(*Server).handleDownload(s) then (w, r)
  tags C12 C13 C14 C17 C19 C20
  safety C27
  requires ready(s) && w != nil && r != nil && r.URL != nil && contained(r.URL.Path)
  let H = hostOf(old(r.Host))
  let DIR = old(site(s, H).Serve.ServeDir)
  let INDEX = old(site(s, H).Serve.ServeIndex)
  let CONF = old(site(s, H).Serve.Headers)
  let TYPES = old(site(s, H).Serve.MIMETypes.ResponseTypes)
  let ON = old(site(s, H).Serve.Download.Enabled)
  let P = old(r.URL.Path)
  let LIST = P == "/" || P == INDEX
  requires distinctNames(CONF)
  on [C12 C17] servefile assert !LIST && name == DIR + P
  on [C12] servefile assert calls(statted) >= 1 && arg(statted, name) == name && arg(statted, err) == nil
  on [C12] servefile assert rw == w && req == r
  on [C14 C17] servefile assert header(w.Header(), "Content-Type") == ite(configured(CONF, "Content-Type"), CONF[nameOf(CONF, "Content-Type")], mimeOf(P, TYPES))
  on [C13 C17] servefile assert secured(s, w, CONF) && announced(s, w, CONF)
  on [C13 C17] servefile assert forall k string {CONF[k]} :: k in CONF ==> header(w.Header(), k) == CONF[k]
  on [C13 C17] rendered assert secured(s, w, CONF) && announced(s, w, CONF)
  on [C13 C17] rendered assert forall k string {CONF[k]} :: k in CONF ==> header(w.Header(), k) == CONF[k]
  on [C20] rendered assert safeData(data)
  on [C20] rendered assert LIST && out == w as io.Writer && tpl == s.templates.download.Tpl
  on [C17 C25] walk assert root == DIR && ON
  ensures [C25] nothing is listed while downloads are disabled: !ON ==> calls(walk) == 0 && calls(visit) == 0
  ensures [C12] a file is served or a list shown or an error answered: calls(handleerror) == 0 ==> ite(LIST, calls(rendered) == 1 && calls(servefile) == 0, calls(rendered) == 0 && calls(servefile) == 1)
  ensures [C12] a missing file is answered with 404: !LIST && calls(servefile) == 0 ==> calls(handleerror) == 1 && (arg(handleerror, code) == 404 || calls(walk) >= 1 && arg(handleerror, code) == 500)
  ensures [C12] nothing else is sent: calls(handleerror) <= 1 && (calls(handleerror) == 0 ==> calls(write) == 0 && calls(status) == 0)
  ensures [C19] the request is counted once: calls(finished) == 1 && arg(finished, r) == r && arg(finished, code) == ite(calls(handleerror) == 1, arg(handleerror, code), 200)
  cover calls(servefile) == 1
  cover calls(rendered) == 1
  cover calls(handleerror) == 1

// the row of the download list that shows a file
spec func rowOf(name string, size int64, mod time.Time) string = sprint("<tr><td height=\"auto\" width=\"200px\"><span><a href=\"/", template.HTMLEscapeString(name), "\">", template.HTMLEscapeString(name), "</a><br></span><td height=\"auto\" width=\"120px\"><span >", size, "</b></span></td><td height=\"auto\" width=\"auto\"><span>", mod, "</b></span></td></tr>")

contract tuna.handleDownload.list
  func tuna.(*Server).handleDownload(s) then (w, r)
  tags C25
  safety C27
  // any row; the fixed parts of the page are not rows
  given row string
  requires row != "<h1>Downloads</h1>" && hasPrefix(row, "<tr><td height=\"auto\" width=\"200px\"><span><a href=")
  requires ready(s) && w != nil && r != nil && r.URL != nil && contained(r.URL.Path)
  let H = hostOf(old(r.Host))
  let EXTS = old(site(s, H).Serve.Download.Exts)
  let ON = old(site(s, H).Serve.Download.Enabled)
  requires distinctNames(old(site(s, H).Serve.Headers))
  // files found, the tally of those shown by this row, and its value after each file
  ghost FOUND int = 0
  ghost WANT int = 0
  ghost AT gmap[int]int = 0
  ghost GOT int = 0
  let HIT = f != nil && !f.IsDir() && 0 < calls(walk) && calls(walk) <= len(EXTS) && filepath.Ext(f.Name()) == EXTS[calls(walk) - 1]
  on visit update WANT := ite(HIT && rowOf(f.Name(), f.Size(), f.ModTime()) == row, WANT + 1, WANT)
  on visit update FOUND := ite(HIT, FOUND + 1, FOUND)
  on visit update AT[FOUND] := WANT
  on [C25] visited assert result == nil || err != nil
  on collected update GOT := ite(text == row, GOT + 1, GOT)
  on [C25] rendered assert ON ==> calls(walk) == len(EXTS)
  on [C25] rendered assert ON ==> GOT == WANT
  on [C25] rendered assert !ON ==> GOT == 0
  candidate $i int :: calls(walk) == $i + 1
  candidate $s []fileInfo :: len($s) == FOUND
  candidate AT[FOUND] == WANT && AT[0] == 0
  candidate $s []fileInfo :: forall k int {$s[k]} {AT[k + 1]} :: 0 <= k && k < len($s) ==> AT[k + 1] == ite(rowOf($s[k].Name, $s[k].Size, $s[k].ModTime) == row, AT[k] + 1, AT[k])
  candidate GOT == 0
  candidate $i int :: GOT == AT[$i + 1]
  candidate $i int :: GOT == AT[$i]
  cover GOT == 1

// ---- reverse proxy

// the header map c has the values of h, in order
spec func sameHeaders(c http.Header, h http.Header) bool = (forall k string {c[k]} {h[k]} :: (k in c <==> k in h) && len(c[k]) == len(h[k])) && (forall k string, i int {c[k][i]} :: k in h && 0 <= i && i < len(h[k]) ==> c[k][i] == h[k][i])
spec func separate(c http.Header, h http.Header) bool = c != h && (forall k string, l string {c[k], h[l]} :: k in c && l in h && len(c[k]) > 0 ==> backing(c[k]) != backing(h[l]))

contract tuna.cloneHeader
  func tuna.cloneHeader(h) results (h2)
  tags C15 C16
  safety C27
  modular
  optional
  allocates h2
  ensures [C15 C16] the copy has every header value in order: sameHeaders(h2, h)
  ensures [C16] the copy shares no storage with the original: h2 != nil && separate(h2, h)
  candidate $c http.Header :: forall k string {$c[k]} {h[k]} :: (k in $c <==> visited(k)) && (visited(k) ==> len($c[k]) == len(h[k]) && fresh($c[k]) && allocated($c[k]))
  candidate $c http.Header :: forall k string, i int {$c[k][i]} :: visited(k) && 0 <= i && i < len(h[k]) ==> $c[k][i] == h[k][i]

contract tuna.copyHeader
  func tuna.copyHeader(dst, src)
  tags C16
  safety C27
  modular
  optional
  requires dst != nil && dst != src
  requires forall k string {canon(k)} :: k in src ==> canon(k) == k
  modifies contents(dst), event(headeradd)
  ensures [C16] every value is added and none dropped: forall k string {dst[k]} :: len(dst[k]) == old(len(dst[k])) + ite(k in src, len(src[k]), 0) && (k in dst <==> old(k in dst) || k in src && len(src[k]) > 0)
  ensures [C16] values that were there stay: forall k string, i int {dst[k][i]} :: 0 <= i && i < old(len(dst[k])) ==> dst[k][i] == old(dst[k][i])
  ensures [C16] values are added in order: forall k string, i int {dst[k][i]} :: k in src && old(len(dst[k])) <= i && i < len(dst[k]) ==> dst[k][i] == src[k][i - old(len(dst[k]))]
  candidate forall k string {dst[k]} :: !visited(k) ==> (k in dst <==> old(k in dst)) && dst[k] == old(dst[k])
  candidate forall k string {dst[k]} :: visited(k) ==> len(dst[k]) == old(len(dst[k])) + len(src[k]) && (k in dst <==> old(k in dst) || len(src[k]) > 0)
  candidate forall k string, i int {dst[k][i]} :: visited(k) && 0 <= i && i < old(len(dst[k])) ==> dst[k][i] == old(dst[k][i])
  candidate forall k string, i int {dst[k][i]} :: visited(k) && old(len(dst[k])) <= i && i < len(dst[k]) ==> dst[k][i] == src[k][i - old(len(dst[k]))]
  candidate $k string :: forall k string {dst[k]} :: visited(k) && k != $k ==> len(dst[k]) == old(len(dst[k])) + len(src[k]) && (k in dst <==> old(k in dst) || len(src[k]) > 0)
  candidate $k string :: forall k string, i int {dst[k][i]} :: visited(k) && k != $k && old(len(dst[k])) <= i && i < len(dst[k]) ==> dst[k][i] == src[k][i - old(len(dst[k]))]
  candidate $k string, $i int :: len(dst[$k]) == old(len(dst[$k])) + $i + 1 && ($k in dst <==> old($k in dst) || $i >= 0)
  candidate $k string, $i int :: len(dst[$k]) == old(len(dst[$k])) + $i && ($k in dst <==> old($k in dst) || $i > 0)
  candidate $k string, $i int :: $i <= len(src[$k])
  candidate $k string :: forall i int {dst[$k][i]} :: old(len(dst[$k])) <= i && i < len(dst[$k]) ==> dst[$k][i] == src[$k][i - old(len(dst[$k]))]

contract tuna.handleProxy
  func tuna.(*Server).handleProxy(s) then (w, r)
  tags C15 C16 C17 C13 C19
  safety C27
  requires ready(s) && w != nil && r != nil && r.URL != nil && r.Body != nil
  // the header maps of the request and of the response are not the same
  requires w.Header() != r.Header
  requires r.URL.RawPath == "" || hasPrefix(r.URL.RawPath, "/")
  requires hasPrefix(r.URL.Path, "/")
  let H = hostOf(old(r.Host))
  let RULES = old(site(s, H).Proxy.Rules)
  let CONF = old(site(s, H).Proxy.Headers)
  let RULE = old(RULES[H])
  let RULED = old(H in RULES)
  let TARGET = ite(hasPrefix(old(r.RequestURI), "/"), old(r.RequestURI), requestTarget(old(r.URL.Path), old(r.URL.RawPath), old(r.URL.RawQuery)))
  let DONE = calls(roundtrip) == 1 && arg(roundtrip, err) == nil && arg(roundtrip, resp).StatusCode >= 100
  requires distinctNames(CONF)
  on [C15 C17] roundtrip assert RULED && parsed(req.URL, RULE + TARGET) && hasPrefix(TARGET, "/")
  on [C15] roundtrip assert t == s.Transport
  on [C15] roundtrip assert req.Method == ite(old(r.Method) == "", "GET", old(r.Method))
  on [C15] roundtrip assert req.Body != nil && bodyText(req.Body as io.Reader) == bodyText(old(r.Body) as io.Reader)
  on [C15] roundtrip assert req.ContentLength <= 0 || req.ContentLength == bodySize(old(r.Body) as io.Reader) || req.ContentLength == old(r.ContentLength)
  on [C15] roundtrip assert req.Host == H
  on [C15 C16] roundtrip assert sameHeaders(req.Header, r.Header)
  on [C16] roundtrip assert separate(req.Header, r.Header)
  // a body that was read is not sent again
  requires !sized(r.Body as io.Reader)
  on [C15] newrequest assert calls(readall) == 0 || body != old(r.Body) as io.Reader
  ensures [C15] a request without a rule is answered 502: !RULED ==> calls(handleerror) == 1 && arg(handleerror, code) == 502 && calls(roundtrip) == 0
  ensures [C15] the request is sent at most once: calls(roundtrip) <= 1
  ensures [C15] every request with a rule is sent once unless it cannot be built: RULED ==> calls(roundtrip) == 1 || calls(newrequest) == 1 && arg(newrequest, err) != nil || calls(readall) == 1 && arg(readall, err) != nil
  ensures [C15] a request that is not answered by the upstream gets a 502: !DONE ==> calls(handleerror) == 1 && arg(handleerror, code) == 502 && arg(handleerror, w) == w && arg(handleerror, r) == r && calls(relayed) == 0
  ensures [C16] an answer is relayed once: DONE ==> calls(handleerror) == 0 && calls(status) == 1 && arg(status, w) == w && arg(status, code) == arg(roundtrip, resp).StatusCode
  ensures [C16] its body is relayed once and closed: DONE ==> calls(relayed) == 1 && arg(relayed, dst) == w as io.Writer && arg(relayed, src) == arg(roundtrip, resp).Body as io.Reader && calls(closed) >= 1 && arg(closed, c) == arg(roundtrip, resp).Body as io.Closer
  on [C16] relayed assert calls(status) == 1 && calls(closed) == 0
  on [C16] status assert DONE ==> forall n string {w.Header()[n]} :: n in arg(roundtrip, resp).Header && !configured(CONF, n) && n != "Strict-Transport-Security" ==> len(w.Header()[n]) == old(len(w.Header()[n])) + len(arg(roundtrip, resp).Header[n])
  on [C16] status assert DONE ==> forall n string, i int {w.Header()[n][i]} :: n in arg(roundtrip, resp).Header && !configured(CONF, n) && n != "Strict-Transport-Security" && old(len(w.Header()[n])) <= i && i < len(w.Header()[n]) ==> w.Header()[n][i] == arg(roundtrip, resp).Header[n][i - old(len(w.Header()[n]))]
  on [C16 C13] status assert DONE ==> forall k string {CONF[k]} :: k in CONF ==> header(w.Header(), k) == CONF[k]
  on [C13] status assert DONE ==> announced(s, w, CONF)
  ensures [C16] nothing else is sent: DONE ==> calls(write) == 0 && calls(rendered) == 0 && calls(servefile) == 0
  ensures [C19] the request is counted once with the status that was sent: calls(finished) == 1 && arg(finished, r) == r && arg(finished, code) == ite(DONE, arg(roundtrip, resp).StatusCode, 502)
  ensures [C16] the headers of the request stay: forall k string {r.Header[k]} :: (k in r.Header <==> old(k in r.Header)) && len(r.Header[k]) == old(len(r.Header[k]))
  cover DONE
  cover !RULED
  cover calls(roundtrip) == 1 && !DONE

// ---- configuration

spec func tlsOK(c CoreConfig) bool = c.TLS.Enabled ==> ite(c.TLS.AutoCert.Enabled, len(c.TLS.AutoCert.Certificates) > 0 && c.Port == "443", c.TLS.TLSCert != "" && c.TLS.TLSKey != "")
spec func coreOK(c CoreConfig) bool = c.Port != "" && c.LogOut != "" && c.LogLevel >= 0 && c.FileDir != "" && c.FileDir != "/" && tlsOK(c)
spec func vhostsOK(c CoreConfig) bool = len(c.VirtualHosts) > 0 && forall k string {c.VirtualHosts[k]} :: k in c.VirtualHosts ==> c.VirtualHosts[k] != ""
spec func siteOK(p proxyConfig, v serveConfig) bool = ite(p.Enabled, len(p.Rules) > 0, ite(v.Download.Enabled, v.ServeDir != "" && v.ServeIndex != "", len(v.Methods) > 0 ==> v.ServeDir != ""))
spec func accepted(c CoreConfig, p proxyConfig, v serveConfig, isVhost bool) bool = ite(isVhost, !c.VirtualHosting && siteOK(p, v), coreOK(c) && ite(c.VirtualHosting, vhostsOK(c), siteOK(p, v)))
spec func configOK(c *Config, isVhost bool) bool = accepted(c.Core, c.Proxy, c.Serve, isVhost)
spec func slashed(d string) string = ite(hasSuffix(d, "/"), d, d + "/")

contract tuna.Validate
  func tuna.(*Config).Validate(c, p, isVhost)
  tags C21
  safety C27
  modular
  requires c != nil
  modifies c.Core.FileDir, c.Serve.ServeDir
  aborts [C21] !configOK(c, isVhost)
  ensures [C21] what is accepted meets every requirement: old(configOK(c, isVhost)) && configOK(c, isVhost)
  ensures [C21] the file directory ends with a slash: c.Core.FileDir == ite(isVhost, old(c.Core.FileDir), slashed(old(c.Core.FileDir)))
  ensures [C21] the download directory ends with a slash: c.Serve.ServeDir == ite(!(c.Core.VirtualHosting && !isVhost) && !c.Proxy.Enabled && c.Serve.Download.Enabled, slashed(old(c.Serve.ServeDir)), old(c.Serve.ServeDir))
  candidate forall k string {c.Core.VirtualHosts[k]} :: visited(k) ==> c.Core.VirtualHosts[k] != ""
  cover isVhost
  cover !isVhost && c.Core.VirtualHosting
  cover !isVhost && c.Serve.Download.Enabled

// ---- transport security

// cipher suites with ephemeral key exchange and authenticated encryption
spec func strong(c uint16) bool = c == 4865 || c == 4866 || c == 4867 || c == 49195 || c == 49196 || c == 49199 || c == 49200 || c == 52392 || c == 52393
spec func strict(t *tls.Config) bool = t.MinVersion >= 771 && (t.MaxVersion == 0 || t.MaxVersion >= t.MinVersion) && len(t.CipherSuites) > 0 && (forall i int {t.CipherSuites[i]} :: 0 <= i && i < len(t.CipherSuites) ==> strong(t.CipherSuites[i])) && t.GetConfigForClient == nil
spec func offers(t *tls.Config, p string) bool = len(t.NextProtos) > 0 && t.NextProtos[0] == p || len(t.NextProtos) > 1 && t.NextProtos[1] == p || len(t.NextProtos) > 2 && t.NextProtos[2] == p || len(t.NextProtos) > 3 && t.NextProtos[3] == p || exists i int {t.NextProtos[i]} :: 0 <= i && i < len(t.NextProtos) && t.NextProtos[i] == p

extern "crypto/x509.SystemCertPool" () (p, err)
  allocates p
extern "crypto/x509.NewCertPool" () (p)
  allocates p
  ensures p != nil
extern "(*crypto/x509.CertPool).AppendCertsFromPEM" (p, b) (ok)

contract tuna.httpCreateTLSConfig
  func tuna.(*Server).httpCreateTLSConfig(s) results (t)
  tags C24
  requires s != nil && s.logInterface != nil && s.logInterface.Instance != nil
  ensures [C24] modern versions and strong suites only: t != nil && strict(t)
  ensures [C24] with automatic certificates the challenge protocol is offered: s.Cfg.Core.TLS.AutoCert.Enabled ==> offers(t, "acme-tls/1")
  cover s.Cfg.Core.TLS.AutoCert.Enabled
  cover len(s.Cfg.Core.TLS.PrivateCA) > 0

event listentls(srv *http.Server, err error)
event listen(srv *http.Server, err error)
extern "(*net/http.Server).ListenAndServeTLS" (srv, cert, key) (err)
  requires srv != nil
  ensures err != nil
  emits listentls(srv, err)
extern "(*net/http.Server).ListenAndServe" (srv) (err)
  requires srv != nil
  ensures err != nil
  emits listen(srv, err)

contract tuna.Serve
  func tuna.(*Server).Serve(s)
  tags C24
  safety START
  requires ready(s)
  on [C24] listentls assert srv.TLSConfig != nil && strict(srv.TLSConfig)
  on [C24] listentls assert s.Cfg.Core.TLS.AutoCert.Enabled ==> offers(srv.TLSConfig, "acme-tls/1")

// ---- the end of the process

// A closed listener is no reason to end the process: that is left to the goroutine that waits for a signal.
event notify(sig []os.Signal)
event timeout(ctx context.Context, d int, r context.Context)
event cancelled(f context.CancelFunc)
event shutdown(srv *http.Server, ctx context.Context, err error)
event shut(srv *http.Server)
event received()
event spawned()
extern "os/signal.Notify" (c, sig)
  emits notify(sig)
extern "context.Background" () (ctx)
  ensures ctx != nil
extern "context.WithTimeout" (ctx, d) (r, cancel)
  ensures r != nil && cancel != nil
  emits timeout(ctx, d, r)
extern "call context.CancelFunc" (f)
  emits cancelled(f)
extern "(*net/http.Server).Shutdown" (srv, ctx) (err)
  requires srv != nil
  emits shutdown(srv, ctx, err)
extern "(*net/http.Server).Close" (srv) (err)
  requires srv != nil
  emits shut(srv)
extern "(*net/http.Server).SetKeepAlivesEnabled" (srv, on)
  requires srv != nil

contract tuna.Serve.stop
  func tuna.(*Server).Serve(s)
  tags C29 C28
  requires ready(s)
  let CLOSED = calls(listen) >= 1 && arg(listen, err) == http.ErrServerClosed || calls(listentls) >= 1 && arg(listentls, err) == http.ErrServerClosed
  ends [C29] !CLOSED
  on [C29] listen assert calls(spawned) >= 1 && srv.Handler == box(s.Router) as http.Handler
  on [C29] listentls assert calls(spawned) >= 1 && srv.Handler == box(s.Router) as http.Handler
  ensures [C29] serving does not end while requests run: !CLOSED
  ensures [C29] running requests are not cut: calls(shut) == 0 && calls(shutdown) == 0
  on [C28] truncated assert name != s.Cfg.Core.Metrics.Out
  on [C28] openfile assert name == s.Cfg.Core.Metrics.Out ==> flag == 0
  on [C28] removed assert name != s.Cfg.Core.Metrics.Out
  on [C28] filewrite assert name != s.Cfg.Core.Metrics.Out
  on [C28] renamed assert from != s.Cfg.Core.Metrics.Out && to != s.Cfg.Core.Metrics.Out
  cover calls(listen) == 1
  cover calls(listentls) == 1

spec func stops(x os.Signal, n int) bool = x is syscall.Signal && x as syscall.Signal == n
spec func watched(sig []os.Signal, n int) bool = len(sig) == 0 || stops(sig[0], n) || len(sig) > 1 && stops(sig[1], n) || len(sig) > 2 && stops(sig[2], n) || len(sig) > 3 && stops(sig[3], n)

contract tuna.Serve.signal
  func tuna.(*Server).Serve(s) then () via go
  tags C29 C28
  safety C29
  // the router of the server is never replaced
  given rt *router.SRouter
  requires ready(s) && s.Router == rt
  on [C29] received assert calls(notify) == 1 && calls(received) == 0
  on [C29] notify assert watched(sig, 2) && watched(sig, 15)
  on [C29] shutdown assert calls(received) == 1 && srv.Handler == box(s.Router) as http.Handler
  on [C29] shutdown assert calls(timeout) == 1 && ctx == arg(timeout, r) && arg(timeout, d) == 30000000000 && calls(cancelled) == 0
  on [C29] exited assert calls(received) == 1 && calls(shutdown) == 1 && calls(shut) == 0
  on [C29] exited assert s.Cfg.Core.Metrics.Enabled ==> calls(flushed) >= 1
  ensures [C29] after a signal the process ends: calls(received) == 0
  ensures [C29] running requests are not cut: calls(shut) == 0
  candidate calls(received) == 0
  on [C28] truncated assert name != s.Cfg.Core.Metrics.Out
  on [C28] openfile assert name == s.Cfg.Core.Metrics.Out ==> flag == 0
  on [C28] removed assert name != s.Cfg.Core.Metrics.Out
  on [C28] filewrite assert name != s.Cfg.Core.Metrics.Out
  on [C28] renamed assert from != s.Cfg.Core.Metrics.Out && to != s.Cfg.Core.Metrics.Out
  cover calls(notify) == 1

// ---- metrics page

contract tuna.handleMetrics
  func tuna.(*Server).handleMetrics(s) then (w, r)
  tags C20 C13 C19 C11
  safety C27
  requires ready(s) && w != nil && r != nil && r.URL != nil
  on [C20] write assert safeText(text)
  on [C13] write assert out == w as io.Writer
  on [C13] write assert forall n string {w.Header()[n]} :: isDefault(n) && n != "Content-Security-Policy" ==> carries(w.Header(), n, strictDefault(n))
  on [C13] write assert s.Cfg.Core.TLS.Enabled ==> header(w.Header(), "Strict-Transport-Security") == hsts(s.Cfg.Core.TLS.HSTS)
  ensures [C20] the page is all that is sent: calls(rendered) == 0 && calls(servefile) == 0 && calls(handleerror) == 0
  ensures [C19] the request is counted once: calls(finished) == 1 && arg(finished, r) == r && arg(finished, code) == 200 && arg(finished, s) == s
  cover calls(write) >= 1

// ---- routes of a configuration

spec func owns(c Config, v string, host string) bool = ite(c.Proxy.Enabled, host in c.Proxy.Rules, host == v)
spec func sameWall(f *guard.Firewall, g firewallConfig) bool = f.Blacklisting == g.Blacklisting && f.Subpath == g.Subpath && f.Rules == g.Rules
spec func sameLimit(l *guard.Limiter, g guardConfig) bool = l.RatePerSec == g.Rate / 60 && l.RateBurst == g.RateBurst && l.FilterOnIP == g.FilterOnIP
// a limiter, the firewall before it if there is one, and its kind are those of the configuration c
spec func guards(c Config, l *guard.Limiter, f *guard.Firewall, perHost bool) bool = sameLimit(l, c.Guard) && ite(c.Guard.Firewall.Enabled, f != nil && sameWall(f, c.Guard.Firewall) && (perHost <==> c.Proxy.Enabled), f == nil)
spec func guardsSite(s *Server, host string, l *guard.Limiter, f *guard.Firewall, perHost bool) bool = ite(s.Cfg.Core.VirtualHosting, exists v string {s.Vhosts[v]} :: v in s.Cfg.Core.VirtualHosts && owns(s.Vhosts[v], v, host) && guards(s.Vhosts[v], l, f, perHost), owns(s.Cfg, "DEFAULT", host) && guards(s.Cfg, l, f, perHost))

event metricshandler(h http.HandlerFunc)
contract tuna.handleMetrics.call
  func tuna.(*Server).handleMetrics(s) results (h)
  tags C22
  modular
  ensures h != nil
  calls metricshandler(h)

contract tuna.addRoutesFromConfig
  func tuna.(*Server).addRoutesFromConfig(s)
  tags C22
  safety START
  given g string
  given q string
  // the route waiting for its guards
  ghost PEND bool = false
  ghost PHOST string = ""
  ghost PPATH string = ""
  ghost PMET bool = false
  ghost WALL *guard.Firewall = nil
  ghost PERHOST bool = false
  // the guards of the last route of host g and path q
  ghost GLIM *guard.Limiter = nil
  ghost GWALL *guard.Firewall = nil
  ghost GPER bool = false
  requires logs(s) && s.Router != nil
  let MET = calls(metricshandler) >= 1 && handler == box(arg(metricshandler, h)) as http.Handler
  let FW1 = recv(mw, "guard.(*Firewall).BlockHTTP")
  let FW2 = recv(mw, "guard.(*Firewall).BlockProxy")
  let LIM = recv(mw, "guard.(*Limiter).LimitHTTP")
  let AUTH = recv(mw, "guard.(BasicAuth).Authenticate")
  on [C22] addroute assert sr == s.Router
  on [C22] addroute assert !PEND || host == PHOST && path == PPATH && !PMET && !MET
  on [C22] addroute assert MET ==> s.Cfg.Core.Metrics.Enabled && host == "DEFAULT" && path == s.Cfg.Core.Metrics.Path
  on addroute update PEND := true
  on addroute update PHOST := host
  on addroute update PPATH := path
  on addroute update PMET := MET
  on addroute update WALL := nil
  on [C22] usemw assert sr == s.Router
  on [C22] usemw assert PEND ==> host == PHOST && path == PPATH
  on [C22] usemw assert PEND && PMET ==> AUTH.Realm != "" && AUTH.AuthFunc == nil && forall u string {AUTH.Users[u]} :: (u in AUTH.Users <==> u in s.Cfg.Core.Metrics.Users) && (u in AUTH.Users ==> AUTH.Users[u].Password == s.Cfg.Core.Metrics.Users[u])
  on [C22] usemw assert PEND && !PMET ==> LIM != nil || WALL == nil && (FW1 != nil || FW2 != nil)
  on [C22] usemw assert PEND && LIM != nil ==> guardsSite(s, host, LIM, WALL, PERHOST)
  on usemw update GLIM := ite(PEND && host == g && path == q && LIM != nil, LIM, GLIM)
  on usemw update GWALL := ite(PEND && host == g && path == q && LIM != nil, WALL, GWALL)
  on usemw update GPER := ite(PEND && host == g && path == q && LIM != nil, PERHOST, GPER)
  on usemw update PERHOST := FW2 != nil
  on usemw update WALL := ite(FW1 != nil, FW1, FW2)
  on usemw update PEND := PEND && LIM == nil && AUTH.Realm == ""
  ensures [C22] every route has its guards: !PEND
  ensures [C22] the guards of a route keep its own site's settings: GLIM != nil ==> guardsSite(s, g, GLIM, GWALL, GPER)
  candidate !PEND
  candidate $h string :: PEND ==> PHOST == $h
  candidate $p string :: PEND ==> PPATH == $p
  candidate PEND ==> PPATH == "/"
  candidate PEND ==> PHOST == "DEFAULT"
  candidate !PMET
  candidate WALL == nil
  candidate PEND ==> WALL == nil
  candidate allocated(GLIM) && allocated(GWALL)
  candidate GLIM != nil ==> guardsSite(s, g, GLIM, GWALL, GPER)

// ---- from configuration files to a server

// what a table read from the text t holds
spec func tableFrom(m map[string]string, what string, t string) bool = forall h string {m[h]} :: (h in m <==> ufb("hcl.in", what, t, h)) && (h in m ==> m[h] == ufs("hcl.value", what, t, h))
// the settings of a site that was read from the text t
spec func switches(p proxyConfig, v serveConfig, g guardConfig, t string) bool = v.ServeIndex == ufs("hcl.index", t) && (v.Download.Enabled <==> ufb("hcl.download", t)) && (p.Enabled <==> ufb("hcl.proxy", t)) && (g.Firewall.Enabled <==> ufb("hcl.firewall", t)) && (g.Firewall.Blacklisting <==> ufb("hcl.blacklisting", t)) && (g.Firewall.Subpath <==> ufb("hcl.subpath", t))
spec func dirOf(p proxyConfig, v serveConfig, t string) string = ite(!p.Enabled && v.Download.Enabled, slashed(ufs("hcl.dir", t)), ufs("hcl.dir", t))
spec func tablesFrom(c Config, t string) bool = tableFrom(c.Proxy.Rules, "rules", t) && tableFrom(c.Errors, "errors", t) && tableFrom(c.Serve.Headers, "headers", t) && tableFrom(c.Serve.MIMETypes.ResponseTypes, "types", t)
spec func siteFrom(c Config, t string) bool = switches(c.Proxy, c.Serve, c.Guard, t) && c.Serve.ServeDir == dirOf(c.Proxy, c.Serve, t)
spec func blank(c *Config) bool = c.Serve.ServeDir == "" && c.Serve.ServeIndex == "" && !c.Serve.Download.Enabled && !c.Proxy.Enabled && !c.Guard.Firewall.Enabled && !c.Guard.Firewall.Blacklisting && !c.Guard.Firewall.Subpath && len(c.Proxy.Rules) == 0 && len(c.Errors) == 0 && len(c.Serve.Headers) == 0 && len(c.Serve.MIMETypes.ResponseTypes) == 0
spec func kept(c Config) bool = allocated(c.Proxy.Rules) && allocated(c.Serve.Methods) && allocated(c.Errors) && allocated(c.Serve.Headers) && allocated(c.Serve.MIMETypes.ResponseTypes)

event unmarshal(v any, text string, err error)
extern "github.com/hashicorp/hcl.Unmarshal" (data, v) (err)
  havocs v
  private v
  ensures err == nil && v is *Config && old(blank(v as *Config)) ==> switches((v as *Config).Proxy, (v as *Config).Serve, (v as *Config).Guard, str(data)) && (v as *Config).Serve.ServeDir == ufs("hcl.dir", str(data))
  ensures err == nil && v is *Config && old(blank(v as *Config)) ==> tableFrom((v as *Config).Proxy.Rules, "rules", str(data)) && tableFrom((v as *Config).Errors, "errors", str(data)) && tableFrom((v as *Config).Serve.Headers, "headers", str(data)) && tableFrom((v as *Config).Serve.MIMETypes.ResponseTypes, "types", str(data))
  emits unmarshal(v, str(data), err)

event routes(s *Server)
contract tuna.addRoutesFromConfig.call
  func tuna.(*Server).addRoutesFromConfig(s)
  tags C22
  modular
  safety START
  requires logs(s) && s.Router != nil
  modifies event(addroute), event(usemw), event(metricshandler), all(guard.Limiter), all(guard.BasicAuth)
  calls routes(s)

contract tuna.generateTemplates
  func tuna.(*Server).generateTemplates(s)
  tags C27
  modular
  safety START
  requires logs(s)
  modifies s.templates.error, s.templates.download, event(truncated), event(write), event(closed), event(statted), event(filewrite)
  ensures [C27] the pages can be made: s.templates.error != nil && s.templates.error.Tpl != nil && s.templates.download != nil && s.templates.download.Tpl != nil

contract tuna.NewInstanceFromConfig
  func tuna.NewInstanceFromConfig(p) results (s)
  tags C21 C22 C02 C06 C13 C18 C19 C23 C27
  safety START
  on [C06] routes assert s.Router.WebDAV <==> s.Cfg.Core.WebDAV
  ensures [C27] a server is ready for requests: ready(s) && s.Router != nil
  ensures [C02 C13 C18] refused requests are answered by the server: s.Router.ErrorHandler == method(s, "HandleError")
  ensures [C06] WebDAV methods may be registered exactly when it is enabled: s.Router.WebDAV <==> s.Cfg.Core.WebDAV
  ensures [C23] the log has the configured level: s.logInterface.Debug == s.Cfg.Core.LogLevel
  ensures [C21] the configuration of every virtual host was accepted: s.Cfg.Core.VirtualHosting ==> forall k string {s.Vhosts[k]} :: k in s.Cfg.Core.VirtualHosts ==> k in s.Vhosts && accepted(s.Vhosts[k].Core, s.Vhosts[k].Proxy, s.Vhosts[k].Serve, true)
  ensures [C22] the routes of the configuration are added once: calls(routes) == 1 && arg(routes, s) == s
  ensures [C19] counting is started when it is configured: s.Cfg.Core.Metrics.Enabled && s.Cfg.Core.TLS.Enabled ==> calls(spawned) >= 1
  ensures [C21] the configuration in use was accepted: configOK(address(s.Cfg), false)
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> k in $m && kept($m[k])
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> accepted($m[k].Core, $m[k].Proxy, $m[k].Serve, true)

contract tuna.NewInstanceFromConfig.sites
  func tuna.NewInstanceFromConfig(p) results (s)
  tags C17
  safety START
  ensures [C17] a virtual host has the settings of its own file: s.Cfg.Core.VirtualHosting ==> forall k string {s.Vhosts[k]} :: k in s.Cfg.Core.VirtualHosts ==> siteFrom(s.Vhosts[k], fileText(s.Cfg.Core.VirtualHosts[k]))
  ensures [C17] a virtual host has the tables of its own file: s.Cfg.Core.VirtualHosting ==> forall k string {s.Vhosts[k]} :: k in s.Cfg.Core.VirtualHosts ==> tablesFrom(s.Vhosts[k], fileText(s.Cfg.Core.VirtualHosts[k]))
  ensures [C17] the main configuration is that of the named file: switches(s.Cfg.Proxy, s.Cfg.Serve, s.Cfg.Guard, fileText(p)) && tablesFrom(s.Cfg, fileText(p))
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> k in $m && kept($m[k])
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> siteFrom($m[k], fileText(ranged()[k]))
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> tableFrom($m[k].Proxy.Rules, "rules", fileText(ranged()[k]))
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> tableFrom($m[k].Errors, "errors", fileText(ranged()[k]))
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> tableFrom($m[k].Serve.Headers, "headers", fileText(ranged()[k]))
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> tableFrom($m[k].Serve.MIMETypes.ResponseTypes, "types", fileText(ranged()[k]))

// a server for a core configuration made by a program: its own routes, no metrics
contract tuna.NewInstance
  func tuna.NewInstance(c) results (s)
  tags C21 C02 C06 C13 C18 C19 C23 C27
  safety START
  ensures [C27] a server is ready for requests: ready(s) && s.Router != nil
  ensures [C06] WebDAV methods may be registered exactly when it is enabled: s.Router.WebDAV <==> s.Cfg.Core.WebDAV
  ensures [C02 C13 C18] refused requests are answered by the server: s.Router.ErrorHandler == method(s, "HandleError")
  ensures [C23] the log has the configured level: s.logInterface.Debug == s.Cfg.Core.LogLevel
  ensures [C21] the configuration of every virtual host was accepted: s.Cfg.Core.VirtualHosting ==> forall k string {s.Vhosts[k]} :: k in s.Cfg.Core.VirtualHosts ==> k in s.Vhosts && accepted(s.Vhosts[k].Core, s.Vhosts[k].Proxy, s.Vhosts[k].Serve, true)
  ensures [C19] metrics stay off: !s.Cfg.Core.Metrics.Enabled && calls(spawned) == 0
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> k in $m && kept($m[k])
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> accepted($m[k].Core, $m[k].Proxy, $m[k].Serve, true)

contract tuna.NewInstance.sites
  func tuna.NewInstance(c) results (s)
  tags C17
  safety START
  ensures [C17] a virtual host has the settings of its own file: s.Cfg.Core.VirtualHosting ==> forall k string {s.Vhosts[k]} :: k in s.Cfg.Core.VirtualHosts ==> siteFrom(s.Vhosts[k], fileText(s.Cfg.Core.VirtualHosts[k]))
  ensures [C17] a virtual host has the tables of its own file: s.Cfg.Core.VirtualHosting ==> forall k string {s.Vhosts[k]} :: k in s.Cfg.Core.VirtualHosts ==> tablesFrom(s.Vhosts[k], fileText(s.Cfg.Core.VirtualHosts[k]))
  ensures [C17] the core configuration is the given one: s.Cfg.Core.VirtualHosting == c.VirtualHosting && s.Cfg.Core.VirtualHosts == c.VirtualHosts && s.Cfg.Core.FileDir == c.FileDir
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> k in $m && kept($m[k])
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> siteFrom($m[k], fileText(ranged()[k]))
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> tableFrom($m[k].Proxy.Rules, "rules", fileText(ranged()[k]))
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> tableFrom($m[k].Errors, "errors", fileText(ranged()[k]))
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> tableFrom($m[k].Serve.Headers, "headers", fileText(ranged()[k]))
  candidate $m map[string]Config :: forall k string {visited(k)} :: visited(k) ==> tableFrom($m[k].Serve.MIMETypes.ResponseTypes, "types", fileText(ranged()[k]))
