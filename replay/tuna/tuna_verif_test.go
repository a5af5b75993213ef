package tuna

// Executable oracles for the server's properties; see /verif/DESIGN.md. One random server and request at a time is
// run against what the properties say; a deviation names the properties it breaks.

import (
	"bytes"
	"crypto/tls"
	"encoding/base64"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"io/ioutil"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"testing"

	"github.com/redmaner/MaguroHTTP/debug"
	"github.com/redmaner/MaguroHTTP/router"
)

func vSeed() int64 { n, _ := strconv.Atoi(os.Getenv("VERIF_SEED")); return int64(n) + 11 }
func vHints() []string {
	var hs []string
	b, _ := os.ReadFile(os.Getenv("VERIF_HINTS"))
	json.Unmarshal(b, &hs)
	return hs
}
func vPick(r *rand.Rand, xs []string) string { return xs[r.Intn(len(xs))] }

// ---- a small world of files

var vExts = []string{".aac", ".avi", ".bmp", ".css", ".csv", ".gif", ".html", ".htm", ".jpeg", ".jpg", ".js", ".json", ".mpeg", ".png", ".pdf", ".svg", ".txt", ".xhtml", ".xml", ".zip", ".bin", "", ".HTML", ".tar.gz", ".min.js", ".v1.css", ".txt.bin", ".html.zip"}
var vTypes = map[string]string{".aac": "audio/aac", ".avi": "video/x-msvideo", ".bmp": "image/bmp", ".css": "text/css", ".csv": "text/csv", ".gif": "image/gif", ".html": "text/html", ".htm": "text/html", ".jpeg": "image/jpeg", ".jpg": "image/jpeg", ".js": "text/javascript", ".json": "text/json", ".mpeg": "video/mpeg", ".png": "image/png", ".pdf": "application/pdf", ".svg": "image/svg+xml", ".txt": "text/plain", ".xhtml": "application/xhtml-xml", ".xml": "application/xml", ".zip": "application/zip"}

type vWorld struct {
	dir    string
	sites  []string // directories
	hints  []string
	errdoc map[string]string // page file -> text
	tpl    templates
	log    *debug.Logger
}

func vNewWorld(t *testing.T) *vWorld {
	dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "tuna")
	if err != nil {
		t.Fatal(err)
	}
	w := &vWorld{dir: dir, errdoc: map[string]string{}}
	for _, h := range vHints() {
		ok := len(h) > 0 && len(h) < 30
		for _, c := range h {
			ok = ok && c > ' ' && c < 127 && c != '/' && c != '\\' && c != '%' && c != '?' && c != '#'
		}
		if ok && len(w.hints) < 40 {
			w.hints = append(w.hints, h)
		}
	}
	for i := 0; i < 4; i++ {
		d := filepath.Join(dir, fmt.Sprint("site", i))
		os.MkdirAll(filepath.Join(d, "sub"), 0755)
		w.sites = append(w.sites, d)
		for j, e := range vExts {
			for _, n := range []string{"f" + e, "sub/g" + e} {
				if (i+j+len(n))%5 != 0 {
					os.WriteFile(filepath.Join(d, n), []byte(fmt.Sprintf("content of %s in site %d", n, i)), 0644)
				}
			}
		}
		for _, n := range []string{"index.html", "start", "start.html", "sub/start", "<b>x&y<b>.txt", "common.txt", "a b.txt"} {
			if (i+len(n))%4 != 0 {
				os.WriteFile(filepath.Join(d, n), []byte(fmt.Sprintf("content of %s in site %d", n, i)), 0644)
			}
		}
		for _, h := range w.hints {
			if strings.HasPrefix(h, ".") && h != "." && h != ".." {
				os.WriteFile(filepath.Join(d, "f"+h), []byte(fmt.Sprintf("content of f%s in site %d", h, i)), 0644)
			}
		}
		for _, c := range []int{403, 404, 500, 502} {
			p := filepath.Join(dir, fmt.Sprintf("err%d-%d.html", i, c))
			w.errdoc[p] = fmt.Sprintf("custom page for %d of site %d", c, i)
			os.WriteFile(p, []byte(w.errdoc[p]), 0644)
		}
	}
	os.WriteFile(filepath.Join(dir, "secret"), []byte("secret text"), 0644)
	w.log, _ = debug.NewLogger(0, "x", filepath.Join(dir, "log"))
	s := &Server{logInterface: w.log}
	s.Cfg.Core.FileDir = dir + "/"
	s.generateTemplates()
	w.tpl = s.templates
	return w
}

func (w *vWorld) close() { os.RemoveAll(w.dir) }

// ---- random configurations

var vNames = []string{"X-One", "x-two", "Content-Security-Policy", "x-frame-options", "Server", "Referrer-Policy", "Strict-Transport-Security", "Feature-Policy", "X-XSS-Protection", "X-Content-Type-Options"}

func vHeaders(r *rand.Rand, tag string) map[string]string {
	if r.Intn(4) == 0 {
		return nil
	}
	h := map[string]string{}
	for i := r.Intn(4); i > 0; i-- {
		h[vPick(r, vNames)] = fmt.Sprint(tag, r.Intn(9))
	}
	return h
}

var vIndexes = []string{"index.html", "start", "start.html", "missing", "index"}

func (w *vWorld) config(r *rand.Rand, i int) Config {
	c := NewVhostConfig()
	c.Serve.ServeDir = w.sites[i]
	if r.Intn(2) == 0 {
		c.Serve.ServeDir += "/"
	}
	c.Serve.ServeIndex = vPick(r, vIndexes)
	c.Serve.Headers = vHeaders(r, fmt.Sprint("serve", i, "-"))
	c.Serve.Download.Enabled = r.Intn(4) > 0
	for j := r.Intn(4); j > 0; j-- {
		c.Serve.Download.Exts = append(c.Serve.Download.Exts, vPick(r, vExts))
	}
	if r.Intn(3) > 0 {
		c.Serve.MIMETypes.ResponseTypes = map[string]string{}
		for j := r.Intn(5); j > 0; j-- {
			c.Serve.MIMETypes.ResponseTypes[vPick(r, []string{"/f.bin", "/f", "/f.txt", "/sub/g.bin", "/f.HTML", "/sub/start", "/start"})] = fmt.Sprint("type/", i, j)
		}
	}
	if r.Intn(3) > 0 {
		c.Errors = map[string]string{}
		for _, code := range []int{403, 404, 500, 502} {
			switch r.Intn(3) {
			case 0:
				c.Errors[strconv.Itoa(code)] = filepath.Join(w.dir, fmt.Sprintf("err%d-%d.html", i, code))
			case 1:
				if r.Intn(3) == 0 {
					c.Errors[strconv.Itoa(code)] = filepath.Join(w.dir, "nosuchpage")
				}
			}
		}
	}
	c.Proxy.Rules = map[string]string{}
	for _, h := range vHosts {
		if r.Intn(3) > 0 {
			c.Proxy.Rules[h] = fmt.Sprintf("http://up%d-%s", i, h)
		}
	}
	c.Proxy.Headers = vHeaders(r, fmt.Sprint("proxy", i, "-"))
	return c
}

var vHosts = []string{"one.example", "two.example", "other.example", "10.0.0.1"}

func (w *vWorld) server(r *rand.Rand) *Server {
	s := &Server{Router: router.NewRouter(), logInterface: w.log, templates: w.tpl, Vhosts: map[string]Config{}}
	s.Cfg = w.config(r, 0)
	s.Cfg.Core.FileDir = w.dir + "/"
	s.Cfg.Core.Port = "80"
	s.Cfg.Core.TLS.Enabled = r.Intn(2) == 0
	s.Cfg.Core.TLS.HSTS = HSTSConfig{MaxAge: r.Intn(3) * 1000, Preload: r.Intn(2) == 0, IncludeSubdomains: r.Intn(2) == 0}
	for i, h := range vHosts[:2] {
		s.Vhosts[h] = w.config(r, i+1)
	}
	s.Cfg.Core.VirtualHosts = map[string]string{}
	for h := range s.Vhosts {
		if r.Intn(4) > 0 {
			s.Cfg.Core.VirtualHosts[h] = "file"
		}
	}
	s.Cfg.Core.VirtualHosting = r.Intn(3) > 0
	s.metrics.enabled = r.Intn(4) > 0
	switch r.Intn(3) {
	case 0:
		s.metrics.Paths = map[int]map[string]int{}
	case 2:
		if r.Intn(60) == 0 {
			// a long history
			s.metrics.Paths = map[int]map[string]int{}
			for _, c := range []int{200, 404, 502} {
				s.metrics.Paths[c] = map[string]int{}
				for i := 0; i < 5000; i++ {
					s.metrics.Paths[c][fmt.Sprint("old.example/", i)] = 1
				}
			}
			s.metrics.TotalRequests = 15000
		}
	case 1:
		s.metrics.Paths = map[int]map[string]int{404: nil, 200: {"one.example/f.txt": 3}, 502: {"x": 1}}
		s.metrics.TotalRequests = r.Intn(9)
	}
	return s
}

func vSite(s *Server, host string) Config {
	if s.Cfg.Core.VirtualHosting {
		if _, ok := s.Cfg.Core.VirtualHosts[host]; ok {
			return s.Vhosts[host]
		}
	}
	return s.Cfg
}

// ---- a client

type vWriter struct {
	h      http.Header
	code   int
	codes  []int
	sent   http.Header
	body   bytes.Buffer
	events []string
	fail   bool
}

func (w *vWriter) Header() http.Header { return w.h }
func (w *vWriter) WriteHeader(c int) {
	if c < 100 || c > 999 {
		panic(fmt.Sprint("invalid WriteHeader code ", c))
	}
	w.codes = append(w.codes, c)
	if w.code == 0 {
		w.code, w.sent = c, w.h.Clone()
	}
}
func (w *vWriter) Write(b []byte) (int, error) {
	if w.code == 0 {
		w.code, w.sent = 200, w.h.Clone()
	}
	if w.fail {
		return 0, errors.New("client is gone")
	}
	return w.body.Write(b)
}

type vBody struct {
	io.Reader
	closed int
	late   bool
}

func (b *vBody) Close() error { b.closed++; return nil }
func (b *vBody) Read(p []byte) (int, error) {
	if b.closed > 0 {
		b.late = true
		return 0, errors.New("read after close")
	}
	return b.Reader.Read(p)
}

type vUp struct {
	reqs   []*http.Request
	bodies []string
	resp   *http.Response
	body   *vBody
	text   string
	err    error
}

func (u *vUp) RoundTrip(q *http.Request) (*http.Response, error) {
	u.reqs = append(u.reqs, q)
	b := ""
	if q.Body != nil {
		x, _ := ioutil.ReadAll(q.Body)
		b = string(x)
	}
	u.bodies = append(u.bodies, b)
	if u.err != nil {
		return nil, u.err
	}
	return u.resp, nil
}

// ---- one case

type vBad struct {
	props string
	msg   string
}

type vCase struct {
	bad   []vBad
	about string
}

func (c *vCase) check(props string, ok bool, format string, a ...interface{}) {
	if !ok {
		c.bad = append(c.bad, vBad{props, fmt.Sprintf(format, a...)})
	}
}

func vConfigured(h map[string]string, n string) (string, bool) {
	for k, v := range h {
		if http.CanonicalHeaderKey(k) == n {
			return v, true
		}
	}
	return "", false
}

var vDefaults = map[string]string{"X-Frame-Options": "SAMEORIGIN", "X-Content-Type-Options": "nosniff", "X-Xss-Protection": "1; mode=block", "Referrer-Policy": "no-referrer", "Content-Security-Policy": "default-src 'self'", "Server": "MaguroHTTP",
	"Feature-Policy": "geolocation 'none'; midi 'none'; notifications 'none'; push 'none'; sync-xhr 'none'; microphone 'none'; camera 'none'; magnetometer 'none'; gyroscope 'none'; speaker 'none'; vibrate 'none'; fullscreen 'none'; payment 'none';"}

func (c *vCase) headers(s *Server, h http.Header, conf map[string]string, own bool, except string) {
	names := []string{"Strict-Transport-Security"}
	for n := range vDefaults {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		want, ok := vDefaults[n], own
		if n == "Strict-Transport-Security" {
			ok = s.Cfg.Core.TLS.Enabled
			hc := s.Cfg.Core.TLS.HSTS
			want = fmt.Sprintf("max-age=%d;", hc.MaxAge)
			if hc.IncludeSubdomains {
				want += " includeSubdomains;"
			}
			if hc.Preload {
				want += " preload"
			}
			if _, set := vConfigured(conf, n); !ok && own && !set {
				c.check("C13", len(h[n]) == 0, "without TLS the answer announces %s %q", n, h[n])
			}
		}
		if _, set := vConfigured(conf, n); set || !ok || n == except {
			continue
		}
		c.check("C13 C17", len(h[n]) == 1 && h[n][0] == want, "header %s is %q, want %q", n, h[n], want)
	}
	for k, v := range conf {
		n := http.CanonicalHeaderKey(k)
		if n == "Content-Type" || n == except {
			continue
		}
		c.check("C13 C16 C17", len(h[n]) == 1 && h[n][0] == v, "configured header %s is %q, want %q", k, h[n], v)
	}
}

func vMIME(p string, conf Config) string {
	if t, ok := vTypes[filepath.Ext(p)]; ok {
		return t
	}
	if t, ok := conf.Serve.MIMETypes.ResponseTypes[p]; ok {
		return t
	}
	return "application/octet-stream"
}

// an error answer
func (c *vCase) refused(s *Server, w *vWriter, conf Config, code int, props string) {
	c.check("C18 "+props, w.code == code, "status %d, want %d", w.code, code)
	c.check("C18 "+props, len(w.codes) == 1, "statuses sent: %v", w.codes)
	if w.sent != nil {
		c.headers(s, w.sent, nil, true, "")
	}
	if w.fail {
		return
	}
	page, custom := conf.Errors[strconv.Itoa(code)]
	text, err := "", error(nil)
	if custom {
		var b []byte
		b, err = os.ReadFile(page)
		text = string(b)
	}
	if custom && err == nil {
		c.check("C17 C18", w.body.String() == text, "body %q, want the custom page %q", vShort(w.body.String()), text)
	} else {
		c.check("C17 C18", strings.Contains(w.body.String(), fmt.Sprintf("<h3>Error %d", code)) && !strings.Contains(w.body.String(), "custom page"), "body %q, want the built-in page for %d", vShort(w.body.String()), code)
	}
}

func vShort(s string) string {
	if len(s) > 120 {
		return s[:120] + "..."
	}
	return s
}

func (w *vWorld) path(r *rand.Rand) string {
	switch r.Intn(14) {
	case 12:
		// below a file
		return "/f" + vPick(r, vExts) + vPick(r, []string{"/x", "/", "/index.html", "/f.txt"})
	case 13:
		return vPick(r, []string{"/SUB/g.txt", "/sub/missing/", "/F.TXT", "/start/", "/.", "/..hidden", "/f.txt.", "/index.html"})
	case 0:
		return "/"
	case 1:
		return "/sub/"
	case 2:
		return "/nosuch" + vPick(r, vExts)
	case 3:
		return "/" + vPick(r, vIndexes)
	case 4:
		return vPick(r, []string{"/<b>x&y<b>.txt", "/common.txt", "/a b.txt", "/secret", "/log"})
	case 5:
		return "/sub/g" + vPick(r, vExts)
	case 6:
		if len(w.hints) > 0 {
			return "/" + vPick(r, []string{"", "f"}) + vPick(r, w.hints)
		}
	}
	return "/f" + vPick(r, vExts)
}

func vRequest(r *rand.Rand, p string) *http.Request {
	q := httptest.NewRequest(vPick(r, []string{"GET", "GET", "GET", "POST", "PUT", "HEAD", "DELETE", "OPTIONS"}), "http://h/", nil)
	q.URL = &url.URL{Path: p}
	q.Host = vPick(r, vHosts)
	switch r.Intn(4) {
	case 0:
		q.Host += ":8080"
	case 1:
		q.Host += ":" + strconv.Itoa(r.Intn(65536))
	}
	switch r.Intn(40) {
	case 0:
		q.Host = vPick(r, []string{"[::1]:80", "::1", "a:b:c", ":80", "one.example:", "<b>x</b>", "ONE.EXAMPLE", "one.example.", "[::1]", "[one.example]:80", ""})
	}
	q.RemoteAddr = "9.8.7.6:55"
	return q
}

func vHost(h string) string {
	if host, _, err := net.SplitHostPort(h); err == nil {
		return host
	}
	return h
}

func (c *vCase) run(what string, f func()) bool {
	ok := true
	func() {
		defer func() {
			if e := recover(); e != nil {
				ok = false
				c.check("C11 C12 C13 C14 C15 C16 C17 C18 C19 C20 C25 C27", false, "%s panics: %v", what, e)
			}
		}()
		f()
	}()
	return ok
}

func vCounts(md *metricsData) map[string]int {
	m := map[string]int{}
	for c, t := range md.Paths {
		for p, n := range t {
			m[fmt.Sprint(c, " ", p)] = n
		}
	}
	return m
}

// counted: exactly one request with the status was counted
func (c *vCase) counted(s *Server, before map[string]int, total int, code int, q *http.Request, p string) {
	after := vCounts(&s.metrics)
	if !s.metrics.enabled {
		c.check("C19", s.metrics.TotalRequests == total && fmt.Sprint(after) == fmt.Sprint(before), "counts change from %v (%d) to %v (%d) while metrics are disabled", before, total, after, s.metrics.TotalRequests)
		return
	}
	before[fmt.Sprint(code, " ", vHost(q.Host), p)]++
	c.check("C19", s.metrics.TotalRequests == total+1, "total goes from %d to %d", total, s.metrics.TotalRequests)
	c.check("C19 C26", fmt.Sprint(after) == fmt.Sprint(before), "counts are %v, want %v", after, before)
}

func (w *vWorld) serve(r *rand.Rand, c *vCase) {
	s := w.server(r)
	p := w.path(r)
	q := vRequest(r, p)
	q.Method = "GET"
	rw := &vWriter{h: http.Header{}, fail: r.Intn(9) == 0}
	conf := vSite(s, vHost(q.Host))
	before, total := vCounts(&s.metrics), s.metrics.TotalRequests
	c.about = fmt.Sprintf("handleServe %s of %s, ServeDir %s ServeIndex %q, vhosting %v %v, TLS %v", p, q.Host, filepath.Base(conf.Serve.ServeDir), conf.Serve.ServeIndex, s.Cfg.Core.VirtualHosting, s.Cfg.Core.VirtualHosts, s.Cfg.Core.TLS.Enabled)
	if !c.run("handleServe", func() { s.handleServe()(rw, q) }) {
		return
	}
	f := p
	if strings.HasSuffix(f, "/") {
		f += conf.Serve.ServeIndex
	}
	data, err := os.ReadFile(conf.Serve.ServeDir + f)
	if _, serr := os.Stat(conf.Serve.ServeDir + f); serr != nil {
		c.check("C12 C17", rw.code == 404, "status %d for a missing file", rw.code)
		c.check("C12", !strings.Contains(rw.body.String(), "content of") && !strings.Contains(rw.body.String(), "secret"), "a missing file is answered with %q", vShort(rw.body.String()))
		c.refused(s, rw, conf, 404, "C12")
		c.counted(s, before, total, 404, q, p)
		return
	}
	c.counted(s, before, total, 200, q, p)
	if err != nil || rw.code == 301 && strings.HasSuffix(p, "/index.html") {
		return // directories and the canonical name of an index are net/http's business
	}
	c.check("C12 C17", rw.code == 200, "status %d for an existing file", rw.code)
	c.check("C12 C17", rw.fail || rw.body.String() == string(data), "body %q, want %q", vShort(rw.body.String()), data)
	c.check("C12", len(rw.codes) <= 1, "statuses sent: %v", rw.codes)
	c.headers(s, rw.sent, conf.Serve.Headers, true, "")
	want := vMIME(f, conf)
	c.check("C14 C17", len(rw.sent["Content-Type"]) == 1 && rw.sent.Get("Content-Type") == want, "content type %q, want %q", rw.sent["Content-Type"], want)
}

func vEsc(s string) string {
	return strings.NewReplacer("&", "&amp;", "<", "&lt;", ">", "&gt;", `"`, "&#34;", "'", "&#39;", "\x00", "\uFFFD").Replace(s)
}

func (w *vWorld) download(r *rand.Rand, c *vCase) {
	s := w.server(r)
	p := w.path(r)
	if r.Intn(2) == 0 {
		p = "/"
	}
	q := vRequest(r, p)
	q.Method = "GET"
	rw := &vWriter{h: http.Header{}}
	if r.Intn(5) == 0 {
		q.Host = vPick(r, []string{"<b>x", "<b>x</b>:80", "a<b>x.example"})
		q.Header.Set("User-Agent", "<b>x")
		q.Header.Set("Referer", "<b>x")
		q.URL.RawQuery = "<b>x"
	}
	host := vHost(q.Host)
	conf := vSite(s, host)
	if r.Intn(12) == 0 {
		conf.Serve.ServeDir = w.dir + "/nosuchdir/"
		if s.Cfg.Core.VirtualHosting {
			if _, ok := s.Cfg.Core.VirtualHosts[host]; ok {
				s.Vhosts[host] = conf
			} else {
				s.Cfg.Serve.ServeDir = conf.Serve.ServeDir
			}
		} else {
			s.Cfg.Serve.ServeDir = conf.Serve.ServeDir
		}
	}
	before, total := vCounts(&s.metrics), s.metrics.TotalRequests
	c.about = fmt.Sprintf("handleDownload %s of %s, ServeDir %s ServeIndex %q, downloads %v %q, vhosting %v %v, TLS %v", p, q.Host, filepath.Base(conf.Serve.ServeDir), conf.Serve.ServeIndex, conf.Serve.Download.Enabled, conf.Serve.Download.Exts, s.Cfg.Core.VirtualHosting, s.Cfg.Core.VirtualHosts, s.Cfg.Core.TLS.Enabled)
	if !c.run("handleDownload", func() { s.handleDownload()(rw, q) }) {
		return
	}
	if p == "/" || p == conf.Serve.ServeIndex {
		body := rw.body.String()
		c.counted(s, before, total, 200, q, p)
		c.check("C12", rw.code == 200 && len(rw.codes) == 0, "status %d %v for the list", rw.code, rw.codes)
		c.headers(s, rw.sent, conf.Serve.Headers, true, "")
		want := map[string]int{}
		if conf.Serve.Download.Enabled {
			for _, e := range conf.Serve.Download.Exts {
				filepath.Walk(conf.Serve.ServeDir, func(path string, f os.FileInfo, err error) error {
					if err == nil && !f.IsDir() && filepath.Ext(f.Name()) == e {
						want[fmt.Sprintf(`<a href="/%s">%s</a><br></span><td height="auto" width="120px"><span >%d<`, vEsc(f.Name()), vEsc(f.Name()), f.Size())]++
					}
					return nil
				})
			}
		}
		n := 0
		for row, k := range want {
			n += k
			c.check("C25 C17", strings.Count(body, row) == k, "%q is listed %d times, want %d", row, strings.Count(body, row), k)
		}
		c.check("C25 C17", strings.Count(body, "<a href=") == n, "%d files are listed, want %d", strings.Count(body, "<a href="), n)
		c.check("C20", !strings.Contains(body, "<b>x"), "a file name is on the page as markup")
		return
	}
	data, err := os.ReadFile(conf.Serve.ServeDir + p)
	if _, serr := os.Stat(conf.Serve.ServeDir + p); serr != nil {
		c.check("C12 C17", rw.code == 404, "status %d for a missing file", rw.code)
		c.check("C12", !strings.Contains(rw.body.String(), "content of") && !strings.Contains(rw.body.String(), "secret"), "a missing file is answered with %q", vShort(rw.body.String()))
		c.refused(s, rw, conf, 404, "C12")
		c.counted(s, before, total, 404, q, p)
		return
	}
	c.counted(s, before, total, 200, q, p)
	if err != nil || rw.code == 301 && strings.HasSuffix(p, "/index.html") {
		return
	}
	c.check("C12 C17", rw.code == 200 && rw.body.String() == string(data), "status %d, body %q, want %q", rw.code, vShort(rw.body.String()), data)
	c.headers(s, rw.sent, conf.Serve.Headers, true, "")
	want := vMIME(p, conf)
	c.check("C14 C17", len(rw.sent["Content-Type"]) == 1 && rw.sent.Get("Content-Type") == want, "content type %q, want %q", rw.sent["Content-Type"], want)
}

func (w *vWorld) failure(r *rand.Rand, c *vCase) {
	s := w.server(r)
	p := w.path(r)
	q := vRequest(r, p)
	rw := &vWriter{h: http.Header{}, fail: r.Intn(9) == 0}
	code := []int{401, 403, 404, 405, 406, 429, 500, 502, 503, 418, 404, 403, 502}[r.Intn(13)]
	for _, h := range w.hints {
		if n, err := strconv.Atoi(h); err == nil && n >= 100 && n <= 999 && r.Intn(8) == 0 {
			code = n
		}
	}
	conf := vSite(s, vHost(q.Host))
	before, total := vCounts(&s.metrics), s.metrics.TotalRequests
	c.about = fmt.Sprintf("HandleError %d for %s of %s, pages %v, vhosting %v %v, TLS %v", code, p, q.Host, conf.Errors, s.Cfg.Core.VirtualHosting, s.Cfg.Core.VirtualHosts, s.Cfg.Core.TLS.Enabled)
	if !c.run("HandleError", func() { s.HandleError(rw, q, code) }) {
		return
	}
	c.refused(s, rw, conf, code, "")
	c.counted(s, before, total, code, q, p)
}

func (w *vWorld) metricsPage(r *rand.Rand, c *vCase) {
	s := w.server(r)
	names := []string{"h/<script>alert(1)</script>", `h/"x'&`, "h/ok", "<i>/"}
	s.metrics.enabled = true
	for i := r.Intn(4); i >= 0; i-- {
		q := vRequest(r, "/"+vPick(r, names))
		if r.Intn(3) == 0 {
			q.Host = "<u>evil</u>"
		}
		if r.Intn(3) == 0 {
			q.Method = "<u>"
			q.Header.Set("User-Agent", "<u>")
			q.URL.RawQuery = "<u>"
		}
		s.LogNetwork([]int{200, 404, 502}[r.Intn(3)], q)
	}
	q := vRequest(r, "/metrics")
	q.Header.Set("User-Agent", "<u>")
	q.URL.RawQuery = "<u>"
	rw := &vWriter{h: http.Header{}, fail: r.Intn(9) == 0}
	before, total := vCounts(&s.metrics), s.metrics.TotalRequests
	c.about = "the metrics page"
	if !c.run("handleMetrics", func() { s.handleMetrics()(rw, q) }) {
		return
	}
	if !s.metrics.mu.TryLock() {
		c.check("C11", false, "the metrics lock is still held (client gone: %v)", rw.fail)
		return
	}
	s.metrics.mu.Unlock()
	c.counted(s, before, total, 200, q, "/metrics")
	c.headers(s, rw.sent, nil, true, "Content-Security-Policy")
	body := rw.body.String()
	for _, raw := range []string{"<script>", "<i>", "<u>", `"x'`} {
		c.check("C20", !strings.Contains(body, raw), "request text %q is on the page as markup", raw)
	}
	for _, v := range s.Cfg.Serve.Headers {
		_ = v
	}
}

func (w *vWorld) proxy(r *rand.Rand, c *vCase) {
	s := w.server(r)
	p := w.path(r)
	q := vRequest(r, p)
	u := &vUp{}
	s.Transport = u
	q.Header = http.Header{"Accept": {"a", "b", "c"}, "X-None": {}, "Cookie": {"k=v"}}
	for i := r.Intn(3); i > 0; i-- {
		q.Header.Add(vPick(r, []string{"X-A", "X-B", "Te", "Upgrade", "Authorization"}), fmt.Sprint(r.Intn(99)))
	}
	text := strings.Repeat("body ", r.Intn(3)*r.Intn(200))
	if r.Intn(400) == 0 {
		text = strings.Repeat("large body ", 4<<20)
	}
	q.Body, q.ContentLength = &vBody{Reader: strings.NewReader(text)}, int64(len(text))
	if r.Intn(12) == 0 {
		q.Body = &vBody{Reader: io.MultiReader(strings.NewReader(text), vErrReader{})}
	}
	q.URL.RawQuery = vPick(r, []string{"", "a=b&c=d", "x=1;y=2", "u=http://evil/"})
	target := q.URL.RequestURI()
	switch r.Intn(5) {
	case 0:
		q.RequestURI = "http://evil.example" + target
	case 1:
		q.RequestURI = "@evil.example" + target
	case 2:
		q.RequestURI = ".evil.example" + target
	default:
		q.RequestURI = target
	}
	if r.Intn(20) == 0 {
		q.Method = "BAD METHOD"
	}
	sent := q.Header.Clone()
	if r.Intn(6) == 0 {
		u.err = errors.New("no route")
	}
	u.text = strings.Repeat("answer ", r.Intn(300))
	u.body = &vBody{Reader: strings.NewReader(u.text)}
	u.resp = &http.Response{StatusCode: []int{200, 201, 204, 301, 404, 418, 500, 502, 999, 42, 200, 200}[r.Intn(12)], Header: http.Header{"Set-Cookie": {"a=1", "b=2", "a=1"}, "Content-Type": {"x/y"}, "X-Zero": {}}, Body: u.body}
	for i := r.Intn(3); i > 0; i-- {
		u.resp.Header.Add(vPick(r, []string{"X-One", "Server", "X-C", "Connection", "Vary"}), fmt.Sprint(r.Intn(99)))
	}
	switch r.Intn(8) {
	case 0:
		u.resp.Header["X-Empty"] = []string{""}
	case 1:
		u.resp.Header["X-Mixed"] = []string{"", "a", "", "a"}
	case 2:
		u.resp.Header["Transfer-Encoding"], u.resp.Header["Keep-Alive"], u.resp.Header["Content-Length"] = []string{"chunked"}, []string{"x"}, []string{fmt.Sprint(len(u.text))}
	case 3:
		u.text = strings.Repeat("large answer ", r.Intn(60)<<10)
		u.body.Reader = strings.NewReader(u.text)
	}
	answer := u.resp.Header.Clone()
	rw := &vWriter{h: http.Header{}, fail: r.Intn(9) == 0}
	host := vHost(q.Host)
	conf := vSite(s, host)
	rule, ruled := conf.Proxy.Rules[host]
	before, total := vCounts(&s.metrics), s.metrics.TotalRequests
	_, unread := q.Body.(*vBody).Reader.(*strings.Reader)
	readable := unread
	c.about = fmt.Sprintf("handleProxy %s %q (target %q) of %s, rules %v, upstream status %d error %v, vhosting %v %v, TLS %v", q.Method, q.URL, q.RequestURI, q.Host, conf.Proxy.Rules, u.resp.StatusCode, u.err, s.Cfg.Core.VirtualHosting, s.Cfg.Core.VirtualHosts, s.Cfg.Core.TLS.Enabled)
	if !c.run("handleProxy", func() { s.handleProxy()(rw, q) }) {
		return
	}
	up, perr := url.Parse(rule + target)
	if !ruled || !readable || q.Method == "BAD METHOD" || perr != nil {
		c.check("C15 C17", len(u.reqs) == 0, "%d requests are sent upstream", len(u.reqs))
		c.refused(s, rw, conf, 502, "C15")
		c.counted(s, before, total, 502, q, p)
		return
	}
	c.check("C15 C17", len(u.reqs) == 1, "%d requests are sent upstream", len(u.reqs))
	if len(u.reqs) != 1 {
		return
	}
	o := u.reqs[0]
	c.check("C15 C17", o.URL.Scheme == up.Scheme && o.URL.Host == up.Host, "the request goes to %s, want %s", o.URL.Host, up.Host)
	c.check("C15", o.URL.RequestURI() == up.RequestURI(), "the request asks for %q, want %q", o.URL.RequestURI(), up.RequestURI())
	c.check("C15", o.Method == q.Method && u.bodies[0] == text, "method %s body of %d bytes, want %s with %d bytes", o.Method, len(u.bodies[0]), q.Method, len(text))
	c.check("C15", o.ContentLength == 0 || o.ContentLength == int64(len(text)) || o.ContentLength == -1, "content length %d, want %d", o.ContentLength, len(text))
	c.check("C15", o.Host == host, "host name %q, want %q", o.Host, host)
	c.check("C15 C16", fmt.Sprint(o.Header) == fmt.Sprint(sent), "the request carries %v, want %v", o.Header, sent)
	c.check("C16", fmt.Sprint(q.Header) == fmt.Sprint(sent), "the client's headers become %v, were %v", q.Header, sent)
	for k := range o.Header {
		for i := range o.Header[k] {
			o.Header[k][i] = "changed"
		}
	}
	c.check("C16", fmt.Sprint(q.Header) == fmt.Sprint(sent), "the client's headers share storage with the upstream request")
	if u.err != nil || u.resp.StatusCode < 100 {
		c.refused(s, rw, conf, 502, "C15")
		c.counted(s, before, total, 502, q, p)
		return
	}
	c.counted(s, before, total, u.resp.StatusCode, q, p)
	c.check("C16 C15", len(rw.codes) == 1 && rw.codes[0] == u.resp.StatusCode, "statuses sent: %v, want %d", rw.codes, u.resp.StatusCode)
	c.check("C16", rw.fail || rw.body.String() == u.text, "body of %d bytes, want %d", rw.body.Len(), len(u.text))
	c.check("C16", u.body.closed > 0 && !u.body.late, "the upstream body is closed %d times, read after close: %v", u.body.closed, u.body.late)
	c.headers(s, rw.sent, conf.Proxy.Headers, false, "")
	for k, vv := range answer {
		if _, set := vConfigured(conf.Proxy.Headers, k); set {
			continue
		}
		c.check("C16", fmt.Sprint(rw.sent[k]) == fmt.Sprint(vv) || len(vv) == 0 && len(rw.sent[k]) == 0, "header %s is relayed as %q, want %q", k, rw.sent[k], vv)
	}
}

type vErrReader struct{}

func (vErrReader) Read([]byte) (int, error) { return 0, errors.New("broken body") }

func vRun(t *testing.T, prop string, kinds ...string) {
	r := rand.New(rand.NewSource(vSeed()))
	w := vNewWorld(t)
	defer w.close()
	n := 0
	for ; n < 12000; n++ {
		c := &vCase{}
		switch kinds[n%len(kinds)] {
		case "serve":
			w.serve(r, c)
		case "download":
			w.download(r, c)
		case "error":
			w.failure(r, c)
		case "proxy":
			w.proxy(r, c)
		case "metrics":
			w.metricsPage(r, c)
		}
		for _, b := range c.bad {
			for _, p := range strings.Fields(b.props) {
				if p == prop {
					fmt.Printf("REPLAY-FAIL %s: %s\n", c.about, b.msg)
					t.FailNow()
				}
			}
		}
	}
	fmt.Printf("REPLAY-CASES %d\n", n)
}

func TestReplayC12(t *testing.T) { vRun(t, "C12", "serve", "download") }
func TestReplayC13(t *testing.T) {
	vStart(t, "C13")
	vRun(t, "C13", "serve", "download", "error", "proxy", "metrics")
}
func TestReplayC14(t *testing.T) { vRun(t, "C14", "serve", "download") }
func TestReplayC15(t *testing.T) { vRun(t, "C15", "proxy") }
func TestReplayC16(t *testing.T) { vRun(t, "C16", "proxy") }
func TestReplayC17(t *testing.T) {
	vStart(t, "C17")
	vRun(t, "C17", "serve", "download", "error", "proxy")
}
func TestReplayC18(t *testing.T) {
	vStart(t, "C18")
	vRun(t, "C18", "error", "serve", "proxy", "download")
}
func TestReplayC19(t *testing.T) {
	vStart(t, "C19")
	vLoads(t)
	vRun(t, "C19", "serve", "download", "error", "proxy", "metrics")
}
func TestReplayC20(t *testing.T) { vRun(t, "C20", "download", "metrics") }
func TestReplayC25(t *testing.T) { vRun(t, "C25", "download") }
func TestReplayC26(t *testing.T) { vRun(t, "C26", "error", "serve", "proxy") }
func TestReplayC27(t *testing.T) { vRun(t, "C27", "serve", "download", "error", "proxy", "metrics") }

// ---- configurations

type vConf struct {
	C     Config
	Vhost bool
}

func vSiteOK(c *Config) bool {
	switch {
	case c.Proxy.Enabled:
		return len(c.Proxy.Rules) > 0
	case c.Serve.Download.Enabled:
		return c.Serve.ServeDir != "" && c.Serve.ServeIndex != ""
	}
	return len(c.Serve.Methods) == 0 || c.Serve.ServeDir != ""
}

func vConfigOK(c *Config, vhost bool) bool {
	if vhost {
		return !c.Core.VirtualHosting && vSiteOK(c)
	}
	k := c.Core
	if k.Port == "" || k.LogOut == "" || k.LogLevel < 0 || k.FileDir == "" || k.FileDir == "/" {
		return false
	}
	if k.TLS.Enabled && k.TLS.AutoCert.Enabled && (len(k.TLS.AutoCert.Certificates) == 0 || k.Port != "443") {
		return false
	}
	if k.TLS.Enabled && !k.TLS.AutoCert.Enabled && (k.TLS.TLSCert == "" || k.TLS.TLSKey == "") {
		return false
	}
	if !k.VirtualHosting {
		return vSiteOK(c)
	}
	for _, v := range k.VirtualHosts {
		if v == "" {
			return false
		}
	}
	return len(k.VirtualHosts) > 0
}

func vConfs() []vConf {
	r := rand.New(rand.NewSource(vSeed()))
	var cs []vConf
	often := func(s string) string {
		if r.Intn(8) == 0 {
			return ""
		}
		return s
	}
	ports := []string{"80", "443", "8443", "8080"}
	for _, h := range vHints() {
		if len(h) < 8 {
			ports = append(ports, h)
		}
	}
	for i := 0; i < 900; i++ {
		c := NewConfig()
		k := &c.Core
		k.Port = often(vPick(r, ports))
		k.LogOut, k.LogLevel = often("out"), r.Intn(9)-1
		k.FileDir = often(vPick(r, []string{"/x", "/x/", "/", "x/y"}))
		k.TLS.Enabled, k.TLS.AutoCert.Enabled = r.Intn(2) == 0, r.Intn(2) == 0
		if r.Intn(3) > 0 {
			k.TLS.AutoCert.Certificates = []string{"a"}
		}
		k.TLS.TLSCert, k.TLS.TLSKey = often("c"), often("k")
		k.VirtualHosting = r.Intn(3) == 0
		k.VirtualHosts = map[string]string{}
		for j := r.Intn(4); j > 0; j-- {
			k.VirtualHosts[fmt.Sprint("h", j)] = often("f")
		}
		c.Proxy.Enabled = r.Intn(3) == 0
		if r.Intn(4) > 0 {
			c.Proxy.Rules = map[string]string{"h": "u"}
		}
		c.Serve.Download.Enabled = r.Intn(3) == 0
		c.Serve.ServeDir, c.Serve.ServeIndex = often(vPick(r, []string{"d", "d/", "/"})), often("i")
		if r.Intn(3) > 0 {
			c.Serve.Methods = map[string]string{"/": "GET"}
		}
		cs = append(cs, vConf{c, r.Intn(3) == 0})
	}
	return cs
}

// TestReplayC21 validates in child processes, since a refusal ends the process.
func TestReplayC21(t *testing.T) {
	vStart(t, "C21")
	cs := vConfs()
	if from := os.Getenv("VERIF_CHILD"); from != "" {
		n, _ := strconv.Atoi(from)
		for ; n < len(cs); n++ {
			c := cs[n].C
			c.Validate("f", cs[n].Vhost)
			b, _ := json.Marshal(c)
			fmt.Printf("\nACCEPTED %d %s\n", n, b)
		}
		os.Exit(0)
	}
	slash := func(s string) string {
		if strings.HasSuffix(s, "/") {
			return s
		}
		return s + "/"
	}
	for n := 0; n < len(cs); {
		cmd := exec.Command(os.Args[0], "-test.run", "^TestReplayC21$")
		cmd.Env = append(os.Environ(), "VERIF_CHILD="+strconv.Itoa(n))
		var errout bytes.Buffer
		cmd.Stderr = &errout
		out, err := cmd.Output()
		last := n - 1
		for _, l := range strings.Split(string(out), "\n") {
			f := strings.SplitN(l, " ", 3)
			if f[0] != "ACCEPTED" {
				continue
			}
			last, _ = strconv.Atoi(f[1])
			c := cs[last]
			b, _ := json.Marshal(c)
			if !vConfigOK(&c.C, c.Vhost) {
				fmt.Printf("REPLAY-FAIL Validate accepts %s\n", b)
				t.FailNow()
			}
			want := c.C
			if !c.Vhost {
				want.Core.FileDir = slash(want.Core.FileDir)
			}
			if (c.Vhost || !want.Core.VirtualHosting) && !want.Proxy.Enabled && want.Serve.Download.Enabled {
				want.Serve.ServeDir = slash(want.Serve.ServeDir)
			}
			if wb, _ := json.Marshal(want); string(wb) != f[2] {
				fmt.Printf("REPLAY-FAIL Validate changes %s to %s\n", b, f[2])
				t.FailNow()
			}
		}
		if err == nil {
			break
		}
		n = last + 1
		c := cs[n]
		b, _ := json.Marshal(c)
		if vConfigOK(&c.C, c.Vhost) {
			fmt.Printf("REPLAY-FAIL Validate refuses %s: %s\n", b, errout.String())
			t.FailNow()
		}
		if strings.Contains(errout.String(), "panic:") {
			fmt.Printf("REPLAY-FAIL Validate crashes for %s: %s\n", b, vShort(errout.String()))
			t.FailNow()
		}
		n++
	}
	fmt.Printf("REPLAY-CASES %d\n", len(cs))
}

// ---- routes

func TestReplayC22(t *testing.T) {
	vStart(t, "C22")
	r := rand.New(rand.NewSource(vSeed()))
	w := vNewWorld(t)
	defer w.close()
	n := 0
	for ; n < 500; n++ {
		s := w.server(r)
		s.Transport = &vUp{err: errors.New("no route")}
		s.Cfg.Proxy.Rules, s.Cfg.Core.VirtualHosts, s.Vhosts = nil, map[string]string{}, map[string]Config{}
		s.Cfg.Core.VirtualHosting = r.Intn(3) > 0
		guarded := func(i int, hosts ...string) Config {
			c := w.config(r, i)
			c.Guard.Rate, c.Guard.RateBurst, c.Guard.FilterOnIP = 0.0000001, 1+r.Intn(4), r.Intn(2) == 0
			f := &c.Guard.Firewall
			f.Enabled, f.Blacklisting, f.Subpath = r.Intn(2) == 0, r.Intn(2) == 0, r.Intn(2) == 0
			f.Rules = map[string][]string{"/": {fmt.Sprint("1.1.1.", r.Intn(3))}}
			c.Proxy.Enabled, c.Serve.Download.Enabled = r.Intn(3) == 0, r.Intn(3) == 0
			c.Proxy.Methods = []string{"GET", "POST"}[:1+r.Intn(2)]
			c.Proxy.Rules = map[string]string{}
			for _, h := range hosts {
				c.Proxy.Rules[h] = "http://up"
			}
			c.Serve.Methods = map[string]string{"/": vPick(r, []string{"GET", "GET;POST"})}
			return c
		}
		confs := map[string]Config{}
		if s.Cfg.Core.VirtualHosting {
			core := s.Cfg.Core
			s.Cfg = guarded(0)
			s.Cfg.Core = core
			for i, h := range []string{"one.example", "two.example", "three.example"} {
				c := guarded(1+i, h)
				s.Vhosts[h], confs[h] = c, c
				s.Cfg.Core.VirtualHosts[h] = "file"
			}
		} else {
			core := s.Cfg.Core
			s.Cfg = guarded(0, "one.example", "two.example")
			s.Cfg.Core = core
			confs["one.example"] = s.Cfg
		}
		s.Cfg.Core.Metrics.Enabled = r.Intn(2) == 0
		s.Cfg.Core.Metrics.Path = "/metrics-page"
		s.Cfg.Core.Metrics.Users = map[string]string{"ann": "secret", "bob": "hidden"}
		s.Router.ErrorHandler = s.HandleError
		fail := func(format string, a ...interface{}) {
			fmt.Printf("REPLAY-FAIL vhosting %v: %s\n", s.Cfg.Core.VirtualHosting, fmt.Sprintf(format, a...))
			t.FailNow()
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					fail("addRoutesFromConfig panics: %v", e)
				}
			}()
			s.addRoutesFromConfig()
		}()
		ask := func(host, method, p, ip, agent, user, pass string) int {
			q := httptest.NewRequest(method, "http://"+host+p, nil)
			q.RemoteAddr = ip + ":1"
			q.Header.Set("User-Agent", agent)
			if user != "" {
				q.Header.Set("Authorization", "Basic "+base64.StdEncoding.EncodeToString([]byte(user+":"+pass)))
			}
			rw := &vWriter{h: http.Header{}}
			s.Router.ServeHTTP(rw, q)
			return rw.code
		}
		for _, h := range []string{"one.example", "two.example", "three.example"} {
			c, ok := confs[h]
			if !ok {
				continue
			}
			g := c.Guard
			for i := 0; i < 3; i++ {
				ip := fmt.Sprint("1.1.1.", i)
				listed := g.Firewall.Rules["/"][0] == ip
				blocked := g.Firewall.Enabled && listed == g.Firewall.Blacklisting
				for k := 0; k < 6; k++ {
					got := ask(h, "GET", "/", ip, "agent", "", "")
					want := got != 403 && got != 429
					what := "served"
					if k >= g.RateBurst {
						want, what = got == 429, "429"
					}
					if blocked {
						want, what = got == 403, "403"
					}
					if !want {
						b, _ := json.Marshal(g)
						fail("request %d of client %s to %s is answered %d, want %s; guard %s, proxy %v, downloads %v", k+1, ip, h, got, what, b, c.Proxy.Enabled, c.Serve.Download.Enabled)
					}
				}
				if got := ask(h, "GET", "/", ip, "other agent", "", ""); !blocked && (got == 429) != g.FilterOnIP {
					fail("client %s with another user agent is answered %d by %s, FilterOnIP %v", ip, got, h, g.FilterOnIP)
				}
			}
		}
		m := s.Cfg.Core.Metrics.Path
		if s.Cfg.Core.Metrics.Enabled {
			for _, u := range [][3]string{{"", "", "401"}, {"ann", "hidden", "401"}, {"ann", "", "401"}, {"eve", "secret", "401"}, {"ann", "secret", "200"}, {"bob", "hidden", "200"}} {
				if got := ask("other.example", "GET", m, "7.7.7."+strconv.Itoa(r.Intn(200)), "a", u[0], u[1]); strconv.Itoa(got) != u[2] {
					fail("the metrics page answers %d to %q:%q, want %s", got, u[0], u[1], u[2])
				}
			}
		} else {
			q := httptest.NewRequest("GET", "http://other.example"+m, nil)
			q.RemoteAddr = "8.8.8.8:1"
			rw := &vWriter{h: http.Header{}}
			s.Router.ServeHTTP(rw, q)
			if strings.Contains(rw.body.String(), "Total requests") {
				fail("the metrics page is served while metrics are disabled")
			}
		}
	}
	fmt.Printf("REPLAY-CASES %d\n", n)
}

// ---- TLS

func TestReplayC24(t *testing.T) {
	r := rand.New(rand.NewSource(vSeed()))
	w := vNewWorld(t)
	defer w.close()
	ok := map[uint16]bool{tls.TLS_CHACHA20_POLY1305_SHA256: true, tls.TLS_AES_256_GCM_SHA384: true, tls.TLS_AES_128_GCM_SHA256: true,
		tls.TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305: true, tls.TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305: true, tls.TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384: true,
		tls.TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384: true, tls.TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256: true, tls.TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256: true}
	n := 0
	for ; n < 400; n++ {
		s := w.server(r)
		s.Cfg.Core.TLS.Enabled = true
		s.Cfg.Core.TLS.AutoCert.Enabled = r.Intn(2) == 0
		if r.Intn(2) == 0 {
			s.Cfg.Core.TLS.AutoCert.Certificates = []string{"a.example"}
		}
		if r.Intn(3) == 0 {
			s.Cfg.Core.TLS.PrivateCA = []string{filepath.Join(w.dir, "secret")}
		}
		s.Cfg.Core.VirtualHosting = r.Intn(2) == 0
		s.Cfg.Core.WebDAV = r.Intn(2) == 0
		s.Cfg.Core.Port = vPick(r, []string{"443", "8443", "80"})
		c := s.httpCreateTLSConfig()
		bad := ""
		if c.MinVersion < tls.VersionTLS12 {
			bad = fmt.Sprintf("minimum version %x", c.MinVersion)
		}
		if len(c.CipherSuites) == 0 {
			bad = "no cipher suites: the library's own list applies"
		}
		for _, cs := range c.CipherSuites {
			if !ok[cs] {
				bad = "offers " + tls.CipherSuiteName(cs)
			}
		}
		acme := false
		for _, p := range c.NextProtos {
			acme = acme || p == "acme-tls/1"
		}
		if s.Cfg.Core.TLS.AutoCert.Enabled && !acme {
			bad = fmt.Sprintf("automatic certificates, but the protocols are %q", c.NextProtos)
		}
		if bad != "" {
			b, _ := json.Marshal(s.Cfg.Core.TLS)
			fmt.Printf("REPLAY-FAIL httpCreateTLSConfig for %s port %s: %s\n", b, s.Cfg.Core.Port, bad)
			t.FailNow()
		}
	}
	fmt.Printf("REPLAY-CASES %d\n", n)
}

func TestReplayC02(t *testing.T) { vStart(t, "C02") }

func TestReplayC06(t *testing.T) { vStart(t, "C06") }

func TestReplayC23(t *testing.T) { vStart(t, "C23") }
