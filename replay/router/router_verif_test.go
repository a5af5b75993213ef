package router

// Executable oracles for the router's properties. They are run only to look for a concrete failing input after the
// verifier has rejected an obligation (and, in the thorough tier, to validate the trusted contracts).

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"os/exec"
	"path"
	"strconv"
	"strings"
	"testing"
	"time"
)

func vSeed() int64 { n, _ := strconv.Atoi(os.Getenv("VERIF_SEED")); return int64(n) + 7 }
func vHints() []string {
	var hs []string
	b, _ := os.ReadFile(os.Getenv("VERIF_HINTS"))
	json.Unmarshal(b, &hs)
	return hs
}

type vRoute struct {
	host, path, method, content string
	fallback                    bool
	id                          int
}
type vMW struct {
	host, path string
	id         int
}

type vTable struct {
	routes map[string]map[string]vRoute
	mws    map[string][]int
	exist  map[string]bool
}

func vTrim(p string) string {
	if p != "/" && strings.HasSuffix(p, "/") {
		return p[:len(p)-1]
	}
	return p
}
func (t *vTable) add(r vRoute) {
	k := r.host + vTrim(r.path)
	if t.routes[k] == nil {
		t.routes[k] = map[string]vRoute{}
	}
	t.routes[k][r.method] = r
	t.exist[k] = true
}
func (t *vTable) use(m vMW) {
	k := m.host + vTrim(m.path)
	t.mws[k] = append(t.mws[k], m.id)
	t.exist[k] = true
}
func vCanon(p string) string {
	if !strings.HasPrefix(p, "/") {
		p = "/" + p
	}
	c := path.Clean(p)
	if c != "/" && strings.HasSuffix(p, "/") {
		c += "/"
	}
	return c
}
func vHost(h string) string {
	if a, _, err := net.SplitHostPort(h); err == nil {
		return a
	}
	return h
}

// match: key, 2 exact / 1 ancestor / 0 none
func (t *vTable) match(h, p string) (string, int) {
	if t.exist[h+p] {
		return h + p, 2
	}
	for q := p; q != "/"; q = path.Dir(q) {
		if t.exist[h+q] {
			return h + q, 1
		}
	}
	if t.exist[h+"/"] {
		return h + "/", 1
	}
	return "", 0
}

// expect: status, route id, middleware order (outermost first)
func (t *vTable) expect(host, p, method, ct string) (int, int, []int) {
	h := vHost(host)
	k, kind := t.match(h, p)
	dk, dkind := t.match("DEFAULT", p)
	if kind == 0 || kind == 1 && dkind == 2 {
		k, kind = dk, dkind
	}
	if kind == 0 {
		return 404, 0, nil
	}
	r, ok := t.routes[k][method]
	if !ok {
		return 405, 0, nil
	}
	mt := strings.Split(ct, ";")[0]
	acc := r.content == "*"
	for _, x := range strings.Split(r.content, ";") {
		acc = acc || x == mt
	}
	if !acc {
		return 406, 0, nil
	}
	if kind == 1 && !r.fallback {
		return 404, 0, nil
	}
	return 200, r.id, t.mws[k]
}

type vTrace struct {
	served  []int
	mw      []int
	errs    []int
	path    string
	sameReq bool
}

type vCase struct {
	Ops  []string
	Host string
	Path string
	Meth string
	CT   string
}

var vHosts = []string{"DEFAULT", "a.com", "b.com", "a", "[::1]"}
var vPaths = []string{"/", "/a", "/a/", "/a/b", "/a/b/c", "/b", "/b/", "/a/b/", "/ab", "/a.b", "/c/d"}
var vMeths = []string{"GET", "POST", "PUT", "DELETE", "HEAD", "OPTIONS", "PATCH", "CONNECT"}
var vConts = []string{";", "*", "text/html", "text/html;", "text/html;application/json", "application/json;text/plain;", "a;b;c;d"}
var vCTs = []string{"", "text/html", "text/html; charset=utf-8", "application/json", "text/plain", "b", "d", "*", ";", "text/htm", " text/html", "text/html ;x"}
var vReqHosts = []string{"a.com", "a.com:80", "b.com", "b.com:8080", "x.com", "a", "a:1", "DEFAULT", "", ":80", "[::1]:80", "[::1]", "::1", "a:b:c"}
var vReqPaths = []string{"", "/", "/a", "/a/", "a", "/a/b", "/a//b", "/a/./b", "/a/../b", "/../a", "/a/b/c/d/e", "/b/x", "/b/", "/zz", "//a", "/a/b/..", "/a/b/../", "/.", "/..", "a/b/", "/ab/c", "/c/d/", "/c", "/a.b/c"}

func vPick(r *rand.Rand, xs []string) string { return xs[r.Intn(len(xs))] }

// vRun registers a random table and sends requests; check returns a description of a deviation.
func vRun(t *testing.T, name string, n int, webdav bool, check func(tr vTrace, st, id int, mws []int, p string) string) {
	rng := rand.New(rand.NewSource(vSeed()))
	hints := vHints()
	cases := 0
	start := time.Now()
	pick := func(xs []string) string {
		if len(hints) > 0 && rng.Intn(8) == 0 {
			return vPick(rng, hints)
		}
		return vPick(rng, xs)
	}
	for i := 0; i < n && time.Since(start) < 40*time.Second; i++ {
		sr := NewRouter()
		sr.WebDAV = webdav
		var tr vTrace
		sr.ErrorHandler = func(w http.ResponseWriter, r *http.Request, code int) {
			tr.errs = append(tr.errs, code)
			tr.path = r.URL.Path
		}
		tab := &vTable{routes: map[string]map[string]vRoute{}, mws: map[string][]int{}, exist: map[string]bool{}}
		var ops []string
		regHost := func() string {
			for {
				h := pick(vHosts)
				if h != "" && !strings.Contains(h, "/") {
					return h
				}
			}
		}
		regPath := func() string {
			for {
				p := pick(vPaths)
				if strings.HasPrefix(p, "/") {
					return p
				}
			}
		}
		nops := 1 + rng.Intn(9)
		for j := 0; j < nops; j++ {
			id := j + 1
			if rng.Intn(3) == 0 {
				m := vMW{regHost(), regPath(), id}
				tab.use(m)
				sr.UseMiddleware(m.host, m.path, MiddlewareHandler(func(next http.Handler) http.Handler {
					return http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
						tr.mw = append(tr.mw, id)
						next.ServeHTTP(w, r)
					})
				}))
				ops = append(ops, fmt.Sprintf("UseMiddleware(%q,%q,#%d)", m.host, m.path, id))
				continue
			}
			ms := vMeths
			if rng.Intn(2) == 0 {
				ms = vMeths[:2]
			}
			r := vRoute{regHost(), regPath(), vPick(rng, ms), pick(vConts), rng.Intn(2) == 0, id}
			tab.add(r)
			sr.AddRoute(r.host, r.path, r.fallback, r.method, r.content, http.HandlerFunc(func(w http.ResponseWriter, q *http.Request) {
				tr.served = append(tr.served, id)
				tr.path = q.URL.Path
			}))
			ops = append(ops, fmt.Sprintf("AddRoute(%q,%q,%v,%q,%q,#%d)", r.host, r.path, r.fallback, r.method, r.content, id))
		}
		for q := 0; q < 12; q++ {
			cases++
			host, p, ct := pick(vReqHosts), pick(vReqPaths), pick(vCTs)
			meth := vPick(rng, append(vMeths[:3:3], "COPY", "get", ""))
			req := &http.Request{Method: meth, Host: host, URL: &url.URL{Path: p}, Header: http.Header{}}
			switch rng.Intn(4) {
			case 0:
				req.URL.RawPath = vPick(rng, vReqPaths)
				req.URL.RawQuery = "a=b"
			case 1:
				req.RequestURI = p
			}
			if ct != "" || rng.Intn(2) == 0 {
				req.Header.Set("Content-Type", ct)
			}
			tr = vTrace{}
			cp := vCanon(p)
			st, id, mws := tab.expect(host, cp, meth, ct)
			msg := ""
			func() {
				defer func() {
					if x := recover(); x != nil {
						msg = fmt.Sprint("panic: ", x)
					}
				}()
				sr.ServeHTTP(httptest.NewRecorder(), req)
			}()
			if msg == "" {
				msg = check(tr, st, id, mws, cp)
			}
			if msg != "" {
				t.Fatalf("REPLAY-FAIL %s: %s\n  registrations: %s\n  request: host %q path %q method %q content-type %q\n  expected status %d handler #%d middleware %v; observed %+v", name, msg, strings.Join(ops, " "), host, p, meth, ct, st, id, mws, tr)
			}
		}
	}
	fmt.Println("REPLAY-CASES", cases)
}

func TestReplayC01(t *testing.T) {
	vRun(t, "C01", 60000, false, func(tr vTrace, st, id int, mws []int, p string) string {
		if st == 200 {
			if len(tr.errs) != 0 || len(tr.served) != 1 || tr.served[0] != id {
				return "the selected handler is not the one called"
			}
		} else if len(tr.served) != 0 {
			return "a handler ran for a request that must be refused"
		}
		return ""
	})
}

func TestReplayC02(t *testing.T) {
	vRun(t, "C02", 60000, false, func(tr vTrace, st, id int, mws []int, p string) string {
		if st != 200 && (len(tr.errs) != 1 || tr.errs[0] != st) {
			return "wrong refusal"
		}
		if st != 200 && len(tr.served) > 0 {
			return "handler ran although refused"
		}
		if st == 200 && len(tr.errs) > 0 {
			return "refused although admitted"
		}
		return ""
	})
	// the default error handler answers with the status
	sr := NewRouter()
	for _, c := range []int{404, 405, 406} {
		w := httptest.NewRecorder()
		sr.ErrorHandler(w, httptest.NewRequest("GET", "/", nil), c)
		if w.Code != c {
			t.Fatalf("REPLAY-FAIL C02: default error handler answers %d for %d", w.Code, c)
		}
	}
}

func TestReplayC03(t *testing.T) {
	vRun(t, "C03", 60000, false, func(tr vTrace, st, id int, mws []int, p string) string {
		got406 := len(tr.errs) == 1 && tr.errs[0] == 406
		if got406 != (st == 406) {
			return "wrong decision on the content type"
		}
		if st == 200 && len(tr.served) == 0 {
			return "not served"
		}
		return ""
	})
}

func TestReplayC04(t *testing.T) {
	vRun(t, "C04", 60000, false, func(tr vTrace, st, id int, mws []int, p string) string {
		if tr.path != p {
			return fmt.Sprintf("path seen %q, canonical path %q", tr.path, p)
		}
		if st == 200 && (len(tr.served) != 1 || tr.served[0] != id) {
			return "routed by another path"
		}
		return ""
	})
}

func TestReplayC05(t *testing.T) {
	vRun(t, "C05", 60000, false, func(tr vTrace, st, id int, mws []int, p string) string {
		if st != 200 {
			if len(tr.mw) != 0 {
				return "middleware ran for a refused request"
			}
			return ""
		}
		if fmt.Sprint(tr.mw) != fmt.Sprint(mws) && len(tr.mw)+len(mws) > 0 {
			return "wrong middleware chain"
		}
		if len(tr.served) != 1 {
			return "handler not called exactly once"
		}
		return ""
	})
}

func TestReplayC06(t *testing.T) {
	vRun(t, "C06", 40000, false, func(tr vTrace, st, id int, mws []int, p string) string {
		if st == 200 && (len(tr.served) != 1 || tr.served[0] != id || fmt.Sprint(append([]int{}, tr.mw...)) != fmt.Sprint(append([]int{}, mws...))) {
			return "registration did not take effect as given"
		}
		if st != 200 && (len(tr.errs) != 1 || tr.errs[0] != st) {
			return "registration changed something else"
		}
		return ""
	})
	// refusals end the process or panic, so every case runs in a child
	meths := append(append([]string{}, vMeths...), "PROPFIND", "PROPPATCH", "MKCOL", "COPY", "MOVE", "LOCK", "UNLOCK", "TRACE", "get", "", "FOO", "GET ")
	for _, h := range vHints() {
		if len(meths) < 40 && !strings.ContainsAny(h, "\x00") {
			meths = append(meths, h)
		}
	}
	webdavSet := map[string]bool{"PROPFIND": true, "PROPPATCH": true, "MKCOL": true, "COPY": true, "MOVE": true, "LOCK": true, "UNLOCK": true}
	httpSet := map[string]bool{}
	for _, m := range vMeths {
		httpSet[m] = true
	}
	try := func(kind, host, p, m string, nilh, dav, want bool) {
		c := exec.Command(os.Args[0], "-test.run", "^TestReplayChildC06$")
		c.Env = append(os.Environ(), "VERIF_CHILD="+strings.Join([]string{kind, host, p, m, fmt.Sprint(nilh), fmt.Sprint(dav)}, "|"))
		out, _ := c.CombinedOutput()
		if got := strings.Contains(string(out), "ACCEPTED"); got != want {
			t.Fatalf("REPLAY-FAIL C06: %s host %q path %q method %q nil handler %v WebDAV %v: accepted=%v, want %v", kind, host, p, m, nilh, dav, got, want)
		}
	}
	for _, dav := range []bool{false, true} {
		for _, m := range meths {
			try("route", "h", "/p", m, false, dav, httpSet[m] || dav && webdavSet[m])
		}
		try("route", "", "/p", "GET", false, dav, false)
		try("route", "h", "", "GET", false, dav, false)
		try("route", "h", "/p", "GET", true, dav, false)
		try("route", "h", "/", "GET", false, dav, true)
		try("route", "h", "/p/", "GET", false, dav, true)
	}
	try("mw", "", "/p", "", false, false, false)
	try("mw", "h", "", "", false, false, false)
	try("mw", "h", "/p", "", true, false, false)
	try("mw", "h", "/p/", "", false, false, true)
	try("mw", "h", "/", "", false, false, true)
}

func TestReplayChildC06(t *testing.T) {
	v := os.Getenv("VERIF_CHILD")
	if v == "" {
		t.Skip()
	}
	p := strings.Split(v, "|")
	sr := NewRouter()
	sr.WebDAV = p[5] == "true"
	if p[0] == "mw" {
		var m Middleware
		if p[4] != "true" {
			m = MiddlewareHandler(func(h http.Handler) http.Handler { return h })
		}
		sr.UseMiddleware(p[1], p[2], m)
	} else {
		var h http.Handler
		if p[4] != "true" {
			h = http.HandlerFunc(func(http.ResponseWriter, *http.Request) {})
		}
		sr.AddRoute(p[1], p[2], false, p[3], ";", h)
	}
	fmt.Println("ACCEPTED")
}

func TestReplayC26(t *testing.T) {
	rng := rand.New(rand.NewSource(vSeed()))
	al := []string{"a", ":", "[", "]", "1", ".", "b", "80", "::1", ""}
	in := append(append([]string{}, vReqHosts...), vHints()...)
	for i := 0; i < 200000; i++ {
		s := ""
		for n := rng.Intn(8); n > 0; n-- {
			s += vPick(rng, al)
		}
		in = append(in, s)
	}
	for _, h := range in {
		if got := StripHostPort(h); got != vHost(h) {
			t.Fatalf("REPLAY-FAIL C26: StripHostPort(%q) = %q, want %q", h, got, vHost(h))
		}
	}
	fmt.Println("REPLAY-CASES", len(in))
}
