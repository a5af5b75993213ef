package guard

// Executable oracles for the guards' properties; see /verif/DESIGN.md.

import (
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http"
	"net/http/httptest"
	"net/url"
	"os"
	"path"
	"strconv"
	"strings"
	"sync"
	"testing"
	"time"
)

func vSeed() int64 { n, _ := strconv.Atoi(os.Getenv("VERIF_SEED")); return int64(n) + 7 }
func vHints() []string {
	var hs []string
	b, _ := os.ReadFile(os.Getenv("VERIF_HINTS"))
	json.Unmarshal(b, &hs)
	return hs
}
func vPick(r *rand.Rand, xs []string) string { return xs[r.Intn(len(xs))] }

func vReq(p, remote string) *http.Request {
	r := httptest.NewRequest("GET", "http://h/", nil)
	r.URL = &url.URL{Path: p}
	r.RemoteAddr = remote
	return r
}

func vListed(rules map[string][]string, p, host string) bool {
	for _, v := range rules[p] {
		if v == host || v == "*" {
			return true
		}
	}
	return false
}

func TestReplayC07(t *testing.T) {
	r := rand.New(rand.NewSource(vSeed()))
	paths := []string{"/", "/a", "/a/b", "/a/b/c", "/ab", "/b", "/a/", "/a b", "/c/d"}
	for _, h := range vHints() {
		if strings.HasPrefix(h, "/") && len(h) < 40 {
			paths = append(paths, path.Clean(h))
		}
	}
	addrs := []string{"1.2.3.4", "5.6.7.8", "::1", "host", "1.2.3.40"}
	n := 0
	for ; n < 60000; n++ {
		f := NewFirewall()
		f.Blacklisting, f.Subpath = r.Intn(2) == 0, r.Intn(2) == 0
		if r.Intn(9) > 0 {
			f.Rules = map[string][]string{}
			for k := r.Intn(4); k >= 0; k-- {
				var l []string
				for j := r.Intn(4); j > 0; j-- {
					l = append(l, vPick(r, append(addrs, "*")))
				}
				f.Rules[vPick(r, paths)] = l
			}
		}
		p, a := vPick(r, paths), vPick(r, addrs)
		remote := a + ":99"
		if strings.Contains(a, ":") {
			remote = "[" + a + "]:99"
		}
		listed := false
		for q := p; q != "/"; q = path.Dir(q) {
			listed = listed || vListed(f.Rules, q, a)
		}
		if p == "/" || !f.Subpath {
			listed = listed || vListed(f.Rules, "/", a)
		}
		want := f.Blacklisting != listed
		for i, wrap := range []func(http.HandlerFunc) http.HandlerFunc{f.BlockHTTP, f.BlockProxy} {
			served, w := 0, httptest.NewRecorder()
			bad := ""
			func() {
				defer func() {
					if e := recover(); e != nil {
						bad = fmt.Sprint("panic: ", e)
					}
				}()
				wrap(func(http.ResponseWriter, *http.Request) { served++ })(w, vReq(p, remote))
			}()
			if bad == "" && want && (served != 1 || w.Code != 200) {
				bad = "an admitted client is not served exactly once"
			}
			if bad == "" && !want && (served != 0 || w.Code != 403) {
				bad = fmt.Sprintf("a blocked client is served %d times, status %d", served, w.Code)
			}
			if bad != "" {
				b, _ := json.Marshal(f.Rules)
				fmt.Printf("REPLAY-FAIL %s: %s, rules %s, blacklisting %v, subpath %v, path %q, client %q\n", []string{"BlockHTTP", "BlockProxy"}[i], bad, b, f.Blacklisting, f.Subpath, p, remote)
				t.FailNow()
			}
		}
	}
	fmt.Printf("REPLAY-CASES %d\n", n)
}

func TestReplayC08(t *testing.T) {
	r := rand.New(rand.NewSource(vSeed()))
	words := []string{"", "a", "b", "user", "pass", "a:b", ":", "x y", "é", "User", "e3b0c44298fc1c149afbf4c8996fb92427ae41e4649b934ca495991b7852b855"}
	for _, h := range vHints() {
		if len(h) < 60 {
			words = append(words, h)
		}
	}
	n := 0
	for ; n < 60000; n++ {
		users := map[string]string{}
		for k := r.Intn(3); k > 0; k-- {
			u := vPick(r, words)
			if !strings.Contains(u, ":") {
				users[u] = vPick(r, words)
			}
		}
		u, p := vPick(r, words), vPick(r, words)
		for k := range users {
			if r.Intn(2) == 0 {
				u = k
				if r.Intn(2) == 0 {
					p = users[k]
				}
			}
		}
		text := u + ":" + p
		if r.Intn(8) == 0 {
			text = u
		}
		auth := "Basic " + base64.StdEncoding.EncodeToString([]byte(text))
		switch r.Intn(14) {
		case 0:
			auth = ""
		case 1:
			auth = "Basic"
		case 2:
			auth = "Bearer " + auth[6:]
		case 3:
			auth = "Basic %%" + auth[6:]
		case 4:
			auth = "basic " + auth[6:]
		}
		want := false
		if strings.HasPrefix(auth, "Basic ") {
			if d, err := base64.StdEncoding.DecodeString(auth[6:]); err == nil {
				if i := strings.Index(string(d), ":"); i >= 0 {
					q, ok := users[string(d[:i])]
					want = ok && q == string(d[i+1:])
				}
			}
		}
		b := SimpleBasicAuth(users)
		served, w, bad := 0, httptest.NewRecorder(), ""
		req := vReq("/", "1.2.3.4:5")
		if auth != "" {
			req.Header.Set("Authorization", auth)
		}
		func() {
			defer func() {
				if e := recover(); e != nil {
					bad = fmt.Sprint("panic: ", e)
				}
			}()
			b.Authenticate(func(http.ResponseWriter, *http.Request) { served++ })(w, req)
		}()
		switch {
		case bad != "":
		case want && (served != 1 || w.Code != 200):
			bad = fmt.Sprintf("registered credentials: served %d times, status %d", served, w.Code)
		case !want && served != 0:
			bad = "served without registered credentials"
		case !want && w.Code != 401:
			bad = fmt.Sprintf("refused with status %d", w.Code)
		case !want && w.Header().Get("WWW-Authenticate") == "":
			bad = "refused without naming a realm"
		}
		if bad != "" {
			m, _ := json.Marshal(users)
			fmt.Printf("REPLAY-FAIL %s: users %s, Authorization %q (text %q)\n", bad, m, auth, text)
			t.FailNow()
		}
	}
	fmt.Printf("REPLAY-CASES %d\n", n)
}

func TestReplayC09(t *testing.T) {
	r := rand.New(rand.NewSource(vSeed()))
	n := 0
	for ; n < 1500; n++ {
		burst := r.Intn(4)
		byIP := r.Intn(2) == 0
		l := NewLimiter(0.0001, burst, byIP)
		used := map[string]int{}
		var log []string
		for k := 0; k < 24; k++ {
			a := vPick(r, []string{"1.1.1.1", "2.2.2.2", "1.1.1.11", "[2001:db8:1:2:3::1]", "[2001:db8:1:2:3::2]", "[::1]", "host", "Host"})
			ua := vPick(r, []string{"", "x", "X", "1"})
			req := vReq("/", a+":"+strconv.Itoa(1+r.Intn(9)))
			if ua != "" {
				req.Header.Set("User-Agent", ua)
			}
			key := strings.Trim(a, "[]")
			if !byIP {
				key += ua
			}
			served, w, bad := 0, httptest.NewRecorder(), ""
			func() {
				defer func() {
					if e := recover(); e != nil {
						bad = fmt.Sprint("panic: ", e)
					}
				}()
				l.LimitHTTP(func(http.ResponseWriter, *http.Request) { served++ })(w, req)
			}()
			log = append(log, fmt.Sprintf("%s %q -> served %d, status %d", req.RemoteAddr, ua, served, w.Code))
			want := used[key] < burst
			used[key]++
			if bad == "" && want && (served != 1 || w.Code != 200) {
				bad = "a client with a token left is not served exactly once"
			}
			if bad == "" && !want && (served != 0 || w.Code != 429) {
				bad = "a client without a token is not refused with 429"
			}
			if bad != "" {
				fmt.Printf("REPLAY-FAIL %s: burst %d, rate about 0, filter on address alone %v, requests %v\n", bad, burst, byIP, log)
				t.FailNow()
			}
		}
	}
	// concurrent first requests of one client share its bucket
	for i := 0; i < 300; i++ {
		l := NewLimiter(0.0001, 1, true)
		served := make(chan int, 64)
		var wg sync.WaitGroup
		start := make(chan int)
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				<-start
				l.LimitHTTP(func(http.ResponseWriter, *http.Request) { served <- 1 })(httptest.NewRecorder(), vReq("/", "1.1.1.1:5"))
			}()
		}
		close(start)
		wg.Wait()
		if len(served) != 1 {
			fmt.Printf("REPLAY-FAIL burst 1, rate about 0: %d of 8 concurrent requests of client 1.1.1.1 are served\n", len(served))
			t.FailNow()
		}
		n++
	}
	fmt.Printf("REPLAY-CASES %d\n", n)
}

func TestReplayC11(t *testing.T) {
	done := make(chan int, 1)
	go func() {
		l := NewLimiter(0.0001, 3, true)
		b := SimpleBasicAuth(map[string]string{"a": "b"})
		f := NewFirewall()
		f.Rules = map[string][]string{"/": {"9.9.9.9"}}
		h := l.LimitHTTP(func(http.ResponseWriter, *http.Request) {})
		au := b.Authenticate(func(http.ResponseWriter, *http.Request) {})
		fw := f.BlockHTTP(func(http.ResponseWriter, *http.Request) {})
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 200; i++ {
					req := vReq("/a", "1.1.1."+strconv.Itoa((i+g)%5)+":5")
					h(httptest.NewRecorder(), req)
					au(httptest.NewRecorder(), req)
					fw(httptest.NewRecorder(), req)
				}
			}()
		}
		wg.Wait()
		done <- 1
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		fmt.Printf("REPLAY-FAIL 8 concurrent clients of one limiter never finish: a lock is never released\n")
		t.FailNow()
	}
	fmt.Printf("REPLAY-CASES 4800\n")
}

func TestReplayC27(t *testing.T) { TestReplayC07(t); TestReplayC08(t); TestReplayC09(t) }
