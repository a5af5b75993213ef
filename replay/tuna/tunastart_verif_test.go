package tuna

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"net/http/httptest"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"testing"
	"time"

	"github.com/hashicorp/hcl"
)

type vStarted struct {
	Cfg    Config
	Vhosts map[string]Config
	Level  int
	Page   string // the answer to a request no route admits
	Home   int    // the status of a request for a configured route
	On     bool   // metrics are counted
	Dav    int    // the status of a WebDAV request for a configured route
}

// vStartFiles writes the configuration files of case i, deterministically.
func vStartFiles(dir string, i int) {
	r := rand.New(rand.NewSource(vSeed()*1000 + int64(i)))
	d := filepath.Join(dir, strconv.Itoa(i))
	os.MkdirAll(d+"/files", 0o755)
	os.WriteFile(d+"/404.html", []byte("own page of "+d), 0o644)
	os.WriteFile(d+"/files/index.html", []byte("home"), 0o644)
	dav := r.Intn(2) == 0
	site := func(k int) map[string]interface{} {
		c := map[string]interface{}{}
		methods := map[string]string{"/": "GET"}
		if dav {
			methods["/dav"] = "PROPFIND"
		}
		serve := map[string]interface{}{"ServeIndex": "index.html", "Headers": map[string]string{fmt.Sprint("X-S", k): "v"},
			"Methods": methods, "MIMETypes": map[string]interface{}{"ResponseTypes": map[string]string{fmt.Sprint(".x", k): "t/x"}}}
		if r.Intn(9) > 0 {
			serve["ServeDir"] = d + "/files" + vPick(r, []string{"", "/"})
		}
		if r.Intn(3) == 0 {
			serve["Download"] = map[string]interface{}{"Enabled": true, "Exts": []string{".zip", fmt.Sprint(".e", k)}}
		}
		c["Serve"] = serve
		if r.Intn(3) == 0 {
			p := map[string]interface{}{"Enabled": true, "Methods": []string{"GET"}}
			if r.Intn(5) > 0 {
				p["Rules"] = map[string]string{fmt.Sprintf("p%d.example", k): fmt.Sprint("http://127.0.0.1:9/", k)}
			}
			c["Proxy"] = p
		}
		if r.Intn(2) == 0 {
			c["Guard"] = map[string]interface{}{"Rate": 6000 + 60*k, "RateBurst": 100 + k, "Firewall": map[string]interface{}{"Enabled": r.Intn(2) == 0, "Blacklisting": true, "Subpath": r.Intn(2) == 0}}
		}
		if r.Intn(3) > 0 {
			c["Errors"] = map[string]string{"404": d + "/404.html"}
		}
		return c
	}
	write := func(name string, c map[string]interface{}) {
		b, _ := json.MarshalIndent(c, "", " ")
		os.WriteFile(filepath.Join(d, name), b, 0o644)
	}
	main := site(0)
	core := map[string]interface{}{"FileDir": d + vPick(r, []string{"", "/"}), "LogLevel": r.Intn(4), "LogOut": d + "/log", "Port": vPick(r, []string{"80", "443"}), "WebDAV": dav}
	if r.Intn(12) == 0 {
		core["LogOut"] = ""
	}
	if r.Intn(2) == 0 {
		core["TLS"] = map[string]interface{}{"Enabled": true, "TLSCert": "c", "TLSKey": "k"}
		core["Metrics"] = map[string]interface{}{"Enabled": true, "Path": "/metrics", "Out": d + "/metrics.json", "Users": map[string]string{"u": "p"}}
	}
	if r.Intn(3) > 0 {
		core["VirtualHosting"] = true
		hosts := map[string]string{}
		for k := 1 + r.Intn(3); k > 0; k-- {
			v := site(k)
			if r.Intn(9) == 0 {
				v["Core"] = map[string]interface{}{"VirtualHosting": true}
			}
			write(fmt.Sprintf("vhost%d.json", k), v)
			hosts[fmt.Sprintf("v%d.example", k)] = filepath.Join(d, fmt.Sprintf("vhost%d.json", k))
			hosts[fmt.Sprintf("w%d.example", k)] = filepath.Join(d, fmt.Sprintf("vhost%d.json", 1))
			if _, err := os.Stat(filepath.Join(d, "vhost1.json")); err != nil {
				write("vhost1.json", site(1))
			}
		}
		core["VirtualHosts"] = hosts
	}
	main["Core"] = core
	write("main.json", main)
}

// vStart starts servers in child processes, since a refused configuration ends the process.
func vStart(t *testing.T, prop string) {
	if dir := os.Getenv("VERIF_START"); dir != "" {
		n, _ := strconv.Atoi(os.Getenv("VERIF_FROM"))
		for ; n < 120; n++ {
			d := filepath.Join(dir, strconv.Itoa(n))
			var s *Server
			if n%2 == 0 {
				s = NewInstanceFromConfig(d + "/main.json")
			} else {
				cfg := NewConfig()
				LoadConfigFromFile(d+"/main.json", &cfg)
				s = NewInstance(cfg.Core)
			}
			rw := httptest.NewRecorder()
			s.Router.ServeHTTP(rw, httptest.NewRequest("DELETE", "http://nowhere.example/none/such", nil))
			o := vStarted{Cfg: s.Cfg, Vhosts: s.Vhosts, Level: s.logInterface.Debug, Page: fmt.Sprint(rw.Code, " ", rw.Body.String())}
			if n%2 == 0 && s.Cfg.Core.Metrics.Enabled && s.Cfg.Core.TLS.Enabled {
				for k := 0; k < 300 && !o.On; k++ {
					s.metrics.mu.Lock()
					o.On = s.metrics.enabled
					s.metrics.mu.Unlock()
					time.Sleep(5 * time.Millisecond)
				}
			}
			q := httptest.NewRequest("GET", "http://v1.example/", nil)
			q.RemoteAddr = "9.9.9.9:1"
			home := httptest.NewRecorder()
			s.Router.ServeHTTP(home, q)
			o.Home = home.Code
			q = httptest.NewRequest("PROPFIND", "http://v1.example/dav", nil)
			q.RemoteAddr = "9.9.9.9:1"
			home = httptest.NewRecorder()
			s.Router.ServeHTTP(home, q)
			o.Dav = home.Code
			if s.Router.WebDAV != s.Cfg.Core.WebDAV {
				o.Dav = -1
			}
			b, _ := json.Marshal(o)
			fmt.Printf("\nSTARTED %d %s\n", n, b)
		}
		os.Exit(0)
	}
	if os.Getenv("VERIF_CHILD") != "" {
		return
	}
	w := vNewWorld(t)
	defer w.close()
	dir := filepath.Join(w.dir, "starts")
	for i := 0; i < 120; i++ {
		vStartFiles(dir, i)
	}
	read := func(f string, c Config) Config {
		b, _ := os.ReadFile(f)
		hcl.Unmarshal(b, &c)
		return c
	}
	slash := func(s string) string { return strings.TrimSuffix(s, "/") + "/" }
	js := func(v interface{}) string { b, _ := json.Marshal(v); return string(b) }
	for n := 0; n < 120; n++ {
		cmd := exec.Command(os.Args[0], "-test.run", "^"+t.Name()+"$")
		cmd.Env = append(os.Environ(), "VERIF_START="+dir, "VERIF_FROM="+strconv.Itoa(n))
		out, err := cmd.CombinedOutput()
		last := n - 1
		check := func(props string, ok bool, f string, a ...interface{}) {
			if !ok && strings.Contains(props, prop) {
				files := ""
				d := filepath.Join(dir, strconv.Itoa(last))
				for _, x := range []string{"main.json", "vhost1.json", "vhost2.json", "vhost3.json"} {
					if b, err := os.ReadFile(filepath.Join(d, x)); err == nil {
						files += x + " " + string(b) + " "
					}
				}
				fmt.Printf("REPLAY-FAIL a start (even: from file) number %d: %s\nfiles: %s\n", last, fmt.Sprintf(f, a...), files)
				t.FailNow()
			}
		}
		valid := func(i int) (string, Config, map[string]Config) {
			d := filepath.Join(dir, strconv.Itoa(i))
			c, vs := read(d+"/main.json", NewConfig()), map[string]Config{}
			bad := ""
			if i%2 == 0 && !vConfigOK(&c, false) {
				bad = "main.json"
			}
			if c.Core.VirtualHosting {
				for h, f := range c.Core.VirtualHosts {
					v := read(f, NewVhostConfig())
					if !vConfigOK(&v, true) {
						bad = h
					}
					if !v.Proxy.Enabled && v.Serve.Download.Enabled {
						v.Serve.ServeDir = slash(v.Serve.ServeDir)
					}
					vs[h] = v
				}
			}
			if c.Core.LogOut == "" {
				bad = "LogOut"
			}
			return bad, c, vs
		}
		for _, l := range strings.Split(string(out), "\n") {
			f := strings.SplitN(l, " ", 3)
			if f[0] != "STARTED" {
				continue
			}
			last, _ = strconv.Atoi(f[1])
			var o vStarted
			json.Unmarshal([]byte(f[2]), &o)
			bad, c, vs := valid(last)
			check("C21", bad == "", "a server starts although %s is not acceptable", bad)
			for h, v := range vs {
				check("C17 C21", js(o.Vhosts[h]) == js(v), "the settings of %s are %s, want %s", h, js(o.Vhosts[h]), js(v))
			}
			check("C23", o.Level == c.Core.LogLevel, "log level %d, want %d", o.Level, c.Core.LogLevel)
			own := "<!doctype"
			if p := c.Errors["404"]; strings.HasPrefix(o.Page, "404 ") && p != "" && last%2 == 0 {
				b, _ := os.ReadFile(p)
				own = string(b)
			}
			check("C02 C13 C18", (strings.HasPrefix(o.Page, "404 ") || strings.HasPrefix(o.Page, "405 ")) && strings.Contains(o.Page, own), "a request no route admits is answered %q", o.Page)
			check("C06", o.Dav >= 0, "WebDAV methods can be registered: %v", !c.Core.WebDAV)
			if last%2 == 0 {
				check("C19", o.On == (c.Core.Metrics.Enabled && c.Core.TLS.Enabled), "metrics counted: %v", o.On)
				if v, ok := vs["v1.example"]; ok && !v.Proxy.Enabled && !v.Serve.Download.Enabled {
					check("C22", o.Home != 404, "a configured route is answered %d", o.Home)
				}
			}
		}
		if err == nil {
			break
		}
		n = last + 1
		bad, _, _ := valid(n)
		last = n
		check("C06", bad != "" || !strings.Contains(string(out), "is not allowed"), "a method of the configuration is refused: %s", vShort(string(out)))
		check("C21", bad != "", "refused: %s", vShort(string(out)))
	}
}
