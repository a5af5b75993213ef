package tuna

import (
	"encoding/json"
	"fmt"
	"io/ioutil"
	"net"
	"net/http"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strings"
	"sync"
	"syscall"
	"testing"
	"time"

	"github.com/redmaner/MaguroHTTP/debug"
	"github.com/redmaner/MaguroHTTP/router"
)

func vSaved(p string) (metricsData, string) {
	var md metricsData
	b, err := os.ReadFile(p)
	if err != nil {
		return metricsData{}, "the metrics file cannot be read: " + err.Error()
	}
	if err := json.Unmarshal(b, &md); err != nil {
		return metricsData{}, fmt.Sprintf("the metrics file (%d bytes) is not a complete state: %v", len(b), err)
	}
	n := 0
	for _, m := range md.Paths {
		for _, c := range m {
			n += c
		}
	}
	if n != md.TotalRequests {
		return metricsData{}, fmt.Sprintf("the metrics file counts %d requests in its tables and %d in total", n, md.TotalRequests)
	}
	return metricsData{TotalRequests: md.TotalRequests, Paths: md.Paths}, ""
}

// While metrics are saved, again and again, by one and by several goroutines, with a disk that is full or not, the file
// is looked at all the time.
func TestReplayC28(t *testing.T) {
	w := vNewWorld(t)
	defer w.close()
	fail := func(f string, a ...interface{}) {
		fmt.Printf("REPLAY-FAIL "+f+"\n", a...)
		t.FailNow()
	}
	cases := 0
	for _, many := range []int{0, 1, 4} {
		s := &Server{Router: router.NewRouter(), logInterface: w.log, templates: w.tpl}
		s.Cfg.Core.Metrics.Enabled, s.Cfg.Core.TLS.Enabled = true, true
		s.metrics.enabled = true
		s.Cfg.Core.Metrics.Out = filepath.Join(w.dir, fmt.Sprint("saved", many))
		for i := 0; i < 40000; i++ {
			s.metrics.concat(200+i%4, fmt.Sprint("one.example/some/path/", i))
		}
		s.flushMetrics()
		if md, bad := vSaved(s.Cfg.Core.Metrics.Out); bad != "" || md.TotalRequests != 40000 {
			fail("after 40000 requests and a save: %s, %d requests", bad, md.TotalRequests)
		}
		cases++
		if many == 0 {
			// no room on the disk: what was saved before stays
			var old syscall.Rlimit
			syscall.Getrlimit(syscall.RLIMIT_FSIZE, &old)
			signal.Ignore(syscall.SIGXFSZ)
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 300000, Max: old.Max})
			s.metrics.concat(200, "x")
			s.flushMetrics()
			syscall.Setrlimit(syscall.RLIMIT_FSIZE, &old)
			if md, bad := vSaved(s.Cfg.Core.Metrics.Out); bad != "" || md.TotalRequests != 40000 {
				fail("40000 requests saved, then a save that fails because the disk is full: %s, %d requests", bad, md.TotalRequests)
			}
			continue
		}
		stop := make(chan int)
		var wg sync.WaitGroup
		for g := 0; g < many; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for i := 0; i < 12; i++ {
					s.metrics.concat(404, fmt.Sprint("p", i))
					s.flushMetrics()
				}
			}()
		}
		go func() { wg.Wait(); close(stop) }()
		for run := true; run; cases++ {
			select {
			case <-stop:
				run = false
			default:
			}
			if _, bad := vSaved(s.Cfg.Core.Metrics.Out); bad != "" {
				fail("%d goroutines saving 40000 paths, a crash at this point: %s", many, bad)
			}
		}
	}
	// after a start the saved state is still there
	state := `{"TotalRequests":1,"Paths":{"200":{"h/a":1}}}`
	s := &Server{logInterface: w.log}
	s.Cfg.Core.Metrics.Enabled, s.Cfg.Core.TLS.Enabled = true, true
	s.Cfg.Core.Metrics.Out = filepath.Join(w.dir, "loaded")
	os.WriteFile(s.Cfg.Core.Metrics.Out, []byte(state), 0o600)
	go s.metricsDaemon()
	for i := 0; i < 40; i++ {
		time.Sleep(10 * time.Millisecond)
		if md, bad := vSaved(s.Cfg.Core.Metrics.Out); bad != "" || md.TotalRequests != 1 {
			fail("a start from %s, a crash right after it: %s, %d requests", state, bad, md.TotalRequests)
		}
	}
	// a process that is stopped while the disk is full
	dir, err := os.MkdirTemp(w.dir, "stop")
	if err == nil {
		old := `{"TotalRequests":1,"Paths":{"200":{"` + strings.Repeat("x", 9000) + `":1}}}`
		os.WriteFile(filepath.Join(dir, "metrics.json"), []byte(old), 0o600)
		cmd := exec.Command("bash", "-c", "trap '' XFSZ; ulimit -f 4; exec \"$0\" -test.run '^TestReplayC28Child$'", os.Args[0])
		cmd.Env = append(os.Environ(), "VERIF_CHILD="+dir)
		started := filepath.Join(dir, "started")
		if cmd.Start() == nil {
			for i := 0; i < 100; i++ {
				if _, err := os.Stat(started); err == nil {
					break
				}
				time.Sleep(50 * time.Millisecond)
			}
			time.Sleep(300 * time.Millisecond)
			cmd.Process.Signal(syscall.SIGTERM)
			cmd.Wait()
			if _, bad := vSaved(filepath.Join(dir, "metrics.json")); bad != "" {
				fail("a stop while the disk is full: %s", bad)
			}
		}
	}
	fmt.Println("REPLAY-CASES", cases+2)
}

func TestReplayC28Child(t *testing.T) {
	dir := os.Getenv("VERIF_CHILD")
	if dir == "" {
		t.Skip()
	}
	s := &Server{Router: router.NewRouter()}
	s.logInterface, _ = debug.NewLogger(0, "x", filepath.Join(dir, "log"))
	s.Cfg.Core.Address, s.Cfg.Core.Port = "127.0.0.1", "0"
	s.Cfg.Core.Metrics.Enabled = true
	s.Cfg.Core.Metrics.Out = filepath.Join(dir, "metrics.json")
	s.metrics.enabled = true
	s.metrics.concat(200, strings.Repeat("y", 9000))
	ioutil.WriteFile(filepath.Join(dir, "started"), nil, 0o600)
	s.Serve()
}

func TestReplayC29Child(t *testing.T) {
	dir := os.Getenv("VERIF_CHILD")
	if dir == "" {
		t.Skip()
	}
	w := vNewWorld(t)
	s := &Server{Router: router.NewRouter(), logInterface: w.log, templates: w.tpl}
	s.Cfg.Core.Address, s.Cfg.Core.Port = "127.0.0.1", os.Getenv("VERIF_PORT")
	s.Cfg.Core.Metrics.Enabled = os.Getenv("VERIF_METRICS") != ""
	s.Cfg.Core.Metrics.Out = filepath.Join(dir, "metrics.json")
	s.metrics.enabled = true
	s.Router.ErrorHandler = s.HandleError
	wait, _ := time.ParseDuration(os.Getenv("VERIF_WAIT"))
	s.Router.AddRoute("DEFAULT", "/slow", false, "GET", "*", http.HandlerFunc(func(w http.ResponseWriter, r *http.Request) {
		ioutil.WriteFile(filepath.Join(dir, "started"), nil, 0o600)
		time.Sleep(wait)
		fmt.Fprint(w, strings.Repeat("slow answer ", 9))
		s.LogNetwork(200, r)
	}))
	s.Serve()
}

// A real server in a process of its own gets a signal while it answers a slow request.
func TestReplayC29(t *testing.T) {
	type tc struct {
		sig     syscall.Signal
		wait    time.Duration
		metrics bool
	}
	var wg sync.WaitGroup
	var mu sync.Mutex
	var bads []string
	tcs := []tc{{syscall.SIGTERM, 1500 * time.Millisecond, true}, {syscall.SIGINT, 1500 * time.Millisecond, true}, {syscall.SIGTERM, 500 * time.Millisecond, false}, {syscall.SIGTERM, 24 * time.Second, true}, {syscall.SIGTERM, 60 * time.Second, true}}
	for _, c := range tcs {
		c := c
		wg.Add(1)
		go func() {
			defer wg.Done()
			bad := func(f string, a ...interface{}) {
				mu.Lock()
				bads = append(bads, fmt.Sprintf("a request that takes %v, %v after its start: ", c.wait, c.sig)+fmt.Sprintf(f, a...))
				mu.Unlock()
			}
			dir, err := os.MkdirTemp(os.Getenv("VERIF_SCRATCH"), "stop")
			if err != nil {
				t.Error(err)
				return
			}
			defer os.RemoveAll(dir)
			l, err := net.Listen("tcp", "127.0.0.1:0")
			if err != nil {
				return
			}
			port := fmt.Sprint(l.Addr().(*net.TCPAddr).Port)
			l.Close()
			cmd := exec.Command(os.Args[0], "-test.run", "^TestReplayC29Child$")
			cmd.Env = append(os.Environ(), "VERIF_CHILD="+dir, "VERIF_SCRATCH="+dir, "VERIF_PORT="+port, "VERIF_WAIT="+c.wait.String())
			if c.metrics {
				cmd.Env = append(cmd.Env, "VERIF_METRICS=1")
			}
			cmd.Start()
			defer cmd.Process.Kill()
			ended := make(chan error, 1)
			go func() { ended <- cmd.Wait() }()
			got := make(chan string, 1)
			go func() {
				for i := 0; i < 100; i++ {
					r, err := http.Get("http://127.0.0.1:" + port + "/slow")
					if err != nil && strings.Contains(err.Error(), "refused") {
						time.Sleep(50 * time.Millisecond)
						continue
					}
					if err != nil {
						got <- err.Error()
						return
					}
					b, err := ioutil.ReadAll(r.Body)
					if err != nil || string(b) != strings.Repeat("slow answer ", 9) {
						got <- fmt.Sprintf("%v, %q", err, b)
						return
					}
					got <- ""
					return
				}
				got <- "no answer"
			}()
			for i := 0; ; i++ {
				if _, err := os.Stat(filepath.Join(dir, "started")); err == nil {
					break
				}
				if i > 200 {
					return // the server did not start here
				}
				time.Sleep(50 * time.Millisecond)
			}
			start := time.Now()
			cmd.Process.Signal(c.sig)
			time.Sleep(400 * time.Millisecond)
			if conn, err := net.DialTimeout("tcp", "127.0.0.1:"+port, time.Second); err == nil {
				conn.Close()
				bad("a new connection is still accepted")
			}
			select {
			case <-ended:
				took := time.Since(start)
				if c.wait > 30*time.Second && took < 29*time.Second {
					bad("the process ended after %v", took)
				}
			case <-time.After(40 * time.Second):
				bad("the process does not end")
				cmd.Process.Kill()
			}
			if g := <-got; g != "" && c.wait < 30*time.Second {
				bad("the request was not answered completely: %s", g)
			}
			if c.metrics {
				if _, err := os.Stat(filepath.Join(dir, "metrics.json")); err != nil {
					bad("metrics were not saved: %v", err)
				}
			}
		}()
	}
	wg.Wait()
	if len(bads) > 0 {
		for _, b := range bads {
			fmt.Println("REPLAY-FAIL", b)
		}
		t.FailNow()
	}
	fmt.Println("REPLAY-CASES", len(tcs))
}
