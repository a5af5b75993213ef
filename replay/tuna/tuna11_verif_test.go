package tuna

import (
	"fmt"
	"math/rand"
	"net/http"
	"os"
	"sync"
	"testing"
	"time"
)

// With the race detector on: pages, counts, the daemon and saves at the same time, some clients gone; a lock that is
// leaked makes an operation hang.
func TestReplayC11(t *testing.T) {
	r := rand.New(rand.NewSource(vSeed()))
	w := vNewWorld(t)
	defer w.close()
	n := 0
	for _, saved := range []string{"", "{}", "null", `{"TotalRequests":3,"Paths":{"200":{"h/a":2},"404":null}}`} {
		s := w.server(r)
		s.Cfg.Core.Metrics.Enabled, s.Cfg.Core.TLS.Enabled = true, true
		s.Cfg.Core.Metrics.Out = w.dir + "/metrics-" + fmt.Sprint(n) + ".json"
		if saved != "" {
			os.WriteFile(s.Cfg.Core.Metrics.Out, []byte(saved), 0o600)
		}
		q := func(p string) *http.Request { return vRequest(rand.New(rand.NewSource(1)), p) }
		done := make(chan int, 1)
		panics := make(chan string, 99)
		go s.metricsDaemon() // sleeps for minutes after loading
		go func() {
			var wg sync.WaitGroup
			for g := 0; g < 6; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							panics <- fmt.Sprint("panic: ", p)
						}
					}()
					for i := 0; i < 40; i++ {
						switch (i + g) % 5 {
						case 0:
							s.handleMetrics()(&vWriter{h: http.Header{}, fail: i%2 == 0}, q("/metrics"))
						case 1:
							s.flushMetrics()
						default:
							s.LogNetwork(200+i%3, q(fmt.Sprint("/", i%4)))
						}
					}
				}()
			}
			wg.Wait()
			time.Sleep(20 * time.Millisecond)
			s.LogNetwork(200, q("/"))
			done <- 1
		}()
		select {
		case p := <-panics:
			fmt.Printf("REPLAY-FAIL concurrent requests, metrics pages and saves, saved state %q: %s\n", saved, p)
			t.FailNow()
		case <-done:
		case <-time.After(20 * time.Second):
			fmt.Printf("REPLAY-FAIL concurrent requests, metrics pages and saves never finish, saved state %q: a lock is never released\n", saved)
			t.FailNow()
		}
		n++
	}
	fmt.Println("REPLAY-CASES", n*240)
}
