package tuna

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"testing"
	"time"
)

// vLoads: counting starts from the saved counts, goes on with every request, and a saved state is what was counted.
func vLoads(t *testing.T) {
	r := rand.New(rand.NewSource(vSeed()))
	w := vNewWorld(t)
	defer w.close()
	states := []string{"", "{}", "null", `{"TotalRequests":7}`, `{"Paths":{}}`, `{"TotalRequests":0,"Paths":null}`,
		`{"TotalRequests":3,"Paths":{"200":{"h/a":2},"404":null}}`, `{"TotalRequests":2,"Paths":{"200":{"h/":1},"301":{},"999":{"x/y":1}}}`}
	for i, saved := range states {
		for restart := 0; restart < 3; restart++ {
			s := w.server(r)
			s.metrics = metricsData{}
			s.Cfg.Core.Metrics.Enabled, s.Cfg.Core.TLS.Enabled = true, true
			s.Cfg.Core.Metrics.Out = w.dir + "/loads-" + fmt.Sprint(i) + ".json"
			if restart == 0 && saved != "" {
				os.WriteFile(s.Cfg.Core.Metrics.Out, []byte(saved), 0o600)
			}
			var md metricsData
			if b, err := os.ReadFile(s.Cfg.Core.Metrics.Out); err == nil {
				json.Unmarshal(b, &md)
				saved = string(b)
			}
			fail := func(f string, a ...interface{}) {
				fmt.Printf("REPLAY-FAIL a start from the saved state %q: %s\n", saved, fmt.Sprintf(f, a...))
				t.FailNow()
			}
			go s.metricsDaemon()
			on := false
			for k := 0; k < 100 && !on; k++ {
				time.Sleep(10 * time.Millisecond)
				s.metrics.mu.Lock()
				on = s.metrics.enabled
				s.metrics.mu.Unlock()
			}
			if !on {
				fail("requests are not counted although metrics are configured")
			}
			before, total := vCounts(&md), md.TotalRequests
			for k := 0; k < 5; k++ {
				q := vRequest(r, w.path(r))
				code := vPick(r, []string{"200", "404", "301"})
				n := map[string]int{"200": 200, "404": 404, "301": 301}[code]
				s.LogNetwork(n, q)
				before[fmt.Sprint(n, " ", vHost(q.Host), q.URL.Path)]++
				total++
			}
			s.metrics.mu.Lock()
			after := vCounts(&s.metrics)
			got := s.metrics.TotalRequests
			s.metrics.mu.Unlock()
			if got != total || fmt.Sprint(after) != fmt.Sprint(before) {
				fail("after 5 requests the counts are %v (%d), want %v (%d)", after, got, before, total)
			}
			s.flushMetrics()
			var back metricsData
			b, err := os.ReadFile(s.Cfg.Core.Metrics.Out)
			if err != nil || json.Unmarshal(b, &back) != nil || back.TotalRequests != total || fmt.Sprint(vCounts(&back)) != fmt.Sprint(before) {
				fail("after 5 requests %q is saved, want %v (%d)", b, before, total)
			}
		}
	}
}
