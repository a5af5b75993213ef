package router

import (
	"fmt"
	"net/http"
	"net/http/httptest"
	"strconv"
	"sync"
	"testing"
	"time"
)

// Whatever the request, it is answered without a panic.
func TestReplayC27(t *testing.T) {
	vRun(t, "C27", 60000, false, func(vTrace, int, int, []int, string) string { return "" })
}

// With the race detector on: requests while routes and middleware are registered, some of them from inside a handler
// or a middleware; a lock that is leaked, or held while a handler runs, makes an operation hang.
func TestReplayC11(t *testing.T) {
	sr := NewRouter()
	ok := http.HandlerFunc(func(http.ResponseWriter, *http.Request) {})
	sr.ErrorHandler = func(w http.ResponseWriter, q *http.Request, code int) { sr.AddRoute("h", "/e"+strconv.Itoa(code), true, "GET", ";", ok) }
	done := make(chan string, 20)
	go func() {
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			g := g
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer func() {
					if p := recover(); p != nil {
						done <- fmt.Sprint("panic: ", p)
					}
				}()
				for i := 0; i < 150; i++ {
					i := i
					p := "/p" + strconv.Itoa(i%7)
					switch (i + g) % 4 {
					case 0:
						sr.AddRoute("h", p, true, "GET", ";", http.HandlerFunc(func(http.ResponseWriter, *http.Request) { sr.AddRoute("k", p, true, "PUT", ";", ok) }))
					case 1:
						sr.UseMiddleware("h", p, MiddlewareHandler(func(h http.Handler) http.Handler {
							if i%50 == 1 {
								sr.AddRoute("m", p, true, "GET", ";", ok)
							}
							return h
						}))
					default:
						sr.ServeHTTP(httptest.NewRecorder(), httptest.NewRequest([]string{"GET", "PUT"}[i%2], "http://h"+p+"/x", nil))
					}
				}
			}()
		}
		wg.Wait()
		done <- ""
	}()
	select {
	case bad := <-done:
		if bad != "" {
			fmt.Printf("REPLAY-FAIL concurrent registrations and requests: %s\n", bad)
			t.FailNow()
		}
	case <-time.After(40 * time.Second):
		fmt.Printf("REPLAY-FAIL concurrent registrations and requests never finish: a lock is never released\n")
		t.FailNow()
	}
	fmt.Println("REPLAY-CASES 1200")
}
