package cache

// Executable oracles for the cache's properties; see /verif/DESIGN.md. They run only after the verifier has rejected
// an obligation, to look for a concrete failing history.

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"strconv"
	"sync"
	"testing"
	"time"

	"github.com/cespare/xxhash"
)

func vSeed() int64 { n, _ := strconv.Atoi(os.Getenv("VERIF_SEED")); return int64(n) + 7 }

type vEntry struct {
	val      int
	tlo, thi int64 // when it was stored or last renewed
	touched  int   // operation number
}

var vKeyCache = map[string][]string{}

func vKeys(n int, sameShard bool) (ks []string) {
	id := fmt.Sprint(n, sameShard)
	if ks, ok := vKeyCache[id]; ok {
		return ks
	}
	defer func() { vKeyCache[id] = ks }()
	for i := 0; len(ks) < n; i++ {
		k := "key" + strconv.Itoa(i)
		if !sameShard || xxhash.Sum64([]byte(k))%256 == 17 {
			ks = append(ks, k)
		}
	}
	return
}

func vAge(c *SpearCache, k string, d uint64) {
	h := xxhash.Sum64([]byte(k))
	for _, s := range c.shards {
		if s == nil {
			continue
		}
		for i := range s.items {
			if s.items[i].key == h {
				s.items[i].modTime -= d
			}
		}
	}
}

func vHistory(r *rand.Rand, ops int, log *[]string) string {
	c := NewCache()
	nk := []int{2, 5, 12, 40, 1100}[r.Intn(5)]
	keys := vKeys(nk, r.Intn(4) != 0)
	m := map[string]*vEntry{}
	note := func(f string, a ...interface{}) { *log = append(*log, fmt.Sprintf(f, a...)) }
	for n := 0; n < ops; n++ {
		k := keys[r.Intn(len(keys))]
		if nk > 1000 {
			k = keys[n%len(keys)]
			if r.Intn(20) == 0 {
				k = keys[r.Intn(len(keys))]
			}
		}
		e := m[k]
		retained := e != nil && n-e.touched < 1000
		switch op := r.Intn(10); {
		case op < 4 || nk > 1000 && op < 9:
			t0 := time.Now().UnixNano()
			c.Set(k, n)
			m[k] = &vEntry{n, t0, time.Now().UnixNano(), n}
			note("Set %s %d", k, n)
		case op < 8:
			maxAge := []uint64{0, 1000, 1000000000, 60000000000, 1 << 62, 1 << 63, 1<<64 - 1}[r.Intn(7)]
			t0 := time.Now().UnixNano()
			ok, v := c.Get(k, maxAge)
			t1 := time.Now().UnixNano()
			note("Get %s %d = %v %v", k, maxAge, ok, v)
			if e == nil {
				if ok {
					return "an absent key was found"
				}
				continue
			}
			if ok && v != e.val {
				return fmt.Sprintf("returned %v, stored last was %v", v, e.val)
			}
			if !ok && retained && uint64(t1-e.tlo) <= maxAge {
				return "a fresh retained entry was reported absent"
			}
			if ok && uint64(t0-e.thi) > maxAge && t0 > e.thi {
				return "an expired entry was returned"
			}
			if ok {
				e.thi, e.touched = t1, n
			}
		case op < 9:
			t0 := time.Now().UnixNano()
			ok, v, age := c.Find(k)
			t1 := time.Now().UnixNano()
			note("Find %s = %v %v %v", k, ok, v, age)
			if e == nil {
				if ok {
					return "an absent key was found"
				}
				continue
			}
			if ok && v != e.val {
				return fmt.Sprintf("found %v, stored last was %v", v, e.val)
			}
			if !ok && retained {
				return "a retained entry was not found"
			}
			if ok && (int64(age) > t1-e.tlo || int64(age) < t0-e.thi) {
				return fmt.Sprintf("age %d, true age between %d and %d", age, t0-e.thi, t1-e.tlo)
			}
			if ok {
				e.thi, e.touched = t1, n
			}
		default:
			d := int64(1+r.Intn(3)) * 30000000000
			vAge(c, k, uint64(d))
			if e != nil {
				e.tlo -= d
				e.thi -= d
			}
			note("%v pass for %s", time.Duration(d), k)
		}
	}
	return ""
}

func TestReplayC10(t *testing.T) {
	r := rand.New(rand.NewSource(vSeed()))
	cases := 0
	for i := 0; i < 250; i++ {
		ops := 60
		if i%10 == 0 {
			ops = 3000
		}
		var log []string
		bad := func() (s string) {
			defer func() {
				if p := recover(); p != nil {
					s = fmt.Sprint("panic: ", p)
				}
			}()
			return vHistory(r, ops, &log)
		}()
		cases += len(log)
		if bad != "" {
			if len(log) > 40 {
				log = log[len(log)-40:]
			}
			b, _ := json.Marshal(log)
			fmt.Printf("REPLAY-FAIL %s; last operations on one cache: %s\n", bad, b)
			t.FailNow()
		}
	}
	fmt.Printf("REPLAY-CASES %d\n", cases)
}

func TestReplayC27(t *testing.T) { TestReplayC10(t) }

// With the race detector on, concurrent operations on all shards; a lock that is leaked makes an operation hang.
func TestReplayC11(t *testing.T) {
	for round := 0; round < 8; round++ {
		c := NewCache()
		done := make(chan string, 1)
		go func() {
			var wg sync.WaitGroup
			for g := 0; g < 8; g++ {
				g := g
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							select {
							case done <- fmt.Sprint("panic: ", p):
							default:
							}
						}
					}()
					for i := 0; i < 300; i++ {
						k := "k" + strconv.Itoa((i*7+g)%40)
						switch i % 4 {
						case 0:
							if i%16 == 0 {
								c.Set(k, nil)
							} else {
								c.Set(k, i/32)
							}
						case 1:
							c.Get(k, 1<<62)
						case 2:
							c.Get(k, 0)
						case 3:
							c.Find(k)
						}
					}
				}()
			}
			wg.Wait()
			select {
			case done <- "":
			default:
			}
		}()
		select {
		case bad := <-done:
			if bad != "" {
				fmt.Printf("REPLAY-FAIL 8 goroutines storing and looking up 40 keys: %s\n", bad)
				t.FailNow()
			}
		case <-time.After(20 * time.Second):
			fmt.Printf("REPLAY-FAIL 8 goroutines storing and looking up 40 keys of one cache never finish: a lock is never released\n")
			t.FailNow()
		}
	}
	fmt.Printf("REPLAY-CASES %d\n", 8*8*300)
}
