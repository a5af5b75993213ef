package debug

// Executable oracle for the logger; see /verif/DESIGN.md.

import (
	"bytes"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"log"
	"os"
	"strconv"
	"testing"
)

func vHints() []string {
	var hs []string
	b, _ := os.ReadFile(os.Getenv("VERIF_HINTS"))
	json.Unmarshal(b, &hs)
	return hs
}

func TestReplayC23(t *testing.T) {
	label := []string{"", "NET: ", "ERROR: ", "DEBUG: ", "VERBOSE: "}
	levels := []int{-5, -1, 0, 1, 2, 3, 4, 5, 6, 7, 10, 100, 1 << 40}
	msgs := []error{nil, errors.New(""), errors.New("text"), io.EOF, fmt.Errorf("ERROR: %w", io.EOF)}
	for _, h := range vHints() {
		if n, err := strconv.Atoi(h); err == nil {
			levels = append(levels, n, n+1, n-1)
		}
		msgs = append(msgs, errors.New(h))
	}
	n := 0
	fail := func(format string, a ...interface{}) {
		fmt.Printf("REPLAY-FAIL "+format+"\n", a...)
		t.FailNow()
	}
	for _, d := range levels {
		var buf bytes.Buffer
		l := &Logger{Debug: d, Instance: log.New(&buf, "", 0)}
		for _, lv := range levels {
			for _, m := range msgs {
				n++
				buf.Reset()
				func() {
					defer func() {
						if e := recover(); e != nil {
							fail("Log panics: %v", e)
						}
					}()
					l.Log(lv, m)
				}()
				want := ""
				if m != nil && lv >= 0 && lv <= 4 && lv <= d {
					want = label[lv] + m.Error() + "\n"
				}
				if buf.String() != want {
					fail("a logger of level %d writes %q for message %v of level %d, want %q", d, buf.String(), m, lv, want)
				}
			}
		}
		lg, err := NewLogger(d, "n", os.Getenv("VERIF_SCRATCH")+"/log")
		if d > 3 && err == nil {
			fail("NewLogger(%d) returns a logger", d)
		}
		if d >= 0 && d <= 3 && (err != nil || lg == nil || lg.Instance == nil || lg.Debug != d) {
			fail("NewLogger(%d) returns %+v, %v", d, lg, err)
		}
	}
	fmt.Printf("REPLAY-CASES %d\n", n)
}
