package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"runtime/pprof"
	"strings"
	"time"
)

func die(err error) {
	fmt.Fprintln(os.Stderr, "gvc:", err)
	os.Exit(2)
}

func setup() *Engine {
	e, err := loadRepo()
	if err != nil {
		die(err)
	}
	e.specs = newSpecDB()
	if err := e.specs.load(filepath.Join(verifDir(), "contracts")); err != nil {
		die(err)
	}
	if err := e.prepare(); err != nil {
		die(err)
	}
	return e
}

func main() {
	if len(os.Args) < 2 {
		die(fmt.Errorf("usage: gvc list|one|check ..."))
	}
	if p := os.Getenv("GVC_PROF"); p != "" {
		f, _ := os.Create(p)
		pprof.StartCPUProfile(f)
		defer pprof.StopCPUProfile()
		go func() {
			time.Sleep(100 * time.Second)
			pprof.StopCPUProfile()
			fmt.Println("solver", stats)
			os.Exit(3)
		}()
	}
	switch os.Args[1] {
	case "list":
		e, err := loadRepo()
		if err != nil {
			die(err)
		}
		f := ""
		if len(os.Args) > 2 {
			f = os.Args[2]
		}
		e.listExternals(f)
	case "verify":
		n, _ := strconv.Atoi(os.Args[3])
		verifyOne(os.Args[2], n)
	case "check":
		os.Exit(cmdCheck(os.Args[2]))
	case "props":
		cmdProps()
	case "one":
		e := setup()
		e.verbose = true
		for _, c := range e.specs.contracts {
			for _, p := range os.Args[2:] {
				if ok, _ := filepath.Match(p, c.name); !ok {
					continue
				}
				t0 := time.Now()
				n0 := len(e.obls)
				e.verify(c)
				bad := 0
				for _, o := range e.obls[n0:] {
					if o.Verdict != "proved" {
						bad++
						fmt.Printf("  FAIL [%s] %s at %s: %s %s  tags=%v\n", o.Kind, o.Name, o.Pos, o.Verdict, clip(o.Goal, 200), o.Tags)
					} else if os.Getenv("GVC_ALL") != "" {
						fmt.Printf("  ok   [%s] %s at %s (%s %.2fs)\n", o.Kind, o.Name, o.Pos, o.Solver, o.Secs)
					}
				}
				fmt.Printf("%s: %d obligations, %d failed, %d returns, %d exits, %.1fs\n", c.name, len(e.obls)-n0, bad, e.run.returns, e.run.exits, time.Since(t0).Seconds())
			}
		}
		if len(e.unmodelled) > 0 {
			fmt.Println("unmodelled:", strings.Join(sortedKeys(e.unmodelled), ", "))
		}
		fmt.Printf("solver: %d queries %.1fs cached %d, %v\n", stats.Queries, stats.Seconds, stats.Cached, stats.BySolver)
		fmt.Println("inlined:", strings.Join(sortedKeys(e.inlined), ", "))
	}
}
