package main

import (
	"fmt"
	"os"
	"path/filepath"
	"runtime/pprof"
	"strconv"

	"github.com/m4tthewde/gov1/internal/state"
)

var realErr = os.Stderr

func fatal(a ...any) {
	fmt.Fprintln(realErr, append([]any{"simulator:"}, a...)...)
	os.Exit(3)
}

func atoi(s string) int64 {
	n, err := strconv.ParseInt(s, 10, 64)
	if err != nil {
		fatal(err)
	}
	return n
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func main() {
	// the decoder's own log goes nowhere
	os.Stderr = devNull
	defer func() { os.Stderr = realErr }()
	setupRuntime()
	keepGlobals()
	if f := os.Getenv("VERIF_PROFILE"); f != "" {
		fh, err := os.Create(f)
		if err == nil {
			pprof.StartCPUProfile(fh)
			defer pprof.StopCPUProfile()
		}
	}
	a := os.Args[1:]
	if len(a) == 2 && a[0] == "gencdf" {
		if err := writeCdfFile(a[1], frameStart); err != nil {
			fmt.Println(err)
			os.Exit(3)
		}
		return
	}
	if err := loadCdfFile(filepath.Join(verifDir(), "data", "cdf.bin")); err != nil {
		fmt.Println("ERROR:", err)
		os.Exit(3)
	}
	switch a0 := append(a, "")[0]; a0 {
	case "worker", "one", "seed", "solo":
		watchdog()
	}
	switch {
	case len(a) == 2 && a[0] == "check":
		tier := os.Getenv("VERIF_TIER")
		if tier != "thorough" {
			tier = "quick"
		}
		seed := uint64(1)
		if s := os.Getenv("VERIF_SEED"); s != "" {
			seed = uint64(atoi(s))
		}
		checkMain(a[1], tier, seed, verifDir())
	case len(a) == 7 && a[0] == "worker":
		workerMain(a[1], uint64(atoi(a[2])), uint64(atoi(a[3])), uint64(atoi(a[4])), atoi(a[5]), atoi(a[6]))
	case len(a) == 2 && a[0] == "one":
		runOne(a[1])
	case len(a) == 5 && a[0] == "seed":
		runSeed(a[1], uint64(atoi(a[2])), uint64(atoi(a[3])), a[4])
	case len(a) == 2 && a[0] == "replay":
		os.Exit(replayMain(a[1]))
	case len(a) == 3 && a[0] == "calib":
		calibrateC12(uint64(atoi(a[1])), int(atoi(a[2])))
	case len(a) == 4 && a[0] == "dbg":
		dbg(a[1], uint64(atoi(a[2])), int(atoi(a[3])))
	case len(a) == 1 && a[0] == "solo":
		soloMain()
	default:
		fmt.Println("usage: simbin check ID | replay FILE | worker ... | one FILE | gencdf FILE")
		os.Exit(3)
	}
}

// frameStart decodes a frame header with the given coefficient table set and
// returns the decoder's state.
func frameStart(q int) *state.State {
	for seed := uint64(1); seed < 100000; seed++ {
		s := newSrc(seed)
		h := newHist(s, &histCfg{seq: seqCfg{small: true}, frame: frameCfg{types: []int{keyFrame}, maxMi: 4096}, maxTU: 1, newSeq: [2]int{0, 1}, noise: [2]int{0, 1}, outside: [2]int{0, 1}, lost: [2]int{1, 1}, plain: true}, newRunInfo())
		t := h.next()
		if h.over || t.lastFh == nil || coefSet(t.lastFh.baseQ) != q {
			continue
		}
		ses := newSession()
		ses.feed(t.bytes)
		if ses.end == endOK {
			return ses.st
		}
	}
	return nil
}
