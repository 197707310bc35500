package main

import (
	"bytes"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/m4tthewde/gov1/internal/zzverif/simrt"
)

// runInfo collects what one worker observed, for the evidence.
type runInfo struct {
	counts   map[string]int64
	compared int64
	trace    []string
	tracing  bool
	states   map[uint64]bool // distinct states reached, by the property's measure
	runs     map[uint64]bool // distinct non-trivial runs
	weighty  bool            // the current run is not trivial
	hash     uint64          // of everything the run observed
}

func newRunInfo() *runInfo {
	return &runInfo{counts: map[string]int64{}, states: map[uint64]bool{}, runs: map[uint64]bool{}}
}
func (r *runInfo) add(name string, n int64) { r.counts[name] += n }
func (r *runInfo) logf(f string, a ...any) {
	if r.tracing {
		r.trace = append(r.trace, fmt.Sprintf(f, a...))
	}
}

// state notes a state the run reached, by the measure the property states.
func (r *runInfo) state(parts ...uint64) {
	h := uint64(14695981039346656037)
	for _, p := range parts {
		h = splitmix(h ^ p)
	}
	r.hash = splitmix(r.hash ^ h)
	if len(r.states) < 1000000 {
		r.states[h] = true
	}
}

// see mixes something the run observed into its identity.
func (r *runInfo) see(parts ...uint64) {
	for _, p := range parts {
		r.hash = splitmix(r.hash ^ p)
	}
}

type violation struct{ msg string }

func violatef(f string, a ...any) *violation { return &violation{fmt.Sprintf(f, a...)} }

type property struct {
	id      string
	rule    string // how runs are made, and which count as non-trivial
	measure string // what a distinct state is
	real    []string
	stub    []string
	inBytes bool
	run     func(s *Src, r *runInfo) *violation
}

var properties = map[string]*property{}

func register(p *property) { properties[p.id] = p }

const memLimit = 1 << 24

// oneRun executes one simulated run.
func oneRun(p *property, s *Src, r *runInfo) (v *violation) {
	simrt.N = 1 << 60
	simrt.Slow = func() { simrt.N = 1 << 60 }
	simrt.Alloc, simrt.AllocLimit = 0, memLimit
	r.hash = 0
	r.weighty = false
	freshGlobals(false)
	v = p.run(s, r)
	if v == nil && r.weighty && len(r.runs) < 4000000 {
		r.runs[r.hash] = true
	}
	return v
}

// workerResult is what a worker process reports.
type workerResult struct {
	Runs, Steps, Compared int64
	Counts                map[string]int64
	Runs1, States         []uint64
	Samples               []string
	Missing               []string
	Fail                  *failure
	Unstable              int64
	Repeats               int64
	Millis                int64
	HeapMB                uint64
}

type failure struct {
	Index   uint64   // run index
	Choices []uint32 // of the failing run
	Prefix  []uint64 // run indexes executed before it in the same process
	Msg     string
	PrefixC [][]uint32 `json:",omitempty"`
	Trace   []string   `json:",omitempty"`
}

func seedOf(seed uint64, prop string, idx uint64) uint64 {
	h := uint64(0)
	for _, c := range []byte(prop) {
		h = mix(h, uint64(c))
	}
	return mix(mix(seed, h), idx)
}

func workerMain(id string, seed uint64, first, stride uint64, millis int64, maxRuns int64) {
	p := properties[id]
	start := time.Now()
	r := newRunInfo()
	res := &workerResult{}
	var prefix []uint64
	// which run a worker was at when its process died
	var progress *os.File
	if f := os.Getenv("VERIF_PROGRESS"); f != "" {
		progress, _ = os.Create(f)
	}
	dl := start.Add(time.Duration(millis) * time.Millisecond)
	for i := first; maxRuns == 0 || res.Runs < maxRuns; i += stride {
		if maxRuns == 0 && time.Now().After(dl) {
			break
		}
		if progress != nil {
			var b [8]byte
			binary.LittleEndian.PutUint64(b[:], i)
			progress.WriteAt(b[:], 0)
		}
		s := newSrc(seedOf(seed, id, i))
		if len(res.Samples) < 3 && (res.Runs == 5 || res.Runs == 50 || res.Runs == 300) {
			r.tracing = true
			r.trace = nil
		}
		v := oneRun(p, s, r)
		res.Runs++
		h := r.hash
		if r.tracing {
			res.Samples = append(res.Samples, fmt.Sprintf("run %d: %s", i, strings.Join(r.trace, "; ")))
			r.tracing = false
		}
		if v == nil && res.Runs%64 == 0 {
			c := r.counts
			r.counts = map[string]int64{}
			v = oneRun(p, newSrc(seedOf(seed, id, i)), r)
			r.counts = c
			res.Repeats++
			if r.hash != h {
				res.Unstable++
			}
		}
		if v != nil {
			res.Fail = &failure{Index: i, Choices: s.rec, Prefix: prefix, Msg: v.msg}
			break
		}
		prefix = append(prefix, i)
	}
	res.Steps = totalSteps
	res.Compared = r.compared
	res.Counts = r.counts
	for k := range r.runs {
		res.Runs1 = append(res.Runs1, k)
	}
	for k := range r.states {
		res.States = append(res.States, k)
	}
	for m := range missingPaths {
		res.Missing = append(res.Missing, m)
	}
	for _, m := range cdfUnknown {
		res.Missing = append(res.Missing, "probability table "+m)
	}
	res.Millis = time.Since(start).Milliseconds()
	json.NewEncoder(os.Stdout).Encode(res)
}

// replayFile is a stored counterexample.
type replayFile struct {
	Property string     `json:"property"`
	Message  string     `json:"message"`
	Prefix   [][]uint32 `json:"prefix_runs"`
	Choices  []uint32   `json:"choices"`
	Seed     uint64     `json:"seed"`
	Index    uint64     `json:"run_index"`
	Trace    []string   `json:"trace"`
}

// runReplay executes stored choices and returns the violation, if any.
func runReplay(f *replayFile) (*violation, []string) {
	p := properties[f.Property]
	if p == nil {
		fatal("no such property", f.Property)
	}
	for _, c := range f.Prefix {
		oneRun(p, replaySrc(c), newRunInfo())
	}
	r := newRunInfo()
	r.tracing = true
	v := oneRun(p, replaySrc(f.Choices), r)
	return v, r.trace
}

// runSeed draws a run's choices again and writes each down before it is used.
func runSeed(id string, seed, idx uint64, path string) {
	f, err := os.Create(path)
	if err != nil {
		fatal(err)
	}
	s := newSrc(seedOf(seed, id, idx))
	s.tee = f
	oneRun(properties[id], s, newRunInfo())
}

func runOne(path string) {
	var f replayFile
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	if err := json.Unmarshal(b, &f); err != nil {
		fatal(err)
	}
	v, trace := runReplay(&f)
	out := map[string]any{"fail": v != nil, "trace": trace}
	if v != nil {
		out["msg"] = v.msg
	}
	json.NewEncoder(os.Stdout).Encode(out)
}

type oneResult struct {
	Fail  bool
	Msg   string
	Trace []string
}

var tmpDir string

// tryChild runs a candidate in a process of its own.
func tryChild(f *replayFile) (res oneResult, ok bool) {
	fh, err := os.CreateTemp(tmpDir, "cand")
	if err != nil {
		fatal(err)
	}
	json.NewEncoder(fh).Encode(f)
	fh.Close()
	defer os.Remove(fh.Name())
	cmd := exec.Command(os.Args[0], "one", fh.Name())
	cmd.Env = childEnv()
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	late := false
	t := time.AfterFunc(childTime, func() { late = true; cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	if err != nil {
		res.Msg, ok = deathOf(err, eb.String(), late)
		res.Fail = ok
		return res, ok
	}
	return res, json.Unmarshal(out.Bytes(), &res) == nil
}

const childTime = 90 * time.Second

// deathOf describes how a process that ran the decoder died; ok is false if
// the simulator itself gave up.
func deathOf(err error, stderr string, late bool) (msg string, ok bool) {
	if late {
		return "the process that ran the decoder did not end", true
	}
	if x, is := err.(*exec.ExitError); is && x.ExitCode() == 3 {
		return stderr, false
	}
	for _, l := range strings.Split(stderr, "\n") {
		if strings.HasPrefix(l, "fatal error: ") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			return "the process that ran the decoder died: " + l, true
		}
		if strings.HasPrefix(l, "panic: ") {
			return "simulator failure: " + l, false
		}
	}
	return "the process that ran the decoder died: " + err.Error(), true
}

// idle is above zero while the process rightly waits for another one.
var idle atomic.Int32

// watchdog ends the process if the decoder waits for something that never
// comes: no processor time is used any more, look after look.
func watchdog() {
	go func() {
		last, quiet := cpuTime(), 0
		for {
			time.Sleep(250 * time.Millisecond)
			now := cpuTime()
			if now-last > 20*time.Millisecond || idle.Load() > 0 {
				quiet = 0
			} else if quiet++; quiet >= 32 {
				fmt.Fprintln(realErr, "fatal error: nothing happens any more, everything waits")
				os.Exit(4)
			}
			last = now
		}
	}()
}

func cpuTime() time.Duration {
	var u syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &u)
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

func childEnv() []string { return append(os.Environ(), "GOTRACEBACK=single") }

// shrink looks for a shorter choice sequence that still violates the property.
func shrink(f *replayFile, until time.Time) {
	cur := f.Choices
	class := msgClass(f.Message)
	try := func(cands [][]uint32) int {
		type r struct {
			i  int
			ok bool
		}
		res := make([]bool, len(cands))
		var wg sync.WaitGroup
		for i := range cands {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				g := *f
				g.Choices = cands[i]
				o, ok := tryChild(&g)
				res[i] = ok && o.Fail && msgClass(o.Msg) == class
			}(i)
		}
		wg.Wait()
		for i, ok := range res {
			if ok {
				return i
			}
		}
		return -1
	}
	// prefix runs first: how many of them are needed
	less := func(a, b []uint32) bool {
		if len(a) != len(b) {
			return len(a) < len(b)
		}
		for i := range a {
			if a[i] != b[i] {
				return a[i] < b[i]
			}
		}
		return false
	}
	const width = 8
	for progress := true; progress && time.Now().Before(until); {
		progress = false
		// truncate, delete blocks, zero blocks
		var gens []func() []uint32
		for size := len(cur); size >= 1; size /= 2 {
			for at := 0; at+size <= len(cur); at += size {
				a, n := at, size
				gens = append(gens, func() []uint32 {
					if a+n > len(cur) {
						return nil
					}
					return append(append([]uint32(nil), cur[:a]...), cur[a+n:]...)
				})
				gens = append(gens, func() []uint32 {
					if a+n > len(cur) {
						return nil
					}
					c := append([]uint32(nil), cur...)
					for i := a; i < a+n; i++ {
						c[i] = 0
					}
					return c
				})
			}
		}
		for i := range cur {
			k := i
			gens = append(gens, func() []uint32 {
				if k >= len(cur) || cur[k] < 2 {
					return nil
				}
				c := append([]uint32(nil), cur...)
				c[k] /= 2
				return c
			}, func() []uint32 {
				if k >= len(cur) || cur[k] == 0 {
					return nil
				}
				c := append([]uint32(nil), cur...)
				c[k]--
				return c
			})
		}
		for i := 0; i < len(gens) && time.Now().Before(until); {
			var cands [][]uint32
			for i < len(gens) && len(cands) < width {
				if c := gens[i](); c != nil {
					for len(c) > 0 && c[len(c)-1] == 0 {
						c = c[:len(c)-1]
					}
					if less(c, cur) {
						cands = append(cands, c)
					}
				}
				i++
			}
			if len(cands) == 0 {
				continue
			}
			if k := try(cands); k >= 0 {
				cur = cands[k]
				progress = true
			}
		}
	}
	f.Choices = cur
}

// msgClass is the violation class: its text without the numbers.
func msgClass(m string) string {
	var b strings.Builder
	for _, c := range m {
		if c >= '0' && c <= '9' {
			continue
		}
		b.WriteRune(c)
	}
	s := b.String()
	if i := strings.IndexByte(s, ':'); i > 0 {
		s = s[:i]
	}
	return s
}

func checkMain(id, tier string, seed uint64, verif string) {
	p := properties[id]
	if p == nil {
		fatal("no such property", id)
	}
	budget := 60 * time.Second
	if tier == "thorough" {
		budget = 300 * time.Second
	}
	if v := os.Getenv("VERIF_BUDGET_MS"); v != "" {
		n, _ := strconv.Atoi(v)
		budget = time.Duration(n) * time.Millisecond
	}
	w := runtime.NumCPU()
	if w > 8 {
		w = 8
	}
	start := time.Now()
	var err error
	tmpDir, err = os.MkdirTemp("", "govsim")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(tmpDir)
	results := make([]*workerResult, w)
	errs := make([]string, w)
	died := make([]bool, w) // by the decoder's doing, perhaps
	progressFile := func(i int) string { return filepath.Join(tmpDir, "at"+fmt.Sprint(i)) }
	var wg sync.WaitGroup
	var mu sync.Mutex
	var cmds []*exec.Cmd
	failed := false
	for i := 0; i < w; i++ {
		cmd := exec.Command(os.Args[0], "worker", id, fmt.Sprint(seed), fmt.Sprint(i), fmt.Sprint(w), fmt.Sprint(budget.Milliseconds()), "0")
		cmd.Env = append(childEnv(), "VERIF_PROGRESS="+progressFile(i))
		var out, eb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &eb
		if err := cmd.Start(); err != nil {
			fatal(err)
		}
		cmds = append(cmds, cmd)
		wg.Add(1)
		go func(i int, cmd *exec.Cmd) {
			defer wg.Done()
			late := false
			t := time.AfterFunc(budget+100*time.Second, func() { late = true; cmd.Process.Kill() })
			err := cmd.Wait()
			t.Stop()
			mu.Lock()
			defer mu.Unlock()
			if err != nil {
				if !failed {
					errs[i], died[i] = deathOf(err, eb.String(), late)
				}
				return
			}
			var r workerResult
			if err := json.Unmarshal(out.Bytes(), &r); err != nil {
				errs[i] = "unreadable result"
				return
			}
			results[i] = &r
			if r.Fail != nil && !failed {
				failed = true
				for j, c := range cmds {
					if j != i && results[j] == nil && errs[j] == "" {
						c.Process.Kill()
					}
				}
			}
		}(i, cmd)
	}
	wg.Wait()
	tot := &workerResult{Counts: map[string]int64{}}
	distinct, states := map[uint64]bool{}, map[uint64]bool{}
	miss := map[string]bool{}
	var fail *failure
	for i, r := range results {
		if r == nil {
			if !failed {
				if died[i] && fail == nil {
					fail = diedAt(p, seed, progressFile(i))
				}
				if fail == nil {
					e := errs[i]
					if len(e) > 3000 {
						e = e[:3000]
					}
					fmt.Println("ERROR: worker", i, e)
					os.RemoveAll(tmpDir)
					os.Exit(3)
				}
			}
			continue
		}
		tot.Runs += r.Runs
		tot.Steps += r.Steps
		tot.Compared += r.Compared
		tot.Repeats += r.Repeats
		tot.Unstable += r.Unstable
		for k, n := range r.Counts {
			tot.Counts[k] += n
		}
		for _, s := range r.Runs1 {
			distinct[s] = true
		}
		for _, s := range r.States {
			states[s] = true
		}
		if len(tot.Samples) < 4 {
			tot.Samples = append(tot.Samples, r.Samples...)
		}
		for _, m := range r.Missing {
			miss[m] = true
		}
		if r.Fail != nil && fail == nil {
			fail = r.Fail
		}
	}
	if fail != nil {
		reportFailure(p, fail, seed, verif)
	}
	explore := time.Since(start)
	writeEvidence(p, tier, seed, w, tot, len(distinct), len(states), miss, explore, verif)
	fmt.Printf("%s: held on %d simulated runs, %d distinct, %d comparisons, %d decoder steps, %.1f s\n", id, tot.Runs, len(distinct), tot.Compared, tot.Steps, explore.Seconds())
	if tot.Unstable > 0 {
		fmt.Printf("note: %d of %d repeated runs observed something different\n", tot.Unstable, tot.Repeats)
	}
}

// diedAt finds out whether the run at which a worker's process died kills a
// fresh process too.
func diedAt(p *property, seed uint64, file string) *failure {
	b, err := os.ReadFile(file)
	if err != nil || len(b) != 8 {
		return nil
	}
	idx := binary.LittleEndian.Uint64(b)
	path := filepath.Join(tmpDir, "choices")
	cmd := exec.Command(os.Args[0], "seed", p.id, fmt.Sprint(seed), fmt.Sprint(idx), path)
	cmd.Env = childEnv()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		return nil
	}
	late := false
	t := time.AfterFunc(childTime, func() { late = true; cmd.Process.Kill() })
	err = cmd.Wait()
	t.Stop()
	if err == nil {
		return nil
	}
	msg, ok := deathOf(err, eb.String(), late)
	if !ok {
		return nil
	}
	f := &failure{Index: idx, Msg: msg}
	raw, _ := os.ReadFile(path)
	for ; len(raw) >= 4; raw = raw[4:] {
		f.Choices = append(f.Choices, binary.LittleEndian.Uint32(raw))
	}
	return f
}

func reportFailure(p *property, fail *failure, seed uint64, verif string) {
	f := &replayFile{Property: p.id, Message: fail.Msg, Choices: fail.Choices, Seed: seed, Index: fail.Index}
	confirm := func(g *replayFile) bool {
		o, ok := tryChild(g)
		if ok && o.Fail {
			g.Message = o.Msg
			g.Trace = o.Trace
			return true
		}
		return false
	}
	if !confirm(f) {
		// it may depend on what the process decoded before
		choices := func(idx []uint64) (c [][]uint32) {
			for _, i := range idx {
				s := newSrc(seedOf(seed, p.id, i))
				// the choices are recorded by running it: only their record matters
				oneRun(p, s, newRunInfo())
				c = append(c, s.rec)
			}
			return
		}
		found := false
		pre := fail.Prefix
		for n := 1; ; n *= 4 {
			k := n
			if k > len(pre) {
				k = len(pre)
			}
			f.Prefix = choices(pre[len(pre)-k:])
			if confirm(f) {
				found = true
				break
			}
			if k == len(pre) || n > 4096 {
				break
			}
		}
		if !found {
			fmt.Println("ERROR: a violation did not show again in a process of its own:", fail.Msg, "run", fail.Index)
			os.RemoveAll(tmpDir)
			os.Exit(3)
		}
		// drop prefix runs that are not needed
		until := time.Now().Add(10 * time.Second)
		for size := len(f.Prefix) / 2; size >= 1; size /= 2 {
			for at := 0; at+size <= len(f.Prefix) && time.Now().Before(until); {
				g := *f
				g.Prefix = append(append([][]uint32(nil), f.Prefix[:at]...), f.Prefix[at+size:]...)
				if confirm(&g) {
					f.Prefix = g.Prefix
				} else {
					at += size
				}
			}
		}
	}
	full := *f
	if !strings.Contains(f.Message, "did not end") { // too slow to try again and again
		shrink(f, time.Now().Add(20*time.Second))
	}
	if !confirm(f) {
		*f = full
	}
	dir := filepath.Join(verif, ".build", "replay")
	os.MkdirAll(dir, 0o755)
	path := filepath.Join(dir, fmt.Sprintf("%s-%d-%d.json", p.id, seed, fail.Index))
	b, _ := json.MarshalIndent(f, "", " ")
	if err := os.WriteFile(path, b, 0o644); err != nil {
		fatal(err)
	}
	os.RemoveAll(tmpDir)
	fmt.Println(f.Message)
	for _, l := range f.Trace {
		fmt.Println("  ", l)
	}
	fmt.Printf("(seed %d, run %d, %d choices after minimisation)\n", seed, fail.Index, len(f.Choices))
	fmt.Printf("VIOLATION property=%s replay=%s\n", p.id, path)
	os.Exit(1)
}

func writeEvidence(p *property, tier string, seed uint64, w int, t *workerResult, distinct, states int, miss map[string]bool, d time.Duration, verif string) {
	faults, probes := map[string]int64{}, map[string]int64{}
	for k, n := range t.Counts {
		if strings.HasPrefix(k, "fault: ") {
			faults[k[7:]] = n
		} else {
			probes[k] = n
		}
	}
	ms := []string{}
	for m := range miss {
		ms = append(ms, m)
	}
	sort.Strings(ms)
	ev := evidence(p, tier, seed, w, t, distinct, states, ms, d, faults, probes)
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(verif, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, p.id+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
}

// replayMain runs a replay file: 1 if it still shows the violation.
func replayMain(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		fatal(err)
	}
	var f replayFile
	if err := json.Unmarshal(b, &f); err != nil {
		fatal(err)
	}
	if properties[f.Property] == nil {
		fatal("no such property", f.Property)
	}
	tmpDir, err = os.MkdirTemp("", "govsim")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(tmpDir)
	o, ok := tryChild(&f)
	if !ok {
		fmt.Println("ERROR: the replay did not run:", o.Msg)
		return 3
	}
	for _, l := range o.Trace {
		fmt.Println("  ", l)
	}
	if !o.Fail {
		fmt.Println("the violation does not show:", f.Message)
		return 0
	}
	fmt.Println(o.Msg)
	fmt.Printf("VIOLATION property=%s replay=%s\n", f.Property, path)
	return 1
}

func setupRuntime() {
	gc := 400
	if v := os.Getenv("VERIF_GC"); v != "" {
		gc = int(atoi(v))
	}
	debug.SetGCPercent(gc)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(256 << 20)
}
