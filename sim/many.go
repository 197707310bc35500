package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"sort"
	"time"

	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/uncompressedheader"
	"github.com/m4tthewde/gov1/internal/zzverif/simrt"
)

// Several decoders in one process. Each is a goroutine, but only the one that
// holds the baton runs: at the scheduler points in the decoder's code the
// simulator decides who goes on.

// A job is everything one decoder is to do.
type job struct {
	Chunks [][]byte // deliveries
	Ops    []int    // store operation after each: 0 none, 1..8 save, 9..16 load
	Limit  int64    // memory size
}

// A jobResult is everything it came to.
type jobResult struct {
	Units []uint64
	State uint64
	End   int
	Msg   string
	Steps int64
	Cold  []int64 // steps at which a statement ran for the first time
	Hot   []int64 // steps after statements that change something decoders share
}

func (a *jobResult) diff(b *jobResult) string {
	switch {
	case a.End != b.End:
		return fmt.Sprintf("it ended in %s (%s) after %d units, alone in %s (%s) after %d", ending(a.End), a.Msg, len(a.Units), ending(b.End), b.Msg, len(b.Units))
	case len(a.Units) != len(b.Units):
		return fmt.Sprintf("it decoded %d units, alone %d", len(a.Units), len(b.Units))
	}
	for i := range a.Units {
		if a.Units[i] != b.Units[i] {
			return fmt.Sprintf("it decoded unit %d of %d differently than alone", i, len(a.Units))
		}
	}
	switch {
	case a.Msg != b.Msg:
		return fmt.Sprintf("it failed with %q, alone with %q", a.Msg, b.Msg)
	case a.State != b.State:
		return "its final state differs from when it runs alone"
	}
	return ""
}

// do carries a job out; wrap runs the parts of it that may fail.
func (j *job) do(pool []obu.Obu, wrap func(f func()) (ending, string)) *jobResult {
	res := &jobResult{}
	var ses *session
	e, msg := wrap(func() { ses = newOwnSession() })
	if e == endOK {
		if pool != nil {
			*ses.obus = pool[:0]
		}
		for i, c := range j.Chunks {
			ses.b.Data = append(append(make([]byte, 0, len(ses.b.Data)+len(c)), ses.b.Data...), c...)
			if len(j.Chunks) == 1 {
				ses.b.Data = c // as a caller would hand it over
			}
			if e, msg = wrap(ses.p.VerifRun); e != endOK {
				break
			}
			res.Units = append(res.Units, unitDigests(ses.units(), allFields)...)
			ses.clear()
			if i < len(j.Ops) && j.Ops[i] > 0 {
				k := (j.Ops[i] - 1) % 8
				if j.Ops[i] <= 8 {
					e, msg = wrap(func() { uncompressedheader.SaveCdfs(k, ses.st) })
				} else {
					e, msg = wrap(func() { uncompressedheader.LoadCdfs(k, ses.st) })
				}
				if e != endOK {
					break
				}
			}
		}
	}
	res.End, res.Msg = int(e), short(msg)
	if e == endCrash {
		return res
	}
	if ses != nil {
		if e != endOK {
			res.Units = append(res.Units, unitDigests(ses.units(), allFields)...)
		}
		res.State = stateDigest(ses.st)
	}
	return res
}

// alone carries the job out with nobody else around, in this process.
func (j *job) alone(v *visits) *jobResult {
	simrt.Alloc, simrt.AllocLimit = 0, j.Limit
	var steps int64
	v.seen = map[int]bool{}
	firsts = v
	res := j.do(nil, func(f func()) (ending, string) {
		n, e, msg := limited(stdBudget, f)
		steps += n
		return e, msg
	})
	firsts = nil
	res.Steps, res.Cold, res.Hot = steps, v.first, v.visits
	return res
}

// study carries the job out, and again if it changes anything that decoders
// share, to see where, and at which steps it is there.
func (j *job) study() *jobResult {
	small, large := watch(keptSmall), watch(keptLarge)
	res := j.alone(&visits{small: small})
	large.look()
	small.look()
	var shared []*keeper
	for _, w := range []*globalWatch{small, large} {
		for _, k := range w.l {
			if w.changed[k] {
				shared = append(shared, k)
			}
		}
	}
	if len(shared) == 0 || res.Steps > 1<<21 {
		return res
	}
	freshGlobals(true)
	sites := map[int]bool{}
	j.alone(&visits{shared: watch(shared), sites: sites})
	freshGlobals(true)
	res.Hot = j.alone(&visits{hot: sites}).Hot
	return res
}

// Results of jobs that ran alone in a process of their own.
var soloCache = map[[32]byte]*jobResult{}

func solo(j *job) *jobResult {
	raw, _ := json.Marshal(j)
	key := sha256.Sum256(raw)
	if r := soloCache[key]; r != nil {
		return r
	}
	cmd := exec.Command(os.Args[0], "solo")
	cmd.Env = childEnv()
	cmd.Stdin = bytes.NewReader(raw)
	var out, eb bytes.Buffer
	cmd.Stdout, cmd.Stderr = &out, &eb
	if err := cmd.Start(); err != nil {
		fatal(err)
	}
	late := false
	t := time.AfterFunc(60*time.Second, func() { late = true; cmd.Process.Kill() })
	idle.Add(1)
	err := cmd.Wait()
	idle.Add(-1)
	t.Stop()
	var r jobResult
	if err == nil {
		err = json.Unmarshal(out.Bytes(), &r)
	}
	if err != nil {
		msg, ok := deathOf(err, eb.String(), late)
		if !ok {
			fatal("a decoder alone in its process:", err, eb.String())
		}
		r = jobResult{End: int(endCrash), Msg: msg} // of no use for comparison
	}
	if len(soloCache) > 256 {
		soloCache = map[[32]byte]*jobResult{}
	}
	soloCache[key] = &r
	return &r
}

func soloMain() {
	var j job
	if err := json.NewDecoder(os.Stdin).Decode(&j); err != nil {
		fatal(err)
	}
	json.NewEncoder(os.Stdout).Encode(j.study())
}

// An actor is a job under the scheduler.
type actor struct {
	job    *job
	name   string
	killAt int64 // step at which it is abandoned, if positive
	stall  int64 // step from which it is not scheduled any more, if positive
	after  int   // starts only when this actor is over
	cold   []int64
	hot    []int64
	res    *jobResult
	over   bool
	begun  bool
	steps  int64 // granted
	quant  int64
	alloc  int64
	turn   chan struct{}
	no     int
}

// Units are large: each actor of an execution lists them where the actor of
// that number in the last execution did.
var pools [][]obu.Obu

func poolOf(i int) []obu.Obu {
	for len(pools) <= i {
		pools = append(pools, make([]obu.Obu, 0, 24))
	}
	return pools[i]
}

type stage struct {
	actors []*actor
	back   chan *actor
	killed bool // end of the run: unwind everybody
}

// slow is called in the actor's goroutine when its quantum is used up.
func (g *stage) slow(a *actor) {
	if simrt.Held > 0 { // inside a critical section nobody else could run
		a.steps++
		simrt.N = 0
		return
	}
	a.alloc = simrt.Alloc
	g.back <- a
	<-a.turn
	if g.killed || a.killAt > 0 && a.steps >= a.killAt {
		simrt.N = 1 << 40
		panic(killed{})
	}
	if a.steps > stdBudget {
		simrt.N = 1 << 40
		panic(stepsOver{})
	}
	simrt.N = a.quant
}

func (g *stage) start(a *actor) {
	a.begun = true
	go func() {
		<-a.turn
		defer func() { // for what wrap does not catch
			a.over = true
			if simrt.N < 1<<39 {
				a.steps -= simrt.N
			}
			totalSteps += a.steps
			a.alloc = simrt.Alloc
			simrt.Held = 0
			g.back <- a
		}()
		simrt.N = a.quant
		dead := false
		a.res = a.job.do(poolOf(a.no), func(f func()) (ending, string) {
			if dead {
				return endCrash, "killed"
			}
			e, msg := guard(f)
			if e != endOK {
				dead = true
				simrt.N = 1 << 40
			}
			return e, msg
		})
	}()
}

// grant lets an actor run for at most n steps.
func (g *stage) grant(a *actor, n int64) {
	for _, end := range []int64{a.killAt, a.stall} {
		if end > 0 && a.steps+n+1 > end {
			n = end - a.steps - 1
			if n < 0 {
				n = 0
			}
		}
	}
	if !a.begun {
		g.start(a)
	}
	a.quant = n
	a.steps += n + 1
	simrt.Alloc, simrt.AllocLimit = a.alloc, a.job.Limit
	simrt.Slow = func() { g.slow(a) }
	a.turn <- struct{}{}
	<-g.back
}

// nextCold is the quantum that takes an actor to one of the statements it will
// run for the first time, or to where it will have changed what is shared.
func nextCold(s *Src, a *actor) int64 {
	l := a.cold
	if len(a.hot) > 0 && s.Bool(3, 4) {
		l = a.hot
	}
	i := sort.Search(len(l), func(i int) bool { return l[i] > a.steps+1 })
	i += s.N(1 << uint(s.N(9)))
	if i >= len(l) {
		return 1 << uint(3+s.N(17))
	}
	return l[i] - a.steps - 1 + int64(s.N(3)/2)
}

// play runs the actors to their ends. The interleaving comes from s.
func play(s *Src, r *runInfo, actors []*actor) (switches int64) {
	g := &stage{actors: actors, back: make(chan *actor)}
	for i, a := range actors {
		a.no = i
		a.turn = make(chan struct{})
	}
	oldN, oldSlow, oldA, oldL := simrt.N, simrt.Slow, simrt.Alloc, simrt.AllocLimit
	style := s.N(6)
	for _, a := range actors {
		if len(a.hot) > 0 && s.Bool(1, 2) {
			style = 4
		}
	}
	var last *actor
	h := uint64(0)
	for {
		var can []*actor
		for i, a := range actors {
			if a.over || a.stall > 0 && a.steps >= a.stall {
				continue
			}
			if a.after >= 0 && a.after < i && !actors[a.after].over && !(actors[a.after].stall > 0 && actors[a.after].steps >= actors[a.after].stall) {
				continue
			}
			can = append(can, a)
		}
		if len(can) == 0 {
			break
		}
		a := can[s.N(len(can))]
		// short stretches where actors start and end, long ones in between
		var n int64
		switch {
		case len(can) == 1 && a.killAt == 0 && a.stall == 0:
			n = 1 << 22
		case style >= 4: // to just before or after a statement it never ran before
			n = nextCold(s, a)
		case style == 0:
			n = 1 + int64(s.N(1<<uint(s.N(12))))
		case style == 1:
			n = 100 + int64(s.N(2000))
		case style == 2:
			n = 1 + int64(s.N(60))
			if s.Bool(1, 3) {
				n += int64(s.N(20000))
			}
		default:
			n = 1 << uint(3+s.N(17))
		}
		g.grant(a, n)
		if a != last {
			switches++
			h = splitmix(h ^ uint64(a.steps)<<4 ^ uint64(len(can)))
			if switches < 40 {
				r.state(uint64(len(actors)), h)
			}
		}
		last = a
		if r.tracing && switches < 60 {
			r.logf("%s runs to step %d%s", a.name, a.steps, map[bool]string{true: " and is over"}[a.over])
		}
	}
	// unwind whoever was stalled
	g.killed = true
	for _, a := range actors {
		for a.begun && !a.over {
			g.grant(a, 0)
		}
	}
	simrt.N, simrt.Slow, simrt.Alloc, simrt.AllocLimit = oldN, oldSlow, oldA, oldL
	r.see(h)
	return
}
