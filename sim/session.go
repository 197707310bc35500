package main

import (
	"fmt"
	"os"
	"reflect"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"strings"

	"github.com/m4tthewde/gov1/internal/bitstream"
	"github.com/m4tthewde/gov1/internal/logger"
	"github.com/m4tthewde/gov1/internal/obu"
	"github.com/m4tthewde/gov1/internal/parser"
	"github.com/m4tthewde/gov1/internal/sequenceheader"
	"github.com/m4tthewde/gov1/internal/state"
	"github.com/m4tthewde/gov1/internal/zzverif/simrt"
	"go.uber.org/zap"
)

// How a piece of decoding ended.
type ending int

const (
	endOK      ending = iota
	endPanic          // an explicit failure raised by the decoder
	endRuntime        // a failure raised by the language runtime
	endOOM            // the simulated memory was full
	endSteps          // the step budget ran out
	endCrash          // the simulator killed the decoder
	endBlocked        // it waited for something nobody would do
)

var endNames = []string{"normal return", "explicit failure", "runtime failure", "out of memory", "step budget exceeded", "killed", "waiting for ever"}

func (e ending) String() string { return endNames[e] }

// hung reports whether it would have gone on for ever.
func (e ending) hung() bool { return e == endSteps || e == endBlocked }

type stepsOver struct{}
type killed struct{}

// guard runs f and classifies how it ended.
func guard(f func()) (e ending, msg string) {
	defer func() {
		switch r := recover().(type) {
		case nil:
		case simrt.OOM:
			e, msg = endOOM, fmt.Sprintf("out of memory: %d elements wanted", r.Want)
		case stepsOver:
			e, msg = endSteps, "step budget exceeded"
		case killed:
			e, msg = endCrash, "killed"
		case simrt.Blocked:
			e, msg = endBlocked, "it waits for a lock that is never released"
		case runtime.Error:
			e, msg = endRuntime, r.Error()
			if stacks {
				msg += " at " + where()
			}
		default:
			e, msg = endPanic, fmt.Sprint(r)
			if stacks {
				msg += " at " + where()
			}
		}
	}()
	f()
	return
}

// limited runs f with a step budget and reports the steps used.
func limited(budget int64, f func()) (steps int64, e ending, msg string) {
	oldN, oldSlow := simrt.N, simrt.Slow
	left := budget // not yet granted
	grant := func() {
		n := int64(heapEvery)
		if n > left {
			n = left
		}
		left -= n
		simrt.N = n
	}
	if firsts != nil { // one step at a time
		grant = func() {
			left--
			simrt.N = 0
		}
	}
	simrt.Slow = func() {
		if firsts != nil {
			firsts.visit(simrt.Site)
			if left > 0 && left%heapEvery != 0 {
				grant()
				return
			}
		}
		if left <= 0 {
			simrt.N = 1 << 40
			panic(stepsOver{})
		}
		if n := liveHeap(); n > heapMax {
			simrt.N = 1 << 40
			panic(simrt.OOM{Want: int64(n >> 3), Had: simrt.Alloc})
		}
		grant()
	}
	grant()
	e, msg = guard(f)
	if simrt.N < 1<<39 {
		steps = budget - left - simrt.N
	} else if e == endSteps {
		steps = budget
	} else {
		steps = budget - left
	}
	simrt.N, simrt.Slow = oldN, oldSlow
	totalSteps += steps
	return
}

// visits records the steps at which scheduler points are passed for the first
// time.
type visits struct {
	seen  map[int]bool
	step  int64
	first []int64 // of each point

	small  *globalWatch // looked at now and then
	shared *globalWatch // looked at each time
	sites  map[int]bool // where it was found changed
	hot    map[int]bool // such points, if known
	visits []int64      // of those
}

// firsts, if not nil, records the visits of limited runs.
var firsts *visits

func (v *visits) visit(site int) {
	v.step++
	if !v.seen[site] {
		v.seen[site] = true
		v.first = append(v.first, v.step)
	}
	if v.small != nil && v.step%1024 == 0 {
		v.small.look()
	}
	if v.shared != nil && v.shared.look() {
		v.sites[site] = true
	}
	if v.hot[site] && len(v.visits) < 1<<14 {
		v.visits = append(v.visits, v.step)
	}
}

// Slices that grow by append pass no make(): every so many steps the size of
// the heap itself is looked at.
const (
	heapEvery = 1 << 18
	heapMax   = 2 << 30
)

var heapSample = []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}

func liveHeap() uint64 {
	metrics.Read(heapSample)
	n := heapSample[0].Value.Uint64()
	if n > heapMax {
		runtime.GC()
		metrics.Read(heapSample)
		n = heapSample[0].Value.Uint64()
	}
	return n
}

var totalSteps int64

const stdBudget = 400e6

// session is one decoder under simulation.
type session struct {
	b    *bitstream.BitStream
	p    *parser.Parser
	st   *state.State
	obus *[]obu.Obu
	sh   *sequenceheader.SequenceHeader // the one in force, if it can be found
	end  ending
	msg  string
}

var quiet = false

func newSession() *session {
	s := newOwnSession()
	// units are large: list them where the last session's were listed
	*s.obus = unitPool[:0]
	return s
}

// newOwnSession is a session that shares no memory with another one.
func newOwnSession() *session {
	if !quiet {
		// the logger writes to stderr: keep the file but not the text
		f, err := os.OpenFile("/dev/null", os.O_WRONLY, 0)
		if err == nil {
			saved := os.Stderr
			os.Stderr = f
			logger.Initialize()
			os.Stderr = saved
		}
		quiet = true
	}
	simrt.Alloc = 0
	bs := bitstream.NewBitStream(nil)
	s := &session{b: &bs}
	saved := os.Stderr
	os.Stderr = devNull
	p := parser.NewParser(&bs)
	os.Stderr = saved
	logger.Logger = zap.NewNop()
	s.p = &p
	v := reflect.ValueOf(s.p).Elem()
	for i := 0; i < v.NumField(); i++ {
		switch v.Field(i).Type() {
		case reflect.TypeOf([]obu.Obu{}):
			s.obus = unlock(v.Field(i)).Addr().Interface().(*[]obu.Obu)
		case reflect.TypeOf(sequenceheader.SequenceHeader{}):
			s.sh = unlock(v.Field(i)).Addr().Interface().(*sequenceheader.SequenceHeader)
		case reflect.TypeOf((*state.State)(nil)):
			s.st = unlock(v.Field(i)).Interface().(*state.State)
		}
	}
	if s.obus == nil || s.st == nil {
		fatal("the parser has no unit list or no state")
	}
	return s
}

var unitPool = make([]obu.Obu, 0, 24)

// lightDigest summarises the units without the pixel scratch areas.
func lightDigest(l []obu.Obu) uint64 {
	d := digester{h: 99}
	for i := range l {
		o := reflect.ValueOf(&l[i]).Elem()
		for k := 0; k < o.NumField(); k++ {
			if f := o.Field(k); f.Type().Size() < 1<<16 {
				d.val(f)
			}
		}
	}
	return d.h
}

var devNull *os.File

func init() { devNull, _ = os.OpenFile("/dev/null", os.O_RDWR, 0) }

// feed delivers more bytes and lets the decoder run until it has used them.
func (s *session) feed(data []byte) { s.feedFor(data, stdBudget) }
func (s *session) feedFor(data []byte, steps int64) {
	if s.end != endOK {
		return
	}
	s.b.Data = append(append([]byte(nil), s.b.Data...), data...)
	if streamFile != "" {
		keepStream(s, data)
	}
	_, s.end, s.msg = limited(steps, s.p.VerifRun)
}

// units returns what was decoded since the last call, and forgets it.
func (s *session) units() []obu.Obu {
	u := *s.obus
	return u
}
func (s *session) clear() { *s.obus = (*s.obus)[:0] }

func short(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

// stacks adds the place of a failure to its message, for debugging.
var stacks bool

func where() string {
	var o []string
	for _, l := range strings.Split(string(debug.Stack()), "\n") {
		if strings.HasPrefix(l, "\t/") && strings.Contains(l, "/internal/") && !strings.Contains(l, "zzverif") && !strings.Contains(l, "/go/") {
			o = append(o, strings.TrimSpace(l))
		}
	}
	if len(o) > 3 {
		o = o[:3]
	}
	return strings.Join(o, " < ")
}
