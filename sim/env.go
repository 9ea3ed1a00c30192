package main

import (
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"

	mp4codecs "github.com/bluenviron/mediacommon/v2/pkg/formats/mp4/codecs"
	"github.com/bluenviron/mediacommon/v2/verifhook"
)

// Violation is a broken property.
type Violation struct {
	Class string
	Msg   string
}

// discard is raised when a generated case is outside of the domain.
type discard struct{}

// Env is one simulated execution.
type Env struct {
	*Src
	prop    *Prop
	verbose bool

	hash    uint64
	events  int
	faults  map[string]int
	probes  map[string]int
	simTime float64
	nontriv bool
	sample  string

	traits     map[mp4codecs.Codec]codecTraits // what is known about drawn codecs
	exoticSets bool                            // parameter sets with rare syntax
	quietHvcc  bool                            // the known finding is reported by other properties
	av1        codecTraits                     // of the last AV1 sequence header
}

const fnvPrime = 0x100000001B3

func (e *Env) mix(v uint64) { e.hash = (e.hash ^ v) * fnvPrime; e.hash ^= e.hash >> 29 }

func (e *Env) mixs(s string) {
	for i := 0; i < len(s); i++ {
		e.hash = (e.hash ^ uint64(s[i])) * fnvPrime
	}
	e.hash ^= e.hash >> 29
}

func hashBytes(b []byte) uint64 {
	h := uint64(0xcbf29ce484222325)
	for _, c := range b {
		h = (h ^ uint64(c)) * fnvPrime
	}
	return h
}

// Ev appends an event to the log of the run.
func (e *Env) Ev(kind string, args ...any) {
	e.events++
	e.mixs(kind)
	for _, a := range args {
		switch v := a.(type) {
		case int:
			e.mix(uint64(v))
		case int64:
			e.mix(uint64(v))
		case uint64:
			e.mix(v)
		case uint32:
			e.mix(uint64(v))
		case bool:
			if v {
				e.mix(1)
			} else {
				e.mix(2)
			}
		case string:
			e.mixs(v)
		case []byte:
			e.mix(uint64(len(v)))
			e.mix(hashBytes(v))
		case error:
			e.mixs(v.Error())
		case nil:
			e.mix(0)
		default:
			e.mixs(fmt.Sprint(v))
		}
	}
	if e.verbose {
		var sb strings.Builder
		fmt.Fprintf(&sb, "%5d %s", e.events, kind)
		for _, a := range args {
			if b, ok := a.([]byte); ok {
				if len(b) <= 16 {
					fmt.Fprintf(&sb, " [%d]%x", len(b), b)
				} else {
					fmt.Fprintf(&sb, " [%d]%x..#%x", len(b), b[:12], hashBytes(b))
				}
			} else {
				fmt.Fprintf(&sb, " %v", a)
			}
		}
		fmt.Fprintln(os.Stderr, sb.String())
	}
}

// Fault records that a fault fired.
func (e *Env) Fault(kind string) { e.faults[kind]++; e.Ev("fault", kind) }

// Probe records that a rare condition was reached.
func (e *Env) Probe(name string) { e.probes[name]++ }

// NonTrivial marks the run as having exercised the property.
func (e *Env) NonTrivial() { e.nontriv = true }

// Fail reports a violation.
func (e *Env) Fail(class, format string, args ...any) {
	panic(&Violation{Class: class, Msg: fmt.Sprintf(format, args...)})
}

// Check fails if cond is false.
func (e *Env) Check(cond bool, class, format string, args ...any) {
	if !cond {
		e.Fail(class, format, args...)
	}
}

// Discard ends the run without a verdict.
func (e *Env) Discard() { panic(discard{}) }

// Steps returns the number of instrumented steps so far.
func (e *Env) Steps() uint64 { return verifhook.Steps }

// Prop is a property and its simulation.
type Prop struct {
	ID       string
	Title    string
	Run      func(e *Env)
	Quick    int // runs
	Thorough int
	Steps    uint64 // step budget per run
	Chunk    int    // runs per process, 0 = all
	Level    string
	Rule     string
	Real     []string
	Stub     []string
	Assume   []string
}

var props []*Prop

func register(p *Prop) { props = append(props, p) }

func findProp(id string) *Prop {
	for _, p := range props {
		if p.ID == id {
			return p
		}
	}
	return nil
}

// Result of one run.
type Result struct {
	Viol    *Violation
	Discard bool
	Hash    uint64
	Edge    uint64
	Rec     []uint64
	Env     *Env
	Steps   uint64
}

func panicSite(stack string) string {
	// first frame of the repository or its dependencies below the panic
	lines := strings.Split(stack, "\n")
	seen := false
	for i := 0; i+1 < len(lines); i++ {
		l := lines[i]
		if strings.HasPrefix(l, "panic(") {
			seen = true
			continue
		}
		if !seen || strings.HasPrefix(l, "\t") || strings.HasPrefix(l, "runtime.") || strings.HasPrefix(l, "created by") {
			continue
		}
		if strings.HasPrefix(l, "main.") {
			return "oracle:" + l[:strings.LastIndex(l, "(")]
		}
		if !strings.HasPrefix(l, "github.com/") {
			continue // standard library: blame the caller
		}
		if k := strings.LastIndex(l, "("); k > 0 && strings.Contains(l, ".") {
			l = l[:k]
		}
		l = strings.TrimPrefix(l, "github.com/")
		return l
	}
	return "?"
}

func (e *Env) guard(fn func()) (v *Violation, disc bool) {
	defer func() {
		if r := recover(); r != nil {
			verifhook.Limit = ^uint64(0)
			verifhook.Countdown = 0
			v, disc = e.classify(r, string(debug.Stack()))
		}
	}()
	fn()
	return nil, false
}

func (e *Env) classify(r any, stack string) (*Violation, bool) {
	switch t := r.(type) {
	case *Violation:
		return t, false
	case discard:
		return nil, true
	case verifhook.StepLimit:
		return &Violation{Class: "no-progress", Msg: fmt.Sprintf("no end after %d steps (livelock)", verifhook.Steps)}, false
	}
	site := panicSite(stack)
	msg := fmt.Sprint(r)
	if e.verbose {
		fmt.Fprintln(os.Stderr, stack)
	}
	return &Violation{Class: "panic@" + site, Msg: "panic: " + msg + " in " + site}, false
}

func runOne(p *Prop, src *Src, verbose bool) *Result {
	runtime.GC()
	runtime.GC() // twice: also empties the victim caches of sync.Pool
	e := &Env{Src: src, prop: p, verbose: verbose, hash: 0xcbf29ce484222325,
		faults: map[string]int{}, probes: map[string]int{}}
	lim := p.Steps
	if lim == 0 {
		lim = 600_000_000
	}
	verifhook.Reset(lim)
	verifhook.Preempt = nil
	verifhook.Global = nil
	v, d := e.guard(func() { p.Run(e) })
	steps := verifhook.Steps
	verifhook.Limit = ^uint64(0)
	verifhook.Countdown = 0
	verifhook.Preempt = nil
	verifhook.Global = nil
	eh := uint64(0xcbf29ce484222325)
	for i, c := range verifhook.Edges {
		if c != 0 {
			eh = (eh ^ uint64(i)) * fnvPrime
		}
	}
	if v != nil {
		e.mixs(v.Class)
		if verbose {
			fmt.Fprintf(os.Stderr, "VIOLATION %s: %s\n", v.Class, v.Msg)
		}
	}
	return &Result{Viol: v, Discard: d, Hash: e.hash, Edge: eh, Rec: src.rec, Env: e, Steps: steps}
}

func sortedKeys(m map[string]int) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
