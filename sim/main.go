package main

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/bluenviron/mediacommon/v2/verifhook"
)

const memPerWorker = 6 << 30

// Replay is the replay file.
type Replay struct {
	Property string   `json:"property"`
	Seed     uint64   `json:"verif_seed"`
	Index    int      `json:"run_index"`
	Class    string   `json:"class"`
	Message  string   `json:"message"`
	Hash     string   `json:"event_log_hash"`
	Choices  []uint64 `json:"choices,omitempty"`
	// History lists run indexes that must be executed in one process, in this
	// order, for the last one to fail (state leaking between runs).
	History []int `json:"history,omitempty"`
}

// Known is an entry of known-findings.json.
type Known struct {
	Property string `json:"property"`
	Class    string `json:"class"`
	Contains string `json:"contains"`
	What     string `json:"what"`
}

type knownFile struct {
	Findings []Known  `json:"findings"`
	Fixed    []string `json:"fixed"`
}

func loadKnown(path string) []Known {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var f knownFile
	if err := json.Unmarshal(b, &f); err != nil {
		fmt.Fprintln(os.Stderr, "known findings:", err)
		os.Exit(3)
	}
	return f.Findings
}

func matchKnown(ks []Known, prop string, v *Violation) int {
	for i, k := range ks {
		if k.Property == prop && k.Class == v.Class && strings.Contains(v.Msg, k.Contains) {
			return i
		}
	}
	return -1
}

type stats struct {
	T        string         `json:"t"`
	Runs     int            `json:"runs"`
	Discards int            `json:"discards"`
	NonTriv  int            `json:"nontriv"`
	Events   int64          `json:"events"`
	Steps    uint64         `json:"steps"`
	Choices  int64          `json:"choices"`
	SimTime  float64        `json:"simtime"`
	Faults   map[string]int `json:"faults"`
	Probes   map[string]int `json:"probes"`
	Known    map[string]int `json:"known"`
	Hashes   []string       `json:"hashes"`
	Edges    []string       `json:"edges"`
	HitIDs   []int          `json:"hitids"`
	Samples  []string       `json:"samples"`
	Procs    int            `json:"-"`
}

func newStats() *stats {
	return &stats{T: "stats", Faults: map[string]int{}, Probes: map[string]int{}, Known: map[string]int{}}
}

func (s *stats) merge(o *stats) {
	s.Runs += o.Runs
	s.Discards += o.Discards
	s.NonTriv += o.NonTriv
	s.Events += o.Events
	s.Steps += o.Steps
	s.Choices += o.Choices
	s.SimTime += o.SimTime
	for k, v := range o.Faults {
		s.Faults[k] += v
	}
	for k, v := range o.Probes {
		s.Probes[k] += v
	}
	for k, v := range o.Known {
		s.Known[k] += v
	}
	s.Hashes = append(s.Hashes, o.Hashes...)
	s.Edges = append(s.Edges, o.Edges...)
	s.HitIDs = append(s.HitIDs, o.HitIDs...)
	if len(s.Samples) < 2 {
		s.Samples = append(s.Samples, o.Samples...)
	}
	s.Procs++
}

type violMsg struct {
	T       string   `json:"t"`
	Index   int      `json:"i"`
	Class   string   `json:"class"`
	Msg     string   `json:"msg"`
	Hash    uint64   `json:"hash"`
	Choices []uint64 `json:"choices"`
}

func setupProcess() {
	runtime.GOMAXPROCS(1)
	debug.SetGCPercent(-1)
	debug.SetMemoryLimit(3 << 30)
	debug.SetMaxStack(192 << 20)
	debug.SetTraceback("single")
	lim := syscall.Rlimit{Cur: memPerWorker, Max: memPerWorker}
	_ = syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	_ = syscall.Setrlimit(syscall.RLIMIT_CORE, &syscall.Rlimit{})
}

// worker executes the runs from, from+stride, ... < to.
func worker(p *Prop, seed uint64, from, stride, to int, budget time.Duration, curFile string, known []Known, dumpHashes bool) {
	setupProcess()
	f, err := os.OpenFile(curFile, os.O_RDWR|os.O_CREATE, 0o644)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	out := bufio.NewWriter(os.Stdout)
	enc := json.NewEncoder(out)
	st := newStats()
	hashes := map[uint64]bool{}
	edges := map[uint64]bool{}
	start := time.Now()
	var b8 [8]byte
	for i := from; i < to; i += stride {
		if budget > 0 && time.Since(start) > budget {
			break
		}
		binary.LittleEndian.PutUint64(b8[:], uint64(i)+1)
		_, _ = f.WriteAt(b8[:], 0)
		r := runOne(p, newSrc(mixSeed(seed, p.ID, uint64(i))), false)
		st.Runs++
		st.Events += int64(r.Env.events)
		st.Steps += r.Steps
		st.Choices += int64(len(r.Rec))
		st.SimTime += r.Env.simTime
		for k, v := range r.Env.faults {
			st.Faults[k] += v
		}
		for k, v := range r.Env.probes {
			st.Probes[k] += v
		}
		if dumpHashes {
			fmt.Fprintf(out, "H %d %016x %016x\n", i, r.Hash, r.Edge)
		}
		if r.Discard {
			st.Discards++
			continue
		}
		if r.Env.nontriv {
			st.NonTriv++
			hashes[r.Hash] = true
			edges[r.Edge] = true
			if len(st.Samples) < 2 && r.Env.sample != "" {
				st.Samples = append(st.Samples, fmt.Sprintf("run %d: %s", i, r.Env.sample))
			}
		}
		if r.Viol != nil {
			if k := matchKnown(known, p.ID, r.Viol); k >= 0 {
				st.Known[strconv.Itoa(k)]++
				continue
			}
			_ = enc.Encode(violMsg{T: "viol", Index: i, Class: r.Viol.Class, Msg: r.Viol.Msg, Hash: r.Hash, Choices: r.Rec})
			break
		}
	}
	binary.LittleEndian.PutUint64(b8[:], 0)
	_, _ = f.WriteAt(b8[:], 0)
	for h := range hashes {
		st.Hashes = append(st.Hashes, strconv.FormatUint(h, 36))
	}
	for h := range edges {
		st.Edges = append(st.Edges, strconv.FormatUint(h, 36))
	}
	for id, c := range verifhook.Hits {
		if c != 0 {
			st.HitIDs = append(st.HitIDs, id)
		}
	}
	_ = enc.Encode(st)
	_ = out.Flush()
}

type workerState struct {
	first   int // first run of the last process
	dead    bool
	cur     string
	cmd     *exec.Cmd
	viol    *violMsg
	stats   *stats
	err     error
	tail    string
	crashed int // run index + 1
	hung    bool
}

func self() string {
	p, err := os.Executable()
	if err != nil {
		panic(err)
	}
	return p
}

type tailBuf struct {
	mu sync.Mutex
	b  []byte
}

func (t *tailBuf) Write(p []byte) (int, error) {
	t.mu.Lock()
	defer t.mu.Unlock()
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}

func errExit(format string, args ...any) {
	fmt.Printf("CHECK-ERROR: "+format+"\n", args...)
	os.Exit(3)
}

// crashClass extracts the reason of the death of a worker; a crash of the machinery itself is no answer.
func crashClass(tail string) string {
	c := crashClass0(tail)
	if c != "" {
		for _, l := range strings.Split(tail, "\n") {
			if strings.HasPrefix(l, "github.com/") {
				break
			}
			if strings.HasPrefix(l, "main.") {
				errExit("the simulator crashed: %s in %s", c, l)
			}
		}
	}
	return c
}

func crashClass0(tail string) string {
	for _, l := range strings.Split(tail, "\n") {
		l = strings.TrimSpace(l)
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "runtime: goroutine stack exceeds") {
			if strings.HasPrefix(l, "runtime: goroutine stack") {
				return "crash:stack overflow"
			}
			return "crash:" + strings.TrimSpace(strings.TrimPrefix(l, "fatal error:"))
		}
		if strings.HasPrefix(l, "panic:") {
			return "crash:" + l
		}
	}
	return ""
}

// oneRun executes a replay in a fresh process.
func oneRun(rp *Replay, scratch string, timeout time.Duration) (*violMsg, string, error) {
	f, err := os.CreateTemp(scratch, "try*.json")
	if err != nil {
		return nil, "", err
	}
	b, _ := json.Marshal(rp)
	_, _ = f.Write(b)
	_ = f.Close()
	defer os.Remove(f.Name())
	cmd := exec.Command(self(), "exec", f.Name())
	var tail tailBuf
	cmd.Stderr = &tail
	o, err := cmd.StdoutPipe()
	if err != nil {
		return nil, "", err
	}
	if err := cmd.Start(); err != nil {
		return nil, "", err
	}
	killed := false
	tm := time.AfterFunc(timeout, func() { killed = true; _ = cmd.Process.Kill() })
	var v *violMsg
	sc := bufio.NewScanner(o)
	sc.Buffer(nil, 1<<28)
	okEnd := false
	for sc.Scan() {
		if strings.HasPrefix(sc.Text(), `{"t":"viol"`) {
			v = &violMsg{}
			_ = json.Unmarshal(sc.Bytes(), v)
		}
		if strings.HasPrefix(sc.Text(), `{"t":"ok"`) {
			okEnd = true
		}
	}
	werr := cmd.Wait()
	tm.Stop()
	if killed {
		return nil, "", fmt.Errorf("timeout")
	}
	if v != nil || okEnd {
		return v, "", nil
	}
	if c := crashClass(string(tail.b)); c != "" {
		return &violMsg{Class: c, Msg: c}, "", nil
	}
	return nil, string(tail.b), fmt.Errorf("process ended: %v", werr)
}

// execReplay is the body of a fresh process that executes a replay.
func execReplay(path string, verbose bool) (*Result, *Replay) {
	b, err := os.ReadFile(path)
	if err != nil {
		errExit("%v", err)
	}
	var rp Replay
	if err := json.Unmarshal(b, &rp); err != nil {
		errExit("%v", err)
	}
	p := findProp(rp.Property)
	if p == nil {
		errExit("unknown property %q", rp.Property)
	}
	setupProcess()
	for k, i := range rp.History {
		if k == len(rp.History)-1 {
			break
		}
		runOne(p, newSrc(mixSeed(rp.Seed, p.ID, uint64(i))), false)
	}
	var src *Src
	switch {
	case rp.Choices != nil && len(rp.History) == 0:
		src = replaySrc(rp.Choices)
	default:
		src = newSrc(mixSeed(rp.Seed, p.ID, uint64(rp.Index)))
	}
	return runOne(p, src, verbose), &rp
}

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: vsim run|replay|exec|worker|list|hashes ...")
		os.Exit(3)
	}
	sort.Slice(props, func(i, j int) bool { return props[i].ID < props[j].ID })
	switch os.Args[1] {
	case "list":
		for _, p := range props {
			fmt.Println(p.ID, p.Quick, p.Thorough)
		}

	case "worker":
		fs := flag.NewFlagSet("worker", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		seed := fs.Uint64("seed", 1, "")
		from := fs.Int("from", 0, "")
		stride := fs.Int("stride", 1, "")
		to := fs.Int("to", 0, "")
		budget := fs.Duration("budget", 0, "")
		cur := fs.String("cur", "", "")
		known := fs.String("known", "", "")
		dump := fs.Bool("dump", false, "")
		_ = fs.Parse(os.Args[2:])
		worker(findProp(*prop), *seed, *from, *stride, *to, *budget, *cur, loadKnown(*known), *dump)

	case "exec":
		r, _ := execReplay(os.Args[2], false)
		out := bufio.NewWriter(os.Stdout)
		if r.Viol != nil {
			_ = json.NewEncoder(out).Encode(violMsg{T: "viol", Class: r.Viol.Class, Msg: r.Viol.Msg, Hash: r.Hash, Choices: r.Rec})
		} else {
			fmt.Fprintln(out, `{"t":"ok"}`)
		}
		_ = out.Flush()

	case "shrink":
		// in-process minimisation; prints the best choice list
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			errExit("%v", err)
		}
		var rp Replay
		_ = json.Unmarshal(b, &rp)
		p := findProp(rp.Property)
		setupProcess()
		best, tries := shrink(rp.Choices, func(c []uint64) ([]uint64, bool) {
			r := runOne(p, replaySrc(c), false)
			return r.Rec, r.Viol != nil && r.Viol.Class == rp.Class
		}, 6000, time.Now().Add(25*time.Second))
		rp.Choices = best
		_ = tries
		_ = json.NewEncoder(os.Stdout).Encode(rp)

	case "replay":
		r, rp := execReplay(os.Args[2], len(os.Args) > 3 && os.Args[3] == "-v")
		if r.Viol == nil {
			fmt.Println("replay: property holds (no violation)")
			os.Exit(0)
		}
		fmt.Printf("replay: %s: %s\n", r.Viol.Class, r.Viol.Msg)
		same := fmt.Sprintf("%016x", r.Hash) == rp.Hash
		fmt.Printf("event log hash %016x, recorded %s, identical: %v\n", r.Hash, rp.Hash, same)
		fmt.Printf("VIOLATION property=%s replay=%s\n", rp.Property, os.Args[2])
		os.Exit(1)

	case "hashes":
		// determinism self test: print the event log hash of every run
		fs := flag.NewFlagSet("hashes", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		seed := fs.Uint64("seed", 1, "")
		from := fs.Int("from", 0, "")
		stride := fs.Int("stride", 1, "")
		to := fs.Int("to", 0, "")
		_ = fs.Parse(os.Args[2:])
		setupProcess()
		p := findProp(*prop)
		for i := *from; i < *to; i += *stride {
			r := runOne(p, newSrc(mixSeed(*seed, p.ID, uint64(i))), false)
			fmt.Printf("%s %d %016x %016x %d\n", p.ID, i, r.Hash, r.Edge, r.Steps)
		}

	case "run":
		fs := flag.NewFlagSet("run", flag.ExitOnError)
		prop := fs.String("prop", "", "")
		tier := fs.String("tier", "quick", "")
		seed := fs.Uint64("seed", 1, "")
		verif := fs.String("verif", "/verif", "")
		scratch := fs.String("scratch", "", "")
		runs := fs.Int("runs", 0, "")
		workers := fs.Int("workers", runtime.NumCPU(), "")
		budget := fs.Duration("budget", 0, "")
		_ = fs.Parse(os.Args[2:])
		os.Exit(orchestrate(*prop, *tier, *seed, *verif, *scratch, *runs, *workers, *budget))

	default:
		os.Exit(3)
	}
}

func orchestrate(id, tier string, seed uint64, verif, scratch string, runs, nw int, budget time.Duration) int {
	p := findProp(id)
	if p == nil {
		errExit("unknown property %q", id)
	}
	n := p.Quick
	wallCap := 240 * time.Second
	if tier == "thorough" {
		n = p.Thorough
		if n == 0 {
			n = p.Quick * 20
		}
		wallCap = 20 * time.Minute
	}
	if runs > 0 {
		n = runs
	}
	if budget > 0 {
		wallCap = budget
	}
	if nw > 8 {
		nw = 8
	}
	if nw > n {
		nw = n
	}
	knownPath := filepath.Join(verif, "known-findings.json")
	known := loadKnown(knownPath)
	start := time.Now()

	ws := make([]*workerState, nw)
	var wg sync.WaitGroup
	var mu sync.Mutex
	var firstViol time.Time
	for k := range ws {
		w := &workerState{stats: newStats(), cur: filepath.Join(scratch, fmt.Sprintf("cur%d", k))}
		ws[k] = w
		_ = os.WriteFile(w.cur, make([]byte, 8), 0o644)
		wg.Add(1)
		go func() {
			defer wg.Done()
			// the runs of a worker may be spread over several short-lived processes
			chunk := n
			if p.Chunk > 0 {
				chunk = p.Chunk * nw
			}
			for from := k; from < n; from += chunk {
				left := wallCap - time.Since(start)
				mu.Lock()
				stop := !firstViol.IsZero() || from != k && left <= 0
				mu.Unlock()
				if stop {
					break
				}
				cmd := exec.Command(self(), "worker", "-prop", id, "-seed", fmt.Sprint(seed), "-from", fmt.Sprint(from),
					"-stride", fmt.Sprint(nw), "-to", fmt.Sprint(min(n, from+chunk)), "-budget", left.String(), "-cur", w.cur, "-known", knownPath)
				var tail tailBuf
				cmd.Stderr = &tail
				o, err := cmd.StdoutPipe()
				if err != nil {
					errExit("%v", err)
				}
				mu.Lock()
				w.first = from
				w.cmd = cmd
				err = cmd.Start()
				mu.Unlock()
				if err != nil {
					errExit("%v", err)
				}
				var cur *stats
				sc := bufio.NewScanner(o)
				sc.Buffer(nil, 1<<28)
				for sc.Scan() {
					if strings.HasPrefix(sc.Text(), `{"t":"viol"`) {
						v := &violMsg{}
						if json.Unmarshal(sc.Bytes(), v) == nil {
							w.viol = v
							mu.Lock()
							if firstViol.IsZero() {
								firstViol = time.Now()
							}
							mu.Unlock()
						}
					} else if strings.HasPrefix(sc.Text(), `{"t":"stats"`) {
						s := &stats{}
						if json.Unmarshal(sc.Bytes(), s) == nil {
							cur = s
						}
					}
				}
				w.err = cmd.Wait()
				w.tail = string(tail.b)
				if cur == nil {
					b, _ := os.ReadFile(w.cur)
					if len(b) == 8 {
						w.crashed = int(binary.LittleEndian.Uint64(b))
					}
					w.dead = true
					mu.Lock()
					if firstViol.IsZero() {
						firstViol = time.Now()
					}
					mu.Unlock()
					break
				}
				w.stats.merge(cur)
				if w.viol != nil {
					break
				}
			}
		}()
	}

	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	last := make([]uint64, nw)
	lastAt := make([]time.Time, nw)
	for k := range lastAt {
		lastAt[k] = time.Now()
	}
	stopping := false
loop:
	for {
		select {
		case <-done:
			break loop
		case <-time.After(300 * time.Millisecond):
		}
		mu.Lock()
		fv := firstViol
		mu.Unlock()
		if !fv.IsZero() && time.Since(fv) > 15*time.Second && !stopping {
			stopping = true
			mu.Lock()
			for _, w := range ws {
				if w.cmd != nil && w.cmd.Process != nil {
					_ = w.cmd.Process.Kill()
				}
			}
			mu.Unlock()
		}
		for k, w := range ws {
			b, _ := os.ReadFile(w.cur)
			if len(b) != 8 {
				continue
			}
			v := binary.LittleEndian.Uint64(b)
			if v != last[k] || v == 0 {
				last[k] = v
				lastAt[k] = time.Now()
			} else if time.Since(lastAt[k]) > 150*time.Second && !w.hung {
				w.hung = true
				mu.Lock()
				_ = w.cmd.Process.Kill()
				mu.Unlock()
			}
		}
	}

	// pick the violation with the lowest index
	var best *violMsg
	var bestW *workerState
	for _, w := range ws {
		if w.viol != nil && (best == nil || w.viol.Index < best.Index) {
			best, bestW = w.viol, w
		}
	}
	if best == nil {
		for _, w := range ws {
			if !w.dead || stopping && !w.hung && crashClass(w.tail) == "" && strings.Contains(fmt.Sprint(w.err), "killed") {
				continue
			}
			if w.hung {
				errExit("watchdog: run %d of %s made no progress for 150 s of wall time", w.crashed-1, id)
			}
			if w.crashed == 0 {
				errExit("worker ended without a result: %v\n%s", w.err, w.tail)
			}
			i := w.crashed - 1
			c := crashClass(w.tail)
			if c == "" {
				errExit("worker died in run %d: %v\n%s", i, w.err, w.tail)
			}
			best, bestW = &violMsg{Index: i, Class: c, Msg: c}, w
			break
		}
	}

	code := 0
	nviol := 0
	if best != nil {
		code = 1
		nviol = 1
		rp := confirm(p, seed, best, bestW.first, nw, scratch)
		dir := filepath.Join(verif, "replays")
		_ = os.MkdirAll(dir, 0o755)
		path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", id, seed, best.Index))
		b, _ := json.MarshalIndent(rp, "", " ")
		if err := os.WriteFile(path, append(b, '\n'), 0o644); err != nil {
			errExit("%v", err)
		}
		fmt.Printf("%s: run %d: %s: %s\n", id, best.Index, rp.Class, rp.Message)
		fmt.Printf("minimised to %d choices; replay: /verif/replay.sh %s\n", len(rp.Choices), path)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, path)
	}

	writeEvidence(p, tier, seed, verif, ws, nw, time.Since(start), nviol, known, n)
	return code
}

// confirm re-executes a violation in a fresh process, minimises it, and checks
// that the minimised replay reproduces exactly.
func confirm(p *Prop, seed uint64, v *violMsg, widx, stride int, scratch string) *Replay {
	rp := &Replay{Property: p.ID, Seed: seed, Index: v.Index, Class: v.Class, Message: v.Msg}
	crash := strings.HasPrefix(v.Class, "crash:")
	again, tail, err := oneRun(rp, scratch, 200*time.Second)
	if err != nil {
		errExit("could not re-execute run %d: %v\n%s", v.Index, err, tail)
	}
	if again == nil || again.Class != v.Class {
		// state carried over from earlier runs of the same process?
		var hist []int
		for i := widx; i <= v.Index; i += stride {
			hist = append(hist, i)
		}
		for k := 2; ; k *= 2 {
			if k > len(hist) {
				k = len(hist)
			}
			h := *rp
			h.History = hist[len(hist)-k:]
			again, _, err = oneRun(&h, scratch, 300*time.Second)
			if err == nil && again != nil && again.Class == v.Class {
				h.Hash = fmt.Sprintf("%016x", again.Hash)
				h.Message = again.Msg
				return &h
			}
			if k == len(hist) {
				break
			}
		}
		errExit("run %d reported %s (%s) but it does not reproduce in a fresh process", v.Index, v.Class, v.Msg)
	}
	if crash {
		rp.Message = again.Msg
		return rp
	}
	rp.Choices = again.Choices
	rp.Hash = fmt.Sprintf("%016x", again.Hash)
	rp.Message = again.Msg
	full := *rp

	f, _ := os.CreateTemp(scratch, "shrink*.json")
	b, _ := json.Marshal(rp)
	_, _ = f.Write(b)
	_ = f.Close()
	cmd := exec.Command(self(), "shrink", f.Name())
	o, err := cmd.Output()
	var sh Replay
	if err == nil && json.Unmarshal(o, &sh) == nil && len(sh.Choices) <= len(rp.Choices) {
		if sh.Choices == nil {
			sh.Choices = []uint64{}
		}
		again, _, err = oneRun(&sh, scratch, 200*time.Second)
		if err == nil && again != nil && again.Class == v.Class {
			sh.Hash = fmt.Sprintf("%016x", again.Hash)
			sh.Message = again.Msg
			return &sh
		}
	}
	return &full
}

func writeEvidence(p *Prop, tier string, seed uint64, verif string, ws []*workerState, nw int, wall time.Duration, nviol int, known []Known, planned int) {
	tot := newStats()
	hs := map[string]bool{}
	es := map[string]bool{}
	ids := map[int]bool{}
	kn := map[int]int{}
	for _, w := range ws {
		tot.merge(w.stats)
	}
	procs := 0
	for _, w := range ws {
		procs += w.stats.Procs
	}
	for k, v := range tot.Known {
		i, _ := strconv.Atoi(k)
		kn[i] += v
	}
	for _, h := range tot.Hashes {
		hs[h] = true
	}
	for _, h := range tot.Edges {
		es[h] = true
	}
	for _, h := range tot.HitIDs {
		ids[h] = true
	}
	tot.Samples = nil
	for _, w := range ws {
		tot.Samples = append(tot.Samples, w.stats.Samples...)
	}
	for i, c := range kn {
		fmt.Printf("KNOWN-FINDING: property=%s %s (%d runs)\n", p.ID, known[i].What, c)
	}
	if len(tot.Samples) > 8 {
		tot.Samples = tot.Samples[:8]
	}
	samples := []any{}
	for _, s := range tot.Samples {
		samples = append(samples, s)
	}
	secs := wall.Seconds()
	level := p.Level
	if level == "" {
		level = "exploration"
	}
	ev := map[string]any{
		"property": p.ID,
		"tier":     tier,
		"seed":     seed,
		"level":    level,
		"wall_s":   secs,
		"coverage": map[string]any{
			"evaluations":         tot.Runs,
			"planned_runs":        planned,
			"distinct_nontrivial": len(hs),
			"rule": p.Rule + " Distinct = distinct event-log hashes among non-trivial runs " +
				"(one event per I/O call, delivery, fault and scheduling decision).",
			"samples":                      samples,
			"discarded_out_of_domain":      tot.Discards,
			"nontrivial":                   tot.NonTriv,
			"runs_per_hour":                int(float64(tot.Runs) / secs * 3600),
			"seeds_per_hour":               int(float64(tot.Runs) / secs * 3600),
			"simulated_media_seconds":      tot.SimTime,
			"faults_injected":              tot.Faults,
			"probes":                       tot.Probes,
			"distinct_control_flow_states": len(es),
			"distinct_control_flow_rule":   "distinct sets of executed statement-to-statement edges per run",
			"statements_reached":           len(ids),
			"statements_instrumented":      verifhook.RepoIDs - 1,
			"events":                       tot.Events,
			"choices_drawn":                tot.Choices,
			"simulated_steps":              tot.Steps,
			"parallel_workers":             nw,
			"processes":                    procs,
			"components_real":              p.Real,
			"components_stubbed":           p.Stub,
		},
		"assumptions": p.Assume,
		"violations":  nviol,
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	if f := os.Getenv("VSIM_HITS"); f != "" { // statements reached, for coverage reports
		b, _ := json.Marshal(ids)
		_ = os.WriteFile(f, b, 0o644)
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		errExit("%v", err)
	}
	fmt.Printf("%s %s: %d runs (%d non-trivial, %d distinct histories, %d discarded) in %.1f s, %d faults, %d statements reached\n",
		p.ID, tier, tot.Runs, tot.NonTriv, len(hs), tot.Discards, secs, func() int {
			t := 0
			for _, v := range tot.Faults {
				t += v
			}
			return t
		}(), len(ids))
	for _, k := range sortedKeys(tot.Faults) {
		fmt.Printf("  fault %-32s %d\n", k, tot.Faults[k])
	}
	for _, k := range sortedKeys(tot.Probes) {
		fmt.Printf("  probe %-32s %d\n", k, tot.Probes[k])
	}
}
