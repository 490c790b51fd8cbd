// Command gitsim runs the simulated scenarios.
//
//	gitsim run PROP        explore (VERIF_SEED, VERIF_TIER), write evidence
//	gitsim replay FILE     run a recorded counterexample again
//	gitsim hashes PROP N   print the event-log hashes of the first N runs
package main

import (
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"verif.local/gitsim/core"
	"verif.local/gitsim/props"
)

var (
	evidenceDir = flag.String("evidence", "/verif/evidence", "where evidence and replays go")
	knownFile   = flag.String("known", "/verif/known_findings.json", "recorded findings")
	workers     = flag.Int("workers", 0, "parallel workers (default: one per CPU)")
	runsFlag    = flag.Int("runs", 0, "number of runs (default: by tier)")
	capFlag     = flag.Duration("cap", 0, "wall-clock cap (default: by tier)")
	seedFlag    = flag.Int64("seed", -1, "seed (default: VERIF_SEED)")
	noRace      = flag.Bool("norace", false, "leave out the phase under the race detector")
	raceBin     = flag.String("racebin", "", "this program built with the race detector")
	tierFlag    = flag.String("tier", "", "tier (default: VERIF_TIER)")
)

const (
	stallTime = 150 * time.Second // a run that takes this long hangs
	memLimit  = 6 << 30
)

// ---- the wire format between parent and workers

type found struct {
	Index   int64   `json:"index"`
	Class   string  `json:"class"`
	Detail  string  `json:"detail"`
	Choices []int32 `json:"choices,omitempty"`
	LogHash string  `json:"log_hash,omitempty"`
	Trace   []string
}

type batchOut struct {
	From, To int64
	Runs     int64
	Stats    map[string]int64
	Hashes   string // little-endian log hashes of the non-trivial runs
	Evts     uint64
	SimNanos int64
	Steps    uint64
	Choices  int64
	Sample   *sample
	Viol     *found
}

type sample struct {
	Index int64    `json:"index"`
	Seed  string   `json:"seed"`
	Log   []string `json:"event_log"`
}

type replayFile struct {
	Property string   `json:"property"`
	Scenario string   `json:"scenario"`
	Seed     int64    `json:"verif_seed"`
	Index    int64    `json:"index"`
	RunSeed  string   `json:"run_seed"`
	Prelude  []int64  `json:"prelude,omitempty"` // runs to execute first in the same process
	Class    string   `json:"class"`
	Detail   string   `json:"violation"`
	LogHash  string   `json:"log_hash"`
	Original int      `json:"choices_before_minimising"`
	Choices  []int32  `json:"choices"`
	Trace    []string `json:"trace"`
	// Random: the code under test draws its own random numbers (or depends on
	// addresses), so that the same run fails on some attempts only.
	Random bool `json:"code_under_test_is_random,omitempty"`
}

func runSeed(seed int64, prop string, index int64) uint64 {
	return core.Mix(uint64(seed), core.HashString(prop), uint64(index))
}

type finding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Title    string `json:"title"`
}

var findings []finding

func loadKnown() {
	b, err := os.ReadFile(*knownFile)
	if os.IsNotExist(err) {
		return
	}
	check(err)
	var f struct {
		Findings []finding `json:"findings"`
	}
	check(json.Unmarshal(b, &f))
	findings = f.Findings
	for _, k := range findings {
		props.Known[k.ID] = true
	}
}

func check(err error) {
	if err != nil {
		fmt.Fprintln(os.Stderr, "gitsim:", err)
		os.Exit(2)
	}
}

// execute performs one run.
func execute(sc *props.Scenario, c *core.Chooser, keep bool) (*core.Sim, *core.Violation) {
	s := core.NewSim(c, keep)
	props.Start(s)
	races := core.RaceErrors()
	v := core.Run(s, sc.Run)
	if core.RaceErrors() > races {
		if d := raceReport(); d != "" && v == nil {
			v = &core.Violation{Class: "data-race", Detail: d}
			s.Event("VIOLATION %s", d)
		}
	}
	return s, v
}

var raceLogRead int64

// raceReport reads what the race detector logged since the last call and names
// the two accesses of the first race in the code under test.
func raceReport() string {
	f, err := os.Open(fmt.Sprintf("%s.%d", os.Getenv("GITSIM_RACELOG"), os.Getpid()))
	check(err)
	defer f.Close()
	f.Seek(raceLogRead, 0)
	b, err := io.ReadAll(f)
	check(err)
	raceLogRead += int64(len(b))
	for _, rep := range strings.Split(string(b), "==================") {
		if !strings.Contains(rep, "DATA RACE") {
			continue
		}
		var acc []string
		inRepo := false
		for _, part := range strings.Split(rep, "\n\n") {
			lines := strings.Split(strings.TrimSpace(part), "\n")
			if strings.HasPrefix(lines[0], "WARNING") {
				lines = lines[1:]
			}
			if len(lines) < 2 || strings.HasPrefix(lines[0], "Goroutine") {
				continue
			}
			kind, _, _ := strings.Cut(lines[0], " at 0x")
			where := strings.TrimSpace(lines[1])
			for i := 2; i < len(lines); i += 2 {
				if l := strings.TrimSpace(lines[i]); strings.Contains(l, "/repo/") {
					l, _, _ = strings.Cut(l, " +0x")
					where = strings.TrimSpace(lines[i-1]) + " " + l
					inRepo = true
					break
				}
			}
			acc = append(acc, strings.ToLower(kind)+" in "+where)
		}
		if !inRepo {
			fmt.Fprintln(os.Stderr, "simulator bug: a race outside the code under test:", rep)
			os.Exit(2)
		}
		return "two tasks access the same memory unordered: " + strings.Join(acc, "; ")
	}
	return ""
}

// ---- worker side

func worker(args []string) {
	// worker PROP SEED FROM TO OUT PROGRESS
	sc := props.All[args[0]]
	seed, _ := strconv.ParseInt(args[1], 10, 64)
	from, _ := strconv.ParseInt(args[2], 10, 64)
	to, _ := strconv.ParseInt(args[3], 10, 64)
	limits()
	prog, err := os.OpenFile(args[5], os.O_CREATE|os.O_WRONLY, 0o644)
	check(err)
	out := &batchOut{From: from, To: to, Stats: map[string]int64{}}
	var hashes []byte
	for i := from; i < to; i++ {
		var b [8]byte
		binary.LittleEndian.PutUint64(b[:], uint64(i))
		prog.WriteAt(b[:], 0)
		s, v := execute(sc, core.NewChooser(runSeed(seed, sc.ID, i)), i == from && from%(1<<10) == 0)
		out.Runs++
		out.Evts += s.Evts
		out.SimNanos += s.Now
		out.Steps += s.Steps
		out.Choices += int64(len(s.Rec))
		for k, n := range s.Stats {
			if strings.HasPrefix(k, "max:") {
				out.Stats[k] = max(out.Stats[k], n)
			} else {
				out.Stats[k] += n
			}
		}
		if sc.NonTrivial(s.Stats) {
			hashes = binary.LittleEndian.AppendUint64(hashes, s.LogHash())
		}
		if s.Keep {
			l := s.Log
			if len(l) > 60 {
				l = append(append([]string{}, l[:45]...), append([]string{fmt.Sprintf("... %d more events ...", len(s.Log)-60)}, l[len(l)-15:]...)...)
			}
			for i := range l {
				if len(l[i]) > 400 {
					l[i] = l[i][:400] + "..."
				}
			}
			out.Sample = &sample{i, fmt.Sprintf("%016x", runSeed(seed, sc.ID, i)), l}
		}
		if v != nil {
			out.Viol = &found{Index: i, Class: v.Class, Detail: v.Detail, Choices: s.Rec, LogHash: fmt.Sprintf("%016x", s.LogHash())}
			break
		}
	}
	out.Hashes = base64.StdEncoding.EncodeToString(hashes)
	writeJSON(args[4], out)
}

func limits() {
	debug.SetGCPercent(400)
	if !core.RaceBuild { // the detector reserves a large address range
		lim := syscall.Rlimit{Cur: memLimit, Max: memLimit}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMaxStack(512 << 20)
}

func writeJSON(path string, v any) {
	b, err := json.MarshalIndent(v, "", " ")
	check(err)
	tmp := path + ".tmp"
	check(os.WriteFile(tmp, append(b, '\n'), 0o644))
	check(os.Rename(tmp, path))
}

type oneReq struct {
	Prop    string
	Seed    int64
	Prelude []int64
	Index   int64   // used when Choices is nil
	Choices []int32 // nil: draw from the seed
	Record  string  // file that receives the choices as they are drawn
	Keep    bool
}

// one runs a single case (after its prelude) and writes what it found.
func one(args []string) {
	var r oneReq
	b, err := os.ReadFile(args[0])
	check(err)
	check(json.Unmarshal(b, &r))
	limits()
	sc := props.All[r.Prop]
	for _, i := range r.Prelude {
		execute(sc, core.NewChooser(runSeed(r.Seed, r.Prop, i)), false)
	}
	var c *core.Chooser
	if r.Choices != nil {
		c = core.ReplayChooser(r.Choices)
	} else {
		c = core.NewChooser(runSeed(r.Seed, r.Prop, r.Index))
	}
	if r.Record != "" {
		f, err := os.Create(r.Record)
		check(err)
		c.Record = func(v int32) {
			var b [4]byte
			binary.LittleEndian.PutUint32(b[:], uint32(v))
			f.Write(b[:])
		}
	}
	s, v := execute(sc, c, r.Keep)
	out := &found{Index: r.Index, LogHash: fmt.Sprintf("%016x", s.LogHash()), Choices: s.Rec}
	if v != nil {
		out.Class, out.Detail = v.Class, v.Detail
	}
	if r.Keep {
		out.Trace = s.Log
	}
	writeJSON(args[1], out)
}

type shrinkReq struct {
	Prop    string
	Class   string
	Choices []int32
	Budget  time.Duration
}

// shrink minimises in one process.
func shrink(args []string) {
	var r shrinkReq
	b, err := os.ReadFile(args[0])
	check(err)
	check(json.Unmarshal(b, &r))
	limits()
	sc := props.All[r.Prop]
	best := minimise(r.Choices, r.Budget, func(c []int32) ([]int32, bool) {
		s, v := execute(sc, core.ReplayChooser(c), false)
		if v == nil || v.Class != r.Class {
			return nil, false
		}
		return s.Rec, true
	})
	writeJSON(args[1], best)
}

// minimise shortens and lowers a list of choices while test holds. test returns
// the choices actually used.
func minimise(best []int32, budget time.Duration, test func([]int32) ([]int32, bool)) []int32 {
	end := time.Now().Add(budget)
	try := func(c []int32) bool {
		if time.Now().After(end) {
			return false
		}
		used, ok := test(c)
		if !ok {
			return false
		}
		if len(used) < len(c) {
			c = used
		}
		for len(c) > 0 && c[len(c)-1] == 0 { // zeros are implied
			c = c[:len(c)-1]
		}
		if len(c) > len(best) || len(c) == len(best) && !less(c, best) {
			return false
		}
		best = append([]int32(nil), c...)
		return true
	}
	try(best)
	for progress := true; progress && time.Now().Before(end); {
		progress = false
		// drop the tail
		for n := len(best) / 2; n >= 1; n /= 2 {
			for len(best) >= n && try(best[:len(best)-n]) {
				progress = true
			}
		}
		// drop chunks
		for n := len(best) / 2; n >= 1; n /= 2 {
			for i := 0; i+n <= len(best); {
				if try(append(append([]int32(nil), best[:i]...), best[i+n:]...)) {
					progress = true
				} else {
					i += n
				}
				if time.Now().After(end) {
					return best
				}
			}
		}
		// zero chunks, then lower single choices
		for n := len(best) / 2; n >= 1; n /= 2 {
			for i := 0; i+n <= len(best); i += n {
				c := append([]int32(nil), best...)
				some := false
				for j := i; j < i+n; j++ {
					some = some || c[j] != 0
					c[j] = 0
				}
				if some && try(c) {
					progress = true
				}
				if i+n > len(best) || time.Now().After(end) {
					break
				}
			}
		}
		for i := 0; i < len(best); i++ {
			for lo, hi := int32(0), best[i]; lo < hi; {
				m := (lo + hi) / 2
				c := append([]int32(nil), best...)
				c[i] = m
				if try(c) {
					progress = true
					if i >= len(best) {
						break
					}
					hi = min(m, best[i])
				} else {
					lo = m + 1
				}
				if time.Now().After(end) {
					return best
				}
			}
		}
	}
	return best
}

func less(a, b []int32) bool {
	for i := range a {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return false
}

// ---- parent side

var tmpDir string

var useRace bool // run children with the race detector

// child runs this program again. It reports how it ended: "" (well), "crash" or
// "hang", with what it printed.
func child(progress string, args ...string) (end, text string) {
	return childTimeout(stallTime, progress, args...)
}

func childTimeout(stall time.Duration, progress string, args ...string) (end, text string) {
	self, err := os.Executable()
	check(err)
	if useRace {
		self = *raceBin
	}
	cmd := exec.Command(self, append([]string{"-known", *knownFile}, args...)...)
	cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GOTRACEBACK=all")
	if useRace {
		l := tmpName("race")
		cmd.Env = append(cmd.Env, "GITSIM_RACELOG="+l, "GORACE=log_path="+l+" halt_on_error=0 exitcode=0 atexit_sleep_ms=0 history_size=3 suppress_equal_stacks=0 suppress_equal_addresses=0")
		defer func() {
			old, _ := filepath.Glob(l + ".*")
			for _, f := range old {
				os.Remove(f)
			}
		}()
	}
	// What the code under test prints is of no interest; a crash is.
	errf, err := os.CreateTemp(tmpDir, "stderr")
	check(err)
	defer func() { errf.Close(); os.Remove(errf.Name()) }()
	cmd.Stderr = errf
	check(cmd.Start())
	done := make(chan error, 1)
	go func() { done <- cmd.Wait() }()
	last, since := "", time.Now()
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
	for {
		select {
		case err := <-done:
			if err == nil {
				return "", ""
			}
			b, _ := os.ReadFile(errf.Name())
			t := string(b)
			if i := strings.Index(t, "simulator bug"); i >= 0 {
				fmt.Fprintln(os.Stderr, t)
				fmt.Println("gitsim: internal error")
				os.Exit(2)
			}
			return "crash", t
		case <-tick.C:
			cur := ""
			if progress != "" {
				b, _ := os.ReadFile(progress)
				cur = string(b)
			}
			if cur != last {
				last, since = cur, time.Now()
			}
			if time.Since(since) > stall {
				cmd.Process.Signal(syscall.SIGQUIT)
				time.Sleep(300 * time.Millisecond)
				cmd.Process.Kill()
				<-done
				b, _ := os.ReadFile(errf.Name())
				return "hang", string(b)
			}
		}
	}
}

var reqN int
var reqMu sync.Mutex

func tmpName(s string) string {
	reqMu.Lock()
	defer reqMu.Unlock()
	reqN++
	return filepath.Join(tmpDir, fmt.Sprintf("%s%d", s, reqN))
}

// runOne runs a case in a fresh process; a crash or hang becomes a finding.
func runOne(r *oneReq, stall time.Duration) *found {
	in, out := tmpName("one"), tmpName("oneout")
	defer os.Remove(in)
	defer os.Remove(out)
	writeJSON(in, r)
	end, text := childTimeout(stall, "", "one", in, out)
	f := &found{Index: r.Index}
	if end != "" {
		f.Class = end
		f.Detail = crashLine(end, text)
		f.Trace = strings.Split(clipText(text, 6000), "\n")
		if r.Record != "" {
			b, _ := os.ReadFile(r.Record)
			for i := 0; i+4 <= len(b); i += 4 {
				f.Choices = append(f.Choices, int32(binary.LittleEndian.Uint32(b[i:])))
			}
		}
		return f
	}
	b, err := os.ReadFile(out)
	check(err)
	check(json.Unmarshal(b, f))
	return f
}

func clipText(s string, n int) string {
	if len(s) > n {
		return s[:n] + "\n..."
	}
	return s
}

func crashLine(end, text string) string {
	if end == "hang" {
		return fmt.Sprintf("the run does not end within %s", stallTime)
	}
	for _, l := range strings.Split(text, "\n") {
		if strings.HasPrefix(l, "fatal error:") || strings.HasPrefix(l, "panic:") || strings.HasPrefix(l, "runtime:") || strings.HasPrefix(l, "signal:") {
			return "the process is brought down: " + l + " at " + core.FirstFrame(text)
		}
	}
	return "the process is brought down: " + clipText(text, 200)
}

type total struct {
	batchOut
	distinct map[uint64]bool
	nontriv  int64
	samples  []*sample
	notes    []string
}

func run(prop string) {
	sc := props.All[prop]
	if sc == nil {
		check(fmt.Errorf("no such property: %s", prop))
	}
	seed, tier := settings()
	n := int64(sc.Quick)
	wall := 8 * time.Minute
	if tier == "thorough" {
		n *= 40
		wall = 90 * time.Minute
	}
	if *runsFlag > 0 {
		n = int64(*runsFlag)
	}
	if *capFlag > 0 {
		wall = *capFlag
	}
	w := *workers
	if w == 0 {
		w = runtime.NumCPU()
	}
	var err error
	tmpDir, err = os.MkdirTemp("", "gitsim")
	check(err)
	defer os.RemoveAll(tmpDir)
	start := time.Now()

	t, viols, batch := explore(sc, seed, n, start.Add(wall), w)
	exploreTime := time.Since(start)
	// A second phase, if the property has one.
	var second *total
	var secondTime time.Duration
	if sc2 := props.All[prop+"R"]; sc2 != nil && len(viols) == 0 && !*noRace {
		if *raceBin == "" {
			check(fmt.Errorf("%s needs -racebin", prop))
		}
		useRace = true
		n2 := n * int64(sc2.Quick) / int64(sc.Quick)
		at := time.Now()
		second, viols, batch = explore(sc2, seed, max(1, n2), at.Add(wall), w)
		secondTime = time.Since(at)
		sc = sc2
	}
	sort.Slice(viols, func(i, j int) bool { return viols[i].Index < viols[j].Index })
	code := 0
	if len(viols) > 0 {
		var path string
		var f *found
		for _, v := range viols {
			if path, f = report(sc, seed, v, batch); path != "" {
				break
			}
		}
		if path == "" {
			fmt.Printf("gitsim: run %d of %s reported %q but could not be repeated\n", viols[0].Index, prop, viols[0].Detail)
			os.RemoveAll(tmpDir)
			os.Exit(2)
		}
		fmt.Printf("%s: %s\n", f.Class, f.Detail)
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
		code = 1
	}
	for _, k := range findings {
		if k.Property == prop && t.Stats["known:"+k.ID] > 0 {
			fmt.Printf("KNOWN-FINDING: property=%s %s %s (seen %d times)\n", prop, k.ID, k.Title, t.Stats["known:"+k.ID])
		}
	}
	t.evidence(props.All[prop], seed, tier, exploreTime, time.Since(start), len(viols), w, second, secondTime)
	if second != nil {
		fmt.Printf("%s: %d more runs (%d distinct non-trivial) under the race detector\n", prop, second.Runs, len(second.distinct))
	}
	fmt.Printf("%s: %d runs (%d distinct non-trivial) in %.1fs, seed %d, tier %s\n", prop, t.Runs, len(t.distinct), time.Since(start).Seconds(), seed, tier)
	for _, x := range t.notes {
		fmt.Println("note:", x)
	}
	os.RemoveAll(tmpDir)
	os.Exit(code)
}

// explore runs a scenario n times in batches, each in a fresh process.
func explore(sc *props.Scenario, seed, n int64, deadline time.Time, w int) (*total, []*found, int64) {
	batch := int64(128)
	if sc.Batch > 0 {
		batch = int64(sc.Batch)
	}
	if n/batch < int64(4*w) {
		batch = max(1, n/int64(4*w))
	}
	t := &total{distinct: map[uint64]bool{}}
	t.Stats = map[string]int64{}
	var mu sync.Mutex
	var next int64
	var viols []*found
	capped := false
	var wg sync.WaitGroup
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				mu.Lock()
				if next >= n || len(viols) > 0 || time.Now().After(deadline) {
					if next < n && len(viols) == 0 {
						capped = true
					}
					mu.Unlock()
					return
				}
				from := next
				next = min(n, from+batch)
				to := next
				mu.Unlock()
				b, f, note := runBatch(sc.ID, seed, from, to)
				mu.Lock()
				if note != "" {
					t.notes = append(t.notes, note)
				}
				if b != nil {
					t.add(b)
				}
				if f != nil {
					viols = append(viols, f)
				}
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	if capped {
		t.notes = append(t.notes, fmt.Sprintf("stopped by the wall-clock cap after %d of %d runs", t.Runs, n))
	}
	return t, viols, batch
}

func settings() (int64, string) {
	seed := int64(1)
	if v := os.Getenv("VERIF_SEED"); v != "" {
		x, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			x = int64(core.HashString(v) >> 1)
		}
		seed = x
	}
	if *seedFlag >= 0 {
		seed = *seedFlag
	}
	tier := os.Getenv("VERIF_TIER")
	if *tierFlag != "" {
		tier = *tierFlag
	}
	if tier != "thorough" {
		tier = "quick"
	}
	return seed, tier
}

func runBatch(prop string, seed, from, to int64) (*batchOut, *found, string) {
	note := ""
	for attempt := 0; ; attempt++ {
		out, prog := tmpName("batch"), tmpName("progress")
		end, text := child(prog, "worker", prop, fmt.Sprint(seed), fmt.Sprint(from), fmt.Sprint(to), out, prog)
		pb, _ := os.ReadFile(prog)
		os.Remove(prog)
		if end == "" {
			b, err := os.ReadFile(out)
			check(err)
			os.Remove(out)
			var r batchOut
			check(json.Unmarshal(b, &r))
			return &r, r.Viol, note
		}
		idx := from
		if len(pb) == 8 {
			idx = int64(binary.LittleEndian.Uint64(pb))
		}
		// Alone, or else after the runs before it?
		r := &oneReq{Prop: prop, Seed: seed, Index: idx, Record: tmpName("choices")}
		f := runOne(r, stallTime)
		if f.Class == "" {
			for i := from; i < idx; i++ {
				r.Prelude = append(r.Prelude, i)
			}
			f = runOne(r, stallTime+time.Minute)
		}
		os.Remove(r.Record)
		if f.Class != "" {
			f.Index = idx
			return nil, f, ""
		}
		note = fmt.Sprintf("a worker ended (%s) in run %d and the run, repeated, did not: %s", end, idx, crashLine(end, text))
		if attempt >= 2 {
			fmt.Println("gitsim:", note)
			os.RemoveAll(tmpDir)
			os.Exit(2)
		}
	}
}

func (t *total) add(b *batchOut) {
	t.Runs += b.Runs
	t.Evts += b.Evts
	t.SimNanos += b.SimNanos
	t.Steps += b.Steps
	t.Choices += b.Choices
	for k, n := range b.Stats {
		if strings.HasPrefix(k, "max:") {
			t.Stats[k] = max(t.Stats[k], n)
		} else {
			t.Stats[k] += n
		}
	}
	h, err := base64.StdEncoding.DecodeString(b.Hashes)
	check(err)
	for i := 0; i+8 <= len(h); i += 8 {
		t.distinct[binary.LittleEndian.Uint64(h[i:])] = true
		t.nontriv++
	}
	if b.Sample != nil && len(t.samples) < 3 {
		t.samples = append(t.samples, b.Sample)
	}
}

// report confirms, minimises and records a violation. It returns "" if the
// violation cannot be repeated.
func report(sc *props.Scenario, seed int64, v *found, batch int64) (string, *found) {
	flaky := false
	fatal := v.Class == "crash" || v.Class == "hang"
	orig := v.Choices
	r := &oneReq{Prop: sc.ID, Seed: seed, Index: v.Index, Choices: orig, Keep: true}
	stall := stallTime
	f := runOne(r, stall)
	if f.Class != v.Class {
		// It needs what ran before it in its process.
		from := v.Index / batch * batch
		ok := false
		for _, k := range []int64{1, 2, 4, 8, 16, 32, 64, batch} {
			lo := max(from, v.Index-k)
			r.Prelude = nil
			for i := lo; i < v.Index; i++ {
				r.Prelude = append(r.Prelude, i)
			}
			f = runOne(r, stall)
			if f.Class == v.Class {
				ok = true
				break
			}
			if lo == from {
				break
			}
		}
		if !ok && !fatal {
			// The code under test may itself be random where the simulator has
			// no say. What it does wrong now and then is still wrong.
			r.Prelude = nil
			if f = runUntil(r, v.Class, 40); f == nil {
				return "", nil
			}
			ok = true
			flaky = true
		}
		if !ok {
			return "", nil
		}
	}
	best := orig
	switch {
	case flaky:
	case len(r.Prelude) > 0:
	case v.Class == "hang":
	case fatal:
		best = minimise(orig, 40*time.Second, func(c []int32) ([]int32, bool) {
			rec := tmpName("choices")
			g := runOne(&oneReq{Prop: sc.ID, Seed: seed, Choices: c, Record: rec}, 20*time.Second)
			os.Remove(rec)
			return g.Choices, g.Class == v.Class
		})
	default:
		in, out := tmpName("shrink"), tmpName("shrinkout")
		writeJSON(in, &shrinkReq{sc.ID, v.Class, orig, 45 * time.Second})
		if end, _ := childTimeout(stallTime+time.Minute, "", "shrink", in, out); end == "" {
			b, err := os.ReadFile(out)
			check(err)
			var c []int32
			check(json.Unmarshal(b, &c))
			best = c
		}
	}
	if best == nil {
		best = []int32{}
	}
	r.Choices = best
	var g *found
	if flaky {
		g = f
	} else {
		g = runOne(r, stall)
	}
	if g.Class != v.Class {
		best = orig
		r.Choices = best
		g = runOne(r, stall)
		if g.Class != v.Class {
			return "", nil
		}
	}
	if !fatal && !flaky {
		if again := runOne(r, stall); again.LogHash != g.LogHash || again.Class != g.Class {
			fmt.Println("note: the replay differs between two processes in its event log")
		}
	}
	prop := sc.ID
	if sc.Property != "" {
		prop = sc.Property
	}
	rf := &replayFile{Property: prop, Scenario: sc.ID, Seed: seed, Index: v.Index, RunSeed: fmt.Sprintf("%016x", runSeed(seed, sc.ID, v.Index)),
		Prelude: r.Prelude, Class: g.Class, Detail: g.Detail, LogHash: g.LogHash, Original: len(orig), Choices: best, Trace: g.Trace, Random: flaky}
	if len(rf.Trace) > 3000 {
		rf.Trace = append(rf.Trace[:2900:2900], rf.Trace[len(rf.Trace)-100:]...)
	}
	dir := filepath.Join(*evidenceDir, "replays")
	check(os.MkdirAll(dir, 0o755))
	path := filepath.Join(dir, fmt.Sprintf("%s-seed%d-run%d.json", sc.ID, seed, v.Index))
	writeJSON(path, rf)
	return path, g
}

// runUntil repeats a case until it ends as described, or gives up.
func runUntil(r *oneReq, class string, attempts int) *found {
	for ; attempts > 0; attempts-- {
		if f := runOne(r, stallTime); f.Class == class {
			return f
		}
	}
	return nil
}

func replay(path string) {
	b, err := os.ReadFile(path)
	check(err)
	var rf replayFile
	check(json.Unmarshal(b, &rf))
	tmpDir, err = os.MkdirTemp("", "gitsim")
	check(err)
	defer os.RemoveAll(tmpDir)
	if rf.Choices == nil {
		rf.Choices = []int32{}
	}
	useRace = strings.HasSuffix(rf.Scenario, "R")
	req := &oneReq{Prop: rf.Scenario, Seed: rf.Seed, Prelude: rf.Prelude, Index: rf.Index, Choices: rf.Choices, Keep: true}
	f := runOne(req, stallTime)
	if rf.Random && f.Class == "" {
		if g := runUntil(req, rf.Class, 100); g != nil {
			f = g
		}
	}
	for _, l := range f.Trace {
		fmt.Println(l)
	}
	os.RemoveAll(tmpDir)
	if f.Class == "" {
		fmt.Printf("replay of %s: no violation\n", path)
		os.Exit(0)
	}
	same := "same event log"
	if f.LogHash != rf.LogHash {
		same = "event log differs from the recorded one"
	}
	fmt.Printf("%s: %s\n(%s)\nVIOLATION property=%s replay=%s\n", f.Class, f.Detail, same, rf.Property, path)
	os.Exit(1)
}

func hashes(prop, count string) {
	sc := props.All[prop]
	if sc == nil {
		check(fmt.Errorf("no such property: %s", prop))
	}
	n, _ := strconv.ParseInt(count, 10, 64)
	seed, _ := settings()
	limits()
	for i := int64(0); i < n; i++ {
		s, v := execute(sc, core.NewChooser(runSeed(seed, prop, i)), false)
		fmt.Printf("%d %016x %d %d %v\n", i, s.LogHash(), s.Evts, s.Steps, v != nil)
	}
}

func (t *total) evidence(sc *props.Scenario, seed int64, tier string, explore, wall time.Duration, viols, w int, second *total, secondTime time.Duration) {
	sub := func(prefix string) map[string]int64 {
		m := map[string]int64{}
		for k, v := range t.Stats {
			if strings.HasPrefix(k, prefix) {
				m[strings.TrimPrefix(k, prefix)] = v
			}
		}
		return m
	}
	other := map[string]int64{}
	for k, v := range t.Stats {
		if !strings.Contains(k, ":") {
			other[k] = v
		}
	}
	var kf []string
	for _, k := range findings {
		if k.Property == sc.ID && t.Stats["known:"+k.ID] > 0 {
			kf = append(kf, fmt.Sprintf("%s (%d times): %s", k.ID, t.Stats["known:"+k.ID], k.Title))
		}
	}
	h := explore.Hours()
	samples := []any{}
	for _, s := range t.samples {
		samples = append(samples, s)
	}
	cov := map[string]any{
		"evaluations":                 t.Runs,
		"distinct_nontrivial":         len(t.distinct),
		"nontrivial_runs":             t.nontriv,
		"rule":                        sc.Rule + "; distinct: different hash of the complete event log (every read, write, schedule switch, fault and outcome)",
		"samples":                     samples,
		"runs_per_hour_one_seed_each": int64(float64(t.Runs) / h),
		"simulated_time_s":            float64(t.SimNanos) / 1e9,
		"events":                      t.Evts,
		"statements_of_repo_code_executed_under_the_hook": t.Steps,
		"choices_drawn":        t.Choices,
		"faults_injected":      sub("fault:"),
		"conditions_reached":   sub("probe:"),
		"maxima":               sub("max:"),
		"counters":             other,
		"known_findings_seen":  kf,
		"components_real":      sc.RealText(),
		"components_stub":      sc.StubText(),
		"workers":              w,
		"notes":                t.notes,
		"distinctness_measure": "64-bit FNV-1a of the event log; for concurrent scenarios it includes every scheduling decision and the number of statements run in each slice, so it counts interleavings",
	}
	if second != nil {
		sc2 := props.All[sc.ID+"R"]
		cov["race_detector_phase"] = map[string]any{
			"runs": second.Runs, "nontrivial_runs": second.nontriv, "distinct_interleavings": len(second.distinct),
			"rule": sc2.Rule, "counters": second.Stats, "statements_executed": second.Steps,
			"runs_per_hour_one_seed_each": int64(float64(second.Runs) / secondTime.Hours()),
			"samples":                     second.samples, "notes": second.notes,
		}
	}
	ev := map[string]any{
		"property": sc.ID, "tier": tier, "seed": seed, "level": sc.Claim, "coverage": cov, "wall_s": wall.Seconds(), "violations": viols,
		"assumptions": []string{
			"the reference model of git's object format in /verif/sim/model is right",
			"statements of /repo are the scheduling points; code of dependencies and the standard library runs between two of them",
		},
	}
	check(os.MkdirAll(*evidenceDir, 0o755))
	writeJSON(filepath.Join(*evidenceDir, sc.ID+".json"), ev)
}

func main() {
	flag.Parse()
	loadKnown()
	a := flag.Args()
	if len(a) == 0 {
		fmt.Fprintln(os.Stderr, "usage: gitsim run PROP | replay FILE | hashes PROP N")
		os.Exit(2)
	}
	switch {
	case a[0] == "run" && len(a) == 2:
		run(a[1])
	case a[0] == "replay" && len(a) == 2:
		replay(a[1])
	case a[0] == "hashes" && len(a) == 3:
		hashes(a[1], a[2])
	case a[0] == "worker":
		worker(a[1:])
	case a[0] == "one":
		one(a[1:])
	case a[0] == "shrink":
		shrink(a[1:])
	default:
		fmt.Fprintln(os.Stderr, "bad arguments")
		os.Exit(2)
	}
}
