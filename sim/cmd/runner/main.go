// runner drives the simulated checks.
//
//	runner check  -prop C01 -seed 1 -tier quick      decide a property
//	runner replay FILE                               replay a recorded violation
//	runner one    -prop C01 -seed 1 -i 7 -v          one run, with its event log
//	runner det    -prop C01 -seed 1 -n 50            print run fingerprints
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"vsim/scen"
	"vsim/vsim"
)

type Replay struct {
	Property  string     `json:"property"`
	Scenario  string     `json:"scenario"`
	Seed      uint64     `json:"seed"`
	Index     int        `json:"index"`
	RunSeed   uint64     `json:"run_seed"`
	From      int        `json:"prefix_from"` // runs From..Index-1 execute first in the same process
	Class     string     `json:"class"`
	Message   string     `json:"message"`
	Minimised bool       `json:"minimised"`
	Fatal     bool       `json:"fatal,omitempty"`
	Choices   [][]uint32 `json:"choices,omitempty"`
	Streams   []string   `json:"choice_streams"`
	Sizes     string     `json:"sizes,omitempty"`
	Trace     []string   `json:"trace,omitempty"`
}

type summary struct {
	Runs     int              `json:"runs"`
	Aborted  int              `json:"aborted"`
	SimNS    int64            `json:"sim_ns"`
	Faults   map[string]int64 `json:"faults"`
	Probes   map[string]int64 `json:"probes"`
	Scens    map[string]int64 `json:"scens"`
	FPs      []uint64         `json:"fps"`
	Nontriv  []uint64         `json:"nontriv"`
	Switches int64            `json:"switches"`
	Preempts int64            `json:"preempts"`
	Steps    int64            `json:"steps"`
	Faulted  int              `json:"faulted_runs"`
	Sample   []any            `json:"sample"`
}

type violRec struct {
	I     int    `json:"i"`
	From  int    `json:"from"`
	Class string `json:"class"`
	Msg   string `json:"msg"`
	Scen  string `json:"scen"`
	fatal bool
}

func runSeed(prop string, seed uint64, i int) uint64 {
	x := seed*0x9e3779b97f4a7c15 + 0x51
	for _, c := range []byte(prop) {
		x = (x ^ uint64(c)) * 0x100000001b3
	}
	x ^= uint64(i) * 0xd6e8feb86659fd93
	x ^= x >> 31
	x *= 0xbf58476d1ce4e5b9
	return x ^ x>>29
}

func relevant(prop string, s *vsim.Sim) (v, harness *vsim.Violation) {
	for i := range s.Viol {
		x := &s.Viol[i]
		if x.Class == "HARNESS" {
			if harness == nil {
				harness = x
			}
			continue
		}
		if v == nil && scen.Relevant(prop, x.Class) {
			v = x
		}
	}
	return
}

func main() {
	debug.SetGCPercent(200)
	debug.SetMaxStack(64 << 20)
	if len(os.Args) < 2 {
		os.Exit(2)
	}
	cmd := os.Args[1]
	fs := flag.NewFlagSet(cmd, flag.ExitOnError)
	prop := fs.String("prop", "", "property")
	seed := fs.Uint64("seed", 1, "seed")
	tier := fs.String("tier", "quick", "tier")
	from := fs.Int("from", 0, "first run")
	count := fs.Int("count", 100, "runs")
	one := fs.Int("i", 0, "run index")
	nn := fs.Int("n", 20, "runs")
	verbose := fs.Bool("v", false, "verbose")
	budget := fs.Float64("budget", 30, "seconds")
	workers := fs.Int("workers", 8, "workers")
	verif := fs.String("verif", "/verif", "verif dir")
	outdir := fs.String("out", "", "directory for evidence and replays (default: verif dir)")
	in := fs.String("in", "", "input")
	out := fs.String("o", "", "output")
	fs.Parse(os.Args[2:])
	if *outdir == "" {
		*outdir = *verif
	}
	switch cmd {
	case "ids":
		fmt.Println(strings.Join(scen.IDs(), " "))
	case "worker":
		worker(*prop, *seed, *from, *count)
	case "one":
		s, name := scen.RunOne(*prop, vsim.Config{Seed: runSeed(*prop, *seed, *one), Verbose: *verbose})
		for _, l := range s.LogLines() {
			fmt.Println(l)
		}
		fmt.Printf("scenario %s fp %x sim %v steps %d switches %d preempts %d aborted=%q\nfaults %v\nprobes %v\n", name, s.Fingerprint(), s.Elapsed(), s.Steps(), s.Switches, s.Preempts, s.Aborted, s.Faults, s.Probes)
		for _, v := range s.Viol {
			fmt.Printf("VIOL %s: %s\n", v.Class, v.Msg)
		}
	case "det":
		for k := 0; k < *nn; k++ {
			i := *from + k
			s, name := scen.RunOne(*prop, vsim.Config{Seed: runSeed(*prop, *seed, i), Verbose: true})
			fmt.Printf("%s %d %s %x %x %d %d\n", *prop, i, name, s.Fingerprint(), s.LogHash(), s.Steps(), s.Elapsed())
		}
	case "shrink":
		shrinkCmd(*in, *out, *budget)
	case "replay":
		if fs.NArg() != 1 {
			fmt.Fprintln(os.Stderr, "usage: runner replay [-v] FILE")
			os.Exit(2)
		}
		replayCmd(fs.Arg(0), *verbose)
	case "check":
		os.Exit(check(*prop, *seed, *tier, *budget, *workers, *verif, *outdir))
	default:
		os.Exit(2)
	}
}

// ------------------------------------------------------------------ worker

func worker(prop string, seed uint64, from, count int) {
	w := bufio.NewWriter(os.Stdout)
	sm := &summary{Faults: map[string]int64{}, Probes: map[string]int64{}, Scens: map[string]int64{}}
	emit := func(tag string, v any) {
		b, _ := json.Marshal(v)
		fmt.Fprintf(w, "%s %s\n", tag, b)
		w.Flush()
	}
	start := time.Now()
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, os.Interrupt)
	for i := from; i < from+count && len(sig) == 0; i++ {
		fmt.Fprintf(w, "S %d\n", i)
		w.Flush()
		s, name := scen.RunOne(prop, vsim.Config{Seed: runSeed(prop, seed, i)})
		sm.Runs++
		sm.Scens[name]++
		sm.SimNS += int64(s.Elapsed())
		sm.Switches += s.Switches
		sm.Preempts += s.Preempts
		sm.Steps += s.Steps()
		nf := int64(0)
		for k, n := range s.Faults {
			sm.Faults[k] += n
			nf += n
		}
		for k, n := range s.Probes {
			sm.Probes[k] += n
		}
		sm.FPs = append(sm.FPs, s.Fingerprint())
		if nf > 0 {
			sm.Faulted++
		}
		if (nf > 0 || s.Preempts > 0) && s.Switches+s.IOs > 20 {
			sm.Nontriv = append(sm.Nontriv, s.Fingerprint())
		}
		if s.Aborted != "" {
			sm.Aborted++
		}
		if len(sm.Sample) < 1 {
			r := s.Recorded()
			sm.Sample = append(sm.Sample, map[string]any{"scenario": name, "run_seed": fmt.Sprintf("%#x", runSeed(prop, seed, i)), "choices_drawn": []int{len(r[0]), len(r[1]), len(r[2]), len(r[3])}, "context_switches": s.Switches, "preemptions": s.Preempts, "simulated_s": s.Elapsed().Seconds(), "faults": s.Faults, "probes": s.Probes})
		}
		v, h := relevant(prop, s)
		if v != nil {
			emit("V", violRec{I: i, From: from, Class: v.Class, Msg: v.Msg, Scen: name})
			break
		}
		if h != nil {
			emit("H", violRec{I: i, From: from, Class: h.Class, Msg: h.Msg, Scen: name})
			break
		}
		if time.Since(start) > 20*time.Second {
			break
		}
	}
	emit("R", sm)
}

// ------------------------------------------------------------------ replay

func runChoices(prop string, ch [][]uint32, verbose bool) (*vsim.Sim, string) {
	return scen.RunOne(prop, vsim.Config{Replay: ch, Verbose: verbose})
}

func load(path string) *Replay {
	b, err := os.ReadFile(path)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := &Replay{}
	if err := json.Unmarshal(b, r); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	return r
}

func doReplay(r *Replay, verbose bool) (s *vsim.Sim, ok bool, msg string) {
	if r.Choices != nil {
		s, _ = runChoices(r.Property, r.Choices, verbose)
	} else {
		for i := r.From; i < r.Index; i++ {
			scen.RunOne(r.Property, vsim.Config{Seed: runSeed(r.Property, r.Seed, i)})
		}
		s, _ = scen.RunOne(r.Property, vsim.Config{Seed: runSeed(r.Property, r.Seed, r.Index), Verbose: verbose})
	}
	for _, v := range s.Viol {
		if v.Class == r.Class {
			return s, true, v.Msg
		}
	}
	return s, false, ""
}

func replayCmd(path string, verbose bool) {
	r := load(path)
	s, ok, msg := doReplay(r, verbose)
	for _, l := range s.LogLines() {
		fmt.Println(l)
	}
	if ok {
		fmt.Printf("class %s\nmessage %s\n", r.Class, msg)
		fmt.Printf("fingerprint %x steps %d simulated %v\n", s.Fingerprint(), s.Steps(), s.Elapsed())
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, path)
		os.Exit(1)
	}
	fmt.Printf("not reproduced (violations: %v)\n", s.Viol)
	os.Exit(0)
}

// ------------------------------------------------------------------ shrink

func shrinkCmd(in, out string, secs float64) {
	r := load(in)
	dl := time.Now().Add(time.Duration(secs * float64(time.Second)))
	same := func(ch [][]uint32) ([][]uint32, bool) {
		s, _ := runChoices(r.Property, ch, false)
		for _, v := range s.Viol {
			if v.Class == r.Class {
				return s.Recorded(), true
			}
			if v.Class == "HARNESS" {
				return nil, false
			}
		}
		return nil, false
	}
	var cur [][]uint32
	if r.Choices != nil {
		cur = r.Choices
	} else {
		s, _ := scen.RunOne(r.Property, vsim.Config{Seed: r.RunSeed})
		hit := false
		for _, v := range s.Viol {
			hit = hit || v.Class == r.Class
		}
		if !hit {
			os.Exit(3)
		}
		cur = s.Recorded()
	}
	norm := func(ch [][]uint32) [][]uint32 {
		o := make([][]uint32, len(ch))
		for i := range ch {
			n := len(ch[i])
			for n > 0 && ch[i][n-1] == 0 {
				n--
			}
			o[i] = append([]uint32(nil), ch[i][:n]...)
		}
		return o
	}
	size := func(ch [][]uint32) (n int, sum uint64) {
		for _, x := range ch {
			n += len(x)
			for _, v := range x {
				if v != 0 {
					n++
				}
				sum += uint64(v)
			}
		}
		return
	}
	better := func(a, b [][]uint32) bool {
		n1, s1 := size(a)
		n2, s2 := size(b)
		return n1 < n2 || (n1 == n2 && s1 < s2)
	}
	tries := 0
	try := func(ch [][]uint32) bool {
		if time.Now().After(dl) {
			return false
		}
		ch = norm(ch)
		if !better(ch, cur) {
			return false
		}
		tries++
		if _, ok := same(ch); ok {
			cur = ch
			return true
		}
		return false
	}
	clone := func() [][]uint32 {
		o := make([][]uint32, len(cur))
		for i := range cur {
			o[i] = append([]uint32(nil), cur[i]...)
		}
		return o
	}
	cur = norm(cur)
	if _, ok := same(cur); !ok {
		os.Exit(3)
	}
	order := []int{vsim.StSched, vsim.StNet, vsim.StFault, vsim.StWork}
	for round := 0; round < 6 && time.Now().Before(dl); round++ {
		n0, s0 := size(cur)
		for _, si := range order {
			c := clone()
			c[si] = nil
			try(c)
			// truncate
			for k := len(cur[si]) / 2; k > 0; k /= 2 {
				for len(cur[si]) >= k {
					c := clone()
					c[si] = c[si][:len(c[si])-k]
					if !try(c) {
						break
					}
				}
			}
			// zero and delete blocks
			for bs := len(cur[si]); bs >= 1; bs /= 2 {
				for i := 0; i < len(cur[si]) && time.Now().Before(dl); i += bs {
					e := min(i+bs, len(cur[si]))
					c := clone()
					nz := false
					for j := i; j < e; j++ {
						nz = nz || c[si][j] != 0
						c[si][j] = 0
					}
					if nz && try(c) {
						continue
					}
					c = clone()
					if e <= len(c[si]) {
						c[si] = append(c[si][:i:i], c[si][e:]...)
						try(c)
					}
				}
			}
			// lower values
			for i := 0; i < len(cur[si]) && time.Now().Before(dl); i++ {
				for i < len(cur[si]) && cur[si][i] > 1 {
					c := clone()
					c[si][i] /= 2
					if !try(c) {
						c = clone()
						c[si][i]--
						if !try(c) {
							break
						}
					}
				}
			}
		}
		if n1, s1 := size(cur); n1 == n0 && s1 == s0 {
			break
		}
	}
	s, name := runChoices(r.Property, cur, true)
	r.Choices = cur
	r.Minimised = true
	r.Scenario = name
	r.Streams = vsim.StreamNames[:]
	n, _ := size(cur)
	r.Sizes = fmt.Sprintf("%d choices after %d shrink attempts", n, tries)
	for _, v := range s.Viol {
		if v.Class == r.Class {
			r.Message = v.Msg
			break
		}
	}
	r.Trace = tail(s.LogLines(), 400)
	writeJSON(out, r)
}

func tail(l []string, n int) []string {
	for i, x := range l {
		if len(x) > 400 {
			l[i] = x[:400] + "…"
		}
	}
	if len(l) > n {
		return append([]string{fmt.Sprintf("(%d earlier lines omitted)", len(l)-n)}, l[len(l)-n:]...)
	}
	return l
}

func writeJSON(path string, v any) {
	b, _ := json.MarshalIndent(v, "", " ")
	os.MkdirAll(filepath.Dir(path), 0755)
	if err := os.WriteFile(path, append(b, '\n'), 0644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
}

// ------------------------------------------------------------------ check

type knownFinding struct{ prop, class, text string }

func loadKnown(path string) (k []knownFinding) {
	b, err := os.ReadFile(path)
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=C01 class=C01:x <what fails>
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		w := strings.SplitN(strings.TrimPrefix(l, "finding: "), " ", 3)
		if len(w) == 3 {
			k = append(k, knownFinding{strings.TrimPrefix(w[0], "property="), strings.TrimPrefix(w[1], "class="), w[2]})
		}
	}
	return
}

func check(prop string, seed uint64, tier string, budget float64, workers int, verif, outdir string) int {
	p := scen.Props[prop]
	if p == nil {
		fmt.Fprintf(os.Stderr, "unknown property %q\n", prop)
		return 2
	}
	t0 := time.Now()
	known := map[string]string{}
	for _, k := range loadKnown(filepath.Join(verif, "known_findings.txt")) {
		if k.prop == prop {
			known[k.class] = k.text
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k.text)
		}
	}
	self, _ := os.Executable()
	var mu sync.Mutex
	next := 0
	chunk := 150
	if tier == "thorough" {
		chunk = 400
	}
	var viols []violRec
	var harness []string
	tot := &summary{Faults: map[string]int64{}, Probes: map[string]int64{}, Scens: map[string]int64{}}
	fps, nontriv := map[uint64]bool{}, map[uint64]bool{}
	knownHits := map[string]int{}
	deadline := t0.Add(time.Duration(budget * float64(time.Second)))
	stop := func() bool { return len(viols) > 0 || len(harness) > 0 || time.Now().After(deadline) }
	var wg sync.WaitGroup
	for w := 0; w < workers; w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			size := 10 // small first chunk: find out how long a run takes
			for {
				mu.Lock()
				if stop() {
					mu.Unlock()
					return
				}
				from := next
				next += size
				mu.Unlock()
				for cnt := size; cnt > 0; {
					sm, v, h, last, err := runWorker(self, prop, seed, from, cnt, deadline)
					mu.Lock()
					if sm != nil {
						merge(tot, sm, fps, nontriv)
					}
					again := false
					if v != nil && known[v.Class] != "" {
						knownHits[v.Class]++
						cnt -= v.I + 1 - from
						from = v.I + 1
						again = true
					} else if v != nil {
						viols = append(viols, *v)
					}
					if h != nil {
						harness = append(harness, fmt.Sprintf("run %d (%s): %s", h.I, h.Scen, h.Msg))
					}
					if err != "" && v == nil && h == nil && sm == nil {
						if strings.HasPrefix(err, "fatal") {
							viols = append(viols, violRec{I: last, From: from, Class: "fatal", Msg: err, fatal: true})
						} else if err != "deadline" {
							harness = append(harness, err)
						}
					}
					s := stop()
					mu.Unlock()
					if !again || s {
						break
					}
				}
				size = chunk
			}
		}()
	}
	wg.Wait()
	sort.Slice(viols, func(i, j int) bool { return viols[i].I < viols[j].I })
	code := 0
	nv := 0
	if len(viols) > 0 {
		code = 2
		for i := 0; i < len(viols) && i < 4 && code == 2; i++ {
			v := viols[i]
			if path, ok := report(self, prop, seed, v, outdir); ok {
				nv = len(viols)
				fmt.Printf("violation class=%s: %s\n", v.Class, v.Msg)
				fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
				code = 1
			} else {
				fmt.Fprintf(os.Stderr, "error: violation %+v did not reproduce\n", v)
			}
		}
	} else if len(harness) > 0 {
		fmt.Fprintf(os.Stderr, "error: harness: %s\n", harness[0])
		code = 2
	} else if tot.Runs == 0 {
		fmt.Fprintln(os.Stderr, "error: no run completed")
		code = 2
	} else if tot.Aborted*2 > tot.Runs {
		fmt.Fprintf(os.Stderr, "error: %d of %d runs inconclusive\n", tot.Aborted, tot.Runs)
		code = 2
	}
	wall := time.Since(t0).Seconds()
	ev := map[string]any{
		"property": prop, "tier": tier, "seed": seed, "level": "exploration", "wall_s": wall, "violations": nv,
		"assumptions": []string{
			"the simulated network, file system, clock and scheduler stand in for the operating system and the Go runtime (no TLS, no HTTP transport beyond one request per connection, no data races inside a single statement)",
			"the code under test is /repo's working tree after a mechanical, semantics-preserving rewrite that routes time, sockets, files, goroutines, channels, locks and randomness through the simulator",
			"seeded sampling of schedules and faults: absence of a violation is evidence, not proof",
		},
		"coverage": map[string]any{
			"evaluations":            tot.Runs,
			"distinct_nontrivial":    len(nontriv),
			"rule":                   "each evaluation is one simulated execution whose workload, schedule, network timing and faults are drawn from one seed; it counts as distinct and non-trivial when its interleaving fingerprint (hash of the sequence of scheduled tasks, transferred byte counts and injected faults) is new in this run, more than 20 context switches or disk transfers happened, and at least one injected fault took effect or one preemption inside running code happened. " + p.Rule,
			"samples":                tot.Sample,
			"distinct_interleavings": len(fps), "runs_with_faults": tot.Faulted,
			"runs_per_hour": int(float64(tot.Runs) / wall * 3600), "seeds_per_hour": int(float64(tot.Runs) / wall * 3600),
			"simulated_seconds": float64(tot.SimNS) / 1e9, "faults_injected": tot.Faults, "conditions_reached": tot.Probes,
			"runs_per_scenario": tot.Scens, "context_switches": tot.Switches, "preemptions": tot.Preempts, "preemption_points_passed": tot.Steps,
			"inconclusive_runs": tot.Aborted, "known_finding_hits": knownHits, "workers": workers,
			"components_real": p.Real, "components_stub": p.Stub,
		},
	}
	writeJSON(filepath.Join(outdir, "evidence", prop+".json"), ev)
	fmt.Printf("%s %s: %d runs, %d distinct non-trivial, %d with faults, %.0f simulated s, %.1f wall s, exit %d\n", prop, tier, tot.Runs, len(nontriv), tot.Faulted, float64(tot.SimNS)/1e9, wall, code)
	return code
}

func merge(t, s *summary, fps, nt map[uint64]bool) {
	t.Runs += s.Runs
	t.Aborted += s.Aborted
	t.SimNS += s.SimNS
	t.Switches += s.Switches
	t.Preempts += s.Preempts
	t.Steps += s.Steps
	t.Faulted += s.Faulted
	for k, n := range s.Faults {
		t.Faults[k] += n
	}
	for k, n := range s.Probes {
		t.Probes[k] += n
	}
	for k, n := range s.Scens {
		t.Scens[k] += n
	}
	for _, f := range s.FPs {
		fps[f] = true
	}
	for _, f := range s.Nontriv {
		nt[f] = true
	}
	if len(t.Sample) < 4 {
		t.Sample = append(t.Sample, s.Sample...)
	}
}

func runWorker(self, prop string, seed uint64, from, count int, deadline time.Time) (sm *summary, v, h *violRec, last int, errs string) {
	c := exec.Command(self, "worker", "-prop", prop, "-seed", strconv.FormatUint(seed, 10), "-from", strconv.Itoa(from), "-count", strconv.Itoa(count))
	c.Env = append(os.Environ(), "GOMAXPROCS=2", "GOMEMLIMIT=2500MiB", "GOTRACEBACK=single")
	var eb tailBuf
	c.Stderr = &eb
	o, err := c.StdoutPipe()
	if err != nil {
		return nil, nil, nil, 0, err.Error()
	}
	if err := c.Start(); err != nil {
		return nil, nil, nil, 0, err.Error()
	}
	last = -1
	var mu sync.Mutex
	lastT := time.Now()
	hung, late := false, false
	done := make(chan bool)
	go func() {
		for {
			select {
			case <-done:
				return
			case <-time.After(200 * time.Millisecond):
				mu.Lock()
				if time.Since(lastT) > 90*time.Second {
					hung = true
					c.Process.Kill()
				} else if time.Now().After(deadline.Add(10 * time.Second)) {
					late = true
					c.Process.Kill()
				} else if time.Now().After(deadline) {
					late = true
					c.Process.Signal(os.Interrupt)
				}
				mu.Unlock()
			}
		}
	}()
	rd := bufio.NewReaderSize(o, 1<<20)
	for {
		l, err := rd.ReadString('\n')
		if len(l) > 2 && err == nil {
			switch l[0] {
			case 'S':
				last, _ = strconv.Atoi(strings.TrimSpace(l[2:]))
				mu.Lock()
				lastT = time.Now()
				mu.Unlock()
			case 'V':
				v = &violRec{}
				json.Unmarshal([]byte(l[2:]), v)
			case 'H':
				h = &violRec{}
				json.Unmarshal([]byte(l[2:]), h)
			case 'R':
				sm = &summary{}
				json.Unmarshal([]byte(l[2:]), sm)
			}
		}
		if err != nil {
			break
		}
	}
	werr := c.Wait()
	close(done)
	mu.Lock()
	defer mu.Unlock()
	if sm == nil {
		switch {
		case hung:
			errs = fmt.Sprintf("run %d of %s did not finish in 90 s of real time", last, prop)
		case late:
			errs = "deadline"
		case strings.Contains(eb.String(), "fatal error:") || strings.Contains(eb.String(), "goroutine stack exceeds"):
			errs = "fatal: the program under test died: " + firstFatal(eb.String())
		default:
			errs = fmt.Sprintf("worker failed: %v: %s", werr, eb.String())
		}
	}
	return
}

func firstFatal(s string) string {
	i := strings.Index(s, "fatal error:")
	j := strings.Index(s, "runtime: goroutine stack exceeds")
	if i < 0 || (j >= 0 && j < i) {
		i = j
	}
	if i < 0 {
		i = 0
	}
	s = s[i:]
	if len(s) > 1500 {
		s = s[:1500]
	}
	return s
}

type tailBuf struct{ b []byte }

func (t *tailBuf) Write(p []byte) (int, error) {
	if len(t.b) < 1<<16 {
		t.b = append(t.b, p...)
	}
	return len(p), nil
}
func (t *tailBuf) String() string { return string(t.b) }

var _ io.Writer = (*tailBuf)(nil)

// report minimises a violation and verifies that its replay file reproduces it
// in a fresh process.
func report(self, prop string, seed uint64, v violRec, outdir string) (string, bool) {
	dir := filepath.Join(outdir, "replays")
	os.MkdirAll(dir, 0755)
	rs := runSeed(prop, seed, v.I)
	base := filepath.Join(dir, fmt.Sprintf("%s-%s-%016x", prop, sanitize(v.Class), rs))
	raw := Replay{Property: prop, Scenario: v.Scen, Seed: seed, Index: v.I, From: v.I, RunSeed: rs, Class: v.Class, Message: v.Msg, Streams: vsim.StreamNames[:], Fatal: v.fatal}
	rawPath := base + ".raw.json"
	path := base + ".json"
	writeJSON(rawPath, raw)
	defer os.Remove(rawPath)
	verify := func(f string) bool {
		c := exec.Command(self, "replay", f)
		c.Env = append(os.Environ(), "GOMEMLIMIT=2500MiB")
		var o, e tailBuf
		c.Stdout, c.Stderr = &o, &e
		c.Run()
		if v.fatal {
			return strings.Contains(e.String(), "fatal error:") || strings.Contains(e.String(), "goroutine stack exceeds")
		}
		return c.ProcessState.ExitCode() == 1
	}
	if !v.fatal {
		c := exec.Command(self, "shrink", "-in", rawPath, "-o", path, "-budget", "40")
		c.Stderr = os.Stderr
		tm := time.AfterFunc(150*time.Second, func() { c.Process.Kill() })
		err := c.Run()
		tm.Stop()
		if err == nil && verify(path) {
			return path, true
		}
	}
	writeJSON(path, raw)
	if verify(path) {
		return path, true
	}
	raw.From = v.From
	writeJSON(path, raw)
	if verify(path) {
		return path, true
	}
	os.Remove(path)
	return "", false
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		if r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9' {
			return r
		}
		return '_'
	}, s)
}
