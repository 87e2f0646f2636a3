package main

// The monitoring framework: cases, verdicts, workers, supervisor, evidence.

import (
	"bufio"
	"encoding/binary"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand/v2"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// Family is one workload with its monitor. Run drives and judges one case.
type Family struct {
	Name     string
	Quick    int // number of cases in the quick tier
	Thorough int // number of cases in the thorough tier
	Run      func(c *Case)
}

// Prop is one monitored property.
type Prop struct {
	ID       string
	Rule     string   // how cases are made and what makes one non-trivial
	Must     []string // events without which the run decided nothing (inconclusive)
	Families []Family
	Race     bool // judged by the race detector as well; needs a -race build
	Assume   []string
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Case is one execution under observation.
type Case struct {
	Prop, Fam string
	Idx       int
	R         *rand.Rand
	Thorough  bool
	w         *worker
	desc      func() string
	log       []string
}

type violation struct {
	Prop, Family string
	Index        int
	Seed         int64
	Tier         string
	What         string
	Input        string
	Stack        string `json:",omitempty"`
}

type failure struct{ msg string }

// Failf reports that the observed execution violates the property.
func (c *Case) Failf(format string, a ...any) { panic(failure{fmt.Sprintf(format, a...)}) }

// Check reports a violation unless ok.
func (c *Case) Check(ok bool, format string, a ...any) {
	if !ok {
		c.Failf(format, a...)
	}
}

// Ev counts an observed event.
func (c *Case) Ev(name string) { c.w.events[name]++ }

// EvN counts n observed events.
func (c *Case) EvN(name string, n int) { c.w.events[name] += int64(n) }

// NT marks the case as non-trivial under the given distinguishing key.
func (c *Case) NT(key string) {
	h := fnv.New64a()
	h.Write([]byte(c.Fam))
	h.Write([]byte{0})
	h.Write([]byte(key))
	if len(c.w.nontrivial) < maxNontrivial {
		c.w.nontrivial[h.Sum64()] = struct{}{}
	}
	if c.w.sampleCount[c.Fam] < 1 && c.desc != nil {
		c.w.sampleCount[c.Fam]++
		c.w.res.Samples = append(c.w.res.Samples, c.Fam+"#"+strconv.Itoa(c.Idx)+": "+trunc(c.desc(), 500))
	}
}

// Desc sets the description of the input for reports and samples.
func (c *Case) Desc(f func() string) { c.desc = f }

// Known reports a violation that is suppressed only if the known-findings file lists it by id.
func (c *Case) Known(id, what string) {
	if c.w.known[c.Prop+"/"+id] {
		c.w.res.KnownHits[id] = what
		return
	}
	c.Failf("%s", what)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}

type result struct {
	Evaluations map[string]int
	Events      map[string]int64
	Samples     []string
	Violations  []violation
	KnownHits   map[string]string
	Done        bool
}

type worker struct {
	prop        *Prop
	seed        int64
	tier        string
	known       map[string]bool
	events      map[string]int64
	nontrivial  map[uint64]struct{}
	sampleCount map[string]int
	res         result
	out         string
	cur         *os.File
	curCase     atomic.Pointer[Case]
	curCPU      atomic.Int64 // process CPU ns at case start
	verbose     bool
}

func caseRand(seed int64, prop, fam string, idx int) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprintf(h, "%s/%s", prop, fam)
	return rand.New(rand.NewPCG(uint64(seed)*0x9E3779B97F4A7C15+h.Sum64(), uint64(idx)*0xD1B54A32D192ED03+uint64(seed)))
}

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

const (
	caseCPULimit = 40 * int64(time.Second) // ordinary cases take well under 0.1 s of CPU
	heapLimit    = 3 << 30                 // ordinary workers stay below 300 MB
)

// watchdog turns a case that does not terminate (by CPU time, not by wall clock) or that allocates
// without bound into a violation of the property under observation.
func (w *worker) watchdog() {
	s := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	for {
		time.Sleep(50 * time.Millisecond)
		c := w.curCase.Load()
		if c == nil {
			continue
		}
		metrics.Read(s)
		why := ""
		if s[0].Value.Kind() == metrics.KindUint64 && s[0].Value.Uint64() > heapLimit {
			why = "the call under observation allocates without bound (heap above 3 GB)"
		} else if cpuNow()-w.curCPU.Load() > caseCPULimit {
			why = "the call under observation does not terminate (40 s of CPU used)"
		}
		if why == "" || w.curCase.Load() != c {
			continue
		}
		v := violation{Prop: c.Prop, Family: c.Fam, Index: c.Idx, Seed: w.seed, Tier: w.tier, What: why, Input: w.safeDesc(c)}
		b, _ := json.Marshal(v)
		os.WriteFile(w.out+".fatal", b, 0o644)
		os.Exit(70)
	}
}

func (w *worker) safeDesc(c *Case) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = fmt.Sprint("(description failed: ", r, ")")
		}
	}()
	if c.desc != nil {
		s = c.desc()
	}
	if len(c.log) > 0 {
		s += "\nhistory:\n" + strings.Join(c.log, "\n")
	}
	return trunc(s, 20000)
}

func (w *worker) runCase(f *Family, idx int) (failed bool) {
	arenaUsed = 0
	c := &Case{Prop: w.prop.ID, Fam: f.Name, Idx: idx, R: caseRand(w.seed, w.prop.ID, f.Name, idx), w: w, Thorough: w.tier == "thorough"}
	var buf [160]byte
	for i := range buf {
		buf[i] = ' '
	}
	copy(buf[:], f.Name+" "+strconv.Itoa(idx))
	w.cur.WriteAt(buf[:], 0)
	w.curCPU.Store(cpuNow())
	w.curCase.Store(c)
	defer w.curCase.Store(nil)
	defer func() {
		if r := recover(); r != nil {
			failed = true
			v := violation{Prop: c.Prop, Family: c.Fam, Index: c.Idx, Seed: w.seed, Tier: w.tier, Input: w.safeDesc(c)}
			if fl, ok := r.(failure); ok {
				v.What = fl.msg
			} else {
				v.What = fmt.Sprintf("panic: %v", r)
				v.Stack = trunc(string(debug.Stack()), 4000)
			}
			w.res.Violations = append(w.res.Violations, v)
			if w.verbose {
				fmt.Println(v.What, "\n", v.Input, "\n", v.Stack)
			}
		}
	}()
	w.res.Evaluations[f.Name]++
	f.Run(c)
	return
}

// count is the number of cases of the family, fixed per tier.
func (p *Prop) count(f *Family, tier string) int {
	if tier == "thorough" {
		return 5 * f.Thorough // as far as the time goes, see runWorker
	}
	switch p.ID {
	case "C05", "C06":
		return f.Quick
	case "C07", "C08":
		return 4 * f.Quick
	}
	return 10 * f.Quick
}

// thoroughTime is how long the workers of a thorough run start new cases.
const thoroughTime = 600 * time.Second

// maxNontrivial limits the memory for counting distinct cases; beyond it the count is a lower bound.
const maxNontrivial = 4 << 20

func runWorker(p *Prop, seed int64, tier string, shard, shards int, out string, known map[string]bool, only string, onlyIdx int) {
	debug.SetMaxStack(256 << 20)
	arenaOn = !p.Race
	w := &worker{prop: p, seed: seed, tier: tier, known: known, events: map[string]int64{}, nontrivial: map[uint64]struct{}{}, sampleCount: map[string]int{}, out: out}
	w.res.Evaluations = map[string]int{}
	w.res.KnownHits = map[string]string{}
	var err error
	if w.cur, err = os.Create(out + ".cur"); err != nil {
		fatal(err)
	}
	go w.watchdog()
	start := time.Now()
	for i := range p.Families {
		f := &p.Families[i]
		if only != "" {
			if f.Name == only {
				w.verbose = true
				w.runCase(f, onlyIdx)
			}
			continue
		}
		fails := 0
		n := p.count(f, tier)
		// a thorough run goes on past the cases of a quick one for its share of the time
		sure := n
		if tier == "thorough" {
			sure = p.count(f, "quick")
		}
		stop := time.Now().Add(time.Until(start.Add(thoroughTime)) / time.Duration(len(p.Families)-i))
		for idx := shard; idx < n; idx += shards {
			if idx >= sure && idx/shards%16 == 0 && time.Now().After(stop) {
				break
			}
			if w.runCase(f, idx) {
				fails++
				if fails >= 3 {
					break
				}
			}
		}
	}
	w.res.Events = w.events
	w.res.Done = true
	nt := make([]byte, 0, 8*len(w.nontrivial))
	for h := range w.nontrivial {
		nt = binary.LittleEndian.AppendUint64(nt, h)
	}
	if err := os.WriteFile(out+".nt", nt, 0o644); err != nil {
		fatal(err)
	}
	b, err := json.Marshal(w.res)
	if err != nil {
		fatal(err)
	}
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fatal(err)
	}
}

func fatal(a ...any) {
	fmt.Fprintln(os.Stderr, a...)
	os.Exit(2)
}

type knownFinding struct {
	Property, ID, Status, What string
}

func loadKnown(path string) (map[string]bool, map[string]string) {
	known, what := map[string]bool{}, map[string]string{}
	f, err := os.Open(path)
	if err != nil {
		return known, what
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	for sc.Scan() {
		var k knownFinding
		line := strings.TrimSpace(sc.Text())
		if !strings.HasPrefix(line, "{") {
			continue
		}
		if err := json.Unmarshal([]byte(line), &k); err != nil {
			fatal("known findings file:", err)
		}
		if k.Status == "known" {
			known[k.Property+"/"+k.ID] = true
			what[k.ID] = k.What
		}
	}
	return known, what
}

var raceBlock = regexp.MustCompile(`(?s)WARNING: DATA RACE.*?==================`)

// supervise runs the workers, merges what they observed and gives the verdict.
func supervise(p *Prop, seed int64, tier, verif string, wall time.Duration) int {
	start := time.Now()
	tmp, err := os.MkdirTemp("", "gogeo-monitor-")
	if err != nil {
		fatal(err)
	}
	defer os.RemoveAll(tmp)
	shards := 8
	if p.Race {
		shards = 4
	}
	type proc struct {
		cmd  *exec.Cmd
		out  string
		err  error
		done chan struct{}
		log  *os.File
	}
	var ps []*proc
	exe, _ := os.Executable()
	for i := 0; i < shards; i++ {
		pr := &proc{out: filepath.Join(tmp, fmt.Sprintf("w%d", i)), done: make(chan struct{})}
		pr.cmd = exec.Command(exe, "-prop", p.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10), "-verif", verif,
			"-worker", "-shard", strconv.Itoa(i), "-shards", strconv.Itoa(shards), "-out", pr.out)
		pr.log, _ = os.Create(pr.out + ".log")
		pr.cmd.Stdout, pr.cmd.Stderr = pr.log, pr.log
		pr.cmd.Env = append(os.Environ(), "GORACE=halt_on_error=0 exitcode=0 log_path="+pr.out+".race", "GOTRACEBACK=single")
		if !p.Race {
			pr.cmd.Env = append(pr.cmd.Env, "GOMAXPROCS=3")
		}
		if err := pr.cmd.Start(); err != nil {
			fatal(err)
		}
		go func() { pr.err = pr.cmd.Wait(); close(pr.done) }()
		ps = append(ps, pr)
	}
	deadline := time.After(wall)
	timedOut := false
	for _, pr := range ps {
		if timedOut {
			pr.cmd.Process.Kill()
			<-pr.done
			continue
		}
		select {
		case <-pr.done:
		case <-deadline:
			timedOut = true
			pr.cmd.Process.Kill()
			<-pr.done
		}
	}
	evals := map[string]int{}
	events := map[string]int64{}
	nt := map[uint64]struct{}{}
	var samples []string
	var viols []violation
	knownHits := map[string]string{}
	broken := ""
	for _, pr := range ps {
		if b, err := os.ReadFile(pr.out); err == nil {
			var r result
			if err := json.Unmarshal(b, &r); err != nil {
				fatal("worker result:", err)
			}
			for k, v := range r.Evaluations {
				evals[k] += v
			}
			for k, v := range r.Events {
				events[k] += v
			}
			samples = append(samples, r.Samples...)
			viols = append(viols, r.Violations...)
			for k, v := range r.KnownHits {
				knownHits[k] = v
			}
			if b, err := os.ReadFile(pr.out + ".nt"); err == nil {
				for ; len(b) >= 8; b = b[8:] {
					nt[binary.LittleEndian.Uint64(b)] = struct{}{}
				}
			}
		} else if b, err := os.ReadFile(pr.out + ".fatal"); err == nil {
			var v violation
			json.Unmarshal(b, &v)
			viols = append(viols, v)
		} else if timedOut {
			broken = "a worker did not finish within the wall-clock limit: inconclusive"
		} else {
			// the worker process died: a fatal runtime error (stack overflow, concurrent map write,
			// out of memory) in the case that was running
			log, _ := os.ReadFile(pr.out + ".log")
			cur, _ := os.ReadFile(pr.out + ".cur")
			f := strings.Fields(string(cur))
			if len(f) == 2 && strings.Contains(string(log), "fatal error:") || strings.Contains(string(log), "goroutine stack exceeds") {
				idx, _ := strconv.Atoi(f[1])
				viols = append(viols, violation{Prop: p.ID, Family: f[0], Index: idx, Seed: seed, Tier: tier, What: "the process died in a fatal runtime error", Stack: trunc(string(log), 4000)})
			} else {
				broken = fmt.Sprintf("worker ended abnormally (%v): %s", pr.err, trunc(string(log), 1000))
			}
		}
		if p.Race {
			logs, _ := filepath.Glob(pr.out + ".race*")
			for _, l := range logs {
				b, _ := os.ReadFile(l)
				for _, blk := range raceBlock.FindAllString(string(b), -1) {
					events["race reports"]++
					if strings.Contains(blk, "github.com/hzw456/go-geo") {
						viols = append(viols, violation{Prop: p.ID, Family: "race-detector", Index: -1, Seed: seed, Tier: tier, What: "data race in library code", Stack: trunc(blk, 6000)})
					} else {
						broken = "race report without library frames: " + trunc(blk, 2000)
					}
				}
			}
		}
		pr.log.Close()
	}
	total := 0
	for _, v := range evals {
		total += v
	}
	sort.Strings(samples)
	sm := []string{}
	last := ""
	for _, s := range samples { // one sample per family
		fam := s[:strings.Index(s, "#")]
		if fam != last && len(sm) < 12 {
			sm = append(sm, s)
			last = fam
		}
	}
	if len(viols) == 0 && broken == "" {
		for _, m := range p.Must {
			if events[m] == 0 {
				broken = "event never observed: " + m
			}
		}
		if total == 0 || len(nt) == 0 {
			broken = "nothing observed"
		}
	}
	ev := map[string]any{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]any{
			"evaluations": total, "distinct_nontrivial": len(nt), "rule": p.Rule, "samples": sm,
			"evaluations_by_workload": evals, "observed_events": events, "known_findings_seen": len(knownHits),
		},
		"assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viols),
	}
	if p.Assume == nil {
		ev["assumptions"] = []string{}
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verif, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verif, "evidence", p.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal(err)
	}
	ids := []string{}
	for k := range knownHits {
		ids = append(ids, k)
	}
	sort.Strings(ids)
	for _, k := range ids {
		fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k, knownHits[k])
	}
	fmt.Printf("%s %s seed=%d: %d executions, %d distinct non-trivial, %d violations, %.1fs\n", p.ID, tier, seed, total, len(nt), len(viols), time.Since(start).Seconds())
	if len(viols) > 0 {
		dir := filepath.Join(verif, "evidence", "replay")
		os.MkdirAll(dir, 0o755)
		sort.SliceStable(viols, func(i, j int) bool {
			if viols[i].Family != viols[j].Family {
				return viols[i].Family < viols[j].Family
			}
			return viols[i].Index < viols[j].Index
		})
		shown := map[string]int{}
		for _, v := range viols {
			shown[v.Family]++
			if shown[v.Family] > 1 {
				continue
			}
			f := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", p.ID, v.Family, v.Index))
			b, _ := json.MarshalIndent(v, "", " ")
			os.WriteFile(f, b, 0o644)
			fmt.Printf("  [%s #%d] %s\n    input: %s\n", v.Family, v.Index, trunc(v.What, 600), trunc(v.Input, 800))
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, f)
		}
		return 1
	}
	if broken != "" {
		fmt.Println("INCONCLUSIVE:", broken)
		return 2
	}
	return 0
}
