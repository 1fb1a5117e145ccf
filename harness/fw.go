// Framework: registers the generated-input checks ("subs") of each property,
// runs them with rapid as generator and shrinker, records what was covered,
// keeps the current case in a shared file so that a dying process leaves its
// input behind, and watches CPU time and memory of every case.
package main

import (
	"encoding/binary"
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/metrics"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"testing"
	"time"

	"pgregory.net/rapid"
)

// Obs is what a check reports about a case.
type Obs struct {
	nt     bool
	labels []string
}

// NonTrivial marks the case as non-trivial if b holds (sticky).
func (o *Obs) NonTrivial(b bool) {
	if b {
		o.nt = true
	}
}

// Label classifies the case.
func (o *Obs) Label(s string) { o.labels = append(o.labels, s) }

// LabelIf classifies the case if b holds.
func (o *Obs) LabelIf(b bool, s string) {
	if b {
		o.labels = append(o.labels, s)
	}
}

type sub struct {
	prop, name, rule string
	quick, thorough  int
	race             bool // also built and run with the race detector
	bin              bool // needs the command line tools
	maxShards        int
	run              func(r *runner, s *sub) *failure
	replay           func(raw json.RawMessage) error
	stat             *stat
}

type stat struct {
	Evaluations int               `json:"evaluations"`
	NonTrivial  int               `json:"nontrivial"`
	Labels      map[string]int    `json:"labels"`
	Samples     []json.RawMessage `json:"samples"`
	Skipped     int               `json:"skipped_by_deadline"`
	hashes      map[uint64]struct{}
}

type failure struct {
	Sub   string          `json:"sub"`
	Case  json.RawMessage `json:"case"`
	Error string          `json:"error"`
}

var subs []*sub

type opt func(*sub)

func withRace() opt        { return func(s *sub) { s.race = true } }
func withBin() opt         { return func(s *sub) { s.bin = true } }
func withShards(n int) opt { return func(s *sub) { s.maxShards = n } }

// reg registers a generated check. quick and thorough are case counts summed over all shards.
func reg[C any](prop, name, rule string, quick, thorough int, gen func(*rapid.T) C, check func(C, *Obs) error, seeds []C, opts ...opt) {
	s := &sub{prop: prop, name: name, rule: rule, quick: quick, thorough: thorough}
	for _, o := range opts {
		o(s)
	}
	safe := func(c C, o *Obs) (err error) {
		defer func() {
			if e := recover(); e != nil {
				err = fmt.Errorf("panic: %v\n%s", e, trimStack(debug.Stack()))
			}
		}()
		return check(c, o)
	}
	s.replay = func(raw json.RawMessage) error {
		var c C
		if err := json.Unmarshal(raw, &c); err != nil {
			return fmt.Errorf("bad replay file: %v", err)
		}
		return safe(c, &Obs{})
	}
	s.run = func(r *runner, s *sub) *failure {
		st := s.stat
		var fail *failure
		var slow bool // the failing case takes long: it is not shrunk
		one := func(c C) error {
			if slow {
				return nil
			}
			raw, err := json.Marshal(c)
			if err != nil {
				panic("cannot marshal case: " + err.Error())
			}
			r.begin(s, raw)
			o := &Obs{}
			t0 := time.Now()
			err = safe(c, o)
			r.end()
			if fail == nil {
				st.Evaluations++
				for _, l := range o.labels {
					st.Labels[l]++
				}
				if o.nt {
					st.NonTrivial++
					h := fnv.New64a()
					h.Write(raw)
					k := h.Sum64()
					if _, ok := st.hashes[k]; !ok && len(st.hashes) < 2000000 {
						st.hashes[k] = struct{}{}
						if n := len(st.hashes); len(raw) < 1500 && (n == 1 || n == 10 || n == 100 || n == 1000) {
							st.Samples = append(st.Samples, append(json.RawMessage(nil), raw...))
						}
					}
				}
			}
			if err != nil {
				fail = &failure{s.name, raw, err.Error()}
				slow = time.Since(t0) > 4*time.Second
			}
			return err
		}
		if r.shard == 0 && !r.raceMode {
			for _, c := range seeds {
				if one(c) != nil {
					return fail
				}
			}
		}
		n := s.quick
		if r.tier == "thorough" {
			n = s.thorough
		}
		sh := r.shards
		if s.maxShards > 0 && s.maxShards < sh {
			sh = s.maxShards
		}
		if r.shard >= sh {
			return nil
		}
		per := n / sh
		if r.shard < n%sh {
			per++
		}
		if per == 0 {
			return nil
		}
		flag.Set("rapid.checks", fmt.Sprint(per))
		flag.Set("rapid.seed", fmt.Sprint(r.subSeed(s)))
		tb := &fakeTB{}
		done := make(chan struct{})
		go func() {
			defer close(done)
			defer func() {
				if e := recover(); e != nil {
					tb.failed = true
					tb.log = append(tb.log, fmt.Sprintf("panic in generator: %v\n%s", e, debug.Stack()))
				}
			}()
			rapid.Check(tb, func(t *rapid.T) {
				if time.Now().After(r.deadline) {
					st.Skipped++
					return
				}
				c := gen(t)
				if err := one(c); err != nil {
					t.Fatalf("%s", firstLine(err.Error()))
				}
			})
		}()
		<-done
		if tb.failed && fail == nil {
			fmt.Fprintf(os.Stderr, "generator trouble in %s: %s\n", s.name, strings.Join(tb.log, "\n"))
			os.Exit(20)
		}
		return fail
	}
	subs = append(subs, s)
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		return s[:i]
	}
	return s
}

func trimStack(b []byte) string {
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.Contains(l, "/repo/") || strings.Contains(l, "/verif/") {
			out = append(out, strings.TrimSpace(l))
		}
		if len(out) > 12 {
			break
		}
	}
	return strings.Join(out, "\n")
}

type fakeTB struct {
	failed bool
	log    []string
}

func (t *fakeTB) Helper()                 {}
func (t *fakeTB) Name() string            { return "pbt" }
func (t *fakeTB) Logf(f string, a ...any) { t.add(fmt.Sprintf(f, a...)) }
func (t *fakeTB) Log(a ...any)            { t.add(fmt.Sprint(a...)) }
func (t *fakeTB) Skipf(f string, a ...any) {
	t.add(fmt.Sprintf(f, a...))
	runtime.Goexit()
}
func (t *fakeTB) Skip(a ...any)             { runtime.Goexit() }
func (t *fakeTB) SkipNow()                  { runtime.Goexit() }
func (t *fakeTB) Errorf(f string, a ...any) { t.add(fmt.Sprintf(f, a...)); t.failed = true }
func (t *fakeTB) Error(a ...any)            { t.add(fmt.Sprint(a...)); t.failed = true }
func (t *fakeTB) Fatalf(f string, a ...any) {
	t.add(fmt.Sprintf(f, a...))
	t.failed = true
	runtime.Goexit()
}
func (t *fakeTB) Fatal(a ...any) { t.failed = true; runtime.Goexit() }
func (t *fakeTB) FailNow()       { t.failed = true; runtime.Goexit() }
func (t *fakeTB) Fail()          { t.failed = true }
func (t *fakeTB) Failed() bool   { return t.failed }
func (t *fakeTB) add(s string) {
	if len(t.log) < 50 {
		t.log = append(t.log, s)
	}
}

// ---- runner

type runner struct {
	prop     string
	shard    int
	shards   int
	seed     uint64
	tier     string
	dir      string
	raceMode bool
	deadline time.Time

	state    []byte
	stateOff int
	seq      atomic.Uint64 // odd: a case is running
	startCPU atomic.Int64
	startT   atomic.Int64
}

const stateSize = 32 << 20

func cpuNow() int64 {
	var ru syscall.Rusage
	syscall.Getrusage(syscall.RUSAGE_SELF, &ru)
	return ru.Utime.Nano() + ru.Stime.Nano()
}

func (r *runner) openState() {
	f, err := os.OpenFile(filepath.Join(r.dir, fmt.Sprintf("state-%d", r.shard)), os.O_RDWR|os.O_CREATE|os.O_TRUNC, 0600)
	if err != nil {
		panic(err)
	}
	if err = f.Truncate(stateSize); err != nil {
		panic(err)
	}
	r.state, err = syscall.Mmap(int(f.Fd()), 0, stateSize, syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_SHARED)
	if err != nil {
		panic(err)
	}
}

func (r *runner) begin(s *sub, raw []byte) {
	if r.state != nil && len(raw)+len(s.name)+16 < len(r.state) {
		binary.LittleEndian.PutUint32(r.state[0:], 0)
		binary.LittleEndian.PutUint32(r.state[4:], uint32(len(raw)))
		copy(r.state[8:], s.name)
		copy(r.state[8+len(s.name):], raw)
		binary.LittleEndian.PutUint32(r.state[0:], uint32(len(s.name)))
	}
	r.startCPU.Store(cpuNow())
	r.startT.Store(time.Now().UnixNano())
	r.seq.Add(1)
}

func (r *runner) end() {
	r.seq.Add(1)
	if r.state != nil {
		binary.LittleEndian.PutUint32(r.state[0:], 0)
	}
}

const (
	maxCaseCPU  = 20 * time.Second
	maxCaseWall = 240 * time.Second
	maxHeap     = 1500 << 20
)

// watch ends the process if a single case uses CPU, time or memory out of all proportion.
func (r *runner) watch() {
	sample := []metrics.Sample{{Name: "/memory/classes/heap/objects:bytes"}}
	var lastSeq uint64
	var memHits int
	for {
		time.Sleep(40 * time.Millisecond)
		q := r.seq.Load()
		if q%2 == 0 {
			lastSeq = q
			memHits = 0
			continue
		}
		if q != lastSeq {
			lastSeq = q
			memHits = 0
		}
		why := ""
		metrics.Read(sample)
		if sample[0].Value.Uint64() > maxHeap {
			// Not merely garbage of earlier cases?
			memHits++
			if memHits >= 2 {
				debug.FreeOSMemory()
				metrics.Read(sample)
				if sample[0].Value.Uint64() > maxHeap {
					why = fmt.Sprintf("memory: more than %d MB in use", maxHeap>>20)
				}
			}
		}
		if d := time.Duration(cpuNow() - r.startCPU.Load()); d > maxCaseCPU {
			why = fmt.Sprintf("hang: more than %v of CPU time used by a single case", maxCaseCPU)
		}
		if d := time.Since(time.Unix(0, r.startT.Load())); d > maxCaseWall {
			why = fmt.Sprintf("hang: a single case did not end within %v", maxCaseWall)
		}
		if why != "" && r.seq.Load() == q {
			os.WriteFile(filepath.Join(r.dir, fmt.Sprintf("why-%d", r.shard)), []byte(why), 0600)
			os.Exit(11)
		}
	}
}

func (r *runner) subSeed(s *sub) uint64 {
	h := fnv.New64a()
	fmt.Fprintf(h, "%d/%s/%s/%d", r.seed, s.prop, s.name, r.shard)
	v := h.Sum64() >> 1
	if v == 0 {
		v = 1
	}
	return v
}

func findSub(prop, name string) *sub {
	for _, s := range subs {
		if s.prop == prop && s.name == name {
			return s
		}
	}
	return nil
}

type shardResult struct {
	Failure *failure          `json:"failure"`
	Subs    map[string]*stat  `json:"subs"`
	Rules   map[string]string `json:"rules"`
}

func main() {
	var (
		prop   = flag.String("prop", "", "property id")
		shard  = flag.Int("shard", 0, "")
		shards = flag.Int("shards", 1, "")
		seed   = flag.Uint64("seed", 1, "")
		tier   = flag.String("tier", "quick", "")
		dir    = flag.String("dir", "", "output directory")
		replay = flag.String("replay", "", "replay file")
		race   = flag.Bool("racemode", false, "run only the subs for the race detector")
		budget = flag.Int("budget", 120, "soft limit, s")
		list   = flag.Bool("list", false, "")
		only   = flag.String("only", "", "run only this sub")
		scale  = flag.Float64("scale", 1, "multiply case counts")
	)
	testing.Init()
	flag.Parse()
	flag.Set("rapid.nofailfile", "true")
	flag.Set("rapid.shrinktime", "6s")
	debug.SetMaxStack(512 << 20)
	quietLogs()

	if *list {
		for _, s := range subs {
			fmt.Println(s.prop, s.name, s.quick, s.thorough, s.race, s.bin)
		}
		return
	}

	r := &runner{prop: *prop, shard: *shard, shards: *shards, seed: *seed, tier: *tier, dir: *dir, raceMode: *race}
	r.deadline = time.Now().Add(time.Duration(*budget) * time.Second)

	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var f failure
		if err := json.Unmarshal(b, &f); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		s := findSub(*prop, f.Sub)
		if s == nil {
			fmt.Fprintln(os.Stderr, "no such check:", *prop, f.Sub)
			os.Exit(2)
		}
		if r.dir == "" {
			r.dir, _ = os.MkdirTemp("", "pbt")
			defer os.RemoveAll(r.dir)
		}
		go r.watch()
		r.begin(s, f.Case)
		err = s.replay(f.Case)
		r.end()
		if err != nil {
			fmt.Println("FAILS:", err)
			os.Exit(10)
		}
		fmt.Println("passes")
		return
	}

	r.openState()
	go r.watch()
	res := shardResult{Subs: map[string]*stat{}, Rules: map[string]string{}}
	for _, s := range subs {
		if s.prop != r.prop || (r.raceMode && !s.race) || (*only != "" && s.name != *only) {
			continue
		}
		s.quick = int(float64(s.quick) * *scale)
		s.thorough = int(float64(s.thorough) * *scale)
		s.stat = &stat{Labels: map[string]int{}, hashes: map[uint64]struct{}{}}
		t0 := time.Now()
		f := s.run(r, s)
		if os.Getenv("PBT_TIMES") != "" {
			fmt.Fprintf(os.Stderr, "%s/%s shard %d: %d cases, %d nontrivial, %v\n", s.prop, s.name, r.shard, s.stat.Evaluations, len(s.stat.hashes), time.Since(t0))
		}
		res.Subs[s.name] = s.stat
		res.Rules[s.name] = s.rule
		if f != nil {
			res.Failure = f
			break
		}
	}
	for name, st := range res.Subs {
		hs := make([]uint64, 0, len(st.hashes))
		for h := range st.hashes {
			hs = append(hs, h)
		}
		sort.Slice(hs, func(i, j int) bool { return hs[i] < hs[j] })
		b := make([]byte, 8*len(hs))
		for i, h := range hs {
			binary.LittleEndian.PutUint64(b[8*i:], h)
		}
		os.WriteFile(filepath.Join(r.dir, fmt.Sprintf("hashes-%s-%d", name, r.shard)), b, 0600)
	}
	b, _ := json.Marshal(res)
	if err := os.WriteFile(filepath.Join(r.dir, fmt.Sprintf("result-%d.json", r.shard)), b, 0600); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if res.Failure != nil {
		os.Exit(10)
	}
}
