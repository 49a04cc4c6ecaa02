package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync/atomic"
	"syscall"
	"time"
)

// ---------------------------------------------------------------- registry

// Load is one workload of a property: a generator plus a monitor.
type Load struct {
	Name            string
	Quick, Thorough int // number of cases
	Run             func(t *T)
}

// Prop is everything that decides one property.
type Prop struct {
	ID          string
	Rule        string // what makes a case non-trivial
	Technique   string
	Note        string // level note for the manifest
	Assumptions []string
	Loads       []Load
	// Need lists events that must have been observed at least this often in the quick tier,
	// otherwise the run is inconclusive.
	Need map[string]int64
	Race bool // run on the race-detector build
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// ---------------------------------------------------------------- rng

// Rand is a small self-contained PRNG (splitmix64), so that cases do not depend on library versions.
type Rand struct{ s uint64 }

func newRand(parts ...interface{}) *Rand {
	h := fnv.New64a()
	fmt.Fprintln(h, parts...)
	return &Rand{h.Sum64()}
}

func (r *Rand) U64() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *Rand) F() float64                 { return float64(r.U64()>>11) / (1 << 53) }
func (r *Rand) Intn(n int) int             { return int(r.U64() % uint64(n)) }
func (r *Rand) Range(a, b float64) float64 { return a + (b-a)*r.F() }
func (r *Rand) P(p float64) bool           { return r.F() < p }
func (r *Rand) LogRange(a, b float64) float64 {
	return math.Exp(r.Range(math.Log(a), math.Log(b)))
}
func (r *Rand) Sign() float64 {
	if r.U64()&1 == 0 {
		return 1
	}
	return -1
}
func (r *Rand) Pick(xs ...float64) float64 { return xs[r.Intn(len(xs))] }
func (r *Rand) Perm(n int) []int {
	p := make([]int, n)
	for i := range p {
		p[i] = i
	}
	for i := n - 1; i > 0; i-- {
		j := r.Intn(i + 1)
		p[i], p[j] = p[j], p[i]
	}
	return p
}

// ---------------------------------------------------------------- case context

type violation struct{ Kind, Msg string }

// Report is what a worker tells the parent about one violation.
type Report struct {
	Property string   `json:"property"`
	Load     string   `json:"workload"`
	Case     int      `json:"case"`
	Seed     int64    `json:"seed"`
	Tier     string   `json:"tier"`
	Build    string   `json:"build"`
	Kind     string   `json:"kind"`
	Msg      string   `json:"message"`
	Trace    []string `json:"trace,omitempty"`
}

// T is the context of one case.
type T struct {
	Prop, Load string
	Case       int
	Seed       int64
	Tier       string
	R          *Rand

	ev      map[string]int64
	trace   []string
	sig     uint64
	nontriv bool
	sample  string
	Debug   bool // verbose replay
}

// Failf reports a violation and abandons the case.
func (t *T) Failf(kind, format string, args ...interface{}) {
	panic(violation{kind, fmt.Sprintf(format, args...)})
}

// Check fails the case when cond is false.
func (t *T) Check(cond bool, kind, format string, args ...interface{}) {
	if !cond {
		t.Failf(kind, format, args...)
	}
}

// Ev counts an observed event.
func (t *T) Ev(name string)         { t.ev[name]++ }
func (t *T) EvN(name string, n int) { t.ev[name] += int64(n) }

// Logf appends to the trace that is stored with a violation.
func (t *T) Logf(format string, args ...interface{}) {
	if t.Debug {
		fmt.Fprintf(os.Stderr, format+"\n", args...)
	}
	if len(t.trace) > 400 {
		t.trace = append(t.trace[:0], t.trace[200:]...)
	}
	t.trace = append(t.trace, fmt.Sprintf(format, args...))
}

// NonTrivial marks the case as non-trivial; the parts distinguish it from others.
func (t *T) NonTrivial(parts ...interface{}) {
	t.nontriv = true
	h := fnv.New64a()
	fmt.Fprint(h, t.Load, t.sig)
	fmt.Fprintln(h, parts...)
	t.sig = h.Sum64()
}

func (t *T) Sample(format string, args ...interface{}) {
	if t.sample == "" {
		t.sample = fmt.Sprintf(format, args...)
	}
}

// ---------------------------------------------------------------- worker

type caseResult struct {
	K      string           `json:"k"` // start, done, viol, end
	Load   string           `json:"l,omitempty"`
	Case   int              `json:"c"`
	Sig    uint64           `json:"s,omitempty"`
	NT     bool             `json:"n,omitempty"`
	Sample string           `json:"a,omitempty"`
	Ev     map[string]int64 `json:"e,omitempty"`
	Rep    *Report          `json:"r,omitempty"`
}

var buildName = "release"

func runCase(p *Prop, l *Load, idx int, seed int64, tier string, dbg bool) (t *T, rep *Report) {
	t = &T{Prop: p.ID, Load: l.Name, Case: idx, Seed: seed, Tier: tier, ev: map[string]int64{}, Debug: dbg}
	t.R = newRand(seed, p.ID, l.Name, idx)
	defer func() {
		if e := recover(); e != nil {
			rep = &Report{Property: p.ID, Load: l.Name, Case: idx, Seed: seed, Tier: tier, Build: buildName, Trace: t.trace}
			if v, ok := e.(violation); ok {
				rep.Kind, rep.Msg = v.Kind, v.Msg
			} else {
				rep.Kind = "panic"
				rep.Msg = fmt.Sprintf("%v\n%s", e, trimStack(string(debug.Stack())))
			}
		}
	}()
	l.Run(t)
	return t, nil
}

func trimStack(s string) string {
	lines := strings.Split(s, "\n")
	if len(lines) > 40 {
		lines = lines[:40]
	}
	return strings.Join(lines, "\n")
}

func cpuSeconds() float64 {
	var ru syscall.Rusage
	if syscall.Getrusage(syscall.RUSAGE_SELF, &ru) != nil {
		return 0
	}
	return float64(ru.Utime.Sec+ru.Stime.Sec) + float64(ru.Utime.Usec+ru.Stime.Usec)/1e6
}

func worker(p *Prop, tier string, seed int64, shard, shards int, skip map[string]bool, cpuLimit float64) {
	enc := json.NewEncoder(os.Stdout)
	var curLoad atomic.Value
	var curCase atomic.Int64
	var startCPU atomic.Value
	curLoad.Store("")
	startCPU.Store(cpuSeconds())
	emit := func(r caseResult) { _ = enc.Encode(r) }

	go func() {
		for {
			time.Sleep(500 * time.Millisecond)
			l := curLoad.Load().(string)
			if l == "" {
				continue
			}
			kind := ""
			if cpuSeconds()-startCPU.Load().(float64) > cpuLimit {
				kind = "hang"
			}
			var ms runtime.MemStats
			runtime.ReadMemStats(&ms)
			if ms.HeapAlloc > 2500<<20 {
				kind = "runaway-memory"
			}
			if kind != "" {
				buf := make([]byte, 1<<16)
				n := runtime.Stack(buf, true)
				emit(caseResult{K: "viol", Load: l, Case: int(curCase.Load()), Rep: &Report{Property: p.ID, Load: l,
					Case: int(curCase.Load()), Seed: seed, Tier: tier, Build: buildName, Kind: kind,
					Msg: fmt.Sprintf("case did not finish within %.0f s of CPU / 2.5 GB of heap\n%s", cpuLimit, trimStack(string(buf[:n])))}})
				os.Exit(4)
			}
		}
	}()

	nviol, ncase := 0, 0
	for li := range p.Loads {
		l := &p.Loads[li]
		n := l.Quick
		if tier == "thorough" {
			n = l.Thorough
		}
		for i := shard; i < n; i += shards {
			key := fmt.Sprintf("%s#%d", l.Name, i)
			if skip[key] {
				continue
			}
			startCPU.Store(cpuSeconds())
			curCase.Store(int64(i))
			curLoad.Store(l.Name)
			emit(caseResult{K: "start", Load: l.Name, Case: i})
			ncase++
			if ncase%16 == 0 {
				// A Space embeds a sync.Pool, which the runtime keeps alive for two collections.
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > 150<<20 {
					runtime.GC()
					runtime.GC()
				}
			}
			t, rep := runCase(p, l, i, seed, tier, false)
			curLoad.Store("")
			if rep != nil {
				emit(caseResult{K: "viol", Load: l.Name, Case: i, Rep: rep})
				if !isProbe(l.Name) {
					nviol++
				}
				if nviol >= 8 {
					emit(caseResult{K: "end"})
					return
				}
				continue
			}
			emit(caseResult{K: "done", Load: l.Name, Case: i, Sig: t.sig, NT: t.nontriv, Sample: t.sample, Ev: t.ev})
		}
	}
	emit(caseResult{K: "end"})
}

// Probe workloads replay one specific known-finding input per case.
func isProbe(load string) bool { return strings.HasPrefix(load, "probe-") }

func sortedKeys(m map[string]int64) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
