package main

import (
	"bufio"
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

const shards = 8

func main() {
	if len(os.Args) > 1 && os.Args[1] == "replay" {
		replay(os.Args[2:])
		return
	}
	if len(os.Args) > 4 && os.Args[1] == "digest" {
		digestMain(os.Args[2:])
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "list" {
		out := map[string]interface{}{}
		for id, p := range props {
			out[id] = map[string]interface{}{"technique": p.Technique, "assumptions": p.Assumptions, "note": p.Note}
		}
		b, _ := json.Marshal(out)
		fmt.Println(string(b))
		return
	}
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Int64("seed", 1, "seed")
	out := flag.String("evidence", "", "evidence file")
	replays := flag.String("replays", "", "directory for replay files")
	known := flag.String("known", "", "known findings file")
	bins := flag.String("bins", "", "comma separated list of worker binaries name=path")
	isWorker := flag.Bool("worker", false, "")
	shard := flag.Int("shard", 0, "")
	skip := flag.String("skip", "", "")
	build := flag.String("build", "release", "")
	flag.Parse()
	buildName = *build

	p := props[*prop]
	if p == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	if *isWorker {
		debug.SetGCPercent(200)
		sk := map[string]bool{}
		for _, s := range strings.Split(*skip, ",") {
			sk[s] = true
		}
		limit := 25.0
		if *tier == "thorough" {
			limit = 300
		}
		worker(p, *tier, *seed, *shard, shards, sk, limit)
		return
	}
	os.Exit(parent(p, *tier, *seed, *out, *replays, *known, *bins))
}

type knownFinding struct {
	ID       string `json:"id"`
	Property string `json:"property"`
	Status   string `json:"status"` // "known" or "fixed"
	Workload string `json:"workload"`
	Case     int    `json:"case"`
	Kind     string `json:"kind"` // "*": however that exact input fails
	What     string `json:"what"`
	Commit   string `json:"commit,omitempty"`
}

func parent(p *Prop, tier string, seed int64, out, replays, knownFile, binsArg string) int {
	start := time.Now()
	type bin struct{ name, path string }
	var bins []bin
	for _, s := range strings.Split(binsArg, ",") {
		kv := strings.SplitN(s, "=", 2)
		if len(kv) == 2 {
			bins = append(bins, bin{kv[0], kv[1]})
		}
	}
	if len(bins) == 0 {
		self, _ := os.Executable()
		bins = []bin{{"release", self}}
	}
	var known []knownFinding
	if knownFile != "" {
		if b, err := os.ReadFile(knownFile); err == nil {
			if err := json.Unmarshal(b, &known); err != nil {
				fmt.Fprintln(os.Stderr, "bad known findings file:", err)
				return 2
			}
		}
	}

	var mu sync.Mutex
	var reports []*Report
	events := map[string]int64{}
	perLoad := map[string]int64{}
	sigs := map[uint64]bool{}
	buildCases := map[string]int64{}
	var samples []string
	sampleLoad := map[string]int{}
	var cases, nontriv int64
	inconclusive := []string{}

	var wg sync.WaitGroup
	for s := 0; s < shards; s++ {
		wg.Add(1)
		go func(s int) {
			defer wg.Done()
			b := bins[s%len(bins)]
			skip := []string{}
			for attempt := 0; attempt < 4; attempt++ {
				cmd := exec.Command(b.path, "-worker", "-property", p.ID, "-tier", tier, "-seed", strconv.FormatInt(seed, 10),
					"-shard", strconv.Itoa(s), "-skip", strings.Join(skip, ","), "-build", b.name)
				cmd.Env = append(os.Environ(), "GOMAXPROCS="+gomaxprocs(p), "GOTRACEBACK=single",
					"GORACE=halt_on_error=0 exitcode=0")
				var stderr bytes.Buffer
				cmd.Stderr = &limitWriter{buf: &stderr, n: 1 << 20}
				stdout, err := cmd.StdoutPipe()
				if err == nil {
					err = cmd.Start()
				}
				if err != nil {
					mu.Lock()
					inconclusive = append(inconclusive, "cannot start worker: "+err.Error())
					mu.Unlock()
					return
				}
				wall := time.AfterFunc(wallLimit(tier), func() { _ = cmd.Process.Kill() })
				rd := bufio.NewReaderSize(stdout, 1<<20)
				curLoad, curCase, running, ended := "", 0, false, false
				for {
					line, rerr := rd.ReadBytes('\n')
					if len(line) > 0 {
						var r caseResult
						if json.Unmarshal(line, &r) == nil {
							mu.Lock()
							switch r.K {
							case "start":
								curLoad, curCase, running = r.Load, r.Case, true
							case "viol":
								running = false
								cases++
								perLoad[r.Load]++
								if r.Rep.Kind == "hang" || r.Rep.Kind == "runaway-memory" {
									skip = append(skip, fmt.Sprintf("%s#%d", r.Load, r.Case))
								}
								reports = append(reports, r.Rep)
							case "done":
								running = false
								cases++
								perLoad[r.Load]++
								buildCases[b.name]++
								if r.NT {
									nontriv++
									sigs[r.Sig] = true
								}
								for k, v := range r.Ev {
									events[k] += v
								}
								if r.Sample != "" && sampleLoad[r.Load] < 2 {
									sampleLoad[r.Load]++
									samples = append(samples, fmt.Sprintf("%s#%d: %s", r.Load, r.Case, r.Sample))
								}
							case "end":
								ended = true
							}
							mu.Unlock()
						}
					}
					if rerr != nil {
						break
					}
				}
				werr := cmd.Wait()
				timedOut := !wall.Stop()
				if p.Race {
					if n := strings.Count(stderr.String(), "WARNING: DATA RACE"); n > 0 {
						mu.Lock()
						reports = append(reports, &Report{Property: p.ID, Load: curLoad, Case: curCase, Seed: seed, Tier: tier, Build: b.name,
							Kind: "data-race", Msg: fmt.Sprintf("%d race reports; first:\n%s", n, firstRace(stderr.String()))})
						events["race_reports"] += int64(n)
						mu.Unlock()
					}
				}
				if ended {
					return
				}
				if timedOut {
					mu.Lock()
					inconclusive = append(inconclusive, fmt.Sprintf("worker %d exceeded the wall-clock watchdog in %s#%d", s, curLoad, curCase))
					mu.Unlock()
					return
				}
				if running {
					mu.Lock()
					reports = append(reports, &Report{Property: p.ID, Load: curLoad, Case: curCase, Seed: seed, Tier: tier, Build: b.name,
						Kind: "crash", Msg: fmt.Sprintf("worker died (%v)\n%s", werr, tail(stderr.String(), 4000))})
					mu.Unlock()
					skip = append(skip, fmt.Sprintf("%s#%d", curLoad, curCase))
				} else if werr != nil && len(skip) == 0 {
					mu.Lock()
					inconclusive = append(inconclusive, fmt.Sprintf("worker %d ended early: %v %s", s, werr, tail(stderr.String(), 2000)))
					mu.Unlock()
					return
				}
				// restart behind the crashed or hung cases
				skip = dedupe(skip)
				_ = attempt
			}
		}(s)
	}
	wg.Wait()

	// Classify.
	var viol []*Report
	knownHit := map[string]bool{}
	for _, r := range reports {
		matched := false
		for _, k := range known {
			if k.Status == "known" && k.Property == r.Property && k.Workload == r.Load && k.Case == r.Case && (k.Kind == r.Kind || k.Kind == "*") {
				matched = true
				if !knownHit[k.ID] {
					knownHit[k.ID] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", p.ID, k.ID, k.What)
				}
			}
		}
		if !matched {
			viol = append(viol, r)
		}
	}
	if tier == "quick" || tier == "thorough" {
		for k, n := range p.Need {
			if events[k] < n {
				inconclusive = append(inconclusive, fmt.Sprintf("too few events: %s = %d, need %d", k, events[k], n))
			}
		}
	}

	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": map[string]interface{}{
			"evaluations": cases, "distinct_nontrivial": len(sigs), "nontrivial_cases": nontriv, "rule": p.Rule, "samples": samples,
			"events_observed": events, "cases_per_workload": perLoad, "cases_per_build": buildCases,
			"inconclusive": inconclusive,
		},
		"assumptions": p.Assumptions,
		"wall_s":      time.Since(start).Seconds(),
		"violations":  len(viol),
	}
	if out != "" {
		_ = os.MkdirAll(filepath.Dir(out), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(out, append(b, '\n'), 0o644); err != nil {
			fmt.Fprintln(os.Stderr, err)
			return 2
		}
	}

	if len(viol) > 0 {
		printed := map[string]bool{}
		for i, r := range viol {
			path := ""
			if replays != "" && i < 40 {
				_ = os.MkdirAll(replays, 0o755)
				path = filepath.Join(replays, fmt.Sprintf("%s-%s-%d-%s.json", p.ID, r.Load, r.Case, r.Kind))
				b, _ := json.MarshalIndent(r, "", " ")
				_ = os.WriteFile(path, append(b, '\n'), 0o644)
			}
			key := r.Load + "/" + r.Kind
			if !printed[key] {
				printed[key] = true
				fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
				fmt.Printf("  workload=%s case=%d build=%s kind=%s: %s\n", r.Load, r.Case, r.Build, r.Kind, head(r.Msg, 1500))
			}
		}
		fmt.Printf("%s: %d violating cases of %d\n", p.ID, len(viol), cases)
		return 1
	}
	if len(inconclusive) > 0 {
		for _, s := range inconclusive {
			fmt.Println("INCONCLUSIVE", p.ID, s)
		}
		return 2
	}
	fmt.Printf("OK property=%s tier=%s cases=%d distinct_nontrivial=%d wall=%.1fs\n", p.ID, tier, cases, len(sigs), time.Since(start).Seconds())
	for _, k := range sortedKeys(events) {
		fmt.Printf("  %s=%d\n", k, events[k])
	}
	return 0
}

func wallLimit(tier string) time.Duration {
	if tier == "thorough" {
		return 4 * time.Hour
	}
	return 700 * time.Second
}

func gomaxprocs(p *Prop) string {
	if p.Race {
		return "4"
	}
	return "1"
}

func dedupe(xs []string) []string {
	seen := map[string]bool{}
	var o []string
	for _, x := range xs {
		if !seen[x] {
			seen[x] = true
			o = append(o, x)
		}
	}
	return o
}

func firstRace(s string) string {
	i := strings.Index(s, "WARNING: DATA RACE")
	if i < 0 {
		return ""
	}
	return head(s[i:], 2500)
}

func head(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}
func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

type limitWriter struct {
	buf *bytes.Buffer
	n   int
}

func (w *limitWriter) Write(b []byte) (int, error) {
	if w.buf.Len() < w.n {
		w.buf.Write(b)
	}
	return len(b), nil
}

func replay(args []string) {
	if len(args) < 1 {
		fmt.Fprintln(os.Stderr, "usage: monitor replay FILE")
		os.Exit(2)
	}
	var r Report
	b, err := os.ReadFile(args[0])
	if err == nil {
		err = json.Unmarshal(b, &r)
	}
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	p := props[r.Property]
	for i := range p.Loads {
		if p.Loads[i].Name == r.Load {
			_, rep := runCase(p, &p.Loads[i], r.Case, r.Seed, r.Tier, true)
			if rep == nil {
				fmt.Println("replay: case passed")
				os.Exit(0)
			}
			fmt.Printf("replay: %s: %s\n", rep.Kind, rep.Msg)
			os.Exit(1)
		}
	}
}
