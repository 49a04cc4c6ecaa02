package main

import (
	"fmt"
	"runtime"
	"sort"
	"sync"

	"github.com/jakecoffman/cp/v2"
)

// inParallel runs the functions at once and passes on what they panic with.
func inParallel(fs ...func()) {
	var wg sync.WaitGroup
	start := make(chan struct{})
	errs := make([]interface{}, len(fs))
	for i, f := range fs {
		wg.Add(1)
		go func(i int, f func()) {
			defer wg.Done()
			defer func() {
				if e := recover(); e != nil {
					if v, ok := e.(violation); ok {
						errs[i] = v
					} else {
						buf := make([]byte, 1<<14)
						errs[i] = fmt.Sprintf("%v\n%s", e, buf[:runtime.Stack(buf, false)])
					}
				}
			}()
			<-start
			f()
		}(i, f)
	}
	close(start)
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			panic(e)
		}
	}
}

// tearDown empties a space.
func tearDown(w *World) {
	for len(w.Bodies) > 0 {
		w.removeBody(w.Bodies[0])
	}
}

// c19: several spaces, each on its own goroutine, against the same ones run alone.
func c19(t *T) {
	r := t.R
	n := 3 + r.Intn(4)
	steps := 10 + r.Intn(25)
	seeds := make([]string, n)
	for i := range seeds {
		seeds[i] = fmt.Sprint(t.Seed, t.Load, t.Case, i)
		if i > 0 && r.P(0.3) {
			seeds[i] = seeds[0] // the very same history several times at once
		}
	}
	one := func(seed string, obs bool, salt uint64) (uint64, *T) {
		or := newRand("observer", seed, salt)
		ot := &T{R: or, ev: map[string]int64{}}
		var last *World
		c := runHistory(seed, steps, false, true, func(w *World) {
			last = w
			if obs && or.P(0.5) {
				observe(ot, w, or)
			}
			if or.P(0.2) {
				runtime.Gosched()
			}
		}, nil)
		tearDown(last)
		for k, v := range c.ev {
			ot.ev[k] += v
		}
		return c.h, ot
	}
	got, ts, salts := make([]uint64, n), make([]*T, n), make([]uint64, n)
	var fs []func()
	for i := range seeds {
		i := i
		salts[i] = r.U64()
		fs = append(fs, func() { got[i], ts[i] = one(seeds[i], true, salts[i]) })
	}
	inParallel(fs...)
	for i := range seeds {
		want, _ := one(seeds[i], true, salts[i])
		t.Check(got[i] == want, "different-result", "history %s gives %016x among %d others, %016x alone", seeds[i], got[i], n-1, want)
		for k, v := range ts[i].ev {
			t.ev[k] += v
		}
		t.Ev("parallel_spaces")
	}
	t.NonTrivial(got[0], n)
	t.Sample("%d spaces of %d steps in parallel", n, steps)
}

// c19geometry: functions that only read what they are given, on shared data.
func c19geometry(t *T) {
	r := t.R
	verts := genConvex(r, 3+r.Intn(6), r.LogRange(0.1, 10))
	holder := cp.NewKinematicBody()
	holder.SetPosition(V{X: r.Range(-5, 5), Y: r.Range(-5, 5)})
	holder.SetAngle(r.Range(-3, 3))
	other := cp.NewKinematicBody()
	other.SetPosition(V{X: r.Range(-5, 5), Y: r.Range(-5, 5)})
	shapes := []*cp.Shape{
		cp.NewPolyShape(holder, len(verts), append([]V{}, verts...), cp.NewTransformIdentity(), r.Pick(0, 0.5)),
		cp.NewCircle(other, r.Range(0.1, 5), V{X: 1}),
		cp.NewSegment(holder, V{X: -3}, V{X: 3, Y: 1}, r.Pick(0, 0.5)),
		cp.NewBox(other, 3, 2, 0.1),
	}
	for _, s := range shapes {
		s.CacheBB()
	}
	points := make([]V, 8)
	for i := range points {
		points[i] = V{X: r.Range(-8, 8), Y: r.Range(-8, 8)}
	}
	line := &cp.PolyLine{}
	for i := 0; i < 20; i++ {
		line.Verts = append(line.Verts, V{X: float64(i), Y: r.Range(-1, 1)})
	}
	field := func(p V) float64 { return p.X*p.X + p.Y*p.Y }
	work := func() string {
		out := ""
		put := func(a ...interface{}) { out += fmt.Sprintln(a...) }
		for rep := 0; rep < 3; rep++ {
			put(cp.MomentForPoly(2, len(verts), verts, V{X: 1}, 0.1), cp.AreaForPoly(len(verts), verts, 0.2), cp.CentroidForPoly(len(verts), verts))
			put(cp.MomentForCircle(1, 0.5, 2, V{}), cp.MomentForBox(1, 2, 3), cp.MomentForSegment(1, V{}, V{X: 1}, 0.2), cp.AreaForSegment(V{}, V{X: 1}, 0.3))
			h := append([]V{}, points...)
			put(cp.ConvexHull(len(h), h, nil, 0), h)
			for i, s := range shapes {
				for _, p := range points {
					q := s.PointQuery(p)
					put(q.Distance, q.Gradient, q.Point)
					var info cp.SegmentQueryInfo
					put(s.SegmentQuery(p, points[0], 0.1, &info), info.Alpha)
				}
				for j, u := range shapes {
					if i%2 != j%2 {
						set := cp.ShapesCollide(s, u)
						put(set.Count, set.Normal)
					}
				}
				put(s.Mass(), s.Area(), s.Moment(), s.CenterOfGravity(), s.BB())
			}
			put(len(line.SimplifyCurves(0.1).Verts), len(line.SimplifyVertexes(0.1).Verts))
			set := cp.MarchSoft(cp.BB{L: -2, B: -2, R: 2, T: 2}, 12, 12, 1, cp.PolyLineCollectSegment, field)
			put(len(set.Lines))
			set = cp.MarchHard(cp.BB{L: -2, B: -2, R: 2, T: 2}, 12, 12, 1, cp.PolyLineCollectSegment, field)
			put(len(set.Lines))
			b := cp.NewBody(1, 1)
			b.AddShape(cp.NewCircle(b, 1, V{X: 1})).SetMass(3)
			b.AddShape(cp.NewBox(b, 1, 2, 0)).SetDensity(2)
			put(b.Mass(), b.Moment(), b.CenterOfGravity(), holder.LocalToWorld(points[1]), holder.VelocityAtWorldPoint(points[2]))
		}
		return out
	}
	n := 4
	res := make([]string, n)
	var fs []func()
	for i := 0; i < n; i++ {
		i := i
		fs = append(fs, func() { res[i] = work() })
	}
	inParallel(fs...)
	want := work()
	for i := range res {
		t.Check(res[i] == want, "different-result", "goroutine %d computed something else", i)
		t.Ev("parallel_geometry")
	}
	t.NonTrivial(want)
}

// A medleyJob is one case of another property's workload.
type medleyJob struct {
	p    *Prop
	l    *Load
	idx  int
	t    *T
	rep  *Report
	stat string
}

// medleyOut are the workloads that are too long for the race detector or start processes.
var medleyOut = map[string]bool{"C18": true, "C19": true, "C24": true, "C25": true, "C01/crowd": true, "C12/crowd": true}

func (j *medleyJob) run(seed int64, tier string) {
	j.t, j.rep = runCase(j.p, j.l, j.idx, seed, tier, false)
	if j.rep != nil {
		j.stat = "violation " + j.rep.Kind + ": " + head(j.rep.Msg, 600)
		return
	}
	j.stat = fmt.Sprintf("%x", j.t.sig)
	for _, k := range sortedKeys(j.t.ev) {
		j.stat += fmt.Sprintf(" %s=%d", k, j.t.ev[k])
	}
}

// c19medley: cases of all the other workloads, which between them call everything there is, at once and alone.
func c19medley(t *T) {
	r := t.R
	var ids []string
	for id := range props {
		if !medleyOut[id] {
			ids = append(ids, id)
		}
	}
	sort.Strings(ids)
	pick := func() *medleyJob {
		for {
			p := props[ids[r.Intn(len(ids))]]
			l := &p.Loads[r.Intn(len(p.Loads))]
			if !isProbe(l.Name) && !medleyOut[p.ID+"/"+l.Name] && l.Quick >= 300 {
				return &medleyJob{p: p, l: l, idx: r.Intn(1 << 20)}
			}
		}
	}
	const n = 4
	var first [n][]*medleyJob
	var fs []func()
	for i := 0; i < n; i++ {
		for k := 0; k < 3; k++ {
			j := pick()
			if i > 0 && r.P(0.5) {
				// the same kind of work as its neighbour, so that the same functions are at work at once
				o := first[i-1][k]
				j.p, j.l = o.p, o.l
				if r.P(0.3) {
					j.idx = o.idx
				}
			}
			first[i] = append(first[i], j)
		}
		i := i
		fs = append(fs, func() {
			for _, j := range first[i] {
				j.run(t.Seed, "quick")
			}
		})
	}
	inParallel(fs...)
	for i := range first {
		for _, j := range first[i] {
			alone := *j
			alone.run(t.Seed, "quick")
			t.Check(alone.stat == j.stat, "different-result", "%s/%s#%d among %d others: %s; alone: %s", j.p.ID, j.l.Name, j.idx, n-1, j.stat, alone.stat)
			t.Ev("parallel_medley")
			t.Ev("medley_" + j.p.ID)
			t.NonTrivial(j.stat)
		}
	}
}

func init() {
	register(&Prop{ID: "C19", Race: true,
		Technique: "Go race detector over random histories of several spaces on as many goroutines, and equality of every digest with the same history run alone",
		Rule:      "every case runs 3 to 6 spaces, 4 goroutines over shared geometry, or 4 goroutines with three cases each of the other properties' workloads, at once",
		Loads:     []Load{{"spaces", 600, 4000, c19}, {"geometry", 480, 3000, c19geometry}, {"medley", 200, 2000, c19medley}},
		Need: map[string]int64{"parallel_spaces": 500, "parallel_geometry": 400, "parallel_medley": 2000, "callbacks_recorded": 10000, "observed_draw": 200, "observed_debug-info": 200,
			"observed_segment": 200, "sleeping_seen": 50},
	})
}
