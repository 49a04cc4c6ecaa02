package main

import (
	"fmt"
	"hash/fnv"
	"math"
	"os"
	"os/exec"
	"runtime"
	"strings"

	"github.com/jakecoffman/cp/v2"
)

// Recording of everything a history lets one observe, bit for bit.

type recorder struct {
	h     uint64
	lines []string // kept when full
	full  bool
	marks []uint64 // digest after every step
	ev    map[string]int64
}

func (c *recorder) put(format string, args ...interface{}) {
	s := fmt.Sprintf(format, args...)
	f := fnv.New64a()
	var b [8]byte
	for i := range b {
		b[i] = byte(c.h >> (8 * i))
	}
	f.Write(b[:])
	f.Write([]byte(s))
	c.h = f.Sum64()
	if c.full {
		c.lines = append(c.lines, s)
	}
}

func bits(xs ...float64) string {
	var sb strings.Builder
	for _, x := range xs {
		fmt.Fprintf(&sb, " %016x", math.Float64bits(x))
	}
	return sb.String()
}

func vbits(v V) string { return bits(v.X, v.Y) }

// state puts down the state of every body, joint and contact.
func (c *recorder) state(w *World) {
	for _, b := range w.Bodies {
		x := b.B
		c.put("b%d%s%s%s%s %v%s", b.ID, vbits(x.Position()), bits(x.Angle()), vbits(x.Velocity()), bits(x.AngularVelocity(), x.Torque()), x.IsSleeping(), bits(x.IdleTime()))
		n := 0
		x.EachArbiter(func(arb *cp.Arbiter) {
			n++
			s, u := arb.Shapes()
			c.put("arbiter s%d-s%d %d%s", s.UserData.(*WShape).ID, u.UserData.(*WShape).ID, arb.Count(), vbits(arb.TotalImpulse()))
		})
		if n > 0 {
			c.ev["arbiters_recorded"] += int64(n)
		}
	}
	for _, s := range w.Shapes {
		bb := s.S.BB()
		c.put("s%d%s", s.ID, bits(bb.L, bb.B, bb.R, bb.T))
	}
	for _, j := range w.Cons {
		c.put("c%d%s", j.ID, bits(j.C.Class.GetImpulse()))
	}
}

// look puts down the answers to some queries, in the order they are given.
func (c *recorder) look(w *World, r *Rand) {
	sid := func(s *cp.Shape) int {
		if s == nil {
			return 0
		}
		return s.UserData.(*WShape).ID
	}
	for i := 0; i < 3; i++ {
		a, b := w.spot(r), w.spot(r)
		switch r.Intn(6) {
		case 0:
			q := w.Sp.PointQueryNearest(a, r.LogRange(0.1, 30), cp.SHAPE_FILTER_ALL)
			c.put("point s%d%s%s", sid(q.Shape), vbits(q.Point), bits(q.Distance))
		case 1:
			w.Sp.BBQuery(cp.NewBBForCircle(a, r.LogRange(0.1, 30)), cp.SHAPE_FILTER_ALL, func(s *cp.Shape, _ interface{}) { c.put("bb s%d", sid(s)) }, nil)
		case 2:
			w.Sp.SegmentQuery(a, b, r.Pick(0, 0.5), cp.SHAPE_FILTER_ALL, func(s *cp.Shape, p, n V, alpha float64, _ interface{}) {
				c.put("segment s%d%s%s%s", sid(s), vbits(p), vbits(n), bits(alpha))
			}, nil)
		case 3:
			q := w.Sp.SegmentQueryFirst(a, b, r.Pick(0, 0.5), cp.SHAPE_FILTER_ALL)
			c.put("first s%d%s%s%s", sid(q.Shape), vbits(q.Point), vbits(q.Normal), bits(q.Alpha))
		case 4:
			if len(w.Shapes) > 0 {
				s := w.Shapes[r.Intn(len(w.Shapes))]
				w.Sp.ShapeQuery(s.S, func(o *cp.Shape, set *cp.ContactPointSet) {
					c.put("shape s%d %d%s", sid(o), set.Count, vbits(set.Normal))
				})
			}
		case 5:
			w.Sp.EachBody(func(b *cp.Body) {
				if x, ok := b.UserData.(*WBody); ok {
					c.put("each b%d", x.ID)
				}
			})
			w.Sp.EachShape(func(s *cp.Shape) { c.put("each s%d", sid(s)) })
			w.Sp.EachConstraint(func(j *cp.Constraint) { c.put("each c%d", j.UserData.(*WCon).ID) })
			c.put("%s", cp.DebugInfo(w.Sp))
		}
		c.ev["looks"]++
	}
}

// replayHistory builds a scene and runs it, everything determined by the seed, and records what is seen. Between the
// calls it lets the caller do something that should not matter.
func replayHistory(seed string, steps int, full bool, disturb func(w *World)) *recorder {
	return runHistory(seed, steps, full, true, disturb, nil)
}

// runHistory: without looking, nothing is asked of the space but body states at the end.
func runHistory(seed string, steps int, full, look bool, disturb func(w *World), inCallback func(w *World)) *recorder {
	r := newRand("replay", seed)
	t := &T{Prop: "C18", R: r, ev: map[string]int64{}}
	c := &recorder{full: full, ev: map[string]int64{}}
	conf := genConf(r)
	conf.N = 4 + r.Intn(16)
	conf.Wild = r.P(0.4)
	pNo := r.Pick(0, 0, 0.05)
	w := newWorld(t, r, conf)
	w.Trace = false
	cr := newRand("replay-callbacks", seed)
	w.OnEv = func(kind byte, arb *cp.Arbiter, h *cp.CollisionHandler) bool {
		a, b := arb.Shapes()
		set := arb.ContactPointSet()
		s := fmt.Sprintf("%c s%d-s%d %v %d%s", kind, a.UserData.(*WShape).ID, b.UserData.(*WShape).ID, arb.IsFirstContact(), set.Count, vbits(set.Normal))
		for i := 0; i < set.Count; i++ {
			s += vbits(set.Points[i].PointA) + vbits(set.Points[i].PointB) + bits(set.Points[i].Distance)
		}
		if kind == 'o' {
			s += vbits(arb.TotalImpulse())
		}
		c.put("%s", s)
		c.ev["callbacks_recorded"]++
		if inCallback != nil && w.inStep {
			inCallback(w)
		}
		return !cr.P(pNo)
	}
	qr := newRand("replay-queries", seed)
	for i := 0; i < steps; i++ {
		if disturb != nil {
			disturb(w)
		}
		w.ops()
		if disturb != nil {
			disturb(w)
		}
		if look {
			w.settle()
			c.look(w, qr)
		}
		w.step(w.dt())
		if look || i == steps-1 {
			c.state(w)
		} else {
			for _, b := range w.Bodies {
				c.put("b%d%s%s%s%s %v", b.ID, vbits(b.B.Position()), bits(b.B.Angle()), vbits(b.B.Velocity()), bits(b.B.AngularVelocity()), b.B.IsSleeping())
			}
		}
		c.marks = append(c.marks, c.h)
		if i%8 == 7 {
			c.ev["sleeping_seen"] += int64(w.sleeping())
		}
	}
	return c
}

var garbage [64][]byte
var otherWorld *World

// disturbance makes garbage, collects it, and steps other spaces.
func disturbance(r *Rand, t *T) func(*World) {
	pGC, pOther := r.Pick(0, 0.1, 0.4), r.Pick(0.1, 0.5)
	if otherWorld == nil || r.P(0.3) {
		ot := &T{R: r, ev: map[string]int64{}}
		conf := genConf(r)
		otherWorld = newWorld(ot, newRand(r.U64()), conf)
		otherWorld.Trace = false
	}
	return func(*World) {
		for k := r.Intn(4); k > 0; k-- {
			garbage[r.Intn(64)] = make([]byte, 1+r.Intn(5000))
		}
		if r.P(pGC) {
			runtime.GC()
			if r.P(0.5) {
				runtime.GC() // empties pools
			}
			t.Ev("collections")
		}
		if r.P(pOther) {
			otherWorld.ops()
			otherWorld.step(otherWorld.dt())
			cp.DebugInfo(otherWorld.Sp)
			t.Ev("other_space_steps")
		}
	}
}

func c18(t *T) {
	r := t.R
	seed := fmt.Sprint(t.Seed, t.Load, t.Case)
	steps := 20 + r.Intn(60)
	first := replayHistory(seed, steps, false, nil)
	for rep := 0; rep < 2; rep++ {
		again := replayHistory(seed, steps, false, disturbance(r, t))
		t.Ev("replays")
		compareRuns(t, seed, steps, first, again, r)
	}
	for k, v := range first.ev {
		t.ev[k] += v
	}
	if first.ev["callbacks_recorded"] > 20 {
		t.NonTrivial(first.h)
	}
	t.Sample("%d steps, %d callbacks, digest %016x", steps, first.ev["callbacks_recorded"], first.h)
}

func compareRuns(t *T, seed string, steps int, a, b *recorder, r *Rand) {
	if a.h == b.h {
		return
	}
	at := 0
	for at < len(a.marks)-1 && at < len(b.marks)-1 && a.marks[at] == b.marks[at] {
		at++
	}
	// find the line
	msg := "not reproduced when recording in full"
	x := replayHistory(seed, steps, true, nil)
	for try := 0; try < 3; try++ {
		y := replayHistory(seed, steps, true, disturbance(r, t))
		if x.h != y.h {
			i := 0
			for i < len(x.lines) && i < len(y.lines) && x.lines[i] == y.lines[i] {
				i++
			}
			get := func(c *recorder) string {
				if i < len(c.lines) {
					return c.lines[i]
				}
				return "nothing"
			}
			msg = fmt.Sprintf("%q, then %q", get(x), get(y))
			break
		}
	}
	t.Failf("not-reproducible", "the same calls gave something else in step %d: %s", at, msg)
}

// c18process repeats a history in other processes.
func c18process(t *T) {
	r := t.R
	seed := fmt.Sprint(t.Seed, t.Load, t.Case)
	steps := 40 + r.Intn(40)
	first := replayHistory(seed, steps, false, nil)
	exe, err := os.Executable()
	if err != nil {
		t.Failf("harness", "%v", err)
	}
	for i := 0; i < 2; i++ {
		cmd := exec.Command(exe, "digest", seed, fmt.Sprint(steps), fmt.Sprint(r.U64()))
		cmd.Env = append(os.Environ(), "GOGC="+[]string{"5", "off"}[i], strings.Repeat("X", 1+r.Intn(3000))+"=1", "GOMEMLIMIT=1GiB")
		out, err := cmd.CombinedOutput()
		t.Check(err == nil, "panic", "the same history in another process: %v %s", err, trimStack(string(out)))
		want := fmt.Sprintf("%016x", first.h)
		t.Check(strings.TrimSpace(string(out)) == want, "other-process", "digest %s, in another process %s", want, strings.TrimSpace(string(out)))
		t.Ev("process_replays")
	}
	t.NonTrivial(first.h)
}

func digestMain(args []string) {
	var steps int
	var salt uint64
	fmt.Sscan(args[1], &steps)
	fmt.Sscan(args[2], &salt)
	r := newRand(salt)
	for i := range garbage {
		garbage[i] = make([]byte, 1+r.Intn(100000))
	}
	fmt.Printf("%016x\n", replayHistory(args[0], steps, false, nil).h)
}

func init() {
	register(&Prop{ID: "C18", Technique: "runtime monitoring: every history is repeated with garbage, collections and other spaces in between, and in other processes; digests of all bits observed are compared (self-differential oracle)",
		Rule:        "a history counts when it had more than 20 collision callbacks; distinct by digest",
		Assumptions: []string{"the same binary on the same machine: the release and the assertion build are compared with themselves only"},
		Loads:       []Load{{"histories", 800, 12000, c18}, {"processes", 48, 600, c18process}},
		Need: map[string]int64{"callbacks_recorded": 50000, "replays": 700, "collections": 2000, "other_space_steps": 4000, "process_replays": 40,
			"arbiters_recorded": 20000, "sleeping_seen": 200},
	})
}
