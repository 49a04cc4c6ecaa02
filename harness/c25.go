package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// A tower is a column of bodies resting on a support, each carrying those above it.
type tower struct {
	floor  *cp.Shape
	bodies []*cp.Body
	shapes []*cp.Shape
}

// weight of the bodies from the i-th up.
func (w *tower) weight(i int) float64 {
	m := 0.0
	for _, b := range w.bodies[i:] {
		m += b.Mass()
	}
	return m
}

type towers struct {
	t      *T
	r      *Rand
	sp     *cp.Space
	size   float64
	g      V
	slop   float64
	turn   float64 // the whole arrangement is turned by this
	ts     []*tower
	level  map[*cp.Shape]int // 0: floor
	of     map[*cp.Shape]*tower
	hits   []hit
	circle bool
	refuse bool // by the pre-solve callback
}

// at turns a point of the upright arrangement.
func (s *towers) at(p V) V { return vrot(p, s.turn) }

func newTowers(t *T, columns, maxHeight int) *towers {
	r := t.R
	s := &towers{t: t, r: r, sp: cp.NewSpace(), size: r.LogRange(0.5, 20), level: map[*cp.Shape]int{}, of: map[*cp.Shape]*tower{}}
	s.slop = s.size * 0.05
	s.sp.SetCollisionSlop(s.slop)
	s.circle = r.P(0.25)
	if !s.circle && r.P(0.5) {
		s.turn = r.Range(-math.Pi, math.Pi)
	}
	// gravity at an angle that friction holds and that does not topple anything
	slope := 0.0
	if !s.circle && r.P(0.6) {
		slope = r.Range(-0.15, 0.15)
	}
	s.g = s.at(vmul(V{X: math.Sin(slope), Y: -math.Cos(slope)}, s.size*r.Range(2, 20)))
	s.sp.SetGravity(s.g)
	if r.P(0.3) {
		s.sp.UseSpatialHash(s.size*r.Range(1, 3), 500)
	}
	ground := s.sp.StaticBody
	if k := r.F(); k < 0.3 {
		ground = s.sp.AddBody(cp.NewKinematicBody())
	} else if k < 0.6 { // a static body of one's own, perhaps not even in the space
		if ground = cp.NewStaticBody(); r.P(0.5) {
			s.sp.AddBody(ground)
		}
	}
	for c := 0; c < columns; c++ {
		w := &tower{}
		x := float64(c) * s.size * 6
		k := r.Intn(3)
		var fl LShape
		half := s.size * 2.5
		switch {
		case k == 0:
			fl = LShape{'s', []V{s.at(V{X: x - half}), s.at(V{X: x + half})}, 0}
		case k == 1:
			rad := s.size * r.Range(0.1, 0.5)
			fl = LShape{'s', []V{s.at(V{X: x - half, Y: -rad}), s.at(V{X: x + half, Y: -rad})}, rad}
		default:
			fl = LShape{'p', []V{s.at(V{X: x - half, Y: -s.size}), s.at(V{X: x + half, Y: -s.size}), s.at(V{X: x + half}), s.at(V{X: x - half})}, 0}
		}
		w.floor = s.sp.AddShape(fl.build(ground))
		w.floor.SetFriction(1)
		s.level[w.floor], s.of[w.floor] = 0, w
		top := 0.0
		n := 1 + r.Intn(maxHeight)
		for i := 0; i < n; i++ {
			m := r.LogRange(0.5, 2)
			var b *cp.Body
			var l LShape
			h := s.size * r.Range(0.3, 0.5) // half height
			if s.circle {
				b = cp.NewBody(m, cp.MomentForCircle(m, 0, h, V{}))
				l = LShape{'c', []V{{}}, h}
			} else {
				wd := s.size * r.Range(0.9, 1.4) * (1 - 0.05*float64(i)) // half width
				rad := r.Pick(0, 0.1, 0.3) * h
				b = cp.NewBody(m, m*(wd*wd+h*h)/3*r.Range(0.5, 1.5))
				l = LShape{'p', []V{{X: -wd + rad, Y: -h + rad}, {X: wd - rad, Y: -h + rad}, {X: wd - rad, Y: h - rad}, {X: -wd + rad, Y: h - rad}}, rad}
			}
			s.sp.AddBody(b)
			top += h - s.slop/2
			off := 0.0
			if !s.circle {
				off = r.Range(-0.2, 0.2) * s.size
			}
			b.SetPosition(s.at(V{X: x + off, Y: top}))
			b.SetAngle(s.turn)
			top += h
			sh := s.sp.AddShape(l.build(b))
			sh.SetFriction(1)
			s.level[sh], s.of[sh] = i+1, w
			w.bodies, w.shapes = append(w.bodies, b), append(w.shapes, sh)
		}
		s.ts = append(s.ts, w)
	}
	h := s.sp.NewCollisionHandler(0, 0)
	h.PreSolveFunc = func(*cp.Arbiter, *cp.Space, interface{}) bool { return !s.refuse }
	h.PostSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) { s.hits = append(s.hits, takeHit(arb)) }
	return s
}

func (s *towers) step(dt float64) {
	s.hits = s.hits[:0]
	s.sp.Step(dt)
}

// off is how far the impulses of the last step are from carrying exactly the weight above them, relative.
func (s *towers) off(dt float64) (worst float64, what string) {
	seen := map[*tower]int{}
	for _, h := range s.hits {
		lx, ly := s.level[h.sx], s.level[h.sy]
		w := s.of[h.sx]
		if w != s.of[h.sy] {
			return math.Inf(1), "contact between columns"
		}
		up, J := ly, h.J // J on x, which has to be held up if it is the upper one
		if lx > ly {
			up = lx
		} else {
			J = vmul(J, -1)
		}
		seen[w]++
		want := vmul(s.g, -w.weight(up-1)*dt)
		if e := vdist(J, want) / vlen(want); e > worst {
			worst, what = e, fmt.Sprintf("level %d of %d is held by %s, weighs %s (%d contacts)", up, len(w.bodies), fv(J), fv(want), h.set.Count)
		}
	}
	for _, w := range s.ts {
		if seen[w] != len(w.bodies) && !w.bodies[0].IsSleeping() {
			return math.Inf(1), fmt.Sprintf("column of %d bodies has %d contacts", len(w.bodies), seen[w])
		}
	}
	return
}

func (s *towers) speed() float64 {
	v := 0.0
	for _, w := range s.ts {
		for _, b := range w.bodies {
			v = math.Max(v, vlen(b.Velocity())+math.Abs(b.AngularVelocity())*s.size)
		}
	}
	return v
}

// settle steps until the impulses carry the weights, which takes few iterations many steps.
func (s *towers) settle(dt, eps float64, max int) (steps int, ok bool, what string) {
	e := 0.0
	for steps = 0; steps < max; steps++ {
		s.step(dt)
		if e, what = s.off(dt); e <= eps && s.speed() <= eps*vlen(s.g)*dt {
			return steps, true, ""
		}
	}
	return steps, false, fmt.Sprintf("off by %g: %s; speed %g", e, what, s.speed())
}

// c25carry: what a step carries over is exactly what the next one needs, whatever its size.
func c25carry(t *T) {
	r := t.R
	s := newTowers(t, 1, 5)
	s.sp.Iterations = 12 // fewer need not get there at all
	dt := r.LogRange(0.005, 0.03)
	steps, ok, what := s.settle(dt, 1e-9, 6000)
	t.Check(ok, "not-settled", "a column of %d bodies does not settle in %d steps with %d iterations: %s", len(s.ts[0].bodies), steps, s.sp.Iterations, what)
	if !ok {
		return
	}
	t.Ev("settled")
	n := len(s.ts[0].bodies)
	s.sp.Iterations = uint(3 + n + r.Intn(8)) // enough to damp what is left over
	var was []V
	for _, b := range s.ts[0].bodies {
		was = append(was, b.Position())
	}
	for i := 0; i < 60; i++ {
		if r.P(0.4) {
			dt = r.LogRange(0.004, 0.04)
		}
		switch r.Intn(30) {
		case 3: // a step of no time is no step
			s.sp.Step(0)
			t.Ev("zero_steps")
		case 0:
			s.sp.UseSpatialHash(s.size*r.Range(1, 3), 100+r.Intn(1000))
			t.Ev("index_switches")
		case 1:
			for _, sh := range s.ts[0].shapes {
				s.sp.ReindexShape(sh)
			}
		case 2: // more iterations change nothing
			s.sp.Iterations = uint(3 + n + r.Intn(10))
		}
		s.step(dt)
		e, what := s.off(dt)
		t.Check(e <= 1e-6, "carried-wrong", "step %d of %g: %s (column of %d, %d iterations)", i, dt, what, n, s.sp.Iterations)
		t.Check(s.speed() <= 1e-6*vlen(s.g)*dt, "disturbed", "step %d of %g: a column at rest moves at %g (gravity %g)", i, dt, s.speed(), vlen(s.g))
		t.Ev("carried_steps")
		for _, h := range s.hits {
			t.Ev(fmt.Sprintf("carried_%d_contacts", h.set.Count))
		}
	}
	for i, b := range s.ts[0].bodies {
		t.Check(vdist(was[i], b.Position()) <= 1e-3*s.size, "drift", "body %d of a column at rest drifts from %s to %s", i, fv(was[i]), fv(b.Position()))
	}
	t.NonTrivial(n, s.turn, s.circle)
}

// c25many: more contacts than one buffer holds.
func c25many(t *T) {
	r := t.R
	s := newTowers(t, 250+r.Intn(300), 4)
	s.sp.Iterations = uint(6 + r.Intn(8))
	dt := 1.0 / 60
	steps, ok, what := s.settle(dt, 1e-6, 2000)
	t.Check(ok, "not-settled", "%d columns do not settle in %d steps with %d iterations: %s", len(s.ts), steps, s.sp.Iterations, what)
	if !ok {
		return
	}
	contacts := 0
	for i := 0; i < 10; i++ {
		dt = r.LogRange(0.005, 0.03)
		s.step(dt)
		e, what := s.off(dt)
		t.Check(e <= 1e-4, "carried-wrong", "step %d of %g: %s (%d columns)", i, dt, what, len(s.ts))
		contacts = 0
		for _, h := range s.hits {
			contacts += h.set.Count
		}
		if contacts > 1024 {
			t.Ev("beyond_one_buffer")
		}
		if contacts > 2048 {
			t.Ev("beyond_two_buffers")
		}
	}
	t.EvN("many_contacts", contacts)
	t.NonTrivial(len(s.ts), contacts)
}

// c25dropped: impulses of contacts that ended are gone.
func c25dropped(t *T) {
	r := t.R
	s := newTowers(t, 1, 4)
	s.sp.Iterations = uint(8 + r.Intn(5))
	dt := 1.0 / 60
	_, ok, _ := s.settle(dt, 1e-7, 4000)
	if !ok {
		t.Failf("not-settled", "a column does not settle")
		return
	}
	s.sp.Iterations = 1
	s.sp.SetGravity(V{})
	w := s.ts[0]
	var home []V
	for _, b := range w.bodies {
		home = append(home, b.Position())
	}
	for round := 0; round < 4; round++ {
		// take all apart for some steps
		apart := 1 + r.Intn(5)
		how := r.Intn(5)
		for i, b := range w.bodies {
			switch how {
			case 0:
				b.SetPosition(vadd(home[i], s.at(V{Y: s.size * 5 * float64(i+1)})))
			case 1: // contacts end by filter
				w.shapes[i].SetFilter(cp.SHAPE_FILTER_NONE)
			case 2: // ... or by removal
				s.sp.RemoveShape(w.shapes[i])
			case 3: // ... or are refused
				s.refuse = true
			case 4: // ... or only sensed
				w.shapes[i].SetSensor(true)
			}
			b.SetVelocityVector(V{})
			b.SetAngularVelocity(0)
		}
		for k := 0; k < apart; k++ {
			s.step(dt)
			t.Check(len(s.hits) == 0, "not-parted", "contacts remain between bodies apart")
		}
		for i, b := range w.bodies {
			switch how {
			case 0:
				b.SetPosition(home[i])
			case 1:
				w.shapes[i].SetFilter(cp.SHAPE_FILTER_ALL)
			case 2:
				s.sp.AddShape(w.shapes[i])
			case 3:
				s.refuse = false
			case 4:
				w.shapes[i].SetSensor(false)
			}
			b.SetVelocityVector(V{})
			b.SetAngularVelocity(0)
		}
		for k := 0; k < 3; k++ {
			s.step(dt)
			t.Check(len(s.hits) == len(w.bodies), "not-back", "%d contacts of %d are back", len(s.hits), len(w.bodies))
			for _, h := range s.hits {
				t.Check(vlen(h.J) <= 1e-9*vlen(s.g)*dt*w.weight(0), "kept", "round %d: a contact made anew between bodies at rest, %d steps after the old one ended, has an impulse of %s (weight was %g)", round, apart, fv(h.J), vlen(s.g)*dt*w.weight(0))
			}
			t.Check(s.speed() <= 1e-9*vlen(s.g)*dt, "kept", "round %d: bodies at rest without gravity, put together again after %d steps, move at %g", round, apart, s.speed())
			t.Ev("dropped_checked")
			t.Ev([]string{"dropped_apart", "dropped_filtered", "dropped_removed", "dropped_refused", "dropped_sensed"}[how])
		}
		// load it again
		s.sp.SetGravity(s.g)
		s.sp.Iterations = 8
		s.settle(dt, 1e-7, 4000)
		s.sp.Iterations = 1
		s.sp.SetGravity(V{})
		for i, b := range w.bodies {
			home[i] = b.Position()
		}
	}
	t.NonTrivial(len(w.bodies), s.circle, s.turn)
}

// c25slept: a column that slept stands as before when it is woken.
func c25slept(t *T) {
	r := t.R
	s := newTowers(t, 1+r.Intn(3), 4)
	s.sp.Iterations = 12
	dt := r.LogRange(0.008, 0.03)
	_, ok, what := s.settle(dt, 1e-9, 6000)
	if !ok {
		t.Failf("not-settled", "columns do not settle: %s", what)
		return
	}
	s.sp.SleepTimeThreshold = 5 * dt
	if s.ts[0].floor.Body().GetType() != cp.BODY_STATIC {
		s.sp.SleepTimeThreshold = cp.INFINITY // nothing sleeps on a kinematic body
	}
	s.sp.Iterations = 12
	asleep := 0
	for i := 0; i < 80; i++ {
		s.step(dt)
		e, what := s.off(dt)
		t.Check(e <= 1e-6, "woken-wrong", "step %d of %g: %s", i, dt, what)
		t.Check(s.speed() <= 1e-6*vlen(s.g)*dt, "woken-wrong", "step %d of %g: a column at rest moves at %g", i, dt, s.speed())
		for _, w := range s.ts {
			if w.bodies[0].IsSleeping() {
				asleep++
				if r.P(0.3) {
					w.bodies[r.Intn(len(w.bodies))].Activate()
					t.Ev("woken")
				}
			}
		}
	}
	t.EvN("column_steps_asleep", asleep)
	t.NonTrivial(len(s.ts), asleep)
}

// c25pile: stacks, pyramids and single bodies dropped from low settle and stay.
func c25pile(t *T) {
	r := t.R
	sp := cp.NewSpace()
	size := r.LogRange(0.5, 20)
	slop := size * r.Range(0.01, 0.05)
	sp.SetCollisionSlop(slop)
	sp.Iterations = 25
	g := size * r.Range(3, 15)
	sp.SetGravity(V{Y: -g})
	if r.P(0.3) {
		sp.UseSpatialHash(size*r.Range(1, 3), 500)
	}
	fl := sp.AddShape(cp.NewSegment(sp.StaticBody, V{X: -100 * size}, V{X: 100 * size}, r.Pick(0, size)))
	lift := 0.0
	if fl.BB().T > 0 {
		lift = fl.BB().T
	}
	fl.SetFriction(1)
	var bs []*cp.Body
	box := func(x, y, hw, hh float64) {
		m := r.LogRange(0.5, 2)
		b := sp.AddBody(cp.NewBody(m, cp.MomentForBox(m, 2*hw, 2*hh)))
		b.SetPosition(V{X: x, Y: y + lift})
		rad := r.Pick(0, 0.1*hh)
		s := sp.AddShape(cp.NewBox(b, 2*(hw-rad), 2*(hh-rad), rad))
		s.SetFriction(r.Range(0.7, 1))
		bs = append(bs, b)
	}
	gap := r.Pick(0, 0.05*size)
	h := 0.5 * size
	kind := []string{"stack", "pyramid", "balls"}[r.Intn(3)]
	switch kind {
	case "stack":
		for i, n := 0, 1+r.Intn(6); i < n; i++ {
			box(r.Range(-0.1, 0.1)*size, h+float64(i)*(2*h+gap), size, h)
		}
	case "pyramid":
		n := 2 + r.Intn(3)
		for i := 0; i < n; i++ {
			for k := 0; k < n-i; k++ {
				box((float64(k)-float64(n-i-1)/2)*2.2*size, h+float64(i)*(2*h+gap), size, h)
			}
		}
	case "balls": // in a trough
		for _, x := range []float64{-1, 1} {
			s := sp.AddShape(cp.NewSegment(sp.StaticBody, V{X: x * 3 * size, Y: lift}, V{X: x * 4 * size, Y: lift + 10*size}, 0))
			s.SetFriction(1)
		}
		for i, n := 0, 2+r.Intn(8); i < n; i++ {
			m := r.LogRange(0.5, 2)
			rad := size * r.Range(0.4, 0.8)
			b := sp.AddBody(cp.NewBody(m, cp.MomentForCircle(m, 0, rad, V{})))
			b.SetPosition(V{X: r.Range(-1, 1) * size, Y: lift + float64(i+1)*1.7*size})
			s := sp.AddShape(cp.NewCircle(b, rad, V{}))
			s.SetFriction(r.Range(0.3, 1))
			bs = append(bs, b)
		}
		sp.SetDamping(0.5) // balls roll for long
	}
	var load V
	depth := 0.0
	ch := sp.NewCollisionHandler(0, 0)
	ch.PostSolveFunc = func(arb *cp.Arbiter, _ *cp.Space, _ interface{}) {
		x := takeHit(arb)
		if x.x.GetType() == cp.BODY_STATIC {
			load = vsub(load, x.J)
		} else if x.y.GetType() == cp.BODY_STATIC {
			load = vadd(load, x.J)
		}
		for i := 0; i < x.set.Count; i++ {
			depth = math.Max(depth, -x.set.Points[i].Distance)
		}
	}
	dt := r.Pick(1.0/60, 1.0/120)
	for i := 0; i < int(12/dt); i++ {
		sp.Step(dt)
	}
	// balls may take their time
	calm := kind != "balls"
	for i := 0; i < int(120/dt) && !calm; i++ {
		sp.Step(dt)
		calm = i%100 == 99
		for _, b := range bs {
			calm = calm && vlen(b.Velocity()) < 0.01*size
		}
	}
	t.Check(calm, "restless", "%d balls in a trough do not come to rest", len(bs))
	mass := 0.0
	was := map[*cp.Body]V{}
	for _, b := range bs {
		mass += b.Mass()
		was[b] = b.Position()
		t.Check(b.Position().Y > lift-slop && b.Position().Y < lift+40*size, "escaped", "a body of a %s ends up at %s", kind, fv(b.Position()))
	}
	top := 0.0
	for i := 0; i < 240; i++ {
		if kind != "balls" && r.P(0.2) {
			dt = r.LogRange(0.006, 0.02)
		}
		load, depth = V{}, 0
		sp.Step(dt)
		want := V{Y: mass * g * dt}
		speed := 0.0
		for _, b := range bs {
			speed = math.Max(speed, vlen(b.Velocity()))
		}
		top = math.Max(top, speed)
		lim := 0.02
		if kind == "balls" { // which may still roll
			lim = 0.1
		}
		t.Check(vdist(load, want) <= lim*want.Y, "support", "%s of %d bodies, step of %g: the support carries %s, the weight is %s (speed %g)", kind, len(bs), dt, fv(load), fv(want), speed)
		t.Check(depth <= slop*1.2+0.01*size, "sunk", "%s of %d bodies, step of %g: %g deep with a slop of %g", kind, len(bs), dt, depth, slop)
		t.Ev("pile_steps")
	}
	t.Check(top <= 0.02*g/60*3 || kind == "balls" && top <= 0.1*size, "restless", "%s of %d bodies at rest moves at %g (gravity %g)", kind, len(bs), top, g)
	for _, b := range bs {
		t.Check(vdist(was[b], b.Position()) <= 0.02*size || kind == "balls", "drift", "a body of a %s at rest drifts from %s to %s (size %g)", kind, fv(was[b]), fv(b.Position()), size)
	}
	t.Ev("piles_" + kind)
	t.NonTrivial(kind, len(bs), g)
}

func init() {
	register(&Prop{ID: "C25",
		Technique: "runtime monitor: settled columns must, at every later step of any size, carry exactly the weight above each contact and stand still; impulses of ended contacts must be gone; piles must settle, hold their weight and stay",
		Rule:      "every case is a whole history",
		Loads:     []Load{{"carry", 1800, 30000, c25carry}, {"many", 24, 400, c25many}, {"dropped", 1200, 20000, c25dropped}, {"slept", 900, 15000, c25slept}, {"pile", 900, 15000, c25pile}},
		Need:      map[string]int64{"settled": 500, "carried_steps": 20000, "carried_1_contacts": 1000, "carried_2_contacts": 10000, "beyond_one_buffer": 20, "many_contacts": 5000, "dropped_checked": 2000, "dropped_refused": 300, "dropped_sensed": 300, "woken": 500, "column_steps_asleep": 1000, "pile_steps": 20000, "piles_stack": 30, "piles_pyramid": 30, "piles_balls": 30},
	})
}
