package main

import (
	"fmt"
	"math"
	"reflect"
	"regexp"
	"strconv"

	"github.com/jakecoffman/cp/v2"
)

// drawCall is one call of a drawer.
type drawCall struct {
	op            string
	a, b          V
	angle, r      float64
	vs            []V
	outline, fill cp.FColor
	data          interface{}
}

// recDrawer records what it is asked to draw; every shape has a colour of its own.
type recDrawer struct {
	calls   []drawCall
	flags   uint
	data    interface{}
	colors  map[cp.FColor]*cp.Shape
	outline cp.FColor
	joint   cp.FColor
	contact cp.FColor
	wrong   []string
}

func newRecDrawer(r *Rand) *recDrawer {
	c := func() cp.FColor {
		return cp.FColor{R: float32(r.F()), G: float32(r.F()), B: float32(r.F()), A: float32(r.F())}
	}
	return &recDrawer{flags: cp.DRAW_SHAPES | cp.DRAW_CONSTRAINTS | cp.DRAW_COLLISION_POINTS, data: new(int), colors: map[cp.FColor]*cp.Shape{},
		outline: c(), joint: c(), contact: c()}
}

func (d *recDrawer) DrawCircle(p V, angle, r float64, outline, fill cp.FColor, data interface{}) {
	d.calls = append(d.calls, drawCall{op: "circle", a: p, angle: angle, r: r, outline: outline, fill: fill, data: data})
}
func (d *recDrawer) DrawSegment(a, b V, fill cp.FColor, data interface{}) {
	d.calls = append(d.calls, drawCall{op: "segment", a: a, b: b, fill: fill, data: data})
}
func (d *recDrawer) DrawFatSegment(a, b V, r float64, outline, fill cp.FColor, data interface{}) {
	d.calls = append(d.calls, drawCall{op: "fat", a: a, b: b, r: r, outline: outline, fill: fill, data: data})
}
func (d *recDrawer) DrawPolygon(n int, vs []V, r float64, outline, fill cp.FColor, data interface{}) {
	if n != len(vs) {
		d.wrong = append(d.wrong, fmt.Sprintf("polygon with count %d and %d vertices", n, len(vs)))
	}
	d.calls = append(d.calls, drawCall{op: "polygon", vs: append([]V(nil), vs...), r: r, outline: outline, fill: fill, data: data})
}
func (d *recDrawer) DrawDot(size float64, p V, fill cp.FColor, data interface{}) {
	d.calls = append(d.calls, drawCall{op: "dot", a: p, r: size, fill: fill, data: data})
}
func (d *recDrawer) Flags() uint             { return d.flags }
func (d *recDrawer) OutlineColor() cp.FColor { return d.outline }
func (d *recDrawer) ShapeColor(s *cp.Shape, data interface{}) cp.FColor {
	if data != d.data {
		d.wrong = append(d.wrong, "ShapeColor with other data")
	}
	n := len(d.colors)
	c := cp.FColor{R: 2 + float32(n%1000), G: float32(n / 1000), B: 1, A: 1}
	d.colors[c] = s
	return c
}
func (d *recDrawer) ConstraintColor() cp.FColor     { return d.joint }
func (d *recDrawer) CollisionPointColor() cp.FColor { return d.contact }
func (d *recDrawer) Data() interface{}              { return d.data }

func (c drawCall) String() string {
	return fmt.Sprintf("%s a=%s b=%s angle=%g r=%g verts=%s", c.op, fv(c.a), fv(c.b), c.angle, c.r, fvs(c.vs))
}

// checkShapeCall compares what was drawn for a shape with its figure at the pose of its body.
func checkShapeCall(t *T, d *recDrawer, c drawCall, s *WShape) {
	pos, ang := s.B.B.Position(), s.B.B.Angle()
	want := s.L.at(pos, ang)
	tol := 1e-9*(1+vlen(pos)+want.scale()) + 1e-13*math.Abs(ang)*want.scale()
	ok := c.outline == d.outline && c.data == d.data && near(c.r, want.R, tol)
	switch s.L.Kind {
	case 'c':
		ok = ok && c.op == "circle" && vnear(c.a, want.P[0], tol) && near(c.angle, ang, tol)
	case 's':
		ok = ok && c.op == "fat" && vnear(c.a, want.P[0], tol) && vnear(c.b, want.P[len(want.P)-1], tol)
	case 'p':
		ok = ok && c.op == "polygon" && sameCycle(c.vs, want.P, tol)
	}
	t.Check(ok, "wrong-shape", "shape s%d (%c %s radius %g, data and outline right: %v %v) is drawn as %s", s.ID, s.L.Kind, fvs(want.P), want.R, c.data == d.data, c.outline == d.outline, c)
	t.Ev("shapes_checked")
}

func sameCycle(a, b []V, tol float64) bool {
	if len(a) != len(b) {
		return false
	}
	for off := range b {
		ok := true
		for i := range a {
			if !vnear(a[i], b[(i+off)%len(b)], tol) {
				ok = false
				break
			}
		}
		if ok {
			return true
		}
	}
	return false
}

// anchors tells the points a joint is drawn at, from its settings and the poses of its bodies.
func anchors(c *WCon) (dots []V, lines [][2]V, spring bool) {
	f := func(n string) V { return reflect.ValueOf(c.C.Class).Elem().FieldByName(n).Interface().(V) }
	at := func(b *WBody, p V) V { return vadd(b.B.Position(), vrot(p, b.B.Angle())) }
	switch c.Kind {
	case "pin", "slide", "spring":
		a, b := at(c.A, f("AnchorA")), at(c.B, f("AnchorB"))
		return []V{a, b}, [][2]V{{a, b}}, c.Kind == "spring"
	case "pivot", "pivot2":
		return []V{at(c.A, f("AnchorA")), at(c.B, f("AnchorB"))}, nil, false
	case "groove":
		return []V{at(c.B, f("AnchorB"))}, [][2]V{{at(c.A, f("GrooveA")), at(c.A, f("GrooveB"))}}, false
	}
	return nil, nil, false
}

// takePoint removes the point nearest to p, if that is near enough.
func takePoint(ps []V, p V, tol float64) ([]V, bool) {
	best := -1
	for i, q := range ps {
		if vnear(p, q, tol) && (best < 0 || vdist(p, q) < vdist(p, ps[best])) {
			best = i
		}
	}
	if best < 0 {
		return ps, false
	}
	return append(append([]V(nil), ps[:best]...), ps[best+1:]...), true
}

// takeLine removes the line nearest to p, either way round.
func takeLine(ps [][2]V, p [2]V, tol float64) ([][2]V, bool) {
	off := func(q [2]V) float64 {
		return math.Min(vdist(p[0], q[0])+vdist(p[1], q[1]), vdist(p[0], q[1])+vdist(p[1], q[0]))
	}
	best := -1
	for i, q := range ps {
		if (vnear(p[0], q[0], tol) && vnear(p[1], q[1], tol) || vnear(p[0], q[1], tol) && vnear(p[1], q[0], tol)) && (best < 0 || off(q) < off(ps[best])) {
			best = i
		}
	}
	if best < 0 {
		return ps, false
	}
	return append(append([][2]V(nil), ps[:best]...), ps[best+1:]...), true
}

// chains splits consecutive segments into the connected paths they form.
func chains(segs [][2]V) (out [][]V) {
	for _, s := range segs {
		if n := len(out); n > 0 && len(out[n-1]) < 15 && out[n-1][len(out[n-1])-1] == s[0] {
			out[n-1] = append(out[n-1], s[1])
			continue
		}
		out = append(out, []V{s[0], s[1]})
	}
	return out
}

// checkJoints compares dots and lines with those of the joints.
func checkJoints(t *T, dots []V, segs [][2]V, cons []*WCon) {
	type coil struct {
		c    *WCon
		a, b V
	}
	var springs []coil
	var wantLines [][2]V
	var lineOf []*WCon
	scale := 0.0
	for _, c := range cons {
		ds, ls, spring := anchors(c)
		tol := 1e-9 * (1 + vlen(c.A.B.Position()) + vlen(c.B.B.Position()))
		for _, p := range ds {
			tol += 1e-9 * vlen(p)
		}
		scale = math.Max(scale, tol)
		for _, p := range ds {
			var ok bool
			dots, ok = takePoint(dots, p, tol)
			t.Check(ok, "joint-not-drawn", "no dot at the anchor %s of joint c%d (%s)", fv(p), c.ID, c.Kind)
		}
		for _, l := range ls {
			if spring {
				springs = append(springs, coil{c, l[0], l[1]})
			} else {
				wantLines, lineOf = append(wantLines, l), append(lineOf, c)
			}
		}
		t.Ev("joints_checked")
		if !c.A.active() && !c.B.active() {
			t.Ev("sleeping_joints_checked")
		}
	}
	t.Check(len(dots) == 0, "extra-dot", "%d dots too many are drawn, at %s", len(dots), fvs(dots))
	// springs are paths that lead from anchor to anchor
	var single [][2]V
	var paths [][]V
	for _, p := range chains(segs) {
		if len(p) == 2 {
			single = append(single, [2]V{p[0], p[1]})
		} else {
			paths = append(paths, p)
		}
	}
	for i, l := range wantLines {
		var ok bool
		single, ok = takeLine(single, l, scale)
		t.Check(ok, "joint-not-drawn", "no line from %s to %s for joint c%d (%s)", fv(l[0]), fv(l[1]), lineOf[i].ID, lineOf[i].Kind)
	}
	t.Check(len(single) == 0, "extra-line", "%d lines too many are drawn: %v", len(single), single)
	for _, s := range springs {
		found, far := -1, math.Inf(1)
		for i, p := range paths {
			if p != nil && vnear(p[0], s.a, scale) && vnear(p[len(p)-1], s.b, scale) {
				if e := vdist(p[0], s.a) + vdist(p[len(p)-1], s.b); e < far {
					found, far = i, e
				}
			}
		}
		t.Check(found >= 0, "joint-not-drawn", "no coil leads from %s to %s for spring c%d", fv(s.a), fv(s.b), s.c.ID)
		d := vsub(s.b, s.a)
		for _, p := range paths[found] {
			if vlen(d) < 1000*scale { // too short for a direction
				t.Check(vfinite(p) && vdist(p, s.a) <= 6+1000*scale, "wrong-coil", "the coil of spring c%d at %s passes through %s", s.c.ID, fv(s.a), fv(p))
				continue
			}
			along := vdot(vsub(p, s.a), d)
			across := math.Abs(vcross(vsub(p, s.a), d))
			t.Check(vfinite(p) && along >= -scale*(20+vlen(d)) && along <= vdot(d, d)+scale*(20+vlen(d)) && across <= (6+scale)*vlen(d)+scale, "wrong-coil",
				"the coil of spring c%d from %s to %s passes through %s", s.c.ID, fv(s.a), fv(s.b), fv(p))
		}
		paths[found] = nil
		t.Ev("springs_checked")
	}
	for _, p := range paths {
		t.Check(p == nil, "extra-line", "a path too much is drawn: %s", fvs(p))
	}
}

// contactLine is how a contact is drawn.
func contactLine(p cp.Vector, q cp.Vector, n V) [2]V {
	return [2]V{vsub(p, vmul(n, 2)), vadd(q, vmul(n, 2))}
}

// activeContacts lists the contacts of the arbiters on awake bodies.
func activeContacts(w *World) (lines [][2]V, arbs int) {
	seen := map[*cp.Arbiter]bool{}
	for _, b := range append(append([]*WBody(nil), w.Bodies...), w.Static) {
		b.B.EachArbiter(func(arb *cp.Arbiter) {
			if seen[arb] {
				return
			}
			x, y := arb.Bodies()
			// Contacts found by the last step stay until the next one even if both bodies have turned static since.
			if x.IsSleeping() || y.IsSleeping() {
				return
			}
			seen[arb] = true
			set := arb.ContactPointSet()
			for i := 0; i < set.Count; i++ {
				lines = append(lines, contactLine(set.Points[i].PointA, set.Points[i].PointB, set.Normal))
			}
		})
	}
	return lines, len(seen)
}

// checkDrawing draws the space and compares the calls with its contents. The geometry must be up to date.
func checkDrawing(t *T, w *World, contacts [][2]V) {
	d := newRecDrawer(t.R)
	cp.DrawSpace(w.Sp, d)
	for _, s := range d.wrong {
		t.Failf("wrong-call", "%s", s)
	}
	drawn := map[*cp.Shape]int{}
	var dots []V
	var segs, points [][2]V
	for _, c := range d.calls {
		t.Check(c.data == d.data, "wrong-data", "%s is drawn with other data than the drawer's", c)
		switch {
		case c.op == "circle" || c.op == "fat" || c.op == "polygon":
			s := d.colors[c.fill]
			t.Check(s != nil, "wrong-color", "%s is drawn in the colour of no shape", c)
			ws := s.UserData.(*WShape)
			drawn[s]++
			t.Check(ws.In, "ghost", "shape s%d is drawn but not in the space", ws.ID)
			t.Check(drawn[s] == 1, "twice", "shape s%d is drawn %d times", ws.ID, drawn[s])
			checkShapeCall(t, d, c, ws)
		case c.op == "dot" && c.fill == d.joint:
			dots = append(dots, c.a)
		case c.op == "segment" && c.fill == d.joint:
			segs = append(segs, [2]V{c.a, c.b})
		case c.op == "segment" && c.fill == d.contact:
			points = append(points, [2]V{c.a, c.b})
		default:
			t.Failf("wrong-color", "%s is drawn in colour %v", c, c.fill)
		}
	}
	for _, s := range w.Shapes {
		t.Check(drawn[s.S] == 1, "not-drawn", "shape s%d of body b%d (type %d, asleep %v) is not drawn", s.ID, s.B.ID, s.B.Typ, s.B.B.IsSleeping())
		if s.B.B.IsSleeping() {
			t.Ev("sleeping_shapes_checked")
		}
	}
	checkJoints(t, dots, segs, w.Cons)
	n := len(contacts)
	for _, l := range contacts {
		var ok bool
		points, ok = takeLine(points, l, 1e-9*(1+vlen(l[0])))
		t.Check(ok, "contact-not-drawn", "the contact from %s to %s is not drawn (%d contacts)", fv(l[0]), fv(l[1]), n)
		t.Ev("contacts_checked")
	}
	t.Check(len(points) == 0, "extra-contact", "%d contacts are drawn that are none of the %d: %v", len(points), n, points)
	t.Ev("drawings")
}

var infoRE = regexp.MustCompile(`Arbiters: (\d+) \((\d+)\) - Contact Points: (\d+) \((\d+)\)\s+Other Constraints: (\d+), Iterations: (\d+)\s+Constraints x Iterations: (\d+) \((\d+)\)\s+KE: (\S+)`)

// checkInfo compares the numbers of DebugInfo with the space; most holds the largest seen so far.
func checkInfo(t *T, w *World, arbs, points int, most *[3]int) {
	text := cp.DebugInfo(w.Sp)
	m := infoRE.FindStringSubmatch(text)
	t.Check(m != nil, "unreadable", "DebugInfo says %q", text)
	cons := 0
	for _, c := range w.Cons {
		if !c.A.B.IsSleeping() && !c.B.B.IsSleeping() {
			cons++
		}
	}
	work := cons + points*int(w.Sp.Iterations)
	for i, n := range []int{arbs, points, work} {
		if n > most[i] {
			most[i] = n
		}
	}
	want := []int{arbs, most[0], points, most[1], cons, int(w.Sp.Iterations), work, most[2]}
	for i, n := range want {
		got, _ := strconv.Atoi(m[i+1])
		t.Check(got == n, "wrong-count", "DebugInfo says %q, expected counts %v", text, want)
	}
	for _, b := range w.Bodies {
		v, av := vdot(b.B.Velocity(), b.B.Velocity()), b.B.AngularVelocity()*b.B.AngularVelocity()
		e := 0.0 // something that is at rest has none, however heavy
		if v != 0 {
			e += b.B.Mass() * v
		}
		if av != 0 {
			e += b.B.Moment() * av
		}
		got := b.B.KineticEnergy()
		t.Check(got == e || near(got, e, 1e-9*e), "body-energy", "the energy of b%d is said to be %g, but it is %g", b.ID, got, e)
	}
	ke := 0.0
	for _, b := range w.Bodies {
		if b.Typ == cp.BODY_DYNAMIC && (math.IsInf(b.B.Mass(), 0) || math.IsInf(b.B.Moment(), 0)) {
			return // nothing sensible to report
		}
		if b.Typ != cp.BODY_DYNAMIC || b.B.IsSleeping() || b.B.Mass() >= cp.INFINITY || b.B.Moment() >= cp.INFINITY {
			continue
		}
		v := b.B.Velocity()
		ke += b.B.Mass()*vdot(v, v) + b.B.Moment()*b.B.AngularVelocity()*b.B.AngularVelocity()
	}
	got, err := strconv.ParseFloat(m[9], 64)
	t.Check(err == nil && near(got, ke, 1e-5*ke+1e-300), "wrong-energy", "DebugInfo says energy %s, the bodies have %g", m[9], ke)
	if ke > 0 {
		t.Ev("energies_checked")
	}
	t.Ev("infos_checked")
}

func c26(t *T) {
	r := t.R
	conf := genConf(r)
	conf.Joints = true
	if r.P(0.4) {
		conf.Sleep, conf.QuietBias = true, 0.95
	}
	w := newWorld(t, r, conf)
	var most [3]int
	steps := 20 + r.Intn(60)
	for i := 0; i < steps; i++ {
		w.ops()
		if r.P(0.1) {
			w.coincide()
		}
		if r.P(0.2) {
			w.settle()
			lines, arbs := activeContacts(w)
			checkDrawing(t, w, lines)
			checkInfo(t, w, arbs, len(lines), &most)
		}
		w.step(w.dt())
		lines, arbs := activeContacts(w)
		checkDrawing(t, w, lines)
		checkInfo(t, w, arbs, len(lines), &most)
	}
	t.NonTrivial(len(t.trace), len(w.Cons))
	t.Sample("%s", w.describe())
}

// coincide adds a spring whose anchors are in the same place.
func (w *World) coincide() {
	if len(w.Bodies) < 2 || len(w.Cons) > 8 {
		return
	}
	a, b := w.Bodies[0], w.Bodies[1]
	if !a.movable() && !b.movable() {
		return
	}
	p := vmul(vadd(a.B.Position(), b.B.Position()), 0.5)
	c := &WCon{ID: w.id(), A: a, B: b, Kind: "spring", Collide: true, In: true}
	c.C = cp.NewDampedSpring(a.B, b.B, a.B.WorldToLocal(p), b.B.WorldToLocal(p), 0, 0.1, 0.1)
	w.putJoint(c)
	w.T.Ev("coincident_springs")
}

// c26live compares the drawn contacts with those the post-solve callbacks of the step saw.
func c26live(t *T) {
	r := t.R
	conf := genConf(r)
	conf.Sleep, conf.PSensor, conf.Handlers = false, 0, true
	w := newWorld(t, r, conf)
	type seen struct {
		x, y  *cp.Shape
		lines [][2]V
	}
	var log []seen
	w.OnEv = func(kind byte, arb *cp.Arbiter, h *cp.CollisionHandler) bool {
		if kind == 'o' {
			x, y := arb.Shapes()
			for _, s := range log {
				if s.x == x && s.y == y || s.x == y && s.y == x {
					return true // told to another handler already
				}
			}
			s := seen{x: x, y: y}
			set := arb.ContactPointSet()
			for i := 0; i < set.Count; i++ {
				s.lines = append(s.lines, contactLine(set.Points[i].PointA, set.Points[i].PointB, set.Normal))
			}
			log = append(log, s)
		}
		return true
	}
	var most [3]int
	for i := 0; i < 40; i++ {
		w.ops()
		log = nil
		w.step(w.dt())
		var lines [][2]V
		for _, s := range log {
			lines = append(lines, s.lines...)
		}
		checkDrawing(t, w, lines)
		checkInfo(t, w, len(log), len(lines), &most)
		t.EvN("post_solves", len(log))
	}
	t.NonTrivial(len(t.trace), len(w.Shapes))
}

// c26one draws shapes and joints one by one.
func c26one(t *T) {
	r := t.R
	conf := genConf(r)
	conf.Joints = true
	w := newWorld(t, r, conf)
	for i := 0; i < 12; i++ {
		w.ops()
		w.addJoint()
		w.coincide()
		w.step(w.dt())
		for _, s := range w.Shapes {
			d := newRecDrawer(r)
			cp.DrawShape(s.S, d)
			t.Check(len(d.calls) == 1 && d.colors[d.calls[0].fill] == s.S && len(d.wrong) == 0, "wrong-call", "DrawShape of s%d: %v %v", s.ID, d.calls, d.wrong)
			checkShapeCall(t, d, d.calls[0], s)
		}
		for _, c := range w.Cons {
			d := newRecDrawer(r)
			cp.DrawConstraint(c.C, d)
			var dots []V
			var segs [][2]V
			for _, k := range d.calls {
				t.Check(k.fill == d.joint && k.data == d.data, "wrong-color", "DrawConstraint of c%d (%s): %s in colour %v", c.ID, c.Kind, k, k.fill)
				if k.op == "dot" {
					dots = append(dots, k.a)
				} else {
					t.Check(k.op == "segment", "wrong-call", "DrawConstraint of c%d (%s): %s", c.ID, c.Kind, k)
					segs = append(segs, [2]V{k.a, k.b})
				}
			}
			checkJoints(t, dots, segs, []*WCon{c})
		}
	}
	t.NonTrivial(len(t.trace), len(w.Shapes))
}

// c26probeFlags: DrawSpace draws everything, whatever the drawer's flags ask for.
func c26probeFlags(t *T) {
	sp := cp.NewSpace()
	a, b := cp.NewBody(1, 1), cp.NewBody(1, 1)
	for i, x := range []*cp.Body{a, b} {
		sp.AddBody(x)
		x.SetPosition(V{X: 1.5 * float64(i)})
		sp.AddShape(cp.NewCircle(x, 1, V{}))
	}
	sp.AddConstraint(cp.NewPinJoint(a, b, V{}, V{}))
	sp.Step(1.0 / 60)
	for flags := uint(0); flags < 8; flags++ {
		d := newRecDrawer(t.R)
		d.flags = flags
		cp.DrawSpace(sp, d)
		n := map[string]int{}
		for _, c := range d.calls {
			switch {
			case c.fill == d.joint:
				n["joint"]++
			case c.fill == d.contact:
				n["contact"]++
			default:
				n["shape"]++
			}
		}
		t.Check((n["shape"] > 0) == (flags&cp.DRAW_SHAPES != 0) && (n["joint"] > 0) == (flags&cp.DRAW_CONSTRAINTS != 0) && (n["contact"] > 0) == (flags&cp.DRAW_COLLISION_POINTS != 0),
			"flags-ignored", "with flags %d DrawSpace makes %v calls", flags, n)
	}
}

func init() {
	register(&Prop{ID: "C26",
		Technique: "runtime monitor: a recording drawer gives every shape a colour of its own; the recorded calls and the parsed debug summary are compared with the model's contents, geometry, joints and contacts",
		Rule:      "every case is a whole history",
		Loads:     []Load{{"histories", 7500, 80000, c26}, {"live", 4500, 40000, c26live}, {"one", 2400, 20000, c26one}, {"probe-flags", 1, 1, c26probeFlags}},
		Need:      map[string]int64{"shapes_checked": 100000, "joints_checked": 20000, "sleeping_joints_checked": 200, "sleeping_shapes_checked": 2000, "springs_checked": 2000, "contacts_checked": 20000, "infos_checked": 20000, "energies_checked": 10000, "coincident_springs": 200},
	})
}
