package main

import (
	"fmt"
	"math"

	"github.com/jakecoffman/cp/v2"
)

// Drawing (C26): DrawSpace shows every shape where it is, every joint and every contact, and nothing else.

const (
	inkOutline = 1 + iota
	inkCons
	inkHit
	inkShape // and the shape's id
)

type drawLine struct {
	a, b V
	ink  float32
}

type drawShape struct {
	kind  int
	pts   []V
	r, a  float64
	o     float32
	f     float32
	asked *cp.Shape
}

// recDrawer notes what it is told to draw.
type recDrawer struct {
	shapes []*cp.Shape
	drawn  []drawShape
	dots   []drawLine
	lines  []drawLine
	size   float64
	bad    bool // called with the wrong user data
}

func (d *recDrawer) data(x interface{}) {
	if x != interface{}(d) {
		d.bad = true
	}
}

func (d *recDrawer) shape(kind int, r, a float64, o, f cp.FColor, data interface{}, pts ...cp.Vector) {
	d.data(data)
	x := drawShape{kind: kind, r: r, a: a, o: o.R, f: f.R}
	for _, p := range pts {
		x.pts = append(x.pts, vv(p))
	}
	if n := len(d.shapes); n > 0 {
		x.asked = d.shapes[n-1]
	}
	d.drawn = append(d.drawn, x)
}

func (d *recDrawer) DrawCircle(pos cp.Vector, angle, radius float64, outline, fill cp.FColor, data interface{}) {
	d.shape(0, radius, angle, outline, fill, data, pos)
}
func (d *recDrawer) DrawFatSegment(a, b cp.Vector, radius float64, outline, fill cp.FColor, data interface{}) {
	d.shape(1, radius, 0, outline, fill, data, a, b)
}
func (d *recDrawer) DrawPolygon(count int, verts []cp.Vector, radius float64, outline, fill cp.FColor, data interface{}) {
	if count > len(verts) {
		d.bad = true
		return
	}
	d.shape(2, radius, 0, outline, fill, data, verts[:count]...)
}
func (d *recDrawer) DrawSegment(a, b cp.Vector, fill cp.FColor, data interface{}) {
	d.data(data)
	d.lines = append(d.lines, drawLine{vv(a), vv(b), fill.R})
}
func (d *recDrawer) DrawDot(size float64, pos cp.Vector, fill cp.FColor, data interface{}) {
	d.data(data)
	if d.size == 0 {
		d.size = size
	}
	if size != d.size || size <= 0 {
		d.bad = true
	}
	d.dots = append(d.dots, drawLine{vv(pos), vv(pos), fill.R})
}
func (d *recDrawer) Flags() uint {
	return cp.DRAW_SHAPES | cp.DRAW_CONSTRAINTS | cp.DRAW_COLLISION_POINTS
}
func (d *recDrawer) OutlineColor() cp.FColor    { return cp.FColor{R: inkOutline} }
func (d *recDrawer) ConstraintColor() cp.FColor { return cp.FColor{R: inkCons} }
func (d *recDrawer) CollisionPointColor() cp.FColor {
	return cp.FColor{R: inkHit}
}
func (d *recDrawer) Data() interface{} { return d }
func (d *recDrawer) ShapeColor(shape *cp.Shape, data interface{}) cp.FColor {
	d.data(data)
	d.shapes = append(d.shapes, shape)
	return cp.FColor{R: float32(inkShape + len(d.shapes))}
}

// evalDraw draws the space and looks at the picture.
func (s *Sim) evalDraw() {
	if !s.on["C26"] || s.noDraw || s.viol != nil || s.inStep && (!s.inPost || s.phase < 1) {
		return
	}
	s.check("draw")
	d := &recDrawer{}
	cp.DrawSpace(s.sp, d)
	if d.bad {
		s.fail("C26", "DrawSpace passed on wrong user data, dot sizes or counts")
		return
	}
	want, got, unk := map[int]bool{}, map[int]int{}, 0
	for _, x := range s.shapesIn() {
		want[x.id] = true
	}
	if len(d.drawn) != len(d.shapes) {
		s.fail("C26", "DrawSpace asked the colors of %d shapes and drew %d", len(d.shapes), len(d.drawn))
		return
	}
	for i, x := range d.shapes {
		m := s.byShp[x]
		if m == nil {
			unk++
			continue
		}
		got[m.id]++
		y := d.drawn[i]
		if y.asked != x || y.f != float32(inkShape+i+1) || y.o != inkOutline || y.kind != m.kind {
			s.fail("C26", "shape %d (kind %d) was drawn as kind %d with colors %v, %v instead of %v, %v", m.id, m.kind, y.kind, y.o, y.f, inkOutline, inkShape+i+1)
			return
		}
		if m.bm.moved || m.dirty {
			continue
		}
		g := s.curGeo(m)
		tol := 1e-9 * (1 + setScale(&g) + vv(m.bm.b.Position()).Len() + m.bm.reach())
		if y.r != m.r || m.kind == 0 && y.a != m.bm.b.Angle() || !sameRing(y.pts, g.P, tol) {
			s.fail("C26", "shape %d was drawn at %v (radius %v, angle %v) instead of %v (%v, %v)", m.id, y.pts, y.r, y.a, g.P, m.r, m.bm.b.Angle())
			return
		}
	}
	s.sameSetOf("C26", "DrawSpace", "shape", got, want, unk)
	// joints
	var dots, lines []drawLine
	for _, c := range s.cOrder {
		if !c.in {
			continue
		}
		w := func(b *BodyM, l V) V { return l.Rot(b.b.Angle()).Add(vv(b.b.Position())) }
		ra, rb := w(c.a, c.la), w(c.b, c.lb)
		switch c.kind {
		case JPin, JSlide, JPivot, JSpring:
			dots = append(dots, drawLine{ra, ra, inkCons}, drawLine{rb, rb, inkCons})
			if c.kind == JPin || c.kind == JSlide {
				lines = append(lines, drawLine{ra, rb, inkCons})
			}
		case JGroove:
			p := w(c.b, V{c.g(4), c.g(5)})
			dots = append(dots, drawLine{p, p, inkCons})
			lines = append(lines, drawLine{w(c.a, V{c.g(0), c.g(1)}), w(c.a, V{c.g(2), c.g(3)}), inkCons})
		}
	}
	if x, ok := takeAll(&d.dots, dots); !ok {
		s.fail("C26", "DrawSpace did not draw the anchor of a joint at %v", x.a)
		return
	}
	if len(d.dots) > 0 {
		s.fail("C26", "DrawSpace drew a dot at %v, where no joint has an anchor", d.dots[0].a)
		return
	}
	if x, ok := takeAll(&d.lines, lines); !ok {
		s.fail("C26", "DrawSpace did not draw a line from %v to %v for a joint", x.a, x.b)
		return
	}
	// springs: curves from anchor to anchor, so that as many lines begin as end everywhere else
	var from, to []V
	for _, c := range s.cOrder {
		if c.in && c.kind == JSpring {
			w := func(b *BodyM, l V) V { return l.Rot(b.b.Angle()).Add(vv(b.b.Position())) }
			from, to = append(from, w(c.b, c.lb)), append(to, w(c.a, c.la))
			s.check("draw-spring")
		}
	}
	if len(from) > 0 {
		n := 0
		for _, l := range d.lines {
			if l.ink != inkCons {
				d.lines[n] = l
				n++
				continue
			}
			from, to = append(from, l.a), append(to, l.b)
		}
		d.lines = d.lines[:n]
		for _, p := range from {
			best, bd := -1, 1e-6*(1+p.Len())
			for i, q := range to {
				if e := q.Sub(p).Len(); e < bd {
					best, bd = i, e
				}
			}
			if best < 0 {
				s.fail("C26", "the lines drawn for the springs are broken at %v; left are %v", p, to)
				return
			}
			to = append(to[:best], to[best+1:]...)
		}
	}
	// contacts
	if s.inStep || s.locked() {
		return // bodies woken now get theirs back later
	}
	var hits []drawLine
	seen := map[[2]*cp.Shape]bool{}
	for _, b := range s.bOrder {
		if !b.in {
			continue
		}
		b.b.EachArbiter(func(arb *cp.Arbiter) {
			x, y := arb.Shapes()
			if x.Body().IsSleeping() || y.Body().IsSleeping() {
				return // put away until they wake
			}
			if seen[[2]*cp.Shape{x, y}] || seen[[2]*cp.Shape{y, x}] {
				return
			}
			seen[[2]*cp.Shape{x, y}] = true
			set := arb.ContactPointSet()
			for i := 0; i < set.Count; i++ {
				p, q := vv(set.Points[i].PointA), vv(set.Points[i].PointB)
				hits = append(hits, drawLine{p.Sub(vv(set.Normal).Mul(2)), q.Add(vv(set.Normal).Mul(2)), inkHit})
			}
		})
	}
	if len(hits) > 0 {
		s.check("draw-contacts")
	}
	s.debugInfo(len(seen), len(hits))
	if x, ok := takeAll(&d.lines, hits); !ok {
		s.fail("C26", "DrawSpace did not draw the contact from %v to %v; left are %v", x.a, x.b, d.lines)
		return
	}
	if len(d.lines) > 0 {
		s.fail("C26", "DrawSpace drew a line from %v to %v (color %v) for nothing", d.lines[0].a, d.lines[0].b, d.lines[0].ink)
	}
}

// takeAll removes the wanted lines, in any direction, from those that are there; it returns the first that is not.
func takeAll(have *[]drawLine, want []drawLine) (drawLine, bool) {
	for _, w := range want {
		best, bd := -1, 1e-6*(1+w.a.Len()+w.b.Len())
		for i, h := range *have {
			if h.ink != w.ink {
				continue
			}
			e := math.Min(h.a.Sub(w.a).Len()+h.b.Sub(w.b).Len(), h.a.Sub(w.b).Len()+h.b.Sub(w.a).Len())
			if e < bd {
				best, bd = i, e
			}
		}
		if best < 0 {
			return w, false
		}
		*have = append((*have)[:best], (*have)[best+1:]...)
	}
	return drawLine{}, true
}

// sameRing compares vertices, wherever the ring of them begins.
func sameRing(a, b []V, tol float64) bool {
	n := len(a)
	if n != len(b) {
		return false
	}
	for k := 0; k < n; k++ {
		ok := true
		for i := 0; i < n && ok; i++ {
			ok = a[i].Sub(b[(i+k)%n]).Len() <= tol
		}
		if ok {
			return n != 2 || k == 0
		}
	}
	return false
}

// debugInfo compares the numbers of DebugInfo with the model's.
func (s *Sim) debugInfo(arbs, points int) {
	var g [9]int
	var ke float64
	text := cp.DebugInfo(s.sp)
	n, err := fmt.Sscanf(text, "Arbiters: %d (%d) - Contact Points: %d (%d)\nOther Constraints: %d, Iterations: %d\nConstraints x Iterations: %d (%d)\nKE: %e", &g[0], &g[1], &g[2], &g[3], &g[4], &g[5], &g[6], &g[7], &ke)
	if n != 9 || err != nil {
		s.fail("C26", "DebugInfo is %q", text)
		return
	}
	s.check("debug-info")
	cons, lo, hi := 0, 0.0, 0.0
	for _, c := range s.cOrder {
		if c.in && !(c.a.typ == DYN && c.a.in && c.a.sleeping() || c.b.typ == DYN && c.b.in && c.b.sleeping()) {
			cons++
		}
	}
	for _, b := range s.bOrder {
		if !b.in || b.typ != DYN || b.sleeping() {
			continue
		}
		x := b.state()
		if x.m >= cp.INFINITY || x.i >= cp.INFINITY {
			continue
		}
		e := x.m*x.v.Dot(x.v) + x.i*x.w*x.w
		lo, hi = lo+e*(1-1e-5), hi+e*(1+1e-5)
	}
	if g[0] != arbs || g[2] != points || g[4] != cons || g[5] != s.iter || g[6] != cons+points*s.iter || g[1] < g[0] || g[3] < g[2] || g[7] < g[6] ||
		ke < lo-1e-9 || ke > hi+1e-9 {
		s.fail("C26", "DebugInfo says %q of a space with %d arbiters, %d contacts, %d awake constraints, %d iterations, kinetic energy (doubled) %g", text, arbs, points, cons, s.iter, (lo+hi)/2)
	}
}
