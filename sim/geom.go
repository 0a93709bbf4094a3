package main

import "math"

// Independent geometry used by the oracles: every shape is a convex core (points, counter-clockwise) plus a radius.

type V struct{ X, Y float64 }

func (a V) Add(b V) V         { return V{a.X + b.X, a.Y + b.Y} }
func (a V) Sub(b V) V         { return V{a.X - b.X, a.Y - b.Y} }
func (a V) Mul(s float64) V   { return V{a.X * s, a.Y * s} }
func (a V) Dot(b V) float64   { return a.X*b.X + a.Y*b.Y }
func (a V) Cross(b V) float64 { return a.X*b.Y - a.Y*b.X }
func (a V) Len() float64      { return math.Hypot(a.X, a.Y) }
func (a V) Perp() V           { return V{-a.Y, a.X} }
func (a V) RPerp() V          { return V{a.Y, -a.X} }
func (a V) Neg() V            { return V{-a.X, -a.Y} }
func (a V) Unit() V {
	l := a.Len()
	if l == 0 {
		return V{}
	}
	return V{a.X / l, a.Y / l}
}
func (a V) Lerp(b V, t float64) V { return V{a.X + (b.X-a.X)*t, a.Y + (b.Y-a.Y)*t} }
func (a V) Rot(ang float64) V {
	c, s := math.Cos(ang), math.Sin(ang)
	return V{a.X*c - a.Y*s, a.X*s + a.Y*c}
}
func fin(fs ...float64) bool {
	for _, f := range fs {
		if math.IsNaN(f) || math.IsInf(f, 0) {
			return false
		}
	}
	return true
}

type Geo struct {
	P []V
	R float64
}

type Box struct{ L, B, R, T float64 }

func (g *Geo) BB() Box {
	b := Box{math.Inf(1), math.Inf(1), math.Inf(-1), math.Inf(-1)}
	for _, p := range g.P {
		b.L = math.Min(b.L, p.X)
		b.R = math.Max(b.R, p.X)
		b.B = math.Min(b.B, p.Y)
		b.T = math.Max(b.T, p.Y)
	}
	return Box{b.L - g.R, b.B - g.R, b.R + g.R, b.T + g.R}
}

// gap is the largest separation of two boxes along the axes (negative if they overlap).
func (a Box) gap(b Box) float64 {
	return math.Max(math.Max(a.L-b.R, b.L-a.R), math.Max(a.B-b.T, b.B-a.T))
}

func (g *Geo) edges() int {
	switch len(g.P) {
	case 1:
		return 0
	case 2:
		return 1
	}
	return len(g.P)
}

func (g *Geo) edge(i int) (V, V) { return g.P[i], g.P[(i+1)%len(g.P)] }

func closestOnSeg(p, a, b V) V {
	d := b.Sub(a)
	l := d.Dot(d)
	if l == 0 {
		return a
	}
	t := p.Sub(a).Dot(d) / l
	if t <= 0 {
		return a
	}
	if t >= 1 {
		return b
	}
	return a.Add(d.Mul(t))
}

func (g *Geo) support(n V) float64 {
	m := math.Inf(-1)
	for _, p := range g.P {
		m = math.Max(m, p.Dot(n))
	}
	return m
}

func (g *Geo) coreContains(p V) bool {
	if len(g.P) < 3 {
		return false
	}
	for i := range g.P {
		a, b := g.edge(i)
		if b.Sub(a).Cross(p.Sub(a)) < 0 {
			return false
		}
	}
	return true
}

// coreClosest returns the closest point of the core's outline and the distance to it.
func (g *Geo) coreClosest(p V) (V, float64) {
	if len(g.P) == 1 {
		return g.P[0], p.Sub(g.P[0]).Len()
	}
	best, bd := V{}, math.Inf(1)
	for i := 0; i < g.edges(); i++ {
		a, b := g.edge(i)
		c := closestOnSeg(p, a, b)
		if d := p.Sub(c).Len(); d < bd {
			best, bd = c, d
		}
	}
	return best, bd
}

// pointDist is the signed distance of p to the surface; cores closest outline point; inside tells whether p is inside the core.
func (g *Geo) pointDist(p V) (dist float64, core V, inside bool) {
	c, d := g.coreClosest(p)
	if g.coreContains(p) {
		return -d - g.R, c, true
	}
	return d - g.R, c, false
}

func segsCross(a, b, c, d V) bool {
	d1 := b.Sub(a).Cross(c.Sub(a))
	d2 := b.Sub(a).Cross(d.Sub(a))
	d3 := d.Sub(c).Cross(a.Sub(c))
	d4 := d.Sub(c).Cross(b.Sub(c))
	return ((d1 > 0 && d2 < 0) || (d1 < 0 && d2 > 0)) && ((d3 > 0 && d4 < 0) || (d3 < 0 && d4 > 0))
}

func coresOverlap(a, b *Geo) bool {
	for _, p := range a.P {
		if b.coreContains(p) {
			return true
		}
	}
	for _, p := range b.P {
		if a.coreContains(p) {
			return true
		}
	}
	for i := 0; i < a.edges(); i++ {
		p, q := a.edge(i)
		for j := 0; j < b.edges(); j++ {
			r, s := b.edge(j)
			if segsCross(p, q, r, s) {
				return true
			}
		}
	}
	return false
}

// Sep describes how two shapes are placed: D is the signed distance (negative: minimal translation to separate them),
// N the direction (from a to b) of the shortest such translation. Gap2 tells how well N is determined: how much longer
// the second-best direction is when the cores overlap, the distance of the cores otherwise.
type Sep struct {
	D    float64
	N    V
	Gap2 float64
}

func separation(a, b *Geo) Sep {
	r := a.R + b.R
	if !coresOverlap(a, b) {
		best := math.Inf(1)
		var n V
		for _, p := range a.P {
			c, d := b.coreClosest(p)
			if d < best {
				best, n = d, c.Sub(p)
			}
		}
		for _, p := range b.P {
			c, d := a.coreClosest(p)
			if d < best {
				best, n = d, p.Sub(c)
			}
		}
		return Sep{best - r, n.Unit(), best}
	}
	best, second := math.Inf(-1), math.Inf(-1)
	var bn V
	try := func(n V) {
		// separation of b from a along n (n points out of a)
		s := -b.support(n.Neg()) - a.support(n)
		if s > best {
			if n.Sub(bn).Len() > 1e-6 {
				second = best
			}
			best, bn = s, n
		} else if s > second && n.Sub(bn).Len() > 1e-6 {
			second = s
		}
	}
	axes := func(g *Geo, flip bool) {
		for i := 0; i < g.edges(); i++ {
			p, q := g.edge(i)
			n := q.Sub(p).RPerp().Unit()
			if flip {
				n = n.Neg()
			}
			try(n)
			if len(g.P) == 2 {
				try(n.Neg())
			}
		}
	}
	axes(a, false)
	axes(b, true)
	return Sep{best - r, bn, best - second}
}

// rayHit finds where a disc of radius r2 moving from a to b first touches the shape, if it starts outside it.
// margin is the least signed distance reached along the way (ambiguous if it is about zero).
func (g *Geo) rayHit(a, b V, r2 float64) (hit bool, t float64, n V, margin float64) {
	R := g.R + r2
	if len(g.P) == 2 && R == 0 {
		// zero thickness: line against line
		p, q := g.P[0], g.P[1]
		d, e := b.Sub(a), q.Sub(p)
		den := d.Cross(e)
		if den == 0 {
			return false, 0, V{}, 0
		}
		t = p.Sub(a).Cross(e) / den
		u := p.Sub(a).Cross(d) / den
		// margin: how far inside both segments the crossing is, in length units
		in := math.Min(math.Min(t, 1-t)*d.Len(), math.Min(u, 1-u)*e.Len())
		n = e.RPerp().Unit()
		if n.Dot(d) > 0 {
			n = n.Neg()
		}
		return in > 0, t, n, -in
	}
	f := func(t float64) float64 {
		p := a.Lerp(b, t)
		d, _, _ := g.pointDist(p)
		return d - r2
	}
	lo, hi := 0.0, 1.0
	for i := 0; i < 200; i++ {
		m1 := lo + (hi-lo)*0.381966
		m2 := lo + (hi-lo)*0.618034
		if f(m1) <= f(m2) {
			hi = m2
		} else {
			lo = m1
		}
		if hi-lo < 1e-15 {
			break
		}
	}
	tm := (lo + hi) / 2
	fm := f(tm)
	if e := f(0); e < fm {
		tm, fm = 0, e
	}
	if e := f(1); e < fm {
		tm, fm = 1, e
	}
	if fm > 0 {
		return false, 0, V{}, fm
	}
	lo, hi = 0, tm
	for i := 0; i < 100; i++ {
		m := (lo + hi) / 2
		if f(m) > 0 {
			lo = m
		} else {
			hi = m
		}
	}
	t = hi
	p := a.Lerp(b, t)
	_, c, inside := g.pointDist(p)
	n = p.Sub(c)
	if inside {
		n = n.Neg()
	}
	if n.Len() < 1e-7 {
		// sharp hit on a core outline: normal of the edge hit
		best := math.Inf(1)
		for i := 0; i < g.edges(); i++ {
			x, y := g.edge(i)
			cc := closestOnSeg(p, x, y)
			if d := p.Sub(cc).Len(); d < best-1e-9 {
				best = d
				n = y.Sub(x).RPerp()
			}
		}
	}
	return true, t, n.Unit(), fm
}

// area and centroid of a polygon (counter-clockwise positive)
func polyArea(p []V) float64 {
	s := 0.0
	for i := range p {
		s += p[i].Cross(p[(i+1)%len(p)])
	}
	return s / 2
}
func polyPerimeter(p []V) float64 {
	s := 0.0
	for i := range p {
		s += p[(i+1)%len(p)].Sub(p[i]).Len()
	}
	return s
}
func polyCentroid(p []V) V {
	var c V
	a := 0.0
	o := p[0]
	for i := range p {
		x, y := p[i].Sub(o), p[(i+1)%len(p)].Sub(o)
		k := x.Cross(y)
		a += k
		c = c.Add(x.Add(y).Mul(k))
	}
	return o.Add(c.Mul(1 / (3 * a)))
}

// second moment per unit mass about the centroid
func polyInertia(p []V) float64 {
	c := polyCentroid(p)
	num, den := 0.0, 0.0
	for i := range p {
		x, y := p[i].Sub(c), p[(i+1)%len(p)].Sub(c)
		k := x.Cross(y)
		num += k * (x.Dot(x) + x.Dot(y) + y.Dot(y))
		den += k
	}
	return num / (6 * den)
}
