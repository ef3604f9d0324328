package main

import (
	"math"

	"github.com/aligator/goslice/data"
)

// P is a point in micrometres. JSON: [x, y].
type P [2]int64

// F is a float point in micrometres.
type F struct{ X, Y float64 }

func (p P) F() F { return F{float64(p[0]), float64(p[1])} }

func (a F) Sub(b F) F         { return F{a.X - b.X, a.Y - b.Y} }
func (a F) Add(b F) F         { return F{a.X + b.X, a.Y + b.Y} }
func (a F) Mul(k float64) F   { return F{a.X * k, a.Y * k} }
func (a F) Dot(b F) float64   { return a.X*b.X + a.Y*b.Y }
func (a F) Cross(b F) float64 { return a.X*b.Y - a.Y*b.X }
func (a F) Len() float64      { return math.Hypot(a.X, a.Y) }
func (a F) Dist(b F) float64  { return a.Sub(b).Len() }

// Seg is a line segment.
type Seg struct{ A, B F }

func (s Seg) Dist(p F) float64 {
	d := s.B.Sub(s.A)
	l2 := d.Dot(d)
	if l2 == 0 {
		return p.Dist(s.A)
	}
	t := p.Sub(s.A).Dot(d) / l2
	if t < 0 {
		t = 0
	} else if t > 1 {
		t = 1
	}
	return p.Dist(s.A.Add(d.Mul(t)))
}

func (s Seg) Len() float64 { return s.A.Dist(s.B) }

// At returns the point at parameter t.
func (s Seg) At(t float64) F { return s.A.Add(s.B.Sub(s.A).Mul(t)) }

// segDist is the distance between two segments.
func segDist(a, b Seg) float64 {
	if segCross(a, b) {
		return 0
	}
	return math.Min(math.Min(a.Dist(b.A), a.Dist(b.B)), math.Min(b.Dist(a.A), b.Dist(a.B)))
}

func orient(a, b, c F) float64 { return b.Sub(a).Cross(c.Sub(a)) }

// segCross reports a proper crossing.
func segCross(s, t Seg) bool {
	d1, d2 := orient(t.A, t.B, s.A), orient(t.A, t.B, s.B)
	d3, d4 := orient(s.A, s.B, t.A), orient(s.A, s.B, t.B)
	return ((d1 > 0 && d2 < 0) || (d1 < 0 && d2 > 0)) && ((d3 > 0 && d4 < 0) || (d3 < 0 && d4 > 0))
}

// Region is a set of closed curves given by loose segments; inside is decided
// by the even-odd rule.
type Region struct {
	Segs []Seg
}

func (r Region) Inside(p F) bool {
	in := false
	for _, s := range r.Segs {
		if (s.A.Y > p.Y) != (s.B.Y > p.Y) {
			x := s.A.X + (p.Y-s.A.Y)/(s.B.Y-s.A.Y)*(s.B.X-s.A.X)
			if x > p.X {
				in = !in
			}
		}
	}
	return in
}

// Dist is the distance to the nearest boundary segment.
func (r Region) Dist(p F) float64 {
	best := math.Inf(1)
	for _, s := range r.Segs {
		if d := s.Dist(p); d < best {
			best = d
		}
	}
	return best
}

// Bounds of all segments.
func (r Region) Bounds() (min, max F) {
	min, max = F{math.Inf(1), math.Inf(1)}, F{math.Inf(-1), math.Inf(-1)}
	for _, s := range r.Segs {
		for _, p := range []F{s.A, s.B} {
			min.X, min.Y = math.Min(min.X, p.X), math.Min(min.Y, p.Y)
			max.X, max.Y = math.Max(max.X, p.X), math.Max(max.Y, p.Y)
		}
	}
	return
}

func (r *Region) AddLoop(pts []F) {
	for i := range pts {
		r.Segs = append(r.Segs, Seg{pts[i], pts[(i+1)%len(pts)]})
	}
}

func (r *Region) AddPath(p data.Path) { r.AddLoop(pathF(p)) }

func pathF(p data.Path) []F {
	out := make([]F, len(p))
	for i, q := range p {
		out[i] = F{float64(q.X()), float64(q.Y())}
	}
	return out
}

// partsRegion is the even-odd region of layer parts (outline and holes).
func partsRegion(parts []data.LayerPart) Region {
	var r Region
	for _, p := range parts {
		r.AddPath(p.Outline())
		for _, h := range p.Holes() {
			r.AddPath(h)
		}
	}
	return r
}

func signedArea(p data.Path) float64 {
	pts := pathF(p)
	return areaF(pts)
}

func areaF(pts []F) float64 {
	s := 0.0
	for i := range pts {
		s += pts[i].Cross(pts[(i+1)%len(pts)])
	}
	return s / 2
}

func partsArea(parts []data.LayerPart) float64 {
	a := 0.0
	for _, p := range parts {
		a += math.Abs(signedArea(p.Outline()))
		for _, h := range p.Holes() {
			a -= math.Abs(signedArea(h))
		}
	}
	return a
}

func toPath(pts []P) data.Path {
	out := make(data.Path, len(pts))
	for i, p := range pts {
		out[i] = data.NewMicroPoint(data.Micrometer(p[0]), data.Micrometer(p[1]))
	}
	return out
}

func fromPath(p data.Path) []P {
	out := make([]P, len(p))
	for i, q := range p {
		out[i] = P{int64(q.X()), int64(q.Y())}
	}
	return out
}

// lcg is a tiny deterministic sequence used only to place sample points; its
// start value is part of the case, so a case replays exactly.
type lcg uint64

func (l *lcg) next() uint64 {
	*l = *l*6364136223846793005 + 1442695040888963407
	return uint64(*l >> 11)
}
func (l *lcg) float() float64 { return float64(l.next()&(1<<40-1)) / float64(uint64(1)<<40) }

// probes returns sample points for comparing regions: uniform points in the
// (slightly enlarged) bounding box and points beside random boundary segments
// at exactly the given distances.
func probes(seed uint64, nUniform, nEdge int, dists []float64, regions ...Region) []F {
	l := lcg(seed*2654435761 + 12345)
	l.next()
	var all []Seg
	for _, r := range regions {
		all = append(all, r.Segs...)
	}
	if len(all) == 0 {
		return nil
	}
	min, max := Region{all}.Bounds()
	w, h := max.X-min.X, max.Y-min.Y
	var out []F
	for i := 0; i < nUniform; i++ {
		out = append(out, F{min.X - 0.1*w + 1.2*w*l.float(), min.Y - 0.1*h + 1.2*h*l.float()})
	}
	for i := 0; i < nEdge; i++ {
		s := all[int(l.next()%uint64(len(all)))]
		d := s.B.Sub(s.A)
		if d.Len() == 0 {
			continue
		}
		n := F{-d.Y, d.X}.Mul(1 / d.Len())
		q := s.At(l.float())
		dist := dists[int(l.next()%uint64(len(dists)))]
		out = append(out, q.Add(n.Mul(dist)), q.Sub(n.Mul(dist)))
	}
	return out
}

// sincos of the k-th of n directions, turned by phase milliradians.
func sincos(k, n int, phase int64) (float64, float64) {
	return math.Sincos(2*math.Pi*float64(k)/float64(n) + float64(phase)/1000)
}
