package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/data"
)

// crossDepth is how far two crossing segments reach beyond each other (0 if
// they do not cross): the smallest distance of one of the four end points to
// the other segment.
func crossDepth(a, b Seg) float64 {
	if !segCross(a, b) {
		return 0
	}
	return math.Min(math.Min(a.Dist(b.A), a.Dist(b.B)), math.Min(b.Dist(a.A), b.Dist(a.B)))
}

func loopSegs(p []F) []Seg {
	var r Region
	r.AddLoop(p)
	return r.Segs
}

func insideLoop(p []F, q F) bool {
	return Region{loopSegs(p)}.Inside(q)
}

func bbox(p []F) (min, max F) { return Region{loopSegs(p)}.Bounds() }

const roundTol = 3 // um, rounding of the integer grid

// deepPoint returns the vertex of p which is farthest from the boundary r.
func deepPoint(p []F, r Region) (F, float64) {
	best, at := -1.0, F{}
	for i, q := range p {
		for _, c := range []F{q, q.Add(p[(i+1)%len(p)]).Mul(0.5)} {
			if d := r.Dist(c); d > best {
				best, at = d, c
			}
		}
	}
	return at, best
}

// wellFormed checks orientation, nesting and separation of layer parts.
func wellFormed(parts []data.LayerPart) error {
	type loop struct {
		pts  []F
		part int
		hole bool
		min  F
		max  F
	}
	var loops []loop
	for i, p := range parts {
		add := func(path data.Path, hole bool) error {
			pts := pathF(path)
			what := "outline"
			if hole {
				what = "hole"
			}
			if len(pts) < 3 {
				return fmt.Errorf("part %d has an %s of %d points: %v", i, what, len(pts), fromPath(path))
			}
			a := areaF(pts)
			// the rounding may turn slivers around
			sliver := math.Abs(a) <= roundTol*Region{loopSegs(pts)}.length()
			if !sliver && (a > 0) == hole {
				return fmt.Errorf("the %s of part %d is oriented the wrong way round (area %.0f): %v", what, i, a, fromPath(path))
			}
			min, max := bbox(pts)
			loops = append(loops, loop{pts, i, hole, min, max})
			return nil
		}
		if err := add(p.Outline(), false); err != nil {
			return err
		}
		for _, h := range p.Holes() {
			if err := add(h, true); err != nil {
				return err
			}
		}
	}
	for i := range loops {
		for j := i; j < len(loops); j++ {
			a, b := &loops[i], &loops[j]
			if a.min.X > b.max.X || b.min.X > a.max.X || a.min.Y > b.max.Y || b.min.Y > a.max.Y {
				continue
			}
			sa, sb := loopSegs(a.pts), loopSegs(b.pts)
			for x, s := range sa {
				for y, t := range sb {
					if i == j && y <= x {
						continue
					}
					if crossDepth(s, t) > roundTol {
						return fmt.Errorf("the curves of part %d and part %d cross at %v and %v", a.part, b.part, s, t)
					}
				}
			}
		}
	}
	for i := range loops {
		for j := range loops {
			a, b := &loops[i], &loops[j]
			if i == j {
				continue
			}
			if a.part == b.part && a.hole && !b.hole {
				// a hole lies inside of its outline
				r := Region{loopSegs(b.pts)}
				for _, q := range a.pts {
					if !r.Inside(q) && r.Dist(q) > roundTol {
						return fmt.Errorf("a hole of part %d reaches outside of the outline at %v", a.part, q)
					}
				}
			}
			if a.part == b.part && a.hole && b.hole {
				r := Region{loopSegs(b.pts)}
				if q, d := deepPoint(a.pts, r); d > roundTol && r.Inside(q) {
					return fmt.Errorf("the holes of part %d overlap at %v", a.part, q)
				}
			}
		}
	}
	for i := range parts {
		ri := partsRegion(parts[i : i+1])
		for j := range parts {
			if i == j {
				continue
			}
			q, d := deepPoint(pathF(parts[j].Outline()), ri)
			if d > roundTol && ri.Inside(q) {
				return fmt.Errorf("part %d and part %d overlap at %v", i, j, q)
			}
		}
	}
	return nil
}

func (r Region) length() float64 {
	l := 0.0
	for _, s := range r.Segs {
		l += s.Len()
	}
	return l
}

// components groups the segments of a region into connected curves.
func (r Region) components() []Region {
	id := map[F]int{}
	parent := []int{}
	var find func(i int) int
	find = func(i int) int {
		for parent[i] != i {
			parent[i] = parent[parent[i]]
			i = parent[i]
		}
		return i
	}
	node := func(p F) int {
		if i, ok := id[p]; ok {
			return i
		}
		id[p] = len(parent)
		parent = append(parent, len(parent))
		return id[p]
	}
	for _, s := range r.Segs {
		a, b := find(node(s.A)), find(node(s.B))
		parent[a] = b
	}
	idx := map[int]int{}
	var out []Region
	for _, s := range r.Segs {
		root := find(node(s.A))
		k, ok := idx[root]
		if !ok {
			k = len(out)
			idx[root] = k
			out = append(out, Region{})
		}
		out[k].Segs = append(out[k].Segs, s)
	}
	return out
}

// inBounds tells whether p is in the region's bounding box enlarged by m.
func (r Region) inBounds(p F, m float64) bool {
	min, max := r.Bounds()
	return p.X >= min.X-m && p.X <= max.X+m && p.Y >= min.Y-m && p.Y <= max.Y+m
}

func clonePart(p data.LayerPart) data.LayerPart {
	var holes data.Paths
	for _, h := range p.Holes() {
		holes = append(holes, toPath(fromPath(h)))
	}
	return data.NewBasicLayerPart(toPath(fromPath(p.Outline())), holes)
}

func cloneParts(ps []data.LayerPart) []data.LayerPart {
	var out []data.LayerPart
	for _, p := range ps {
		out = append(out, clonePart(p))
	}
	return out
}

// sameParts reports whether two part lists are identical.
func sameParts(a, b []data.LayerPart) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !eqPts(fromPath(a[i].Outline()), fromPath(b[i].Outline())) || len(a[i].Holes()) != len(b[i].Holes()) {
			return false
		}
		for j := range a[i].Holes() {
			if !eqPts(fromPath(a[i].Holes()[j]), fromPath(b[i].Holes()[j])) {
				return false
			}
		}
	}
	return true
}
