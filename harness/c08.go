package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"pgregory.net/rapid"
)

// partSpec describes a part: a star-shaped outline, optionally with a hole and
// an island (another part) in it, or rectangles of the same kind.
type partSpec struct {
	C      P       `json:"c"`
	R      []int64 `json:"r"` // radii; two values: half sizes of a rectangle
	Phase  int64   `json:"phase,omitempty"`
	Hole   int64   `json:"hole,omitempty"`   // percent, 0: none
	Island int64   `json:"island,omitempty"` // percent, 0: none
	Spread int64   `json:"spread,omitempty"` // holes beside each other instead of one
	// Beads > 1: the rectangle is a chain of so many pieces, connected by necks of Neck percent of its height
	Beads int64 `json:"beads,omitempty"`
	Neck  int64 `json:"neck,omitempty"`
}

func (s partSpec) loop(pct int64) []P {
	if len(s.R) == 2 {
		x, y := s.R[0]*pct/100, s.R[1]*pct/100
		if s.Beads > 1 && pct == 100 {
			return s.chain()
		}
		return []P{{s.C[0] - x, s.C[1] - y}, {s.C[0] + x, s.C[1] - y}, {s.C[0] + x, s.C[1] + y}, {s.C[0] - x, s.C[1] + y}}
	}
	var out []P
	for k, r := range s.R {
		sin, cos := sincos(k, len(s.R), s.Phase)
		f := float64(r) * float64(pct) / 100
		out = append(out, P{s.C[0] + int64(math.Round(f*cos)), s.C[1] + int64(math.Round(f*sin))})
	}
	return out
}

func (s partSpec) chain() []P {
	var low []P
	n := s.R[1] * s.Neck / 100
	for i := int64(0); i < s.Beads; i++ {
		a := s.C[0] - s.R[0] + 2*s.R[0]*i/s.Beads
		b := s.C[0] - s.R[0] + 2*s.R[0]*(i+1)/s.Beads
		if i > 0 {
			a += s.R[0] / s.Beads / 4
			low = append(low, P{a, s.C[1] - n})
		}
		low = append(low, P{a, s.C[1] - s.R[1]})
		if i < s.Beads-1 {
			b -= s.R[0] / s.Beads / 4
			low = append(low, P{b, s.C[1] - s.R[1]}, P{b, s.C[1] - n})
		} else {
			low = append(low, P{b, s.C[1] - s.R[1]})
		}
	}
	out := append([]P(nil), low...)
	for i := len(low) - 1; i >= 0; i-- {
		out = append(out, P{low[i][0], 2*s.C[1] - low[i][1]})
	}
	return out
}

func reversed(p []P) []P {
	out := make([]P, len(p))
	for i := range p {
		out[len(p)-1-i] = p[i]
	}
	return out
}

func (s partSpec) parts() []data.LayerPart {
	var holes data.Paths
	if s.Beads > 1 {
		s.Hole = 0
	}
	if s.Hole > 0 && s.Spread > 2 && len(s.R) == 2 {
		// a grid of holes
		cols := int64(2 + s.Spread/5)
		rows := (s.Spread + cols - 1) / cols
		w, h := s.R[0]*2/cols, s.R[1]*2/rows
		x, y := w*s.Hole/200, h*s.Hole/200
		for i := int64(0); i < s.Spread; i++ {
			cx, cy := s.C[0]-s.R[0]+w/2+i%cols*w, s.C[1]-s.R[1]+h/2+i/cols*h
			holes = append(holes, toPath(reversed([]P{{cx - x, cy - y}, {cx + x, cy - y}, {cx + x, cy + y}, {cx - x, cy + y}})))
		}
	} else if s.Hole > 0 && s.Spread > 0 && len(s.R) == 2 {
		// two holes beside each other
		x, y := s.R[0]*s.Hole/200, s.R[1]*s.Hole/100
		for _, cx := range []int64{s.C[0] - s.R[0]/2, s.C[0] + s.R[0]/2} {
			holes = append(holes, toPath(reversed([]P{{cx - x, s.C[1] - y}, {cx + x, s.C[1] - y}, {cx + x, s.C[1] + y}, {cx - x, s.C[1] + y}})))
		}
	} else if s.Hole > 0 {
		holes = append(holes, toPath(reversed(s.loop(s.Hole))))
	}
	out := []data.LayerPart{data.NewBasicLayerPart(toPath(s.loop(100)), holes)}
	if s.Hole > 0 && s.Island > 0 && s.Spread == 0 {
		out = append(out, data.NewBasicLayerPart(toPath(s.loop(s.Island)), nil))
	}
	if curTweak != nil {
		for i, p := range out {
			var holes data.Paths
			for _, h := range p.Holes() {
				holes = append(holes, tweakPath(h))
			}
			out[i] = data.NewBasicLayerPart(tweakPath(p.Outline()), holes)
		}
	}
	return out
}

func tweakPath(p data.Path) data.Path {
	pts := fromPath(p)
	for i, q := range pts {
		pts[i][0], pts[i][1] = curTweak.apply(q[0], q[1])
	}
	return toPath(pts)
}

func specParts(ss []partSpec) []data.LayerPart {
	var out []data.LayerPart
	for _, s := range ss {
		out = append(out, s.parts()...)
	}
	return out
}

// genSpec draws one part with an extent of about r around c.
func genSpec(t *rapid.T, c P, r int64, allowRect bool) partSpec {
	s := partSpec{C: c}
	if allowRect && rapid.Bool().Draw(t, "rect") {
		s.R = []int64{r * rapid.Int64Range(2, 10).Draw(t, "hx") / 10, r * rapid.Int64Range(2, 10).Draw(t, "hy") / 10}
		s.Spread = rapid.Int64Range(0, 1).Draw(t, "twoholes")
		if min64(s.R[0], s.R[1]) > 800 && rapid.IntRange(0, 3).Draw(t, "grid") == 0 {
			s.Spread = rapid.Int64Range(3, 9).Draw(t, "holes")
			if min64(s.R[0], s.R[1]) > 3000 && rapid.IntRange(0, 3).Draw(t, "manyholes") == 0 {
				s.Spread = rapid.Int64Range(10, 25).Draw(t, "holes2")
			}
		}
		if s.R[0] > 1500 && rapid.IntRange(0, 7).Draw(t, "chain") == 0 {
			s.Spread, s.Beads = 0, rapid.Int64Range(2, max64(2, min64(10, s.R[0]/400))).Draw(t, "beads")
			s.Neck = rapid.Int64Range(max64(2, 5000/s.R[1]+1), max64(40, 6000/s.R[1])).Draw(t, "neck")
			if s.Neck > 90 {
				s.Beads = 0
			}
			return s
		}
	} else {
		n := rapid.IntRange(3, 10).Draw(t, "n")
		s.Phase = rapid.Int64Range(0, 6283).Draw(t, "phase")
		if r > 2000 && rapid.IntRange(0, 19).Draw(t, "round") == 0 {
			// nearly round, with many points
			n *= rapid.IntRange(4, 20).Draw(t, "times")
			base := rapid.SliceOfN(rapid.Int64Range(r*97/100, r), 5, 5).Draw(t, "radii")
			for k := 0; k < n; k++ {
				s.R = append(s.R, base[k%5])
			}
			n = 0
		}
		lo := r / 2
		if rapid.IntRange(0, 2).Draw(t, "spiky") == 0 {
			lo = r / 4
		}
		for k := 0; k < n; k++ {
			s.R = append(s.R, rapid.Int64Range(lo, r).Draw(t, "r"))
		}
	}
	if rapid.Bool().Draw(t, "hole") {
		s.Hole = rapid.Int64Range(30, 80).Draw(t, "holesize")
		if rapid.Bool().Draw(t, "island") {
			s.Island = rapid.Int64Range(10, s.Hole*3/4).Draw(t, "islandsize")
		}
	}
	return s
}

// uneven adds points on and up to a few micrometres beside the edges, many of them next to corners, like slicing does.
func uneven(t *rapid.T, ps []P) []P {
	var out []P
	for i, p := range ps {
		q := ps[(i+1)%len(ps)]
		out = append(out, p)
		l := math.Hypot(float64(q[0]-p[0]), float64(q[1]-p[1]))
		if l < 1000 {
			continue
		}
		at := []float64{}
		if rapid.IntRange(0, 2).Draw(t, "start") == 0 {
			at = append(at, float64(rapid.Int64Range(4, 30).Draw(t, "s"))/l)
		}
		if rapid.IntRange(0, 1).Draw(t, "mid") == 0 {
			at = append(at, float64(rapid.Int64Range(5, 95).Draw(t, "m"))/100)
		}
		if rapid.IntRange(0, 2).Draw(t, "end") == 0 {
			at = append(at, 1-float64(rapid.Int64Range(4, 30).Draw(t, "e"))/l)
		}
		for _, f := range at {
			out = append(out, P{
				p[0] + int64(math.Round(float64(q[0]-p[0])*f)),
				p[1] + int64(math.Round(float64(q[1]-p[1])*f)),
			})
		}
	}
	return out
}

// genSpecs draws disjoint parts on a grid.
func genSpecs(t *rapid.T, label string, min, max int, o P, pitch int64) []partSpec {
	n := rapid.IntRange(min, max).Draw(t, label)
	if max > 3 && rapid.IntRange(0, 19).Draw(t, "many") == 0 {
		n = rapid.IntRange(max, 14).Draw(t, label)
	}
	var out []partSpec
	for i := 0; i < n; i++ {
		c := P{o[0] + int64(i%2)*pitch, o[1] + int64(i/2)*pitch}
		out = append(out, genSpec(t, c, pitch*45/100, true))
	}
	return out
}

type opCase struct {
	A    []partSpec `json:"a"`
	B    []partSpec `json:"b"`
	Seed uint64     `json:"seed"`
	// Empty: no parts are given as an empty list instead of a missing one
	Empty bool `json:"empty,omitempty"`
}

type insetCase struct {
	Part    partSpec `json:"part"`
	Offset  int64    `json:"offset"`
	Count   int      `json:"count"`
	Initial int64    `json:"initial"`
	Seed    uint64   `json:"seed"`
}

// corner is a boundary vertex with its turn: convex from inside the area or not.
type corner struct {
	p      F
	convex bool
}

func cornersOf(part data.LayerPart) []corner {
	var out []corner
	add := func(p []F, hole bool) {
		ccw := areaF(p) > 0
		for i := range p {
			a, b, c := p[(i+len(p)-1)%len(p)], p[i], p[(i+1)%len(p)]
			left := orient(a, b, c) > 0
			// walking counter-clockwise around an outline a left turn is convex
			out = append(out, corner{b, (left == ccw) != hole})
		}
	}
	add(pathF(part.Outline()), false)
	for _, h := range part.Holes() {
		add(pathF(h), true)
	}
	return out
}

// offsetExpected tells whether p must be in (1), must not be in (-1) the area
// of the part moved by off (positive: enlarged), or is too near to say (0).
func offsetExpected(r Region, corners []corner, off float64, p F, tol float64) int {
	d := r.Dist(p)
	in := r.Inside(p)
	signed := d // positive: outside
	if in {
		signed = -d
	}
	lim := math.Sqrt2*math.Abs(off) + tol
	switch {
	case off >= 0:
		if signed < off-tol {
			return 1
		}
		if signed < off+tol {
			return 0
		}
		for _, c := range corners {
			if c.convex && c.p.Dist(p) <= lim {
				return 0
			}
		}
		return -1
	default:
		if signed > off+tol {
			return -1
		}
		if signed > off-tol {
			return 0
		}
		for _, c := range corners {
			if !c.convex && c.p.Dist(p) <= lim {
				return 0
			}
		}
		return 1
	}
}

func init() {
	Register("C08", "operations", 4000, 120000,
		"two sets of 0..4 disjoint parts with holes and islands, 1..400 mm, overlapping, equal, touching along edges or apart; union, intersection and difference compared pointwise with the set operations, farther than 3 um from all boundaries; non-trivial: both sets non-empty and at least 50 points compared",
		func(t *rapid.T) opCase {
			k := opCase{Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed"), Empty: rapid.Bool().Draw(t, "empty")}
			pitch := rapid.SampledFrom([]int64{2000, 10000, 50000, 200000}).Draw(t, "pitch")
			o := P{rapid.Int64Range(-200000, 200000).Draw(t, "ox"), rapid.Int64Range(-200000, 200000).Draw(t, "oy")}
			k.A = genSpecs(t, "a", 0, 4, o, pitch)
			switch rapid.IntRange(0, 4).Draw(t, "relation") {
			case 0: // equal or shifted copies
				k.B = append([]partSpec(nil), k.A...)
				f := rapid.SampledFrom([]int64{0, 0, 1, 10, 20, 45, 90}).Draw(t, "shift")
				for i := range k.B {
					k.B[i].C[rapid.IntRange(0, 1).Draw(t, "axis")] += pitch * f / 100
				}
			case 1: // parts of one operand overlap each other
				k.B = append(genSpecs(t, "b", 1, 3, o, pitch), genSpecs(t, "b2", 1, 2, P{o[0] + pitch*rapid.Int64Range(0, 100).Draw(t, "sx")/100, o[1]}, pitch)...)
			default:
				s := P{o[0] + pitch*rapid.Int64Range(-100, 100).Draw(t, "sx")/100, o[1] + pitch*rapid.Int64Range(-100, 100).Draw(t, "sy")/100}
				k.B = genSpecs(t, "b", 0, 4, s, pitch)
			}
			switch rapid.IntRange(0, 9).Draw(t, "alone") {
			case 0: // all of them, possibly overlapping, in one operand
				k.A, k.B = append(k.A, k.B...), nil
			case 1:
				k.A, k.B = nil, append(k.A, k.B...)
			}
			return k
		},
		func(c *Ctx, k opCase) error {
			a, b := specParts(k.A), specParts(k.B)
			if k.Empty {
				a, b = append([]data.LayerPart{}, a...), append([]data.LayerPart{}, b...)
			}
			ca, cb := cloneParts(a), cloneParts(b)
			ra, rb := partsRegion(a), partsRegion(b)
			// parts of one operand may overlap each other
			inAny := func(ps []data.LayerPart, p F) bool {
				for i := range ps {
					if partsRegion(ps[i : i+1]).Inside(p) {
						return true
					}
				}
				return false
			}
			cl := clip.NewClipper()
			ops := []struct {
				name string
				run  func(a, b []data.LayerPart) ([]data.LayerPart, bool)
				want func(a, b bool) bool
			}{
				{"union", cl.Union, func(a, b bool) bool { return a || b }},
				{"intersection", cl.Intersection, func(a, b bool) bool { return a && b }},
				{"difference", cl.Difference, func(a, b bool) bool { return a && !b }},
			}
			n := 0
			for i, op := range ops {
				got, ok := op.run(a, b)
				if !ok {
					return fmt.Errorf("%s failed", op.name)
				}
				if !sameParts(a, ca) || !sameParts(b, cb) {
					return fmt.Errorf("%s modified its operands", op.name)
				}
				if err := wellFormed(got); err != nil {
					return fmt.Errorf("%s: %w", op.name, err)
				}
				rg := partsRegion(got)
				for _, p := range probes(k.Seed+uint64(i), 50, 60, []float64{4, 10, 200}, ra, rb, rg) {
					if ra.Dist(p) < 3 || rb.Dist(p) < 3 {
						continue
					}
					n++
					inA, inB := inAny(a, p), inAny(b, p)
					if w := op.want(inA, inB); w != rg.Inside(p) {
						return fmt.Errorf("%s: point %.1f/%.1f is in A: %v, in B: %v, in the result: %v (%v)", op.name, p.X, p.Y, inA, inB, rg.Inside(p), dumpParts(got))
					}
					in := 0
					for j := range got {
						if partsRegion(got[j : j+1]).Inside(p) {
							in++
						}
					}
					if in > 1 {
						return fmt.Errorf("%s: point %.1f/%.1f is in %d parts of the result", op.name, p.X, p.Y, in)
					}
				}
			}
			if len(a) > 0 && len(b) > 0 && n > 50 {
				c.NonTrivial()
			}
			c.LabelIf(len(a) == 0 || len(b) == 0, "an empty operand")
			return nil
		})

	genInset := func(t *rapid.T) insetCase {
		k := insetCase{Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
		r := rapid.SampledFrom([]int64{1000, 4000, 20000, 150000}).Draw(t, "r")
		k.Part = genSpec(t, P{rapid.Int64Range(-200000, 200000).Draw(t, "ox"), rapid.Int64Range(-200000, 200000).Draw(t, "oy")}, r, true)
		k.Part.Island = 0
		k.Offset = rapid.Int64Range(-1000, 1000).Draw(t, "offset")
		if k.Offset == 0 {
			k.Offset = 400
		}
		k.Count = few(t, "count", 0, 6, 40)
		k.Initial = rapid.Int64Range(-1500, 1500).Draw(t, "initial")
		if rapid.IntRange(0, 19).Draw(t, "far") == 0 {
			k.Initial *= 20
			k.Count = min(k.Count, 8)
		}
		return k
	}
	Register("C09", "offset", 3000, 80000,
		"parts of 1..150 mm with 0..2 holes, steps of -1..1 mm, initial shifts, 0..6 results; each result compared pointwise with the distance to the part's boundary (not at squared corners), 5 um tolerance; non-trivial: a result with 20 compared points",
		genInset,
		func(c *Ctx, k insetCase) error {
			part := k.Part.parts()[0]
			keep := clonePart(part)
			res := clip.NewClipper().Inset(part, data.Micrometer(k.Offset), k.Count, data.Micrometer(k.Initial))
			if !sameParts([]data.LayerPart{part}, []data.LayerPart{keep}) {
				return fmt.Errorf("the part was modified")
			}
			return checkOffsets(c, part, res, k)
		})
	type acuteCase struct {
		Outline []P    `json:"outline"`
		Offset  int64  `json:"offset"`
		Count   int    `json:"count"`
		Initial int64  `json:"initial"`
		Seed    uint64 `json:"seed"`
	}
	Register("C09", "acute", 24000, 600000,
		"stars and needles of 1..100 mm with corners of less than a degree up to 60 degrees, many with further points on their edges (rounded to whole micrometres); compared like above; non-trivial: a result with 20 compared points",
		func(t *rapid.T) acuteCase {
			k := acuteCase{Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
			in := genInset(t)
			k.Offset, k.Count, k.Initial = in.Offset, in.Count, in.Initial
			o := P{rapid.Int64Range(-200000, 200000).Draw(t, "ox"), rapid.Int64Range(-200000, 200000).Draw(t, "oy")}
			flat := rapid.IntRange(0, 3).Draw(t, "uneven") > 0
			waist := int64(2)
			if flat {
				waist = 30 // no needles
			}
			star := func(r int64) []P {
				n := rapid.IntRange(2, 6).Draw(t, "tips")
				phase := rapid.Int64Range(0, 6283).Draw(t, "phase")
				var out []P
				for i := 0; i < 2*n; i++ {
					l := r
					if i%2 == 1 {
						l = r * rapid.Int64Range(waist, 40).Draw(t, "waist") / 100
					} else {
						l = r * rapid.Int64Range(50, 100).Draw(t, "tip") / 100
					}
					sin, cos := sincos(i, 2*n, phase+rapid.Int64Range(-80, 80).Draw(t, "turn"))
					out = append(out, P{o[0] + int64(math.Round(float64(l)*cos)), o[1] + int64(math.Round(float64(l)*sin))})
				}
				return out
			}
			k.Outline = star(rapid.SampledFrom([]int64{2000, 10000, 50000}).Draw(t, "size") * rapid.Int64Range(50, 200).Draw(t, "scale") / 100)
			if flat {
				k.Outline = uneven(t, k.Outline)
			}
			return k
		},
		func(c *Ctx, k acuteCase) error {
			part := data.NewBasicLayerPart(toPath(k.Outline), nil)
			res := clip.NewClipper().Inset(part, data.Micrometer(k.Offset), k.Count, data.Micrometer(k.Initial))
			return checkOffsets(c, part, res, insetCase{Offset: k.Offset, Count: k.Count, Initial: k.Initial, Seed: k.Seed})
		})
	Register("C09", "layer", 1500, 40000,
		"0..4 parts at once: every part has its own results in part order, and the flat list and the visitor return them in order; non-trivial: at least two parts",
		func(t *rapid.T) layerInset {
			k := layerInset{In: genInset(t)}
			k.Parts = genSpecs(t, "parts", 0, 4, P{0, 0}, rapid.SampledFrom([]int64{3000, 20000}).Draw(t, "pitch"))
			return k
		}, checkInsetLayer)

	Register("C10", "hull", 4000, 100000,
		"1..6 parts (holes, islands, coincident and collinear points): the hull is convex, made of outline points, and contains all outlines; non-trivial: at least two parts",
		func(t *rapid.T) opCase {
			k := opCase{}
			o := P{rapid.Int64Range(-200000, 200000).Draw(t, "ox"), rapid.Int64Range(-200000, 200000).Draw(t, "oy")}
			k.A = genSpecs(t, "a", 1, 4, o, rapid.SampledFrom([]int64{1000, 10000, 150000}).Draw(t, "pitch"))
			return k
		}, checkHull)
	Register("C10", "toplevel", 3000, 80000,
		"0..4 sites with parts nested up to 4 deep in any order: exactly the outermost outlines are returned; non-trivial: an outline inside another one",
		func(t *rapid.T) nestCase {
			k := nestCase{Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
			k.Sites = genSpecs(t, "sites", 0, 4, P{rapid.Int64Range(-100000, 100000).Draw(t, "ox"), 0}, rapid.SampledFrom([]int64{3000, 20000, 150000}).Draw(t, "pitch"))
			for i := range k.Sites {
				k.Sites[i].Beads = 0 // smaller copies are nested
			}
			k.Order = rapid.SliceOfN(rapid.IntRange(0, 1000), 16, 16).Draw(t, "order")
			k.Depth = rapid.IntRange(1, 4).Draw(t, "depth")
			return k
		}, checkTopLevel)
}

func dumpParts(ps []data.LayerPart) string {
	s := ""
	for _, p := range ps {
		s += fmt.Sprint(fromPath(p.Outline()))
		for _, h := range p.Holes() {
			s += fmt.Sprint(" hole ", fromPath(h))
		}
		s += "; "
	}
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// sliverAt tells whether the area is only a few micrometres wide at the border point p.
func sliverAt(r Region, p F) bool {
	for k := 0; k < 12; k++ {
		sin, cos := math.Sincos(float64(k) * math.Pi / 6)
		q := F{p.X + 7*cos, p.Y + 7*sin}
		if r.Inside(q) && r.Dist(q) >= 2 {
			return false
		}
	}
	return true
}

func checkOffsets(c *Ctx, part data.LayerPart, res [][]data.LayerPart, k insetCase) error {
	if len(res) != k.Count {
		return fmt.Errorf("%d results instead of %d", len(res), k.Count)
	}
	r := partsRegion([]data.LayerPart{part})
	corners := cornersOf(part)
	for n, got := range res {
		off := float64(k.Initial - int64(n)*k.Offset)
		if err := wellFormed(got); err != nil {
			return fmt.Errorf("result %d (moved by %.0f): %w", n, off, err)
		}
		rg := partsRegion(got)
		a := math.Abs(off)
		m := 0
		for _, p := range probes(k.Seed+uint64(n), 40, 40, []float64{a + 6, a - 6, a + 50, a / 2, a * 2}, r) {
			w := offsetExpected(r, corners, off, p, 5)
			if w == 0 {
				continue
			}
			m++
			if rg.Inside(p) != (w > 0) {
				return fmt.Errorf("result %d (moved by %.0f): point %.0f/%.0f (inside the part: %v, %.1f from its border) should be in: %v", n, off, p.X, p.Y, r.Inside(p), r.Dist(p), w > 0)
			}
		}
		// no result point may be nearer or farther than asked
		for _, g := range got {
			for _, p := range pathF(g.Outline()) {
				tol := 8.0
				if sliverAt(rg, p) {
					tol = 30 // rounding decides where the tip of a needle is
				}
				if w := offsetExpected(r, corners, off, p, tol); w != 0 {
					return fmt.Errorf("result %d (moved by %.0f): its border point %.0f/%.0f is %.1f from the part's border (inside: %v)", n, off, p.X, p.Y, r.Dist(p), r.Inside(p))
				}
			}
		}
		if m >= 20 {
			c.NonTrivial()
		}
		c.LabelIf(len(got) == 0, "nothing left")
		c.LabelIf(len(got) > 1, "split")
		c.LabelIf(off < 0 && len(got) > 0, "inset")
		c.LabelIf(off > 0, "exset")
	}
	return nil
}

type layerInset struct {
	Parts []partSpec `json:"parts"`
	In    insetCase  `json:"inset"`
}

func checkInsetLayer(c *Ctx, k layerInset) error {
	parts := specParts(k.Parts)
	keep := cloneParts(parts)
	cl := clip.NewClipper()
	off, init := data.Micrometer(k.In.Offset), data.Micrometer(k.In.Initial)
	res := cl.InsetLayer(parts, off, k.In.Count, init)
	if !sameParts(parts, keep) {
		return fmt.Errorf("the parts were modified")
	}
	if len(res) != len(parts) {
		return fmt.Errorf("%d results for %d parts", len(res), len(parts))
	}
	var flat []data.LayerPart
	for i := range parts {
		ki := k.In
		if err := checkOffsets(&Ctx{}, parts[i], res[i], ki); err != nil {
			return fmt.Errorf("part %d: %w", i, err)
		}
		for _, in := range res[i] {
			flat = append(flat, in...)
		}
	}
	if !sameParts(flat, res.ToOneDimension()) {
		return fmt.Errorf("the flat list differs")
	}
	var visited []data.LayerPart
	var err error
	res.ForEach(func(p data.LayerPart, partNr, insetNr, pieceNr int) bool {
		visited = append(visited, p)
		if partNr >= len(res) || insetNr >= len(res[partNr]) || pieceNr >= len(res[partNr][insetNr]) || !sameParts([]data.LayerPart{p}, []data.LayerPart{res[partNr][insetNr][pieceNr]}) {
			err = fmt.Errorf("visited something else at %d %d %d", partNr, insetNr, pieceNr)
		}
		return false
	})
	if err != nil {
		return err
	}
	if !sameParts(visited, flat) {
		return fmt.Errorf("the visitor got %d of %d", len(visited), len(flat))
	}
	for stop := 1; stop <= len(flat); stop++ {
		n := 0
		res.ForEach(func(data.LayerPart, int, int, int) bool { n++; return n == stop })
		if n != stop {
			return fmt.Errorf("the visitor continued after it asked to stop: %d instead of %d calls", n, stop)
		}
	}
	if len(parts) > 1 {
		c.NonTrivial()
	}
	return nil
}

func checkHull(c *Ctx, k opCase) error {
	parts := specParts(k.A)
	keep := cloneParts(parts)
	h, ok := clip.NewClipper().Hull(parts)
	if !ok {
		return fmt.Errorf("failed")
	}
	if !sameParts(parts, keep) {
		return fmt.Errorf("the parts were modified")
	}
	return hullOf(c, fromPath(h), parts)
}

func hullOf(c *Ctx, hull []P, parts []data.LayerPart) error {
	// the library may return the hull with or without repeating the start
	if len(hull) > 1 && hull[0] == hull[len(hull)-1] {
		hull = hull[:len(hull)-1]
	}
	if len(hull) < 3 {
		return fmt.Errorf("hull of %d points: %v", len(hull), hull)
	}
	all := map[P]bool{}
	for _, p := range parts {
		for _, q := range fromPath(p.Outline()) {
			all[q] = true
		}
	}
	sign := 0
	for i := range hull {
		if !all[hull[i]] {
			return fmt.Errorf("hull point %v is no outline point", hull[i])
		}
		a, b, d := hull[i], hull[(i+1)%len(hull)], hull[(i+2)%len(hull)]
		o := (b[0]-a[0])*(d[1]-a[1]) - (b[1]-a[1])*(d[0]-a[0])
		s := 0
		if o > 0 {
			s = 1
		} else if o < 0 {
			s = -1
		}
		if s != 0 && sign != 0 && s != sign {
			return fmt.Errorf("the hull is not convex at %v: %v", b, hull)
		}
		if s != 0 {
			sign = s
		}
	}
	for q := range all {
		for i := range hull {
			a, b := hull[i], hull[(i+1)%len(hull)]
			o := (b[0]-a[0])*(q[1]-a[1]) - (b[1]-a[1])*(q[0]-a[0])
			if (o > 0 && sign < 0) || (o < 0 && sign > 0) {
				return fmt.Errorf("the outline point %v is outside of the hull %v", q, hull)
			}
		}
	}
	if len(parts) > 1 {
		c.NonTrivial()
	}
	return nil
}

type nestCase struct {
	Sites []partSpec `json:"sites"`
	Order []int      `json:"order"`
	Depth int        `json:"depth"`
	Seed  uint64     `json:"seed"`
}

func checkTopLevel(c *Ctx, k nestCase) error {
	var parts, top []data.LayerPart
	for _, s := range k.Sites {
		f := int64(100)
		for d := 0; d < k.Depth; d++ {
			var holes data.Paths
			if d+1 < k.Depth {
				holes = data.Paths{toPath(reversed(s.loop(f * 80 / 100)))}
			}
			p := data.NewBasicLayerPart(toPath(s.loop(f)), holes)
			if d == 0 {
				top = append(top, p)
			}
			parts = append(parts, p)
			f = f * 60 / 100
		}
	}
	for i := len(parts) - 1; i > 0; i-- {
		j := k.Order[i%len(k.Order)] % (i + 1)
		parts[i], parts[j] = parts[j], parts[i]
	}
	keep := cloneParts(parts)
	got, ok := clip.NewClipper().TopLevelPolygons(parts)
	if !ok {
		return fmt.Errorf("failed for %d outlines", len(parts))
	}
	if !sameParts(parts, keep) {
		return fmt.Errorf("the parts were modified")
	}
	if len(got) != len(top) {
		return fmt.Errorf("%d outlines instead of %d", len(got), len(top))
	}
	var want, have Region
	for _, p := range top {
		want.AddPath(p.Outline())
	}
	for _, p := range got {
		have.AddPath(p)
	}
	for _, p := range probes(k.Seed, 30, 40, []float64{4, 20}, want, have) {
		if want.Dist(p) > 3 && want.Inside(p) != have.Inside(p) {
			return fmt.Errorf("point %.0f/%.0f is inside a top-level outline: %v, but not in the result", p.X, p.Y, want.Inside(p))
		}
	}
	if k.Depth > 1 && len(k.Sites) > 0 {
		c.NonTrivial()
	}
	return nil
}
