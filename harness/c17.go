package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/aligator/goslice/modifier"
	"pgregory.net/rapid"
)

// convexHull is a textbook monotone chain.
func convexHull(ps []F) []F {
	sort.Slice(ps, func(i, j int) bool { return ps[i].X < ps[j].X || (ps[i].X == ps[j].X && ps[i].Y < ps[j].Y) })
	var out []F
	half := func(get func(i int) F) {
		start := len(out)
		for i := range ps {
			p := get(i)
			for len(out)-start >= 2 && orient(out[len(out)-2], out[len(out)-1], p) <= 0 {
				out = out[:len(out)-1]
			}
			out = append(out, p)
		}
		out = out[:len(out)-1]
	}
	if len(ps) < 3 {
		return ps
	}
	half(func(i int) F { return ps[i] })
	half(func(i int) F { return ps[len(ps)-1-i] })
	return out
}

func checkSkirt(c *Ctx, k solidCase) error {
	run, err := runPipeline(k.O, k.Mesh.Tris())
	if err != nil {
		return err
	}
	g, err := parseG(run.G)
	if err != nil {
		return err
	}
	byL := byLayer(g.printed())
	for n := range run.Layers {
		if ms := ofType(byL[n], "SKIRT"); n > 0 && len(ms) > 0 {
			return fmt.Errorf("layer %d has skirt or brim lines: G-code line %d", n, ms[0].Line)
		}
	}
	if len(run.Layers) == 0 {
		return nil
	}
	l := run.Layers[0]
	per, err := modifier.Perimeters(l)
	if err != nil {
		return err
	}
	sup, err := modifier.FullSupport(l)
	if err != nil {
		return err
	}
	var pts []F
	brim, err := modifier.Brim(l)
	if err != nil {
		return err
	}
	for _, p := range append(append(per.ToOneDimension(), sup...), brim.ToOneDimension()...) {
		pts = append(pts, pathF(p.Outline())...)
	}
	loops, err := closedLoops(ofType(byL[0], "SKIRT"))
	if err != nil {
		return err
	}
	if len(pts) == 0 {
		if len(loops) > 0 {
			return fmt.Errorf("there are %d skirt lines around nothing", len(loops))
		}
		return nil
	}
	hull := Region{}
	hpts := convexHull(pts)
	hull.AddLoop(hpts)
	if len(hpts) < 3 || math.Abs(areaF(hpts)) < 1e4 {
		return nil // nothing but a point or a line
	}
	w := float64(k.O.W)
	d0 := float64(k.O.SkirtDist) + w
	var skirts []Region
	var brims []Seg
	for _, lp := range loops {
		min := math.Inf(1)
		for _, s := range lp.Segs {
			for _, f := range []float64{0, 0.5} {
				p := s.At(f)
				d := hull.Dist(p)
				if hull.Inside(p) {
					d = -d
				}
				min = math.Min(min, d)
			}
		}
		if min >= d0-w/2 {
			skirts = append(skirts, lp)
		} else {
			brims = append(brims, lp.Segs...)
			if k.O.Brim == 0 && lp.length() > 50 {
				return fmt.Errorf("a skirt line is only %.0f from the hull of the model instead of %.0f", min, d0)
			}
		}
	}
	if len(skirts) != k.O.Skirt {
		return fmt.Errorf("%d skirt lines are %.0f or more away from the hull, but %d were expected", len(skirts), d0-w/2, k.O.Skirt)
	}
	if k.O.Skirt == 0 {
		return nil
	}
	dist := func(r Region) float64 {
		d := math.Inf(1)
		for _, s := range r.Segs {
			d = math.Min(d, hull.Dist(s.At(0.5)))
		}
		return d
	}
	sort.Slice(skirts, func(i, j int) bool { return dist(skirts[i]) < dist(skirts[j]) })
	for i, s := range skirts {
		want := d0 + float64(i)*w
		for _, p := range hpts {
			if !s.Inside(p) {
				return fmt.Errorf("skirt line %d does not enclose %v", i+1, p)
			}
		}
		for _, e := range s.Segs {
			for _, f := range []float64{0, 0.2, 0.5, 0.8} {
				p := e.At(f)
				d := hull.Dist(p)
				if hull.Inside(p) || d < want-printTol {
					return fmt.Errorf("skirt line %d is only %.0f from the hull at %v instead of %.0f", i+1, d, p, want)
				}
				if d > want*math.Sqrt2+printTol {
					return fmt.Errorf("skirt line %d is %.0f from the hull at %v instead of %.0f", i+1, d, p, want)
				}
				if d > want+printTol {
					// only at corners
					near := math.Inf(1)
					for _, q := range hpts {
						near = math.Min(near, q.Dist(p))
					}
					if near > d+1 {
						return fmt.Errorf("skirt line %d is %.0f from the hull at %v instead of %.0f", i+1, d, p, want)
					}
				}
			}
		}
	}
	// nothing else is touched
	for _, m := range byL[0] {
		if m.Type == "SKIRT" {
			continue
		}
		brims = append(brims, m.Seg())
	}
	for _, s := range brims {
		for _, f := range []float64{0, 0.5, 1} {
			if !skirts[0].Inside(s.At(f)) {
				return fmt.Errorf("the line %v of the first layer is not surrounded by the skirt", s)
			}
			if d := skirts[0].Dist(s.At(f)); d < w/2 {
				return fmt.Errorf("the line %v of the first layer touches the skirt: %.0f", s, d)
			}
		}
	}
	c.NonTrivial()
	c.LabelIf(len(sup) > 0, "with support")
	c.LabelIf(k.O.Brim > 0, "with brim")
	return nil
}

func init() {
	Register("C17", "printed", 5000, 120000,
		"closed meshes (1..3 bodies with overhangs, also raised above the plate, support on or off) with 0..4 skirt lines at 0..8 mm, 0..4 brim lines, 1..3 perimeters; the skirt in the G-code compared with the exact convex hull; non-trivial: a skirt is expected",
		func(t *rapid.T) solidCase {
			o := stdOpt()
			o.W = maybe(t, "w", 400, rapid.Int64Range(250, 1000))
			o.LT = rapid.Int64Range(100, 400).Draw(t, "lt")
			o.ILT = rapid.Int64Range(100, 400).Draw(t, "ilt")
			o.Insets = rapid.IntRange(1, 3).Draw(t, "insets")
			o.Bottom, o.Top = rapid.IntRange(0, 1).Draw(t, "bottom"), 0
			o.Infill = rapid.SampledFrom([]int{0, 20}).Draw(t, "infill")
			o.Sup = rapid.Bool().Draw(t, "sup")
			o.SupAngle = rapid.IntRange(0, 70).Draw(t, "angle")
			o.SupSpacing, o.SupTopGap, o.SupGap = 1500, rapid.IntRange(0, 1).Draw(t, "gap"), rapid.Int64Range(0, 800).Draw(t, "supgap")
			o.Skirt, o.SkirtDist = few(t, "skirt", 0, 4, 15), maybe(t, "skirtdist", 5000, rapid.Int64Range(0, 8000))
			o.Brim = maybe(t, "brim", 0, rapid.Just(few(t, "brimlines", 0, 4, 15)))
			if o.Sup && rapid.IntRange(0, 3).Draw(t, "raised") == 0 {
				// nothing but support in the first layer
				o.Center[2] = o.ILT + o.LT*rapid.Int64Range(0, 3).Draw(t, "raisedlayers")
			}
			return genSolidCase(t, 3, 4, o)
		}, checkSkirt, Robust)
}
