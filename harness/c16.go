package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/modifier"
	"pgregory.net/rapid"
)

// outlineArea is what lies inside of the outlines of the outermost perimeters.
func outlineArea(l data.PartitionedLayer) (area, error) {
	per, err := modifier.Perimeters(l)
	if err != nil {
		return area{}, err
	}
	var a area
	for _, part := range per {
		if len(part) == 0 {
			continue
		}
		for _, piece := range part[0] {
			p := data.NewBasicLayerPart(piece.Outline(), nil)
			o := areaOf([]data.LayerPart{p})
			a.r.Segs = append(a.r.Segs, o.r.Segs...)
			a.corners = append(a.corners, o.corners...)
			a.loops = append(a.loops, o.r)
		}
	}
	return a, nil
}

// degenerate tells whether the outlines touch themselves, e.g. because they are
// only a few micrometers wide: offsetting them is not exact.
func (a area) degenerate() bool {
	for _, l := range a.loops {
		for i, s := range l.Segs {
			for j, o := range l.Segs {
				if j != i && o.B != s.A && o.A != s.A && o.Dist(s.A) < 5 {
					return true
				}
			}
		}
	}
	return false
}

// insideAny tells whether p is inside of any of the outlines.
func (a area) insideAny(p F) bool {
	for _, l := range a.loops {
		if l.Inside(p) {
			return true
		}
	}
	return false
}

// checkLoops compares the n loops of the brim with the outline. The k-th loop
// is given as closed curves.
func checkLoops(c *Ctx, u area, loops [][]Region, w, tol float64, seed uint64) error {
	compared := 0
	for i, ls := range loops {
		want := float64(i+1) * w
		for _, l := range ls {
			for j, s := range l.Segs {
				if len(l.Segs) > 60 && j%(len(l.Segs)/60+1) != 0 {
					continue
				}
				for _, f := range []float64{0, 0.27, 0.5} {
					p := s.At(f)
					if u.insideAny(p) {
						return fmt.Errorf("brim line %d lies inside of the model at %v", i+1, p)
					}
					d := u.r.Dist(p)
					if d < want-tol {
						return fmt.Errorf("brim line %d is only %.0f from the outermost perimeters at %v instead of %.0f", i+1, d, p, want)
					}
					if d > want+tol && offsetExpectedFilled(u, want, p, tol) == -1 {
						return fmt.Errorf("brim line %d is %.0f from the outermost perimeters at %v instead of %.0f", i+1, d, p, want)
					}
				}
			}
		}
		for _, p := range probes(seed+uint64(i), 0, 40, []float64{want}, u.r) {
			if u.insideAny(p) || u.r.Dist(p) < want-1 {
				continue
			}
			best, inside := math.Inf(1), false
			for _, l := range ls {
				best = math.Min(best, l.Dist(p))
				inside = inside || l.Inside(p)
			}
			compared++
			if best > tol && !inside {
				return fmt.Errorf("brim line %d does not surround %.0f/%.0f, which is %.0f outside of the outermost perimeters (nearest such line: %.0f)", i+1, p.X, p.Y, want, best)
			}
		}
	}
	if compared > 20 {
		c.NonTrivial()
	}
	return nil
}

func offsetExpectedFilled(u area, off float64, p F, tol float64) int {
	if u.r.Dist(p) < off+tol {
		return 0
	}
	lim := math.Sqrt2*off + tol
	for _, q := range u.corners {
		if q.convex && q.p.Dist(p) <= lim {
			return 0
		}
	}
	return -1
}

func checkBrimAreas(c *Ctx, k stackCase) error {
	layers := k.layers()
	d := k.O.Data()
	for _, m := range []handler.LayerModifier{modifier.NewPerimeterModifier(&d), modifier.NewBrimModifier(&d)} {
		if err := m.Modify(layers); err != nil {
			return fmt.Errorf("%s: %w", m.GetName(), err)
		}
	}
	for n, l := range layers {
		brim, err := modifier.Brim(l)
		if err != nil {
			return err
		}
		outer, err := modifier.BrimOuterDimension(l)
		if err != nil {
			return err
		}
		if n > 0 || k.O.Brim == 0 {
			if len(brim.ToOneDimension())+len(outer) > 0 {
				return fmt.Errorf("there is a brim in layer %d, brim count %d", n, k.O.Brim)
			}
			continue
		}
		u, err := outlineArea(l)
		if err != nil {
			return err
		}
		if u.degenerate() {
			continue
		}
		loops := make([][]Region, k.O.Brim)
		for _, part := range brim {
			if len(part) > k.O.Brim {
				return fmt.Errorf("%d brim lines instead of %d", len(part), k.O.Brim)
			}
			for i, pieces := range part {
				for _, piece := range pieces {
					r := Region{}
					r.AddPath(piece.Outline())
					loops[i] = append(loops[i], r)
				}
			}
		}
		w := float64(k.O.W)
		if err := checkLoops(c, u, loops, w, 10, k.Seed); err != nil {
			return err
		}
		// the area which is kept free for the brim
		out := partsRegion(outer)
		for _, p := range probes(k.Seed+7, 0, 40, []float64{w * (float64(k.O.Brim) + 0.5 - 0.1), w * (float64(k.O.Brim) + 0.5 + 0.1), w / 2}, u.r) {
			dist := u.r.Dist(p)
			if u.insideAny(p) {
				continue
			}
			// outlines are filled: also what they enclose
			in := false
			for _, o := range outer {
				in = in || (func() bool { r := Region{}; r.AddPath(o.Outline()); return r.Inside(p) })()
			}
			lim := w * (float64(k.O.Brim) + 0.5)
			if dist < lim-15 && !in {
				return fmt.Errorf("%v is only %.0f from the outermost perimeters, but not in the area covered by the brim", p, dist)
			}
			if dist > lim*math.Sqrt2+30 && out.Inside(p) {
				return fmt.Errorf("%v is %.0f from the outermost perimeters, but in the area covered by the brim", p, dist)
			}
			if dist > lim+15 && out.Inside(p) {
				near := false
				for _, q := range u.corners {
					near = near || (q.convex && q.p.Dist(p) < lim*1.6+30)
				}
				if !near {
					return fmt.Errorf("%v is %.0f from the outermost perimeters, but in the area covered by the brim", p, dist)
				}
			}
		}
	}
	return nil
}

// closedLoops groups printing moves which follow each other directly.
func closedLoops(ms []Move) ([]Region, error) {
	var out []Region
	var cur []Move
	flush := func() error {
		if len(cur) == 0 {
			return nil
		}
		a, b := cur[0], cur[len(cur)-1]
		if a.From != b.To {
			return fmt.Errorf("the line from %v (G-code line %d) is not closed, it ends at %v (line %d)", a.A(), a.Line, b.B(), b.Line)
		}
		var r Region
		for _, m := range cur {
			r.Segs = append(r.Segs, m.Seg())
		}
		out = append(out, r)
		cur = nil
		return nil
	}
	for _, m := range ms {
		if len(cur) > 0 && cur[0].From == cur[len(cur)-1].To {
			if err := flush(); err != nil {
				return nil, err
			}
		}
		if len(cur) > 0 && cur[len(cur)-1].To != m.From {
			if err := flush(); err != nil {
				return nil, err
			}
		}
		cur = append(cur, m)
	}
	return out, flush()
}

func checkBrimPrinted(c *Ctx, k solidCase) error {
	run, err := runPipeline(k.O, k.Mesh.Tris())
	if err != nil {
		return err
	}
	g, err := parseG(run.G)
	if err != nil {
		return err
	}
	byL := byLayer(g.printed())
	for n := range run.Layers {
		ms := ofType(byL[n], "SKIRT")
		if n > 0 && len(ms) > 0 {
			return fmt.Errorf("layer %d has skirt or brim lines: G-code line %d", n, ms[0].Line)
		}
	}
	if len(run.Layers) == 0 {
		return nil
	}
	u, err := outlineArea(run.Layers[0])
	if err != nil {
		return err
	}
	loops, err := closedLoops(ofType(byL[0], "SKIRT"))
	if err != nil {
		return err
	}
	if k.O.Brim == 0 || len(u.loops) == 0 {
		if len(loops) > 0 {
			return fmt.Errorf("%d brim lines are printed, brim count %d, %d islands", len(loops), k.O.Brim, len(u.loops))
		}
		return nil
	}
	if u.degenerate() {
		return nil
	}
	w := float64(k.O.W)
	byLine := make([][]Region, k.O.Brim)
	for _, l := range loops {
		if l.length() < 200 {
			continue // smaller than rounding
		}
		d := math.Inf(1)
		for _, s := range l.Segs {
			d = math.Min(d, u.r.Dist(s.At(0.5)))
		}
		i := int(math.Round(d/w)) - 1
		if i < 0 || i >= k.O.Brim {
			return fmt.Errorf("a brim line is %.0f from the outermost perimeters at its nearest place, but there are %d lines with %.0f um", d, k.O.Brim, w)
		}
		byLine[i] = append(byLine[i], l)
	}
	if err := checkLoops(c, u, byLine, w, printTol, k.Seed); err != nil {
		return err
	}
	// every line once
	for i, ls := range byLine {
		for a := range ls {
			for b := range ls {
				if a == b || ls[a].length() < 3*w || ls[b].length() < 3*w {
					continue
				}
				same := 0
				for _, s := range ls[a].Segs {
					if ls[b].Dist(s.At(0.5)) < 15 {
						same++
					}
				}
				if same == len(ls[a].Segs) {
					return fmt.Errorf("brim line %d is printed twice at %v", i+1, ls[a].Segs[0])
				}
			}
		}
	}
	return nil
}

func init() {
	Register("C16", "areas", 8000, 160000,
		"first layers of 1..4 islands (with holes and islands inside), some of whose outermost perimeter splits, 0..6 brim lines; every brim line compared pointwise with its distance to the outermost perimeters, other layers must have none; non-trivial: at least 20 compared places",
		func(t *rapid.T) stackCase {
			k := stackCase{O: stdOpt(), Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
			k.O.W = maybe(t, "w", 400, rapid.Int64Range(200, 1000))
			k.O.Insets = rapid.IntRange(1, 4).Draw(t, "insets")
			k.O.Brim = few(t, "brim", 0, 6, 25)
			k.Layers = genStack(t, 1, 3, k.O.W)
			return k
		}, checkBrimAreas, Robust)
	Register("C16", "printed", 2500, 60000,
		"closed meshes (1..3 bodies, holes, overhangs, support) sliced completely with 0..5 brim lines and no skirt; the lines in the G-code compared with the outermost perimeters; non-trivial: at least 20 compared places",
		func(t *rapid.T) solidCase {
			o := stdOpt()
			o.W = maybe(t, "w", 400, rapid.Int64Range(250, 1000))
			o.LT = rapid.Int64Range(100, 400).Draw(t, "lt")
			o.ILT = rapid.Int64Range(100, 400).Draw(t, "ilt")
			o.Insets = rapid.IntRange(1, 3).Draw(t, "insets")
			o.Infill, o.Bottom, o.Top = 0, 0, 0
			o.Sup = rapid.Bool().Draw(t, "sup")
			o.SupSpacing, o.SupTopGap = 1500, rapid.IntRange(0, 2).Draw(t, "gap")
			o.Skirt, o.Brim = 0, few(t, "brim", 0, 5, 15)
			return genSolidCase(t, 3, 4, o)
		}, checkBrimPrinted, Robust)
}
