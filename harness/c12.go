package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/modifier"
	"pgregory.net/rapid"
)

// fillAreas runs the modifiers which plan the filling and returns the areas.
func fillAreas(k stackCase) (layers []data.PartitionedLayer, err error) {
	layers = k.layers()
	d := k.O.Data()
	for _, m := range []handler.LayerModifier{modifier.NewPerimeterModifier(&d), modifier.NewInfillModifier(&d), modifier.NewInternalInfillModifier(&d)} {
		if err := m.Modify(layers); err != nil {
			return nil, fmt.Errorf("%s: %w", m.GetName(), err)
		}
	}
	if len(layers) != len(k.Layers) {
		return nil, fmt.Errorf("%d layers instead of %d", len(layers), len(k.Layers))
	}
	return layers, nil
}

func attr(l data.PartitionedLayer, name string) (Region, []data.LayerPart, error) {
	ps, err := modifier.PartsAttribute(l, name)
	return partsRegion(ps), ps, err
}

// fillBorder is how far inside of the contour the filling starts.
func fillBorder(o Opt) float64 {
	n := o.Insets
	if n == 0 {
		n = 1 // the place where the first one would be
	}
	w := float64(o.W)
	return w/2 + float64(n-1)*w + w*(100-float64(o.Overlap))/100/2
}

func checkFill(c *Ctx, k stackCase) error {
	layers, err := fillAreas(k)
	if err != nil {
		return err
	}
	for n, l := range layers {
		r := partsRegion(l.LayerParts())
		var corners []corner
		for _, p := range l.LayerParts() {
			corners = append(corners, cornersOf(p)...)
		}
		var regs [3]Region
		for i, name := range []string{"bottom", "top", "infill"} {
			var ps []data.LayerPart
			if regs[i], ps, err = attr(l, name); err != nil {
				return err
			}
			if err := wellFormed(ps); err != nil {
				return fmt.Errorf("layer %d: %s areas: %w", n, name, err)
			}
		}
		d := fillBorder(k.O)
		tol := 8.0
		if n := len(layers); n > 0 && k.O.Infill == 0 && len(regs[2].Segs) > 0 {
			return fmt.Errorf("layer %d: there is sparse infill though the percentage is zero", n)
		}
		m, solid, sparse := 0, 0, 0
		for _, p := range probes(k.Seed+uint64(n), 60, 60, []float64{d + tol + 1, d - tol - 1, d + 50, 2 * d, d / 2}, r, regs[0], regs[1], regs[2]) {
			want := offsetExpected(r, corners, -d, p, tol)
			if want == 0 {
				continue
			}
			in, near := 0, false
			for i := range regs {
				near = near || regs[i].Dist(p) < 4
				if regs[i].Inside(p) {
					in++
				}
			}
			if near {
				continue
			}
			m++
			where := fmt.Sprintf("layer %d: point %.0f/%.0f (inside the part: %v, %.0f from its border, the fill area starts %.0f inside) is in bottom: %v, top: %v, sparse: %v", n, p.X, p.Y, r.Inside(p), r.Dist(p), d,
				regs[0].Inside(p), regs[1].Inside(p), regs[2].Inside(p))
			if in > 1 {
				return fmt.Errorf("%s: areas overlap", where)
			}
			if want < 0 && in > 0 {
				return fmt.Errorf("%s: it is outside of the fill area", where)
			}
			if want > 0 && in == 0 && k.O.Infill > 0 {
				return fmt.Errorf("%s: it is not filled", where)
			}
			if in == 1 {
				if regs[2].Inside(p) {
					sparse++
				} else {
					solid++
				}
			}
		}
		if m > 40 && solid > 0 && sparse > 0 {
			c.NonTrivial()
		}
		c.LabelIf(len(l.LayerParts()) == 0, "empty layer")
		c.LabelIf(solid > 0 && sparse > 0, "solid and sparse")
	}
	return nil
}

func checkExposed(c *Ctx, k stackCase) error {
	layers, err := fillAreas(k)
	if err != nil {
		return err
	}
	var rs []Region
	for _, l := range k.Layers {
		rs = append(rs, partsRegion(specParts(l)))
	}
	w := float64(k.O.W)
	d := fillBorder(k.O)
	inner := d - w*(100-float64(k.O.Overlap))/100/2 // the innermost perimeter
	ext := w * float64(k.O.Overlap+k.O.AddOverlap-100) / 200
	const tol = 10
	for n, l := range layers {
		r := rs[n]
		var corners []corner
		for _, p := range l.LayerParts() {
			corners = append(corners, cornersOf(p)...)
		}
		bottom, _, err := attr(l, "bottom")
		if err != nil {
			return err
		}
		top, _, err := attr(l, "top")
		if err != nil {
			return err
		}
		// the layers which decide
		var others []Region
		always := false
		for i := 0; i < k.O.Bottom && !always; i++ {
			if n-1-i < 0 {
				always = true
			} else {
				others = append(others, rs[n-1-i])
			}
		}
		for i := 0; i < k.O.Top && !always; i++ {
			if n+1+i >= len(rs) {
				always = true
			} else {
				others = append(others, rs[n+1+i])
			}
		}
		exposed := func(p F) bool {
			if always {
				return true
			}
			for _, o := range others {
				if !o.Inside(p) {
					return true
				}
			}
			return false
		}
		var borders Region // where exposure may change
		for _, o := range others {
			borders.Segs = append(borders.Segs, o.Segs...)
		}
		a := math.Abs(ext)
		full, none, band := 0, 0, 0
		ps := probes(k.Seed+uint64(n), 60, 40, []float64{d + tol + 1, d + 50, 2 * d}, r)
		if len(borders.Segs) > 0 {
			ps = append(ps, probes(k.Seed+uint64(n)+99, 0, 120, []float64{tol + 2, a - tol - 10, a + tol + 2, 1.5*a + tol, 3 * a}, borders)...)
		}
		for _, p := range ps {
			if bottom.Dist(p) < 4 || top.Dist(p) < 4 || offsetExpected(r, corners, -d, p, tol) != 1 {
				continue
			}
			solid := bottom.Inside(p) || top.Inside(p)
			dist := borders.Dist(p)
			where := func() string {
				return fmt.Sprintf("layer %d of %d: point %.0f/%.0f (%.0f inside of the contour, %.0f from the borders of the %d layers which matter; overlap %.0f)", n, len(rs), p.X, p.Y, r.Dist(p), dist, len(others), ext)
			}
			switch {
			case exposed(p) && (ext >= 0 || dist > math.Sqrt2*a+tol):
				// with a negative overlap the solid area ends before the border;
				// it is measured from the innermost perimeter as well
				if dist < tol || (ext < 0 && !always && r.Dist(p) < inner+math.Sqrt2*a+tol) {
					continue
				}
				full++
				if !solid {
					return fmt.Errorf("%s is exposed, but not filled solid", where())
				}
			case !exposed(p) && dist > math.Sqrt2*math.Max(ext, 0)+tol:
				none++
				if solid {
					return fmt.Errorf("%s is covered by all these layers, but filled solid", where())
				}
			case !exposed(p) && ext > 2*tol && dist < ext-tol:
				// within the overlap of an exposed place of the same part
				q, ok := exposedNear(p, ext-tol, borders, exposed)
				if !ok || !r.Inside(q) || r.Dist(q) < inner+tol || !clearWay(p, q, r, inner+tol) {
					continue
				}
				band++
				if !solid {
					return fmt.Errorf("%s is only %.0f away from the exposed place %.0f/%.0f, but not filled solid", where(), p.Dist(q), q.X, q.Y)
				}
			}
		}
		if full > 5 && none > 5 {
			c.NonTrivial()
		}
		c.LabelIf(band > 0, "overlap compared")
		c.LabelIf(always && full > 5, "bottom or top end")
		c.LabelIf(!always && full > 5, "exposed inside of the model")
	}
	return nil
}

// exposedNear looks for a place within lim of p where exposure was compared
// away from borders, so that a whole piece around it is exposed.
func exposedNear(p F, lim float64, borders Region, exposed func(F) bool) (F, bool) {
	for a := 0.0; a < 2*math.Pi; a += math.Pi / 12 {
		for _, f := range []float64{1, 0.8, 0.6} {
			q := p.Add(F{math.Cos(a), math.Sin(a)}.Mul(lim * f))
			if exposed(q) && borders.Dist(q) > 12 {
				return q, true
			}
		}
	}
	return F{}, false
}

// clearWay tells whether the way from p to q stays deeper than d in the area.
func clearWay(p, q F, r Region, d float64) bool {
	for f := 0.0; f <= 1; f += 0.05 {
		x := Seg{p, q}.At(f)
		if !r.Inside(x) || r.Dist(x) < d {
			return false
		}
	}
	return true
}

func init() {
	gen := func(t *rapid.T) stackCase {
		k := stackCase{O: stdOpt(), Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
		o := &k.O
		o.W = maybe(t, "w", 400, rapid.Int64Range(200, 1000))
		o.Insets = few(t, "insets", 0, 3, 10)
		o.Overlap = maybe(t, "overlap", 50, rapid.IntRange(0, 100))
		o.AddOverlap = maybe(t, "addoverlap", 400, rapid.IntRange(0, 800))
		o.Infill = maybe(t, "infill", 20, rapid.SampledFrom([]int{0, 1, 50, 100}))
		o.Bottom = maybe(t, "manybottom", rapid.IntRange(0, 4).Draw(t, "bottom"), rapid.IntRange(0, 12))
		o.Top = maybe(t, "manytop", rapid.IntRange(0, 4).Draw(t, "top"), rapid.IntRange(0, 12))
		k.Layers = genStack(t, 1, 10, o.W)
		return k
	}
	Register("C12", "areas", 8000, 120000,
		"piles of 1..10 layers whose parts grow, shrink, move, vanish and appear, any overlap and layer counts; bottom, top and sparse areas compared pointwise with each other and the area inside the innermost perimeter; non-trivial: a layer with solid and sparse points",
		gen, checkFill, Robust)
	Register("C13", "exposed", 8000, 120000,
		"the same piles; solid areas compared pointwise with an independent model of what is exposed by the configured layers below and above; non-trivial: a layer with both exposed and covered points compared",
		gen, checkExposed, Robust)
}
