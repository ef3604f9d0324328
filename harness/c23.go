package main

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// trueLayer is the cross-section of the mesh with what is needed to compare
// printed lines with it.
type trueLayer struct {
	r       Region
	small   []Region // pieces which may be missing
	loops   []Region
	corners []corner
}

func (l trueLayer) sd(p F) float64 { return area{r: l.r}.sd(p) }

// nearSmall tells whether p belongs to a piece which may be missing.
func (l trueLayer) nearSmall(p F, tol float64) bool {
	for _, s := range l.small {
		if s.inBounds(p, tol) {
			return true
		}
	}
	return false
}

func newTrueLayer(r Region, finish int64) trueLayer {
	l := trueLayer{r: r, loops: r.components()}
	for _, c := range l.loops {
		if c.length() <= float64(finish)*1.02+200 {
			l.small = append(l.small, c)
		}
		at := map[F][]F{}
		for _, s := range c.Segs {
			at[s.A] = append(at[s.A], s.B)
			at[s.B] = append(at[s.B], s.A)
		}
		for p, ns := range at {
			if len(ns) != 2 {
				// several curves meet here: anything may happen beside
				l.corners = append(l.corners, corner{p, true}, corner{p, false})
				continue
			}
			a, b := ns[0].Sub(p), ns[1].Sub(p)
			if a.Len() == 0 || b.Len() == 0 {
				l.corners = append(l.corners, corner{p, true}, corner{p, false})
				continue
			}
			a, b = a.Mul(1/a.Len()), b.Mul(1/b.Len())
			if a.Dot(b) < -0.97 {
				continue // turns by less than 15 degrees
			}
			m := a.Add(b)
			l.corners = append(l.corners, corner{p, r.Inside(p.Add(m.Mul(0.5 / m.Len())))})
		}
	}
	return l
}

// checkEndToEnd compares the G-code with the mesh, nothing between.
func checkEndToEnd(c *Ctx, k solidCase) error {
	in := k.Mesh.Tris()
	run, err := runPipeline(k.O, in)
	if err != nil {
		return err
	}
	g, err := parseG(run.G)
	if err != nil {
		return err
	}
	o := k.O
	placed := place(in, o.Center)
	min, max := bounds3(in)
	N := int((max[2]-min[2]+o.Center[2]-o.ILT)/o.LT) + 1
	var ls []trueLayer
	for n := 0; n < N; n++ {
		ls = append(ls, newTrueLayer(k.layerRegion(placed, n), o.Finish))
	}
	w := float64(o.W)
	snap := 0.0
	if (sliceCase{Sh: shuffled{Mesh: k.Mesh}}).minDist() <= 300 {
		snap = float64(o.Join)
	}
	T := printTol + 25 + snap // walls
	A := 50 + snap            // areas
	fb := fillBorder(o)
	inner := fb - w*(100-float64(o.Overlap))/100/2
	ext := w * float64(o.Overlap+o.AddOverlap-100) / 200
	byL := byLayer(g.printed())
	for n := range byL {
		if n < 0 || n >= N {
			return fmt.Errorf("layer %d is printed, but there are only %d", n, N)
		}
	}
	var brimSkirt, onOuter, covered, filled int
	for n := 0; n < N; n++ {
		l := ls[n]
		ms := byL[n]
		if len(l.small) > 0 {
			c.Label("layer with very small pieces")
		}
		// --- exposure, from the true sections
		always := false
		var others []trueLayer
		for i := 0; i < o.Bottom; i++ {
			if n-1-i < 0 {
				always = true
			} else {
				others = append(others, ls[n-1-i])
			}
		}
		for i := 0; i < o.Top; i++ {
			if n+1+i >= N {
				always = true
			} else {
				others = append(others, ls[n+1+i])
			}
		}
		// exposed: 1 surely, -1 surely not, 0 not compared
		exposed := func(p F, margin float64) int {
			if always {
				return 1
			}
			res := -1
			for _, ot := range others {
				if ot.nearSmall(p, margin) {
					return 0
				}
				s := ot.sd(p)
				switch {
				case s < -margin:
					res = 1
				case s < margin && res < 0:
					res = 0
				}
			}
			return res
		}
		solidMargin := math.Sqrt2*math.Max(ext, 0) + A
		exposedMargin := A
		if ext < 0 {
			exposedMargin = math.Sqrt2*(-ext) + A
		}

		// the closed outer walls, as printed
		var wallLoops []Region
		if n == 0 {
			wallLoops, _ = closedLoops(ofType(ms, "WALL-OUTER"))
		}
		var outer, inners, solid, sparse []Move
		for _, m := range ms {
			where := func(p F) string {
				return fmt.Sprintf("layer %d of %d: the %s %s line %v (G-code line %d), at %.0f/%.0f", n, N, m.Type, m.Sub, m.Seg(), m.Line, p.X, p.Y)
			}
			var least float64
			switch m.Type {
			case "WALL-OUTER":
				outer = append(outer, m)
				least = w/2 - T
			case "WALL-INNER":
				inners = append(inners, m)
				least = 1.5*w - T
				if o.Insets < 2 {
					return fmt.Errorf("%s: there are no inner walls", where(m.A()))
				}
			case "FILL":
				least = fb - T
				if m.Sub == "INTERNAL-FILL" {
					sparse = append(sparse, m)
					if o.Infill == 0 {
						return fmt.Errorf("%s: there is no sparse infill", where(m.A()))
					}
				} else {
					solid = append(solid, m)
				}
			case "SUPPORT":
				if !o.Sup {
					return fmt.Errorf("%s: support is disabled", where(m.A()))
				}
				for _, f := range []float64{0, 0.25, 0.5, 0.75, 1} {
					p := m.Seg().At(f)
					if l.nearSmall(p, T+float64(o.SupGap)) {
						continue
					}
					if s := l.sd(p); s > -(float64(o.SupGap) - A) {
						return fmt.Errorf("%s: support is %.0f outside of the model, but the gap is %d", where(p), -s, o.SupGap)
					}
				}
				continue
			case "SKIRT":
				if o.Insets == 0 {
					continue // they are placed around the perimeters
				}
				if n > 0 {
					return fmt.Errorf("%s: skirt or brim above the first layer", where(m.A()))
				}
				for _, f := range []float64{0, 0.25, 0.5, 0.75, 1} {
					p := m.Seg().At(f)
					if l.nearSmall(p, T+w) {
						continue
					}
					brimSkirt++
					// acute corners are not printed up to their tip
					for _, lp := range wallLoops {
						if lp.inBounds(p, 0) && lp.Inside(p) {
							return fmt.Errorf("%s: skirt or brim, but inside of an outer wall", where(p))
						}
					}
					if s := movesDist(ofType(ms, "WALL-OUTER"), p); s < w-T {
						return fmt.Errorf("%s: skirt or brim, but %.0f from an outer wall", where(p), s)
					}
				}
				continue
			default:
				return fmt.Errorf("%s: material of unknown kind", where(m.A()))
			}
			for _, f := range []float64{0, 0.2, 0.5, 0.8, 1} {
				p := m.Seg().At(f)
				if s := l.sd(p); s < least {
					return fmt.Errorf("%s, is %.0f inside of the model, but %.0f are expected at least", where(p), s, least+T)
				}
			}
			if m.Type != "FILL" || m.XYLen() < 20 {
				continue
			}
			p := m.Seg().At(0.5)
			switch e := exposed(p, 0); {
			case m.Sub != "INTERNAL-FILL" && e < 0 && exposed(p, solidMargin) < 0:
				return fmt.Errorf("%s, is solid, but covered by all %d layers which matter", where(p), len(others))
			case m.Sub == "INTERNAL-FILL" && e > 0 && exposed(p, exposedMargin+A) > 0:
				if l.sd(p) < fb+15 {
					break // a sliver along the border of the filling
				}
				// measured from the innermost perimeter, too
				if ext < 0 && !always && l.r.Dist(p) < inner-math.Sqrt2*ext+A {
					break
				}
				if always && ext < 0 {
					break
				}
				return fmt.Errorf("%s, is sparse, but not covered", where(p))
			}
		}
		// --- the contour is followed
		far := func(p F, lim float64) bool { // no reflex corner near
			for _, q := range l.corners {
				if !q.convex && q.p.Dist(p) < lim {
					return false
				}
			}
			return true
		}
		wide := func(p F, want float64) bool {
			for a := 0.0; a < 2*math.Pi; a += math.Pi / 8 {
				if q := p.Add(F{math.Cos(a), math.Sin(a)}.Mul(60 + A)); l.sd(q) > want+45+A/2 {
					return true
				}
			}
			return false
		}
		for i := 0; i < o.Insets; i++ {
			want := (float64(i) + 0.5) * w
			lines, what := outer, "outer wall"
			if i > 0 {
				lines, what = inners, fmt.Sprintf("inner wall (number %d)", i)
			}
			for _, p := range probes(k.Seed+uint64(n+1000*i), 0, 30, []float64{want}, l.r) {
				if s := l.sd(p); s < want-0.5 || s > want+0.5 || l.nearSmall(p, T) || !far(p, math.Sqrt2*want+T) || !wide(p, want) {
					continue
				}
				onOuter++
				if d := movesDist(lines, p); d > T {
					return fmt.Errorf("layer %d of %d: the contour near %.0f/%.0f is not followed by an %s, the nearest is %.0f away", n, N, p.X, p.Y, what, d)
				}
			}
		}
		// --- the inside is filled
		inFill := func(p F) bool {
			return l.sd(p) > fb+A && far(p, math.Sqrt2*fb+A) && !l.nearSmall(p, A)
		}
		dists := percentDists(o.W, max64i(o.Infill, 1))
		spacing := 0.0
		for _, d := range dists {
			spacing = math.Max(spacing, d)
		}
		for _, p := range probes(k.Seed+uint64(n)+7, 50, 30, []float64{fb + A + w, fb + 2*w, 2 * fb}, l.r) {
			if !inFill(p) {
				continue
			}
			isSolid, any := true, true
			for i := 0; i < 8 && (isSolid || any); i++ {
				s, co := math.Sincos(float64(i) * math.Pi / 4)
				for _, f := range []float64{0.5, 1} {
					q := p.Add(F{co, s}.Mul(f * (w/2 + A)))
					isSolid = isSolid && inFill(q) && exposed(q, exposedMargin) > 0 && (ext >= 0 || always && exposed(q, 0) > 0 || l.sd(q) > inner-math.Sqrt2*ext+A)
					q = p.Add(F{co, s}.Mul(f * (spacing + A)))
					any = any && inFill(q)
				}
			}
			if ext < 0 && always {
				isSolid = isSolid && l.sd(p) > inner-math.Sqrt2*ext+A+w
			}
			if isSolid {
				covered++
				if d := movesDist(solid, p); d > w/2+30 {
					return fmt.Errorf("layer %d of %d: %.0f/%.0f (%.0f inside of the contour) has to be filled solid, but the nearest such line is %.0f away", n, N, p.X, p.Y, l.sd(p), d)
				}
			}
			if any && o.Infill > 0 {
				filled++
				if d := math.Min(movesDist(solid, p), movesDist(sparse, p)); d > spacing+30 {
					return fmt.Errorf("layer %d of %d: the nearest fill line of %.0f/%.0f (%.0f inside of the contour) is %.0f away, but the line distance is %.0f", n, N, p.X, p.Y, l.sd(p), d, spacing)
				}
			}
		}
	}
	if onOuter > 20 && covered > 5 {
		c.NonTrivial()
	}
	c.LabelIf(brimSkirt > 0, "skirt or brim")
	c.LabelIf(filled > 5, "sparse filling compared")
	c.LabelIf(covered > 5, "solid filling compared")
	return nil
}

func max64i(a, b int) int {
	if a > b {
		return a
	}
	return b
}

func init() {
	Register("C23", "end-to-end", 5000, 80000,
		"closed meshes (1..3 bodies with holes, overhangs, floating parts, vertices on layer planes) sliced with complete random options; the G-code compared with independent sections of the mesh: every line lies where its kind may be, the contours are followed, solid and sparse areas are covered; non-trivial: at least 20 compared places on contours and 5 in solid areas",
		func(t *rapid.T) solidCase {
			o := genOpt(t)
			o.W = maybe(t, "w", 400, rapid.Int64Range(250, 800))
			o.LT = rapid.Int64Range(100, 400).Draw(t, "lt")
			o.ILT = rapid.Int64Range(100, 400).Draw(t, "ilt")
			o.ExMult, o.FilDia = maybe(t, "exmult", 100, rapid.IntRange(50, 300)), maybe(t, "fildia", 1750, rapid.Int64Range(1000, 3000))
			o.Insets = rapid.IntRange(0, 3).Draw(t, "insets")
			if rapid.IntRange(0, 2).Draw(t, "solid") > 0 {
				o.Bottom, o.Top = rapid.IntRange(0, 2).Draw(t, "bottom"), rapid.IntRange(0, 2).Draw(t, "top")
			}
			o.Infill = maybe(t, "infill", 20, rapid.SampledFrom([]int{0, 5, 50, 100}))
			return genSolidCase(t, 3, 10, o)
		}, checkEndToEnd, Robust)
}
