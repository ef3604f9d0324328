package main

import (
	"fmt"
	"math"
	"strings"

	"github.com/aligator/goslice/data"
	"pgregory.net/rapid"
)

// fillSection is what follows one TYPE comment.
type fillSection struct {
	Type, Sub string
	Layer     int
	Moves     []Move // printing moves
}

func (g GCode) sections() []fillSection {
	var out []fillSection
	for i, l := range g.Lines {
		if strings.HasPrefix(l.Text, ";TYPE:") {
			s := fillSection{Type: l.Text[6:], Layer: l.Layer}
			if s.Type == "FILL" && i+1 < len(g.Lines) {
				s.Sub = strings.TrimPrefix(g.Lines[i+1].Text, ";")
			}
			out = append(out, s)
		}
	}
	for _, m := range g.printed() {
		if m.Section > 0 {
			s := &out[m.Section-1]
			if s.Layer == m.Layer && s.Type == m.Type {
				s.Moves = append(s.Moves, m)
			}
		}
	}
	return out
}

// checkPrintedFill compares the fill lines in the G-code with the areas.
func checkPrintedFill(c *Ctx, k solidCase) error {
	run, err := runPipeline(k.O, k.Mesh.Tris())
	if err != nil {
		return err
	}
	g, err := parseG(run.G)
	if err != nil {
		return err
	}
	secs := g.sections()
	w := float64(k.O.W)
	min, max := vecP(run.OM.Min()), vecP(run.OM.Max())
	type kind struct {
		attr, typ, sub string
		deg            int
		rect, zig      bool
		dists          []float64
		grow           float64
	}
	kinds := []kind{
		{"bottom", "FILL", "BOTTOM-FILL", k.O.Rot, true, false, []float64{w}, 0},
		{"top", "FILL", "TOP-FILL", k.O.Rot, true, false, []float64{w}, 0},
	}
	if k.O.Infill > 0 {
		kinds = append(kinds, kind{"infill", "FILL", "INTERNAL-FILL", k.O.Rot, true, k.O.ZigZag, percentDists(k.O.W, k.O.Infill), 0})
	}
	if k.O.Sup {
		kinds = append(kinds, kind{"support", "SUPPORT", "", 90, false, true, []float64{float64(k.O.SupSpacing)}, float64(k.O.SupSpacing)},
			kind{"supportInterface", "SUPPORT", "", 0, false, true, []float64{w}, float64(k.O.SupSpacing)})
	}
	byKey := map[string][]fillSection{}
	for _, s := range secs {
		key := fmt.Sprint(s.Layer, s.Type, s.Sub)
		byKey[key] = append(byKey[key], s)
	}
	var total, nonTrivial int
	for n, l := range run.Layers {
		for _, kd := range kinds {
			_, parts, err := attr(l, kd.attr)
			if err != nil {
				return err
			}
			key := fmt.Sprint(n, kd.typ, kd.sub)
			if len(byKey[key]) < len(parts) {
				return fmt.Errorf("layer %d: %d areas of %s, but only %d of them follow in the G-code", n, len(parts), kd.attr, len(byKey[key]))
			}
			for i, part := range parts {
				s := byKey[key][i]
				r := partsRegion([]data.LayerPart{part})
				deg := float64(kd.deg)
				if kd.rect && n%2 == 0 {
					deg += 90
				}
				var segs []Seg
				for _, m := range s.Moves {
					segs = append(segs, m.Seg())
				}
				grow := F{kd.grow, kd.grow}
				var first error
				for _, d := range kd.dists {
					sp := patternSpec{deg: deg, dist: d, zig: kd.zig, w: w, tol: 16, maxCon: w + 2*d + 30, printed: true}
					sp.box(min.Sub(grow), max.Add(grow))
					sub := &Ctx{}
					if first = checkPattern(sub, r, segs, sp); first == nil {
						total++
						if sub.nontrivial {
							nonTrivial++
							c.Label("%s", kd.attr)
						}
						break
					}
				}
				if first != nil {
					return fmt.Errorf("layer %d: %s area %d of %d (%d lines): %w", n, kd.attr, i, len(parts), len(segs), first)
				}
			}
			byKey[key] = byKey[key][len(parts):]
		}
	}
	for key, rest := range byKey {
		if len(rest) > 0 && (rest[0].Type == "FILL" || rest[0].Type == "SUPPORT") {
			return fmt.Errorf("there are %d more areas printed than planned (%s)", len(rest), key)
		}
	}
	if nonTrivial > 1 {
		c.NonTrivial()
	}
	return nil
}

// percentDists are the line distances which cover pct percent of the area with
// lines of width w: the exact one and the one for a whole number of lines per
// centimetre.
func percentDists(w int64, pct int) []float64 {
	exact := float64(w) * 100 / float64(pct)
	perCm := 10000 / (float64(10000/w) * float64(pct) / 100)
	out := []float64{math.Floor(perCm)}
	for _, d := range []float64{math.Floor(exact), math.Ceil(exact), math.Ceil(perCm)} {
		dup := false
		for _, o := range out {
			dup = dup || o == d
		}
		if !dup && math.Abs(d-exact) <= exact*0.06+1 {
			out = append(out, d)
		}
	}
	return out
}

func vecP(v data.MicroVec3) F { return F{float64(v.X()), float64(v.Y())} }

func init() {
	Register("C14", "printed", 1500, 40000,
		"closed meshes sliced completely with drawn infill percentage, angle, zig-zag, support spacing; the fill and support lines in the G-code compared with the planned areas, spacing derived from the percentage; non-trivial: two areas with more than 3 pieces of lines",
		func(t *rapid.T) solidCase {
			o := stdOpt()
			o.W = maybe(t, "w", 400, rapid.Int64Range(200, 1000))
			o.LT = rapid.Int64Range(100, 400).Draw(t, "lt")
			o.ILT = rapid.Int64Range(100, 400).Draw(t, "ilt")
			o.Insets = rapid.IntRange(1, 2).Draw(t, "insets")
			o.Infill = maybe(t, "infill", 20, rapid.IntRange(0, 100))
			o.Rot = maybe(t, "rot", 45, rapid.IntRange(-180, 360))
			o.ZigZag = rapid.Bool().Draw(t, "zigzag")
			o.Bottom, o.Top = rapid.IntRange(0, 2).Draw(t, "bottom"), rapid.IntRange(0, 2).Draw(t, "top")
			o.AddOverlap = rapid.IntRange(0, 400).Draw(t, "addoverlap")
			o.Sup = rapid.Bool().Draw(t, "sup")
			o.SupSpacing = maybe(t, "supspacing", 2500, rapid.Int64Range(800, 5000))
			o.SupGap = maybe(t, "supgap", 600, rapid.Int64Range(0, 2000))
			o.SupTopGap = rapid.IntRange(0, 3).Draw(t, "suptopgap")
			o.Skirt, o.Brim = rapid.IntRange(0, 1).Draw(t, "skirt"), rapid.IntRange(0, 1).Draw(t, "brim")
			return genSolidCase(t, 2, 6, o)
		}, checkPrintedFill, Robust)
}
