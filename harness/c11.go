package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/modifier"
	"pgregory.net/rapid"
)

// stackCase is a pile of layers given directly as parts.
type stackCase struct {
	Layers [][]partSpec `json:"layers"`
	O      Opt          `json:"o"`
	Seed   uint64       `json:"seed"`
}

// genStack draws layers whose parts grow, shrink, move, vanish and appear.
func genStack(t *rapid.T, lo, hi int, w int64) [][]partSpec {
	pitch := w * rapid.SampledFrom([]int64{12, 30, 60}).Draw(t, "pitch")
	o := P{rapid.Int64Range(-100000, 100000).Draw(t, "ox"), rapid.Int64Range(-100000, 100000).Draw(t, "oy")}
	n := rapid.IntRange(lo, hi).Draw(t, "layers")
	if hi > 5 && rapid.IntRange(0, 29).Draw(t, "high") == 0 {
		n = rapid.IntRange(hi, 30).Draw(t, "manylayers")
	}
	var out [][]partSpec
	cur := genSpecs(t, "parts", 1, 4, o, pitch)
	for len(out) < n {
		cur = apart(cur)
		out = append(out, cur)
		next := []partSpec{}
		if len(cur) == 0 && rapid.IntRange(0, 3).Draw(t, "fresh") > 0 {
			cur = genSpecs(t, "parts", 1, 4, o, pitch)
			continue
		}
		switch rapid.IntRange(0, 9).Draw(t, "change") {
		case 0: // an empty layer
		case 1: // something new
			next = genSpecs(t, "parts", 0, 4, o, pitch)
		case 2, 3, 4: // the same
			next = append(next, cur...)
		default:
			for _, s := range cur {
				switch rapid.IntRange(0, 4).Draw(t, "how") {
				case 0:
					continue
				case 1: // another size
					f := rapid.Int64Range(60, 140).Draw(t, "scale")
					s.R = append([]int64(nil), s.R...)
					for i := range s.R {
						s.R[i] = max64(pitch/20, min64(s.R[i]*f/100, pitch*45/100))
					}
				case 2: // moved
					a := rapid.IntRange(0, 1).Draw(t, "axis")
					s.C[a] += pitch * rapid.Int64Range(-4, 4).Draw(t, "move") / 100
				case 3: // another hole
					s.Hole, s.Island = rapid.SampledFrom([]int64{0, 30, 50, 70}).Draw(t, "hole"), 0
				}
				next = append(next, s)
			}
		}
		cur = next
	}
	return out
}

// apart drops parts whose bounding boxes come too near to that of another one.
func apart(ss []partSpec) []partSpec {
	out := []partSpec{}
	box := func(s partSpec) (x, y int64) {
		if len(s.R) == 2 {
			return s.R[0], s.R[1]
		}
		for _, r := range s.R {
			x = max64(x, r)
		}
		return x, x
	}
	for _, s := range ss {
		ok := true
		sx, sy := box(s)
		for _, o := range out {
			ox, oy := box(o)
			if abs64(s.C[0]-o.C[0]) < sx+ox+60 && abs64(s.C[1]-o.C[1]) < sy+oy+60 {
				ok = false
			}
		}
		if ok {
			out = append(out, s)
		}
	}
	return out
}

func abs64(x int64) int64 {
	if x < 0 {
		return -x
	}
	return x
}

func (k stackCase) layers() []data.PartitionedLayer {
	var out []data.PartitionedLayer
	for _, l := range k.Layers {
		out = append(out, data.NewPartitionedLayer(specParts(l)))
	}
	return out
}

func checkPerimeters(c *Ctx, k stackCase) error {
	layers := k.layers()
	d := k.O.Data()
	if err := modifier.NewPerimeterModifier(&d).Modify(layers); err != nil {
		return err
	}
	if len(layers) != len(k.Layers) {
		return fmt.Errorf("%d layers instead of %d", len(layers), len(k.Layers))
	}
	for n, l := range layers {
		parts := specParts(k.Layers[n])
		if !sameParts(parts, l.LayerParts()) {
			return fmt.Errorf("layer %d: its parts were modified", n)
		}
		per, err := modifier.Perimeters(l)
		if err != nil {
			return err
		}
		if len(per) != len(parts) {
			return fmt.Errorf("layer %d: perimeters of %d parts instead of %d", n, len(per), len(parts))
		}
		for i, part := range parts {
			ic := insetCase{Offset: k.O.W, Count: k.O.Insets, Initial: -(k.O.W / 2), Seed: k.Seed + uint64(n*10+i)}
			if err := checkOffsets(c, part, per[i], ic); err != nil {
				return fmt.Errorf("layer %d part %d: %w", n, i, err)
			}
		}
	}
	return nil
}

// solidCase is a closed mesh with complete options.
type solidCase struct {
	Mesh Mesh   `json:"mesh"`
	O    Opt    `json:"o"`
	Seed uint64 `json:"seed"`
}

// genSolidCase draws bodies of some line widths up to some dozens of them,
// which stand on the plate (others may float above it) and a few layers.
func genSolidCase(t *rapid.T, solids int, maxLayers int64, o Opt) solidCase {
	k := solidCase{O: o, Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
	minS := o.W * rapid.SampledFrom([]int64{2, 4, 8}).Draw(t, "mins")
	if minS < 1000 {
		minS = 1000 // far above the snap distances of the slicer
	}
	k.Mesh = genMesh(t, meshOpts{maxSolids: solids, minSize: minS, maxSize: minS * rapid.Int64Range(4, 8).Draw(t, "ratio"),
		zGrid: o.LT, zBase: o.ILT, minHeight: max64(300, o.ILT+1), maxHeight: max64(400, o.ILT+maxLayers*o.LT), zGap: true, overhang: true})
	return k
}

// layerRegion returns the true cross-section of layer n.
func (k solidCase) layerRegion(placed []FTri, n int) Region {
	return section(placed, float64(k.O.ILT+int64(n)*k.O.LT))
}

// byLayer groups printed moves.
func byLayer(ms []Move) map[int][]Move {
	out := map[int][]Move{}
	for _, m := range ms {
		out[m.Layer] = append(out[m.Layer], m)
	}
	return out
}

func ofType(ms []Move, types ...string) []Move {
	var out []Move
	for _, m := range ms {
		for _, t := range types {
			if m.Type == t {
				out = append(out, m)
			}
		}
	}
	return out
}

func movesDist(ms []Move, p F) float64 {
	best := math.Inf(1)
	for _, m := range ms {
		if d := m.Seg().Dist(p); d < best {
			best = d
		}
	}
	return best
}

func movesLen(ms []Move) float64 {
	l := 0.0
	for _, m := range ms {
		l += m.XYLen()
	}
	return l
}

const (
	printTol = 95 // um: slicing (15), smoothing of printed lines (70), rounding to 10 um
)

// checkPrintedWalls compares the walls in the G-code with the layer's contour.
func checkPrintedWalls(c *Ctx, k solidCase) error {
	ts := k.Mesh.Tris()
	run, err := runPipeline(k.O, ts)
	if err != nil {
		return err
	}
	g, err := parseG(run.G)
	if err != nil {
		return err
	}
	layers := byLayer(g.printed())
	w := float64(k.O.W)
	for n, l := range run.Layers {
		parts := l.LayerParts()
		r := partsRegion(parts)
		var corners []corner
		for _, p := range parts {
			corners = append(corners, cornersOf(p)...)
		}
		outer, inner := ofType(layers[n], "WALL-OUTER"), ofType(layers[n], "WALL-INNER")
		// every wall lies at its distance
		for _, m := range append(append([]Move(nil), outer...), inner...) {
			for _, f := range []float64{0, 0.3, 0.5, 1} {
				p := m.Seg().At(f)
				d := r.Dist(p)
				if !r.Inside(p) {
					return fmt.Errorf("layer %d: the wall %v (G-code line %d) is outside of the part, %.0f from its border", n, m.Seg(), m.Line, d)
				}
				k0 := math.Floor((d+printTol)/w - 0.5) // at squared corners walls may be farther
				if m.Type == "WALL-OUTER" {
					k0 = 0
				} else {
					k0 = math.Max(1, math.Min(k0, float64(k.O.Insets-1)))
				}
				want := (k0 + 0.5) * w
				if d < want-printTol {
					return fmt.Errorf("layer %d: a point of the %s %v (G-code line %d) is %.0f from the border, but %.0f at least was expected", n, m.Type, m.Seg(), m.Line, d, want)
				}
				if d > want+printTol {
					near := false
					for _, q := range corners {
						near = near || (!q.convex && q.p.Dist(p) < math.Sqrt2*want+printTol)
					}
					if !near {
						return fmt.Errorf("layer %d: a point of the %s %v (G-code line %d) is %.0f from the border, but %.0f was expected", n, m.Type, m.Seg(), m.Line, d, want)
					}
				}
			}
		}
		// the border is followed by every wall
		compared := 0
		for i := 0; i < k.O.Insets; i++ {
			want := (float64(i) + 0.5) * w
			lines := outer
			if i > 0 {
				lines = inner
			}
			for _, p := range probes(k.Seed+uint64(n*10+i), 0, 30, []float64{want}, r) {
				if !r.Inside(p) || r.Dist(p) < want-0.5 || r.Dist(p) > want+0.5 {
					continue
				}
				// wide enough: the area goes on inside
				deep := false
				for a := 0.0; a < 2*math.Pi && !deep; a += math.Pi / 8 {
					q := p.Add(F{math.Cos(a), math.Sin(a)}.Mul(60))
					deep = r.Inside(q) && r.Dist(q) > want+40
				}
				near := false
				for _, q := range corners {
					near = near || (!q.convex && q.p.Dist(p) < math.Sqrt2*want+printTol)
				}
				if !deep || near {
					continue
				}
				compared++
				if d := movesDist(lines, p); d > printTol {
					return fmt.Errorf("layer %d: wall %d should pass %.0f/%.0f (%.0f inside of the border), but the nearest such line is %.0f away", n, i, p.X, p.Y, want, d)
				}
			}
		}
		// and printed once
		per, err := modifier.Perimeters(l)
		if err != nil {
			return err
		}
		var expect, slack float64
		for _, part := range per {
			for _, inset := range part {
				for _, piece := range inset {
					for _, path := range append(data.Paths{piece.Outline()}, piece.Holes()...) {
						var lr Region
						lr.AddPath(path)
						expect += lr.length()
						slack += 400 + 0.03*lr.length()
					}
				}
			}
		}
		if got := movesLen(outer) + movesLen(inner); got > expect+slack || got < expect-slack-0.1*expect {
			return fmt.Errorf("layer %d: %.0f um of walls were printed, but all perimeters together have %.0f um", n, got, expect)
		}
		if compared > 10 {
			c.NonTrivial()
		}
	}
	return nil
}

func init() {
	Register("C11", "contours", 8000, 200000,
		"piles of 1..3 layers of 0..4 parts with holes and islands, 0..6 perimeters, line width 200..1000 um; every perimeter compared pointwise with the distance to the contour; non-trivial: a perimeter with 20 compared points",
		func(t *rapid.T) stackCase {
			k := stackCase{O: stdOpt(), Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
			k.O.W = maybe(t, "w", 400, rapid.Int64Range(200, 1000))
			k.O.Insets = few(t, "insets", 0, 6, 20)
			k.O.Overlap = rapid.IntRange(0, 100).Draw(t, "overlap")
			k.Layers = genStack(t, 1, 3, k.O.W)
			return k
		}, checkPerimeters, Robust)
	Register("C11", "printed", 3000, 60000,
		"closed meshes (1..2 bodies with holes and overhangs) sliced completely; every wall in the G-code lies at its distance from the layer's contour, passes every sampled place where it must be, and all walls together are printed once; non-trivial: at least 10 such places in a layer",
		func(t *rapid.T) solidCase {
			o := stdOpt()
			o.W = maybe(t, "w", 400, rapid.Int64Range(200, 1000))
			o.LT = rapid.Int64Range(100, 400).Draw(t, "lt")
			o.ILT = rapid.Int64Range(100, 400).Draw(t, "ilt")
			o.Insets = few(t, "insets", 0, 5, 15)
			o.Infill, o.Bottom, o.Top = 0, 0, 0
			o.Skirt, o.Brim = rapid.IntRange(0, 1).Draw(t, "skirt"), rapid.IntRange(0, 1).Draw(t, "brim")
			return genSolidCase(t, 2, 6, o)
		}, checkPrintedWalls, Robust)
}
