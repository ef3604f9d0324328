package main

import (
	"fmt"
	"math"
	"sort"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"pgregory.net/rapid"
)

// patternCase is one filling of one part.
type patternCase struct {
	Part   partSpec `json:"part"`
	W      int64    `json:"w"`
	Dist   int64    `json:"dist"`
	Deg    int      `json:"deg"`
	Rect   bool     `json:"rect"`
	Zig    bool     `json:"zig"`
	Layer  int      `json:"layer"`
	Margin [4]int64 `json:"margin"` // how far the bounding box reaches beyond the part
	Seed   uint64   `json:"seed"`
}

func turnF(p F, deg float64) F {
	sin, cos := math.Sincos(deg * math.Pi / 180)
	return F{p.X*cos - p.Y*sin, p.X*sin + p.Y*cos}
}

func rotRegion(r Region, deg float64) Region {
	out := Region{make([]Seg, len(r.Segs))}
	for i, s := range r.Segs {
		out.Segs[i] = Seg{turnF(s.A, deg), turnF(s.B, deg)}
	}
	return out
}

// cuts returns the sorted crossings of the vertical line at x.
func (r Region) cuts(x float64) []float64 {
	var ys []float64
	for _, s := range r.Segs {
		a, b := s.A, s.B
		if (a.X <= x) == (b.X <= x) {
			continue
		}
		ys = append(ys, a.Y+(b.Y-a.Y)*(x-a.X)/(b.X-a.X))
	}
	sort.Float64s(ys)
	return ys
}

// steadyCuts are the crossings, if a shift of some micrometres does not change
// them much.
func (r Region) steadyCuts(x, d float64) ([]float64, bool) {
	mid := r.cuts(x)
	for _, e := range []float64{-d, d} {
		o := r.cuts(x + e)
		if len(o) != len(mid) {
			return nil, false
		}
		for i := range o {
			if math.Abs(o[i]-mid[i]) > 60 {
				return nil, false
			}
		}
	}
	for i := 1; i < len(mid); i++ {
		if mid[i]-mid[i-1] < 12 {
			return nil, false
		}
	}
	return mid, len(mid)%2 == 0
}

// checkPattern compares lines with the areas they have to fill. The lines lie
// on x = x0 + k*dist in the frame turned by deg, x0 is the left border of the
// turned bounding box.
type patternSpec struct {
	deg    float64
	x0     float64
	dist   float64
	zig    bool
	w      float64
	maxX   float64
	y0     float64 // the lines only reach from y0 to maxY
	maxY   float64
	tol    float64
	maxCon float64
	// printed lines of no length are missing
	printed bool
}

func checkPattern(c *Ctx, r Region, paths []Seg, s patternSpec) error {
	rr := rotRegion(r, s.deg)
	type span struct{ lo, hi float64 }
	lines := map[int][]span{}
	isLine := func(a, b F) (int, bool) {
		ka, kb := math.Round((a.X-s.x0)/s.dist), math.Round((b.X-s.x0)/s.dist)
		return int(ka), ka == kb && math.Abs(a.X-s.x0-ka*s.dist) <= s.tol && math.Abs(b.X-s.x0-kb*s.dist) <= s.tol
	}
	nl, nc := 0, 0
	for i, p := range paths {
		a, b := turnF(p.A, s.deg), turnF(p.B, s.deg)
		k, line := isLine(a, b)
		if !line {
			if !s.zig {
				return fmt.Errorf("line %v does not lie on the grid: turned by %.0f degrees it goes from %.0f/%.0f to %.0f/%.0f, the lines are at %.0f + k * %.1f", p, s.deg, a.X, a.Y, b.X, b.Y, s.x0, s.dist)
			}
			nc++
			if !s.printed && (i == 0 || i == len(paths)-1) {
				return fmt.Errorf("the connection %v does not connect two lines", p)
			}
			if l := p.Len(); l > s.maxCon {
				return fmt.Errorf("the connection %v is %.0f long", p, l)
			}
			if !s.printed && paths[i-1].B.Dist(p.A) > s.tol || !s.printed && paths[i+1].A.Dist(p.B) > s.tol {
				return fmt.Errorf("the connection %v does not connect the lines %v and %v", p, paths[i-1], paths[i+1])
			}
			for f := 0.0; f <= 1; f += 0.0625 {
				if q := p.At(f); !r.Inside(q) && r.Dist(q) > s.tol {
					return fmt.Errorf("the connection %v leaves the area at %v", p, q)
				}
			}
			continue
		}
		nl++
		lines[k] = append(lines[k], span{math.Min(a.Y, b.Y), math.Max(a.Y, b.Y)})
		for f := 0.0; f <= 1; f += 0.125 {
			if q := p.At(f); !r.Inside(q) && r.Dist(q) > s.tol {
				return fmt.Errorf("the line %v leaves the area at %v", p, q)
			}
		}
	}
	c.LabelIf(nc > 0, "connections")
	if len(rr.Segs) == 0 {
		return nil
	}
	min, max := rr.Bounds()
	compared, skipped := 0, 0
	for k := int(math.Ceil((min.X - s.x0) / s.dist)); s.x0+float64(k)*s.dist < math.Min(max.X, s.maxX-s.tol); k++ {
		if k < 0 {
			continue
		}
		x := s.x0 + float64(k)*s.dist
		ys, ok := rr.steadyCuts(x, s.tol)
		if !ok {
			skipped++
			continue
		}
		covers := func(y float64, tol float64) int {
			n := 0
			for _, sp := range lines[k] {
				if y > sp.lo-tol && y < sp.hi+tol {
					n++
				}
			}
			return n
		}
		at := func(y float64) string {
			p := turnF(F{x, y}, -s.deg)
			return fmt.Sprintf("line %d (at %.0f in the turned frame): point %.0f/%.0f", k, x, p.X, p.Y)
		}
		for i := 0; i+1 < len(ys); i += 2 {
			lo, hi := math.Max(ys[i], s.y0), math.Min(ys[i+1], s.maxY)
			l := hi - lo
			if l < 20 {
				continue
			}
			cut := 0.0
			if s.zig {
				cut = s.w / 2
			}
			compared++
			if s.zig && l < s.w+130 {
				if n := covers((lo+hi)/2, s.tol); n != 1 && l > 130 && (!s.printed || math.Abs(l-s.w) > 150) {
					return fmt.Errorf("%s in the middle of the area is covered by %d lines", at((lo+hi)/2), n)
				}
				continue
			}
			// the border may be oblique: an end moves up to 60 with the position of the line
			const e = 65
			for j, f := range []float64{lo + cut + e, lo + l*0.31, lo + l*0.5, hi - cut - e} {
				if f < lo+cut+e || f > hi-cut-e {
					continue
				}
				if n := covers(f, 0); n != 1 {
					return fmt.Errorf("%s (%.0f and %.0f from the borders) is covered by %d lines (%d)", at(f), f-lo, hi-f, n, j)
				}
			}
			if s.zig && cut > e+10 {
				for _, f := range []float64{lo + cut - e, hi - cut + e} {
					if covers(f, 0) > 0 {
						return fmt.Errorf("%s is only %.0f from the border, but the line is not shortened", at(f), math.Min(f-lo, hi-f))
					}
				}
			}
		}
	}
	c.LabelIf(skipped > 0, "some lines touch a corner: not compared")
	if compared > 3 {
		c.NonTrivial()
	}
	return nil
}

func pathSegs(ps data.Paths) ([]Seg, error) {
	var out []Seg
	for _, p := range ps {
		if len(p) != 2 {
			return nil, fmt.Errorf("a line with %d points: %v", len(p), fromPath(p))
		}
		q := pathF(p)
		out = append(out, Seg{q[0], q[1]})
	}
	return out, nil
}

func init() {
	Register("C14", "pattern", 24000, 500000,
		"one part (star or rectangle, with hole) filled by a linear pattern of any angle, distance, layer number and bounding box; every line of the grid compared with the exact cross-section of the part; non-trivial: more than 3 pieces of lines compared",
		func(t *rapid.T) patternCase {
			k := patternCase{W: rapid.Int64Range(200, 1000).Draw(t, "w"), Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
			k.Dist = max64(100, k.W*rapid.SampledFrom([]int64{50, 100, 100, 113, 200, 500, 1000, 2000}).Draw(t, "dist")/100)
			k.Deg = rapid.OneOf(rapid.SampledFrom([]int{0, 45, 90, -45, 180, 270}), rapid.IntRange(-360, 720)).Draw(t, "deg")
			k.Rect, k.Zig = rapid.Bool().Draw(t, "rectlinear"), rapid.Bool().Draw(t, "zigzag")
			k.Layer = rapid.OneOf(rapid.IntRange(0, 5), rapid.IntRange(0, 5000)).Draw(t, "layer")
			c := P{rapid.Int64Range(-200000, 200000).Draw(t, "x"), rapid.Int64Range(-200000, 200000).Draw(t, "y")}
			size := rapid.Int64Range(1, 20).Draw(t, "size")
			if k.Dist < 1000 && rapid.IntRange(0, 299).Draw(t, "big") == 0 {
				size = rapid.Int64Range(50, 500).Draw(t, "bigsize")
			}
			k.Part = genSpec(t, c, k.Dist*size+500, true)
			k.Part.Island = 0
			for i := range k.Margin {
				k.Margin[i] = maybe(t, "margin", 0, rapid.Int64Range(0, 20*k.Dist))
			}
			return k
		},
		func(c *Ctx, k patternCase) error {
			part := k.Part.parts()[0]
			before := clonePart(part)
			r := partsRegion([]data.LayerPart{part})
			min, max := r.Bounds()
			bmin := P{int64(min.X) - k.Margin[0], int64(min.Y) - k.Margin[1]}
			bmax := P{int64(max.X) + k.Margin[2], int64(max.Y) + k.Margin[3]}
			pat := clip.NewLinearPattern(data.Micrometer(k.W), data.Micrometer(k.Dist), toPath([]P{bmin})[0], toPath([]P{bmax})[0], k.Deg, k.Rect, k.Zig)
			res, err := pat.Fill(k.Layer, part)
			if err != nil {
				return err
			}
			if !sameParts([]data.LayerPart{part}, []data.LayerPart{before}) {
				return fmt.Errorf("the part was modified")
			}
			segs, err := pathSegs(res)
			if err != nil {
				return err
			}
			deg := float64(k.Deg)
			if k.Rect && k.Layer%2 == 0 {
				deg += 90
			}
			s := patternSpec{deg: deg, dist: float64(k.Dist), zig: k.Zig, w: float64(k.W), tol: 4}
			s.box(bmin.F(), bmax.F())
			s.maxCon = s.w + 2*s.dist + 5
			return checkPattern(c, r, segs, s)
		}, Robust)
}

// box sets the extent of the pattern: that of the given box in the turned frame.
func (s *patternSpec) box(min, max F) {
	r := Region{}
	r.AddLoop([]F{turnF(min, s.deg), turnF(F{min.X, max.Y}, s.deg), turnF(max, s.deg), turnF(F{max.X, min.Y}, s.deg)})
	lo, hi := r.Bounds()
	s.x0, s.maxX, s.y0, s.maxY = lo.X, hi.X, lo.Y, hi.Y
}
