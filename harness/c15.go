package main

import (
	"fmt"
	"math"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/handler"
	"github.com/aligator/goslice/modifier"
	"pgregory.net/rapid"
)

// area is a region with what is needed to reason about its offsets.
type area struct {
	r       Region
	corners []corner
	loops   []Region // single curves, where they matter
}

func areaOf(parts []data.LayerPart) area {
	a := area{r: partsRegion(parts)}
	for _, p := range parts {
		a.corners = append(a.corners, cornersOf(p)...)
	}
	return a
}

// sd is the signed distance, positive inside.
func (a area) sd(p F) float64 {
	d := a.r.Dist(p)
	if a.r.Inside(p) {
		return d
	}
	return -d
}

// tri is a three-valued truth: 1 yes, -1 no, 0 too near to say.
type tri int

func or3(a, b tri) tri {
	if a > b {
		return a
	}
	return b
}
func and3(a, b tri) tri { return -or3(-a, -b) }

const supTol = 12

// overhangNear tells whether there is a place of upper within r of p which is
// farther than d from lower. Offsets reach up to sqrt2 farther at corners.
func overhangNear(p F, upper, lower area, d, r float64) tri {
	if len(upper.r.Segs) == 0 {
		return -1
	}
	far := r*math.Sqrt2 + supTol
	f := func(q F) float64 { // positive: q is such a place; 1-Lipschitz
		v := upper.sd(q)
		if len(lower.r.Segs) > 0 {
			v = math.Min(v, -lower.sd(q)-d)
		}
		return math.Min(v, far-q.Dist(p))
	}
	type cell struct {
		c    F
		half float64
	}
	queue := []cell{{p, far}}
	budget := 1500
	unsure := false
	for len(queue) > 0 && budget > 0 {
		c := queue[0]
		queue = queue[1:]
		budget--
		v := f(c.c)
		if v > supTol && c.c.Dist(p) < r-supTol && (len(lower.r.Segs) == 0 || offsetExpected(lower.r, lower.corners, d, c.c, supTol) == -1) {
			return 1
		}
		if v+c.half*math.Sqrt2 < -supTol {
			continue
		}
		if c.half < 6 {
			unsure = true
			continue
		}
		h := c.half / 2
		queue = append(queue, cell{c.c.Add(F{h, h}), h}, cell{c.c.Add(F{-h, h}), h}, cell{c.c.Add(F{h, -h}), h}, cell{c.c.Add(F{-h, -h}), h})
	}
	if unsure || len(queue) > 0 {
		return 0
	}
	return -1
}

// grown tells whether p is within g of the area.
func (a area) grown(p F, g float64) tri {
	if len(a.r.Segs) == 0 {
		return -1
	}
	return tri(offsetExpected(a.r, a.corners, g, p, 8))
}

func checkSupport(c *Ctx, k stackCase) error {
	layers := k.layers()
	d := k.O.Data()
	for _, m := range []handler.LayerModifier{modifier.NewPerimeterModifier(&d), modifier.NewBrimModifier(&d), modifier.NewSupportDetectorModifier(&d), modifier.NewSupportGeneratorModifier(&d)} {
		if err := m.Modify(layers); err != nil {
			return fmt.Errorf("%s: %w", m.GetName(), err)
		}
	}
	if len(layers) != len(k.Layers) {
		return fmt.Errorf("%d layers instead of %d", len(layers), len(k.Layers))
	}
	N := len(layers)
	var areas []area
	for _, l := range k.Layers {
		areas = append(areas, areaOf(specParts(l)))
	}
	type sup struct{ sup, iface Region }
	var got []sup
	for n, l := range layers {
		if !sameParts(specParts(k.Layers[n]), l.LayerParts()) {
			return fmt.Errorf("layer %d: its parts were modified", n)
		}
		s, _, err := attr(l, "support")
		if err != nil {
			return err
		}
		i, _, err := attr(l, "supportInterface")
		if err != nil {
			return err
		}
		if !k.O.Sup && len(s.Segs)+len(i.Segs) > 0 {
			return fmt.Errorf("layer %d: support is generated though it is disabled", n)
		}
		got = append(got, sup{s, i})
	}
	if !k.O.Sup {
		return nil
	}
	// the brim reaches half a line beyond its lines; where brims of several parts
	// meet, they may enclose a place which has no brim
	lines, err := modifier.Brim(layers[0])
	if err != nil {
		return err
	}
	var loops []area
	for _, p := range lines.ToOneDimension() {
		loops = append(loops, areaOf([]data.LayerPart{p}))
	}
	brim := func(p F) tri {
		res := tri(-1)
		for _, l := range loops {
			res = or3(res, l.grown(p, float64(k.O.W)/2))
		}
		return res
	}

	dist := math.Round(float64(k.O.LT) * math.Tan(float64(k.O.SupAngle)*math.Pi/180))
	grow := 1.5 * float64(k.O.SupSpacing)
	gap := float64(k.O.SupGap)
	yes, no := 0, 0
	var all []Region
	for n := range areas {
		all = append(all, areas[n].r, got[n].sup, got[n].iface)
	}
	for _, p := range probes(k.Seed, 25, 25, []float64{20, gap - 20, gap + 20, dist + 20, dist - 20, grow, grow - 30, grow * 0.7}, all...) {
		full := make([]tri, N+1)
		full[N], full[N-1] = -1, -1
		for m := N - 2; m >= 0; m-- {
			raw := tri(-1)
			if n := m + k.O.SupTopGap; n <= N-2 {
				raw = overhangNear(p, areas[n+1], areas[n], dist, grow)
			}
			full[m] = and3(or3(full[m+1], raw), -areas[m].grown(p, gap))
		}
		for m := 0; m < N; m++ {
			s, i := got[m].sup.Inside(p), got[m].iface.Inside(p)
			if got[m].sup.Dist(p) < 6 || got[m].iface.Dist(p) < 6 {
				continue
			}
			want := full[m]
			if m == 0 {
				want = and3(want, -brim(p))
			}
			where := fmt.Sprintf("layer %d of %d, point %.0f/%.0f (support: %v, interface: %v, %.0f from the model, in the model: %v; overhangs reach farther than %.0f, gap %.0f, %d gap layers, support reaches %.0f farther)", m, N, p.X, p.Y, s, i, areas[m].r.Dist(p), areas[m].r.Inside(p), dist, gap, k.O.SupTopGap, grow)
			if s && i {
				return fmt.Errorf("%s is support and interface at once", where)
			}
			if want == 1 && !s && !i {
				return fmt.Errorf("%s should be supported", where)
			}
			if want == -1 && (s || i) {
				return fmt.Errorf("%s should not be supported", where)
			}
			if want == 1 {
				yes++
				// interface if a layer directly above is without support
				first := -1
				certain := true
				for j := 1; j <= k.O.SupIface && first < 0; j++ {
					a := tri(-1)
					if m+j < N {
						a = full[m+j]
					}
					if a == 0 {
						certain = false
						break
					}
					if a == -1 {
						first = j
					}
				}
				if !certain {
					continue
				}
				if first > 0 && first < k.O.SupIface {
					// support may begin again above: both is fine then
					last := tri(-1)
					if m+k.O.SupIface < N {
						last = full[m+k.O.SupIface]
					}
					if last != -1 {
						continue
					}
				}
				if (first > 0) != i {
					return fmt.Errorf("%s: expected interface: %v (%d interface layers, supported above: %v)", where, first > 0, k.O.SupIface, full[m:N])
				}
			}
			if want == -1 {
				no++
			}
		}
	}
	c.LabelIf(yes > 0, "supported")
	if yes > 10 && no > 10 {
		c.NonTrivial()
	}
	return nil
}

// genOverhangs draws piles whose layers reach over each other by lengths
// around the allowed one.
func genOverhangs(t *rapid.T) stackCase {
	k := stackCase{O: stdOpt(), Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
	o := &k.O
	o.W = maybe(t, "w", 400, rapid.Int64Range(200, 1000))
	o.LT = maybe(t, "lt", 200, rapid.Int64Range(50, 400))
	o.Insets = rapid.IntRange(1, 2).Draw(t, "insets")
	o.Sup = rapid.IntRange(0, 9).Draw(t, "sup") > 0
	o.SupAngle = maybe(t, "supangle", 60, rapid.IntRange(0, 85))
	o.SupTopGap = few(t, "suptopgap", 0, 5, 12)
	o.SupIface = few(t, "supiface", 0, 5, 12)
	o.SupSpacing = maybe(t, "supspacing", 2500, rapid.Int64Range(500, 5000))
	o.SupGap = maybe(t, "supgap", 600, rapid.Int64Range(0, 2000))
	o.Brim = maybe(t, "brim", 0, rapid.Just(few(t, "brimlines", 0, 4, 12)))
	k.Layers = genStack(t, 1, 10, o.W)
	d := int64(float64(o.LT) * math.Tan(float64(o.SupAngle)*math.Pi/180))
	// additionally let some rectangles grow by steps around d
	for n := 1; n < len(k.Layers); n++ {
		if rapid.IntRange(0, 2).Draw(t, "step") > 0 {
			continue
		}
		f := rapid.SampledFrom([]int64{40, 60, 90, 110, 150, 190, 250}).Draw(t, "stepsize")
		var l []partSpec
		for _, s := range k.Layers[n-1] {
			if len(s.R) != 2 {
				l = append(l, s)
				continue
			}
			g := s
			g.R = []int64{s.R[0] + d*f/100, s.R[1] + d*f/100}
			if g.R[0] > o.W*40 || g.R[1] > o.W*40 {
				g.R = s.R
			}
			l = append(l, g)
		}
		k.Layers[n] = apart(l)
	}
	return k
}

func init() {
	Register("C15", "areas", 2400, 60000,
		"piles of 1..10 layers growing, moving and appearing, many by steps around the allowed overhang; support and interface of every layer compared pointwise with an independent three-valued model of overhangs (branch and bound over distances), gap, gap layers and brim; non-trivial: at least 10 supported and 10 unsupported places",
		genOverhangs, checkSupport, Robust)
}
