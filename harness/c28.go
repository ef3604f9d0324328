package main

import (
	"fmt"
	"math"
	"math/big"

	"github.com/aligator/goslice/data"
	"pgregory.net/rapid"
)

func eqPts(a, b []P) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// lineDist is the distance of p to the infinite line through a and b.
func lineDist(a, b, p F) float64 {
	d := b.Sub(a)
	if d.Len() == 0 {
		return p.Dist(a)
	}
	return math.Abs(d.Cross(p.Sub(a))) / d.Len()
}

// genUm covers small and large printers.
func genUm(t *rapid.T, label string) int64 {
	m := rapid.SampledFrom([]int64{100, 10000, 300000, 1000000}).Draw(t, label+"m")
	return rapid.Int64Range(-m, m).Draw(t, label)
}

// genLine draws a polyline: few main points, with points near the lines
// between them.
func genLine(t *rapid.T) []P {
	n := rapid.IntRange(2, 8).Draw(t, "n")
	var out []P
	for i := 0; i < n; i++ {
		p := P{genUm(t, "x"), genUm(t, "y")}
		if i > 0 {
			a := out[len(out)-1]
			k := rapid.IntRange(0, 6).Draw(t, "between")
			for j := 1; j <= k; j++ {
				off := rapid.Int64Range(-1, 1).Draw(t, "side") * rapid.SampledFrom([]int64{0, 1, 3, 5, 8, 9, 12, 40, 69, 71, 80, 200}).Draw(t, "off")
				f := float64(j) / float64(k+1)
				d := p.F().Sub(a.F())
				q := a.F().Add(d.Mul(f))
				if d.Len() > 0 {
					q = q.Add(F{-d.Y, d.X}.Mul(float64(off) / d.Len()))
				}
				out = append(out, P{int64(math.Round(q.X)), int64(math.Round(q.Y))})
			}
		}
		out = append(out, p)
	}
	if rapid.IntRange(0, 4).Draw(t, "closed") == 0 {
		out = append(out, out[0])
	}
	return out
}

type lineCase struct {
	Pts []P   `json:"pts"`
	Eps int64 `json:"eps"`
}

// genPoly draws a simple polygon (star-shaped around its centre) whose edges
// carry extra points close to them.
func genPoly(t *rapid.T) []P {
	r := rapid.SampledFrom([]int64{300, 3000, 30000, 200000, 500000}).Draw(t, "radius")
	cx, cy := genUm(t, "cx"), genUm(t, "cy")
	n := rapid.IntRange(3, 12).Draw(t, "n")
	phase := rapid.Int64Range(0, 6283).Draw(t, "phase")
	var c []F
	for k := 0; k < n; k++ {
		a := 2*math.Pi*float64(k)/float64(n) + float64(phase)/1000
		rr := float64(rapid.Int64Range(r*2/3, r).Draw(t, "r"))
		c = append(c, F{float64(cx) + rr*math.Cos(a), float64(cy) + rr*math.Sin(a)})
	}
	var out []P
	for k := range c {
		a, b := c[k], c[(k+1)%n]
		d := b.Sub(a)
		m := rapid.IntRange(0, 5).Draw(t, "extra")
		out = append(out, P{int64(math.Round(a.X)), int64(math.Round(a.Y))})
		step := d.Len() / float64(m+1)
		if rapid.IntRange(0, 3).Draw(t, "close") == 0 { // very short segments
			step = math.Min(6, step)
		}
		for j := 1; j <= m; j++ {
			off := float64(rapid.Int64Range(-12, 12).Draw(t, "off"))
			if step < 20 {
				off /= 4 // no needles
			}
			q := a.Add(d.Mul(float64(j) * step / d.Len())).Add(F{-d.Y, d.X}.Mul(off / d.Len()))
			out = append(out, P{int64(math.Round(q.X)), int64(math.Round(q.Y))})
		}
	}
	return out
}

// subsequence returns for each kept point its index in the original.
func subsequence(orig, kept []P) ([]int, bool) {
	var idx []int
	j := 0
	for i := range orig {
		if j < len(kept) && orig[i] == kept[j] {
			idx = append(idx, i)
			j++
		}
	}
	return idx, j == len(kept)
}

func init() {
	Register("C28", "smooth", 6000, 200000,
		"polylines of 2..50 points with coordinates up to 1 m and extra points 0..200 um beside the lines, tolerances 1..500 and the default; non-trivial: at least one point was removed and one inner point kept",
		func(t *rapid.T) lineCase {
			return lineCase{genLine(t), rapid.SampledFrom([]int64{-1, -1, -1, 1, 5, 20, 70, 500}).Draw(t, "eps")}
		},
		func(c *Ctx, k lineCase) error {
			in := toPath(k.Pts)
			got := fromPath(data.DouglasPeucker(in, data.Micrometer(k.Eps)))
			if !eqPts(fromPath(in), k.Pts) {
				return fmt.Errorf("the input was modified: %v became %v", k.Pts, fromPath(in))
			}
			eps := float64(k.Eps)
			if k.Eps == -1 {
				eps = 70
			}
			n := len(k.Pts)
			if len(got) < 2 || got[0] != k.Pts[0] || got[len(got)-1] != k.Pts[n-1] {
				return fmt.Errorf("the end points of %v are not kept: %v", k.Pts, got)
			}
			if len(got) > n {
				return fmt.Errorf("%d points became %d", n, len(got))
			}
			if ok := smoothFits(k.Pts, got, eps+1.5); !ok {
				return fmt.Errorf("tolerance %v: %v became %v, which is not a subsequence that leaves out only points closer to the remaining line than the tolerance", eps, k.Pts, got)
			}
			if len(got) < n && len(got) > 2 {
				c.NonTrivial()
			}
			c.LabelIf(len(got) < n, "points removed")
			c.LabelIf(len(got) == n, "nothing removed")
			return nil
		})
	type longCase struct {
		Kind int   `json:"kind"`
		N    int   `json:"n"`
		Size int64 `json:"size"`
		Step int64 `json:"step"`
		Seed int64 `json:"seed"`
		Rev  bool  `json:"reversed"`
		Eps  int64 `json:"eps"`
	}
	Register("C28", "long", 160, 3000,
		"smoothing of paths of 100..2500 points: combs and stairs whose most distant point is always the next one, spirals, circles, random walks and waves, forwards and backwards; non-trivial: at least one point was removed and more than 200 are kept, or nothing was removed from more than 400 points",
		func(t *rapid.T) longCase {
			return longCase{rapid.IntRange(0, 6).Draw(t, "kind"), rapid.IntRange(100, 2500).Draw(t, "n"), rapid.SampledFrom([]int64{2000, 30000, 200000, 900000}).Draw(t, "size"),
				rapid.SampledFrom([]int64{3, 20, 100, 1000}).Draw(t, "step"), rapid.Int64Range(0, 1<<40).Draw(t, "seed"), rapid.Bool().Draw(t, "reversed"), rapid.SampledFrom([]int64{-1, -1, 20, 300}).Draw(t, "eps")}
		},
		func(c *Ctx, k longCase) error {
			pts := longLine(k.Kind, k.N, k.Size, k.Step, k.Seed)
			if k.Rev {
				for i, j := 0, len(pts)-1; i < j; i, j = i+1, j-1 {
					pts[i], pts[j] = pts[j], pts[i]
				}
			}
			in := toPath(pts)
			got := fromPath(data.DouglasPeucker(in, data.Micrometer(k.Eps)))
			if !eqPts(fromPath(in), pts) {
				return fmt.Errorf("the input was modified")
			}
			eps := float64(k.Eps)
			if k.Eps == -1 {
				eps = 70
			}
			n := len(pts)
			if len(got) < 2 || got[0] != pts[0] || got[len(got)-1] != pts[n-1] || len(got) > n {
				return fmt.Errorf("kind %d: the end points are not kept or there are additional points: %d of %d", k.Kind, len(got), n)
			}
			if !smoothFits(pts, got, eps+1.5) {
				return fmt.Errorf("kind %d: tolerance %v: %d of %d points are left, which is not a subsequence that leaves out only points closer to the remaining line than the tolerance", k.Kind, eps, len(got), n)
			}
			if len(got) < n && len(got) > 200 || len(got) == n && n > 400 {
				c.NonTrivial()
			}
			c.Label("%s", fmt.Sprintf("kind %d", k.Kind))
			return nil
		})
	type polyCase struct {
		Pts []P `json:"pts"`
	}
	Register("C28", "polygon", 6000, 200000,
		"simple polygons of 0.3 mm to 1 m size anywhere within 1 m, with extra points up to 12 um beside the edges and 6 um apart; non-trivial: at least one point was removed",
		func(t *rapid.T) polyCase { return polyCase{genPoly(t)} },
		func(c *Ctx, k polyCase) error {
			in := toPath(k.Pts)
			got := fromPath(in.Simplify(-1, -1))
			if !eqPts(fromPath(in), k.Pts) {
				return fmt.Errorf("the input was modified: %v became %v", k.Pts, fromPath(in))
			}
			if _, ok := subsequence(k.Pts, got); !ok {
				return fmt.Errorf("%v became %v, which are other points or another order", k.Pts, got)
			}
			if len(got) < 3 {
				return fmt.Errorf("nothing is left of %v: %v", k.Pts, got)
			}
			var r Region
			var pts []F
			for _, p := range got {
				pts = append(pts, p.F())
			}
			r.AddLoop(pts)
			has := map[P]bool{}
			for _, p := range got {
				has[p] = true
			}
			for _, p := range k.Pts {
				if !has[p] {
					if d := r.Dist(p.F()); d > 15 {
						return fmt.Errorf("the removed point %v is %.0f um away from the simplified polygon %v (of %v)", p, d, got, k.Pts)
					}
				}
			}
			if len(got) < len(k.Pts) {
				c.NonTrivial()
			}
			return nil
		})

	type vecCase struct {
		A   V       `json:"a"`
		B   V       `json:"b"`
		C   V       `json:"c"`
		K   int64   `json:"k"`
		Deg float64 `json:"deg"`
		MM  float32 `json:"mm"`
	}
	Register("C29", "arithmetic", 20000, 1000000,
		"three vectors with coordinates up to 1 m, a scalar, an angle and a millimetre value; compared with arbitrary-precision integer and float arithmetic; non-trivial: every case",
		func(t *rapid.T) vecCase {
			v := func(l string) V { return V{genUm(t, l), genUm(t, l), genUm(t, l)} }
			k := vecCase{A: v("a"), B: v("b"), C: v("c")}
			k.K = rapid.Int64Range(1, 1000).Draw(t, "k")
			if rapid.Bool().Draw(t, "neg") {
				k.K = -k.K
			}
			if rapid.IntRange(0, 2).Draw(t, "near") == 0 { // lengths next to the boundary
				k.B = k.A
				k.B[rapid.IntRange(0, 2).Draw(t, "axis")] += rapid.Int64Range(-3, 3).Draw(t, "delta")
			}
			k.Deg = rapid.SampledFrom([]float64{0, 30, 45, 90, 180, 270, 360, -90, -45, 135, 1, 0.5, 89.9, 720, 1e-9, 33.3}).Draw(t, "deg")
			if rapid.Bool().Draw(t, "anydeg") {
				k.Deg = float64(rapid.Int64Range(-360000, 360000).Draw(t, "mdeg")) / 1000
			}
			switch rapid.IntRange(0, 2).Draw(t, "mmkind") {
			case 0:
				k.MM = float32(rapid.Int64Range(-1000000, 1000000).Draw(t, "um")) / 1000
			case 1:
				k.MM = float32(rapid.Float64Range(-1000, 1000).Draw(t, "mm"))
			default:
				k.MM = float32(rapid.Int64Range(-20000, 20000).Draw(t, "half")) / 2000
			}
			return k
		},
		func(c *Ctx, k vecCase) error {
			c.NonTrivial()
			return checkArithmetic(k.A, k.B, k.C, k.K, k.Deg, k.MM)
		})
	Register("C29", "paths", 4000, 100000,
		"1..4 paths of 0..12 points: bounding boxes and rotation of paths; non-trivial: at least two points",
		func(t *rapid.T) pathsCase {
			k := pathsCase{Deg: float64(rapid.Int64Range(-720, 720).Draw(t, "deg"))}
			n := rapid.IntRange(1, 4).Draw(t, "paths")
			for i := 0; i < n; i++ {
				var p []P
				m := rapid.IntRange(0, 12).Draw(t, "points")
				for j := 0; j < m; j++ {
					p = append(p, P{genUm(t, "x"), genUm(t, "y")})
				}
				k.Paths = append(k.Paths, p)
			}
			return k
		}, checkPaths)
}

// longLine builds a path of n points within a square of about the given size.
func longLine(kind, n int, size, step, seed int64) []P {
	out := make([]P, 0, n)
	r := seed
	next := func(m int64) int64 { // small deterministic generator
		r = (r*6364136223846793005 + 1442695040888963407) & math.MaxInt64
		return (r >> 20) % (m + 1)
	}
	x, y := int64(0), int64(0)
	for i := 0; i < n; i++ {
		f := float64(i) / float64(n)
		a := f * 40 * math.Pi
		var p P
		switch kind {
		case 0: // comb whose teeth get shorter
			p = P{int64(i) * step, 0}
			if i%2 == 1 {
				p[1] = size - int64(f*float64(size)*0.9)
			}
		case 1: // comb whose teeth get longer
			p = P{int64(i) * step, 0}
			if i%2 == 1 {
				p[1] = int64(f*float64(size)) + step
			}
		case 2: // spiral
			p = P{int64(f * float64(size) * math.Cos(a)), int64(f * float64(size) * math.Sin(a))}
		case 3: // circle with noise
			p = P{int64(float64(size) * math.Cos(a/20)), int64(float64(size)*math.Sin(a/20)) + next(step)}
		case 4: // random walk
			x, y = x+next(2*step)-step, y+next(2*step)-step
			p = P{x, y}
		case 5: // parabola: always the next point is the most distant one
			p = P{int64(i) * step, int64(f * f * f * float64(size))}
		default: // stairs
			p = P{int64((i+1)/2) * step, int64(i/2) * (step + next(step))}
		}
		out = append(out, p)
	}
	return out
}

type pathsCase struct {
	Paths [][]P   `json:"paths"`
	Deg   float64 `json:"deg"`
}

// smoothFits decides whether got is a subsequence of pts (first and last point
// included) such that every left out point is within tol of the line through
// its kept neighbours. Points may repeat, hence the search.
func smoothFits(pts, got []P, tol float64) bool {
	// can[i]: the first j+1 points of got can end at pts[i]
	can := map[int]bool{0: got[0] == pts[0]}
	if !can[0] {
		return false
	}
	for j := 1; j < len(got); j++ {
		next := map[int]bool{}
		for i := range pts {
			if !can[i] {
				continue
			}
			for e := i + 1; e < len(pts); e++ {
				if pts[e] != got[j] || next[e] {
					continue
				}
				ok := true
				for q := i + 1; q < e && ok; q++ {
					ok = lineDist(pts[i].F(), pts[e].F(), pts[q].F()) <= tol
				}
				if ok {
					next[e] = true
				}
			}
		}
		can = next
	}
	return can[len(pts)-1]
}

func checkPaths(c *Ctx, k pathsCase) error {
	var ps data.Paths
	total := 0
	min, max := P{math.MaxInt64, math.MaxInt64}, P{math.MinInt64, math.MinInt64}
	grow := func(min, max *P, p P) {
		for a := range p {
			min[a], max[a] = min64(min[a], p[a]), max64(max[a], p[a])
		}
	}
	for _, p := range k.Paths {
		path := toPath(p)
		ps = append(ps, path)
		bmin, bmax := P{math.MaxInt64, math.MaxInt64}, P{math.MinInt64, math.MinInt64}
		for _, q := range p {
			grow(&bmin, &bmax, q)
			grow(&min, &max, q)
			total++
		}
		if len(p) == 0 {
			bmin, bmax = P{}, P{}
		}
		a, b := path.Bounds()
		if g := (P{int64(a.X()), int64(a.Y())}); g != bmin {
			return fmt.Errorf("minimum of %v is %v", p, g)
		}
		if g := (P{int64(b.X()), int64(b.Y())}); g != bmax {
			return fmt.Errorf("maximum of %v is %v", p, g)
		}
	}
	if total == 0 {
		min, max = P{}, P{}
	}
	a, b := ps.Bounds()
	if ga, gb := (P{int64(a.X()), int64(a.Y())}), (P{int64(b.X()), int64(b.Y())}); ga != min || gb != max {
		return fmt.Errorf("bounds of %v are %v %v", k.Paths, ga, gb)
	}
	var parts []data.LayerPart
	for _, p := range ps {
		parts = append(parts, data.NewBasicLayerPart(p, nil))
	}
	a, b = data.NewPartitionedLayer(parts).Bounds()
	if ga, gb := (P{int64(a.X()), int64(a.Y())}), (P{int64(b.X()), int64(b.Y())}); ga != min || gb != max {
		return fmt.Errorf("layer bounds of %v are %v %v", k.Paths, ga, gb)
	}
	ps.Rotate(k.Deg)
	for i := range ps {
		for j, q := range fromPath(ps[i]) {
			if d := rotF(k.Paths[i][j].F(), k.Deg).Dist(q.F()); d > 1 {
				return fmt.Errorf("%v rotated by %v is %v", k.Paths[i][j], k.Deg, q)
			}
		}
	}
	if total > 1 {
		c.NonTrivial()
	}
	return nil
}

func rotF(p F, deg float64) F {
	s, c := math.Sincos(deg * math.Pi / 180)
	return F{p.X*c - p.Y*s, p.X*s + p.Y*c}
}

func checkArithmetic(a, b, cc V, k int64, deg float64, mmv float32) error {
	va, vb := vec(a), vec(b)
	kk := data.Micrometer(k)
	same := func(what string, got data.MicroVec3, want V) error {
		if g := unvec(got); g != want {
			return fmt.Errorf("%s of %v, %v, %d: %v instead of %v", what, a, b, k, g, want)
		}
		return nil
	}
	pts := func(v V) data.MicroPoint {
		return data.NewMicroPoint(data.Micrometer(v[0]), data.Micrometer(v[1]))
	}
	same2 := func(what string, got data.MicroPoint, want V) error {
		if g := (P{int64(got.X()), int64(got.Y())}); g != (P{want[0], want[1]}) {
			return fmt.Errorf("2d %s of %v, %v, %d: %v instead of %v", what, a, b, k, g, want)
		}
		return nil
	}
	pa, pb := pts(a), pts(b)
	for _, s := range []struct {
		what string
		g    data.MicroVec3
		g2   data.MicroPoint
		want V
	}{
		{"sum", va.Add(vb), pa.Add(pb), vadd(a, b)},
		{"difference", va.Sub(vb), pa.Sub(pb), vsub(a, b)},
		{"product", va.Mul(kk), pa.Mul(kk), V{a[0] * k, a[1] * k, a[2] * k}},
		{"quotient", va.Div(kk), pa.Div(kk), V{a[0] / k, a[1] / k, a[2] / k}},
		{"copy", va.Copy(), pa.Copy(), a},
	} {
		if err := same(s.what, s.g, s.want); err != nil {
			return err
		}
		if err := same2(s.what, s.g2, s.want); err != nil {
			return err
		}
	}
	if g := va.PointXY(); g.X() != pa.X() || g.Y() != pa.Y() {
		return fmt.Errorf("PointXY of %v: %v %v", a, g.X(), g.Y())
	}
	if g, w := int64(va.Max()), max64(a[0], max64(a[1], a[2])); g != w {
		return fmt.Errorf("maximum of %v: %d", a, g)
	}
	if data.Max(kk, 7) != data.Micrometer(max64(k, 7)) || data.Min(kk, 7) != data.Micrometer(min64(k, 7)) {
		return fmt.Errorf("Max or Min of %d and 7", k)
	}
	d := vsub(a, b)
	vd, pd := va.Sub(vb), pa.Sub(pb)
	for n, dims := range []int{3, 2} {
		sq := new(big.Int)
		for i := 0; i < dims; i++ {
			x := big.NewInt(d[i])
			sq.Add(sq, x.Mul(x, x))
		}
		var size2, size data.Micrometer
		var shorter func(data.Micrometer) bool
		if n == 0 {
			size2, size, shorter = vd.Size2(), vd.Size(), vd.ShorterThanOrEqual
		} else {
			size2, size, shorter = pd.Size2(), pd.Size(), pd.ShorterThanOrEqual
		}
		if big.NewInt(int64(size2)).Cmp(sq) != 0 {
			return fmt.Errorf("squared size of %v (%d dimensions): %d", d, dims, size2)
		}
		root := new(big.Int).Sqrt(sq).Int64()
		if g := int64(size); g < root-1 || g > root+1 {
			return fmt.Errorf("size of %v (%d dimensions): %d", d, dims, g)
		}
		for _, l := range []int64{0, 1, root - 1, root, root + 1, 2 * root, 30, 160, 1000, int64(math.Abs(float64(k)))} {
			if l < 0 {
				continue
			}
			lb := big.NewInt(l)
			if want := sq.Cmp(lb.Mul(lb, lb)) <= 0; shorter(data.Micrometer(l)) != want {
				return fmt.Errorf("%v (%d dimensions) shorter than or equal %d: %v", d, dims, l, !want)
			}
		}
	}
	wantMM := math.Hypot(float64(d[0]), float64(d[1])) / 1000
	if g := float64(pd.SizeMM()); math.Abs(g-wantMM) > 1e-6*wantMM+1e-6 {
		return fmt.Errorf("size of %v in mm: %v", d, g)
	}
	if g := data.DotProduct(pa, pb); int64(g) != a[0]*b[0]+a[1]*b[1] {
		return fmt.Errorf("dot product of %v and %v: %d", a, b, g)
	}
	pc := pts(cc)
	// squared distance of c to the line a-b, exactly
	ab, ac := vsub(b, a), vsub(cc, a)
	var want float64
	if ab[0] == 0 && ab[1] == 0 {
		want = float64(ac[0]*ac[0] + ac[1]*ac[1])
	} else {
		cr := new(big.Int).Sub(new(big.Int).Mul(big.NewInt(ab[0]), big.NewInt(ac[1])), new(big.Int).Mul(big.NewInt(ab[1]), big.NewInt(ac[0])))
		cr.Mul(cr, cr)
		want, _ = new(big.Rat).SetFrac(cr, big.NewInt(ab[0]*ab[0]+ab[1]*ab[1])).Float64()
	}
	if g := float64(data.PerpendicularDistance2(pa, pb, pc)); math.Abs(g-want) > 2+1e-9*want {
		return fmt.Errorf("squared distance of %v to the line %v %v: %v instead of %v", cc, a, b, g, want)
	}
	if g := pa.Rotate(deg); rotF(F{float64(a[0]), float64(a[1])}, deg).Dist(F{float64(g.X()), float64(g.Y())}) > 1 {
		return fmt.Errorf("%v rotated by %v: %d %d", a, deg, g.X(), g.Y())
	}
	if g := data.ToRadians(deg); math.Abs(g-deg*math.Pi/180) > 1e-9 {
		return fmt.Errorf("%v degree in radians: %v", deg, g)
	}
	if unvec(va) != a || unvec(vb) != b || int64(pa.X()) != a[0] || int64(pa.Y()) != a[1] || int64(pb.X()) != b[0] || int64(pb.Y()) != b[1] || int64(pc.X()) != cc[0] || int64(pc.Y()) != cc[1] {
		return fmt.Errorf("an operation modified its operands %v %v %v", a, b, cc)
	}
	// setters work on the receiver only
	cp, cp2 := va.Copy(), pa.Copy()
	cp.SetX(1)
	cp.SetY(2)
	cp.SetZ(3)
	cp2.SetX(1)
	cp2.SetY(2)
	if unvec(cp) != (V{1, 2, 3}) || unvec(va) != a || cp2.X() != 1 || cp2.Y() != 2 || int64(pa.X()) != a[0] || int64(pa.Y()) != a[1] {
		return fmt.Errorf("setting coordinates of a copy of %v: %v", a, unvec(cp))
	}
	// units
	for _, um := range a {
		m := data.Micrometer(um).ToMillimeter()
		if math.Abs(float64(m)*1000-float64(um)) > 0.1 {
			return fmt.Errorf("%d um are %v mm", um, m)
		}
		if g := m.ToMicrometer(); int64(g) != um {
			return fmt.Errorf("%d um became %d um via millimetres", um, g)
		}
	}
	if g := data.Millimeter(mmv).ToMicrometer(); math.Abs(float64(g)-float64(mmv)*1000) > 0.51+math.Abs(float64(mmv))*1e-4 {
		return fmt.Errorf("%v mm are %d um", mmv, g)
	}
	return nil
}
