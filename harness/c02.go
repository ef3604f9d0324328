package main

import (
	"fmt"

	"pgregory.net/rapid"
)

func vdist2(a, b V) int64 {
	d := int64(0)
	for k := range a {
		d += (a[k] - b[k]) * (a[k] - b[k])
	}
	return d
}

func vsub(a, b V) V { return V{a[0] - b[0], a[1] - b[1], a[2] - b[2]} }
func vadd(a, b V) V { return V{a[0] + b[0], a[1] + b[1], a[2] + b[2]} }

type soupCase struct {
	Tris   []Tri `json:"tris"`
	Meld   int64 `json:"meld"`
	Center V     `json:"center"`
}

// genSoup draws triangles over a small set of points, many of them identical
// or within the meld distance of each other. The first two faces span the
// bounding box and are far from everything else.
var genSoup = rapid.Custom(func(t *rapid.T) soupCase {
	k := soupCase{Meld: rapid.SampledFrom([]int64{0, 1, 2, 10, 30, 30, 30, 100, 500}).Draw(t, "meld")}
	k.Center = V{rapid.Int64Range(-200000, 200000).Draw(t, "cx"), rapid.Int64Range(-200000, 200000).Draw(t, "cy"), rapid.Int64Range(-20000, 20000).Draw(t, "cz")}
	size := rapid.SampledFrom([]int64{200, 2000, 50000}).Draw(t, "size")
	o := V{rapid.Int64Range(-300000, 300000).Draw(t, "ox"), rapid.Int64Range(-300000, 300000).Draw(t, "oy"), rapid.Int64Range(-300000, 300000).Draw(t, "oz")}
	far := size + 10*k.Meld + 1000
	a, b := vadd(o, V{-far, -far, -far}), vadd(o, V{far, far, far})
	s := 3*k.Meld + 100
	k.Tris = []Tri{{a, vadd(a, V{s, 0, 0}), vadd(a, V{0, s, 0})}, {b, vadd(b, V{-s, 0, 0}), vadd(b, V{0, 0, -s})}}
	var pts []V
	n := rapid.IntRange(3, 8).Draw(t, "points")
	for i := 0; i < n; i++ {
		p := V{}
		for j := range p {
			p[j] = o[j] + rapid.Int64Range(-size, size).Draw(t, "p")
		}
		if i > 0 && rapid.Bool().Draw(t, "near") {
			q := pts[rapid.IntRange(0, i-1).Draw(t, "nearto")]
			for j := range p {
				p[j] = q[j] + rapid.Int64Range(-k.Meld, k.Meld).Draw(t, "jitter")
			}
		}
		pts = append(pts, p)
	}
	m := rapid.IntRange(1, 14).Draw(t, "faces")
	if rapid.IntRange(0, 9).Draw(t, "many") == 0 {
		m = rapid.IntRange(15, 60).Draw(t, "manyfaces")
	}
	for i := 0; i < m; i++ {
		var f Tri
		for j := range f {
			f[j] = pts[rapid.IntRange(0, n-1).Draw(t, "v")]
		}
		k.Tris = append(k.Tris, f)
	}
	return k
})

func init() {
	optOf := func(k soupCase) Opt {
		o := stdOpt()
		o.Meld, o.Center = k.Meld, k.Center
		return o
	}
	Register("C02", "surface", 4000, 80000,
		"two anchor faces plus 1..14 triangles over 3..8 points, half of them within the meld distance of another, meld distances 0..500; every input face is matched with a prepared face or its absence justified; non-trivial: a face was dropped or a vertex moved",
		func(t *rapid.T) soupCase { return genSoup.Draw(t, "soup") },
		func(c *Ctx, k soupCase) error {
			om, err := optimizeOnly(optOf(k), k.Tris)
			if err != nil {
				return err
			}
			out := modelTris(om)
			if len(out) == 0 {
				return fmt.Errorf("no faces left")
			}
			for i, f := range out {
				low, high := min64(min64(f[0][2], f[1][2]), f[2][2]), max64(max64(f[0][2], f[1][2]), f[2][2])
				if o := om.OptimizedFace(i); int64(o.MinZ()) != low || int64(o.MaxZ()) != high {
					return fmt.Errorf("prepared face %d %v reaches from %d to %d instead of %d to %d", i, f, o.MinZ(), o.MaxZ(), low, high)
				}
			}
			T := vsub(out[0][0], k.Tris[0][0])
			d2 := k.Meld * k.Meld
			near := func(a, b V, k2 int64) bool { return vdist2(a, b) <= k2 }
			seen := map[V]V{}
			dropped, moved, steps := 0, 0, 0
			deepest := 0
			// assign matches the faces from i on with the prepared ones from j on
			var assign func(i, j int) bool
			assign = func(i, j int) bool {
				if steps++; steps > 300000 {
					return true
				}
				if i > deepest {
					deepest = i
				}
				if i == len(k.Tris) {
					return j == len(out)
				}
				f := k.Tris[i]
				degenerate := f[0] == f[1] || f[1] == f[2] || f[0] == f[2]
				fits := j < len(out) && !degenerate
				for v := 0; v < 3 && fits; v++ {
					got := vsub(out[j][v], T)
					was, ok := seen[f[v]]
					fits = vdist2(f[v], got) <= d2 && (!ok || was == got)
				}
				if fits {
					var added []V
					for v := 0; v < 3; v++ {
						if _, ok := seen[f[v]]; !ok {
							seen[f[v]] = vsub(out[j][v], T)
							added = append(added, f[v])
							if seen[f[v]] != f[v] {
								moved++
							}
						}
					}
					if assign(i+1, j+1) {
						return true
					}
					for _, v := range added {
						if seen[v] != v {
							moved--
						}
						delete(seen, v)
					}
				}
				// the absence must be justified
				ok := near(f[0], f[1], 4*d2) || near(f[1], f[2], 4*d2) || near(f[0], f[2], 4*d2)
				for q := 0; q < j && !ok; q++ {
					for _, p := range [][3]int{{0, 1, 2}, {0, 2, 1}, {1, 0, 2}, {1, 2, 0}, {2, 0, 1}, {2, 1, 0}} {
						if near(vadd(f[0], T), out[q][p[0]], d2) && near(vadd(f[1], T), out[q][p[1]], d2) && near(vadd(f[2], T), out[q][p[2]], d2) {
							ok = true
						}
					}
				}
				if !ok {
					return false
				}
				dropped++
				if assign(i+1, j) {
					return true
				}
				dropped--
				return false
			}
			if !assign(0, 0) {
				return fmt.Errorf("the prepared faces (moved by %v) %v are not the input faces without degenerate and equal ones, moved by at most %d: %v; no face fits from input face %d on", T, out, k.Meld, k.Tris, deepest)
			}
			for a := range out {
				for b := 0; b < a; b++ {
					if samePoints(out[a], out[b]) {
						return fmt.Errorf("prepared faces %d and %d are equal: %v", b, a, out[a])
					}
				}
				if out[a][0] == out[a][1] || out[a][1] == out[a][2] || out[a][0] == out[a][2] {
					return fmt.Errorf("prepared face %d is degenerate: %v", a, out[a])
				}
			}
			c.LabelIf(steps > 300000, "assignment not finished")
			if dropped > 0 || moved > 0 {
				c.NonTrivial()
			}
			c.LabelIf(dropped > 0, "dropped faces")
			c.LabelIf(moved > 0, "moved vertices")
			return nil
		})

	type jitterCase struct {
		Seed uint64 `json:"seed"`
		Meld int64  `json:"meld"`
	}
	Register("C02", "melding", 600, 10000,
		"40 separate points at seeded pseudo-random places, each used by two faces with a jitter of at most a tenth of the meld distance; most must become one point; non-trivial: every case",
		func(t *rapid.T) jitterCase {
			return jitterCase{rapid.Uint64Range(1, 1<<40).Draw(t, "seed"), rapid.Int64Range(20, 400).Draw(t, "meld")}
		},
		func(c *Ctx, k jitterCase) error {
			c.NonTrivial()
			l := lcg(k.Seed)
			for i := 0; i < 5; i++ {
				l.next()
			}
			rnd := func(n int64) int64 { return int64(l.next() % uint64(n)) }
			var ts []Tri
			const n = 40
			for i := int64(0); i < n; i++ {
				base := V{i*20000 + rnd(5000), rnd(5000), rnd(5000)}
				other := V{base[0] + 7000, base[1] + 9000, base[2]}
				third := V{base[0] + 3000, base[1] + 1000, base[2] + 9000}
				j := k.Meld / 10
				near := V{base[0] + rnd(j+1)*2/3, base[1] + rnd(j+1)*2/3, base[2] - rnd(j+1)*2/3}
				ts = append(ts, Tri{base, other, third}, Tri{third, other, near})
			}
			om, err := optimizeOnly(optOf(soupCase{Meld: k.Meld}), ts)
			if err != nil {
				return err
			}
			// a melded pair makes the second face equal to the first (dropped)
			kept := om.FaceCount()
			if kept < n {
				return fmt.Errorf("%d of the %d separate faces are missing", n-kept, n)
			}
			if merged := 2*n - kept; merged < n*3/10 {
				return fmt.Errorf("only %d of %d nearly coincident points were melded", merged, n)
			}
			return nil
		})

	type degenerateCase struct {
		Tris []Tri `json:"tris"`
		Meld int64 `json:"meld"`
	}
	Register("C02", "unusable", 500, 5000,
		"only triangles with two equal or nearly equal vertices; preparing must report an error or keep only faces with three points; non-trivial: every case",
		func(t *rapid.T) degenerateCase {
			k := degenerateCase{Meld: rapid.Int64Range(0, 100).Draw(t, "meld")}
			n := rapid.IntRange(1, 5).Draw(t, "n")
			for i := 0; i < n; i++ {
				a := V{rapid.Int64Range(-90000, 90000).Draw(t, "x"), rapid.Int64Range(-90000, 90000).Draw(t, "y"), rapid.Int64Range(-90000, 90000).Draw(t, "z")}
				b := vadd(a, V{rapid.Int64Range(0, 9000).Draw(t, "x2"), 0, 0})
				k.Tris = append(k.Tris, rapid.SampledFrom([]Tri{{a, a, b}, {a, b, a}, {b, a, a}, {a, a, a}}).Draw(t, "f"))
			}
			return k
		},
		func(c *Ctx, k degenerateCase) error {
			c.NonTrivial()
			om, err := optimizeOnly(optOf(soupCase{Meld: k.Meld}), k.Tris)
			if err == nil {
				return fmt.Errorf("no error, but %d faces: %v", om.FaceCount(), modelTris(om))
			}
			return nil
		})

	checkAdjacency := func(c *Ctx, o Opt, ts []Tri, closed bool) error {
		om, err := optimizeOnly(o, ts)
		if err != nil {
			return err
		}
		out := modelTris(om)
		has := func(t Tri, v V) bool { return t[0] == v || t[1] == v || t[2] == v }
		open, multi := 0, 0
		type edge [2]V
		with := map[edge][]int{}
		key := func(a, b V) edge {
			if fmt.Sprint(b) < fmt.Sprint(a) {
				a, b = b, a
			}
			return edge{a, b}
		}
		for i, t := range out {
			for e := 0; e < 3; e++ {
				with[key(t[e], t[(e+1)%3])] = append(with[key(t[e], t[(e+1)%3])], i)
			}
		}
		for i, t := range out {
			f := om.OptimizedFace(i)
			touch := f.TouchingFaceIndices()
			fp := f.Points()
			if (Tri{unvec(fp[0]), unvec(fp[1]), unvec(fp[2])}) != t {
				return fmt.Errorf("face %d has other points as optimized face", i)
			}
			for e := 0; e < 3; e++ {
				a, b := t[e], t[(e+1)%3]
				others := 0
				for _, q := range with[key(a, b)] {
					if q != i {
						others++
					}
				}
				if others > 1 {
					multi++
				}
				n := touch[e]
				if n == -1 {
					open++
					if others > 0 {
						return fmt.Errorf("face %d %v edge %d: no neighbour reported, but %d other faces contain it", i, t, e, others)
					}
					continue
				}
				if n < 0 || n >= len(out) || n == i {
					return fmt.Errorf("face %d edge %d: impossible neighbour %d of %d faces", i, e, n, len(out))
				}
				if !has(out[n], a) || !has(out[n], b) {
					return fmt.Errorf("face %d %v edge %d (%v-%v): neighbour %d %v does not contain it", i, t, e, a, b, n, out[n])
				}
				if others == 1 {
					back := om.OptimizedFace(n).TouchingFaceIndices()
					if back[0] != i && back[1] != i && back[2] != i {
						return fmt.Errorf("face %d names %d as neighbour, but not the other way round", i, n)
					}
				}
			}
		}
		c.LabelIf(open > 0, "open edges")
		c.LabelIf(multi > 0, "edges with more than two faces")
		if closed && open > 0 {
			return fmt.Errorf("%d edges of a closed mesh have no neighbour", open)
		}
		if len(out) > 3 {
			c.NonTrivial()
		}
		return nil
	}
	Register("C03", "soup", 3000, 60000,
		"triangle soups over few shared points (open, non-manifold, melded); adjacency recomputed from the prepared faces; non-trivial: more than 3 faces",
		func(t *rapid.T) soupCase { return genSoup.Draw(t, "soup") },
		func(c *Ctx, k soupCase) error { return checkAdjacency(c, optOf(k), k.Tris, false) })
	Register("C03", "closed", 1500, 30000,
		"closed meshes of 1..3 bodies (lofts, tubes, voxel sets), triangles in generated order; every edge must have its neighbour; non-trivial: more than 3 faces",
		func(t *rapid.T) shuffled { return genShuffled(t) },
		func(c *Ctx, k shuffled) error {
			o := stdOpt()
			o.Meld = 1 // far below the feature size, no melding
			return checkAdjacency(c, o, k.Tris(), true)
		})

	type placeCase struct {
		Sh     shuffled `json:"mesh"`
		Move   V        `json:"move"`
		Center V        `json:"center"`
	}
	Register("C04", "placement", 2500, 50000,
		"closed meshes anywhere in space placed at a generated centre, and the same mesh moved; all vertex offsets, bounds and sizes are compared; non-trivial: every case",
		func(t *rapid.T) placeCase {
			rng := func(l string, n int64) int64 { return rapid.Int64Range(-n, n).Draw(t, l) }
			moved := rapid.SampledFrom([]int64{500000, 500000, 500000, 10000000}).Draw(t, "moved")
			return placeCase{genShuffled(t), V{rng("mx", moved), rng("my", moved), rng("mz", moved)}, V{rng("cx", 300000), rng("cy", 300000), rng("cz", 5000)}}
		},
		func(c *Ctx, k placeCase) error {
			c.NonTrivial()
			o := stdOpt()
			o.Meld, o.Center = 1, k.Center
			in := k.Sh.Tris()
			run := func(in []Tri) ([]Tri, error) {
				om, err := optimizeOnly(o, in)
				if err != nil {
					return nil, err
				}
				out := modelTris(om)
				if len(out) != len(in) {
					return nil, fmt.Errorf("%d faces became %d", len(in), len(out))
				}
				T := vsub(out[0][0], in[0][0])
				for i := range in {
					for v := range in[i] {
						if vadd(in[i][v], T) != out[i][v] {
							return nil, fmt.Errorf("face %d: vertex %v became %v, but the first one was moved by %v", i, in[i][v], out[i][v], T)
						}
					}
				}
				min, max := bounds3(out)
				if got := unvec(om.Min()); got != min {
					return nil, fmt.Errorf("reported minimum %v, actual %v", got, min)
				}
				if got := unvec(om.Max()); got != max {
					return nil, fmt.Errorf("reported maximum %v, actual %v", got, max)
				}
				if got := unvec(om.Size()); got != vsub(max, min) {
					return nil, fmt.Errorf("reported size %v, actual %v", got, vsub(max, min))
				}
				for a := 0; a < 2; a++ {
					if d := min[a] + max[a] - 2*k.Center[a]; d < -2 || d > 2 {
						return nil, fmt.Errorf("axis %d: the model spans %d..%d, which is not centred at %d", a, min[a], max[a], k.Center[a])
					}
				}
				if min[2] != k.Center[2] {
					return nil, fmt.Errorf("the lowest point is at %d instead of %d", min[2], k.Center[2])
				}
				return out, nil
			}
			a, err := run(in)
			if err != nil {
				return err
			}
			moved := make([]Tri, len(in))
			for i := range in {
				for v := range in[i] {
					moved[i][v] = vadd(in[i][v], k.Move)
				}
			}
			b, err := run(moved)
			if err != nil {
				return fmt.Errorf("moved mesh: %w", err)
			}
			for i := range a {
				for v := range a[i] {
					d := vsub(a[i][v], b[i][v])
					if d[0] < -1 || d[0] > 1 || d[1] < -1 || d[1] > 1 || d[2] != 0 {
						return fmt.Errorf("vertex %d/%d is placed at %v, but at %v if the file is moved by %v", i, v, a[i][v], b[i][v], k.Move)
					}
				}
			}
			return nil
		})
}

func init() {
	type strayCase struct {
		Sh     shuffled `json:"mesh"`
		Center V        `json:"center"`
		Stray  []Tri    `json:"stray"` // degenerate faces, relative to the mesh
		At     []int    `json:"at"`
	}
	Register("C04", "degenerate", 1200, 30000,
		"closed meshes with 1..4 degenerate faces (at least two equal corners) in between, up to 80 mm away from the mesh; they are dropped, and the reported minimum and maximum are those of the faces which are kept, placement and size those of the input; non-trivial: a degenerate face outside of the bounds of the mesh",
		func(t *rapid.T) strayCase {
			rng := func(l string, n int64) int64 { return rapid.Int64Range(-n, n).Draw(t, l) }
			k := strayCase{Sh: genShuffled(t), Center: V{rng("cx", 300000), rng("cy", 300000), rng("cz", 5000)}}
			for i := rapid.IntRange(1, 4).Draw(t, "strays"); i > 0; i-- {
				a, b := V{rng("ax", 80000), rng("ay", 80000), rng("az", 80000)}, V{rng("bx", 80000), rng("by", 80000), rng("bz", 80000)}
				k.Stray = append(k.Stray, rapid.SampledFrom([]Tri{{a, a, b}, {a, b, a}, {b, a, a}, {a, a, a}}).Draw(t, "kind"))
				k.At = append(k.At, rapid.IntRange(0, 1000).Draw(t, "at"))
			}
			return k
		},
		func(c *Ctx, k strayCase) error {
			o := stdOpt()
			o.Meld, o.Center = 1, k.Center
			clean := k.Sh.Tris()
			lo, hi := bounds3(clean)
			in := append([]Tri(nil), clean...)
			for i, s := range k.Stray {
				for v := range s {
					s[v] = vadd(s[v], lo)
					for a := 0; a < 3; a++ {
						if s[v][a] < lo[a]-1000 || s[v][a] > hi[a]+1000 {
							c.NonTrivial()
						}
					}
				}
				at := k.At[i] * len(in) / 1001
				in = append(in[:at], append([]Tri{s}, in[at:]...)...)
			}
			om, err := optimizeOnly(o, in)
			if err != nil {
				return err
			}
			out := modelTris(om)
			if len(out) != len(clean) {
				return fmt.Errorf("%d faces became %d, the %d degenerate ones are to be dropped", len(in), len(out), len(k.Stray))
			}
			T := vsub(out[0][0], clean[0][0])
			for i := range clean {
				for v := range clean[i] {
					if vadd(clean[i][v], T) != out[i][v] {
						return fmt.Errorf("face %d: vertex %v became %v, but the first one was moved by %v", i, clean[i][v], out[i][v], T)
					}
				}
			}
			min, max := bounds3(out)
			if got := unvec(om.Min()); got != min {
				return fmt.Errorf("reported minimum %v, actual %v", got, min)
			}
			if got := unvec(om.Max()); got != max {
				return fmt.Errorf("reported maximum %v, actual %v", got, max)
			}
			imin, imax := bounds3(in)
			if got := unvec(om.Size()); got != vsub(imax, imin) {
				return fmt.Errorf("reported size %v, the input's is %v", got, vsub(imax, imin))
			}
			imin, imax = vadd(imin, T), vadd(imax, T)
			for a := 0; a < 2; a++ {
				if d := imin[a] + imax[a] - 2*k.Center[a]; d < -2 || d > 2 {
					return fmt.Errorf("axis %d: the input spans %d..%d once placed, which is not centred at %d", a, imin[a], imax[a], k.Center[a])
				}
			}
			if imin[2] != k.Center[2] {
				return fmt.Errorf("the lowest point of the input is at %d instead of %d", imin[2], k.Center[2])
			}
			return nil
		})
}

func samePoints(a, b Tri) bool {
	n := 0
	for _, v := range a {
		if v == b[0] || v == b[1] || v == b[2] {
			n++
		}
	}
	for _, v := range b {
		if v != a[0] && v != a[1] && v != a[2] {
			return false
		}
	}
	return n == 3
}

// shuffled is a mesh with its triangles in a generated order.
type shuffled struct {
	Mesh  Mesh  `json:"mesh"`
	Order []int `json:"order,omitempty"` // sort keys, reused cyclically
	Rot   []int `json:"rot,omitempty"`   // vertex rotation, reused cyclically

}

func genOrder(t *rapid.T) ([]int, []int) {
	if !rapid.Bool().Draw(t, "shuffle") {
		return nil, nil
	}
	return rapid.SliceOfN(rapid.IntRange(0, 1000), 7, 7).Draw(t, "order"), rapid.SliceOfN(rapid.IntRange(0, 2), 5, 5).Draw(t, "rot")
}

func genShuffled(t *rapid.T) shuffled {
	s := shuffled{Mesh: genMesh(t, meshOpts{maxSolids: 3, minSize: 200, maxSize: 20000, minHeight: 300, maxHeight: 15000, zGap: true, overhang: true, round: true})}
	s.Order, s.Rot = genOrder(t)
	return s
}

func (s shuffled) Tris() []Tri { return reorder(s.Mesh.Tris(), s.Order, s.Rot) }
