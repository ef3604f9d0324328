package main

import (
	"fmt"
	"math"
	"os"

	"github.com/aligator/goslice/clip"
	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/optimizer"
	"github.com/aligator/goslice/reader"
	"github.com/aligator/goslice/slicer"
	"pgregory.net/rapid"
)

// tol is the distance from the boundary within which points are not compared:
// paths are simplified by a few micrometres, and where the mesh is not much
// coarser than the join distance, contours may snap by that distance.
func (k sliceCase) tol() float64 {
	if k.minDist() > 300 {
		return 40
	}
	return float64(max64(40, k.Join+15))
}

// minDist is the smallest distance of two vertices of the mesh.
func (k sliceCase) minDist() float64 {
	seen := map[V]bool{}
	var vs []V
	for _, t := range k.Sh.Tris() {
		for _, v := range t {
			if !seen[v] {
				seen[v] = true
				vs = append(vs, v)
			}
		}
	}
	best := int64(1) << 60
	for i := range vs {
		for j := range vs[:i] {
			best = min64(best, vdist2(vs[i], vs[j]))
		}
	}
	return math.Sqrt(float64(best))
}

type sliceCase struct {
	Sh     shuffled `json:"mesh"`
	ILT    int64    `json:"ilt"`
	LT     int64    `json:"lt"`
	Finish int64    `json:"finish"`
	Join   int64    `json:"join"`
	Center V        `json:"center"`
	Seed   uint64   `json:"seed"`
}

func (k sliceCase) opt() Opt {
	o := stdOpt()
	o.ILT, o.LT, o.Finish, o.Center = k.ILT, k.LT, k.Finish, k.Center
	o.Join = k.Join
	if k.minDist() <= 90 {
		o.Meld = 4 // no two vertices may meld
	}
	return o
}

func genSliceCase(t *rapid.T, solids int) sliceCase {
	k := sliceCase{}
	k.LT = rapid.Int64Range(50, 1000).Draw(t, "lt")
	k.ILT = rapid.Int64Range(50, 1000).Draw(t, "ilt")
	k.Finish = rapid.SampledFrom([]int64{1000, 1000, 1000, 100, 300, 6000}).Draw(t, "finish")
	k.Join = rapid.SampledFrom([]int64{160, 160, 20, 50}).Draw(t, "join")
	k.Center = V{rapid.Int64Range(-100000, 200000).Draw(t, "cx"), rapid.Int64Range(-100000, 200000).Draw(t, "cy"), 0}
	if rapid.IntRange(0, 3).Draw(t, "raised") == 0 {
		k.Center[2] = rapid.Int64Range(-k.ILT-k.LT, 3*k.LT).Draw(t, "cz")
	}
	minS := rapid.SampledFrom([]int64{300, 1000, 1000, 5000, 20000}).Draw(t, "mins")
	k.Sh.Mesh = genMesh(t, meshOpts{maxSolids: solids, minSize: minS, maxSize: minS * rapid.Int64Range(4, 15).Draw(t, "ratio"),
		zGrid: k.LT, zBase: k.ILT, minHeight: max64(300, k.ILT), maxHeight: k.ILT + 10*k.LT, zGap: true, overhang: true, round: true})
	if minS >= 1000 && rapid.IntRange(0, 2).Draw(t, "tilted") == 0 {
		// parts of a tilted surface are cut at any size, so all of them have to be kept
		k.Finish = min64(k.Finish, 300)
		genTilt(t, &k.Sh.Mesh, 6*k.LT)
	}
	k.Sh.Order, k.Sh.Rot = genOrder(t)
	k.Seed = rapid.Uint64Range(1, 1<<30).Draw(t, "seed")
	if k.minDist() <= 300 {
		k.Join = min64(k.Join, 50) // below the feature size
	}
	return k
}

// compareSection checks one layer against the expected region.
func compareSection(what string, parts []data.LayerPart, want Region, finish float64, seed uint64, tol float64, c *Ctx) (int, error) {
	got := partsRegion(parts)
	var small []Region
	for _, comp := range want.components() {
		if comp.length() <= finish*1.02+200 {
			small = append(small, comp)
		}
	}
	n := 0
next:
	for _, p := range probes(seed, 30, 40, []float64{tol + 5, 2 * tol, 300}, want, got) {
		if want.Dist(p) < tol {
			continue
		}
		for _, s := range small {
			if s.inBounds(p, tol) {
				continue next
			}
		}
		n++
		if in, w := got.Inside(p), want.Inside(p); in != w {
			return n, fmt.Errorf("%s: point %.0f/%.0f is inside the solid: %v, but inside a layer part: %v (%.0f um from the boundary)", what, p.X, p.Y, w, in, want.Dist(p))
		}
		// inside exactly one part
		if want.Inside(p) {
			m := 0
			for i := range parts {
				if (partsRegion(parts[i : i+1])).Inside(p) {
					m++
				}
			}
			if m != 1 {
				return n, fmt.Errorf("%s: point %.0f/%.0f is inside %d layer parts", what, p.X, p.Y, m)
			}
		}
	}
	return n, nil
}

func checkSections(c *Ctx, k sliceCase) error {
	in := k.Sh.Tris()
	o := k.opt()
	_, layers, err := sliceOnly(o, in)
	placed := place(in, k.Center)
	c.LabelIf(len(k.Sh.Mesh.Tilt) > 0, "tilted")
	min, max := bounds3(in)
	top := max[2] - min[2] + k.Center[2]
	if top < k.ILT {
		c.Label("does not reach the first layer")
		if err == nil && len(layers) > 0 {
			return fmt.Errorf("%d layers, but the model ends at %d below the first layer", len(layers), top)
		}
		return nil
	}
	if err != nil {
		return err
	}
	n := int((top-k.ILT)/k.LT) + 1
	if len(layers) != n {
		return fmt.Errorf("%d layers instead of %d: the top is at %d um, first layer %d, others %d", len(layers), n, top, k.ILT, k.LT)
	}
	compared, empty := 0, 0
	tol := k.tol()
	for i, l := range layers {
		want := section(placed, float64(k.ILT+int64(i)*k.LT))
		if len(want.Segs) == 0 {
			empty++
			if len(l.LayerParts()) > 0 {
				return fmt.Errorf("layer %d has %d parts although nothing is there", i, len(l.LayerParts()))
			}
			continue
		}
		m, err := compareSection(fmt.Sprintf("layer %d", i), l.LayerParts(), want, float64(k.Finish), k.Seed+uint64(i), tol, c)
		if err != nil {
			return err
		}
		compared += m
	}
	if n > 1 && compared > 50 {
		c.NonTrivial()
	}
	c.LabelIf(empty > 0, "empty layers between")
	c.LabelIf(k.Center[2] != 0, "raised or sunken model")
	return nil
}

func init() {
	Register("C05", "sections", 2500, 60000,
		"closed meshes of 1..4 disjoint bodies of 0.3..300 mm (lofts, tubes, voxel sets; vertices, edges and faces also exactly on layer planes; floating bodies; a third of them tilted by up to 6 layers, so that no two vertices of a face have the same height), layer heights 50..1000 um; every layer is compared with an independent section at points beside its contour and everywhere; non-trivial: at least two layers and 50 compared points",
		func(t *rapid.T) sliceCase { return genSliceCase(t, 4) }, checkSections)

	Register("C05", "large", 600, 15000,
		"closed meshes of 1..3 bodies of 5..600 mm in each direction (steep and flat walls, ledges wider than any layer), layers of 0.1..1 mm on the plate, which cut them 1..40 times because the bodies are mostly sunken into the plate; compared like above; non-trivial: at least two layers and 50 compared points",
		func(t *rapid.T) sliceCase {
			k := genSliceCase(t, 1)
			minS := rapid.SampledFrom([]int64{5000, 20000, 50000}).Draw(t, "lmins")
			maxH := rapid.SampledFrom([]int64{40000, 150000, 600000}).Draw(t, "maxh")
			k.Sh.Mesh = genMesh(t, meshOpts{maxSolids: 3, minSize: minS, maxSize: minS * rapid.Int64Range(4, 12).Draw(t, "lratio"),
				minHeight: 10000, maxHeight: maxH, zGap: true, overhang: true, round: true})
			min, max := bounds3(k.Sh.Tris())
			// only the upper end sticks out of the plate; where it is cut is drawn
			n := rapid.Int64Range(1, 12).Draw(t, "layers")
			k.LT = rapid.Int64Range(100, 1000).Draw(t, "llt")
			if f := rapid.IntRange(0, 2).Draw(t, "coarse"); f > 0 {
				k.LT *= int64(f) * 10
				k.ILT = k.LT
			}
			k.Center[2] = k.ILT + n*k.LT - (max[2] - min[2])
			if k.Center[2] > 0 {
				k.Center[2] = 0
			}
			k.Finish, k.Join = 1000, 160
			if k.minDist() <= 300 {
				k.Join = 50 // below the feature size
			}
			return k
		}, checkSections)

	type jitterSlice struct {
		K      sliceCase `json:"case"`
		Jitter int64     `json:"jitter"`
	}
	Register("C05", "nearly-closed", 1500, 40000,
		"the same meshes with features of at least 3 mm whose vertices differ in X and Y from face to face by up to 6 um (melding, join and finish distance have to close them); layers which pass within 50 um of a vertex are left out; non-trivial: at least one layer and 50 points compared",
		func(t *rapid.T) jitterSlice {
			k := jitterSlice{K: genSliceCase(t, 3), Jitter: rapid.Int64Range(1, 6).Draw(t, "jitter")}
			k.K.Finish, k.K.Join = 1000, 160
			f := rapid.SampledFrom([]int64{3000, 6000, 20000}).Draw(t, "size")
			k.K.Sh.Mesh = genMesh(t, meshOpts{maxSolids: 3, minSize: f, maxSize: 8 * f, minHeight: 2000, maxHeight: 8000, zGap: true})
			return k
		},
		func(c *Ctx, k jitterSlice) error {
			in := k.K.Sh.Tris()
			moved := make([]Tri, len(in))
			l := lcg(k.K.Seed)
			for i := range in {
				for v := range in[i] {
					moved[i][v] = in[i][v]
					for a := 0; a < 2; a++ {
						moved[i][v][a] += int64(l.next()%uint64(2*k.Jitter+1)) - k.Jitter
					}
				}
			}
			o := stdOpt()
			o.ILT, o.LT, o.Center = k.K.ILT, k.K.LT, k.K.Center
			_, layers, err := sliceOnly(o, moved)
			if err != nil {
				if min, max := bounds3(moved); max[2]-min[2]+k.K.Center[2] < k.K.ILT {
					return nil
				}
				return err
			}
			placed := place(in, k.K.Center)
			compared, used := 0, 0
		next:
			for i, l := range layers {
				z := float64(k.K.ILT + int64(i)*k.K.LT)
				for _, t := range placed {
					for _, v := range t {
						if math.Abs(v[2]-z) < 50 {
							continue next
						}
					}
				}
				n, err := compareSection(fmt.Sprintf("layer %d", i), l.LayerParts(), section(placed, z), 1000, k.K.Seed+uint64(i), 100, c)
				if err != nil {
					return err
				}
				used++
				compared += n
			}
			if used > 0 && compared > 50 {
				c.NonTrivial()
			}
			return nil
		})

	Register("C06", "slices", 2500, 60000,
		"the same meshes, bodies also overlapping each other; orientation, nesting, crossing and overlap of the layer parts; non-trivial: a layer with at least two curves",
		func(t *rapid.T) sliceCase {
			k := genSliceCase(t, 4)
			if rapid.Bool().Draw(t, "overlapping") {
				for i := range k.Sh.Mesh.Solids {
					s := &k.Sh.Mesh.Solids[i]
					if i == 0 {
						continue
					}
					f := rapid.Int64Range(0, 100).Draw(t, "pull")
					pull := func(v, to int64) int64 { return to + (v-to)*f/100 }
					first := &k.Sh.Mesh.Solids[0]
					ref := func(s *Solid) P {
						if s.Kind == "voxel" {
							return P{s.Xs[0], s.Ys[0]}
						}
						return P{s.Cx[0], s.Cy[0]}
					}
					a, b := ref(s), ref(first)
					dx, dy := pull(a[0], b[0])-a[0], pull(a[1], b[1])-a[1]
					for j := range s.Cx {
						s.Cx[j] += dx
						s.Cy[j] += dy
					}
					for j := range s.Xs {
						s.Xs[j] += dx
					}
					for j := range s.Ys {
						s.Ys[j] += dy
					}
				}
			}
			return k
		},
		func(c *Ctx, k sliceCase) error {
			_, layers, err := sliceOnly(k.opt(), k.Sh.Tris())
			if err != nil {
				if min, max := bounds3(k.Sh.Tris()); max[2]-min[2]+k.Center[2] < k.ILT {
					return nil
				}
				return err
			}
			for i, l := range layers {
				if err := wellFormed(l.LayerParts()); err != nil {
					return fmt.Errorf("layer %d: %w", i, err)
				}
				curves := len(l.LayerParts())
				for _, p := range l.LayerParts() {
					curves += len(p.Holes())
					c.LabelIf(len(p.Holes()) > 0, "part with hole")
				}
				if curves > 1 {
					c.NonTrivial()
				}
				c.LabelIf(len(l.LayerParts()) > 1, "several parts")
			}
			return nil
		})

	type polysCase struct {
		Polys [][]P  `json:"polys"`
		Seed  uint64 `json:"seed"`
	}
	Register("C06", "nesting", 3000, 80000,
		"1..10 polygons nested, beside, overlapping, and crossing themselves, in any orientation, rarely up to 14 rings inside of each other or a grid of up to 150 ones; the parts must be well-formed and equal the even-odd area; non-trivial: at least two polygons",
		func(t *rapid.T) polysCase {
			k := polysCase{Polys: genNested(t), Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
			return k
		},
		func(c *Ctx, k polysCase) error {
			var in data.Paths
			var want Region
			for _, p := range k.Polys {
				in = append(in, toPath(p))
				want.AddPath(toPath(p))
			}
			pl, ok := clip.NewClipper().GenerateLayerParts(polyLayer(in))
			if !ok {
				return fmt.Errorf("failed")
			}
			parts := pl.LayerParts()
			if err := wellFormed(parts); err != nil {
				return err
			}
			if _, err := compareSection("parts", parts, want, 0, k.Seed, 25, c); err != nil {
				return err
			}
			if len(k.Polys) > 1 {
				c.NonTrivial()
			}
			for _, p := range parts {
				c.LabelIf(len(p.Holes()) > 0, "part with hole")
			}
			c.LabelIf(len(parts) > 1, "several parts")
			return nil
		})

	type metaCase struct {
		K     sliceCase `json:"case"`
		Order []int     `json:"order"`
		Rot   []int     `json:"rot"`
		Move  V         `json:"move"`
		Mode  int       `json:"mode"` // 0 reorder, 1 move, 2 mirror x, 3 mirror y, 4 files
	}
	Register("C07", "rewritten", 1500, 40000,
		"the same meshes, sliced as they are and reordered, moved, mirrored, or written as binary and ASCII STL; the layers are compared pointwise; non-trivial: at least two layers and 50 compared points",
		func(t *rapid.T) metaCase {
			k := metaCase{K: genSliceCase(t, 3)}
			k.K.Finish = min64(k.K.Finish, 1000)
			k.Order = rapid.SliceOfN(rapid.IntRange(1, 1000), 7, 7).Draw(t, "order2")
			k.Rot = rapid.SliceOfN(rapid.IntRange(0, 2), 5, 5).Draw(t, "rot2")
			k.Move = V{rapid.Int64Range(-200000, 200000).Draw(t, "mx"), rapid.Int64Range(-200000, 200000).Draw(t, "my"), rapid.Int64Range(-50000, 50000).Draw(t, "mz")}
			k.Mode = rapid.IntRange(0, 4).Draw(t, "mode")
			return k
		},
		func(c *Ctx, k metaCase) error {
			o := k.K.opt()
			a := k.K.Sh.Tris()
			b := append([]Tri(nil), a...)
			mirror := -1
			switch k.Mode {
			case 0:
				b = reorder(b, k.Order, k.Rot)
				c.Label("reordered")
			case 1:
				for i := range b {
					for j := range b[i] {
						b[i][j] = vadd(b[i][j], k.Move)
					}
				}
				c.Label("moved")
			case 2, 3:
				mirror = k.Mode - 2
				for i := range b {
					for j := range b[i] {
						b[i][j][mirror] = -b[i][j][mirror]
					}
					b[i][1], b[i][2] = b[i][2], b[i][1]
				}
				c.Label("mirrored")
			}
			var la, lb []data.PartitionedLayer
			var ea, eb error
			if k.Mode == 4 {
				c.Label("files")
				la, ea = sliceFile(o, writeBinarySTL("", ftris(a)))
				lb, eb = sliceFile(o, writeASCIISTL("m", ftris(a), asciiStyle{}))
			} else {
				_, la, ea = sliceOnly(o, a)
				_, lb, eb = sliceOnly(o, b)
			}
			if (ea == nil) != (eb == nil) {
				return fmt.Errorf("one gives %v, the other %v", ea, eb)
			}
			if len(la) != len(lb) {
				return fmt.Errorf("%d layers instead of %d", len(lb), len(la))
			}
			compared := 0
			tol := k.K.tol()
			for i := range la {
				ra, rb := partsRegion(la[i].LayerParts()), partsRegion(lb[i].LayerParts())
				flip := func(p F) F {
					if mirror == 0 {
						p.X = 2*float64(k.K.Center[0]) - p.X
					}
					if mirror == 1 {
						p.Y = 2*float64(k.K.Center[1]) - p.Y
					}
					return p
				}
				for j := range rb.Segs {
					rb.Segs[j] = Seg{flip(rb.Segs[j].A), flip(rb.Segs[j].B)}
				}
				small := func(p F) bool {
					for _, r := range []Region{ra, rb} {
						for _, comp := range r.components() {
							if comp.length() < 1300 && comp.inBounds(p, tol+20) {
								return true
							}
						}
					}
					return false
				}
				for _, p := range probes(k.K.Seed+uint64(i), 20, 30, []float64{tol + 5, 2 * tol, 400}, ra, rb) {
					if ra.Dist(p) < tol || ra.Inside(p) == rb.Inside(p) {
						compared++
						continue
					}
					if rb.Dist(p) < tol || small(p) {
						continue
					}
					return fmt.Errorf("layer %d: point %.0f/%.0f is inside in one, but not in the other version (%.0f and %.0f um from the contours)", i, p.X, p.Y, ra.Dist(p), rb.Dist(p))
				}
			}
			if len(la) > 1 && compared > 50 {
				c.NonTrivial()
			}
			return nil
		})
}

type polyLayer data.Paths

func (p polyLayer) Polygons() data.Paths { return data.Paths(p) }

// genNested draws polygons around few common centres: nested, neighbouring,
// crossing each other.
func genNested(t *rapid.T) [][]P {
	scale := rapid.SampledFrom([]int64{2000, 20000, 150000}).Draw(t, "scale")
	cx, cy := rapid.Int64Range(-200000, 200000).Draw(t, "cx"), rapid.Int64Range(-200000, 200000).Draw(t, "cy")
	var out [][]P
	if rapid.IntRange(0, 39).Draw(t, "grid") == 0 {
		// many of them beside each other, each third one a hole
		m := rapid.IntRange(15, 150).Draw(t, "cells")
		r := rapid.Int64Range(300, 5000).Draw(t, "cell")
		for i := 0; i < m; i++ {
			x, y := cx+int64(i/2%9)*r*3, cy+int64(i/2/9)*r*3
			rr := r
			if i%2 == 1 {
				if rr = r / 3; i%3 > 0 {
					continue
				}
			}
			out = append(out, []P{{x - rr, y - rr}, {x + rr, y - rr}, {x + rr, y + rr}, {x - rr, y + rr}})
		}
		return out
	}
	if rapid.IntRange(0, 39).Draw(t, "rings") == 0 {
		// deeply nested ones
		m := rapid.IntRange(3, 14).Draw(t, "depth")
		for i := 1; i <= m; i++ {
			r := scale * int64(i) / int64(m)
			out = append(out, []P{{cx - r, cy - r}, {cx + r, cy - r}, {cx + r, cy + r}, {cx - r, cy + r}})
		}
		return out
	}
	n := rapid.IntRange(1, 10).Draw(t, "polys")
	for i := 0; i < n; i++ {
		r := scale * rapid.Int64Range(3, 40).Draw(t, "r") / 40
		x, y := cx, cy
		if rapid.IntRange(0, 2).Draw(t, "moved") > 0 {
			x += rapid.Int64Range(-scale, scale).Draw(t, "dx")
			y += rapid.Int64Range(-scale, scale).Draw(t, "dy")
		}
		m := rapid.IntRange(3, 8).Draw(t, "n")
		phase := rapid.Int64Range(0, 6283).Draw(t, "phase")
		star := rapid.IntRange(0, 6).Draw(t, "star") == 0
		var p []P
		for k := 0; k < m; k++ {
			kk := k
			if star && m >= 5 {
				kk = k * 2
			}
			rr := r * rapid.Int64Range(70, 100).Draw(t, "rr") / 100
			s, c := sincos(kk, m, phase)
			p = append(p, P{x + int64(float64(rr)*c), y + int64(float64(rr)*s)})
		}
		if rapid.Bool().Draw(t, "reverse") {
			for a, b := 0, len(p)-1; a < b; a, b = a+1, b-1 {
				p[a], p[b] = p[b], p[a]
			}
		}
		out = append(out, p)
	}
	return out
}

func sliceFile(o Opt, content []byte) ([]data.PartitionedLayer, error) {
	path := writeScratch(".stl", content)
	defer os.Remove(path)
	d := o.Data()
	m, err := reader.Reader(&d).Read(path)
	if err != nil {
		return nil, err
	}
	om, err := optimizer.NewOptimizer(&d).Optimize(m)
	if err != nil {
		return nil, err
	}
	return slicer.NewSlicer(&d).Slice(om)
}
