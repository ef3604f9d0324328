package main

import (
	"math"
	"sort"

	"pgregory.net/rapid"
)

// V is a vertex in micrometres.
type V [3]int64

// Tri is one triangle.
type Tri [3]V

// Solid describes one closed, consistently oriented body.
type Solid struct {
	// Kind "loft": rings of N points around a centre, closed by fan caps.
	// Kind "tube": as loft, with an inner ring set of the same angles.
	// Kind "voxel": union of grid cells.
	Kind string `json:"kind"`

	N     int       `json:"n,omitempty"`
	Z     []int64   `json:"z,omitempty"`
	Cx    []int64   `json:"cx,omitempty"`
	Cy    []int64   `json:"cy,omitempty"`
	R     [][]int64 `json:"r,omitempty"`     // radius per ring and angle
	Inner int64     `json:"inner,omitempty"` // tube: inner radius in percent of R
	Phase int64     `json:"phase,omitempty"` // rotation in milliradians

	Xs   []int64 `json:"xs,omitempty"` // voxel: grid planes
	Ys   []int64 `json:"ys,omitempty"`
	Zs   []int64 `json:"zs,omitempty"`
	Fill []int   `json:"fill,omitempty"` // 1 for each filled cell, index x + nx*(y + ny*z)
}

// Mesh is a list of bodies, disjoint by construction.
type Mesh struct {
	Solids []Solid `json:"solids"`
	// Tilt raises each vertex by X*Tilt[0]+Y*Tilt[1] millionths, so that nothing is horizontal any more.
	Tilt []int64 `json:"tilt,omitempty"`
}

func (s Solid) ring(i int, scale float64) []V {
	out := make([]V, s.N)
	for k := 0; k < s.N; k++ {
		a := 2*math.Pi*float64(k)/float64(s.N) + float64(s.Phase)/1000
		r := float64(s.R[i][k]) * scale
		out[k] = V{s.Cx[i] + int64(math.Round(r*math.Cos(a))), s.Cy[i] + int64(math.Round(r*math.Sin(a))), s.Z[i]}
	}
	return out
}

// quad emits two triangles for a,b,c,d (counter-clockwise seen from outside).
func quad(out []Tri, a, b, c, d V) []Tri { return append(out, Tri{a, b, c}, Tri{a, c, d}) }

// Tris returns the triangles, outward oriented.
func (s Solid) Tris() []Tri {
	var out []Tri
	switch s.Kind {
	case "loft":
		m := len(s.Z)
		for i := 0; i+1 < m; i++ {
			lo, hi := s.ring(i, 1), s.ring(i+1, 1)
			for k := 0; k < s.N; k++ {
				j := (k + 1) % s.N
				out = quad(out, lo[k], lo[j], hi[j], hi[k])
			}
		}
		lo, hi := s.ring(0, 1), s.ring(m-1, 1)
		cl, ch := V{s.Cx[0], s.Cy[0], s.Z[0]}, V{s.Cx[m-1], s.Cy[m-1], s.Z[m-1]}
		for k := 0; k < s.N; k++ {
			j := (k + 1) % s.N
			out = append(out, Tri{cl, lo[j], lo[k]}, Tri{ch, hi[k], hi[j]})
		}
	case "tube":
		m := len(s.Z)
		in := float64(s.Inner) / 100
		for i := 0; i+1 < m; i++ {
			lo, hi := s.ring(i, 1), s.ring(i+1, 1)
			li, hi2 := s.ring(i, in), s.ring(i+1, in)
			for k := 0; k < s.N; k++ {
				j := (k + 1) % s.N
				out = quad(out, lo[k], lo[j], hi[j], hi[k])
				out = quad(out, li[j], li[k], hi2[k], hi2[j])
			}
		}
		lo, hi := s.ring(0, 1), s.ring(m-1, 1)
		li, hi2 := s.ring(0, in), s.ring(m-1, in)
		for k := 0; k < s.N; k++ {
			j := (k + 1) % s.N
			out = quad(out, lo[j], lo[k], li[k], li[j])
			out = quad(out, hi[k], hi[j], hi2[j], hi2[k])
		}
	case "voxel":
		nx, ny, nz := len(s.Xs)-1, len(s.Ys)-1, len(s.Zs)-1
		at := func(x, y, z int) bool {
			if x < 0 || y < 0 || z < 0 || x >= nx || y >= ny || z >= nz {
				return false
			}
			return s.Fill[x+nx*(y+ny*z)] != 0
		}
		v := func(x, y, z int) V { return V{s.Xs[x], s.Ys[y], s.Zs[z]} }
		for z := 0; z < nz; z++ {
			for y := 0; y < ny; y++ {
				for x := 0; x < nx; x++ {
					if !at(x, y, z) {
						continue
					}
					if !at(x-1, y, z) {
						out = quad(out, v(x, y, z), v(x, y, z+1), v(x, y+1, z+1), v(x, y+1, z))
					}
					if !at(x+1, y, z) {
						out = quad(out, v(x+1, y, z), v(x+1, y+1, z), v(x+1, y+1, z+1), v(x+1, y, z+1))
					}
					if !at(x, y-1, z) {
						out = quad(out, v(x, y, z), v(x+1, y, z), v(x+1, y, z+1), v(x, y, z+1))
					}
					if !at(x, y+1, z) {
						out = quad(out, v(x, y+1, z), v(x, y+1, z+1), v(x+1, y+1, z+1), v(x+1, y+1, z))
					}
					if !at(x, y, z-1) {
						out = quad(out, v(x, y, z), v(x, y+1, z), v(x+1, y+1, z), v(x+1, y, z))
					}
					if !at(x, y, z+1) {
						out = quad(out, v(x, y, z+1), v(x+1, y, z+1), v(x+1, y+1, z+1), v(x, y+1, z+1))
					}
				}
			}
		}
	}
	return out
}

// Tris of the whole mesh.
func (m Mesh) Tris() []Tri {
	var out []Tri
	for _, s := range m.Solids {
		out = append(out, s.Tris()...)
	}
	if len(m.Tilt) == 2 {
		for i := range out {
			for j := range out[i] {
				v := &out[i][j]
				v[2] += int64(math.Round(float64(v[0]*m.Tilt[0]+v[1]*m.Tilt[1]) / 1e6))
			}
		}
	}
	if curTweak != nil {
		for i := range out {
			for j := range out[i] {
				v := &out[i][j]
				v[0], v[1] = curTweak.apply(v[0], v[1])
			}
		}
	}
	return out
}

func bounds3(ts []Tri) (min, max V) {
	min, max = ts[0][0], ts[0][0]
	for _, t := range ts {
		for _, v := range t {
			for k := 0; k < 3; k++ {
				if v[k] < min[k] {
					min[k] = v[k]
				}
				if v[k] > max[k] {
					max[k] = v[k]
				}
			}
		}
	}
	return
}

// FV is a float vertex.
type FV [3]float64

// FTri is a placed triangle.
type FTri [3]FV

// place moves the mesh so that its bounding box is centred on center in X and
// Y and rests on center's Z (the documented placement), without rounding.
func place(ts []Tri, center V) []FTri {
	min, max := bounds3(ts)
	off := FV{
		float64(center[0]) - float64(min[0]+max[0])/2,
		float64(center[1]) - float64(min[1]+max[1])/2,
		float64(center[2]) - float64(min[2]),
	}
	out := make([]FTri, len(ts))
	for i, t := range ts {
		for j, v := range t {
			for k := 0; k < 3; k++ {
				out[i][j][k] = float64(v[k]) + off[k]
			}
		}
	}
	return out
}

// section is the independent cross-section oracle: the cut of the mesh by the
// plane z, taken as the limit from below (a vertex exactly on the plane counts
// as above). The result is a closed curve set; inside is even-odd.
func section(ts []FTri, z float64) Region {
	var r Region
	cut := func(a, b FV) F {
		// canonical order, so that both faces at an edge compute the same point
		if b[2] < a[2] || (b[2] == a[2] && (b[0] < a[0] || (b[0] == a[0] && b[1] < a[1]))) {
			a, b = b, a
		}
		t := (z - a[2]) / (b[2] - a[2])
		return F{a[0] + t*(b[0]-a[0]), a[1] + t*(b[1]-a[1])}
	}
	for _, t := range ts {
		var pts []F
		for k := 0; k < 3; k++ {
			a, b := t[k], t[(k+1)%3]
			if (a[2] < z) != (b[2] < z) {
				pts = append(pts, cut(a, b))
			}
		}
		if len(pts) == 2 {
			r.Segs = append(r.Segs, Seg{pts[0], pts[1]})
		}
	}
	return r
}

// ---------------------------------------------------------------- generators

// genTilt tilts the mesh by up to h in each direction.
func genTilt(t *rapid.T, m *Mesh, h int64) {
	min, max := bounds3(m.Tris())
	m.Tilt = make([]int64, 2)
	for i := range m.Tilt {
		lim := 1000000 * h / max64(1, max[i]-min[i])
		if lim > 3000000 {
			lim = 3000000
		}
		m.Tilt[i] = rapid.Int64Range(-lim, lim).Draw(t, "tilt")
	}
}

type meshOpts struct {
	maxSolids  int
	minSize    int64 // feature size in um
	maxSize    int64
	zGrid      int64 // if >0, heights may be drawn on this grid (layer planes)
	zBase      int64 // offset of the grid (initial layer)
	maxHeight  int64
	minHeight  int64
	zGap       bool // bodies may float above others, leaving empty layers
	overhang   bool
	noVoxel    bool
	onlyVoxel  bool
	smooth     bool // limit radius variation
	steepWalls bool // no ring offset beyond small slopes
	// round: rarely bodies of many faces
	round bool
}

func genHeight(t *rapid.T, o meshOpts, label string, lo, hi int64) int64 {
	if o.zGrid > 0 && hi >= o.zBase && rapid.Bool().Draw(t, label+"_ongrid") {
		k := rapid.Int64Range(0, (hi-o.zBase)/o.zGrid).Draw(t, label+"_k")
		h := o.zBase + k*o.zGrid
		if h < lo {
			h = lo
		}
		return h
	}
	return rapid.Int64Range(lo, hi).Draw(t, label)
}

func genSolid(t *rapid.T, o meshOpts, cx, cy, z0 int64, half int64) Solid {
	kinds := []string{"loft", "loft", "tube", "voxel"}
	if o.noVoxel {
		kinds = []string{"loft", "loft", "tube"}
	}
	if o.onlyVoxel {
		kinds = []string{"voxel"}
	}
	kind := rapid.SampledFrom(kinds).Draw(t, "kind")
	h := genHeight(t, o, "height", o.minHeight, o.maxHeight)
	if kind == "voxel" {
		s := Solid{Kind: "voxel"}
		grid := func(n int, c int64, label string) []int64 {
			// cell sizes between minSize and 2*half/n
			max := 2 * half / int64(n)
			if max < o.minSize {
				max = o.minSize
			}
			var g []int64
			x := c - half
			g = append(g, x)
			for i := 0; i < n; i++ {
				x += rapid.Int64Range(o.minSize, max).Draw(t, label)
				g = append(g, x)
			}
			return g
		}
		lim := int(2 * half / o.minSize)
		if lim > 4 {
			lim = 4
		}
		if lim < 1 {
			lim = 1
		}
		nx := rapid.IntRange(1, lim).Draw(t, "nx")
		ny := rapid.IntRange(1, lim).Draw(t, "ny")
		s.Xs, s.Ys = grid(nx, cx, "dx"), grid(ny, cy, "dy")
		nz := rapid.IntRange(1, 3).Draw(t, "nz")
		if h < int64(nz)*o.minHeight {
			nz = 1
		}
		s.Zs = []int64{z0}
		for i := 1; i < nz; i++ {
			lo := s.Zs[len(s.Zs)-1] - z0 + o.minHeight/2 + 1
			hi := h - int64(nz-i)*(o.minHeight/2+1)
			if lo > hi {
				break
			}
			s.Zs = append(s.Zs, z0+genHeight(t, o, "vz", lo, hi))
			if s.Zs[len(s.Zs)-1] >= z0+h {
				s.Zs = s.Zs[:len(s.Zs)-1]
				break
			}
		}
		s.Zs = append(s.Zs, z0+h)
		nz = len(s.Zs) - 1
		s.Fill = make([]int, nx*ny*nz)
		for i := range s.Fill {
			s.Fill[i] = rapid.IntRange(0, 3).Draw(t, "cell")
			if s.Fill[i] > 1 {
				s.Fill[i] = 1
			}
		}
		s.repair(o.zGap)
		return s
	}
	s := Solid{Kind: kind}
	s.N = rapid.IntRange(3, 12).Draw(t, "n")
	s.Phase = rapid.Int64Range(0, 6283).Draw(t, "phase")
	rings := rapid.IntRange(2, 4).Draw(t, "rings")
	minR := o.minSize
	if minR*2 > half {
		minR = half / 2
	}
	s.Z = []int64{z0}
	for i := 1; i+1 < rings; i++ {
		prev := s.Z[len(s.Z)-1] - z0
		lo, hi := prev+o.minHeight/3+1, h-o.minHeight/3-1
		if lo >= hi {
			break
		}
		s.Z = append(s.Z, z0+genHeight(t, o, "lz", lo, hi))
		if s.Z[len(s.Z)-1] >= z0+h {
			s.Z = s.Z[:len(s.Z)-1]
			break
		}
	}
	s.Z = append(s.Z, z0+h)
	straight := !o.overhang || rapid.IntRange(0, 3).Draw(t, "straight") == 0
	// the ring must stay star-shaped with walls thicker than the features
	inner := int64(0)
	if kind == "tube" {
		inner = rapid.Int64Range(20, 60).Draw(t, "inner")
		s.Inner = inner
		// wall thickness r*(1-inner) must be >= minSize/2-ish, hole >= minSize/2
		minR = max64(minR, max64(o.minSize*100/(100-inner), o.minSize*100/inner)/2)
		if minR*3/2+3 > half {
			half = minR*3/2 + 3
		}
	}
	regular := rapid.Bool().Draw(t, "regular")
	if lim := int(minR * 6 / 250); o.round && lim > 20 && rapid.IntRange(0, 29).Draw(t, "round") == 0 {
		if lim > 300 {
			lim = 300
		}
		s.N, regular = rapid.IntRange(13, lim).Draw(t, "roundn"), true
	}
	for i := range s.Z {
		if i > 0 && straight {
			s.Cx, s.Cy = append(s.Cx, s.Cx[0]), append(s.Cy, s.Cy[0])
			s.R = append(s.R, append([]int64(nil), s.R[0]...))
			continue
		}
		var rr []int64
		r0 := rapid.Int64Range(minR, max64(minR, half*2/3)).Draw(t, "r0")
		for k := 0; k < s.N; k++ {
			r := r0
			if !regular {
				r = rapid.Int64Range(max64(minR, r0*3/4), r0*3/2).Draw(t, "r")
			}
			rr = append(rr, r)
		}
		s.R = append(s.R, rr)
		dx, dy := int64(0), int64(0)
		if i > 0 && o.overhang {
			dx = rapid.Int64Range(-minR/2, minR/2).Draw(t, "dx")
			dy = rapid.Int64Range(-minR/2, minR/2).Draw(t, "dy")
		}
		s.Cx, s.Cy = append(s.Cx, cx+dx), append(s.Cy, cy+dy)
	}
	return s
}

func max64(a, b int64) int64 {
	if a > b {
		return a
	}
	return b
}

func min64(a, b int64) int64 {
	if a < b {
		return a
	}
	return b
}

// repair fills cells until no two filled cells touch only along an edge
// (which would be a non-manifold edge) and, unless gaps are wanted, until
// every z slab has at least one cell.
func (s *Solid) repair(gap bool) {
	nx, ny, nz := len(s.Xs)-1, len(s.Ys)-1, len(s.Zs)-1
	at := func(x, y, z int) *int { return &s.Fill[x+nx*(y+ny*z)] }
	for z := 0; z < nz; z++ {
		if gap && z != 0 && z != nz-1 {
			continue
		}
		any := false
		for i := 0; i < nx*ny; i++ {
			any = any || s.Fill[z*nx*ny+i] != 0
		}
		if !any {
			*at(0, 0, z) = 1
		}
	}
	for changed := true; changed; {
		changed = false
		fix := func(a, b, c, d *int) {
			// a,d and b,c are the diagonals
			if *a != 0 && *d != 0 && *b == 0 && *c == 0 {
				*b = 1
				changed = true
			}
			if *b != 0 && *c != 0 && *a == 0 && *d == 0 {
				*a = 1
				changed = true
			}
		}
		for z := 0; z < nz; z++ {
			for y := 0; y < ny; y++ {
				for x := 0; x < nx; x++ {
					if x+1 < nx && y+1 < ny {
						fix(at(x, y, z), at(x+1, y, z), at(x, y+1, z), at(x+1, y+1, z))
					}
					if x+1 < nx && z+1 < nz {
						fix(at(x, y, z), at(x+1, y, z), at(x, y, z+1), at(x+1, y, z+1))
					}
					if y+1 < ny && z+1 < nz {
						fix(at(x, y, z), at(x, y+1, z), at(x, y, z+1), at(x, y+1, z+1))
					}
				}
			}
		}
	}
}

// genMesh places 1..maxSolids bodies on a grid of disjoint sites.
func genMesh(t *rapid.T, o meshOpts) Mesh {
	n := rapid.IntRange(1, o.maxSolids).Draw(t, "solids")
	half := rapid.Int64Range(max64(o.minSize*2, o.maxSize/6), o.maxSize/2).Draw(t, "half")
	// arbitrary position of the whole mesh
	ox := rapid.Int64Range(-100000, 100000).Draw(t, "ox")
	oy := rapid.Int64Range(-100000, 100000).Draw(t, "oy")
	oz := rapid.Int64Range(-50000, 50000).Draw(t, "oz")
	var m Mesh
	for i := 0; i < n; i++ {
		z0 := oz
		if i > 0 && o.zGap && rapid.IntRange(0, 2).Draw(t, "float") == 0 {
			z0 += rapid.Int64Range(1, o.maxHeight*3/2).Draw(t, "z0")
		}
		pitch := half*5 + o.minSize*2 // generous: rings may reach half*2/3*3/2+minR/2, voxels 2*half
		cx, cy := ox+int64(i%2)*pitch, oy+int64(i/2)*pitch
		m.Solids = append(m.Solids, genSolid(t, o, cx, cy, z0, half))
	}
	return m
}

// reorder sorts the triangles by cyclic keys (mixed with their index) and
// rotates the vertices inside the triangles.
func reorder(ts []Tri, order, rot []int) []Tri {
	if len(order) == 0 {
		return ts
	}
	idx := make([]int, len(ts))
	key := make([]int, len(ts))
	for i := range ts {
		idx[i] = i
		key[i] = (order[i%len(order)]*7919 + i*order[(i/len(order))%len(order)]) % 10007
	}
	sort.SliceStable(idx, func(a, b int) bool { return key[idx[a]] < key[idx[b]] })
	out := make([]Tri, len(ts))
	for i, j := range idx {
		t := ts[j]
		r := 0
		if len(rot) > 0 {
			r = rot[i%len(rot)]
		}
		out[i] = Tri{t[r], t[(r+1)%3], t[(r+2)%3]}
	}
	return out
}
