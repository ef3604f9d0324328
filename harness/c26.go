package main

import (
	"fmt"
	"os"
	"strings"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/optimizer"
	"github.com/aligator/goslice/reader"
	"pgregory.net/rapid"
)

type meshCase struct {
	Mesh Mesh `json:"mesh"`
	O    Opt  `json:"opt"`
}

type trisCase struct {
	Tris []Tri `json:"tris"`
	O    Opt   `json:"opt"`
}

func mustSucceed(c *Ctx, o Opt, ts []Tri) error {
	r, err := runPipeline(o, ts)
	if err != nil {
		return fmt.Errorf("pipeline: %w", err)
	}
	c.NonTrivial()
	g, err := parseG(r.G)
	if err != nil {
		return err
	}
	if len(g.Layers) != len(r.Layers) {
		return fmt.Errorf("%d layers announced instead of %d", len(g.Layers), len(r.Layers))
	}
	return nil
}

func mayFail(c *Ctx, o Opt, ts []Tri) error {
	r, err := runPipeline(o, ts)
	if err != nil {
		c.Label("error reported")
		if strings.TrimSpace(err.Error()) == "" {
			return fmt.Errorf("empty error message")
		}
		return nil
	}
	c.Label("sliced")
	c.NonTrivial()
	_, err = parseG(r.G)
	return err
}

func init() {
	Register("C26", "any-valid", 300, 6000,
		"1..4 closed bodies of 0.1..200 mm with a complete random set of options; must give G-code; non-trivial: G-code was produced",
		func(t *rapid.T) meshCase {
			o := genOpt(t)
			minS := rapid.SampledFrom([]int64{100, 300, 1000, 3000, 10000}).Draw(t, "mins")
			m := genMesh(t, meshOpts{maxSolids: 4, minSize: minS, maxSize: minS * rapid.Int64Range(4, 40).Draw(t, "ratio"), zGrid: o.LT, zBase: o.ILT, minHeight: max64(300, o.ILT), maxHeight: o.ILT + 12*o.LT, zGap: true, overhang: true})
			return meshCase{m, o}
		}, func(c *Ctx, k meshCase) error { return mustSucceed(c, k.O, k.Mesh.Tris()) })

	type wedge struct {
		Kind  int   `json:"kind"` // 0 ridge, 1 tip, 2 upside down ridge
		L     int64 `json:"l"`
		W     int64 `json:"w"`
		H     int64 `json:"h"`
		Ridge int64 `json:"ridge"` // percent of the length
		Phase int64 `json:"phase"`
		X     int64 `json:"x"`
	}
	type wedgeCase struct {
		Wedges []wedge `json:"wedges"`
		O      Opt     `json:"opt"`
	}
	Register("C26", "wedges", 300, 6000,
		"closed wedges and pyramids whose ridge or tip ends 0..40 um above or below a layer plane, so that the cross-section is a sliver; must give G-code; non-trivial: G-code was produced",
		func(t *rapid.T) wedgeCase {
			k := wedgeCase{O: genOpt(t)}
			if rapid.Bool().Draw(t, "plain") {
				k.O = stdOpt()
			}
			n := rapid.IntRange(1, 3).Draw(t, "n")
			for i := 0; i < n; i++ {
				w := wedge{Kind: rapid.IntRange(0, 2).Draw(t, "kind"), Phase: rapid.SampledFrom([]int64{0, 0, 785, 300}).Draw(t, "phase"), X: int64(i) * 60000}
				w.L, w.W = rapid.Int64Range(300, 20000).Draw(t, "l"), rapid.Int64Range(100, 5000).Draw(t, "w")
				w.Ridge = rapid.SampledFrom([]int64{100, 100, 50, 10}).Draw(t, "ridge")
				w.H = k.O.ILT + rapid.Int64Range(0, 6).Draw(t, "layers")*k.O.LT + rapid.SampledFrom([]int64{0, 0, 1, 2, 3, 5, 8, 13, 25, 40, -1, -3, -20}).Draw(t, "over")
				if w.H < k.O.ILT {
					w.H = k.O.ILT
				}
				k.Wedges = append(k.Wedges, w)
			}
			return k
		},
		func(c *Ctx, k wedgeCase) error {
			var ts []Tri
			for _, w := range k.Wedges {
				at := func(x, y, z int64) V {
					p := rotF(F{float64(x), float64(y)}, float64(w.Phase)*0.0572957795)
					return V{w.X + int64(p.X), int64(p.Y), z}
				}
				l, b := w.L/2, w.W/2
				r := l * w.Ridge / 100
				if w.Kind == 1 {
					r = 0
				}
				a := [6]V{at(-l, -b, 0), at(l, -b, 0), at(l, b, 0), at(-l, b, 0), at(-r, 0, w.H), at(r, 0, w.H)}
				faces := [][3]int{{0, 2, 1}, {0, 3, 2}, {0, 1, 5}, {0, 5, 4}, {2, 3, 4}, {2, 4, 5}, {1, 2, 5}, {3, 0, 4}}
				for _, f := range faces {
					t := Tri{a[f[0]], a[f[1]], a[f[2]]}
					if t[0] == t[1] || t[1] == t[2] || t[0] == t[2] {
						continue
					}
					if w.Kind == 2 { // standing on the ridge
						for v := range t {
							t[v][2] = w.H - t[v][2]
						}
						t[1], t[2] = t[2], t[1]
					}
					ts = append(ts, t)
				}
			}
			return mustSucceed(c, k.O, ts)
		})

	Register("C26", "damaged", 400, 8000,
		"closed meshes with triangles removed, doubled, turned around or with moved vertices, and random options; must give G-code or an error; non-trivial: G-code was produced",
		func(t *rapid.T) trisCase {
			o := genOpt(t)
			minS := rapid.SampledFrom([]int64{100, 1000, 10000}).Draw(t, "mins")
			ts := genMesh(t, meshOpts{maxSolids: 2, minSize: minS, maxSize: minS * rapid.Int64Range(4, 20).Draw(t, "ratio"), zGrid: o.LT, zBase: o.ILT, minHeight: max64(300, o.ILT), maxHeight: o.ILT + 8*o.LT, zGap: true, overhang: true}).Tris()
			n := rapid.IntRange(1, 6).Draw(t, "damages")
			for i := 0; i < n && len(ts) > 1; i++ {
				j := rapid.IntRange(0, len(ts)-1).Draw(t, "at")
				switch rapid.IntRange(0, 4).Draw(t, "how") {
				case 0:
					ts = append(ts[:j:j], ts[j+1:]...)
				case 1:
					ts = append(ts, ts[j])
				case 2:
					ts[j][0], ts[j][1] = ts[j][1], ts[j][0]
				case 3:
					a := rapid.IntRange(0, 2).Draw(t, "axis")
					d := minS * 3
					if a == 2 {
						d = o.LT * 4
					}
					ts[j][rapid.IntRange(0, 2).Draw(t, "v")][a] += rapid.Int64Range(-d, d).Draw(t, "by")
				case 4:
					ts[j][1] = ts[j][0]
				}
			}
			return trisCase{ts, o}
		}, func(c *Ctx, k trisCase) error { return mayFail(c, k.O, k.Tris) })

	Register("C26", "soups", 500, 10000,
		"1..40 random triangles, many sharing points, up to 1 m wide and 15 layers high, and random options; must give G-code or an error; non-trivial: G-code was produced",
		func(t *rapid.T) trisCase {
			o := genOpt(t)
			r := rapid.SampledFrom([]int64{300, 5000, 50000, 500000}).Draw(t, "r")
			if r == 500000 {
				o.Infill, o.SupSpacing = 5, 5000
				o.W, o.LT, o.ILT = 1000, 400, 400
			}
			h := o.ILT + rapid.Int64Range(0, 15).Draw(t, "layers")*o.LT
			np := rapid.IntRange(3, 14).Draw(t, "points")
			var pts []V
			for i := 0; i < np; i++ {
				p := V{rapid.Int64Range(-r, r).Draw(t, "x"), rapid.Int64Range(-r, r).Draw(t, "y"), rapid.Int64Range(0, h).Draw(t, "z")}
				if rapid.Bool().Draw(t, "grid") && p[2] >= o.ILT {
					p[2] = (p[2]-o.ILT)/o.LT*o.LT + o.ILT
				}
				pts = append(pts, p)
			}
			n := rapid.IntRange(1, 40).Draw(t, "faces")
			var ts []Tri
			for i := 0; i < n; i++ {
				var f Tri
				for j := range f {
					f[j] = pts[rapid.IntRange(0, np-1).Draw(t, "v")]
				}
				ts = append(ts, f)
			}
			return trisCase{ts, o}
		}, func(c *Ctx, k trisCase) error { return mayFail(c, k.O, k.Tris) })

	type bytesCase struct {
		Data []byte `json:"data"`
		O    Opt    `json:"opt"`
	}
	Register("C26", "bytes", 1500, 40000,
		"STL files (binary and ASCII) with bytes changed, inserted, cut out or cut off, and pure garbage; reading gives an error or a model, and models of printable size are sliced; non-trivial: the file was read",
		func(t *rapid.T) bytesCase {
			k := bytesCase{O: stdOpt()}
			k.O.Meld = rapid.SampledFrom([]int64{30, 0, 1, 500}).Draw(t, "meld")
			k.O.Sup = rapid.Bool().Draw(t, "sup")
			ts := genMesh(t, meshOpts{maxSolids: 1, minSize: 2000, maxSize: 20000, minHeight: 300, maxHeight: 1500}).Tris()
			if len(ts) > 60 {
				ts = ts[:60]
			}
			if rapid.Bool().Draw(t, "ascii") {
				k.Data = writeASCIISTL("m", ftris(ts), genStyle.Draw(t, "style"))
			} else {
				k.Data = writeBinarySTL("header", ftris(ts))
			}
			n := rapid.IntRange(0, 5).Draw(t, "edits")
			for i := 0; i < n && len(k.Data) > 2; i++ {
				j := rapid.IntRange(0, len(k.Data)-1).Draw(t, "at")
				switch rapid.IntRange(0, 5).Draw(t, "edit") {
				case 0, 1:
					k.Data[j] = rapid.Byte().Draw(t, "byte")
				case 2:
					k.Data = k.Data[:j]
				case 3:
					e := j + rapid.IntRange(1, 100).Draw(t, "len")
					if e > len(k.Data) {
						e = len(k.Data)
					}
					k.Data = append(k.Data[:j:j], k.Data[e:]...)
				case 4:
					k.Data = append(k.Data[:j:j], append(rapid.SliceOfN(rapid.Byte(), 1, 60).Draw(t, "ins"), k.Data[j:]...)...)
				case 5:
					w := rapid.SampledFrom([]string{"NaN", "Inf", "1e38", "-1e30", "facet", "endsolid", "vertex", "solid ", "\x00\x00\xc0\x7f", "\x00\x00\x80\x7f", "\xff\xff\xff\xff"}).Draw(t, "word")
					copy(k.Data[j:], w)
				}
			}
			return k
		},
		func(c *Ctx, k bytesCase) error {
			path := writeScratch(".stl", k.Data)
			defer os.Remove(path)
			d := k.O.Data()
			m, err := reader.Reader(&d).Read(path)
			if err != nil {
				c.Label("error reported")
				return nil
			}
			c.NonTrivial()
			var min, max V
			if m.FaceCount() > 0 {
				min, max = unvec(m.Min()), unvec(m.Max())
			}
			if max[2]-min[2] > 10000 || max[0]-min[0] > 500000 || max[1]-min[1] > 500000 {
				c.Label("read, too big to slice here")
				_, err := optimizer.NewOptimizer(&d).Optimize(m)
				_ = err
				return nil
			}
			d.GoSlice.InputFilePath = path
			gs := goslice.NewGoSlice(d)
			w := &memWriter{}
			gs.Writer = w
			if err := gs.Process(); err != nil {
				c.Label("error while slicing")
				return nil
			}
			c.Label("sliced")
			_, err = parseG(w.gcode)
			return err
		})
}
