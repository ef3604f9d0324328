package main

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// ridgeCase is a block with sharp ridges at its foot, cut so high that the
// two sides of a ridge are nearer to each other than the meld distance.
type ridgeCase struct {
	SX     int64  `json:"sx"`
	SY     int64  `json:"sy"`
	H      int64  `json:"h"`
	W      int64  `json:"w"` // width of the ridge at its foot
	ZR     int64  `json:"zr"`
	L      int64  `json:"l"`
	Slope  int64  `json:"slope"` // how much shorter the ridge is at the top
	Both   bool   `json:"both,omitempty"`
	Rot    int64  `json:"rot"` // mrad
	ILT    int64  `json:"ilt"`
	LT     int64  `json:"lt"`
	Finish int64  `json:"finish"`
	Order  []int  `json:"order,omitempty"`
	VRot   []int  `json:"vrot,omitempty"`
	Seed   uint64 `json:"seed"`
}

func (k ridgeCase) tris() []Tri {
	x, y, w := k.SX, k.SY, k.W/2
	var ts []Tri
	// the wall at x = SX, with or without a ridge; the same one turned by half a turn is the wall at 0
	wall := func(ridge bool, at func(x, y, z int64) V) {
		c0, c1, c2, c3 := at(x, 0, 0), at(x, y, 0), at(x, y, k.H), at(x, 0, k.H)
		m := y / 2
		a, b, r := at(x, m-w, 0), at(x, m+w, 0), at(x, m, k.ZR)
		ts = append(ts, Tri{c0, a, r}, Tri{c0, r, c3}, Tri{r, c2, c3}, Tri{r, c1, c2}, Tri{b, c1, r})
		if !ridge {
			ts = append(ts, Tri{a, b, r})
			return
		}
		a2, b2, r2 := at(x+k.L, m-w, 0), at(x+k.L, m+w, 0), at(x+k.L-k.Slope, m, k.ZR)
		ts = append(ts, Tri{a, a2, r}, Tri{a2, r2, r}, Tri{a2, b2, r2}, Tri{b2, b, r}, Tri{b2, r, r2}, Tri{a, b, b2}, Tri{a, b2, a2})
	}
	wall(true, func(x, y, z int64) V { return V{x, y, z} })
	wall(k.Both, func(x, y, z int64) V { return V{k.SX - x, k.SY - y, z} })
	// the other two walls
	for _, f := range []func(x, y, z int64) V{
		func(x, y, z int64) V { return V{x, y, z} },
		func(x, y, z int64) V { return V{k.SX - x, k.SY - y, z} },
	} {
		a, b, c, d := f(0, 0, 0), f(x, 0, 0), f(x, 0, k.H), f(0, 0, k.H)
		ts = append(ts, Tri{a, b, c}, Tri{a, c, d})
	}
	// lid and bottom, which has the corners of the ridges
	ts = append(ts, Tri{V{0, 0, k.H}, V{x, 0, k.H}, V{x, y, k.H}}, Tri{V{0, 0, k.H}, V{x, y, k.H}, V{0, y, k.H}})
	m := y / 2
	o := []V{{0, 0, 0}, {0, y - m - w, 0}, {0, y - m + w, 0}, {0, y, 0}, {x, y, 0}, {x, m + w, 0}, {x, m - w, 0}, {x, 0, 0}}
	ts = append(ts, Tri{o[0], o[1], o[7]}, Tri{o[1], o[6], o[7]}, Tri{o[1], o[2], o[6]}, Tri{o[2], o[5], o[6]}, Tri{o[2], o[3], o[5]}, Tri{o[3], o[4], o[5]})
	sin, cos := math.Sincos(float64(k.Rot) / 1000)
	for i := range ts {
		for j := range ts[i] {
			v := &ts[i][j]
			fx, fy := float64(v[0]), float64(v[1])
			v[0], v[1] = int64(math.Round(fx*cos-fy*sin)), int64(math.Round(fx*sin+fy*cos))
		}
	}
	return reorder(ts, k.Order, k.VRot)
}

func init() {
	Register("C05", "ridge", 4000, 100000,
		"blocks of 0.4..3 mm with one or two sharp ridges of 1..10 mm at their foot, in any face order and direction, cut where the sides of a ridge are 5..60 um apart (default meld distance 30 um); finish distances from below to above the length of the contour of the block without the ridges; compared like above; non-trivial: at least 50 compared points",
		func(t *rapid.T) ridgeCase {
			k := ridgeCase{Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
			k.SX, k.SY = rapid.Int64Range(400, 3000).Draw(t, "sx"), rapid.Int64Range(400, 3000).Draw(t, "sy")
			k.W = k.SY * rapid.Int64Range(30, 90).Draw(t, "w") / 100
			k.L = rapid.Int64Range(1000, 10000).Draw(t, "l")
			k.Slope = k.L * rapid.Int64Range(0, 90).Draw(t, "slope") / 100
			k.ZR = rapid.Int64Range(300, 3000).Draw(t, "zr")
			k.H = k.ZR + rapid.Int64Range(100, 3000).Draw(t, "h")
			thick := rapid.Int64Range(5, 60).Draw(t, "thick")
			k.ILT = k.ZR - max64(1, k.ZR*thick/k.W)
			if k.ILT < 50 {
				k.ILT = 50
			}
			k.LT = rapid.Int64Range(50, 1000).Draw(t, "lt")
			k.Rot = rapid.Int64Range(0, 6283).Draw(t, "rot")
			k.Both = rapid.Bool().Draw(t, "both")
			k.Finish = 2 * (k.SX + k.SY) * rapid.Int64Range(5, 150).Draw(t, "finish") / 100
			k.Order, k.VRot = genOrder(t)
			return k
		},
		func(c *Ctx, k ridgeCase) error {
			in := k.tris()
			o := stdOpt()
			o.ILT, o.LT, o.Finish, o.Join = k.ILT, k.LT, k.Finish, min64(160, k.Finish)
			_, layers, err := sliceOnly(o, in)
			if err != nil {
				return err
			}
			placed := place(in, o.Center)
			compared := 0
			for i, l := range layers {
				if below := k.ZR - (k.ILT + int64(i)*k.LT); below >= 0 && below*k.W < 4*k.ZR {
					continue // the ridge is nothing but a line there
				}
				want := section(placed, float64(k.ILT+int64(i)*k.LT))
				n, err := compareSection(fmt.Sprintf("layer %d", i), l.LayerParts(), want, float64(k.Finish), k.Seed+uint64(i), 70, c)
				if err != nil {
					return err
				}
				compared += n
			}
			if compared > 50 {
				c.NonTrivial()
			}
			return nil
		})
}
