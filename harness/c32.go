package main

import (
	"fmt"
	"math"

	"pgregory.net/rapid"
)

// gapBody is a contour of vertical walls, each of which may start beside the
// end of the one before.
type gapBody struct {
	Center P       `json:"c"`
	R      []int64 `json:"r"` // per corner
	Phase  int64   `json:"phase"`
	Gap    []int64 `json:"gap"`   // per wall: how far its start is away from the end of the former one
	Angle  []int64 `json:"angle"` // per wall: 0: along the wall, otherwise any direction
	Inner  bool    `json:"inner,omitempty"`
	Base   int64   `json:"base,omitempty"`   // > 0: width of a spike in the middle of the first wall
	Height int64   `json:"height,omitempty"` // of the spike, negative: inwards
}

// stray is a lonely wall which starts near to the end of a wall of a contour.
type stray struct {
	Body  int   `json:"body"`
	Wall  int   `json:"wall"`
	D     int64 `json:"d"` // from the end of the wall
	Angle int64 `json:"angle"`
	Len   int64 `json:"len"`
}

type gapCase struct {
	Strays []stray   `json:"strays,omitempty"`
	Bodies []gapBody `json:"bodies"`
	Join   int64     `json:"join"`
	Finish int64     `json:"finish"`
	Meld   int64     `json:"meld"`
	H      int64     `json:"h"`
	Z      int64     `json:"z"`
	Order  []int     `json:"order,omitempty"`
	Rot    []int     `json:"rot,omitempty"`
	Seed   uint64    `json:"seed"`
}

// walls returns start and end of each wall.
func (b gapBody) walls() [][2]P {
	n := len(b.R)
	var v []P
	for i, r := range b.R {
		sin, cos := sincos(i, n, b.Phase)
		v = append(v, P{b.Center[0] + int64(math.Round(float64(r)*cos)), b.Center[1] + int64(math.Round(float64(r)*sin))})
	}
	if b.Base > 0 {
		s, e := v[0], v[1]
		l := math.Hypot(float64(e[0]-s[0]), float64(e[1]-s[1]))
		tx, ty := float64(e[0]-s[0])/l, float64(e[1]-s[1])/l
		mx, my := float64(e[0]+s[0])/2, float64(e[1]+s[1])/2
		at := func(t, n float64) P {
			return P{int64(math.Round(mx + tx*t + ty*n)), int64(math.Round(my + ty*t - tx*n))}
		}
		w := float64(b.Base) / 2
		v = append([]P{s, at(-w, 0), at(0, float64(b.Height)), at(w, 0)}, v[1:]...)
	}
	n = len(v)
	if b.Inner {
		v = reversed(v)
	}
	var out [][2]P
	for i := range v {
		s, e := v[i], v[(i+1)%n]
		if g := float64(b.Gap[i]); g > 0 {
			a := math.Atan2(float64(e[1]-s[1]), float64(e[0]-s[0])) + float64(b.Angle[i])*math.Pi/180
			s = P{s[0] + int64(math.Round(g*math.Cos(a))), s[1] + int64(math.Round(g*math.Sin(a)))}
		}
		out = append(out, [2]P{s, e})
	}
	return out
}

func (k gapCase) tris() []Tri {
	var ts []Tri
	for _, b := range k.Bodies {
		for _, w := range b.walls() {
			a, e := V{w[0][0], w[0][1], 0}, V{w[1][0], w[1][1], 0}
			a2, e2 := V{a[0], a[1], k.H}, V{e[0], e[1], k.H}
			ts = append(ts, Tri{a, e, e2}, Tri{a, e2, a2})
		}
	}
	for _, w := range k.strayWalls() {
		a, e := V{w[0][0], w[0][1], 0}, V{w[1][0], w[1][1], 0}
		a2, e2 := V{a[0], a[1], k.H}, V{e[0], e[1], k.H}
		ts = append(ts, Tri{a, e, e2}, Tri{a, e2, a2})
	}
	return reorder(ts, k.Order, k.Rot)
}

func pdist2(a, b P) int64 {
	x, y := a[0]-b[0], a[1]-b[1]
	return x*x + y*y
}

// strayWalls returns start and end of each stray wall.
func (k gapCase) strayWalls() [][2]P {
	var out [][2]P
	for _, s := range k.Strays {
		w := k.Bodies[s.Body].walls()
		e := w[s.Wall%len(w)][1]
		a := float64(s.Angle) * math.Pi / 180
		at := func(d int64) P {
			return P{e[0] + int64(math.Round(float64(d)*math.Cos(a))), e[1] + int64(math.Round(float64(d)*math.Sin(a)))}
		}
		out = append(out, [2]P{at(s.D), at(s.D + s.Len)})
	}
	return out
}

// ambiguous returns if an end could be joined with more than the wall which follows.
func (k gapCase) ambiguous() bool {
	type id struct{ body, wall int }
	ends, starts := map[id]P{}, map[id]P{}
	all := make([][][2]P, len(k.Bodies))
	for i, b := range k.Bodies {
		all[i] = b.walls()
		for j, w := range all[i] {
			starts[id{i, j}], ends[id{i, j}] = w[0], w[1]
		}
	}
	// both faces of a wall meet somewhere in its middle: pieces of a contour may start and end also there
	mid := func(w [2]P) P {
		return P{w[0][0] + (w[1][0]-w[0][0])*k.Z/k.H, w[0][1] + (w[1][1]-w[0][1])*k.Z/k.H}
	}
	mids := map[id]P{}
	for i := range all {
		for j, w := range all[i] {
			mids[id{i, j}] = mid(w)
		}
	}
	free := k.Join + 30
	near := func(p, q P) bool { return pdist2(p, q) <= free*free }
	for e, p := range ends {
		for s, q := range starts {
			if e.body == s.body && (e.wall+1)%len(all[e.body]) == s.wall {
				continue
			}
			if near(p, q) {
				return true
			}
		}
	}
	for e, p := range mids {
		for s := range mids {
			if near(p, starts[s]) || near(p, ends[s]) || e != s && near(p, mids[s]) {
				return true
			}
		}
		for _, w := range k.strayWalls() {
			if near(p, w[0]) || near(p, w[1]) || near(p, mid(w)) || near(mid(w), starts[e]) || near(mid(w), ends[e]) {
				return true
			}
		}
	}
	melds := 2*k.Meld + 5 // nearer points may become one
	for i, w := range k.strayWalls() {
		at := k.Strays[i]
		ws := all[at.Body]
		n := len(ws)
		at.Wall %= n
		// the stray has to be clearly farther away than the wall which follows, which has to be joined there
		next := math.Sqrt(float64(pdist2(ws[at.Wall][1], ws[(at.Wall+1)%n][0])))
		if next > float64(k.Join) || float64(at.D) < next+25 || at.D < melds || pdist2(w[0], ws[(at.Wall+1)%n][0]) < melds*melds {
			return true
		}
		gaps := 0
		for j := range ws {
			if d := pdist2(ws[(j+n-1)%n][1], ws[j][0]); d > melds*melds {
				gaps++
			}
		}
		if gaps < 2 {
			return true // the contour is one chain, which is not joined with itself
		}
		for s, q := range starts {
			if pdist2(w[1], q) <= free*free {
				return true
			}
			_ = s
		}
		for e, q := range ends {
			if (e != id{at.Body, at.Wall}) && pdist2(w[0], q) <= free*free {
				return true
			}
		}
		for j, w2 := range k.strayWalls() {
			if pdist2(w[1], w2[0]) <= 4*(free+k.Finish)*(free+k.Finish) || i != j && pdist2(w[0], w2[0]) <= 4*free*free {
				return true
			}
		}
	}
	return false
}

// chains returns the walls of each body between the gaps which are too wide to be joined.
func (k gapCase) chains(b gapBody) [][][2]P {
	ws := b.walls()
	n := len(ws)
	var at []int
	for j := range ws {
		if pdist2(ws[(j+n-1)%n][1], ws[j][0]) > k.Join*k.Join {
			at = append(at, j)
		}
	}
	if len(at) == 0 {
		return [][][2]P{ws}
	}
	var out [][][2]P
	for i, s := range at {
		e := at[(i+1)%len(at)]
		var chain [][2]P
		for j := s; len(chain) == 0 || j != e; j = (j + 1) % n {
			chain = append(chain, ws[j])
		}
		out = append(out, chain)
	}
	return out
}

func checkGaps(c *Ctx, k gapCase) error {
	if k.ambiguous() {
		c.Label("ambiguous")
		return nil
	}
	o := stdOpt()
	o.Join, o.Finish, o.Meld = k.Join, k.Finish, k.Meld
	o.ILT, o.LT = k.Z, k.H
	ts := k.tris()
	_, layers, err := sliceOnly(o, ts)
	if err != nil {
		return err
	}
	if len(layers) != 1 {
		return fmt.Errorf("%d layers instead of one", len(layers))
	}
	// the placement
	placed := place(ts, o.Center)
	off := F{placed[0][0][0] - float64(ts[0][0][0]), placed[0][0][1] - float64(ts[0][0][1])}
	var want Region
	present, total := 0, 0
	what := ""
	for i, b := range k.Bodies {
		for j, chain := range k.chains(b) {
			total++
			d := pdist2(chain[len(chain)-1][1], chain[0][0])
			closed := d <= k.Finish*k.Finish
			what += fmt.Sprintf(" contour %d, chain %d: %d walls, ends %.1f apart, closed: %v;", i, j, len(chain), math.Sqrt(float64(d)), closed)
			c.LabelIf(d <= k.Join*k.Join, "joined")
			c.LabelIf(closed && d > k.Join*k.Join, "finished")
			c.LabelIf(closed && j > 0, "finished part")
			c.LabelIf(!closed, "left open")
			if !closed {
				continue
			}
			present++
			var loop []F
			for _, w := range chain {
				for _, p := range w {
					loop = append(loop, F{float64(p[0]) + off.X, float64(p[1]) + off.Y})
				}
			}
			want.AddLoop(loop)
		}
	}
	c.LabelIf(len(k.Strays) > 0, "stray")
	if present < total {
		c.NonTrivial()
	}
	parts := layers[0].LayerParts()
	if len(want.Segs) == 0 {
		if len(parts) > 0 {
			return fmt.Errorf("%d parts, but no contour can be closed (join distance %d, finish distance %d):%s", len(parts), k.Join, k.Finish, what)
		}
		return nil
	}
	got := partsRegion(parts)
	n := 0
	for _, p := range probes(k.Seed, 40, 60, []float64{float64(k.Meld) + 30, 200, 3000}, want, got) {
		if want.Dist(p) < float64(k.Meld)+25 { // ends which are nearer than the meld distance may move
			continue
		}
		n++
		if in, w := got.Inside(p), want.Inside(p); in != w {
			return fmt.Errorf("point %.0f/%.0f is inside a layer part: %v, inside the contours which can be closed: %v (join distance %d, finish distance %d;%s)", p.X, p.Y, in, w, k.Join, k.Finish, what)
		}
	}
	if n > 30 {
		c.NonTrivial()
	}
	return nil
}

func init() {
	Register("C32", "gaps", 6000, 150000,
		"1..3 contours (also one inside another) of 3..8 vertical walls in any face order, whose ends are 0 to twice the join or finish distance apart, many exactly at these distances and one micrometre more; the layer compared with the contours which can be closed; non-trivial: a contour is left open or at least 30 points compared",
		func(t *rapid.T) gapCase {
			k := gapCase{Seed: rapid.Uint64Range(1, 1<<30).Draw(t, "seed")}
			k.Meld = rapid.Int64Range(1, 30).Draw(t, "meld")
			k.Join = maybe(t, "join", 160, rapid.Int64Range(k.Meld+5, 600))
			k.Finish = maybe(t, "finish", 1000, rapid.Int64Range(k.Join, k.Join+2000))
			if k.Finish < k.Join {
				k.Finish = k.Join
			}
			k.H = rapid.Int64Range(400, 20000).Draw(t, "h")
			k.Z = k.H * rapid.Int64Range(30, 70).Draw(t, "z") / 100
			size := 12 * (k.Finish + k.Join)
			for i := rapid.IntRange(1, 3).Draw(t, "bodies"); i > 0; i-- {
				b := gapBody{Phase: rapid.Int64Range(0, 6283).Draw(t, "phase")}
				n := rapid.IntRange(3, 8).Draw(t, "n")
				b.Center = P{int64(i) * size * 12, rapid.Int64Range(-100000, 100000).Draw(t, "y")}
				for j := 0; j < n; j++ {
					b.R = append(b.R, size*rapid.Int64Range(15, 20).Draw(t, "r")/10)
				}
				if rapid.IntRange(0, 2).Draw(t, "spike") == 0 {
					n += 3
					b.Base = rapid.Int64Range(k.Join*4+400, k.Join*4+500+k.Finish*5/4).Draw(t, "base")
					b.Height = size / 2 * rapid.SampledFrom([]int64{1, 1, -1}).Draw(t, "height")
				}
				wide := rapid.IntRange(0, 3).Draw(t, "wide")
				for j := 0; j < n; j++ {
					g := int64(0)
					switch rapid.IntRange(0, 5).Draw(t, "kind") {
					case 0:
					case 1:
						g = rapid.Int64Range(0, k.Join).Draw(t, "gap")
					case 2:
						g = k.Join
					default:
						g = rapid.Int64Range(0, k.Join).Draw(t, "small")
						if wide > 0 {
							wide--
							g = rapid.SampledFrom([]int64{k.Join + 1, k.Join + 5, k.Finish, k.Finish + 1, k.Finish + 5, rapid.Int64Range(k.Join, 2*k.Finish).Draw(t, "any")}).Draw(t, "widegap")
						}
					}
					b.Gap = append(b.Gap, g)
					b.Angle = append(b.Angle, maybe(t, "angle", 0, rapid.Int64Range(-80, 80)))
				}
				if b.Base > 0 && rapid.IntRange(0, 1).Draw(t, "cut") == 0 {
					for _, j := range []int{1, 3} {
						b.Gap[j] = rapid.SampledFrom([]int64{k.Join + 2, k.Join + 40, k.Join + 100}).Draw(t, "cutgap")
						b.Angle[j] = rapid.Int64Range(-60, 60).Draw(t, "cutangle")
					}
					b.Gap[2] = rapid.Int64Range(0, k.Join).Draw(t, "tipgap")
				}
				k.Bodies = append(k.Bodies, b)
			}
			if len(k.Bodies) > 1 && rapid.IntRange(0, 2).Draw(t, "nested") == 0 {
				b := &k.Bodies[len(k.Bodies)-1]
				b.Inner = rapid.IntRange(0, 3).Draw(t, "inner") > 0
				b.Center = k.Bodies[0].Center
				for j := range k.Bodies[0].R {
					k.Bodies[0].R[j] *= 4
				}
			}
			for i := rapid.IntRange(0, 2).Draw(t, "strays"); i > 0; i-- {
				st := stray{Body: rapid.IntRange(0, len(k.Bodies)-1).Draw(t, "straybody"), Angle: rapid.Int64Range(0, 359).Draw(t, "strayangle"), Len: size}
				g := k.Bodies[st.Body].Gap
				st.Wall = rapid.IntRange(0, len(g)-1).Draw(t, "straywall")
				st.D = rapid.Int64Range(0, k.Join).Draw(t, "strayd")
				next := g[(st.Wall+1)%len(g)]
				if lo := max(next+28, 2*k.Meld+5); lo <= k.Join {
					st.D = rapid.Int64Range(lo, k.Join).Draw(t, "straynear")
				} else {
					continue
				}
				k.Strays = append(k.Strays, st)
			}
			k.Order, k.Rot = genOrder(t)
			return k
		}, checkGaps)
}
