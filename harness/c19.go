package main

import (
	"fmt"
	"math"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"pgregory.net/rapid"
)

// genPrint draws a closed model of a few layers and complete options.
func genPrint(t *rapid.T, solids int, layers int64) solidCase {
	o := genOpt(t)
	o.Center[2] = 0
	if rapid.Bool().Draw(t, "fractions") {
		o.ISpeed, o.LSpeed, o.OSpeed, o.MSpeed = o.ISpeed+0.25, o.LSpeed+0.5, o.OSpeed+0.75, o.MSpeed+0.5
	}
	if o.W < 250 {
		o.W = 250
	}
	if o.LT < 80 {
		o.LT = 80
	}
	return genSolidCase(t, solids, layers, o)
}

type printRun struct {
	run  Run
	g    GCode
	tail int // first line (1-based) of the end code
}

func runPrint(k solidCase) (printRun, error) {
	var p printRun
	var err error
	if p.run, err = runPipeline(k.O, k.Mesh.Tris()); err != nil {
		return p, err
	}
	if p.g, err = parseG(p.run.G); err != nil {
		return p, err
	}
	p.tail = len(p.g.Lines) + 1 - len(k.O.End)
	return p, nil
}

// body are the moves of the layers.
func (p printRun) body() []Move {
	var out []Move
	for _, m := range p.g.Moves {
		if m.Layer >= 0 && m.Line < p.tail {
			out = append(out, m)
		}
	}
	return out
}

func (o Opt) perMM(layer int) float64 {
	lt := o.LT
	if layer == 0 {
		lt = o.ILT
	}
	r := float64(o.FilDia) / 2000
	return float64(lt) / 1000 * float64(o.W) / 1000 / (math.Pi * r * r) * float64(o.ExMult) / 100
}

func checkVolume(c *Ctx, k solidCase) error {
	p, err := runPrint(k)
	if err != nil {
		return err
	}
	sums := map[int]*sumEL{}
	back := 0.0
	for _, m := range p.body() {
		per := k.O.perMM(m.Layer)
		de := m.DE()
		l := m.XYLen() / 1000
		rl := float64(k.O.RetLen) / 1000
		switch {
		case l == 0:
			if de == 0 {
				continue
			}
			// a printed line may be shorter than the rounding
			if de > 0 && back == 0 && de <= per*0.0145+1.1e-4 {
				sumOf(sums, m.Layer).add(de, 0)
				continue
			}
			if math.Abs(math.Abs(de)-rl) > 1.1e-4+1e-6*m.E1 {
				return fmt.Errorf("line %d moves only the extruder by %v, the retraction length is %v", m.Line, de, rl)
			}
			if de < 0 {
				back += -de
			} else {
				back -= de
			}
			if back < -2e-4 || back > rl+2e-4 {
				return fmt.Errorf("line %d: the filament is retracted by %v", m.Line, back)
			}
			if math.Abs(back) < 2e-4 {
				back = 0
			}
		case de < 0:
			return fmt.Errorf("line %d pulls back the filament while moving", m.Line)
		case m.G == 0 && de != 0:
			return fmt.Errorf("line %d extrudes while travelling", m.Line)
		case m.G == 1 || de > 0:
			if back != 0 {
				return fmt.Errorf("line %d prints while the filament is retracted by %v", m.Line, back)
			}
			if d := math.Abs(de - l*per); d > per*0.0145+1.1e-4+1e-6*m.E1 {
				return fmt.Errorf("layer %d: line %d extrudes %v mm for %v mm instead of %v", m.Layer, m.Line, de, l, l*per)
			}
			sumOf(sums, m.Layer).add(de, l)
		}
	}
	lines := 0
	for n, s := range sums {
		per := k.O.perMM(n)
		lines += s.n
		if d := math.Abs(s.e - s.l*per); d > per*0.0101*float64(s.n)+3e-4+s.e*2e-6 {
			return fmt.Errorf("layer %d: %v mm of filament for %v mm of lines instead of %v", n, s.e, s.l, s.l*per)
		}
	}
	if lines > 30 && len(sums) > 1 {
		c.NonTrivial()
	}
	return nil
}

type sumEL struct {
	e, l float64
	n    int
}

func sumOf(m map[int]*sumEL, n int) *sumEL {
	if m[n] == nil {
		m[n] = &sumEL{}
	}
	return m[n]
}

func (s *sumEL) add(e, l float64) { s.e, s.l, s.n = s.e+e, s.l+l, s.n+1 }

// leaves tells whether the way a-b leaves the region: 1 yes, -1 no, 0 when it
// is too close to the border to tell.
func leaves(r Region, a, b F, m float64) tri {
	s := Seg{a, b}
	var ts []float64
	ts = append(ts, 0, 1)
	near := false
	for _, o := range r.Segs {
		if segDist(s, o) <= m {
			near = true
		}
		d := b.Sub(a)
		e := o.B.Sub(o.A)
		if x := d.Cross(e); x != 0 {
			t := o.A.Sub(a).Cross(e) / x
			if t > 0 && t < 1 {
				ts = append(ts, t)
			}
		}
	}
	if !near {
		if r.Inside(a) {
			return -1
		}
		return 1
	}
	sort.Float64s(ts)
	for i := 1; i < len(ts); i++ {
		n := 3
		if i == 1 || i == len(ts)-1 {
			n = 9
		}
		for j := 0; j <= n; j++ {
			p := s.At(ts[i-1] + (ts[i]-ts[i-1])*float64(j)/float64(n))
			if !r.Inside(p) && r.Dist(p) > m {
				return 1
			}
		}
	}
	return 0
}

func checkRetractions(c *Ctx, k solidCase) error {
	p, err := runPrint(k)
	if err != nil {
		return err
	}
	rl, rs, hop := float64(k.O.RetLen)/1000, float64(k.O.RetSpeed)*60, float64(k.O.ZHop)
	on := k.O.RetLen > 0 && k.O.RetSpeed > 0
	regions := make([]Region, len(p.run.Layers))
	for n, l := range p.run.Layers {
		regions[n] = partsRegion(l.LayerParts())
	}
	var from F
	var fromOK, retracted, hopped, moved bool
	crossings, inside := 0, 0
	var travel []Move // XY travel since the last printed line
	var retLine int
	unretracted := func() error {
		// the travel before was not retracted
		for i, tr := range travel {
			if tr.Type == "SKIRT" {
				continue
			}
			if i == 0 && !fromOK {
				continue
			}
			if lv := leaves(regions[tr.Layer], tr.A(), tr.B(), 20); lv == 1 && on {
				return fmt.Errorf("layer %d: line %d travels from %v to %v without retraction, but leaves the part", tr.Layer, tr.Line, tr.A(), tr.B())
			} else if lv == -1 {
				inside++
			}
		}
		travel = nil
		return nil
	}
	for _, m := range p.body() {
		z := float64(k.O.ILT + int64(m.Layer)*k.O.LT)
		switch {
		case m.XYLen() > 0 && m.DE() == 0 && m.G == 0, !m.FromKnown:
			if !m.FromKnown {
				if m.HasE {
					return fmt.Errorf("line %d moves the extruder before any position is known", m.Line)
				}
				from, fromOK = F{}, false
				moved = true
				continue
			}
			travel = append(travel, m)
			if retracted {
				want := z
				if hop > 0 {
					want += hop
				}
				if math.Abs(m.To[2]-want) > 5.1 || (hop > 0 && math.Abs(m.From[2]-want) > 5.1) {
					return fmt.Errorf("line %d travels retracted from height %v to %v instead of %v", m.Line, m.From[2], m.To[2], want)
				}
			}
			moved = true
		case m.XYLen() == 0 && m.DE() == 0:
			if m.HasX || m.HasY || !m.HasZ {
				continue // a move below the rounding
			}
			up := math.Abs(m.To[2]-z-hop) <= 5.1
			if hop > 0 && up && retracted && !hopped {
				hopped = true
				continue
			}
			if math.Abs(m.To[2]-z) > 5.1 {
				return fmt.Errorf("line %d moves to the height %v, but layer %d is at %v (hop %v)", m.Line, m.To[2], m.Layer, z, hop)
			}
			hopped = false
		case m.XYLen() == 0 && math.Abs(m.DE()) > rl-2e-4 && on && math.Abs(m.DE()) <= rl+2e-4 && (m.DE() < 0 || retracted):
			if !(math.Abs(m.F-rs) < 0.51) {
				return fmt.Errorf("line %d retracts with F%v instead of %v", m.Line, m.F, rs)
			}
			if m.HasX || m.HasY || m.HasZ {
				return fmt.Errorf("line %d moves the head while retracting", m.Line)
			}
			if m.DE() < 0 {
				if retracted {
					return fmt.Errorf("line %d retracts a second time", m.Line)
				}
				if err := unretracted(); err != nil {
					return err
				}
				retracted, moved, retLine = true, false, m.Line
				from, fromOK = m.A(), true
			} else {
				if !moved {
					return fmt.Errorf("line %d: retraction without any travel", m.Line)
				}
				if hopped || math.Abs(m.To[2]-z) > 5.1 {
					return fmt.Errorf("line %d restores the filament at height %v instead of %v", m.Line, m.To[2], z)
				}
				retracted = false
				if len(travel) != 1 {
					return fmt.Errorf("line %d: %d travel moves within one retraction", m.Line, len(travel))
				}
				if m.Type != "SKIRT" && leaves(regions[m.Layer], from, m.B(), 20) == -1 {
					return fmt.Errorf("line %d retracts for the way %v to %v, which does not leave the part", retLine, from, m.B())
				}
				crossings++
				travel = nil
			}
		default:
			if retracted {
				return fmt.Errorf("line %d prints while retracted", m.Line)
			}
			if err := unretracted(); err != nil {
				return err
			}
			fromOK = true
			if math.Abs(m.To[2]-z) > 5.1 {
				return fmt.Errorf("line %d prints at height %v instead of %v", m.Line, m.To[2], z)
			}
		}
	}
	if retracted {
		return fmt.Errorf("the print ends retracted")
	}
	if !on && crossings > 0 {
		return fmt.Errorf("%d retractions although it is switched off", crossings)
	}
	if crossings > 3 || (!on && inside > 3) {
		c.NonTrivial()
	}
	c.LabelIf(crossings > 3 && inside > 3, "both kinds of travel")
	c.LabelIf(crossings > 3 && hop > 0, "with hop")
	return nil
}

// retCase is a layer and short paths which are drawn one after another.
type retCase struct {
	Parts []partSpec `json:"parts"`
	Paths [][]P      `json:"paths"`
	NoL   []bool     `json:"nol"`
	Len   int64      `json:"len"`
	Speed int        `json:"speed"`
	Hop   int64      `json:"hop"`
	Pre   int        `json:"pre"` // number of single moves before
}

func checkRetractBuilder(c *Ctx, k retCase) error {
	var parts []data.LayerPart
	for _, s := range k.Parts {
		parts = append(parts, s.parts()...)
	}
	layer := data.NewPartitionedLayer(parts)
	r := partsRegion(parts)
	o := data.DefaultOptions()
	b := gcode.NewGCodeBuilder(&o)
	b.SetExtrusion(200, 400)
	b.SetMoveSpeed(150)
	b.SetExtrudeSpeed(60)
	b.SetRetractionSpeed(data.Millimeter(k.Speed))
	b.SetRetractionAmount(mm(k.Len))
	b.SetRetractionZHop(mm(k.Hop))
	known := false
	var pos V
	if k.Pre > 0 {
		b.AddMove(data.NewMicroVec3(7, 8, 200), 0)
		known, pos = true, V{7, 8, 200}
	}
	z := int64(200)
	e := 0.0
	rl := float64(k.Len) / 1000
	per := 0.2 * 0.4 / (math.Pi * 0.875 * 0.875)
	got, did, didnt := len(b.String()), 0, 0
	for i, path := range k.Paths {
		if len(path) == 0 {
			continue
		}
		if i%3 == 2 {
			z += 200
		}
		var l data.PartitionedLayer
		if !k.NoL[i] {
			l = layer
		}
		if err := b.AddPolygon(l, toPath(path), data.Micrometer(z), true); err != nil {
			return fmt.Errorf("path %d: %w", i, err)
		}
		text := b.String()[got:]
		got = len(b.String())
		g, err := parseG(text)
		if err != nil {
			return err
		}
		ms := g.Moves
		a, to := F{float64(pos[0]), float64(pos[1])}, path[0].F()
		want := leaves(r, a, to, 3)
		if !known || k.NoL[i] || k.Len == 0 || k.Speed == 0 || a == to {
			want = -1
		}
		isRet := len(ms) > 0 && ms[0].HasE && !ms[0].HasX && !ms[0].HasY && !ms[0].HasZ && math.Abs(ms[0].E1-(e-rl)) < 2e-4 && rl > 0
		if isRet && want == -1 {
			return fmt.Errorf("path %d: the way %v to %v is retracted, but should not be: %s", i, a, to, text)
		}
		if !isRet && want == 1 {
			return fmt.Errorf("path %d: the way %v to %v leaves the part, but is not retracted: %s", i, a, to, text)
		}
		// the exact sequence of the approach
		var seq []string
		if isRet {
			did++
			seq = append(seq, "E-")
			if k.Hop > 0 {
				if pos[2] != z+k.Hop {
					seq = append(seq, "Zup")
				}
				if pos[0] != path[0][0] || pos[1] != path[0][1] {
					seq = append(seq, "XYup")
				}
				seq = append(seq, "Zdown")
			} else {
				seq = append(seq, "XY")
			}
			seq = append(seq, "E+")
		} else {
			if want == -1 && !k.NoL[i] {
				didnt++
			}
			if !known || pos != (V{path[0][0], path[0][1], z}) {
				seq = append(seq, "XY")
			}
		}
		if len(ms) < len(seq) {
			return fmt.Errorf("path %d: %s does not contain %v", i, text, seq)
		}
		for j, s := range seq {
			m := ms[j]
			var bad bool
			zz := func(want int64) bool { return m.HasZ && math.Abs(m.To[2]-float64(want)) > 5.1 }
			switch s {
			case "E-", "E+":
				w := e
				if s == "E-" {
					w -= rl
				}
				bad = m.HasX || m.HasY || m.HasZ || !m.HasE || math.Abs(m.E1-w) > 2e-4
				if m.HasF && math.Abs(m.F-float64(k.Speed)*60) > 0.51 {
					bad = true
				}
			case "Zup":
				bad = m.HasX || m.HasY || m.HasE || zz(z+k.Hop) || !m.HasZ
			case "XYup":
				bad = m.HasZ || m.HasE
			case "Zdown":
				bad = m.HasX || m.HasY || m.HasE || zz(z) || !m.HasZ
			case "XY":
				bad = m.HasE || zz(z) || (m.HasZ != (!known || pos[2] != z))
			}
			if strings.HasPrefix(s, "XY") {
				if m.HasX && math.Abs(m.To[0]-to.X) > 5.1 || m.HasY && math.Abs(m.To[1]-to.Y) > 5.1 {
					bad = true
				}
			}
			if bad {
				return fmt.Errorf("path %d: line %q should be step %s of %v for the way %v to %v (height %d)", i, strings.Split(text, "\n")[j], s, seq, pos, path[0], z)
			}
		}
		for _, m := range ms[len(seq):] {
			if m.HasE && !m.HasX && !m.HasY && dist2(path[0], path[len(path)-1]) > 20 && m.E1 < e-1e-3 {
				return fmt.Errorf("path %d: retraction while printing: %s", i, text)
			}
			if m.HasZ {
				return fmt.Errorf("path %d: the height changes while printing: %s", i, text)
			}
		}
		pts := fromPath(data.DouglasPeucker(toPath(path), -1))
		for j := 1; j < len(pts); j++ {
			e += dist2(pts[j-1], pts[j]) / 1000 * per
		}
		last := pts[len(pts)-1]
		pos, known = V{last[0], last[1], z}, true
	}
	if did > 0 && didnt > 0 {
		c.NonTrivial()
	}
	return nil
}

var inner = regexp.MustCompile(`^WALL-(INNER|OUTER)$`)

func checkOrder(c *Ctx, k solidCase) error {
	p, err := runPrint(k)
	if err != nil {
		return err
	}
	if len(p.g.Layers) != len(p.run.Layers) {
		return fmt.Errorf("%d layers are announced, but there are %d", len(p.g.Layers), len(p.run.Layers))
	}
	for i, n := range p.g.Layers {
		if i != n {
			return fmt.Errorf("layer %d is announced as number %d", n, i)
		}
	}
	types := map[string]bool{}
	type wall struct{ firstOuter, lastInner int }
	walls := map[[2]int]*wall{}
	regions := map[int][]Region{}
	whole := map[int]Region{}
	for n, l := range p.run.Layers {
		whole[n] = partsRegion(l.LayerParts())
		for _, part := range l.LayerParts() {
			regions[n] = append(regions[n], partsRegion([]data.LayerPart{part}))
		}
	}
	for _, m := range p.body() {
		z := float64(k.O.ILT + int64(m.Layer)*k.O.LT)
		if m.HasE && m.XYLen() > 0 {
			if math.Abs(m.To[2]-z) > 5.1 || math.Abs(m.From[2]-z) > 5.1 {
				return fmt.Errorf("line %d of layer %d prints from height %v to %v instead of %v", m.Line, m.Layer, m.From[2], m.To[2], z)
			}
			if inner.MatchString(m.Type) && m.XYLen() > 20 {
				// the outermost wall is half a line away from the border, the next one more than a whole line
				w := float64(k.O.W)
				kind := ""
				for _, x := range []float64{0.25, 0.5, 0.75} {
					if d := whole[m.Layer].Dist(m.Seg().At(x)); d < 0.9*w-10 {
						kind = "WALL-OUTER"
					} else if d > 1.2*w+10 && kind == "" {
						kind = "WALL-INNER"
					}
				}
				if kind != "" && kind != m.Type {
					return fmt.Errorf("line %d of layer %d is announced as %s, but it is a %s", m.Line, m.Layer, m.Type, kind)
				}
			}
			want := float64(k.O.LSpeed)
			if m.Type == "WALL-OUTER" {
				want = float64(k.O.OSpeed)
			}
			if m.Layer == 0 {
				want = float64(k.O.ISpeed)
			}
			if math.Abs(m.F-want*60) > 0.51 {
				return fmt.Errorf("line %d (%s of layer %d) is printed with F%v instead of %v mm/s", m.Line, m.Type, m.Layer, m.F, want)
			}
			types[m.Type] = true
			if inner.MatchString(m.Type) {
				q := m.Seg().At(0.5)
				at := -1
				for i, r := range regions[m.Layer] {
					if r.Inside(q) && r.Dist(q) > 20 {
						if at >= 0 {
							at = -2
						} else if at == -1 {
							at = i
						}
					}
				}
				if at >= 0 {
					w := walls[[2]int{m.Layer, at}]
					if w == nil {
						w = &wall{firstOuter: math.MaxInt}
						walls[[2]int{m.Layer, at}] = w
					}
					if m.Type == "WALL-OUTER" && m.Line < w.firstOuter {
						w.firstOuter = m.Line
					}
					if m.Type == "WALL-INNER" {
						w.lastInner = m.Line
					}
				}
			}
		} else if !m.HasE && math.Abs(m.F-float64(k.O.MSpeed)*60) > 0.51 {
			return fmt.Errorf("line %d travels with F%v instead of %v mm/s", m.Line, m.F, k.O.MSpeed)
		}
	}
	both := false
	for key, w := range walls {
		if w.lastInner > w.firstOuter {
			return fmt.Errorf("layer %d part %d: the outer wall is printed at line %d before an inner one at line %d", key[0], key[1], w.firstOuter, w.lastInner)
		}
		both = both || (w.lastInner > 0 && w.firstOuter < math.MaxInt)
	}
	if len(types) >= 3 && len(p.run.Layers) > 1 && both {
		c.NonTrivial()
	}
	for ty := range types {
		c.Label("%s", ty)
	}
	return nil
}

// ---- C22

type codeCase struct {
	O      Opt `json:"o"`
	Layers int `json:"layers"`
}

var heatRe = map[string]*regexp.Regexp{
	"hot": regexp.MustCompile(`^\s*M0*(104|109)(\D|$)`),
	"bed": regexp.MustCompile(`^\s*M0*(140|190)(\D|$)`),
}

func hasCode(lines []string, which string) bool {
	for _, l := range lines {
		if heatRe[which].MatchString(l) {
			return true
		}
	}
	return false
}

// normal removes the comment and superfluous spaces of a line.
func normal(l string) string {
	if i := strings.IndexByte(l, ';'); i >= 0 {
		l = l[:i]
	}
	return strings.Join(strings.Fields(l), " ")
}

// commands returns the commands of the lines which are no moves.
func commands(lines []string) []string {
	var out []string
	for _, l := range lines {
		if n := normal(l); n != "" && !strings.HasPrefix(n, "G0") && !strings.HasPrefix(n, "G1") {
			out = append(out, n)
		}
	}
	return out
}

// sameSet compares lists regardless of the order.
func sameSet(a, b []string) bool {
	n := map[string]int{}
	for _, s := range a {
		n[s]++
	}
	for _, s := range b {
		n[s]--
	}
	for _, v := range n {
		if v != 0 {
			return false
		}
	}
	return true
}

func checkCodes(c *Ctx, k codeCase) error {
	h := k.O.ILT + int64(k.Layers-1)*k.O.LT + k.O.LT/2
	s := Solid{Kind: "voxel", Xs: []int64{0, 5000}, Ys: []int64{0, 5000}, Zs: []int64{0, h}, Fill: []int{1}}
	run, err := runPipeline(k.O, Mesh{Solids: []Solid{s}}.Tris())
	if err != nil {
		return err
	}
	lines := strings.Split(run.G, "\n")
	if lines[len(lines)-1] != "" {
		return fmt.Errorf("the G-code does not end with a line break")
	}
	lines = lines[:len(lines)-1]
	nl := len(run.Layers)
	o := k.O

	repl := func(ls []string, do bool) []string {
		var out []string
		for _, l := range ls {
			if do {
				l = strings.ReplaceAll(l, "{print_bed_temperature}", strconv.Itoa(o.BedI))
				l = strings.ReplaceAll(l, "{print_temperature}", strconv.Itoa(o.HotI))
			}
			out = append(out, l)
		}
		return out
	}
	start, end := repl(o.Start, true), o.End

	// the end code are the last lines
	if len(lines) < len(end) {
		return fmt.Errorf("only %d lines", len(lines))
	}
	for i, l := range end {
		if got := lines[len(lines)-len(end)+i]; got != l {
			return fmt.Errorf("line %d of the end code is %q instead of %q", i+1, got, l)
		}
	}
	// the start code is a block before the first layer
	first := -1
	for i, l := range lines {
		if l == ";LAYER:0" {
			first = i
			break
		}
	}
	if first < 0 {
		return fmt.Errorf("there is no layer 0")
	}
	at := -1
	for i := 0; i+len(start) <= first && at < 0; i++ {
		ok := true
		for j, l := range start {
			ok = ok && lines[i+j] == l
		}
		if ok {
			at = i
		}
	}
	if at < 0 {
		return fmt.Errorf("the start code %q is not found in %q", start, lines[:first])
	}
	if len(start) == 0 {
		// any place fits
		at = 0
		for at < first && normal(lines[at]) != "G92 E0" {
			at++
		}
	}
	before, after := commands(lines[:at]), lines[at+len(start):first]
	var heat []string
	if o.Safe && o.HasBed && !hasCode(o.Start, "bed") {
		heat = append(heat, fmt.Sprintf("M190 S%d", o.BedI))
	}
	if o.Safe && !hasCode(o.Start, "hot") {
		heat = append(heat, fmt.Sprintf("M109 S%d", o.HotI))
	}
	if !sameSet(before, heat) {
		return fmt.Errorf("the commands before the start code %q are %q instead of %q", o.Start, before, heat)
	}
	for _, l := range lines[:at] {
		if n := normal(l); strings.HasPrefix(n, "G0") || strings.HasPrefix(n, "G1") {
			return fmt.Errorf("%q is executed before the start code", l)
		}
	}
	if got := commands(after); !sameSet(got, []string{"G92 E0"}) {
		return fmt.Errorf("the commands after the start code are %q", got)
	}
	for _, l := range after {
		if n := normal(l); strings.HasPrefix(n, "G0") || strings.HasPrefix(n, "G1") {
			return fmt.Errorf("%q is executed before the first layer", l)
		}
	}
	// the layers
	layer := 0
	moved := false
	got := map[int][]string{}
	var tail []string
	for i, l := range lines[first : len(lines)-len(end)] {
		if strings.HasPrefix(l, ";LAYER:") {
			if layer, err = strconv.Atoi(l[7:]); err != nil {
				return err
			}
			moved = false
			continue
		}
		n := normal(l)
		if n == "" {
			continue
		}
		if strings.HasPrefix(n, "G0") || strings.HasPrefix(n, "G1") {
			if len(tail) > 0 {
				return fmt.Errorf("line %d: %q is executed after %q", first+i+1, l, tail)
			}
			moved = true
			continue
		}
		if moved {
			if layer != nl-1 {
				return fmt.Errorf("line %d: %q is executed in the middle of layer %d", first+i+1, l, layer)
			}
			tail = append(tail, n)
			continue
		}
		got[layer] = append(got[layer], n)
	}
	var off []string
	if o.Safe && !hasCode(o.End, "hot") {
		off = append(off, "M104 S0")
	}
	if o.Safe && o.HasBed && !hasCode(o.End, "bed") {
		off = append(off, "M140 S0")
	}
	if !sameSet(tail, off) {
		return fmt.Errorf("the commands between the last layer and the end code %q are %q instead of %q", o.End, tail, off)
	}
	fan := map[int]int{}
	for _, kv := range o.Fan {
		fan[kv[0]] = kv[1]
	}
	applied := 0
	for n := 0; n < nl; n++ {
		var want []string
		if s, ok := fan[n]; ok {
			applied++
			if s == 0 {
				want = append(want, "M107")
			} else {
				want = append(want, fmt.Sprintf("M106 S%d", s))
			}
		}
		if n == o.TempLayers {
			applied++
			want = append(want, fmt.Sprintf("M104 S%d", o.Hot))
			if o.HasBed {
				want = append(want, fmt.Sprintf("M140 S%d", o.Bed))
			}
		}
		if !sameSet(got[n], want) {
			return fmt.Errorf("layer %d begins with %q instead of %q", n, got[n], want)
		}
	}
	if applied > 0 && len(o.Start)+len(o.End) > 0 {
		c.NonTrivial()
	}
	c.LabelIf(applied > 1, "several changes")
	return nil
}

func genCodeLine(t *rapid.T) string {
	s := rapid.SampledFrom([]string{
		"G28", "G1 Z5 F5000 ; lift nozzle", "M104 S{print_temperature}", "M109 S{print_temperature}", "M140 S{print_bed_temperature}", "M190 S{print_bed_temperature}",
		"; M104 S200", ";M140 S60", "M104S200", "M140S50 ;bed", "M1040", "M1900 X", "M117 100% done", "M117 {print_temperature} of {print_temperature} {print_bed_temperature}", "  M109 S1", "\tM190 S1",
		"", " ", ";", "{other}", "%d %s", "M84", "M105", "M10", "G92 E0", "M106 S10", "M107", "m104 s1", "M117 M104", "M117 \"a;b\" \\n", "T0", "M400\t", "G4 P10  ", " \t G4 ;\t ",
	}).Draw(t, "line")
	if rapid.IntRange(0, 11).Draw(t, "long") == 0 {
		s = "M117 " + strings.Repeat(rapid.SampledFrom([]string{"100% ", "x", "{y} %d ", "\"%s\" "}).Draw(t, "what"), rapid.IntRange(10, 200).Draw(t, "times")) + s
	}
	if rapid.IntRange(0, 4).Draw(t, "random?") == 0 {
		s = rapid.StringMatching(`[A-LN-Z;{ ][A-Za-z0-9 %;=.,_{}()+*/\\-]{0,20}`).Draw(t, "random")
		if strings.HasPrefix(s, ";LAYER") {
			s = ";"
		}
	}
	return s
}

func init() {
	Register("C19", "volume", 4000, 120000,
		"closed meshes (1..2 bodies, overhangs) with complete random options (line and layer sizes, filament, multiplier, all features, retraction, support, brim, skirt); the extrusion of every move recomputed from the printed coordinates; non-trivial: more than 30 lines in two layers",
		func(t *rapid.T) solidCase { return genPrint(t, 2, 5) }, checkVolume)
	Register("C20", "printed", 4000, 120000,
		"closed meshes (1..3 bodies with holes and overhangs) with complete random options; every travel move of the G-code compared with the area of its layer; non-trivial: more than three retractions (or journeys, if switched off)",
		func(t *rapid.T) solidCase { return genPrint(t, 3, 5) }, checkRetractions, Robust)
	Register("C20", "paths", 20000, 600000,
		"layers of 1..4 parts with holes and islands, 2..12 paths drawn one after another from and to places inside and outside (also directly on the former end), with and without layer, before and after a position is known, retraction on and off, with and without hop; exact sequence of moves compared with a reference; non-trivial: ways with and without retraction",
		func(t *rapid.T) retCase {
			k := retCase{Len: maybe(t, "len", 2000, rapid.Int64Range(0, 6000)), Speed: maybe(t, "speed", 30, rapid.IntRange(0, 80)), Hop: maybe(t, "hop", 0, rapid.Int64Range(10, 2000)), Pre: rapid.IntRange(0, 2).Draw(t, "pre")}
			st := genStack(t, 1, 1, 400)
			k.Parts = st[0]
			lo, hi := P{-3000, -3000}, P{3000, 3000}
			var all []P
			for _, s := range k.Parts {
				for _, p := range s.parts() {
					for _, path := range append(data.Paths{p.Outline()}, p.Holes()...) {
						all = append(all, fromPath(path)...)
					}
				}
			}
			for i, p := range all {
				for a := range p {
					if i == 0 || p[a]-1000 < lo[a] {
						lo[a] = p[a] - 1000
					}
					if i == 0 || p[a]+1000 > hi[a] {
						hi[a] = p[a] + 1000
					}
				}
			}
			n := rapid.IntRange(2, 12).Draw(t, "npaths")
			last := P{}
			pt := func() P {
				switch rapid.IntRange(0, 5).Draw(t, "where") {
				case 0:
					return last
				case 1:
					if len(all) > 0 {
						a := all[rapid.IntRange(0, len(all)-1).Draw(t, "corner")]
						return P{a[0] + rapid.Int64Range(-300, 300).Draw(t, "ox"), a[1] + rapid.Int64Range(-300, 300).Draw(t, "oy")}
					}
				case 2:
					return P{last[0] + rapid.Int64Range(-500, 500).Draw(t, "lx"), last[1] + rapid.Int64Range(-500, 500).Draw(t, "ly")}
				}
				return P{rapid.Int64Range(lo[0], hi[0]).Draw(t, "x"), rapid.Int64Range(lo[1], hi[1]).Draw(t, "y")}
			}
			for i := 0; i < n; i++ {
				var path []P
				for j := rapid.IntRange(1, 4).Draw(t, "np"); j > 0; j-- {
					last = pt()
					path = append(path, last)
				}
				k.Paths = append(k.Paths, path)
				k.NoL = append(k.NoL, rapid.IntRange(0, 5).Draw(t, "nol") == 0)
			}
			return k
		}, checkRetractBuilder, Robust)
	Register("C21", "printed", 4000, 120000,
		"closed meshes (1..3 bodies, overhangs, floating bodies) with complete random options (also fractional speeds); layer announcements, heights, speeds of all moves and the order of walls; non-trivial: three kinds of lines, several layers, inner and outer walls",
		func(t *rapid.T) solidCase { return genPrint(t, 3, 6) }, checkOrder)
	Register("C22", "codes", 8000, 250000,
		"a block of 1..14 layers with start and end code of 0..5 lines each (placeholders, percent signs, commented and disguised temperature codes, blank lines), safe mode and heated bed on and off, all temperatures, fan tables; the commands of the G-code compared with a reference; non-trivial: a fan or temperature change and custom code",
		func(t *rapid.T) codeCase {
			o := genOpt(t)
			o.Sup, o.Infill, o.Bottom, o.Top = false, 0, 0, 0
			o.Insets, o.Brim, o.Skirt = 1, rapid.IntRange(0, 1).Draw(t, "brim1"), rapid.IntRange(0, 1).Draw(t, "skirt1")
			o.W = 400
			o.LT, o.ILT = 200, 200
			o.Start, o.End = nil, nil
			for i := rapid.IntRange(0, 5).Draw(t, "nstart"); i > 0; i-- {
				o.Start = append(o.Start, genCodeLine(t))
			}
			for i := rapid.IntRange(0, 5).Draw(t, "nend"); i > 0; i-- {
				o.End = append(o.End, genCodeLine(t))
			}
			k := codeCase{o, rapid.IntRange(1, 14).Draw(t, "nlayers")}
			if rapid.IntRange(0, 39).Draw(t, "high") == 0 {
				k.Layers = rapid.IntRange(15, 300).Draw(t, "manylayers")
				k.O.TempLayers = maybe(t, "manyinit", k.O.TempLayers, rapid.IntRange(0, k.Layers))
				for i := rapid.IntRange(0, 5).Draw(t, "morefans"); i > 0; i-- {
					l := rapid.IntRange(5, k.Layers+3).Draw(t, "fanlayer")
					for _, f := range k.O.Fan {
						if f[0] == l {
							l = -1
						}
					}
					if l >= 0 {
						k.O.Fan = append(k.O.Fan, [2]int{l, rapid.IntRange(0, 255).Draw(t, "fanspeed")})
					}
				}
			}
			return k
		}, checkCodes)
}
