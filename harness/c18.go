package main

import (
	"fmt"
	"math"
	"reflect"
	"strconv"
	"strings"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/gcode"
	"pgregory.net/rapid"
)

// bop is one call of the G-code builder.
type bop struct {
	Op   string  `json:"op"`
	P    V       `json:"p,omitempty"`
	E    float64 `json:"e,omitempty"` // extrusion in mm
	S    float64 `json:"s,omitempty"` // speed in mm/s or another setting
	T    string  `json:"t,omitempty"`
	Args []int   `json:"args,omitempty"`
	Path []P     `json:"path,omitempty"`
	Open bool    `json:"open,omitempty"`
	N    int     `json:"n,omitempty"` // repetitions
}

type builderCase struct {
	FilDia int64 `json:"fildia"`
	ExMult int   `json:"exmult"`
	Ops    []bop `json:"ops"`
}

// bevent is what is expected in the output.
type bevent struct {
	text  string // a verbatim line, if it is no move
	move  bool
	p     V
	dE    float64
	e     float64
	eTol  float64
	speed float64
}

// builderModel is the reference: what the calls ask for.
type builderModel struct {
	events           []bevent
	pos              V
	known            bool
	e, eTol          float64
	perMM            float64
	move, ext, overr float64
	filDia           int64
	exMult           int
}

func (m *builderModel) addMove(p V, e, speed float64) {
	if m.known && p == m.pos && e == 0 {
		return
	}
	m.pos, m.known = p, true
	m.e += e
	m.eTol += math.Abs(e) * 1e-6
	m.events = append(m.events, bevent{move: true, p: p, dE: e, e: m.e, eTol: 5.1e-5 + m.eTol, speed: speed})
}

func (m *builderModel) extSpeed() float64 {
	if m.overr > 0 {
		return m.overr
	}
	return m.ext
}

func dist2(a, b P) float64 { return math.Hypot(float64(a[0]-b[0]), float64(a[1]-b[1])) }

func checkBuilder(c *Ctx, k builderCase) error {
	o := data.DefaultOptions()
	o.Filament.FilamentDiameter, o.Filament.ExtrusionMultiplier = data.Micrometer(k.FilDia), k.ExMult
	b := gcode.NewGCodeBuilder(&o)
	m := &builderModel{filDia: k.FilDia, exMult: k.ExMult}
	paths := 0
	for i, op := range k.Ops {
		switch op.Op {
		case "extrusion":
			b.SetExtrusion(data.Micrometer(op.P[0]), data.Micrometer(op.P[1]))
			r := float64(k.FilDia) / 2000
			m.perMM = float64(op.P[0]) / 1000 * float64(op.P[1]) / 1000 / (math.Pi * r * r) * float64(k.ExMult) / 100
		case "movespeed":
			b.SetMoveSpeed(data.Millimeter(op.S))
			m.move = op.S
		case "extrudespeed":
			b.SetExtrudeSpeed(data.Millimeter(op.S))
			m.ext = op.S
		case "override":
			b.SetExtrudeSpeedOverride(data.Millimeter(op.S))
			m.overr = op.S
		case "nooverride":
			b.DisableExtrudeSpeedOverride()
			m.overr = 0
		case "retraction":
			// has no effect without a layer
			b.SetRetractionSpeed(data.Millimeter(op.S))
			b.SetRetractionAmount(data.Millimeter(op.E))
			b.SetRetractionZHop(1)
		case "command", "comment":
			args := make([]interface{}, len(op.Args))
			want := op.T
			for j, a := range op.Args {
				args[j] = a
				want = strings.Replace(want, "%d", strconv.Itoa(a), 1)
			}
			if op.Op == "command" {
				b.AddCommand(op.T, args...)
			} else {
				b.AddComment(op.T, args...)
				want = ";" + want
			}
			m.events = append(m.events, bevent{text: want})
		case "move":
			for j := 0; j <= op.N; j++ {
				p := V{op.P[0] + int64(j%5)*int64(op.N%7)*100, op.P[1], op.P[2]}
				e := float64(float32(op.E))
				b.AddMove(vec(p), data.Millimeter(op.E))
				if e != 0 {
					m.addMove(p, e, m.extSpeed())
				} else {
					m.addMove(p, 0, m.move)
				}
			}
		case "movespeedop":
			e := float64(float32(op.E))
			// whatever number type the speed has
			f := reflect.ValueOf(b.AddMoveSpeed)
			f.Call([]reflect.Value{reflect.ValueOf(vec(op.P)), reflect.ValueOf(data.Millimeter(op.E)), reflect.ValueOf(op.S).Convert(f.Type().In(2))})
			m.addMove(op.P, e, op.S)
		case "path":
			for j := 0; j <= op.N; j++ {
				path := toPath(op.Path)
				z := op.P[2]
				if err := b.AddPolygon(nil, path, data.Micrometer(z), op.Open); err != nil {
					return fmt.Errorf("call %d: %w", i, err)
				}
				got := fromPath(path)
				for q := range op.Path {
					if len(got) != len(op.Path) || got[q] != op.Path[q] {
						return fmt.Errorf("call %d: the path was modified: %v instead of %v", i, got, op.Path)
					}
				}
				want := fromPath(data.DouglasPeucker(toPath(op.Path), -1))
				for q, p := range want {
					if q == 0 {
						m.addMove(V{p[0], p[1], z}, 0, m.move)
						continue
					}
					m.addExtrusion(V{p[0], p[1], z}, dist2(want[q-1], p)/1000*m.perMM)
				}
				if !op.Open && len(want) > 0 {
					m.addExtrusion(V{want[0][0], want[0][1], z}, dist2(want[len(want)-1], want[0])/1000*m.perMM)
				}
				paths++
			}
		}
	}

	// interpret the text
	g := b.String()
	if g != "" && !strings.HasSuffix(g, "\n") {
		return fmt.Errorf("the last line is not terminated")
	}
	lines := strings.Split(g, "\n")
	lines = lines[:len(lines)-1]
	if len(lines) != len(m.events) {
		for i, e := range m.events {
			if i >= len(lines) || e.move != (strings.HasPrefix(lines[i], "G0") || strings.HasPrefix(lines[i], "G1")) {
				l := "nothing"
				if i < len(lines) {
					l = lines[i]
				}
				return fmt.Errorf("%d lines instead of %d, first difference: %q instead of %+v", len(lines), len(m.events), l, e)
			}
		}
		return fmt.Errorf("%d lines instead of %d: %q", len(lines), len(m.events), lines[len(m.events):])
	}
	var pos [3]float64
	var known [3]bool
	e, f := 0.0, -1.0
	moves := 0
	for i, ev := range m.events {
		if !ev.move {
			if lines[i] != ev.text {
				return fmt.Errorf("line %d is %q instead of %q", i+1, lines[i], ev.text)
			}
			continue
		}
		moves++
		fields := strings.Fields(lines[i])
		if fields[0] != "G0" && fields[0] != "G1" {
			return fmt.Errorf("line %d is %q instead of a move %+v", i+1, lines[i], ev)
		}
		e0 := e
		for _, wrd := range fields[1:] {
			v, err := strconv.ParseFloat(wrd[1:], 64)
			if err != nil {
				return fmt.Errorf("line %d: %q: %w", i+1, lines[i], err)
			}
			switch wrd[0] {
			case 'X', 'Y', 'Z':
				pos[wrd[0]-'X'], known[wrd[0]-'X'] = v, true
			case 'E':
				e = v
			case 'F':
				f = v
			default:
				return fmt.Errorf("line %d: unknown word in %q", i+1, lines[i])
			}
		}
		for a := range pos {
			if !known[a] || math.Abs(pos[a]-float64(ev.p[a])/1000) > 0.00502 {
				return fmt.Errorf("line %d (%q) moves to %v instead of %v um", i+1, lines[i], pos, ev.p)
			}
		}
		if math.Abs(e-ev.e) > ev.eTol {
			return fmt.Errorf("line %d (%q): the extruder is at %v instead of %v", i+1, lines[i], e, ev.e)
		}
		if ev.dE == 0 && e != e0 {
			return fmt.Errorf("line %d (%q) moves the extruder, but nothing should be extruded", i+1, lines[i])
		}
		if ev.speed != 0 && math.Abs(f-ev.speed*60) > 0.51 {
			return fmt.Errorf("line %d (%q) moves with F%v instead of %v mm/s", i+1, lines[i], f, ev.speed)
		}
	}
	if moves > 5 && paths > 0 {
		c.NonTrivial()
	}
	c.LabelIf(m.e > 1000, "more than 1 m of filament")
	return nil
}

func (m *builderModel) addExtrusion(p V, e float64) {
	if e == 0 {
		m.addMove(p, 0, m.move)
		return
	}
	m.addMove(p, e, m.extSpeed())
}

func genSpeed(t *rapid.T, label string) float64 {
	if rapid.IntRange(0, 3).Draw(t, label+"frac") == 0 {
		return float64(rapid.IntRange(2, 800).Draw(t, label)) / 4
	}
	if rapid.IntRange(0, 9).Draw(t, label+"hundredth") == 0 {
		return float64(rapid.IntRange(100, 20000).Draw(t, label)) / 100
	}
	return float64(rapid.IntRange(1, 400).Draw(t, label))
}

func genText(t *rapid.T) (string, []int) {
	s := rapid.SampledFrom([]string{"G28", "M117 50% done", "100%", "M106 S%d; fan", "M104 S%d T%d", "", " ", "  indented", "tab\there", "TYPE:FILL", "a;b", "%%", "100%d", "{x}", "\"quoted\"", "\\n", "ü€"}).Draw(t, "text")
	if rapid.IntRange(0, 11).Draw(t, "long") == 0 {
		return strings.Repeat(s+"%d ", rapid.IntRange(5, 100).Draw(t, "times")), nil
	}
	if rapid.IntRange(0, 3).Draw(t, "random?") == 0 {
		s = rapid.StringMatching(`[A-Za-z0-9 %;=.,_{}()+*/\\-]{0,20}`).Draw(t, "randomtext")
		return s, nil
	}
	n := strings.Count(s, "%d")
	if n == 0 || (s == "100%d" && rapid.Bool().Draw(t, "noargs")) {
		return s, nil
	}
	var args []int
	for i := 0; i < n; i++ {
		args = append(args, rapid.IntRange(-5, 300).Draw(t, "arg"))
	}
	return s, args
}

func genPathPoints(t *rapid.T, lo, hi int) []P {
	n := rapid.IntRange(lo, hi).Draw(t, "npts")
	var out []P
	base := P{rapid.Int64Range(-300000, 300000).Draw(t, "bx"), rapid.Int64Range(-300000, 300000).Draw(t, "by")}
	step := rapid.SampledFrom([]int64{3, 60, 1000, 30000}).Draw(t, "step")
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 12).Draw(t, "same") == 0 {
			base = out[rapid.IntRange(0, len(out)-1).Draw(t, "which")]
		} else {
			base = P{base[0] + rapid.Int64Range(-step, step).Draw(t, "dx"), base[1] + rapid.Int64Range(-step, step).Draw(t, "dy")}
		}
		out = append(out, base)
	}
	return out
}

func init() {
	Register("C18", "calls", 40000, 1000000,
		"sequences of 1..25 builder calls (speeds also with fractions, speed overrides, extrusion settings, raw moves, retractions, moves repeated up to 3000 times, commands and comments with any characters, open and closed paths of 0..20 points with repeated points); the text is interpreted and compared with a reference model line by line; non-trivial: more than five moves and a path",
		func(t *rapid.T) builderCase {
			k := builderCase{FilDia: maybe(t, "fildia", 1750, rapid.Int64Range(1000, 3000)), ExMult: maybe(t, "exmult", 100, rapid.IntRange(1, 300))}
			n := rapid.IntRange(1, 25).Draw(t, "nops")
			last := V{}
			for i := 0; i < n; i++ {
				op := bop{Op: rapid.SampledFrom([]string{"path", "path", "path", "move", "move", "movespeedop", "extrusion", "movespeed", "extrudespeed", "override", "nooverride", "retraction", "command", "comment"}).Draw(t, "op")}
				if i == 0 && rapid.IntRange(0, 3).Draw(t, "first") > 0 {
					op.Op = "extrusion"
				}
				switch op.Op {
				case "extrusion":
					op.P = V{rapid.Int64Range(20, 600).Draw(t, "lt"), rapid.Int64Range(100, 1500).Draw(t, "lw"), 0}
				case "movespeed", "extrudespeed", "override":
					op.S = genSpeed(t, "speed")
				case "retraction":
					op.S, op.E = genSpeed(t, "rspeed"), float64(rapid.IntRange(0, 60).Draw(t, "ramount"))/10
				case "command", "comment":
					op.T, op.Args = genText(t)
				case "move", "movespeedop":
					if rapid.IntRange(0, 3).Draw(t, "keep") > 0 {
						for a := range last {
							if rapid.Bool().Draw(t, "axis") {
								last[a] = rapid.Int64Range(-400000, 400000).Draw(t, "coord")
							}
						}
					}
					op.P = last
					op.E = rapid.SampledFrom([]float64{0, 0, 0.03, 1, -2, 0.00001, 17.3}).Draw(t, "e")
					if rapid.IntRange(0, 3).Draw(t, "randome") == 0 {
						op.E = float64(rapid.IntRange(-50000, 500000).Draw(t, "e2")) / 10000
					}
					op.S = genSpeed(t, "speed")
					if op.Op == "move" && rapid.IntRange(0, 9).Draw(t, "repeat") == 0 {
						op.N = rapid.IntRange(1, 3000).Draw(t, "n")
					}
				case "path":
					op.Path = genPathPoints(t, 0, 20)
					op.Open = rapid.Bool().Draw(t, "open")
					op.P = V{0, 0, rapid.SampledFrom([]int64{200, 400, 0, -5, 123456}).Draw(t, "z")}
					if rapid.IntRange(0, 19).Draw(t, "repeat") == 0 {
						op.N = rapid.IntRange(1, 300).Draw(t, "n")
					}
				}
				k.Ops = append(k.Ops, op)
			}
			return k
		}, checkBuilder)
}
