package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Move is one G0/G1 command. Coordinates in micrometres, E in mm.
type Move struct {
	G                int
	From, To         [3]float64
	HasX, HasY, HasZ bool
	HasE, HasF       bool
	E0, E1           float64
	F                float64 // mm per minute in force
	Layer            int
	Type, Sub        string
	Line             int
	Known            bool // X, Y and Z were set before this move ended
	FromKnown        bool
	InStart, InEnd   bool
	Section          int // running number of the last TYPE comment
}

func (m Move) DE() float64    { return m.E1 - m.E0 }
func (m Move) A() F           { return F{m.From[0], m.From[1]} }
func (m Move) B() F           { return F{m.To[0], m.To[1]} }
func (m Move) Seg() Seg       { return Seg{m.A(), m.B()} }
func (m Move) XYLen() float64 { return m.A().Dist(m.B()) }

// GLine is one line of G-code with the layer it belongs to (-1 before the first).
type GLine struct {
	Text  string
	Layer int
}

// GCode is a parsed program.
type GCode struct {
	Moves  []Move
	Lines  []GLine
	Layers []int // LAYER comments in order
}

// parseG interprets the G-code the way a printer with absolute positions and
// absolute extrusion does.
func parseG(g string) (GCode, error) {
	var out GCode
	pos := [3]float64{}
	known := [3]bool{}
	e, f := 0.0, 0.0
	layer, typ, sub, section := -1, "", "", 0
	if g != "" && !strings.HasSuffix(g, "\n") {
		return out, fmt.Errorf("the G-code does not end with a line break")
	}
	lines := strings.Split(g, "\n")
	if len(lines) > 0 {
		lines = lines[:len(lines)-1]
	}
	for i, raw := range lines {
		if strings.HasPrefix(raw, ";LAYER:") {
			n, err := strconv.Atoi(raw[7:])
			if err != nil {
				return out, fmt.Errorf("line %d: bad layer comment %q", i+1, raw)
			}
			layer = n
			typ, sub = "", ""
			out.Layers = append(out.Layers, n)
		} else if strings.HasPrefix(raw, ";TYPE:") {
			typ, sub = raw[6:], ""
			section++
		} else if strings.HasPrefix(raw, ";") && typ == "FILL" && strings.HasSuffix(raw, "-FILL") {
			sub = raw[1:]
		}
		out.Lines = append(out.Lines, GLine{raw, layer})
		text := raw
		if k := strings.IndexByte(text, ';'); k >= 0 {
			text = text[:k]
		}
		fields := strings.Fields(text)
		if len(fields) == 0 {
			continue
		}
		switch fields[0] {
		case "G0", "G1":
			m := Move{G: int(fields[0][1] - '0'), From: pos, E0: e, Layer: layer, Type: typ, Sub: sub, Line: i + 1, Section: section,
				FromKnown: known[0] && known[1] && known[2]}
			seen := map[byte]bool{}
			for _, w := range fields[1:] {
				v, err := strconv.ParseFloat(w[1:], 64)
				if err != nil || seen[w[0]] {
					return out, fmt.Errorf("line %d: bad word in %q", i+1, raw)
				}
				seen[w[0]] = true
				switch w[0] {
				case 'X':
					pos[0], known[0], m.HasX = v*1000, true, true
				case 'Y':
					pos[1], known[1], m.HasY = v*1000, true, true
				case 'Z':
					pos[2], known[2], m.HasZ = v*1000, true, true
				case 'E':
					e, m.HasE = v, true
				case 'F':
					f, m.HasF = v, true
				default:
					return out, fmt.Errorf("line %d: bad word in %q", i+1, raw)
				}
			}
			m.To, m.E1, m.F = pos, e, f
			m.Known = known[0] && known[1] && known[2]
			out.Moves = append(out.Moves, m)
		case "G92":
			for _, w := range fields[1:] {
				if w[0] == 'E' {
					v, err := strconv.ParseFloat(w[1:], 64)
					if err != nil {
						return out, fmt.Errorf("line %d: bad word in %q", i+1, raw)
					}
					e = v
				}
			}
		}
	}
	return out, nil
}

// printed returns the moves that deposit material while moving in XY,
// inside layers (start and end code excluded by layer >= 0).
func (g GCode) printed() []Move {
	var out []Move
	for _, m := range g.Moves {
		if m.Layer >= 0 && m.HasE && m.DE() > 0 && m.XYLen() > 0 {
			out = append(out, m)
		}
	}
	return out
}
