package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"github.com/aligator/goslice/data"
)

// ftri is a triangle in float32 millimetres, as stored in an STL file.
type ftri [3][3]float32

// toUm is the documented conversion: millimetres to whole micrometres, rounded
// half to even. (float32 product: the type of a Millimeter.)
func toUm(mm float32) int64 { return int64(math.RoundToEven(float64(mm * 1000))) }

// mm32 returns a float32 that converts back to exactly v micrometres.
func mm32(v int64) float32 {
	f := float32(float64(v) / 1000)
	for i := 0; i < 4 && toUm(f) != v; i++ {
		if toUm(f) < v {
			f = math.Nextafter32(f, float32(math.Inf(1)))
		} else {
			f = math.Nextafter32(f, float32(math.Inf(-1)))
		}
	}
	return f
}

func ftris(ts []Tri) []ftri {
	out := make([]ftri, len(ts))
	for i, t := range ts {
		for j, v := range t {
			for k := range v {
				out[i][j][k] = mm32(v[k])
			}
		}
	}
	return out
}

func trisOf(fs []ftri) []Tri {
	out := make([]Tri, len(fs))
	for i, t := range fs {
		for j, v := range t {
			for k := range v {
				out[i][j][k] = toUm(v[k])
			}
		}
	}
	return out
}

// writeBinarySTL encodes the triangles; header is padded/cut to 80 bytes.
func writeBinarySTL(header string, fs []ftri) []byte {
	var b bytes.Buffer
	h := make([]byte, 80)
	copy(h, header)
	b.Write(h)
	_ = binary.Write(&b, binary.LittleEndian, uint32(len(fs)))
	for i, t := range fs {
		_ = binary.Write(&b, binary.LittleEndian, [3]float32{0, 0, 0})
		_ = binary.Write(&b, binary.LittleEndian, t)
		_ = binary.Write(&b, binary.LittleEndian, uint16(i*7))
	}
	return b.Bytes()
}

// asciiStyle varies the lexical form of an ASCII STL.
type asciiStyle struct {
	CRLF  bool `json:"crlf,omitempty"`
	Tabs  bool `json:"tabs,omitempty"`
	Float int  `json:"float,omitempty"` // 0: shortest 'g', 1: 'e', 2: 'f' with 9 digits
	Blank bool `json:"blank,omitempty"` // blank lines between the facets
	// Lines 1: a facet per line, 2: a word per line
	Lines int `json:"lines,omitempty"`
	// End 1: no name behind endsolid, 2: no line end behind it, 3: both
	End    int        `json:"end,omitempty"`
	Normal [3]float32 `json:"normal,omitempty"`
}

func writeASCIISTL(name string, fs []ftri, st asciiStyle) []byte {
	var b strings.Builder
	nl, ind := "\n", "  "
	if st.CRLF {
		nl = "\r\n"
	}
	if st.Tabs {
		ind = "\t"
	}
	num := func(f float32) string {
		switch st.Float {
		case 1:
			return strconv.FormatFloat(float64(f), 'e', 8, 32)
		case 2:
			return strconv.FormatFloat(float64(f), 'f', 9, 32)
		}
		return strconv.FormatFloat(float64(f), 'g', -1, 32)
	}
	b.WriteString("solid " + name + nl)
	eol, sp := nl, " "
	switch st.Lines {
	case 1:
		nl = " "
	case 2:
		sp = nl
	}
	for _, t := range fs {
		b.WriteString(ind + "facet" + sp + "normal" + sp + num(st.Normal[0]) + sp + num(st.Normal[1]) + sp + num(st.Normal[2]) + nl + ind + ind + "outer" + sp + "loop" + nl)
		for _, v := range t {
			b.WriteString(ind + ind + ind + "vertex" + sp + num(v[0]) + sp + num(v[1]) + sp + num(v[2]) + nl)
		}
		b.WriteString(ind + ind + "endloop" + nl + ind + "endfacet" + eol)
		if st.Blank {
			b.WriteString(eol)
		}
	}
	b.WriteString("endsolid")
	if st.End&1 == 0 {
		b.WriteString(" " + name)
	}
	if st.End&2 == 0 {
		b.WriteString(eol)
	}
	return []byte(b.String())
}

var fileCounter int

// scratchPath returns a fresh path below the scratch directory.
func scratchPath(suffix string) string {
	fileCounter++
	return filepath.Join(scratchDir, fmt.Sprintf("f%d_%d%s", os.Getpid(), fileCounter, suffix))
}

func writeScratch(suffix string, b []byte) string {
	p := scratchPath(suffix)
	if err := os.WriteFile(p, b, 0o644); err != nil {
		panic("harness: " + err.Error())
	}
	return p
}

// memModel is a data.Model over triangles.
type memModel struct{ ts []Tri }

type memFace struct{ t Tri }

func vec(v V) data.MicroVec3 {
	return data.NewMicroVec3(data.Micrometer(v[0]), data.Micrometer(v[1]), data.Micrometer(v[2]))
}
func unvec(v data.MicroVec3) V { return V{int64(v.X()), int64(v.Y()), int64(v.Z())} }

func (f memFace) Points() [3]data.MicroVec3 {
	return [3]data.MicroVec3{vec(f.t[0]), vec(f.t[1]), vec(f.t[2])}
}
func (m memModel) FaceCount() int       { return len(m.ts) }
func (m memModel) Face(i int) data.Face { return memFace{m.ts[i]} }
func (m memModel) Min() data.MicroVec3 {
	a, _ := bounds3(m.ts)
	return vec(a)
}
func (m memModel) Max() data.MicroVec3 {
	_, b := bounds3(m.ts)
	return vec(b)
}

func modelTris(m data.Model) []Tri {
	out := make([]Tri, m.FaceCount())
	for i := range out {
		p := m.Face(i).Points()
		out[i] = Tri{unvec(p[0]), unvec(p[1]), unvec(p[2])}
	}
	return out
}
