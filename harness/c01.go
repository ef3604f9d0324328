package main

import (
	"fmt"
	"math"
	"os"
	"strings"

	"github.com/aligator/goslice/data"
	"github.com/aligator/goslice/reader"
	"pgregory.net/rapid"
)

func readSTL(path string) (data.Model, error) {
	d := data.DefaultOptions()
	return reader.Reader(&d).Read(path)
}

// readBytes writes the bytes to a scratch file, reads it and removes it.
func readBytes(b []byte) (data.Model, error) {
	p := writeScratch(".stl", b)
	defer os.Remove(p)
	return readSTL(p)
}

var genCoord = rapid.Custom(func(t *rapid.T) float32 {
	switch rapid.IntRange(0, 5).Draw(t, "ckind") {
	case 0:
		return float32(rapid.IntRange(-3, 3).Draw(t, "int"))
	case 1:
		return mm32(rapid.Int64Range(-2000000, 2000000).Draw(t, "um"))
	case 2: // half micrometres
		return float32(float64(rapid.Int64Range(-400000, 400000).Draw(t, "half"))/2000 + 0.0005)
	case 3:
		return rapid.Float32Range(-3000, 3000).Draw(t, "f")
	case 4:
		return rapid.Float32Range(-0.01, 0.01).Draw(t, "small")
	}
	return rapid.SampledFrom([]float32{0, float32(math.Copysign(0, -1)), 1e-20, -1e-20, 250.0005, -0.0005, 0.0005, 0.0015, 99999}).Draw(t, "special")
})

var genFtris = rapid.Custom(func(t *rapid.T) []ftri {
	n := rapid.IntRange(1, 12).Draw(t, "faces")
	var out []ftri
	for i := 0; i < n; i++ {
		if i > 0 && rapid.IntRange(0, 5).Draw(t, "dup") == 0 {
			out = append(out, out[rapid.IntRange(0, i-1).Draw(t, "of")])
			continue
		}
		var f ftri
		for j := range f {
			for k := range f[j] {
				f[j][k] = genCoord.Draw(t, "c")
			}
		}
		out = append(out, f)
	}
	return out
})

var genStyle = rapid.Custom(func(t *rapid.T) asciiStyle {
	return asciiStyle{CRLF: rapid.Bool().Draw(t, "crlf"), Tabs: rapid.Bool().Draw(t, "tabs"), Float: rapid.IntRange(0, 2).Draw(t, "float"), Blank: rapid.Bool().Draw(t, "blank"),
		Lines:  max(0, rapid.IntRange(-2, 2).Draw(t, "lines")),
		End:    rapid.IntRange(0, 3).Draw(t, "end"),
		Normal: rapid.SampledFrom([][3]float32{{}, {}, {0, 0, 1}, {-0.5, 1e-9, 3}, {0, -1, 7e12}}).Draw(t, "normal")}
})

// exactModel checks a loaded model against the triangles of the file.
func exactModel(m data.Model, fs []ftri, what string) error {
	if m.FaceCount() != len(fs) {
		return fmt.Errorf("%s: the file has %d triangles, the model %d", what, len(fs), m.FaceCount())
	}
	ts := modelTris(m)
	for i, t := range ts {
		for j, v := range t {
			for k := range v {
				exact := float64(fs[i][j][k]) * 1000
				// half a micrometre, and the resolution of the file's own float32
				if math.Abs(float64(v[k])-exact) > 0.5+1.2e-7*math.Abs(exact)+1e-9 {
					return fmt.Errorf("%s: triangle %d vertex %d coordinate %d: the file has %v mm, the model %d um", what, i, j, k, fs[i][j][k], v[k])
				}
			}
		}
	}
	min, max := bounds3(ts)
	if a, b := unvec(m.Min()), unvec(m.Max()); a != min || b != max {
		return fmt.Errorf("%s: the bounds are %v %v, the model reports %v %v", what, min, max, a, b)
	}
	return nil
}

type c01Case struct {
	Tris   []ftri     `json:"tris"`
	Header string     `json:"header"`
	Name   string     `json:"name"`
	Style  asciiStyle `json:"style"`
	// More triangles which are derived from the ones before
	More int `json:"more,omitempty"`
}

func (k c01Case) all() []ftri {
	out := append([]ftri(nil), k.Tris...)
	for i := 0; i < k.More; i++ {
		f := out[i]
		f[i%3][i/3%3] = mm32(int64(i)*7 - 40000)
		out = append(out, f)
	}
	return out
}

func init() {
	Register("C01", "roundtrip", 3000, 60000,
		"1..12 (rarely up to 70000) triangles (coordinates on and off the micrometre grid, halves, zero, duplicates) written by our own encoder as binary and as ASCII in several lexical styles, read back and compared; non-trivial: at least 2 triangles",
		func(t *rapid.T) c01Case {
			k := c01Case{
				Tris:   genFtris.Draw(t, "tris"),
				Header: rapid.SampledFrom([]string{"", "solid model", "solid ", "binary stl", "\x00\xff\x01", strings.Repeat("h", 80)}).Draw(t, "header"),
				Name:   rapid.SampledFrom([]string{"", "model", "two words", "facet", "endsolid", "ünïcode"}).Draw(t, "name"),
				Style:  genStyle.Draw(t, "style"),
			}
			if rapid.IntRange(0, 149).Draw(t, "more?") == 0 {
				k.More = rapid.IntRange(20, 5000).Draw(t, "more")
				if rapid.IntRange(0, 4).Draw(t, "most") == 0 {
					k.More *= 14 // more than 65536 of them
				}
			}
			return k
		},
		func(c *Ctx, k c01Case) error {
			k.Tris = k.all()
			if len(k.Tris) > 1 {
				c.NonTrivial()
			}
			bin := writeBinarySTL(k.Header, k.Tris)
			asc := writeASCIISTL(k.Name, k.Tris, k.Style)
			mb, err := readBytes(bin)
			if err != nil {
				return fmt.Errorf("reading binary: %w", err)
			}
			if err := exactModel(mb, k.Tris, "binary"); err != nil {
				return err
			}
			if (len(asc)-84)%50 == 0 {
				c.Label("ascii with binary size")
			}
			ma, err := readBytes(asc)
			if err != nil {
				return fmt.Errorf("reading ASCII: %w", err)
			}
			if err := exactModel(ma, k.Tris, "ASCII"); err != nil {
				return err
			}
			a, b := modelTris(ma), modelTris(mb)
			for i := range a {
				if a[i] != b[i] {
					return fmt.Errorf("triangle %d: ASCII %v, binary %v", i, a[i], b[i])
				}
			}
			// reading again gives the same: no state is kept
			mc, err := readBytes(bin)
			if err != nil || mc.FaceCount() != mb.FaceCount() {
				return fmt.Errorf("reading the same file again: %d faces instead of %d, error %v", mc.FaceCount(), mb.FaceCount(), err)
			}
			return nil
		})

	type badCase struct {
		Tris  []ftri     `json:"tris"`
		Style asciiStyle `json:"style"`
		ASCII bool       `json:"ascii"`
		Kind  string     `json:"kind"`
		At    int        `json:"at"` // position, in permille of what can be damaged
		Word  string     `json:"word"`
	}
	Register("C01", "malformed", 3000, 60000,
		"a valid file is truncated at any byte, loses or replaces any token of a facet (or two of them), gets a second solid, gets a wrong triangle count or a non-finite or absurd coordinate, or is missing, empty or a directory; reading it must give an error; non-trivial: every case",
		func(t *rapid.T) badCase {
			k := badCase{Tris: genFtris.Draw(t, "tris"), Style: genStyle.Draw(t, "style"), ASCII: rapid.Bool().Draw(t, "ascii")}
			kinds := []string{"truncate", "truncate", "count", "coordinate", "missing", "empty", "directory"}
			if k.ASCII {
				kinds = []string{"truncate", "truncate", "drop token", "drop token", "replace token", "replace token", "two tokens", "second solid", "header", "coordinate", "drop end"}
			}
			k.Kind = rapid.SampledFrom(kinds).Draw(t, "kind")
			k.At = rapid.IntRange(0, 999).Draw(t, "at")
			k.Word = rapid.SampledFrom([]string{"x", "vertexx", "1.0.0", "--1", "1e", "0x", "nan", "inf", "-inf", "1e30", "3e38"}).Draw(t, "word")
			return k
		},
		func(c *Ctx, k badCase) error {
			c.NonTrivial()
			c.Label("%s ascii=%v", k.Kind, k.ASCII)
			var b []byte
			if k.ASCII {
				b = writeASCIISTL("m", k.Tris, k.Style)
			} else {
				b = writeBinarySTL("m", k.Tris)
			}
			// tokens of the facets
			type tok struct{ from, to int }
			var toks, nums []tok
			if k.ASCII {
				nl := strings.IndexByte(string(b), '\n') + 1
				end := strings.LastIndex(string(b), "endsolid")
				word := 0
				for i := nl; i < end; {
					for i < end && strings.IndexByte(" \t\r\n", b[i]) >= 0 {
						i++
					}
					j := i
					for j < end && strings.IndexByte(" \t\r\n", b[j]) < 0 {
						j++
					}
					if j > i {
						toks = append(toks, tok{i, j})
						if word%21 > 7 && word%21 < 19 && (word%21-7)%4 != 0 {
							nums = append(nums, tok{i, j})
						}
						word++
					}
					i = j
				}
			}
			pick := func(s []tok) tok { return s[k.At*len(s)/1000] }
			switch k.Kind {
			case "truncate":
				n := len(b) - 1
				if k.ASCII {
					n = strings.LastIndex(string(b), "endsolid") + 7
				}
				b = b[:k.At*(n+1)/1000]
			case "drop end":
				b = b[:strings.LastIndex(string(b), "endsolid")]
			case "drop token":
				t := pick(toks)
				b = append(append([]byte{}, b[:t.from]...), b[t.to:]...)
			case "replace token":
				t := pick(toks)
				w := k.Word
				if w == "nan" || w == "inf" || w == "-inf" || w == "1e30" || w == "3e38" {
					w = "x"
				}
				b = []byte(string(b[:t.from]) + w + string(b[t.to:]))
			case "two tokens": // the first and the last word of one facet
				n := k.At * len(k.Tris) / 1000 * 21
				b = []byte(string(b[:toks[n].from]) + k.Word + string(b[toks[n].to:toks[n+20].from]) + k.Word + string(b[toks[n+20].to:]))
			case "second solid":
				b = append(b, writeASCIISTL("n", k.Tris, k.Style)...)
			case "header":
				b = append([]byte("s0lid"), b[5:]...)
			case "coordinate":
				if k.ASCII {
					t := pick(nums)
					w := k.Word
					if w != "nan" && w != "inf" && w != "-inf" && w != "1e30" && w != "3e38" {
						w = "NaN"
					}
					b = []byte(string(b[:t.from]) + w + string(b[t.to:]))
				} else {
					i := k.At * len(k.Tris) * 9 / 1000
					f := append([]ftri(nil), k.Tris...)
					f[i/9][i/3%3][i%3] = map[string]float32{"nan": float32(math.NaN()), "inf": float32(math.Inf(1)), "-inf": float32(math.Inf(-1)), "1e30": 1e30}[k.Word]
					if f[i/9][i/3%3][i%3] == 0 {
						f[i/9][i/3%3][i%3] = 3e38
					}
					b = writeBinarySTL("m", f)
				}
			case "count":
				n := len(k.Tris) + 1 + k.At
				if k.At%2 == 0 {
					n = k.At / 2 % len(k.Tris)
				}
				b[80], b[81] = byte(n), byte(n>>8)
			}
			var m data.Model
			var err error
			switch k.Kind {
			case "missing":
				m, err = readSTL(scratchPath(".stl"))
			case "directory":
				m, err = readSTL(scratchDir)
			case "empty":
				m, err = readBytes(nil)
			default:
				m, err = readBytes(b)
			}
			if err == nil {
				return fmt.Errorf("no error for this file, but a model with %d faces", m.FaceCount())
			}
			return nil
		})
}
