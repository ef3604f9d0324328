package main

import (
	"fmt"
	"io"
	"log"
	"reflect"
	"strings"
	"sync"

	"github.com/aligator/goslice"
	"github.com/aligator/goslice/data"
	"pgregory.net/rapid"
)

// stickyModel hands out the same points every time, so that changes to them
// show.
type stickyModel struct{ pts [][3]data.MicroVec3 }

type stickyFace struct{ p [3]data.MicroVec3 }

func (f stickyFace) Points() [3]data.MicroVec3 { return f.p }

func newSticky(ts []Tri) stickyModel {
	var m stickyModel
	for _, t := range ts {
		m.pts = append(m.pts, [3]data.MicroVec3{vec(t[0]), vec(t[1]), vec(t[2])})
	}
	return m
}

func (m stickyModel) FaceCount() int       { return len(m.pts) }
func (m stickyModel) Face(i int) data.Face { return stickyFace{m.pts[i]} }
func (m stickyModel) tris() []Tri {
	var out []Tri
	for _, p := range m.pts {
		out = append(out, Tri{unvec(p[0]), unvec(p[1]), unvec(p[2])})
	}
	return out
}
func (m stickyModel) Min() data.MicroVec3 { a, _ := bounds3(m.tris()); return vec(a) }
func (m stickyModel) Max() data.MicroVec3 { _, b := bounds3(m.tris()); return vec(b) }

type multiReader map[string]data.Model

func (r multiReader) Read(name string) (data.Model, error) { return r[name], nil }

func runInstance(gs *goslice.GoSlice, m data.Model) (string, error) {
	w := &memWriter{}
	gs.Reader, gs.Writer = multiReader{"a": m}, w
	gs.Options.InputFilePath = "a"
	if err := gs.Process(); err != nil {
		return "", err
	}
	return w.gcode, nil
}

// outcome is G-code or error text.
func outcome(gs *goslice.GoSlice, m data.Model) string {
	g, err := runInstance(gs, m)
	if err != nil {
		return "error: " + err.Error()
	}
	return g
}

// snapshot copies everything reachable from the options.
func snapshot(o data.Options) data.Options {
	lut := o.Filament.FanSpeed.LayerToSpeedLUT
	o.Filament.FanSpeed.LayerToSpeedLUT = map[int]int{}
	for k, v := range lut {
		o.Filament.FanSpeed.LayerToSpeedLUT[k] = v
	}
	o.Printer.StartGCode = data.NewGCodeHunk(append([]string(nil), o.Printer.StartGCode.GCodeLines...))
	o.Printer.EndGCode = data.NewGCodeHunk(append([]string(nil), o.Printer.EndGCode.GCodeLines...))
	o.Printer.Center = o.Printer.Center.Copy()
	return o
}

// scramble changes everything the options refer to and all values.
func scramble(o *data.Options) {
	for k := range o.Filament.FanSpeed.LayerToSpeedLUT {
		o.Filament.FanSpeed.LayerToSpeedLUT[k] = 99 - k%7
	}
	o.Filament.FanSpeed.LayerToSpeedLUT[0] = 42
	o.Filament.FanSpeed.LayerToSpeedLUT[1] = 43
	for i := range o.Printer.StartGCode.GCodeLines {
		o.Printer.StartGCode.GCodeLines[i] = "M117 changed"
	}
	for i := range o.Printer.EndGCode.GCodeLines {
		o.Printer.EndGCode.GCodeLines[i] = "M117 changed too"
	}
	o.Printer.Center.SetX(o.Printer.Center.X() + 12345)
	o.Printer.Center.SetY(o.Printer.Center.Y() - 5432)
	o.Printer.Center.SetZ(77)
	for _, f := range flagTable {
		switch p := f.field(o).(type) {
		case *bool:
			*p = !*p
		case *int:
			*p += 3
		case *data.Micrometer:
			*p += 50
		case *data.Millimeter:
			*p += 7
		case *string:
			*p = "/nonexistent/elsewhere"
		}
	}
}

type againCase struct {
	A Mesh `json:"a"`
	B Mesh `json:"b"`
	O Opt  `json:"o"`
	P Opt  `json:"p"`
	// operations: 0 new instance, 1 same instance, 2 same instance after model B, 3 other instance with other options in between, 4 from a file, 5 new instance after model B
	Ops []int `json:"ops"`
}

func checkAgain(c *Ctx, k againCase) error {
	ta, tb := k.A.Tris(), k.B.Tris()
	o := k.O.Data()
	before := snapshot(o)
	m := newSticky(ta)
	gs := goslice.NewGoSlice(o)
	first := outcome(gs, m)
	if !reflect.DeepEqual(m.tris(), ta) {
		return fmt.Errorf("the model was modified")
	}
	for i, op := range k.Ops {
		inst := gs
		model := data.Model(m)
		switch op {
		case 0:
			inst = goslice.NewGoSlice(o)
		case 2:
			_ = outcome(gs, newSticky(tb))
		case 3:
			_ = outcome(goslice.NewGoSlice(k.P.Data()), newSticky(tb))
			if i%2 == 0 {
				inst = goslice.NewGoSlice(o)
			}
		case 5:
			// a new instance which first handles another model
			inst = goslice.NewGoSlice(o)
			_ = outcome(inst, newSticky(tb))
		case 4:
			// the same triangles without shared points
			model = memModel{ta}
		}
		if got := outcome(inst, model); got != first {
			return fmt.Errorf("run %d (kind %d) differs from the first: %s", i+2, op, firstDiff(got, first))
		}
	}
	if err := sameOptions(o, before); err != nil {
		return fmt.Errorf("the options were modified: %w", err)
	}
	if !reflect.DeepEqual(m.tris(), ta) {
		return fmt.Errorf("the model was modified")
	}
	if len(first) > 2000 && !strings.HasPrefix(first, "error") && len(k.Ops) > 1 {
		c.NonTrivial()
	}
	return nil
}

func checkCaller(c *Ctx, k againCase) error {
	ta := k.A.Tris()
	o := k.O.Data()
	want := outcome(goslice.NewGoSlice(snapshot(o)), memModel{ta})
	gs := goslice.NewGoSlice(o)
	if len(k.Ops) > 1 {
		// the first run before the change
		if got := outcome(gs, memModel{ta}); got != want {
			return fmt.Errorf("two instances differ: %s", firstDiff(got, want))
		}
	}
	scramble(&o)
	if got := outcome(gs, memModel{ta}); got != want {
		return fmt.Errorf("changing the caller's options after creating the instance changes the result: %s", firstDiff(got, want))
	}
	if gs.Options.OutputFilePath != "" {
		return fmt.Errorf("the output path changed with the caller's options")
	}
	if len(want) > 2000 && len(k.O.Fan) > 0 {
		c.NonTrivial()
	}
	return nil
}

type parallelCase struct {
	Meshes []Mesh `json:"meshes"`
	Opts   []Opt  `json:"opts"`
	Shared bool   `json:"shared"` // all instances get the very same options value
	Rounds int    `json:"rounds"`
}

func checkParallel(c *Ctx, k parallelCase) error {
	n := len(k.Meshes)
	want := make([]string, n)
	shared := k.Opts[0].Data()
	shared.GoSlice.Logger = log.New(io.Discard, "", 0)
	get := func(i int) data.Options {
		if k.Shared {
			return shared
		}
		return k.Opts[i%len(k.Opts)].Data()
	}
	models := make([]stickyModel, n)
	for i := range want {
		models[i] = newSticky(k.Meshes[i].Tris())
		want[i] = outcome(goslice.NewGoSlice(get(i)), models[i])
	}
	var wg sync.WaitGroup
	errs := make(chan error, n*k.Rounds*2)
	for i := 0; i < n; i++ {
		for r := 0; r < k.Rounds; r++ {
			wg.Add(1)
			go func(i, r int) {
				defer wg.Done()
				gs := goslice.NewGoSlice(get(i))
				for j := 0; j < 2; j++ {
					// the model is shared by the rounds
					if got := outcome(gs, models[i]); got != want[i] {
						errs <- fmt.Errorf("model %d sliced concurrently differs: %s", i, firstDiff(got, want[i]))
						return
					}
				}
			}(i, r)
		}
	}
	wg.Wait()
	select {
	case err := <-errs:
		return err
	default:
	}
	if n > 1 && len(want[0]) > 1000 && len(want[1]) > 1000 {
		c.NonTrivial()
	}
	return nil
}

func genParallel(t *rapid.T) parallelCase {
	k := parallelCase{Shared: rapid.IntRange(0, 2).Draw(t, "shared") == 0, Rounds: rapid.IntRange(1, 2).Draw(t, "rounds")}
	n := rapid.IntRange(2, 4).Draw(t, "n")
	for i := 0; i < n; i++ {
		s := genPrint(t, 2, 4)
		k.Meshes = append(k.Meshes, s.Mesh)
		k.Opts = append(k.Opts, s.O)
	}
	return k
}

func genAgain(t *rapid.T) againCase {
	a := genPrint(t, 3, 5)
	k := againCase{A: a.Mesh, O: a.O, P: genOpt(t)}
	k.B = genPrint(t, 2, 5).Mesh
	k.Ops = rapid.SliceOfN(rapid.IntRange(0, 5), 1, 5).Draw(t, "ops")
	return k
}

func init() {
	Register("C25", "again", 1200, 40000,
		"closed meshes (1..3 bodies) with complete random options, sliced again 1..5 times: in a new instance, the same one, after another model, after another instance with other options; byte-identical results, options and model unmodified; non-trivial: at least two more runs and 2 kB of G-code",
		genAgain, checkAgain)
	Register("C25", "caller", 1200, 40000,
		"as above, but all settings of the caller's options (and the tables, lines and points they refer to) are changed after creating the instance; non-trivial: fan table and 2 kB of G-code",
		genAgain, checkCaller)
	Register("C25", "parallel", 400, 12000,
		"2..4 models with different or the very same options, each sliced by 1..2 instances twice, all concurrently; results as when sliced alone; non-trivial: two models with 1 kB of G-code",
		genParallel, checkParallel)
	Register("C25", "race-parallel", 48, 1600,
		"as above, under Go's race detector; non-trivial: two models with 1 kB of G-code",
		genParallel, checkParallel)
}
